Contracts of src/tokio_util/delay_queue.rs over those of the wheel (unit wheel) and of Sleep (C07).

== assume wheel
== file src/tokio_util/mod.rs
== file src/tokio_util/delay_queue.rs
== option public
== option unfor
== option calls compact
== drop fmt::Debug for SlabStorage
== drop Unpin for DelayQueue
== drop DelayQueue::Item
== rename src/tokio_util/delay_queue.rs `Default for DelayQueue<T>` => `DelayQueue<T>` -- a method of its own
== rename src/tokio_util/delay_queue.rs `futures::Stream for DelayQueue<T>` => `DelayQueue<T>` -- a method of its own
== rename src/tokio_util/delay_queue.rs `self: Pin<&mut Self>` => `&mut self` -- a method of its own
== rename src/tokio_util/delay_queue.rs `self.get_mut()` => `self` -- a method of its own
== rename src/tokio_util/delay_queue.rs `Self::Item` => `Expired<T>` -- a method of its own
== rename src/tokio_util/delay_queue.rs `wheel::Stack for Stack<T>` => `EntryStack for Stack<T>` -- one name space
== rename src/tokio_util/delay_queue.rs `Stack` => `KeyStack` -- two things called Stack
== rename src/tokio_util/delay_queue.rs `EntryStack for` => `Stack for` -- one name space
== rename src/tokio_util/delay_queue.rs `super::ms` => `ms` -- one name space
== rename src/tokio_util/delay_queue.rs `super::Round` => `Round` -- one name space
== rename src/tokio_util/delay_queue.rs `task::Context` => `Context` -- one name space
== rename src/tokio_util/delay_queue.rs `PhantomData<fn() -> T>` => `PhantomData<T>` -- variance
== rename src/tokio_util/delay_queue.rs `Box::pin` => `Pin::pin` -- Box and Pin are stand-ins
== item uses
use std::collections::HashMap as StdHashMap;
use std::ops::{Add, Sub, Index, IndexMut};
use std::cmp::{self, Ordering};
use std::marker::PhantomData;
use vstd::std_specs::cmp::*;
== item Key
#[derive(Clone, Copy, PartialEq, Eq, Hash, Structural)]
== item KeyInternal
#[derive(Clone, Copy, PartialEq, Eq, Hash, Structural)]
== item DelayQueue
#[verifier::reject_recursive_types(T)]
== item SlabStorage
#[verifier::reject_recursive_types(T)]
== item Round
#[derive(Clone, Copy)]
== prelude
pub axiom fn axiom_borrow_self<O>(o: O)
    ensures key_of::<O, O>(o) == o;

pub assume_specification<T> [std::option::Option::<&T>::copied] (o: std::option::Option<&T>) -> (r: std::option::Option<T>)
    where T: std::marker::Copy
    ensures r == match o { Some(x) => Some(*x), None => None };

pub assume_specification<T> [std::cmp::max] (a: T, b: T) -> (r: T)
    where T: std::cmp::Ord + std::marker::Destruct
    ensures T::obeys_cmp_spec() ==> r == if a.cmp_spec(&b) == Ordering::Greater { a } else { b };

// --- time: the contracts of C01 ---

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { d: std::time::Duration }

impl Duration {
    /// Nanoseconds.
    pub uninterp spec fn ns(self) -> int;
    #[verifier::external_body]
    pub fn from_millis(m: u64) -> (r: Duration)
        ensures r.ns() == m * 1_000_000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64)
        ensures self.ns() >= 0, r == self.ns() / 1_000_000_000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_nanos(&self) -> (r: u32)
        ensures r == self.ns() % 1_000_000_000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_millis(&self) -> (r: u32)
        ensures r == self.ns() % 1_000_000_000 / 1_000_000,
    { unimplemented!() }
}

pub open spec fn last_instant() -> int { 0x1_0000_0000_0000_0000 * 1_000_000_000 - 1 }

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Instant { d: std::time::Duration }

/// The clock has shown this.
pub uninterp spec fn is_now(t: int) -> bool;

/// This time has been reached: once so, always so.
pub uninterp spec fn passed(t: int) -> bool;

pub axiom fn axiom_passed(s: int, t: int)
    requires passed(t), s <= t,
    ensures passed(s);

impl Instant {
    pub uninterp spec fn t(self) -> int;
    /// The clock is less than 2^63 seconds after its origin.
    #[verifier::external_body]
    pub fn now() -> (r: Instant)
        ensures 0 <= r.t() <= 0x8000_0000_0000_0000 * 1_000_000_000, is_now(r.t()), passed(r.t()),
    { unimplemented!() }
}

impl vstd::std_specs::ops::AddSpecImpl<Duration> for Instant {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, d: Duration) -> bool { self.t() + d.ns() <= last_instant() }
    open spec fn add_spec(self, d: Duration) -> Instant { arbitrary() }
}

impl Add<Duration> for Instant {
    type Output = Instant;
    #[verifier::external_body]
    fn add(self, d: Duration) -> (r: Instant)
        ensures r.t() == self.t() + d.ns(),
    { unimplemented!() }
}

impl vstd::std_specs::ops::SubSpecImpl<Instant> for Instant {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, d: Instant) -> bool { true }
    open spec fn sub_spec(self, d: Instant) -> Duration { arbitrary() }
}

impl Sub<Instant> for Instant {
    type Output = Duration;
    #[verifier::external_body]
    fn sub(self, d: Instant) -> (r: Duration)
        ensures r.ns() == if self.t() >= d.t() { self.t() - d.t() } else { 0 },
    { unimplemented!() }
}

impl PartialEqSpecImpl for Instant {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Instant) -> bool { self.t() == o.t() }
}

impl PartialEq for Instant {
    #[verifier::external_body]
    fn eq(&self, o: &Instant) -> bool { unimplemented!() }
}

impl Eq for Instant {}

impl PartialOrdSpecImpl for Instant {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Instant) -> Option<Ordering> {
        if self.t() < o.t() { Some(Ordering::Less) } else if self.t() == o.t() { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
    }
}

impl PartialOrd for Instant {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Instant) -> Option<Ordering> { unimplemented!() }
}

// --- tasks ---

#[verifier::external_body]
pub struct Waker { w: std::task::Waker }

pub struct Task { pub id: int }

impl Waker {
    /// The task that this wakes.
    pub uninterp spec fn task(self) -> Task;
    /// This very waker was used up to wake its task.
    pub uninterp spec fn woke(self) -> bool;
    #[verifier::external_body]
    pub fn will_wake(&self, o: &Waker) -> (r: bool)
        ensures r ==> self.task() == o.task(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wake(self)
        ensures self.woke(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Waker)
        ensures r.task() == self.task(),
    { unimplemented!() }
}

#[verifier::external_body]
pub struct Context<'a> { w: &'a std::task::Waker }

impl<'a> Context<'a> {
    pub uninterp spec fn task(self) -> Task;
    #[verifier::external_body]
    pub fn waker(&self) -> (r: &Waker)
        ensures r.task() == self.task(),
    { unimplemented!() }
}

pub enum Poll<A> { Ready(A), Pending }

impl<A> Poll<A> {
    pub open spec fn is_pending(self) -> bool { self is Pending }
}

// --- sleeps: the contract of C07 ---

#[verifier::external_body]
pub struct Sleep { s: u8 }

impl Sleep {
    pub uninterp spec fn dl(self) -> int;
    /// The task that polled it last, and is woken when the deadline is processed.
    pub uninterp spec fn reg(self) -> Option<Task>;
}

#[verifier::external_body]
fn sleep_until(at: Instant) -> (r: Sleep)
    ensures r.dl() == at.t(),
{ unimplemented!() }

pub struct Pin<P> { pub p: P }

impl Pin<Box<Sleep>> {
    pub open spec fn dl(self) -> int { self.p.dl() }
    pub open spec fn reg(self) -> Option<Task> { self.p.reg() }
    #[verifier::external_body]
    fn pin(s: Sleep) -> (r: Pin<Box<Sleep>>)
        ensures r.dl() == s.dl(), r.reg() == s.reg(),
    { unimplemented!() }
    #[verifier::external_body]
    fn deadline(&self) -> (r: Instant)
        ensures r.t() == self.dl(),
    { unimplemented!() }
    #[verifier::external_body]
    fn is_elapsed(&self) -> (r: bool)
        ensures r ==> passed(self.dl()),
    { unimplemented!() }
    fn as_mut(&mut self) -> (r: &mut Self)
        ensures *r == *old(self), *final(self) == *final(r),
    { self }
    fn new<'a>(s: &'a mut Self) -> (r: &'a mut Self)
        ensures *r == *old(s), *final(s) == *final(r),
    { s }
    #[verifier::external_body]
    fn reset(&mut self, at: Instant)
        ensures final(self).dl() == at.t(), final(self).reg() == old(self).reg(),
    { unimplemented!() }
    #[verifier::external_body]
    fn poll(&mut self, cx: &mut Context<'_>) -> (r: Poll<()>)
        ensures final(self).dl() == old(self).dl(), *final(cx) == *old(cx),
            r is Ready ==> passed(old(self).dl()),
            r is Pending ==> final(self).reg() == Some(old(cx).task()),
    { unimplemented!() }
}

// --- slab and HashMap: maps ---

#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct Slab<V> { v: Vec<V> }

impl<V> Slab<V> {
    pub uninterp spec fn view(&self) -> Map<usize, V>;
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self)
        ensures r@ == Map::<usize, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, v: V) -> (r: usize)
        ensures !old(self)@.contains_key(r), final(self)@ == old(self)@.insert(r, v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: usize) -> (r: V)
        requires old(self)@.contains_key(k),
        ensures r == old(self)@[k], final(self)@ == old(self)@.remove(k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: usize) -> (r: bool)
        ensures r == self@.contains_key(k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize)
        ensures r >= self@.len(), r == self.cap(),
    { unimplemented!() }
    pub uninterp spec fn cap(&self) -> int;
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == Map::<usize, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shrink_to_fit(&mut self)
        ensures final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize)
        ensures final(self)@ == old(self)@,
    { unimplemented!() }
}

/// Where compacting takes an entry.
pub open spec fn taken(m: Map<usize, usize>, i: usize) -> usize { if m.contains_key(i) { m[i] } else { i } }

/// `b` is `a` with the entries in the places that `m` gives.
pub open spec fn compacted<V>(a: Map<usize, V>, b: Map<usize, V>, m: Map<usize, usize>) -> bool {
    &&& forall|i: usize| #[trigger] a.contains_key(i) ==> b.contains_key(taken(m, i)) && b[taken(m, i)] == a[i]
    &&& forall|i: usize, j: usize| #[trigger] a.contains_key(i) && #[trigger] a.contains_key(j) && taken(m, i) == taken(m, j) ==> i == j
    &&& forall|j: usize| #[trigger] b.contains_key(j) ==> exists|i: usize| #[trigger] a.contains_key(i) && taken(m, i) == j
    &&& b.len() == a.len()
}

impl<V> Slab<V> {
    #[verifier::external_body]
    pub fn iter(&self) -> (r: SlabIter<V>)
        ensures r.all() == self@, r.left() == self@.dom(),
    { unimplemented!() }
    /// The calls that `compact` makes.
    #[verifier::external_body]
    pub fn compact_calls(&mut self) -> (r: CompactCalls<V>)
        ensures r.left() == r.moves().dom(), compacted(old(self)@, final(self)@, r.moves()),
            forall|i: usize| #[trigger] r.moves().contains_key(i) ==> old(self)@.contains_key(i),
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct SlabIter<'a, V> { v: &'a Vec<V> }

impl<'a, V> SlabIter<'a, V> {
    pub uninterp spec fn all(self) -> Map<usize, V>;
    /// What has not been visited.
    pub uninterp spec fn left(self) -> Set<usize>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, &'a V)>)
        ensures final(self).all() == old(self).all(),
            r is None ==> old(self).left() == Set::<usize>::empty() && final(self).left() == old(self).left(),
            r is Some ==> old(self).left().contains(r.unwrap().0) && final(self).left() == old(self).left().remove(r.unwrap().0)
                && *r.unwrap().1 == old(self).all()[r.unwrap().0],
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct CompactCalls<'a, V> { v: &'a mut Vec<V> }

impl<'a, V> CompactCalls<'a, V> {
    pub uninterp spec fn moves(self) -> Map<usize, usize>;
    pub uninterp spec fn left(self) -> Set<usize>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<((), usize, usize)>)
        ensures final(self).moves() == old(self).moves(),
            r is None ==> old(self).left() == Set::<usize>::empty() && final(self).left() == old(self).left(),
            r is Some ==> old(self).left().contains(r.unwrap().1) && final(self).left() == old(self).left().remove(r.unwrap().1)
                && r.unwrap().2 == old(self).moves()[r.unwrap().1],
    { unimplemented!() }
    /// Compacting goes on to the end just if each move is accepted.
    #[verifier::external_body]
    pub fn answer(&mut self, yes: bool)
        requires yes,
        ensures final(self).moves() == old(self).moves(), final(self).left() == old(self).left(),
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct ValuesMut<'a, K, V> { m: &'a mut StdHashMap<K, V> }

impl<'a, K, V> ValuesMut<'a, K, V> {
    pub uninterp spec fn before(self) -> Map<K, V>;
    /// What the map is in the end.
    pub uninterp spec fn after(self) -> Map<K, V>;
    pub uninterp spec fn left(self) -> Set<K>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a mut V>)
        ensures final(self).before() == old(self).before(), final(self).after() == old(self).after(),
            r is None ==> old(self).left() == Set::<K>::empty() && final(self).left() == old(self).left(),
            r is Some ==> exists|k: K| #[trigger] old(self).left().contains(k) && final(self).left() == old(self).left().remove(k)
                && *r.unwrap() == old(self).before()[k] && *final(r.unwrap()) == old(self).after()[k],
    { unimplemented!() }
}

impl<V> vstd::std_specs::core::IndexSpecImpl<usize> for Slab<V> {
    open spec fn index_req(&self, k: &usize) -> bool { self@.contains_key(*k) }
}

impl<V> Index<usize> for Slab<V> {
    type Output = V;
    #[verifier::external_body]
    fn index(&self, k: usize) -> (r: &V)
        ensures *r == self@[k],
    { unimplemented!() }
}

impl<V> IndexMut<usize> for Slab<V> {
    #[verifier::external_body]
    fn index_mut(&mut self, k: usize) -> (r: &mut V)
        ensures *r == old(self)@[k], final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { m: StdHashMap<K, V> }

impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<K, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            r == if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r == if self@.contains_key(*k) { Some(&self@[*k]) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.contains_key(*k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == Map::<K, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shrink_to_fit(&mut self)
        ensures final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize)
        ensures final(self)@ == old(self)@,
    { unimplemented!() }
    /// Elements of two bytes or more: less than half of the address space.
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(), 2 * r <= usize::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn values_mut(&mut self) -> (r: ValuesMut<K, V>)
        ensures r.before() == old(self)@, r.after() == final(self)@, r.left() == old(self)@.dom(), final(self)@.dom() == old(self)@.dom(),
    { unimplemented!() }
}

impl vstd::std_specs::convert::FromSpecImpl<Key> for KeyInternal {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(k: Key) -> KeyInternal { KeyInternal { index: k.index } }
}

impl vstd::std_specs::convert::FromSpecImpl<KeyInternal> for Key {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(k: KeyInternal) -> Key { Key { index: k.index } }
}

// --- the store of a queue ---

/// What an entry is but for its links.
pub struct Fx<T> { pub inner: T, pub when: u64, pub expired: bool }

/// What the store holds but for the links.
pub struct FxAll<T> { pub inner: Map<usize, Fx<T>>, pub key_map: Map<Key, KeyInternal>, pub compact: bool }

impl<T> Data<T> {
    pub open spec fn fx(self) -> Fx<T> { Fx { inner: self.inner, when: self.when, expired: self.expired } }
}

impl<T> vstd::std_specs::core::IndexSpecImpl<Key> for SlabStorage<T> {
    open spec fn index_req(&self, k: &Key) -> bool { self.has(*k) }
}

== in SlabStorage
    /// The place of the entry of a key.
    pub open spec fn place(self, k: Key) -> Option<usize> {
        if self.compact_called {
            if self.key_map@.contains_key(k) { Some(self.key_map@[k].index) } else { None }
        } else { Some(k.index) }
    }
    pub open spec fn has(self, k: Key) -> bool {
        self.place(k) is Some && self.inner@.contains_key(self.place(k).unwrap())
    }
    pub open spec fn at(self, k: Key) -> Data<T> { self.inner@[self.place(k).unwrap()] }
    /// Keys and entries correspond one to one.
    pub open spec fn ok(self) -> bool {
        if self.compact_called {
            &&& forall|k: Key| #[trigger] self.key_map@.contains_key(k) ==> self.inner@.contains_key(self.key_map@[k].index)
            &&& forall|k: Key, j: Key| #[trigger] self.key_map@.contains_key(k) && #[trigger] self.key_map@.contains_key(j)
                    && self.key_map@[k].index == self.key_map@[j].index ==> k == j
            &&& forall|i: usize| #[trigger] self.inner@.contains_key(i) ==> exists|k: Key| #[trigger] self.key_map@.contains_key(k) && self.key_map@[k].index == i
        } else {
            self.key_map@ == Map::<Key, KeyInternal>::empty()
        }
    }
    pub open spec fn fixed(self) -> FxAll<T> {
        FxAll { inner: self.inner@.map_values(|d: Data<T>| d.fx()), key_map: self.key_map@, compact: self.compact_called }
    }
    /// The same entries under the same keys, but for their links.
    pub proof fn lemma_fixed(a: Self, b: Self)
        requires a.fixed() == b.fixed(),
        ensures forall|k: Key| #![trigger b.has(k)] #![trigger a.has(k)] a.has(k) == b.has(k),
            forall|k: Key| #![trigger b.at(k)] #![trigger a.at(k)] a.has(k) ==> a.at(k).fx() == b.at(k).fx(),
            a.inner@.len() == b.inner@.len(), a.ok() ==> b.ok(), a.key_map@ == b.key_map@, a.compact_called == b.compact_called,
    {
        let f = |d: Data<T>| d.fx();
        assert(a.inner@.map_values(f).dom() =~= a.inner@.dom());
        assert(b.inner@.map_values(f).dom() =~= b.inner@.dom());
        assert forall|i: usize| #[trigger] a.inner@.contains_key(i) == b.inner@.contains_key(i) by {
            assert(a.inner@.map_values(f).dom().contains(i) == b.inner@.map_values(f).dom().contains(i));
        }
        assert forall|i: usize| #[trigger] a.inner@.contains_key(i) implies a.inner@[i].fx() == b.inner@[i].fx() by {
            assert(a.inner@.map_values(f)[i] == b.inner@.map_values(f)[i]);
        }
    }
    /// Whether anything is in it can be seen from the keys.
    pub proof fn lemma_empty(self)
        requires self.ok(),
        ensures self.inner@.len() == 0 <==> forall|k: Key| !self.has(k),
    {
        if self.inner@.len() == 0 {
            assert(self.inner@.dom() =~= Set::<usize>::empty());
        }
        if forall|k: Key| !self.has(k) {
            assert forall|i: usize| !self.inner@.contains_key(i) by {
                if self.inner@.contains_key(i) {
                    if self.compact_called {
                        let k = choose|k: Key| #[trigger] self.key_map@.contains_key(k) && self.key_map@[k].index == i;
                        assert(self.has(k));
                    } else {
                        assert(self.has(Key { index: i }));
                    }
                }
            }
            assert(self.inner@ =~= Map::<usize, Data<T>>::empty());
        }
    }

== fn SlabStorage::with_capacity
    ensures ret.ok(), ret.inner@ == Map::<usize, Data<T>>::empty(), forall|k: Key| !ret.has(k),

== fn SlabStorage::insert
    requires old(self).ok(),
    ensures final(self).ok(),
        !old(self).has(ret), // [C15]
        final(self).has(ret) && final(self).at(ret) == val, // [C15]
        forall|k: Key| k != ret ==> #[trigger] final(self).has(k) == old(self).has(k), // [C14] [C15]
        forall|k: Key| k != ret && old(self).has(k) ==> #[trigger] final(self).at(k) == old(self).at(k), // [C14] [C15]
        final(self).inner@.len() == old(self).inner@.len() + 1, // [C16]
-- exit
    proof {
        if self.compact_called {
            assert forall|i: usize| #[trigger] self.inner@.contains_key(i) implies exists|k: Key| #[trigger] self.key_map@.contains_key(k) && self.key_map@[k].index == i by {
                if old(self).inner@.contains_key(i) {
                    let k = choose|k: Key| #[trigger] old(self).key_map@.contains_key(k) && old(self).key_map@[k].index == i;
                    assert(self.key_map@.contains_key(k));
                } else {
                    assert(self.key_map@.contains_key(ret));
                }
            }
        }
    }

== fn SlabStorage::remove
    requires old(self).ok(), old(self).has(*key),
    ensures final(self).ok(),
        ret == old(self).at(*key), // [C14]
        !final(self).has(*key), // [C15]
        forall|k: Key| k != *key ==> #[trigger] final(self).has(k) == old(self).has(k), // [C14] [C15]
        forall|k: Key| k != *key && old(self).has(k) ==> #[trigger] final(self).at(k) == old(self).at(k), // [C14] [C15]
        final(self).inner@.len() + 1 == old(self).inner@.len(), // [C16]

== fn SlabStorage::shrink_to_fit
    ensures final(self).inner@ == old(self).inner@, final(self).key_map@ == old(self).key_map@, // [C15]
        final(self).compact_called == old(self).compact_called, // [C15]

== fn SlabStorage::compact
    requires old(self).ok(),
    ensures final(self).ok(), // [C15]
        final(self).inner@.len() == old(self).inner@.len(), // [C16]
        forall|k: Key| #[trigger] final(self).has(k) == old(self).has(k), // [C14] [C15]
        forall|k: Key| old(self).has(k) ==> #[trigger] final(self).at(k) == old(self).at(k), // [C14] [C15]
-- entry
    let ghost s0 = *self;
-- loop 1
            invariant viter1.all() == s0.inner@, self.inner@ == s0.inner@, !s0.compact_called, s0.ok(),
                forall|i: usize| #[trigger] viter1.left().contains(i) ==> s0.inner@.contains_key(i),
                forall|k: Key| #[trigger] self.key_map@.contains_key(k) ==> self.key_map@[k].index == k.index && s0.inner@.contains_key(k.index),
                forall|i: usize| #[trigger] s0.inner@.contains_key(i) && !viter1.left().contains(i) ==> self.key_map@.contains_key(Key { index: i }),
            ensures viter1.left() == Set::<usize>::empty(),
            decreases viter1.left().len(),
-- before `let mut remapping`
    let ghost s1 = *self;
    proof {
        assert forall|i: usize| #[trigger] s1.inner@.contains_key(i) implies exists|k: Key| #[trigger] s1.key_map@.contains_key(k) && s1.key_map@[k].index == i by {
            if !s0.compact_called { assert(s1.key_map@.contains_key(Key { index: i })); }
        }
        assert forall|k: Key| s0.has(k) <==> s1.key_map@.contains_key(k) by {}
        assert forall|k: Key| s0.has(k) implies s0.at(k) == s1.inner@[s1.key_map@[k].index] by {}
    }
-- after `let mut vcalls1 =`
    let ghost m = vcalls1.moves();
-- loop 2
        invariant vcalls1.moves() == m, forall|i: usize| vcalls1.left().contains(i) || !vcalls1.moves().contains_key(i) || remapping@.contains_key(i),
            forall|i: usize| #[trigger] remapping@.contains_key(i) ==> vcalls1.moves().contains_key(i) && remapping@[i] == vcalls1.moves()[i],
            forall|i: usize| #[trigger] vcalls1.left().contains(i) ==> vcalls1.moves().contains_key(i),
        ensures vcalls1.left() == Set::<usize>::empty(),
        decreases vcalls1.left().len(),
-- after `let mut viter2 =`
    let ghost after = viter2.after();
-- loop 3
        invariant viter2.before() == s1.key_map@, viter2.after() == after,
            forall|k: Key| #[trigger] viter2.before().contains_key(k) && !viter2.left().contains(k) ==> viter2.after()[k].index == taken(remapping@, viter2.before()[k].index),
            forall|k: Key| #[trigger] viter2.left().contains(k) ==> viter2.before().contains_key(k),
        ensures viter2.left() == Set::<Key>::empty(),
        decreases viter2.left().len(),
-- exit
    proof {
        assert(remapping@ =~= m);
        assert(compacted(s1.inner@, self.inner@, m));
        let p = |k: Key| s1.key_map@[k].index;
        assert forall|k: Key| #[trigger] s1.key_map@.contains_key(k) implies self.key_map@.contains_key(k)
            && self.key_map@[k].index == taken(m, p(k)) && self.inner@.contains_key(self.key_map@[k].index)
            && self.inner@[self.key_map@[k].index] == s1.inner@[p(k)] by { assert(s1.inner@.contains_key(p(k))); assert(self.key_map@.dom().contains(k)); }
        assert forall|k: Key| #[trigger] self.key_map@.contains_key(k) implies s1.key_map@.contains_key(k) by { assert(self.key_map@.dom().contains(k)); }
        assert forall|k: Key, j: Key| #[trigger] self.key_map@.contains_key(k) && #[trigger] self.key_map@.contains_key(j)
                    && self.key_map@[k].index == self.key_map@[j].index implies k == j by {
            assert(s1.key_map@.contains_key(k) && s1.key_map@.contains_key(j));
            assert(s1.inner@.contains_key(p(k)) && s1.inner@.contains_key(p(j)));
            assert(p(k) == p(j));
        }
        assert forall|j: usize| #[trigger] self.inner@.contains_key(j) implies exists|k: Key| #[trigger] self.key_map@.contains_key(k) && self.key_map@[k].index == j by {
            let i = choose|i: usize| #[trigger] s1.inner@.contains_key(i) && taken(m, i) == j;
            let k = choose|k: Key| #[trigger] s1.key_map@.contains_key(k) && s1.key_map@[k].index == i;
            assert(self.key_map@.contains_key(k));
        }
        assert forall|k: Key| #[trigger] self.has(k) == s0.has(k) by {}
        assert forall|k: Key| s0.has(k) implies #[trigger] self.at(k) == s0.at(k) by { assert(s1.key_map@.contains_key(k)); }
    }

== fn SlabStorage::remap_key
    ensures ret is None <==> self.place(*key) is None, ret is Some ==> self.place(*key) == Some(ret.unwrap().index),

== fn SlabStorage::create_new_key | exec_allows_no_decreases_clause
    ensures final(self).inner@ == old(self).inner@, final(self).key_map@ == old(self).key_map@,
        final(self).compact_called == old(self).compact_called,
        !final(self).key_map@.contains_key(Key { index: ret.index }),
-- loop 1
        invariant self.inner@ == old(self).inner@, self.key_map@ == old(self).key_map@, self.compact_called == old(self).compact_called,
        ensures !self.key_map@.contains_key(Key { index: self.next_key_index }),

== fn SlabStorage::len
    ensures ret == self.inner@.len(),
== fn SlabStorage::capacity
    ensures ret >= self.inner@.len(), ret == self.inner.cap(),
== fn SlabStorage::clear
    ensures final(self).ok(), final(self).inner@ == Map::<usize, Data<T>>::empty(), forall|k: Key| !final(self).has(k),
== fn SlabStorage::reserve
    ensures final(self).inner@ == old(self).inner@, final(self).key_map@ == old(self).key_map@, // [C15]
        final(self).compact_called == old(self).compact_called, // [C15]
== fn SlabStorage::is_empty
    ensures ret == (self.inner@.len() == 0),
== fn SlabStorage::contains
    ensures ret == self.has(*key),
== fn Index for SlabStorage::index
    ensures *ret == self.at(key),
== fn IndexMut for SlabStorage::index_mut
    ensures *ret == old(self).at(key), final(self).at(key) == *final(ret),
        final(self).inner@ == old(self).inner@.insert(old(self).place(key).unwrap(), *final(ret)),
        final(self).key_map@ == old(self).key_map@, final(self).compact_called == old(self).compact_called,
        forall|k: Key| #[trigger] final(self).has(k) == old(self).has(k),
        old(self).ok() ==> final(self).ok(),
        old(self).ok() ==> forall|k: Key| k != key && old(self).has(k) ==> #[trigger] final(self).at(k) == old(self).at(k),
        final(ret).fx() == old(self).at(key).fx() ==> final(self).fixed() == old(self).fixed(),
-- entry
    proof {
        let i = self.place(key).unwrap();
        let f = |d: Data<T>| d.fx();
        assert forall|d: Data<T>| d.fx() == self.inner@[i].fx() implies #[trigger] self.inner@.insert(i, d).map_values(f) == self.inner@.map_values(f) by {
            assert(self.inner@.insert(i, d).map_values(f) =~= self.inner@.map_values(f));
        }
    }

== fn Key::new
    ensures ret.index == index,
== fn KeyInternal::new
    ensures ret.index == index,
== fn From for KeyInternal::from
    ensures ret.index == item.index,
== fn From for Key::from
    ensures ret.index == item.index,
== fn Expired::get_ref
    ensures *ret == self.data,
== fn Expired::get_mut
    ensures *ret == old(self).data, *final(ret) == final(self).data, final(self).deadline == old(self).deadline, final(self).key == old(self).key,
== fn Expired::into_inner
    ensures ret == self.data,
== fn Expired::deadline
    ensures ret == self.deadline,
== fn Expired::key
    ensures ret == self.key,
== fn ms
    ensures ret == millis(duration.ns(), round),

== const MAX_ENTRIES
    ensures MAX_ENTRIES == 0x3fff_ffff,
-- entry
    proof { assert((1usize << 30) == 0x4000_0000) by (bit_vector); }

== in DelayQueue
    #[verifier::inline]
    spec fn wheel_has(self, k: Key) -> bool { self.wheel.view(&self.slab).contains(k) }
    #[verifier::inline]
    spec fn due_has(self, k: Key) -> bool { self.expired.items(&self.slab).contains(k) }
    #[verifier::inline]
    spec fn has(self, k: Key) -> bool { self.slab.has(k) }
    #[verifier::inline]
    spec fn value(self, k: Key) -> T { self.slab.at(k).inner }
    /// The deadline, in milliseconds since the queue was made.
    #[verifier::inline]
    spec fn when(self, k: Key) -> int { self.slab.at(k).when as int }
    #[verifier::inline]
    spec fn count(self) -> nat { self.slab.inner@.len() }
    spec fn time(self, ms: int) -> int { self.start.t() + ms * 1_000_000 }

    spec fn base(self) -> bool {
        &&& self.slab.ok()
        &&& self.wheel.wf(&self.slab)
        &&& self.expired.valid(&self.slab)
        &&& forall|k: Key| #[trigger] self.wheel_has(k) ==> self.has(k) && !self.due_has(k) && !self.slab.at(k).expired
        &&& forall|k: Key| #[trigger] self.due_has(k) ==> self.has(k) && self.slab.at(k).expired
        &&& 0 <= self.start.t() <= 0x8000_0000_0000_0000 * 1_000_000_000
    }
    /// Every entry is either in the wheel or waits to be yielded.
    spec fn whole(self) -> bool {
        self.base() && forall|k: Key| #[trigger] self.has(k) ==> self.wheel_has(k) || self.due_has(k)
    }
    /// Every entry but that of `j`.
    spec fn whole_but(self, j: Key) -> bool {
        &&& self.base()
        &&& self.has(j) && !self.wheel_has(j) && !self.due_has(j)
        &&& self.slab.at(j).next is None && self.slab.at(j).prev is None
        &&& forall|k: Key| #[trigger] self.has(k) ==> self.wheel_has(k) || self.due_has(k) || k == j
    }
    /// What waits to be yielded is due, and so is whatever the wheel has processed.
    spec fn timely(self) -> bool {
        &&& forall|k: Key| #[trigger] self.due_has(k) ==> self.when(k) <= self.wheel.elapsed
        &&& self.wheel.elapsed <= self.wheel_now
        &&& passed(self.time(self.wheel_now as int))
    }
    /// There is a delay just if the wheel holds an entry, and it ends no later than any of them is due.
    spec fn armed(self) -> bool {
        match self.delay {
            None => forall|k: Key| !self.wheel_has(k),
            Some(d) => {
                &&& exists|k: Key| #[trigger] self.wheel_has(k)
                &&& self.time(self.wheel.elapsed as int) <= d.dl() <= self.time(u64::MAX as int)
                &&& (d.dl() - self.start.t()) % 1_000_000 == 0
                &&& forall|k: Key| #[trigger] self.wheel_has(k) ==> d.dl() <= self.time(self.when(k))
            },
        }
    }
    spec fn inv(self) -> bool { self.whole() && self.timely() && self.armed() }

    /// A task waits for the queue: nothing is due yet and it is going to be woken at the end of the delay.
    spec fn parked(self) -> bool {
        &&& self.waker is Some
        &&& forall|k: Key| !self.due_has(k)
        &&& self.delay is Some
        &&& self.delay.unwrap().reg() == Some(self.waker.unwrap().task())
    }
    /// A task that waited still does so, or it was woken.
    spec fn cared(a: Self, b: Self) -> bool {
        a.parked() ==> (b.parked() && b.waker == a.waker) || (b.waker is None && a.waker.unwrap().woke())
    }
    /// All entries but that of `j` are as they were.
    spec fn others(a: Self, b: Self, j: Key) -> bool {
        forall|k: Key| #![trigger b.has(k)] #![trigger a.has(k)] k != j ==> b.has(k) == a.has(k) && (a.has(k) ==> b.value(k) == a.value(k) && b.when(k) == a.when(k))
    }
    /// All entries are as they were.
    spec fn same(a: Self, b: Self) -> bool {
        forall|k: Key| #![trigger b.has(k)] #![trigger a.has(k)] b.has(k) == a.has(k) && (a.has(k) ==> b.value(k) == a.value(k) && b.when(k) == a.when(k))
    }
    /// The deadline that is set by `at`.
    spec fn rounded(self, at: int) -> int {
        let up = if at < self.start.t() { 0 } else { millis(at - self.start.t(), Round::Up) };
        if up > self.wheel.elapsed { up } else { self.wheel.elapsed as int }
    }
    /// Only the entries and their places differ.
    spec fn rest(a: Self, b: Self) -> bool {
        &&& b.delay == a.delay && b.waker == a.waker && b.start == a.start && b.wheel_now == a.wheel_now
        &&& b.wheel.elapsed == a.wheel.elapsed
    }
    /// Everything in the same place.
    spec fn still(a: Self, b: Self) -> bool {
        &&& b.wheel.view(&b.slab) == a.wheel.view(&a.slab)
        &&& b.expired.items(&b.slab) == a.expired.items(&a.slab)
    }

    /// Changing what is known by `j` alone, or only values.
    proof fn lemma_edit(a: Self, b: Self, j: Key)
        requires a.base(), b.slab.ok(), b.wheel == a.wheel, b.expired == a.expired, b.start == a.start,
            !a.wheel_has(j), !a.due_has(j),
            forall|k: Key| k != j && a.has(k) ==> #[trigger] b.has(k) && b.slab.at(k) == a.slab.at(k),
        ensures b.base(), Self::still(a, b),
    {
        let keep = ISet::new(|k: Key| a.has(k) && k != j);
        assert forall|k: Key| keep.contains(k) implies #[trigger] b.slab.has(k) && b.slab.at(k) == a.slab.at(k) by { assert(a.has(k)); assert(b.has(k)); }
        lemma_framed_links(&a.slab, &b.slab, keep);
        a.wheel.lemma_framed(&a.slab, &b.slab, keep);
        assert(a.expired.valid(&a.slab));
        assert forall|k: Key| a.expired.items(&a.slab).contains(k) implies keep.contains(k) by { assert(a.due_has(k)); }
        assert forall|k: Key| #[trigger] b.wheel_has(k) == a.wheel_has(k) by {}
        assert forall|k: Key| #[trigger] b.due_has(k) == a.due_has(k) by {}
        assert forall|k: Key| #[trigger] b.wheel_has(k) implies b.has(k) && !b.due_has(k) && !b.slab.at(k).expired by { assert(a.wheel_has(k)); }
        assert forall|k: Key| #[trigger] b.due_has(k) implies b.has(k) && b.slab.at(k).expired by { assert(a.due_has(k)); }
    }
    /// The same entries, perhaps elsewhere in memory.
    proof fn lemma_moved(a: Self, b: Self)
        requires a.inv(), b.slab.ok(), b.wheel == a.wheel, b.expired == a.expired, Self::rest(a, b),
            forall|k: Key| #[trigger] b.has(k) == a.has(k), forall|k: Key| a.has(k) ==> #[trigger] b.slab.at(k) == a.slab.at(k),
        ensures b.inv(), Self::still(a, b), Self::same(a, b), a.parked() == b.parked(),
    {
        let keep = ISet::new(|k: Key| a.has(k));
        lemma_framed_links(&a.slab, &b.slab, keep);
        a.wheel.lemma_framed(&a.slab, &b.slab, keep);
        assert forall|k: Key| a.expired.items(&a.slab).contains(k) implies keep.contains(k) by { assert(a.due_has(k)); }
        assert forall|k: Key| #[trigger] b.wheel_has(k) == a.wheel_has(k) by {}
        assert forall|k: Key| #[trigger] b.due_has(k) == a.due_has(k) by {}
        assert forall|k: Key| #[trigger] b.wheel_has(k) implies b.has(k) && !b.due_has(k) && !b.slab.at(k).expired by { assert(a.wheel_has(k)); }
        assert forall|k: Key| #[trigger] b.due_has(k) implies b.has(k) && b.slab.at(k).expired by { assert(a.due_has(k)); }
        assert forall|k: Key| #[trigger] b.has(k) implies b.wheel_has(k) || b.due_has(k) by { assert(a.has(k)); }
        if a.delay is Some {
            let k = choose|k: Key| #[trigger] a.wheel_has(k);
            assert(b.wheel_has(k));
        }
    }

    /// Taking `j` in or out of the two places, with the rest where it was.
    proof fn lemma_sorted(a: Self, b: Self, j: Key)
        requires a.base(), b.slab.ok(), b.wheel.wf(&b.slab), b.expired.valid(&b.slab), Self::rest(a, b), a.has(j),
            forall|k: Key| #[trigger] b.has(k) == a.has(k), b.slab.inner@.len() == a.slab.inner@.len(),
            forall|k: Key| a.has(k) && k != j ==> #[trigger] b.slab.at(k).fx() == a.slab.at(k).fx(),
            b.value(j) == a.value(j), b.when(j) == a.when(j),
            forall|k: Key| k != j ==> #[trigger] b.wheel_has(k) == a.wheel_has(k),
            forall|k: Key| k != j ==> #[trigger] b.due_has(k) == a.due_has(k),
            b.wheel_has(j) ==> !b.due_has(j) && !b.slab.at(j).expired,
            b.due_has(j) ==> b.slab.at(j).expired,
        ensures b.base(), Self::same(a, b), b.count() == a.count(),
            (forall|k: Key| #[trigger] a.has(k) ==> a.wheel_has(k) || a.due_has(k) || k == j)
                ==> forall|k: Key| #[trigger] b.has(k) ==> b.wheel_has(k) || b.due_has(k) || k == j,
    {
        assert forall|k: Key| #[trigger] b.wheel_has(k) implies b.has(k) && !b.due_has(k) && !b.slab.at(k).expired by {
            if k != j { assert(a.wheel_has(k)); assert(!a.due_has(k)); assert(b.slab.at(k).fx() == a.slab.at(k).fx()); }
        }
        assert forall|k: Key| #[trigger] b.due_has(k) implies b.has(k) && b.slab.at(k).expired by {
            if k != j { assert(a.due_has(k)); assert(b.slab.at(k).fx() == a.slab.at(k).fx()); }
        }
        assert forall|k: Key| #![trigger b.has(k)] b.has(k) == a.has(k) && (a.has(k) ==> b.value(k) == a.value(k) && b.when(k) == a.when(k)) by {
            if a.has(k) && k != j { assert(b.slab.at(k).fx() == a.slab.at(k).fx()); }
        }
        assert forall|k: Key| (forall|k: Key| #[trigger] a.has(k) ==> a.wheel_has(k) || a.due_has(k) || k == j) && #[trigger] b.has(k)
            implies b.wheel_has(k) || b.due_has(k) || k == j by { assert(a.has(k)); if k != j { assert(b.wheel_has(k) == a.wheel_has(k)); assert(b.due_has(k) == a.due_has(k)); } }
    }
    /// `j` is in the store, but in neither place.
    proof fn lemma_at_hand(a: Self, b: Self, j: Key)
        requires a.whole() || a.whole_but(j), b.base(), Self::still(a, b), b.has(j), b.slab.at(j).next is None && b.slab.at(j).prev is None,
            !a.wheel_has(j), !a.due_has(j), forall|k: Key| k != j ==> #[trigger] b.has(k) == a.has(k),
        ensures b.whole_but(j),
    {
        assert(b.wheel_has(j) == a.wheel_has(j));
        assert(b.due_has(j) == a.due_has(j));
        assert forall|k: Key| #[trigger] b.has(k) implies b.wheel_has(k) || b.due_has(k) || k == j by {
            if k != j { assert(a.has(k)); assert(b.wheel_has(k) == a.wheel_has(k)); assert(b.due_has(k) == a.due_has(k)); }
        }
    }
    proof fn lemma_gone(a: Self, b: Self, j: Key)
        requires a.whole_but(j), b.base(), Self::still(a, b), !b.has(j), forall|k: Key| k != j ==> #[trigger] b.has(k) == a.has(k),
        ensures b.whole(),
    {
        assert forall|k: Key| #[trigger] b.has(k) implies b.wheel_has(k) || b.due_has(k) by {
            assert(a.has(k)); assert(b.wheel_has(k) == a.wheel_has(k)); assert(b.due_has(k) == a.due_has(k));
        }
    }

    /// Entries but `j` are as due as they were.
    proof fn lemma_stays(a: Self, b: Self, j: Key)
        requires a.base(), Self::others(a, b, j), b.start == a.start, b.wheel.elapsed == a.wheel.elapsed,
            forall|k: Key| k != j ==> #[trigger] b.wheel_has(k) == a.wheel_has(k),
            forall|k: Key| k != j ==> #[trigger] b.due_has(k) == a.due_has(k),
        ensures
            forall|k: Key| k != j && #[trigger] b.due_has(k) ==> a.due_has(k) && b.when(k) == a.when(k),
            forall|k: Key| k != j && #[trigger] b.wheel_has(k) ==> a.wheel_has(k) && b.when(k) == a.when(k),
            forall|k: Key| k != j && #[trigger] a.wheel_has(k) ==> b.wheel_has(k),
    {
        assert forall|k: Key| k != j && #[trigger] b.due_has(k) implies a.due_has(k) && b.when(k) == a.when(k) by { assert(a.due_has(k)); assert(a.has(k)); assert(b.has(k)); }
        assert forall|k: Key| k != j && #[trigger] b.wheel_has(k) implies a.wheel_has(k) && b.when(k) == a.when(k) by { assert(a.wheel_has(k)); assert(a.has(k)); assert(b.has(k)); }
    }
    /// The end of the delay is the new time.
    proof fn lemma_now(a: Self, b: Self)
        requires a.inv(), b.slab == a.slab, b.wheel == a.wheel, b.expired == a.expired, b.start == a.start,
            a.delay is None ==> b.delay is None && b.wheel_now == a.wheel_now,
            a.delay is Some ==> b.delay is Some && b.delay.unwrap().dl() == a.delay.unwrap().dl()
                && passed(a.delay.unwrap().dl()) && b.wheel_now == millis(if a.delay.unwrap().dl() >= a.start.t() { a.delay.unwrap().dl() - a.start.t() } else { 0 }, Round::Down),
        ensures b.inv(), Self::still(a, b), a.delay is Some ==> b.time(b.wheel_now as int) == b.delay.unwrap().dl(),
    {
        assert forall|k: Key| #[trigger] b.wheel_has(k) == a.wheel_has(k) by {}
        assert forall|k: Key| #[trigger] b.due_has(k) == a.due_has(k) by {}
        assert forall|k: Key| #[trigger] b.wheel_has(k) implies b.has(k) && !b.due_has(k) && !b.slab.at(k).expired by { assert(a.wheel_has(k)); }
        assert forall|k: Key| #[trigger] b.due_has(k) implies b.has(k) && b.slab.at(k).expired by { assert(a.due_has(k)); }
        assert forall|k: Key| #[trigger] b.has(k) implies b.wheel_has(k) || b.due_has(k) by { assert(a.has(k)); }
        if a.delay is Some {
            let k = choose|k: Key| #[trigger] a.wheel_has(k);
            assert(b.wheel_has(k));
        }
    }
    /// The wheel gave out `j`.
    proof fn lemma_polled(a: Self, b: Self, j: Key)
        requires a.whole(), a.timely(), b.slab.ok(), b.slab.fixed() == a.slab.fixed(), b.wheel.wf(&b.slab), b.expired == a.expired, b.start == a.start,
            b.wheel_now == a.wheel_now, a.wheel.elapsed <= b.wheel.elapsed <= a.wheel_now,
            b.expired.valid(&b.slab), b.expired.items(&b.slab) == a.expired.items(&a.slab), a.wheel_has(j),
            b.wheel.view(&b.slab) == a.wheel.view(&a.slab).remove(j), KeyStack::<T>::loose(j, &b.slab),
        ensures b.whole_but(j), Self::same(a, b), b.timely(), b.count() == a.count(),
    {
        SlabStorage::lemma_fixed(a.slab, b.slab);
        assert forall|k: Key| #[trigger] b.wheel_has(k) == (a.wheel_has(k) && k != j) by {}
        assert forall|k: Key| #[trigger] b.due_has(k) == a.due_has(k) by {}
        assert forall|k: Key| #[trigger] b.has(k) implies a.has(k) && b.slab.at(k).fx() == a.slab.at(k).fx() by { assert(a.has(k)); }
        assert forall|k: Key| #[trigger] b.wheel_has(k) implies b.has(k) && !b.due_has(k) && !b.slab.at(k).expired by { assert(a.wheel_has(k)); assert(b.has(k)); }
        assert forall|k: Key| #[trigger] b.due_has(k) implies b.has(k) && b.slab.at(k).expired && b.when(k) == a.when(k) by { assert(a.due_has(k)); assert(b.has(k)); }
        assert forall|k: Key| #[trigger] b.has(k) implies b.wheel_has(k) || b.due_has(k) || k == j by { assert(a.has(k)); }
    }
    /// The wheel gave out nothing.
    proof fn lemma_waited(a: Self, b: Self)
        requires a.whole(), a.timely(), b.slab.ok(), b.slab.fixed() == a.slab.fixed(), b.wheel.wf(&b.slab), b.expired == a.expired, b.start == a.start,
            b.wheel_now == a.wheel_now, a.wheel.elapsed <= b.wheel.elapsed <= a.wheel_now,
            b.expired.valid(&b.slab), b.expired.items(&b.slab) == a.expired.items(&a.slab),
            b.wheel.view(&b.slab) == a.wheel.view(&a.slab),
        ensures b.whole(), Self::same(a, b), Self::still(a, b), b.timely(), b.count() == a.count(),
    {
        SlabStorage::lemma_fixed(a.slab, b.slab);
        assert forall|k: Key| #[trigger] b.wheel_has(k) == a.wheel_has(k) by {}
        assert forall|k: Key| #[trigger] b.due_has(k) == a.due_has(k) by {}
        assert forall|k: Key| #[trigger] b.has(k) implies a.has(k) && b.slab.at(k).fx() == a.slab.at(k).fx() by { assert(a.has(k)); }
        assert forall|k: Key| #[trigger] b.wheel_has(k) implies b.has(k) && !b.due_has(k) && !b.slab.at(k).expired by { assert(a.wheel_has(k)); assert(b.has(k)); }
        assert forall|k: Key| #[trigger] b.due_has(k) implies b.has(k) && b.slab.at(k).expired && b.when(k) == a.when(k) by { assert(a.due_has(k)); assert(b.has(k)); }
        assert forall|k: Key| #[trigger] b.has(k) implies b.wheel_has(k) || b.due_has(k) by { assert(a.has(k)); }
    }

== fn DelayQueue::default
    ensures ret.inv(), // [C16]
        forall|k: Key| !ret.has(k), // [C16]
== fn DelayQueue::new
    ensures ret.inv(), // [C16]
        forall|k: Key| !ret.has(k), // [C16]
== fn DelayQueue::with_capacity
    ensures ret.inv(), // [C16]
        forall|k: Key| !ret.has(k), // [C16]
-- entry
    proof { lemma_default::<T>(); }
-- exit
    proof {
        lemma_chain_empty(&ret.slab);
        ret.wheel.lemma_new(&ret.slab);
        assert(forall|k: Key| !ret.wheel_has(k));
        assert(ret.time(0) == ret.start.t());
    }

== fn DelayQueue::normalize_deadline
    ensures ret == self.rounded(when.t()), // [C12]

== fn DelayQueue::next_deadline
    requires old(self).base(),
    ensures *final(self) == *old(self),
        ret is None ==> forall|k: Key| !old(self).wheel_has(k), // [C16]
        ret is Some ==> exists|k: Key| #[trigger] old(self).wheel_has(k), // [C16]
        ret is Some ==> exists|ms: u64| ret.unwrap().t() == #[trigger] old(self).time(ms as int) && ms >= old(self).wheel.elapsed // [C17]
            && (forall|k: Key| #[trigger] old(self).wheel_has(k) ==> ms <= old(self).when(k))
            && (ms > old(self).wheel.elapsed || exists|k: Key| #[trigger] old(self).wheel_has(k) && old(self).when(k) == old(self).wheel.elapsed),
-- entry
    proof { self.wheel.lemma_sane(&self.slab); }
-- exit
    proof {
        assert(self.wheel.wf(&self.slab));
        if ret is None { assert forall|k: Key| !self.wheel_has(k) by {} }
        else {
            let ms = ((ret.unwrap().t() - self.start.t()) / 1_000_000) as u64;
            assert(self.time(ms as int) == ret.unwrap().t());
        }
    }

== fn DelayQueue::wake
    ensures final(self).waker is None, // [C17]
        old(self).waker is Some ==> old(self).waker.unwrap().woke(), // [C17]
        *final(self) == (DelayQueue { waker: final(self).waker, ..*old(self) }),

== fn DelayQueue::insert_idx
    requires old(self).whole_but(key), old(self).slab.at(key).when == when, !old(self).slab.at(key).expired,
        0xf_ffff_ffff >= when - old(self).wheel.elapsed,
    ensures final(self).whole(), Self::rest(*old(self), *final(self)),
        Self::same(*old(self), *final(self)), // [C14]
        final(self).count() == old(self).count(), // [C16]
        old(self).wheel.elapsed >= when ==> final(self).wheel.view(&final(self).slab) == old(self).wheel.view(&old(self).slab) // [C12] [C17]
            && final(self).expired.items(&final(self).slab) == old(self).expired.items(&old(self).slab).insert(key),
        old(self).wheel.elapsed < when ==> final(self).wheel.view(&final(self).slab) == old(self).wheel.view(&old(self).slab).insert(key) // [C12] [C17]
            && final(self).expired.items(&final(self).slab) == old(self).expired.items(&old(self).slab),
        final(self).slab.at(key).expired <==> final(self).due_has(key),
-- entry
    let ghost s0 = *self;
    proof { axiom_borrow_self(key); }
-- after `self.slab[key].expired = true`
    proof { Self::lemma_edit(s0, *self, key); }
    let ghost s1 = *self;
-- after `self.expired.push`
    proof {
        let keep = ISet::new(|k: Key| s1.has(k) && !s1.due_has(k) && k != key);
        SlabStorage::lemma_fixed(s1.slab, self.slab);
        lemma_keep_stacks(&s1.slab, &self.slab, s1.expired.items(&s1.slab).insert(key), keep);
        assert forall|k: Key| #[trigger] s1.wheel.view(&s1.slab).contains(k) implies keep.contains(k) by { assert(s1.wheel_has(k)); }
        s1.wheel.lemma_framed(&s1.slab, &self.slab, keep);
        Self::lemma_sorted(s0, *self, key);
    }
-- exit
    proof {
        if when > s0.wheel.elapsed {
            SlabStorage::lemma_fixed(s0.slab, self.slab);
            assert forall|k: Key| s0.expired.items(&s0.slab).contains(k) implies !s0.wheel.view(&s0.slab).insert(key).contains(k) by { assert(s0.due_has(k)); assert(!s0.wheel_has(k)); }
            Self::lemma_sorted(s0, *self, key);
        }
    }

== fn DelayQueue::remove_key
    requires old(self).whole(), old(self).has(*key),
    ensures final(self).whole_but(*key), Self::rest(*old(self), *final(self)),
        Self::same(*old(self), *final(self)), // [C14]
        final(self).count() == old(self).count(), // [C16]
        final(self).wheel.view(&final(self).slab) == old(self).wheel.view(&old(self).slab).remove(*key),
        final(self).expired.items(&final(self).slab) == old(self).expired.items(&old(self).slab).remove(*key),
-- entry
    let ghost s0 = *self;
    proof { assert(s0.wheel_has(*key) || s0.due_has(*key)); }
-- exit
    proof {
        SlabStorage::lemma_fixed(s0.slab, self.slab);
        if s0.due_has(*key) {
            let keep = ISet::new(|k: Key| s0.has(k) && !s0.due_has(k));
            lemma_keep_stacks(&s0.slab, &self.slab, s0.expired.items(&s0.slab), keep);
            assert forall|k: Key| #[trigger] s0.wheel.view(&s0.slab).contains(k) implies keep.contains(k) by { assert(s0.wheel_has(k)); }
            s0.wheel.lemma_framed(&s0.slab, &self.slab, keep);
        } else {
            assert forall|k: Key| s0.expired.items(&s0.slab).contains(k) implies !s0.wheel.view(&s0.slab).contains(k) by { assert(s0.due_has(k)); assert(!s0.wheel_has(k)); }
        }
        assert(self.wheel.view(&self.slab) =~= s0.wheel.view(&s0.slab).remove(*key)) by { if !s0.wheel_has(*key) {} }
        assert(self.expired.items(&self.slab) =~= s0.expired.items(&s0.slab).remove(*key)) by { if !s0.due_has(*key) {} }
        Self::lemma_sorted(s0, *self, *key);
    }

== fn DelayQueue::insert_at
    requires old(self).inv(), old(self).count() < 0x3fff_ffff, old(self).rounded(when.t()) - old(self).wheel.elapsed <= 0xf_ffff_ffff,
    ensures
        final(self).whole(), // [C14] [C16]
        final(self).timely(), // [C12]
        final(self).armed(), // [C12] [C17]
        !old(self).has(ret), final(self).has(ret), // [C15]
        final(self).value(ret) == value, // [C15]
        final(self).when(ret) == old(self).rounded(when.t()), // [C12]
        Self::others(*old(self), *final(self), ret), // [C14] [C15]
        final(self).count() == old(self).count() + 1, // [C16]
        final(self).start == old(self).start,
        Self::cared(*old(self), *final(self)), // [C17]
-- entry
    let ghost s0 = *self;
-- after `let key = self.slab.insert`
    proof { Self::lemma_edit(s0, *self, key); Self::lemma_at_hand(s0, *self, key); }
    let ghost s1 = *self;
-- after `self.insert_idx(`
    let ghost s2 = *self;
    proof { assert(s2.wheel_has(key) || s2.due_has(key)); Self::lemma_stays(s0, s2, key); }

== fn DelayQueue::insert
    requires old(self).inv(), old(self).count() < 0x3fff_ffff,
        forall|t: int| #[trigger] is_now(t) ==> t + timeout.ns() <= last_instant() && old(self).rounded(t + timeout.ns()) - old(self).wheel.elapsed <= 0xf_ffff_ffff,
    ensures
        final(self).whole(), // [C14] [C16]
        final(self).timely(), // [C12]
        final(self).armed(), // [C12] [C17]
        !old(self).has(ret), final(self).has(ret), // [C15]
        final(self).value(ret) == value, // [C15]
        exists|t: int| #[trigger] is_now(t) && final(self).when(ret) == old(self).rounded(t + timeout.ns()), // [C12]
        Self::others(*old(self), *final(self), ret), // [C14] [C15]
        final(self).count() == old(self).count() + 1, // [C16]
        Self::cared(*old(self), *final(self)), // [C17]

== fn DelayQueue::remove
    requires old(self).inv(), old(self).has(*key),
    ensures
        final(self).whole(), // [C14] [C16]
        final(self).timely(), // [C12]
        final(self).armed(), // [C12] [C16] [C17]
        !final(self).has(*key), // [C15]
        ret.data == old(self).value(*key) && ret.key == *key, // [C14]
        ret.deadline.t() == old(self).time(old(self).when(*key)), // [C12]
        Self::others(*old(self), *final(self), *key), // [C14] [C15]
        final(self).count() + 1 == old(self).count(), // [C16]
        final(self).start == old(self).start,
        Self::cared(*old(self), *final(self)), // [C17]
-- entry
    let ghost s0 = *self;
-- after `self.remove_key(`
    let ghost s1 = *self;
    proof { Self::lemma_stays(s0, s1, *key); }
-- after `let data = self.slab.remove`
    proof { Self::lemma_edit(s1, *self, *key); Self::lemma_gone(s1, *self, *key); self.slab.lemma_empty(); }

== fn DelayQueue::try_remove
    requires old(self).inv(),
    ensures
        ret is Some <==> old(self).has(*key), // [C15]
        ret is None ==> *final(self) == *old(self), // [C15]
        ret is Some ==> final(self).whole(), // [C14] [C16]
        ret is Some ==> final(self).timely(), // [C12]
        ret is Some ==> final(self).armed(), // [C12] [C16] [C17]
        !final(self).has(*key), // [C15]
        ret is Some ==> ret.unwrap().data == old(self).value(*key) && ret.unwrap().key == *key, // [C14]
        ret is Some ==> ret.unwrap().deadline.t() == old(self).time(old(self).when(*key)), // [C12]
        Self::others(*old(self), *final(self), *key), // [C14] [C15]
        ret is Some ==> final(self).count() + 1 == old(self).count(), // [C16]
        Self::cared(*old(self), *final(self)), // [C17]

== fn DelayQueue::reset_at
    requires old(self).inv(), old(self).has(*key), old(self).rounded(when.t()) - old(self).wheel.elapsed <= 0xf_ffff_ffff,
    ensures
        final(self).whole(), // [C14] [C16]
        final(self).timely(), // [C12]
        final(self).armed(), // [C12] [C17]
        final(self).has(*key) && final(self).value(*key) == old(self).value(*key), // [C14]
        final(self).when(*key) == old(self).rounded(when.t()), // [C12] [C14]
        Self::others(*old(self), *final(self), *key), // [C14] [C15]
        final(self).count() == old(self).count(), // [C16]
        final(self).start == old(self).start,
        Self::cared(*old(self), *final(self)), // [C17]
-- entry
    let ghost s0 = *self;
-- after `self.remove_key(`
    let ghost s1 = *self;
    proof { Self::lemma_stays(s0, s1, *key); }
-- before `self.insert_idx(`
    let ghost s2 = *self;
    proof { Self::lemma_edit(s1, s2, *key); Self::lemma_at_hand(s1, s2, *key); }
-- after `self.insert_idx(`
    let ghost s3 = *self;
    proof { assert(s3.wheel_has(*key) || s3.due_has(*key)); Self::lemma_stays(s2, s3, *key); }

== fn DelayQueue::reset
    requires old(self).inv(), old(self).has(*key),
        forall|t: int| #[trigger] is_now(t) ==> t + timeout.ns() <= last_instant() && old(self).rounded(t + timeout.ns()) - old(self).wheel.elapsed <= 0xf_ffff_ffff,
    ensures
        final(self).whole(), // [C14] [C16]
        final(self).timely(), // [C12]
        final(self).armed(), // [C12] [C17]
        final(self).has(*key) && final(self).value(*key) == old(self).value(*key), // [C14]
        exists|t: int| #[trigger] is_now(t) && final(self).when(*key) == old(self).rounded(t + timeout.ns()), // [C12] [C14]
        Self::others(*old(self), *final(self), *key), // [C14] [C15]
        final(self).count() == old(self).count(), // [C16]
        Self::cared(*old(self), *final(self)), // [C17]

== fn DelayQueue::shrink_to_fit
    requires old(self).inv(),
    ensures final(self).inv(), // [C15]
        Self::same(*old(self), *final(self)), // [C15]
        final(self).count() == old(self).count(), // [C16]
        Self::cared(*old(self), *final(self)), // [C17]
-- exit
    proof { Self::lemma_moved(*old(self), *self); }
== fn DelayQueue::compact
    requires old(self).inv(),
    ensures final(self).inv(), // [C15]
        Self::same(*old(self), *final(self)), // [C15]
        final(self).count() == old(self).count(), // [C16]
        Self::cared(*old(self), *final(self)), // [C17]
-- exit
    proof { Self::lemma_moved(*old(self), *self); }
== fn DelayQueue::reserve
    requires old(self).inv(), old(self).slab.inner.cap() + additional <= 0x3fff_ffff,
    ensures final(self).inv(), // [C15]
        Self::same(*old(self), *final(self)), // [C15]
        final(self).count() == old(self).count(), // [C16]
        Self::cared(*old(self), *final(self)), // [C17]
-- exit
    proof { Self::lemma_moved(*old(self), *self); }

== fn DelayQueue::clear
    requires old(self).inv(),
    ensures final(self).inv(), // [C16]
        forall|k: Key| !final(self).has(k), // [C16]
        final(self).count() == 0, // [C16]
        final(self).start == old(self).start,
        Self::cared(*old(self), *final(self)), // [C17]
-- entry
    proof { lemma_default::<T>(); }
-- before `self.delay = None`
    proof {
        lemma_chain_empty(&self.slab);
        self.wheel.lemma_new(&self.slab);
        assert(forall|k: Key| !self.wheel_has(k));
    }

== fn DelayQueue::len
    ensures ret == self.count(), // [C16]
== fn DelayQueue::is_empty
    ensures ret == (self.count() == 0), // [C16]
== fn DelayQueue::capacity
    ensures ret >= self.count(), // [C16]

== fn DelayQueue::poll_idx
    requires old(self).inv(),
    ensures *final(cx) == *old(cx),
        final(self).timely(), // [C12]
        final(self).armed(), // [C12] [C16] [C17]
        Self::same(*old(self), *final(self)), // [C14]
        final(self).count() == old(self).count(), // [C16]
        final(self).waker == old(self).waker, final(self).start == old(self).start,
        ret is Pending || ret == Poll::<Option<Key>>::Ready(None) ==> final(self).whole(),
        ret == Poll::<Option<Key>>::Ready(None) ==> forall|k: Key| !old(self).has(k), // [C16]
        ret is Pending ==> final(self).delay is Some && final(self).delay.unwrap().reg() == Some(old(cx).task()), // [C12] [C17]
        ret is Pending ==> forall|k: Key| !final(self).due_has(k), // [C12] [C17]
        ret is Ready && ret->Ready_0 is Some ==> ({ let k = ret->Ready_0->Some_0; final(self).whole_but(k) }),
        ret is Ready && ret->Ready_0 is Some ==> ({ let k = ret->Ready_0->Some_0; passed(old(self).time(old(self).when(k))) }), // [C12]
-- entry
    let ghost s0 = *self;
-- before `if expired.is_some()`
    proof {
        if expired is Some {
            let key = expired.unwrap();
            axiom_borrow_self(key);
            SlabStorage::lemma_fixed(s0.slab, self.slab);
            assert(s0.due_has(key));
            let keep = ISet::new(|k: Key| s0.has(k) && !s0.due_has(k));
            lemma_keep_stacks(&s0.slab, &self.slab, s0.expired.items(&s0.slab), keep);
            assert forall|k: Key| #[trigger] s0.wheel.view(&s0.slab).contains(k) implies keep.contains(k) by { assert(s0.wheel_has(k)); }
            s0.wheel.lemma_framed(&s0.slab, &self.slab, keep);
            Self::lemma_sorted(s0, *self, key);
            Self::lemma_stays(s0, *self, key);
            axiom_passed(s0.time(s0.when(key)), s0.time(s0.wheel_now as int));
        }
    }
-- loop 1
        invariant self.inv(), Self::same(s0, *self), self.count() == s0.count(), self.waker == s0.waker, self.start == s0.start,
            *cx == *old(cx), forall|k: Key| !self.due_has(k), s0 == *old(self),
        decreases match self.delay { None => 0, Some(d) => 1 + self.time(u64::MAX as int) - d.dl() },
-- loop 1 entry
    let ghost s1 = *self;
-- before `let wheel_idx =`
    let ghost s2 = *self;
    proof { Self::lemma_now(s1, s2); }
-- after `let wheel_idx =`
    let ghost s3 = *self;
    proof {
        SlabStorage::lemma_fixed(s2.slab, s3.slab);
        assert forall|k: Key| s2.expired.items(&s2.slab).contains(k) implies !s2.wheel.view(&s2.slab).contains(k) by { assert(s2.due_has(k)); }
        assert forall|k: Key| !s3.due_has(k) by { assert(!s2.due_has(k)); }
        if wheel_idx is Some {
            let key = wheel_idx.unwrap();
            axiom_borrow_self(key);
            assert(s2.wheel_has(key));
            Self::lemma_polled(s2, s3, key);
            axiom_passed(s0.time(s0.when(key)), s2.time(s2.wheel_now as int));
        } else {
            Self::lemma_waited(s2, s3);
        }
    }
-- before `if let Some(idx) = wheel_idx`
    proof { assert(self.wheel == s3.wheel); assert(self.slab == s3.slab); 
    assert(self.delay is None ==> forall|k: Key| !s3.wheel_has(k));
    assert(self.delay is Some ==> exists|k: Key| s3.wheel_has(k));
     assert(self.armed()); }

== fn DelayQueue::poll_next
    requires old(self).inv(),
    ensures
        final(self).whole(), // [C14] [C16]
        final(self).timely(), // [C12]
        final(self).armed(), // [C12] [C16] [C17]
        final(self).start == old(self).start,
        ret is Ready && ret->Ready_0 is Some ==> ({ let e = ret->Ready_0->Some_0; passed(e.deadline.t()) }), // [C12]
        ret is Ready && ret->Ready_0 is Some ==> ({ let e = ret->Ready_0->Some_0; e.deadline.t() == old(self).time(old(self).when(e.key)) }), // [C12]
        ret is Ready && ret->Ready_0 is Some ==> ({ let e = ret->Ready_0->Some_0; old(self).has(e.key) && !final(self).has(e.key) }), // [C14] [C15]
        ret is Ready && ret->Ready_0 is Some ==> ({ let e = ret->Ready_0->Some_0; e.data == old(self).value(e.key) }), // [C14] [C16]
        ret is Ready && ret->Ready_0 is Some ==> ({ let e = ret->Ready_0->Some_0; Self::others(*old(self), *final(self), e.key) }), // [C14] [C15]
        ret is Ready && ret->Ready_0 is Some ==> final(self).count() + 1 == old(self).count(), // [C16]
        !(ret is Ready && ret->Ready_0 is Some) ==> Self::same(*old(self), *final(self)), // [C14]
        !(ret is Ready && ret->Ready_0 is Some) ==> final(self).count() == old(self).count(), // [C16]
        ret == Poll::<Option<Expired<T>>>::Ready(None) <==> old(self).count() == 0, // [C16]
        ret is Pending ==> final(self).parked() && final(self).waker.unwrap().task() == old(cx).task(), // [C12] [C17]
== fn DelayQueue::poll_expired
    requires old(self).inv(),
    ensures
        final(self).whole(), // [C14] [C16]
        final(self).timely(), // [C12]
        final(self).armed(), // [C12] [C16] [C17]
        final(self).start == old(self).start,
        ret is Ready && ret->Ready_0 is Some ==> ({ let e = ret->Ready_0->Some_0; passed(e.deadline.t()) }), // [C12]
        ret is Ready && ret->Ready_0 is Some ==> ({ let e = ret->Ready_0->Some_0; e.deadline.t() == old(self).time(old(self).when(e.key)) }), // [C12]
        ret is Ready && ret->Ready_0 is Some ==> ({ let e = ret->Ready_0->Some_0; old(self).has(e.key) && !final(self).has(e.key) }), // [C14] [C15]
        ret is Ready && ret->Ready_0 is Some ==> ({ let e = ret->Ready_0->Some_0; e.data == old(self).value(e.key) }), // [C14] [C16]
        ret is Ready && ret->Ready_0 is Some ==> ({ let e = ret->Ready_0->Some_0; Self::others(*old(self), *final(self), e.key) }), // [C14] [C15]
        ret is Ready && ret->Ready_0 is Some ==> final(self).count() + 1 == old(self).count(), // [C16]
        !(ret is Ready && ret->Ready_0 is Some) ==> Self::same(*old(self), *final(self)), // [C14]
        !(ret is Ready && ret->Ready_0 is Some) ==> final(self).count() == old(self).count(), // [C16]
        ret == Poll::<Option<Expired<T>>>::Ready(None) <==> old(self).count() == 0, // [C16]
        ret is Pending ==> final(self).parked() && final(self).waker.unwrap().task() == old(cx).task(), // [C12] [C17]
-- entry
    let ghost s0 = *self;
    proof { s0.slab.lemma_empty(); }
-- before `let item =`
    let ghost s1 = *self;
    proof { Self::lemma_moved(s0, DelayQueue { waker: s0.waker, ..s1 }); assert(s1.inv()); }
-- after `let item =`
    let ghost s2 = *self;
-- after `let data = self.slab.remove`
    proof { Self::lemma_edit(s2, *self, key); Self::lemma_gone(s2, *self, key); }

== in Stack for KeyStack
    spec fn items(&self, store: &SlabStorage<T>) -> Set<Key> { chain(store, self.head).to_set() }
    spec fn valid(&self, store: &SlabStorage<T>) -> bool { exists|s: Seq<Key>| linked(store, self.head, s) }
    spec fn sound(store: &SlabStorage<T>) -> bool { store.ok() }
    spec fn known(k: Key, store: &SlabStorage<T>) -> bool { store.has(k) }
    spec fn when_of(k: Key, store: &SlabStorage<T>) -> u64 { if store.has(k) { store.at(k).when } else { 0 } }
    spec fn loose(k: Key, store: &SlabStorage<T>) -> bool { store.has(k) && store.at(k).next is None && store.at(k).prev is None }
    type Fixed = FxAll<T>;
    spec fn fixed(store: &SlabStorage<T>) -> FxAll<T> { store.fixed() }

== fn Stack for KeyStack::is_empty
-- exit
    proof {
        assert forall|store: SlabStorage<T>| #[trigger] self.valid(&store) implies (ret <==> self.items(&store) == Set::<Key>::empty()) by {
            let s = lemma_chain(&store, self.head);
            if s.len() == 0 { assert(s.to_set() =~= Set::<Key>::empty()); } else { assert(s.to_set().contains(s[0])); }
        }
    }

== fn Stack for KeyStack::push
-- entry
    let ghost st0 = *store;
    let ghost s = lemma_chain(&st0, self.head);
    proof {
        axiom_borrow_self(item);
        if s.len() > 0 { assert(link_ok(&st0, s, 0)); assert(s.to_set().contains(s[0])); }
    }
-- exit
    proof {
        let t = seq![item] + s;
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != item by { assert(s.to_set().contains(s[i])); }
        SlabStorage::lemma_fixed(st0, *store);
        assert(linked(store, self.head, t)) by {
            assert forall|i: int| 0 <= i < t.len() implies link_ok(store, t, i) by {
                if i > 0 { assert(t[i] == s[i - 1]); assert(link_ok(&st0, s, i - 1)); }
            }
        }
        lemma_is_chain(store, self.head, t);
        assert(t.to_set() =~= s.to_set().insert(item)) by {
            assert(t[0] == item);
            assert forall|k: Key| s.to_set().contains(k) implies t.to_set().contains(k) by {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == k;
                assert(t[i + 1] == k);
            }
            assert forall|k: Key| t.to_set().contains(k) implies s.to_set().insert(item).contains(k) by {
                let i = choose|i: int| 0 <= i < t.len() && t[i] == k;
                if i > 0 { assert(s[i - 1] == k); }
            }
        }
        lemma_others(&st0, store, s.to_set().insert(item));
    }

== fn Stack for KeyStack::pop
-- entry
    let ghost st0 = *store;
    let ghost s = lemma_chain(&st0, self.head);
    proof {
        if s.len() > 0 { assert(link_ok(&st0, s, 0)); }
        if s.len() > 1 { assert(link_ok(&st0, s, 1)); assert(s[0] != s[1]); }
    }
-- exit
    proof {
        SlabStorage::lemma_fixed(st0, *store);
        if s.len() == 0 {
            assert(s.to_set() =~= Set::<Key>::empty());
            assert(*self == *old(self));
        } else {
            let key = s[0];
            axiom_borrow_self(key);
            let t = s.drop_first();
            assert(s.to_set().contains(s[0]));
            assert(linked(store, self.head, t)) by {
                assert forall|i: int| 0 <= i < t.len() implies link_ok(store, t, i) by {
                    assert(t[i] == s[i + 1]); assert(link_ok(&st0, s, i + 1));
                    assert(s[i + 1] != s[0]);
                    if i > 0 { assert(s[i + 1] != s[1]); }
                }
            }
            lemma_is_chain(store, self.head, t);
            assert(t.to_set() =~= s.to_set().remove(key)) by {
                assert forall|k: Key| t.to_set().contains(k) implies s.to_set().remove(key).contains(k) by {
                    let i = choose|i: int| 0 <= i < t.len() && t[i] == k;
                    assert(s[i + 1] == k);
                }
                assert forall|k: Key| s.to_set().remove(key).contains(k) implies t.to_set().contains(k) by {
                    let i = choose|i: int| 0 <= i < s.len() && s[i] == k;
                    assert(t[i - 1] == k);
                }
            }
        }
        lemma_others(&st0, store, s.to_set());
    }

== fn Stack for KeyStack::remove
-- entry
    let ghost st0 = *store;
    let ghost s = lemma_chain(&st0, self.head);
    let ghost at = choose|i: int| 0 <= i < s.len() && s[i] == *item;
    let ghost mut n: int = 0;
    proof {
        assert(s.to_set().contains(*item));
        assert(link_ok(&st0, s, at));
        if at > 0 { assert(link_ok(&st0, s, at - 1)); assert(s[at - 1] != s[at]); }
        if at + 1 < s.len() { assert(link_ok(&st0, s, at + 1)); assert(s[at + 1] != s[at]); }
        if at > 0 && at + 1 < s.len() { assert(s[at + 1] != s[at - 1]); }
    }
-- loop 1
        invariant linked(store, self.head, s), 0 <= n <= s.len(), 0 <= at < s.len(), s[at] == *item,
            next == (if n < s.len() { Some(s[n]) } else { None }), contains <==> at < n,
        ensures n == s.len(),
        decreases s.len() - n,
-- loop 1 entry
    proof { assert(link_ok(store, s, n)); }
-- loop 1 exit
    proof { n = n + 1; }
-- exit
    proof {
        SlabStorage::lemma_fixed(st0, *store);
        let t = s.remove(at);
        assert(linked(store, self.head, t)) by {
            assert forall|i: int| 0 <= i < t.len() implies link_ok(store, t, i) by {
                let j = if i < at { i } else { i + 1 };
                assert(t[i] == s[j]); assert(link_ok(&st0, s, j));
                assert(s[j] != s[at]);
                if at > 0 && j != at - 1 { assert(s[j] != s[at - 1]); }
                if at + 1 < s.len() && j != at + 1 { assert(s[j] != s[at + 1]); }
            }
            if at > 0 { assert(link_ok(&st0, s, at - 1)); }
        }
        lemma_is_chain(store, self.head, t);
        assert(t.to_set() =~= s.to_set().remove(*item)) by {
            assert forall|k: Key| t.to_set().contains(k) implies s.to_set().remove(*item).contains(k) by {
                let i = choose|i: int| 0 <= i < t.len() && t[i] == k;
                let j = if i < at { i } else { i + 1 };
                assert(s[j] == k);
            }
            assert forall|k: Key| s.to_set().remove(*item).contains(k) implies t.to_set().contains(k) by {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == k;
                assert(t[if i < at { i } else { i - 1 }] == k);
            }
        }
        lemma_others(&st0, store, s.to_set());
    }

== fn Stack for KeyStack::when
== fn Default for KeyStack::default
    ensures ret.head is None,

== lemmas
/// Entry `i` of the list is linked to its neighbours.
pub open spec fn link_ok<T>(store: &SlabStorage<T>, s: Seq<Key>, i: int) -> bool {
    &&& store.has(s[i])
    &&& store.at(s[i]).next == if i + 1 < s.len() { Some(s[i + 1]) } else { None }
    &&& store.at(s[i]).prev == if i > 0 { Some(s[i - 1]) } else { None }
}

pub open spec fn linked<T>(store: &SlabStorage<T>, head: Option<Key>, s: Seq<Key>) -> bool {
    &&& head == if s.len() > 0 { Some(s[0]) } else { None }
    &&& s.no_duplicates()
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] link_ok(store, s, i)
}

pub open spec fn chain<T>(store: &SlabStorage<T>, head: Option<Key>) -> Seq<Key> {
    choose|s: Seq<Key>| linked(store, head, s)
}

proof fn lemma_chain<T>(store: &SlabStorage<T>, head: Option<Key>) -> (s: Seq<Key>)
    ensures s == chain(store, head), (exists|t: Seq<Key>| linked(store, head, t)) ==> linked(store, head, s),
        forall|k: Key| s.to_set().contains(k) <==> exists|i: int| 0 <= i < s.len() && s[i] == k,
{
    chain(store, head)
}

proof fn lemma_unique<T>(store: &SlabStorage<T>, head: Option<Key>, s: Seq<Key>, t: Seq<Key>, n: int)
    requires linked(store, head, s), linked(store, head, t), 0 <= n <= s.len(),
    ensures n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i], n == s.len() ==> t.len() == n,
    decreases n,
{
    if n > 0 {
        lemma_unique(store, head, s, t, n - 1);
        if n > 1 { assert(link_ok(store, s, n - 2)); if n - 2 < t.len() { assert(link_ok(store, t, n - 2)); } }
        assert(link_ok(store, s, n - 1));
        if n - 1 < t.len() { assert(link_ok(store, t, n - 1)); }
    }
}

proof fn lemma_is_chain<T>(store: &SlabStorage<T>, head: Option<Key>, s: Seq<Key>)
    requires linked(store, head, s),
    ensures chain(store, head) == s,
{
    let t = chain(store, head);
    lemma_unique(store, head, s, t, s.len() as int);
    assert(s =~= t);
}

/// Lists of other entries are the same.
proof fn lemma_others<T>(a: &SlabStorage<T>, b: &SlabStorage<T>, touched: Set<Key>)
    requires forall|k: Key| a.has(k) ==> #[trigger] b.has(k),
        forall|k: Key| a.has(k) && !touched.contains(k) ==> #[trigger] b.at(k).next == a.at(k).next && b.at(k).prev == a.at(k).prev,
    ensures forall|o: KeyStack<T>| #![trigger o.valid(a)] #![trigger o.valid(b)] #![trigger o.items(b)]
        o.valid(a) && (forall|k: Key| o.items(a).contains(k) ==> !touched.contains(k)) ==> o.valid(b) && o.items(b) == o.items(a),
{
    assert forall|o: KeyStack<T>| #![trigger o.valid(a)] #![trigger o.valid(b)] #![trigger o.items(b)]
        o.valid(a) && (forall|k: Key| o.items(a).contains(k) ==> !touched.contains(k)) implies o.valid(b) && o.items(b) == o.items(a) by {
        let s = lemma_chain(a, o.head);
        assert(linked(b, o.head, s)) by {
            assert forall|i: int| 0 <= i < s.len() implies link_ok(b, s, i) by {
                assert(link_ok(a, s, i));
                assert(s.to_set().contains(s[i]));
                assert(o.items(a).contains(s[i]));
            }
        }
        lemma_is_chain(b, o.head, s);
    }
}

pub open spec fn millis(ns: int, round: Round) -> int {
    let n = match round { Round::Up => (ns + 999_999) / 1_000_000, Round::Down => ns / 1_000_000 };
    if n <= u64::MAX { n } else { u64::MAX as int }
}

/// Entries in `keep` are linked as they were.
proof fn lemma_framed_links<T>(a: &SlabStorage<T>, b: &SlabStorage<T>, keep: ISet<Key>)
    requires b.ok(), forall|k: Key| keep.contains(k) ==> a.has(k),
        forall|k: Key| keep.contains(k) ==> #[trigger] b.has(k) && b.at(k) == a.at(k),
    ensures framed::<KeyStack<T>>(a, b, keep),
{
    assert forall|o: KeyStack<T>| #![trigger o.valid(b)] #![trigger o.items(b)]
        o.valid(a) && (forall|k: Key| o.items(a).contains(k) ==> keep.contains(k)) implies o.valid(b) && o.items(b) == o.items(a) by {
        let s = lemma_chain(a, o.head);
        assert(linked(b, o.head, s)) by {
            assert forall|i: int| 0 <= i < s.len() implies link_ok(b, s, i) by {
                assert(link_ok(a, s, i));
                assert(s.to_set().contains(s[i]));
                assert(o.items(a).contains(s[i]));
            }
        }
        lemma_is_chain(b, o.head, s);
    }
}

/// What a stack did to its entries.
proof fn lemma_keep_stacks<T>(a: &SlabStorage<T>, b: &SlabStorage<T>, touched: Set<Key>, keep: ISet<Key>)
    requires b.ok(), b.fixed() == a.fixed(), forall|k: Key| keep.contains(k) ==> !touched.contains(k),
        forall|o: KeyStack<T>| #![trigger o.valid(a)]
            o.valid(a) && (forall|k: Key| o.items(a).contains(k) ==> !touched.contains(k)) ==> o.valid(b) && o.items(b) == o.items(a),
    ensures framed::<KeyStack<T>>(a, b, keep),
{
    SlabStorage::lemma_fixed(*a, *b);
    assert forall|k: Key| keep.contains(k) implies #[trigger] KeyStack::<T>::when_of(k, b) == KeyStack::<T>::when_of(k, a) by {
        if a.has(k) { assert(b.at(k).fx() == a.at(k).fx()); }
    }
    assert forall|o: KeyStack<T>| #![trigger o.valid(b)] #![trigger o.items(b)]
        o.valid(a) && (forall|k: Key| o.items(a).contains(k) ==> keep.contains(k)) implies o.valid(b) && o.items(b) == o.items(a) by {
        assert forall|k: Key| o.items(a).contains(k) implies !touched.contains(k) by { assert(keep.contains(k)); }
    }
}

proof fn lemma_default<T>()
    ensures default_is_empty::<KeyStack<T>>(),
{
    assert forall|x: KeyStack<T>, store: SlabStorage<T>| #![trigger call_ensures(KeyStack::<T>::default, (), x), x.valid(&store)]
        call_ensures(KeyStack::<T>::default, (), x) implies x.valid(&store) && x.items(&store) == Set::<Key>::empty() by {
        let s = Seq::<Key>::empty();
        assert(linked(&store, x.head, s));
        lemma_is_chain(&store, x.head, s);
        assert(s.to_set() =~= Set::<Key>::empty());
    }
}

proof fn lemma_chain_empty<T>(store: &SlabStorage<T>)
    ensures linked(store, None, Seq::<Key>::empty()), chain(store, None).to_set() == Set::<Key>::empty(),
{
    let s = Seq::<Key>::empty();
    lemma_is_chain(store, None, s);
    assert(s.to_set() =~= Set::<Key>::empty());
}
