Contracts of src/timer/mod.rs over those of the heap (unit heap) and of the list of updates (C05).

== assume heap
== file src/timer/mod.rs
== file src/tokio/sleep.rs
== drop fmt::Debug for Timer
== drop fmt::Debug for Sleep
== drop Sleep::Output
== drop fmt::Debug for TimerHandle
== drop Default for TimerHandle
== drop TimerHandle::set_as_global_fallback
== drop TimerHandle::into_raw
== drop TimerHandle::from_raw
== drop SetDefaultError
== drop HANDLE_FALLBACK
== drop EMPTY_HANDLE
== drop Timer::Output
== option public
== rename src/timer/mod.rs `Arc<Node<ScheduledTimer>>` => `Arc<ScheduledTimer>` -- a node derefs to its data
== rename src/timer/mod.rs `Future for Timer` => `Timer` -- a method of its own
== rename src/timer/mod.rs `Drop for Timer` => `Timer` -- a method of its own
== rename src/timer/mod.rs `mut self: Pin<&mut Self>` => `&mut self` -- a method of its own
== rename src/timer/mod.rs `Self::Output` => `()` -- a method of its own
== rename src/tokio/sleep.rs `Arc<Node<ScheduledTimer>>` => `Arc<ScheduledTimer>` -- a node derefs to its data
== rename src/tokio/sleep.rs `Node::new` => `node_of` -- a node derefs to its data
== rename src/tokio/sleep.rs `Future for Sleep` => `Sleep` -- a method of its own
== rename src/tokio/sleep.rs `Drop for Sleep` => `Sleep` -- a method of its own
== rename src/tokio/sleep.rs `self: Pin<&mut Self>` => `&mut self` -- a method of its own
== rename src/tokio/sleep.rs `self.get_mut()` => `self` -- a method of its own
== rename src/tokio/sleep.rs `Self::Output` => `()` -- a method of its own
== rename src/tokio/sleep.rs `Ordering::SeqCst` => `SeqCst` -- the other Ordering
== rename src/tokio/sleep.rs `Default::default()` => `global_handle()` -- the default of TimerHandle
== rename src/tokio/sleep.rs `AtomicWaker::new` => `AtomicWaker::numbered` -- cells have numbers
== rename src/timer/mod.rs `Arc::downgrade` => `downgrade` -- a stand-in for weak references
== ghost .load(
== ghost .compare_exchange(
== ghost .fetch_or(
== ghost .lock(
== ghost .register(
== ghost .wake(
== ghost .list.take(
== ghost .list.take_and_seal(
== ghost list.pop(
== ghost list.push(
== ghost .upgrade(
== ghost ._reset(
== ghost ArcList::new(
== ghost AtomicUsize::new(
== ghost AtomicWaker::numbered(
== ghost Mutex::new(
== ghost self.update_or_add(
== ghost self.remove(
== ghost self.invalidate(
== ghost .is_elapsed(
== ghost Instant::now(
== ghost Sleep::new(
== ghost Sleep::new_at(
== ghost Sleep::new_handle(
== item uses
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;
== prelude
// --- time: the contracts of C01 ---

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Instant { d: std::time::Duration }

impl Instant {
    pub uninterp spec fn t(self) -> int;
}

pub open spec fn order_of(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}

impl PartialEqSpecImpl for Instant {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Instant) -> bool { self.t() == o.t() }
}

impl PartialEq for Instant {
    #[verifier::external_body]
    fn eq(&self, o: &Instant) -> bool { unimplemented!() }
}

impl Eq for Instant {}

impl PartialOrdSpecImpl for Instant {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Instant) -> Option<Ordering> { Some(order_of(self.t(), o.t())) }
}

impl PartialOrd for Instant {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Instant) -> Option<Ordering> { unimplemented!() }
}

impl OrdSpecImpl for Instant {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Instant) -> Ordering { order_of(self.t(), o.t()) }
}

impl Ord for Instant {
    #[verifier::external_body]
    fn cmp(&self, o: &Instant) -> Ordering { unimplemented!() }
}

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { d: std::time::Duration }

impl Duration {
    pub uninterp spec fn ns(self) -> int;
    #[verifier::external_body]
    pub fn new(s: u64, n: u32) -> (r: Duration)
        requires n < 1_000_000_000,
        ensures r.ns() == s * 1_000_000_000 + n,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_secs(s: u64) -> (r: Duration)
        ensures r.ns() == s * 1_000_000_000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_millis(m: u64) -> (r: Duration)
        ensures r.ns() == m * 1_000_000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_nanos(n: u64) -> (r: Duration)
        ensures r.ns() == n,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_nanos(&self) -> (r: u128)
        ensures r == self.ns(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_millis(&self) -> (r: u128)
        ensures self.ns() >= 0, r == self.ns() / 1_000_000,
    { unimplemented!() }
}

impl PartialEqSpecImpl for Duration {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Duration) -> bool { self.ns() == o.ns() }
}

impl PartialEq for Duration {
    #[verifier::external_body]
    fn eq(&self, o: &Duration) -> bool { unimplemented!() }
}

impl PartialOrdSpecImpl for Duration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<Ordering> { Some(order_of(self.ns(), o.ns())) }
}

impl PartialOrd for Duration {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Duration) -> Option<Ordering> { unimplemented!() }
}

/// The clock counts nanoseconds from 0 on, within what an instant can say.
pub open spec fn last_instant() -> int { 0x1_0000_0000_0000_0000 * 1_000_000_000 - 1 }

impl Instant {
    /// The clock stands still while the code runs.
    #[verifier::external_body]
    pub fn now(vw: &mut World) -> (r: Instant)
        ensures r.t() == old(vw).g@.clock, 0 <= r.t() <= last_instant(), *final(vw) == *old(vw),
    { unimplemented!() }
}

impl vstd::std_specs::ops::SubSpecImpl<Instant> for Instant {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, d: Instant) -> bool { true }
    open spec fn sub_spec(self, d: Instant) -> Duration { arbitrary() }
}

impl std::ops::Sub<Instant> for Instant {
    type Output = Duration;
    #[verifier::external_body]
    fn sub(self, d: Instant) -> (r: Duration)
        ensures r.ns() == if self.t() >= d.t() { self.t() - d.t() } else { 0 },
    { unimplemented!() }
}

impl vstd::std_specs::ops::SubSpecImpl<Duration> for Instant {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, d: Duration) -> bool { self.t() >= d.ns() }
    open spec fn sub_spec(self, d: Duration) -> Instant { arbitrary() }
}

impl std::ops::Sub<Duration> for Instant {
    type Output = Instant;
    #[verifier::external_body]
    fn sub(self, d: Duration) -> (r: Instant)
        ensures r.t() == self.t() - d.ns(),
    { unimplemented!() }
}

impl vstd::std_specs::ops::AddSpecImpl<Duration> for Instant {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, d: Duration) -> bool { self.t() + d.ns() <= last_instant() }
    open spec fn add_spec(self, d: Duration) -> Instant { arbitrary() }
}

impl std::ops::Add<Duration> for Instant {
    type Output = Instant;
    #[verifier::external_body]
    fn add(self, d: Duration) -> (r: Instant)
        ensures r.t() == self.t() + d.ns(),
    { unimplemented!() }
}

// --- what is shared between the timer and the sleeps ---

pub struct Task { pub id: int }

/// What the shared cells hold, by the number of the cell.
pub ghost struct Shared {
    pub state: IMap<int, usize>,
    pub at: IMap<int, Option<Instant>>,
    pub slot: IMap<int, Option<Slot>>,
    /// Wakers that were used since a task was registered with them.
    pub woken: ISet<int>,
    pub reg: IMap<int, Task>,
    pub list: IMap<int, Seq<Arc<ScheduledTimer>>>,
    pub sealed: ISet<int>,
    /// Nodes that are, or were last, given to a list.
    pub queued: ISet<int>,
    /// Drivers that are there, by their lists.
    pub alive: ISet<int>,
    /// The numbers that the next cells get.
    pub states: int, pub ats: int, pub slots: int, pub wakers: int,
    /// The clock; whether it is paused (the test clock).
    pub clock: int,
    pub paused: bool,
    /// The host: its time, and what it was asked to call when, by driver and number. Callbacks scheduled, by driver.
    pub host: int,
    pub armed: IMap<(int, usize), int>,
    pub count: IMap<int, usize>,
}

/// No sleep was made yet.
pub open spec fn unused(g: Shared) -> bool {
    &&& g.fresh()
    &&& forall|k: int| !#[trigger] g.queued.contains(k)
    &&& forall|k: int| (#[trigger] g.slot[k]) is None
    &&& forall|k: int| (#[trigger] g.at[k]) is None
    &&& forall|k: int| (#[trigger] g.state[k]) & 2 == 0
}

impl Shared {
    /// Nodes have the numbers from 0 on, and no other ones.
    pub open spec fn fresh(self) -> bool {
        &&& 0 <= self.states && self.states == self.ats && self.states == self.slots && self.states == self.wakers
        &&& forall|k: int| k < 0 || self.states <= k ==> (#[trigger] self.slot[k]) is None && !self.queued.contains(k)
    }
}

/// A ghost: it stands for the memory that is shared.
pub struct World { pub g: Ghost<Shared> }

#[verifier::external_body]
pub struct AtomicUsize { c: u8 }

impl AtomicUsize {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(n: usize, vw: &mut World) -> (r: Self)
        ensures r.id() == old(vw).g@.states,
            final(vw).g@ == (Shared { state: old(vw).g@.state.insert(r.id(), n), states: r.id() + 1, ..old(vw).g@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: std::sync::atomic::Ordering, vw: &mut World) -> (r: usize)
        ensures r == old(vw).g@.state[self.id()], *final(vw) == *old(vw),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_or(&self, n: usize, o: std::sync::atomic::Ordering, vw: &mut World) -> (r: usize)
        ensures r == old(vw).g@.state[self.id()],
            final(vw).g@ == (Shared { state: old(vw).g@.state.insert(self.id(), old(vw).g@.state[self.id()] | n), ..old(vw).g@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, from: usize, to: usize, o: std::sync::atomic::Ordering, p: std::sync::atomic::Ordering, vw: &mut World) -> (r: Result<usize, usize>)
        ensures r is Ok <==> old(vw).g@.state[self.id()] == from,
            r is Ok ==> final(vw).g@ == (Shared { state: old(vw).g@.state.insert(self.id(), to), ..old(vw).g@ }),
            r is Err ==> *final(vw) == *old(vw) && r->Err_0 == old(vw).g@.state[self.id()],
    { unimplemented!() }
}

#[verifier::external_body]
#[derive(Debug)]
pub struct PoisonError { c: u8 }

/// What a lock can hold here.
pub trait Held: Sized {
    spec fn next(g: Shared) -> int;
    spec fn get(g: Shared, k: int) -> Self;
    spec fn put(g: Shared, k: int, v: Self) -> Shared;
    spec fn made(g: Shared) -> Shared;
}

impl Held for Option<Instant> {
    open spec fn next(g: Shared) -> int { g.ats }
    open spec fn get(g: Shared, k: int) -> Self { g.at[k] }
    open spec fn put(g: Shared, k: int, v: Self) -> Shared { if v == g.at[k] { g } else { Shared { at: g.at.insert(k, v), ..g } } }
    open spec fn made(g: Shared) -> Shared { Shared { ats: g.ats + 1, ..g } }
}

impl Held for Option<Slot> {
    open spec fn next(g: Shared) -> int { g.slots }
    open spec fn get(g: Shared, k: int) -> Self { g.slot[k] }
    open spec fn put(g: Shared, k: int, v: Self) -> Shared { if v == g.slot[k] { g } else { Shared { slot: g.slot.insert(k, v), ..g } } }
    open spec fn made(g: Shared) -> Shared { Shared { slots: g.slots + 1, ..g } }
}

/// The lock of a thread by itself.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { c: Vec<T> }

impl<T: Held> Mutex<T> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(t: T, vw: &mut World) -> (r: Self)
        ensures r.id() == T::next(old(vw).g@), final(vw).g@ == T::made(T::put(old(vw).g@, r.id(), t)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lock<'a>(&'a self, vw: &'a mut World) -> (r: Result<&'a mut T, PoisonError>)
        ensures r is Ok, *r->Ok_0 == T::get(old(vw).g@, self.id()),
            final(vw).g@ == T::put(old(vw).g@, self.id(), *final(r->Ok_0)),
    { unimplemented!() }
}

#[verifier::external_body]
pub struct AtomicWaker { c: u8 }

impl AtomicWaker {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.id() < 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn numbered(vw: &mut World) -> (r: Self)
        ensures r.id() == old(vw).g@.wakers, final(vw).g@ == (Shared { wakers: r.id() + 1, ..old(vw).g@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn register(&self, waker: &Waker, vw: &mut World)
        ensures final(vw).g@ == (Shared { reg: old(vw).g@.reg.insert(self.id(), waker.task()), woken: old(vw).g@.woken.remove(self.id()), ..old(vw).g@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wake(&self, vw: &mut World)
        ensures final(vw).g@ == (Shared { woken: old(vw).g@.woken.insert(self.id()), ..old(vw).g@ }),
    { unimplemented!() }
}

#[verifier::external_body]
pub struct Waker { w: std::task::Waker }

impl Waker {
    pub uninterp spec fn task(self) -> Task;
}

#[verifier::external_body]
pub struct Context<'a> { w: &'a std::task::Waker }

impl<'a> Context<'a> {
    pub uninterp spec fn task(self) -> Task;
    #[verifier::external_body]
    pub fn waker(&self) -> (r: &Waker)
        ensures r.task() == self.task(),
    { unimplemented!() }
}

pub enum Poll<A> { Ready(A), Pending }

impl<T> Poll<T> {
    fn is_pending(&self) -> (r: bool)
        ensures r == (self is Pending),
    { match self { Poll::Pending => true, _ => false } }
    fn is_ready(&self) -> (r: bool)
        ensures r == (self is Ready),
    { match self { Poll::Pending => false, _ => true } }
}

pub struct Pin<P> { pub p: P }

impl<P> Pin<P> {
    fn new<'a>(s: &'a mut P) -> (r: &'a mut P)
        ensures *r == *old(s), *final(s) == *final(r),
    { s }
}

/// A list of nodes, either shared (its nodes are in the world) or taken.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ArcList<T> { l: Vec<T> }

impl<T> ArcList<T> {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn taken(self) -> Seq<Arc<T>>;
}

impl ArcList<ScheduledTimer> {
    /// The list of a driver that is there from here on.
    #[verifier::external_body]
    pub fn new(vw: &mut World) -> (r: Self)
        ensures final(vw).g@ == (Shared { list: old(vw).g@.list.insert(r.id(), Seq::empty()), alive: old(vw).g@.alive.insert(r.id()),
            sealed: old(vw).g@.sealed.remove(r.id()), ..old(vw).g@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self, vw: &mut World) -> (r: Option<Arc<ScheduledTimer>>)
        ensures r is None ==> old(self).taken().len() == 0 && final(self).taken() == old(self).taken() && *final(vw) == *old(vw),
            r is Some ==> old(self).taken().len() > 0 && r.unwrap() == old(self).taken().last() && final(self).taken() == old(self).taken().drop_last()
                && final(vw).g@ == (Shared { queued: old(vw).g@.queued.remove(r.unwrap().key()), ..old(vw).g@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&self, node: &Arc<ScheduledTimer>, vw: &mut World) -> (r: Result<(), ()>)
        ensures r is Err <==> !old(vw).g@.queued.contains(node.key()) && old(vw).g@.sealed.contains(self.id()),
            final(vw).g@ == pushed(old(vw).g@, self.id(), *node),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(&self, vw: &mut World) -> (r: Self)
        ensures r.taken() == old(vw).g@.list[self.id()],
            final(vw).g@ == (Shared { list: old(vw).g@.list.insert(self.id(), Seq::empty()), ..old(vw).g@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take_and_seal(&self, vw: &mut World) -> (r: Self)
        ensures r.taken() == old(vw).g@.list[self.id()],
            final(vw).g@ == (Shared { list: old(vw).g@.list.insert(self.id(), Seq::empty()), sealed: old(vw).g@.sealed.insert(self.id()), ..old(vw).g@ }),
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Weak<T> { w: Vec<T> }

impl<T> Weak<T> {
    pub uninterp spec fn to(self) -> Arc<T>;
}

#[verifier::external_body]
pub fn downgrade<T>(a: &Arc<T>) -> (r: Weak<T>)
    ensures r.to() == *a,
{ unimplemented!() }

impl Weak<Inner> {
    #[verifier::external_body]
    pub fn upgrade(&self, vw: &mut World) -> (r: Option<Arc<Inner>>)
        ensures *final(vw) == *old(vw), r is Some <==> old(vw).g@.alive.contains(self.to().list.id()),
            r is Some ==> r.unwrap() == self.to(),
    { unimplemented!() }
}

impl<T> Clone for Weak<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}

/// The driver of the process.
pub uninterp spec fn the_driver() -> Arc<Inner>;

/// TimerHandle::default, once the driver was started.
#[verifier::external_body]
pub fn global_handle() -> (r: TimerHandle)
    ensures r.inner.to() == the_driver(),
{ unimplemented!() }

// --- the model ---

impl ScheduledTimer {
    /// The node, by the number of its cells.
    pub open spec fn key(&self) -> int { self.state.id() }
    pub open spec fn ok(&self) -> bool { self.at.id() == self.key() && self.slot.id() == self.key() && self.waker.id() == self.key() }
}

/// The node asks the list to look at it.
pub open spec fn pushed(g: Shared, l: int, node: Arc<ScheduledTimer>) -> Shared {
    if g.queued.contains(node.key()) { g } else {
        Shared {
            queued: g.queued.insert(node.key()),
            list: if g.sealed.contains(l) { g.list } else { g.list.insert(l, g.list[l].push(node)) },
            ..g
        }
    }
}

fn node_of<T>(t: T) -> (r: T)
    ensures r == t,
{ t }

/// Firing a timer that was recorded with generation `gen`.
pub open spec fn fired(state: usize, gen: usize) -> usize { if state == gen << 2 { state | 1 } else { state } }

impl PartialEqSpecImpl for HeapTimer {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &HeapTimer) -> bool { self.at.t() == o.at.t() }
}

impl PartialOrdSpecImpl for HeapTimer {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &HeapTimer) -> Option<Ordering> { Some(order_of(self.at.t(), o.at.t())) }
}

impl OrdSpecImpl for HeapTimer {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &HeapTimer) -> Ordering { order_of(self.at.t(), o.at.t()) }
}

== in Timer
    /// The heap and the slots of the nodes point at each other.
    pub open spec fn inv(self, g: Shared) -> bool {
        &&& self.timer_heap.wf()
        &&& forall|s: int| #[trigger] self.timer_heap.view().contains_key(s) ==> self.timer_heap.view()[s].node.ok()
                && g.slot[self.timer_heap.view()[s].node.key()] is Some && g.slot[self.timer_heap.view()[s].node.key()].unwrap().id() == s
        &&& forall|k: int| (#[trigger] g.slot[k]) is Some ==> self.timer_heap.view().contains_key(g.slot[k].unwrap().id())
                && self.timer_heap.view()[g.slot[k].unwrap().id()].node.key() == k
    }
    /// What is recorded for a node: the deadline and the generation.
    #[verifier::inline]
    pub open spec fn entry(self, g: Shared, k: int) -> Option<(Instant, usize)> { self.rec(g.slot, k) }
    pub open spec fn rec(self, slot: IMap<int, Option<Slot>>, k: int) -> Option<(Instant, usize)> {
        match slot[k] { None => None, Some(s) => Some((self.timer_heap.view()[s.id()].at, self.timer_heap.view()[s.id()].gen)) }
    }
    spec fn kept(self, g: Shared, b: Self, h: Shared, k: int) -> bool {
        b.entry(h, k) == self.entry(g, k) && h.state[k] == g.state[k] && (h.woken.contains(k) <==> g.woken.contains(k))
    }
    spec fn done(self, g: Shared, b: Self, h: Shared, k: int, now: int) -> bool {
        &&& self.entry(g, k) is Some && self.entry(g, k).unwrap().0.t() <= now
        &&& b.entry(h, k) is None
        &&& h.state[k] == fired(g.state[k], self.entry(g, k).unwrap().1)
        &&& h.woken.contains(k) <==> g.woken.contains(k) || g.state[k] == self.entry(g, k).unwrap().1 << 2
    }
    /// Updates that the sleeps asked for.
    pub open spec fn asked(self, g: Shared) -> Seq<Arc<ScheduledTimer>> { g.list[self.inner.list.id()] }

    /// Every node that is not waiting to be looked at is recorded as it asked for, unless it has fired.
    pub open spec fn heard(self, g: Shared, k: int) -> bool {
        if live(g, k) { has_key(self.asked(g), k) || self.entry(g, k) == want(g, k) }
        else { !has_key(self.asked(g), k) && self.entry(g, k) is None }
    }
    /// What holds of the driver and its sleeps between their operations.
    pub open spec fn sys(self, g: Shared) -> bool {
        &&& self.inv(g)
        &&& g.fresh()
        &&& g.alive.contains(self.inner.list.id()) && !g.sealed.contains(self.inner.list.id())
        &&& self.inner.waker.id() < 0
        &&& forall|i: int| 0 <= i < self.asked(g).len() ==> (#[trigger] self.asked(g)[i]).ok() && 0 <= self.asked(g)[i].key() < g.states
        &&& forall|k: int| #[trigger] g.queued.contains(k) <==> has_key(self.asked(g), k)
        &&& forall|k: int| 0 <= k < g.states ==> #[trigger] self.heard(g, k)
        &&& forall|k: int| 0 <= k < g.states ==> (#[trigger] g.state[k]) & 2 == 0
    }

    proof fn lemma_changed(self, g: Shared, h: Shared, n: Arc<ScheduledTimer>, at: Option<Instant>)
        requires self.sys(g), n.ok(), 0 <= n.key() < g.states, n.inner.to() == self.inner, changed(g, h, n, at),
        ensures self.sys(h),
    {
        let a = self.asked(g);
        let b = self.asked(h);
        assert(b == if g.queued.contains(n.key()) { a } else { a.push(n) });
        assert forall|k: int| has_key(b, k) <==> has_key(a, k) || k == n.key() by { lemma_more(a, n, k); }
        lemma_word(h.state[n.key()]);
        assert forall|k: int| 0 <= k < h.states implies #[trigger] self.heard(h, k) by { assert(self.heard(g, k)); }
        assert forall|k: int| 0 <= k < h.states implies (#[trigger] h.state[k]) & 2 == 0 by { assert(g.state[k] & 2 == 0 || k == n.key()); }
    }
    proof fn lemma_made(self, g: Shared, h: Shared, n: Arc<ScheduledTimer>, at: Instant)
        requires self.sys(g), made(g, h, self.inner, n, at),
        ensures self.sys(h),
    {
        let a = self.asked(g);
        let b = self.asked(h);
        assert(b == a.push(n));
        assert forall|k: int| has_key(b, k) <==> has_key(a, k) || k == n.key() by { lemma_more(a, n, k); }
        assert(0usize & 2 == 0 && 0usize & 1 == 0) by (bit_vector);
        assert forall|k: int| 0 <= k < h.states implies #[trigger] self.heard(h, k) by { if k < g.states { assert(self.heard(g, k)); } }
        assert forall|k: int| 0 <= k < h.states implies (#[trigger] h.state[k]) & 2 == 0 by { if k < g.states { assert(g.state[k] & 2 == 0); } }
        assert(self.inv(h));
        assert(h.fresh());
    }

== fn Timer::new | ghost
    requires unused(old(vw).g@),
    ensures ret.sys(final(vw).g@), ret.asked(final(vw).g@).len() == 0, ret.timer_heap.count() == 0, ret.timer_heap.room(0), // [C06]
        final(vw).g@ == (Shared { list: final(vw).g@.list, alive: final(vw).g@.alive, sealed: final(vw).g@.sealed, ..old(vw).g@ }),

== fn Timer::handle
    ensures ret.inner.to() == self.inner, // [C06]

== fn Timer::next_event
    requires exists|g: Shared| self.inv(g),
    ensures forall|g: Shared| #[trigger] self.inv(g) ==> (match ret { // [C04] [C06]
            None => forall|k: int| (#[trigger] self.entry(g, k)) is None,
            Some(t) => (exists|k: int| (#[trigger] self.entry(g, k)) is Some && self.entry(g, k).unwrap().0 == t)
                && forall|k: int| (#[trigger] self.entry(g, k)) is Some ==> t.t() <= self.entry(g, k).unwrap().0.t(),
        }),

-- exit
    proof {
        assert forall|g: Shared| #[trigger] self.inv(g) && ret is Some implies exists|k: int| (#[trigger] self.entry(g, k)) is Some && self.entry(g, k).unwrap().0 == ret.unwrap() by {
            let v = self.timer_heap.view();
            let s = choose|s: int| #[trigger] v.contains_key(s) && v[s].at == ret.unwrap();
            assert(self.entry(g, v[s].node.key()) is Some);
        }
    }

== fn Timer::advance_to | ghost
    requires old(self).inv(old(vw).g@),
    ensures final(self).inv(final(vw).g@), final(self).inner == old(self).inner, // [C06]
        forall|n: nat| #[trigger] old(self).timer_heap.room(n) ==> final(self).timer_heap.room(n),
        final(vw).g@ == (Shared { state: final(vw).g@.state, slot: final(vw).g@.slot, woken: final(vw).g@.woken, ..old(vw).g@ }),
        forall|k: int| {
            let e = #[trigger] old(self).entry(old(vw).g@, k);
            let due = e is Some && e.unwrap().0.t() <= now.t();
            &&& final(self).entry(final(vw).g@, k) == if due { None } else { e }
            &&& final(vw).g@.state[k] == if due { fired(old(vw).g@.state[k], e.unwrap().1) } else { old(vw).g@.state[k] }
            &&& final(vw).g@.woken.contains(k) <==> old(vw).g@.woken.contains(k) || due && old(vw).g@.state[k] == e.unwrap().1 << 2
        },

-- entry
    let ghost g0 = vw.g@;
    let ghost s0 = *self;
-- loop 1
        invariant self.inv(vw.g@), self.inner == s0.inner, s0.inv(g0),
            forall|n: nat| #[trigger] s0.timer_heap.room(n) ==> self.timer_heap.room(n),
            vw.g@ == (Shared { state: vw.g@.state, slot: vw.g@.slot, woken: vw.g@.woken, ..g0 }),
            forall|k: int| #![trigger s0.entry(g0, k)] #![trigger self.entry(vw.g@, k)] s0.kept(g0, *self, vw.g@, k) || s0.done(g0, *self, vw.g@, k, now.t()),
        ensures forall|s: int| #[trigger] self.timer_heap.view().contains_key(s) ==> self.timer_heap.view()[s].at.t() > now.t(),
        decreases self.timer_heap.count(),
-- loop 1 entry
    let ghost s1 = *self;
    let ghost g1 = vw.g@;
-- loop 1 exit
    proof {
        let j = heap_timer.node.key();
        assert(s1.entry(g1, j) == Some((heap_timer.at, heap_timer.gen)));
        assert forall|k: int| #![trigger s0.entry(g0, k)] #![trigger self.entry(vw.g@, k)] s0.kept(g0, *self, vw.g@, k) || s0.done(g0, *self, vw.g@, k, now.t()) by {
            assert(s0.kept(g0, s1, g1, k) || s0.done(g0, s1, g1, k, now.t())) by { assert(s0.entry(g0, k) == s0.entry(g0, k)); }
            if k != j { assert(self.entry(vw.g@, k) == s1.entry(g1, k)); }
        }
    }
-- exit
    proof {
        assert forall|k: int| s0.kept(g0, *self, vw.g@, k) implies !(#[trigger] s0.entry(g0, k) is Some && s0.entry(g0, k).unwrap().0.t() <= now.t()) by {
            if self.entry(vw.g@, k) is Some { assert(vw.g@.slot[k] is Some); }
        }
    }

== fn Timer::update_or_add | ghost
    requires old(self).inv(old(vw).g@), node.ok(), old(self).timer_heap.room(1),
    ensures final(self).inv(final(vw).g@), final(self).inner == old(self).inner, // [C06]
        forall|n: nat| #[trigger] final(self).timer_heap.room(n) <== old(self).timer_heap.room(n + 1),
        final(vw).g@ == (Shared { slot: final(vw).g@.slot, ..old(vw).g@ }),
        forall|k: int| #[trigger] final(self).entry(final(vw).g@, k)
            == if k == node.key() { Some((at, (old(vw).g@.state[k] >> 2) as usize)) } else { old(self).entry(old(vw).g@, k) },

== fn Timer::remove | ghost
    requires old(self).inv(old(vw).g@), node.ok(),
    ensures final(self).inv(final(vw).g@), final(self).inner == old(self).inner, // [C06]
        forall|n: nat| #[trigger] final(self).timer_heap.room(n) <== old(self).timer_heap.room(n),
        final(vw).g@ == (Shared { slot: final(vw).g@.slot, ..old(vw).g@ }),
        forall|k: int| #[trigger] final(self).entry(final(vw).g@, k)
            == if k == node.key() { None } else { old(self).entry(old(vw).g@, k) },

== fn Timer::invalidate | ghost
    requires node.ok(),
    ensures *final(self) == *old(self), // [C06]
        final(vw).g@ == (Shared { state: old(vw).g@.state.insert(node.key(), old(vw).g@.state[node.key()] | 2), woken: old(vw).g@.woken.insert(node.key()), ..old(vw).g@ }),

== fn Timer::poll | ghost
    requires old(self).inv(old(vw).g@), old(self).timer_heap.room(old(self).asked(old(vw).g@).len()),
        forall|i: int| 0 <= i < old(self).asked(old(vw).g@).len() ==> (#[trigger] old(self).asked(old(vw).g@)[i]).ok(),
    ensures final(self).inv(final(vw).g@), ret is Pending, final(self).inner == old(self).inner, // [C06]
        final(vw).g@.reg[final(self).inner.waker.id()] == old(cx).task(),
        final(self).asked(final(vw).g@).len() == 0,
        final(vw).g@ == (Shared { slot: final(vw).g@.slot, reg: final(vw).g@.reg, list: final(vw).g@.list, queued: final(vw).g@.queued,
            woken: old(vw).g@.woken.remove(final(self).inner.waker.id()), ..old(vw).g@ }),
        forall|k: int| final(vw).g@.queued.contains(k) <==> old(vw).g@.queued.contains(k) && !has_key(old(self).asked(old(vw).g@), k),
        forall|k: int| #[trigger] final(self).entry(final(vw).g@, k) == if has_key(old(self).asked(old(vw).g@), k) {
            match old(vw).g@.at[k] { None => None, Some(t) => Some((t, (old(vw).g@.state[k] >> 2) as usize)) }
        } else { old(self).entry(old(vw).g@, k) },

-- entry
    let ghost g0 = vw.g@;
    let ghost s0 = *self;
-- after `let mut list =`
    let ghost upd = list.taken();
-- loop 1
        invariant self.inv(vw.g@), self.inner == s0.inner, upd == s0.asked(g0),
            self.timer_heap.room(list.taken().len()), list.taken() == upd.subrange(0, list.taken().len() as int), list.taken().len() <= upd.len(),
            forall|i: int| 0 <= i < upd.len() ==> (#[trigger] upd[i]).ok(),
            vw.g@.reg[self.inner.waker.id()] == cx.task(), self.asked(vw.g@).len() == 0,
            vw.g@ == (Shared { slot: vw.g@.slot, reg: vw.g@.reg, list: vw.g@.list, queued: vw.g@.queued, woken: g0.woken.remove(self.inner.waker.id()), ..g0 }),
            forall|k: int| #[trigger] vw.g@.queued.contains(k) <==> g0.queued.contains(k) && !has_key(upd.subrange(list.taken().len() as int, upd.len() as int), k),
            forall|k: int| #[trigger] self.entry(vw.g@, k) == if has_key(upd.subrange(list.taken().len() as int, upd.len() as int), k) {
                match g0.at[k] { None => None, Some(t) => Some((t, (g0.state[k] >> 2) as usize)) }
            } else { s0.entry(g0, k) },
        ensures list.taken().len() == 0,
        decreases list.taken().len(),
-- loop 1 entry
    let ghost s1 = *self;
    let ghost g1 = vw.g@;
    proof { self.timer_heap.lemma_room(list.taken().len() + 1, 1); }
-- loop 1 exit
    proof {
        let n = list.taken().len() as int;
        if self.timer_heap.room(n as nat + 1) { self.timer_heap.lemma_room(n as nat + 1, n as nat); }
        assert forall|k: int| has_key(upd.subrange(n, upd.len() as int), k) <==> k == upd[n].key() || has_key(upd.subrange(n + 1, upd.len() as int), k) by {
            lemma_has(upd, n, k);
        }
    }
-- exit
    proof { let upd = s0.asked(g0); assert(upd.subrange(0, upd.len() as int) =~= upd); }

== fn Timer::drop | ghost
    requires old(self).inv(old(vw).g@),
        forall|i: int| 0 <= i < old(self).asked(old(vw).g@).len() ==> (#[trigger] old(self).asked(old(vw).g@)[i]).ok(),
    ensures // [C06]
        final(vw).g@.sealed.contains(old(self).inner.list.id()),
        final(vw).g@.at == old(vw).g@.at,
        forall|k: int| {
            let gone = has_key(old(self).asked(old(vw).g@), k) || #[trigger] old(self).entry(old(vw).g@, k) is Some;
            &&& final(vw).g@.state[k] == if gone { old(vw).g@.state[k] | 2 } else { old(vw).g@.state[k] }
            &&& final(vw).g@.woken.contains(k) <==> old(vw).g@.woken.contains(k) || gone
        },

-- entry
    let ghost g0 = vw.g@;
    let ghost s0 = *self;
    let ghost mut gone = ISet::<int>::empty();
-- after `let mut list =`
    let ghost upd = list.taken();
    proof { assert(closed(g0, vw.g@, gone)) by { reveal(shut); } }
-- loop 1
        invariant self.inner == s0.inner, upd == s0.asked(g0), self.timer_heap == s0.timer_heap,
            list.taken() == upd.subrange(0, list.taken().len() as int), list.taken().len() <= upd.len(),
            forall|i: int| 0 <= i < upd.len() ==> (#[trigger] upd[i]).ok(),
            vw.g@ == (Shared { state: vw.g@.state, woken: vw.g@.woken, list: vw.g@.list, queued: vw.g@.queued, sealed: vw.g@.sealed, ..g0 }), vw.g@.sealed.contains(self.inner.list.id()),
            closed(g0, vw.g@, gone),
            forall|k: int| #[trigger] gone.contains(k) <==> has_key(upd.subrange(list.taken().len() as int, upd.len() as int), k),
        ensures list.taken().len() == 0,
        decreases list.taken().len(),
-- loop 1 entry
    let ghost g1 = vw.g@;
-- loop 1 exit
    proof {
        let n = list.taken().len() as int;
        lemma_closed(g0, g1, vw.g@, gone, upd[n].key());
        gone = gone.insert(upd[n].key());
        assert forall|k: int| #[trigger] gone.contains(k) <==> has_key(upd.subrange(n, upd.len() as int), k) by {
            lemma_has(upd, n, k);
        }
    }
-- loop 1 after
    proof { assert(upd.subrange(0, upd.len() as int) =~= upd); }
-- loop 2
        invariant self.inner == s0.inner, upd == s0.asked(g0), s0.inv(g0), self.timer_heap.wf(),
            vw.g@ == (Shared { state: vw.g@.state, woken: vw.g@.woken, list: vw.g@.list, queued: vw.g@.queued, sealed: vw.g@.sealed, ..g0 }), vw.g@.sealed.contains(self.inner.list.id()),
            forall|s: int| #[trigger] self.timer_heap.view().contains_key(s) ==> s0.timer_heap.view().contains_key(s) && s0.timer_heap.view()[s] == self.timer_heap.view()[s],
            closed(g0, vw.g@, gone),
            forall|k: int| #[trigger] gone.contains(k) <==> has_key(upd, k) || g0.slot[k] is Some && !self.timer_heap.view().contains_key(g0.slot[k].unwrap().id()),
        ensures forall|s: int| !self.timer_heap.view().contains_key(s),
        decreases self.timer_heap.count(),
-- loop 2 entry
    let ghost g2 = vw.g@;
    let ghost j = t.node.key();
-- loop 2 exit
    proof {
        lemma_closed(g0, g2, vw.g@, gone, j);
        gone = gone.insert(j);
    }
-- exit
    proof {
        assert forall|k: int| {
            let all = has_key(s0.asked(g0), k) || #[trigger] s0.entry(g0, k) is Some;
            &&& vw.g@.state[k] == if all { g0.state[k] | 2 } else { g0.state[k] }
            &&& vw.g@.woken.contains(k) <==> g0.woken.contains(k) || all
        } by { reveal(shut); assert(gone.contains(k) || !gone.contains(k)); }
    }

== fn PartialEq for HeapTimer::eq
    ensures ret == (self.at.t() == other.at.t()), // [C04] [C06]

== fn PartialOrd for HeapTimer::partial_cmp
    ensures ret == Some(order_of(self.at.t(), other.at.t())), // [C04] [C06]

== fn Ord for HeapTimer::cmp
    ensures ret == order_of(self.at.t(), other.at.t()), // [C04] [C06]

== fn Sleep::new_handle | ghost
    requires old(vw).g@.fresh(),
    ensures ret.deadline == at, final(vw).g@.fresh(), ret.ok(final(vw).g@), !ret.elapsed(final(vw).g@), // [C07]
        ret.state is Some <==> old(vw).g@.alive.contains(handle.inner.to().list.id()) && !old(vw).g@.sealed.contains(handle.inner.to().list.id()),
        ret.state is Some ==> made(old(vw).g@, final(vw).g@, handle.inner.to(), ret.state.unwrap(), at),
        forall|t: Timer| #[trigger] t.sys(old(vw).g@) && t.inner == handle.inner.to() ==> t.sys(final(vw).g@), // [C06] [C07]

-- entry
    let ghost g0 = vw.g@;
    let ghost i = handle.inner.to();
-- exit
    proof {
        lemma_word(0);
        assert(0usize & 3 == 0) by (bit_vector);
        assert forall|t: Timer| #[trigger] t.sys(g0) && t.inner == i implies t.sys(vw.g@) by {
            if g0.alive.contains(i.list.id()) { t.lemma_made(g0, vw.g@, ret.state.unwrap(), at); }
        }
    }

== fn Sleep::new_at | ghost
    requires old(vw).g@.fresh(),
    ensures ret.deadline == at, final(vw).g@.fresh(), ret.ok(final(vw).g@), !ret.elapsed(final(vw).g@), // [C07]
        ret.state is Some <==> old(vw).g@.alive.contains(the_driver().list.id()) && !old(vw).g@.sealed.contains(the_driver().list.id()),
        ret.state is Some ==> made(old(vw).g@, final(vw).g@, the_driver(), ret.state.unwrap(), at),
        forall|t: Timer| #[trigger] t.sys(old(vw).g@) && t.inner == the_driver() ==> t.sys(final(vw).g@), // [C06] [C07]

== fn Sleep::new | ghost
    requires old(vw).g@.fresh(), old(vw).g@.clock + dur.ns() <= last_instant(),
    ensures ret.deadline.t() == old(vw).g@.clock + dur.ns(), final(vw).g@.fresh(), ret.ok(final(vw).g@), !ret.elapsed(final(vw).g@), // [C07]
        ret.state is Some <==> old(vw).g@.alive.contains(the_driver().list.id()) && !old(vw).g@.sealed.contains(the_driver().list.id()),
        ret.state is Some ==> made(old(vw).g@, final(vw).g@, the_driver(), ret.state.unwrap(), ret.deadline),
        forall|t: Timer| #[trigger] t.sys(old(vw).g@) && t.inner == the_driver() ==> t.sys(final(vw).g@), // [C06] [C07]

== fn sleep | ghost
    requires old(vw).g@.fresh(), old(vw).g@.clock + duration.ns() <= last_instant(),
    ensures ret.deadline.t() == old(vw).g@.clock + duration.ns(), final(vw).g@.fresh(), ret.ok(final(vw).g@), !ret.elapsed(final(vw).g@), // [C07]
        ret.state is Some <==> old(vw).g@.alive.contains(the_driver().list.id()) && !old(vw).g@.sealed.contains(the_driver().list.id()),
        ret.state is Some ==> made(old(vw).g@, final(vw).g@, the_driver(), ret.state.unwrap(), ret.deadline),
        forall|t: Timer| #[trigger] t.sys(old(vw).g@) && t.inner == the_driver() ==> t.sys(final(vw).g@), // [C06] [C07]

== fn sleep_until | ghost
    requires old(vw).g@.fresh(),
    ensures ret.deadline == instant, final(vw).g@.fresh(), ret.ok(final(vw).g@), !ret.elapsed(final(vw).g@), // [C07]
        ret.state is Some <==> old(vw).g@.alive.contains(the_driver().list.id()) && !old(vw).g@.sealed.contains(the_driver().list.id()),
        ret.state is Some ==> made(old(vw).g@, final(vw).g@, the_driver(), ret.state.unwrap(), instant),
        forall|t: Timer| #[trigger] t.sys(old(vw).g@) && t.inner == the_driver() ==> t.sys(final(vw).g@), // [C06] [C07]

== fn Sleep::deadline
    ensures ret == self.deadline, // [C07]

== fn Sleep::is_elapsed | ghost
    ensures ret == self.elapsed(old(vw).g@), *final(vw) == *old(vw), // [C07]

== fn Sleep::reset | ghost
    requires old(self).ok(old(vw).g@),
    ensures final(self).deadline == deadline, final(self).ok(final(vw).g@), // [C07]
        !old(self).gone(old(vw).g@) ==> !final(self).elapsed(final(vw).g@),
        old(self).state is None ==> final(self).state is None && final(vw).g@ == old(vw).g@,
        old(self).gone(old(vw).g@) ==> final(self).state == old(self).state && final(vw).g@ == old(vw).g@,
        old(self).void(old(vw).g@) ==> final(self).state is None && final(vw).g@ == old(vw).g@,
        old(self).open(old(vw).g@) ==> changed(old(vw).g@, final(vw).g@, old(self).state.unwrap(), Some(deadline))
            && final(self).state == if refused(old(vw).g@, old(self).state.unwrap()) { None } else { old(self).state },
        forall|t: Timer| #[trigger] t.sys(old(vw).g@) && old(self).of(t, old(vw).g@) ==> t.sys(final(vw).g@) && final(self).state == old(self).state, // [C06] [C07]

-- entry
    let ghost g0 = vw.g@;
-- exit
    proof {
        if old(self).state is Some { lemma_word(vw.g@.state[old(self).state.unwrap().key()]); }
        assert forall|t: Timer| #[trigger] t.sys(g0) && old(self).of(t, g0) implies t.sys(vw.g@) && self.state == old(self).state by {
            let n = old(self).state.unwrap();
            assert(g0.state[n.key()] & 2 == 0);
            if !old(self).gone(g0) { t.lemma_changed(g0, vw.g@, n, Some(deadline)); }
        }
    }

== fn Sleep::_reset | ghost
    requires old(self).state is Some ==> old(self).state.unwrap().ok(),
    ensures *final(self) == *old(self), // [C07]
        old(self).state is None || old(self).void(old(vw).g@) ==> ret is Err && final(vw).g@ == old(vw).g@,
        old(self).gone(old(vw).g@) ==> ret is Ok && final(vw).g@ == old(vw).g@,
        old(self).open(old(vw).g@) ==> changed(old(vw).g@, final(vw).g@, old(self).state.unwrap(), Some(at))
            && (ret is Err <==> refused(old(vw).g@, old(self).state.unwrap())),
-- entry
    let ghost g0 = vw.g@;
-- loop 1
        invariant_except_break vw.g@ == g0, bits == g0.state[state.key()],
        invariant self.state == Some(*state), *self == *old(self), g0 == old(vw).g@, g0.alive.contains(state.inner.to().list.id()),
        ensures changed_state(g0, vw.g@, state.key()), g0.state[state.key()] & 2 == 0,
        decreases 0int,
-- loop 1 entry
    proof { lemma_rearmed(bits); }

== fn Sleep::poll | ghost
    requires old(self).ok(old(vw).g@), old(self).state is Some, old(vw).g@.state[old(self).state.unwrap().key()] & 3 != 2,
    ensures *final(self) == *old(self), // [C07]
        ret is Ready <==> old(self).elapsed(old(vw).g@),
        ret is Ready ==> *final(vw) == *old(vw),
        ret is Pending ==> final(vw).g@ == (Shared { reg: old(vw).g@.reg.insert(old(self).state.unwrap().key(), old(cx).task()), woken: old(vw).g@.woken.remove(old(self).state.unwrap().key()), ..old(vw).g@ }),

-- entry
    proof { lemma_word(vw.g@.state[self.state.unwrap().key()]); }

== fn Sleep::drop | ghost
    requires old(self).ok(old(vw).g@),
    ensures old(self).state is None || old(self).gone(old(vw).g@) ==> final(vw).g@ == old(vw).g@, // [C07]
        !(old(self).state is None) && !old(self).gone(old(vw).g@) ==> changed(old(vw).g@, final(vw).g@, old(self).state.unwrap(), None),
        forall|t: Timer| #[trigger] t.sys(old(vw).g@) && old(self).of(t, old(vw).g@) ==> t.sys(final(vw).g@), // [C06] [C07]
-- entry
    let ghost g0 = vw.g@;
-- exit
    proof {
        assert forall|t: Timer| #[trigger] t.sys(g0) && old(self).of(t, g0) implies t.sys(vw.g@) by {
            if !old(self).gone(g0) { t.lemma_changed(g0, vw.g@, old(self).state.unwrap(), None); }
        }
    }

== in Sleep
    pub open spec fn ok(self, g: Shared) -> bool {
        self.state is Some ==> self.state.unwrap().ok() && 0 <= self.state.unwrap().key() < g.states
            && (!self.gone(g) ==> g.at[self.state.unwrap().key()] == Some(self.deadline))
    }
    pub open spec fn elapsed(self, g: Shared) -> bool { self.state is Some && g.state[self.state.unwrap().key()] & 1 != 0 }
    /// The driver is gone.
    pub open spec fn gone(self, g: Shared) -> bool {
        self.state is Some && !g.alive.contains(self.state.unwrap().inner.to().list.id())
    }
    /// The driver was dropped.
    pub open spec fn void(self, g: Shared) -> bool {
        self.state is Some && !self.gone(g) && g.state[self.state.unwrap().key()] & 2 != 0
    }
    pub open spec fn open(self, g: Shared) -> bool { self.state is Some && !self.gone(g) && !self.void(g) }
    /// The driver of this sleep.
    pub open spec fn of(self, t: Timer, g: Shared) -> bool { self.state is Some && self.state.unwrap().inner.to() == t.inner }

== lemmas
/// The node waits for its deadline, or it has none.
pub open spec fn live(g: Shared, k: int) -> bool { g.at[k] is None || g.state[k] & 1 == 0 }

/// What a node wants to have recorded.
pub open spec fn want(g: Shared, k: int) -> Option<(Instant, usize)> {
    match g.at[k] { None => None, Some(t) => Some((t, (g.state[k] >> 2) as usize)) }
}

/// The driver's list is closed to the node.
pub open spec fn refused(g: Shared, n: Arc<ScheduledTimer>) -> bool {
    !g.queued.contains(n.key()) && g.sealed.contains(n.inner.to().list.id())
}

pub open spec fn changed_state(g: Shared, h: Shared, k: int) -> bool {
    &&& h.state[k] & 3 == 0 && h.state[k] >> 2 != g.state[k] >> 2
    &&& h == (Shared { state: g.state.insert(k, h.state[k]), ..g })
}

/// The node waits for `at` (or for nothing any more), and the driver is told so.
pub open spec fn changed(g: Shared, h: Shared, n: Arc<ScheduledTimer>, at: Option<Instant>) -> bool {
    let l = n.inner.to().list.id();
    let p = pushed(g, l, n);
    &&& at is Some ==> h.state[n.key()] & 3 == 0 && h.state[n.key()] >> 2 != g.state[n.key()] >> 2 && h.state == g.state.insert(n.key(), h.state[n.key()])
    &&& at is None ==> h.state == g.state
    &&& h.at[n.key()] == at && forall|k: int| k != n.key() ==> h.at[k] == g.at[k]
    &&& h.woken == if refused(g, n) { g.woken } else { g.woken.insert(n.inner.to().waker.id()) }
    &&& h == (Shared { state: h.state, at: h.at, woken: h.woken, ..p })
}

/// The node is new: it waits for `at`.
pub open spec fn made(g: Shared, h: Shared, i: Arc<Inner>, n: Arc<ScheduledTimer>, at: Instant) -> bool {
    &&& n.key() == g.states && n.ok() && n.inner.to() == i
    &&& h.states == g.states + 1 && h.ats == g.ats + 1 && h.slots == g.slots + 1 && h.wakers == g.wakers + 1
    &&& h.state == g.state.insert(n.key(), 0)
    &&& h.at[n.key()] == Some(at) && h.slot[n.key()] is None
    &&& forall|k: int| k != n.key() ==> h.at[k] == g.at[k] && h.slot[k] == g.slot[k]
    &&& h.queued == g.queued.insert(n.key())
    &&& h.list == g.list.insert(i.list.id(), g.list[i.list.id()].push(n))
    &&& h.woken == g.woken.insert(i.waker.id())
    &&& h == (Shared { state: h.state, at: h.at, slot: h.slot, queued: h.queued, list: h.list, woken: h.woken, states: h.states, ats: h.ats, slots: h.slots, wakers: h.wakers, ..g })
}

/// The nodes `gone` were invalidated and woken, and no others.
#[verifier::inline]
spec fn closed(g: Shared, h: Shared, gone: ISet<int>) -> bool { shut(g.state, g.woken, h.state, h.woken, gone) }

#[verifier::opaque]
spec fn shut(s: IMap<int, usize>, w: ISet<int>, t: IMap<int, usize>, v: ISet<int>, gone: ISet<int>) -> bool {
    forall|k: int| #![trigger gone.contains(k)] #![trigger t[k]] #![trigger v.contains(k)] {
        &&& t[k] == if gone.contains(k) { s[k] | 2 } else { s[k] }
        &&& v.contains(k) <==> w.contains(k) || gone.contains(k)
    }
}

proof fn lemma_closed(g: Shared, h: Shared, h2: Shared, gone: ISet<int>, j: int)
    requires closed(g, h, gone),
        h2.state == h.state.insert(j, h.state[j] | 2), h2.woken == h.woken.insert(j),
    ensures closed(g, h2, gone.insert(j)),
{
    reveal(shut);
    lemma_or2(g.state[j]);
    assert forall|k: int| h2.state[k] == (if gone.insert(j).contains(k) { g.state[k] | 2 } else { g.state[k] })
        && (h2.woken.contains(k) <==> g.woken.contains(k) || #[trigger] gone.insert(j).contains(k)) by {
        assert(gone.contains(k) || !gone.contains(k));
    }
}

proof fn lemma_word(w: usize)
    ensures w & 3 != 2 && w & 1 == 0 ==> w & 2 == 0, w & 3 == 0 ==> w & 1 == 0 && w & 2 == 0,
{
    assert((w & 3 != 2 && w & 1 == 0 ==> w & 2 == 0) && (w & 3 == 0 ==> w & 1 == 0 && w & 2 == 0)) by (bit_vector);
}

/// The word of a node that is armed again: another generation, and no flags.
proof fn lemma_rearmed(w: usize)
    ensures forall|n: usize| n == w + 4 || n == w + 4 - usize::MAX - 1 ==> #[trigger] (n & !3usize) & 3 == 0 && (n & !3usize) >> 2 != w >> 2,
{
    assert forall|n: usize| n == w + 4 || n == w + 4 - usize::MAX - 1 implies #[trigger] (n & !3usize) & 3 == 0 && (n & !3usize) >> 2 != w >> 2 by {
        assert((n & !3usize) & 3 == 0 && (n & !3usize) >> 2 == n / 4 && w >> 2 == w / 4) by (bit_vector);
    }
}

proof fn lemma_more(a: Seq<Arc<ScheduledTimer>>, n: Arc<ScheduledTimer>, k: int)
    ensures has_key(a.push(n), k) <==> has_key(a, k) || k == n.key(),
{
    let b = a.push(n);
    if has_key(a, k) {
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).key() == k;
        assert(b[i].key() == k);
    }
    if has_key(b, k) {
        let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).key() == k;
        if i < a.len() { assert(a[i].key() == k); }
    }
    assert(b[a.len() as int] == n);
}

proof fn lemma_or2(s: usize)
    ensures (s | 2) | 2 == s | 2,
{
    assert((s | 2) | 2 == s | 2) by (bit_vector);
}

proof fn lemma_has(s: Seq<Arc<ScheduledTimer>>, n: int, k: int)
    requires 0 <= n < s.len(),
    ensures has_key(s.subrange(n, s.len() as int), k) <==> k == s[n].key() || has_key(s.subrange(n + 1, s.len() as int), k),
{
    let a = s.subrange(n, s.len() as int);
    let b = s.subrange(n + 1, s.len() as int);
    if has_key(b, k) {
        let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).key() == k;
        assert(a[i + 1].key() == k);
    }
    if has_key(a, k) {
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).key() == k;
        if i > 0 { assert(b[i - 1].key() == k); }
    }
    assert(a[0] == s[n]);
}

pub open spec fn has_key(s: Seq<Arc<ScheduledTimer>>, k: int) -> bool {
    exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key() == k
}

/// A sleep that is armed and has not completed.
pub open spec fn pending(g: Shared, k: int) -> bool { g.at[k] is Some && g.state[k] & 1 == 0 }

/// What poll has done (its contract).
pub open spec fn polled(s: Timer, g: Shared, t: Timer, h: Shared, task: Task) -> bool {
    &&& t.inv(h) && t.inner == s.inner
    &&& h.reg[t.inner.waker.id()] == task
    &&& t.asked(h).len() == 0
    &&& h == (Shared { slot: h.slot, reg: h.reg, list: h.list, queued: h.queued, woken: g.woken.remove(t.inner.waker.id()), ..g })
    &&& forall|k: int| h.queued.contains(k) <==> g.queued.contains(k) && !has_key(s.asked(g), k)
    &&& forall|k: int| #[trigger] t.entry(h, k) == if has_key(s.asked(g), k) {
            match g.at[k] { None => None, Some(t) => Some((t, (g.state[k] >> 2) as usize)) }
        } else { s.entry(g, k) }
}

/// What advance_to has done (its contract).
pub open spec fn advanced(s: Timer, g: Shared, t: Timer, h: Shared, now: Instant) -> bool {
    &&& t.inv(h) && t.inner == s.inner
    &&& h == (Shared { state: h.state, slot: h.slot, woken: h.woken, ..g })
    &&& forall|k: int| {
            let e = #[trigger] s.entry(g, k);
            let due = e is Some && e.unwrap().0.t() <= now.t();
            &&& t.entry(h, k) == if due { None } else { e }
            &&& h.state[k] == if due { fired(g.state[k], e.unwrap().1) } else { g.state[k] }
            &&& h.woken.contains(k) <==> g.woken.contains(k) || due && g.state[k] == e.unwrap().1 << 2
        }
}

/// A turn of the driver, as the callback takes it: it completes and wakes exactly the sleeps that are due.
pub proof fn lemma_turn(t0: Timer, g0: Shared, t1: Timer, g1: Shared, t: Timer, g: Shared, task: Task, now: Instant)
    requires t0.sys(g0), polled(t0, g0, t1, g1, task), advanced(t1, g1, t, g, now),
    ensures t.sys(g), t.inner == t0.inner, t.asked(g).len() == 0, // [C06]
        g.at == g0.at, g.states == g0.states, g.reg[t.inner.waker.id()] == task, !g.woken.contains(t.inner.waker.id()),
        forall|k: int| 0 <= k < g0.states ==> #[trigger] turned(g0, g, k, now.t()), // [C06]
        forall|x: Sleep| #[trigger] x.ok(g0) && x.of(t0, g0) ==> x.ok(g)
            && (x.elapsed(g) <==> x.elapsed(g0) || x.deadline.t() <= now.t()), // [C06] [C07]
        forall|k: int| 0 <= k < g0.states && #[trigger] pending(g, k) ==> t.entry(g, k) is Some && t.entry(g, k).unwrap().0 == g.at[k].unwrap(), // [C04] [C06]
        forall|k: int| (#[trigger] t.entry(g, k)) is Some ==> 0 <= k < g0.states && pending(g, k) && t.entry(g, k).unwrap().0 == g.at[k].unwrap(), // [C04] [C06]
{
    assert forall|k: int| 0 <= k < g0.states implies #[trigger] turned(g0, g, k, now.t()) && t.heard(g, k) && (t.entry(g, k) is Some ==> pending(g, k) && t.entry(g, k).unwrap().0 == g.at[k].unwrap())
        && (pending(g, k) ==> t.entry(g, k) is Some) && g.state[k] & 2 == 0 by {
        assert(t0.heard(g0, k));
        assert(g0.state[k] & 2 == 0);
        lemma_gen(g0.state[k]);
        assert(t1.entry(g1, k) == t1.entry(g1, k));
    }
    assert forall|k: int| 0 <= k < g0.states implies #[trigger] t.heard(g, k) by { assert(turned(g0, g, k, now.t())); }
    assert forall|k: int| 0 <= k < g0.states implies (#[trigger] g.state[k]) & 2 == 0 by { assert(turned(g0, g, k, now.t())); }
    assert forall|x: Sleep| #[trigger] x.ok(g0) && x.of(t0, g0) implies x.ok(g) && (x.elapsed(g) <==> x.elapsed(g0) || x.deadline.t() <= now.t()) by {
        let k = x.state.unwrap().key();
        assert(turned(g0, g, k, now.t()));
        lemma_gen(g0.state[k]);
    }
    assert forall|k: int| k < 0 || g.states <= k implies (#[trigger] g.slot[k]) is None && !g.queued.contains(k) by {
        assert(g0.slot[k] is None && !g0.queued.contains(k));
        assert(t0.entry(g0, k) is None);
        if has_key(t0.asked(g0), k) { let i = choose|i: int| 0 <= i < t0.asked(g0).len() && (#[trigger] t0.asked(g0)[i]).key() == k; }
        assert(t1.entry(g1, k) is None);
        assert(t.entry(g, k) is None);
    }
    assert forall|k: int| (#[trigger] t.entry(g, k)) is Some implies 0 <= k < g0.states && pending(g, k) && t.entry(g, k).unwrap().0 == g.at[k].unwrap() by {
        assert(g.slot[k] is Some);
        assert(turned(g0, g, k, now.t()));
    }
    assert forall|k: int| 0 <= k < g0.states && #[trigger] pending(g, k) implies t.entry(g, k) is Some && t.entry(g, k).unwrap().0 == g.at[k].unwrap() by {
        assert(turned(g0, g, k, now.t()));
    }
    let w = t.inner.waker.id();
    assert(t0.inv(g0) && g0.slot[w] is None);
    if has_key(t0.asked(g0), w) { let i = choose|i: int| 0 <= i < t0.asked(g0).len() && (#[trigger] t0.asked(g0)[i]).key() == w; }
    assert(t1.entry(g1, w) is None);
}

/// The turn, run.
fn turn(t: &mut Timer, cx: &mut Context<'_>, now: Instant, vw: &mut World) -> (next: Option<Instant>)
    requires old(t).sys(old(vw).g@), old(t).timer_heap.room(old(t).asked(old(vw).g@).len()),
    ensures final(t).sys(final(vw).g@), final(t).inner == old(t).inner, final(t).asked(final(vw).g@).len() == 0, // [C06]
        final(vw).g@.at == old(vw).g@.at, final(vw).g@.states == old(vw).g@.states,
        final(vw).g@.reg[final(t).inner.waker.id()] == old(cx).task(),
        forall|k: int| 0 <= k < old(vw).g@.states ==> #[trigger] turned(old(vw).g@, final(vw).g@, k, now.t()), // [C06]
        forall|x: Sleep| #[trigger] x.ok(old(vw).g@) && x.of(*old(t), old(vw).g@) ==> x.ok(final(vw).g@)
            && (x.elapsed(final(vw).g@) <==> x.elapsed(old(vw).g@) || x.deadline.t() <= now.t()), // [C06] [C07]
        next is None ==> forall|k: int| 0 <= k < old(vw).g@.states ==> !#[trigger] pending(final(vw).g@, k), // [C04] [C06]
        next is Some ==> (exists|k: int| 0 <= k < old(vw).g@.states && #[trigger] pending(final(vw).g@, k) && final(vw).g@.at[k] == next)
            && forall|k: int| 0 <= k < old(vw).g@.states && #[trigger] pending(final(vw).g@, k) ==> next.unwrap().t() <= final(vw).g@.at[k].unwrap().t(), // [C04] [C06]
{
    let ghost g0 = vw.g@;
    let ghost t0 = *t;
    t.poll(cx, vw);
    let ghost g1 = vw.g@;
    let ghost t1 = *t;
    t.advance_to(now, vw);
    let next = t.next_event();
    proof {
        lemma_turn(t0, g0, t1, g1, *t, vw.g@, old(cx).task(), now);
        if next is Some {
            let k = choose|k: int| (#[trigger] t.entry(vw.g@, k)) is Some && t.entry(vw.g@, k).unwrap().0 == next.unwrap();
            assert(pending(vw.g@, k));
        }
    }
    next
}

pub open spec fn turned(g: Shared, h: Shared, k: int, now: int) -> bool {
    let due = pending(g, k) && g.at[k].unwrap().t() <= now;
    &&& h.state[k] == if due { g.state[k] | 1 } else { g.state[k] }
    &&& h.woken.contains(k) <==> g.woken.contains(k) || due
}

proof fn lemma_gen(w: usize)
    ensures w & 3 == 0 ==> (w >> 2) << 2 == w, w & 1 != 0 ==> (w >> 2) << 2 != w, w & 2 == 0 && w & 1 == 0 ==> w & 3 == 0,
        (w | 1) & 1 == 1, (w | 1) & 2 == w & 2, w & 1 == 0 || w & 1 == 1,
{
    assert((w & 3 == 0 ==> (w >> 2) << 2 == w) && (w & 1 != 0 ==> (w >> 2) << 2 != w) && (w & 2 == 0 && w & 1 == 0 ==> w & 3 == 0)
        && (w | 1) & 1 == 1 && (w | 1) & 2 == w & 2 && (w & 1 == 0 || w & 1 == 1)) by (bit_vector);
}

/// The driver goes: every sleep that is pending is told so, and none completes by that.
fn closing(t: &mut Timer, vw: &mut World)
    requires old(t).sys(old(vw).g@),
    ensures
        forall|k: int| 0 <= k < old(vw).g@.states ==> (#[trigger] final(vw).g@.state[k]) & 1 == old(vw).g@.state[k] & 1, // [C06]
        forall|k: int| 0 <= k < old(vw).g@.states && #[trigger] pending(old(vw).g@, k) ==> final(vw).g@.state[k] & 3 == 2 && final(vw).g@.woken.contains(k), // [C06]
        final(vw).g@.sealed.contains(old(t).inner.list.id()), // [C06]
{
    let ghost g0 = vw.g@;
    let ghost t0 = *t;
    t.drop(vw);
    proof {
        assert forall|k: int| 0 <= k < g0.states implies (#[trigger] vw.g@.state[k]) & 1 == g0.state[k] & 1
            && (pending(g0, k) ==> vw.g@.state[k] & 3 == 2 && vw.g@.woken.contains(k)) by {
            assert(t0.heard(g0, k));
            assert(g0.state[k] & 2 == 0);
            assert(t0.entry(g0, k) == t0.entry(g0, k));
            lemma_close(g0.state[k]);
        }
        assert forall|k: int| 0 <= k < g0.states && #[trigger] pending(g0, k) implies vw.g@.state[k] & 3 == 2 && vw.g@.woken.contains(k) by {
            assert(vw.g@.state[k] & 1 == g0.state[k] & 1);
        }
    }
}

proof fn lemma_close(w: usize)
    ensures (w | 2) & 1 == w & 1, w & 1 == 0 ==> (w | 2) & 3 == 2,
{
    assert((w | 2) & 1 == w & 1 && (w & 1 == 0 ==> (w | 2) & 3 == 2)) by (bit_vector);
}
