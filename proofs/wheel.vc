Contracts of src/tokio_util/wheel: a wheel holds a set of entries; each comes out at its own tick, in order.

== file src/tokio_util/wheel/stack.rs
== file src/tokio_util/wheel/level.rs
== file src/tokio_util/wheel/mod.rs
== option --rlimit
== option 60
== option expand
== item uses
use std::borrow::Borrow;
use std::fmt::Debug;
use std::hash::Hash;
use vstd::arithmetic::power::*;
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::bits::*;
== drop fmt::Debug for Level
== prelude
/// Reaching this is a panic.
#[verifier::external_body]
fn vpanic<A>() -> A
    requires false,
{ unimplemented!() }

fn vassert(b: bool)
    requires b,
{ }

/// What an entry borrows as: its key.
pub uninterp spec fn key_of<O, B>(o: O) -> B;

pub uninterp spec fn borrows<O: ?Sized, B: ?Sized>(o: &O, b: &B) -> bool;

/// Borrowing is a function of the value borrowed from.
pub axiom fn axiom_borrow<O, B>(o: &O, b: &B)
    requires borrows(o, b),
    ensures *b == key_of::<O, B>(*o);

#[verifier::external_trait_specification]
pub trait ExBorrow<Borrowed: ?Sized> {
    type ExternalTraitSpecificationFor: Borrow<Borrowed>;
    fn borrow(&self) -> (r: &Borrowed)
        ensures borrows(self, r);
}

pub assume_specification [ u64::rotate_right ](x: u64, n: u32) -> (r: u64)
    ensures n < 64 ==> r == (x >> (n as u64)) | (x << (((64 - n) % 64) as u64));

pub assume_specification [ u64::div_ceil ](x: u64, y: u64) -> (r: u64)
    requires y != 0,
    ensures r == (x + y - 1) / (y as int);

pub assume_specification [ usize::pow ](x: usize, n: u32) -> (r: usize)
    requires pow(x as int, n as nat) <= usize::MAX,
    ensures r == pow(x as int, n as nat);

spec fn bit(x: u64, s: int) -> bool { (x >> (s as u64)) & 1 != 0 }

/// The length of a slot of level `l`, in ticks; the level above has slots as long as this whole level.
#[verifier::opaque]
spec fn r(l: int) -> int {
    if l <= 0 { 1 } else if l == 1 { 0x40 } else if l == 2 { 0x1000 } else if l == 3 { 0x4_0000 }
    else if l == 4 { 0x100_0000 } else if l == 5 { 0x4000_0000 } else { 0x10_0000_0000 }
}

/// The start of the slot that `w` is in, on level `l`.
#[verifier::opaque]
spec fn start(w: int, l: int) -> int { (w / r(l)) * r(l) }

#[verifier::opaque]
spec fn slot_of(w: int, l: int) -> int { (w / r(l)) % 64 }

/// Whether two times fall into the same slot of level `l`.
#[verifier::opaque]
spec fn same(a: int, b: int, l: int) -> bool { a / r(l) == b / r(l) }

/// Where an entry of deadline `w` may be on level `l`, when the time is `e`.
spec fn placed(l: int, w: int, e: int) -> bool {
    start(w, l) >= e && start(w, l) < e + r(l + 1) && (l < 5 ==> same(w, e, l + 1))
}

/// When slot `s` of level `l` is due, seen from the time `now`.
#[verifier::opaque]
spec fn dl(now: int, l: int, s: int) -> int {
    let x = now - now % r(l + 1) + s * r(l);
    if x < now { x + r(l + 1) } else { x }
}

/// What is known of an occupied slot.
#[verifier::opaque]
spec fn ok_bit(now: int, l: int, s: int) -> bool {
    dl(now, l, s) <= u64::MAX
}

/// Whatever happened to the store touched nothing but the entries in `touched`.
spec fn kept<T: Stack>(a: &T::Store, b: &T::Store, touched: ISet<T::Borrowed>) -> bool {
    &&& forall|k: T::Borrowed| #![auto] T::when_of(k, b) == T::when_of(k, a)
    &&& forall|k: T::Borrowed| #![auto] T::known(k, b) == T::known(k, a)
    &&& T::fixed(b) == T::fixed(a)
    &&& T::sound(a) ==> T::sound(b)
    &&& forall|k: T::Borrowed| !touched.contains(k) ==> (#[trigger] T::loose(k, b) == T::loose(k, a))
    &&& forall|o: T| #![trigger o.valid(a)] #![trigger o.valid(b)] #![trigger o.items(b)]
            o.valid(a) && (forall|k: T::Borrowed| o.items(a).contains(k) ==> !touched.contains(k))
            ==> o.valid(b) && o.items(b) == o.items(a)
}

/// The entries in `keep` and stacks of them are the same in both stores.
spec fn framed<T: Stack>(a: &T::Store, b: &T::Store, keep: ISet<T::Borrowed>) -> bool {
    &&& T::sound(b)
    &&& forall|k: T::Borrowed| keep.contains(k) ==> #[trigger] T::when_of(k, b) == T::when_of(k, a)
    &&& forall|k: T::Borrowed| keep.contains(k) && T::known(k, a) ==> #[trigger] T::known(k, b)
    &&& forall|o: T| #![trigger o.valid(b)] #![trigger o.items(b)]
            o.valid(a) && (forall|k: T::Borrowed| o.items(a).contains(k) ==> keep.contains(k))
            ==> o.valid(b) && o.items(b) == o.items(a)
}

/// A new stack is well-formed and empty.
/// A level as `Level::new` makes it.
spec fn fresh<T: Stack>(v: Level<T>, l: int) -> bool {
    &&& v.level == l && v.occupied == 0
    &&& forall|s: int, store: T::Store| 0 <= s < 64 ==> (#[trigger] v.slot@[s].valid(&store)) && v.slot@[s].items(&store) == Set::<T::Borrowed>::empty()
}

spec fn default_is_empty<T: Stack>() -> bool {
    forall|x: T, store: T::Store| #![trigger call_ensures(T::default, (), x), x.valid(&store)]
        call_ensures(T::default, (), x) ==> x.valid(&store) && x.items(&store) == Set::<T::Borrowed>::empty()
}

== in Stack
    /// The keys of what the stack holds.
    spec fn items(&self, store: &Self::Store) -> Set<Self::Borrowed>;
    /// The stack is well-formed.
    spec fn valid(&self, store: &Self::Store) -> bool;
    /// The store is well-formed.
    spec fn sound(store: &Self::Store) -> bool;
    /// The store has an entry with this key.
    spec fn known(k: Self::Borrowed, store: &Self::Store) -> bool;
    spec fn when_of(k: Self::Borrowed, store: &Self::Store) -> u64;
    /// The entry is not linked to others.
    spec fn loose(k: Self::Borrowed, store: &Self::Store) -> bool;
    /// All that the store holds but for the links of the entries.
    type Fixed;
    spec fn fixed(store: &Self::Store) -> Self::Fixed;

== fn Stack::is_empty
    ensures forall|store: Self::Store| #[trigger] self.valid(&store) ==> (ret <==> self.items(&store) == Set::<Self::Borrowed>::empty()),
== fn Stack::push
    requires Self::sound(old(store)), old(self).valid(old(store)), Self::known(key_of(item), old(store)),
        !old(self).items(old(store)).contains(key_of(item)), Self::loose(key_of(item), old(store)),
    ensures final(self).valid(final(store)),
        final(self).items(final(store)) == old(self).items(old(store)).insert(key_of(item)),
        Self::fixed(final(store)) == Self::fixed(old(store)),
        forall|k: Self::Borrowed| !old(self).items(old(store)).insert(key_of(item)).contains(k) ==> (#[trigger] Self::loose(k, final(store)) == Self::loose(k, old(store))),
        forall|k: Self::Borrowed| #![auto] Self::when_of(k, final(store)) == Self::when_of(k, old(store)),
        forall|k: Self::Borrowed| #![auto] Self::known(k, final(store)) == Self::known(k, old(store)),
        Self::sound(final(store)),
        forall|o: Self| #![trigger o.valid(old(store))] #![trigger o.valid(final(store))] #![trigger o.items(final(store))]
            o.valid(old(store)) && (forall|k: Self::Borrowed| o.items(old(store)).contains(k) ==> !old(self).items(old(store)).insert(key_of(item)).contains(k))
            ==> o.valid(final(store)) && o.items(final(store)) == o.items(old(store)),
== fn Stack::pop
    requires Self::sound(old(store)), old(self).valid(old(store)),
    ensures
        ret is None ==> old(self).items(old(store)) == Set::<Self::Borrowed>::empty() && *final(self) == *old(self) && *final(store) == *old(store),
        ret is Some ==> old(self).items(old(store)).contains(key_of(ret.unwrap()))
            && final(self).valid(final(store))
            && final(self).items(final(store)) == old(self).items(old(store)).remove(key_of(ret.unwrap()))
            && Self::loose(key_of(ret.unwrap()), final(store)),
        Self::fixed(final(store)) == Self::fixed(old(store)),
        forall|k: Self::Borrowed| !old(self).items(old(store)).contains(k) ==> (#[trigger] Self::loose(k, final(store)) == Self::loose(k, old(store))),
        forall|k: Self::Borrowed| #![auto] Self::when_of(k, final(store)) == Self::when_of(k, old(store)),
        forall|k: Self::Borrowed| #![auto] Self::known(k, final(store)) == Self::known(k, old(store)),
        Self::sound(final(store)),
        forall|o: Self| #![trigger o.valid(old(store))] #![trigger o.valid(final(store))] #![trigger o.items(final(store))]
            o.valid(old(store)) && (forall|k: Self::Borrowed| o.items(old(store)).contains(k) ==> !old(self).items(old(store)).contains(k))
            ==> o.valid(final(store)) && o.items(final(store)) == o.items(old(store)),
== fn Stack::remove
    requires Self::sound(old(store)), old(self).valid(old(store)), old(self).items(old(store)).contains(*item),
    ensures final(self).valid(final(store)),
        final(self).items(final(store)) == old(self).items(old(store)).remove(*item),
        Self::loose(*item, final(store)),
        Self::fixed(final(store)) == Self::fixed(old(store)),
        forall|k: Self::Borrowed| !old(self).items(old(store)).contains(k) ==> (#[trigger] Self::loose(k, final(store)) == Self::loose(k, old(store))),
        forall|k: Self::Borrowed| #![auto] Self::when_of(k, final(store)) == Self::when_of(k, old(store)),
        forall|k: Self::Borrowed| #![auto] Self::known(k, final(store)) == Self::known(k, old(store)),
        Self::sound(final(store)),
        forall|o: Self| #![trigger o.valid(old(store))] #![trigger o.valid(final(store))] #![trigger o.items(final(store))]
            o.valid(old(store)) && (forall|k: Self::Borrowed| o.items(old(store)).contains(k) ==> !old(self).items(old(store)).contains(k))
            ==> o.valid(final(store)) && o.items(final(store)) == o.items(old(store)),
== fn Stack::when
    requires Self::sound(store), Self::known(*item, store),
    ensures ret == Self::when_of(*item, store),

== in Level
    spec fn lwf(&self, store: &T::Store) -> bool {
        &&& self.level < 6
        &&& forall|s: int| 0 <= s < 64 ==> (#[trigger] self.slot@[s]).valid(store)
        &&& forall|s: int| 0 <= s < 64 ==> (bit(self.occupied, s) <==> (#[trigger] self.slot@[s]).items(store) != Set::<T::Borrowed>::empty())
        &&& forall|s: int, k: T::Borrowed| 0 <= s < 64 && (#[trigger] self.slot@[s].items(store).contains(k)) ==>
                T::known(k, store) && slot_of(T::when_of(k, store) as int, self.level as int) == s
    }
    /// The level holds the entry.
    spec fn has(&self, store: &T::Store, k: T::Borrowed) -> bool {
        self.slot@[slot_of(T::when_of(k, store) as int, self.level as int)].items(store).contains(k)
    }
    spec fn view(&self, store: &T::Store) -> ISet<T::Borrowed> {
        ISet::new(|k: T::Borrowed| self.has(store, k))
    }
    spec fn none(&self, store: &T::Store) -> bool {
        forall|k: T::Borrowed| !self.has(store, k)
    }
    /// What happened to one slot left the others alone.
    proof fn lemma_others(&self, a: &T::Store, now: Self, b: &T::Store, sl: int, touched: Set<T::Borrowed>)
        requires self.lwf(a), 0 <= sl < 64,
            forall|s: int| 0 <= s < 64 && s != sl ==> #[trigger] now.slot@[s] == self.slot@[s],
            forall|k: T::Borrowed| #[trigger] touched.contains(k) ==> self.slot@[sl].items(a).contains(k)
                || forall|s: int| 0 <= s < 64 ==> !(#[trigger] self.slot@[s]).items(a).contains(k),
            forall|o: T| #![trigger o.valid(a)] o.valid(a) && (forall|k: T::Borrowed| o.items(a).contains(k) ==> !touched.contains(k))
                ==> o.valid(b) && o.items(b) == o.items(a),
        ensures forall|s: int| 0 <= s < 64 && s != sl ==> (#[trigger] now.slot@[s]).valid(b) && now.slot@[s].items(b) == self.slot@[s].items(a),
    {
        assert forall|s: int| 0 <= s < 64 && s != sl implies (#[trigger] now.slot@[s]).valid(b) && now.slot@[s].items(b) == self.slot@[s].items(a) by {
            assert(self.slot@[s].valid(a));
            assert forall|k: T::Borrowed| self.slot@[s].items(a).contains(k) implies !touched.contains(k) by {
                if touched.contains(k) { assert(self.slot@[sl].items(a).contains(k)); }
            }
        }
    }
    proof fn lemma_kept(&self, a: &T::Store, b: &T::Store, sl: int, t0: Set<T::Borrowed>, t1: ISet<T::Borrowed>)
        requires
            forall|k: T::Borrowed| #![auto] T::when_of(k, b) == T::when_of(k, a),
            forall|k: T::Borrowed| #![auto] T::known(k, b) == T::known(k, a),
            T::sound(b), T::fixed(b) == T::fixed(a),
            forall|k: T::Borrowed| !t0.contains(k) ==> (#[trigger] T::loose(k, b) == T::loose(k, a)),
            forall|o: T| #![trigger o.valid(a)] o.valid(a) && (forall|k: T::Borrowed| o.items(a).contains(k) ==> !t0.contains(k))
                ==> o.valid(b) && o.items(b) == o.items(a),
            forall|k: T::Borrowed| t0.contains(k) ==> #[trigger] t1.contains(k),
        ensures kept::<T>(a, b, t1),
    {
        assert forall|o: T| #![trigger o.valid(a)] #![trigger o.valid(b)] #![trigger o.items(b)]
            o.valid(a) && (forall|k: T::Borrowed| o.items(a).contains(k) ==> !t1.contains(k))
            implies o.valid(b) && o.items(b) == o.items(a) by {
            assert forall|k: T::Borrowed| o.items(a).contains(k) implies !t0.contains(k) by {
                if t0.contains(k) { assert(t1.contains(k)); }
            }
        }
    }

== fn Level::new
    requires level < 6, default_is_empty::<T>(),
    ensures ret.level == level, ret.occupied == 0,
        forall|s: int, store: T::Store| 0 <= s < 64 ==> (#[trigger] ret.slot@[s].valid(&store)) && ret.slot@[s].items(&store) == Set::<T::Borrowed>::empty(),

== fn Level::next_expiration
    requires self.level < 6, forall|s: int| 0 <= s < 64 && bit(self.occupied, s) ==> ok_bit(now as int, self.level as int, s),
    ensures ret is None <==> self.occupied == 0,
        ret is Some ==> {
            let x = ret.unwrap();
            &&& x.level == self.level && x.slot < 64 && bit(self.occupied, x.slot as int)
            &&& x.deadline == dl(now as int, self.level as int, x.slot as int) && x.deadline >= now
            &&& forall|s: int| 0 <= s < 64 && bit(self.occupied, s) ==> #[trigger] dl(now as int, self.level as int, s) >= x.deadline
        },
-- before `let level_range =`
    proof { lemma_r(self.level as int); lemma_mod_decreases(now as nat, r(self.level as int + 1) as nat); }
-- after `let level_range =`
    proof {
        reveal(dl); reveal(ok_bit);
        lemma_dl(now as int, self.level as int, slot as int);
        lemma_first(now as int, self.level as int, slot as int, self.occupied);
    }

== fn Level::next_occupied_slot
    requires self.level < 6,
    ensures ret is None <==> self.occupied == 0,
        ret is Some ==> ret.unwrap() < 64 && first(self.occupied, up(now as int, self.level as int) % 64, ret.unwrap() as int),
-- entry
    proof { lemma_r(self.level as int); }
-- before `let occupied =`
    proof { lemma_up(now as int, self.level as int); }
-- before `let zeros =`
    proof { lemma_rotate(self.occupied, now_slot as u64); lemma_trailing(occupied); }
-- before `Some(slot)`
    proof { lemma_cyclic(self.occupied, occupied, now_slot as int, zeros as int, slot as int); }

== fn Level::add_entry
    requires old(self).lwf(old(store)), T::sound(old(store)), T::known(key_of(item), old(store)),
        T::when_of(key_of(item), old(store)) == when, T::loose(key_of(item), old(store)),
        forall|s: int| 0 <= s < 64 ==> !(#[trigger] old(self).slot@[s]).items(old(store)).contains(key_of(item)),
    ensures final(self).lwf(final(store)), final(self).level == old(self).level,
        final(self).view(final(store)) == old(self).view(old(store)).insert(key_of(item)),
        final(self).occupied == old(self).occupied | (1u64 << (slot_of(when as int, old(self).level as int) as u64)),
        kept::<T>(old(store), final(store), old(self).view(old(store)).insert(key_of(item))),
-- entry
    let ghost s0 = *self;
    let ghost st0 = *store;
    let ghost key = key_of::<T::Owned, T::Borrowed>(item);
-- exit
    proof {
        let sl = slot as int;
        lemma_bits(s0.occupied, slot as u64);
        s0.lemma_others(&st0, *self, store, sl, s0.slot@[sl].items(&st0).insert(key));
        assert(self.slot@[sl].items(store).contains(key));
        assert(self.view(store) =~= s0.view(&st0).insert(key)) by {
            assert forall|x: T::Borrowed| #![auto] self.has(store, x) == (s0.has(&st0, x) || x == key) by {
                lemma_slot(T::when_of(x, store) as int, self.level as int);
            }
        }
        s0.lemma_kept(&st0, store, sl, s0.slot@[sl].items(&st0).insert(key), s0.view(&st0).insert(key));
    }

== fn Level::remove_entry
    requires old(self).lwf(old(store)), T::sound(old(store)), T::when_of(*item, old(store)) == when, old(self).has(old(store), *item),
    ensures final(self).lwf(final(store)), final(self).level == old(self).level,
        final(self).view(final(store)) == old(self).view(old(store)).remove(*item),
        T::loose(*item, final(store)),
        forall|s: int| 0 <= s < 64 && bit(final(self).occupied, s) ==> bit(old(self).occupied, s),
        kept::<T>(old(store), final(store), old(self).view(old(store))),
-- entry
    let ghost s0 = *self;
    let ghost st0 = *store;
-- after `let slot =`
    proof {
        lemma_slot(when as int, self.level as int);
        lemma_bits(s0.occupied, slot as u64);
        assert(s0.slot@[slot as int].items(&st0).contains(*item));
        assert(bit(s0.occupied, slot as int));
    }
-- exit
    proof {
        let sl = slot as int;
        s0.lemma_others(&st0, *self, store, sl, s0.slot@[sl].items(&st0));
        assert(self.view(store) =~= s0.view(&st0).remove(*item)) by {
            assert forall|x: T::Borrowed| #![auto] self.has(store, x) == (s0.has(&st0, x) && x != *item) by {
                lemma_slot(T::when_of(x, store) as int, self.level as int);
            }
        }
        s0.lemma_kept(&st0, store, sl, s0.slot@[sl].items(&st0), s0.view(&st0));
    }

== fn Level::pop_entry_slot
    requires old(self).lwf(old(store)), T::sound(old(store)), slot < 64,
    ensures final(self).lwf(final(store)), final(self).level == old(self).level,
        ret is None ==> *final(self) == *old(self) && *final(store) == *old(store) && !bit(old(self).occupied, slot as int),
        ret is Some ==> old(self).slot@[slot as int].items(old(store)).contains(key_of(ret.unwrap()))
            && final(self).view(final(store)) == old(self).view(old(store)).remove(key_of(ret.unwrap()))
            && final(self).slot@[slot as int].items(final(store)) == old(self).slot@[slot as int].items(old(store)).remove(key_of(ret.unwrap()))
            && (forall|s: int| 0 <= s < 64 && s != slot ==> (bit(final(self).occupied, s) <==> bit(old(self).occupied, s)))
            && T::loose(key_of(ret.unwrap()), final(store))
            && kept::<T>(old(store), final(store), old(self).view(old(store))),
-- entry
    let ghost s0 = *self;
    let ghost st0 = *store;
-- after `let ret =`
    proof {
        lemma_bits(s0.occupied, slot as u64);
        if ret is Some { assert(bit(s0.occupied, slot as int)); }
    }
-- exit
    proof {
        let sl = slot as int;
        if ret is Some {
            let key = key_of::<T::Owned, T::Borrowed>(ret.unwrap());
            s0.lemma_others(&st0, *self, store, sl, s0.slot@[sl].items(&st0));
            assert(self.view(store) =~= s0.view(&st0).remove(key)) by {
                assert forall|x: T::Borrowed| #![auto] self.has(store, x) == (s0.has(&st0, x) && x != key) by {
                    lemma_slot(T::when_of(x, store) as int, self.level as int);
                }
            }
            s0.lemma_kept(&st0, store, sl, s0.slot@[sl].items(&st0), s0.view(&st0));
        } else {
            assert(self.slot@ =~= s0.slot@);
            assert(self.slot =~= s0.slot);
            assert(self.slot =~= s0.slot);
        }
    }

== fn occupied_bit
    requires slot < 64,
    ensures ret == 1u64 << (slot as u64),
== fn slot_range
    requires level < 6,
    ensures ret == r(level as int),
-- entry
    proof { lemma_pow(); reveal(r); }
== fn level_range
    requires level < 6,
    ensures ret == r(level as int + 1),
-- entry
    proof { reveal(r); }
== fn slot_for
    requires level < 6,
    ensures ret == slot_of(duration as int, level as int), ret < 64,
-- entry
    proof { lemma_slot_for(duration, level); }

== in Wheel
    /// The levels are well-formed, and no entry is on two of them.
    spec fn inner(&self, store: &T::Store) -> bool {
        &&& T::sound(store)
        &&& self.levels@.len() == 6
        &&& forall|l: int| 0 <= l < 6 ==> (#[trigger] self.levels@[l]).level == l
        &&& forall|l: int| 0 <= l < 6 ==> (#[trigger] self.levels@[l]).lwf(store)
        &&& forall|l: int, m: int, k: T::Borrowed| 0 <= l < 6 && 0 <= m < 6 && #[trigger] self.levels@[l].has(store, k) && #[trigger] self.levels@[m].has(store, k) ==> l == m
    }
    /// Every entry is where it belongs at the time `e`; a slot that starts at `e` is the next to be looked at.
    spec fn timely(&self, store: &T::Store, e: int) -> bool {
        forall|l: int, k: T::Borrowed| 0 <= l < 6 && #[trigger] self.levels@[l].has(store, k) ==> {
            let w = T::when_of(k, store) as int;
            &&& placed(l, w, e)
            &&& l > 0 ==> start(w, l) > e || forall|m: int| 0 <= m < l ==> (#[trigger] self.levels@[m]).none(store)
        }
    }
    /// Every entry is where insertion at the time `e` would put it.
    spec fn strict(&self, store: &T::Store, e: int) -> bool {
        forall|l: int, k: T::Borrowed| 0 <= l < 6 && #[trigger] self.levels@[l].has(store, k) ==> {
            let w = T::when_of(k, store) as int;
            placed(l, w, e) && (l > 0 ==> start(w, l) > e)
        }
    }
    spec fn wf(&self, store: &T::Store) -> bool {
        self.inner(store) && self.strict(store, self.elapsed as int)
    }
    spec fn view(&self, store: &T::Store) -> ISet<T::Borrowed> {
        ISet::new(|k: T::Borrowed| exists|l: int| 0 <= l < 6 && #[trigger] self.levels@[l].has(store, k))
    }
    /// What the occupied bits say is possible, and slots of higher levels are due later.
    spec fn sane(&self) -> bool {
        &&& self.levels@.len() == 6
        &&& forall|l: int| 0 <= l < 6 ==> (#[trigger] self.levels@[l]).level == l
        &&& forall|l: int, s: int| 0 <= l < 6 && 0 <= s < 64 && #[trigger] bit(self.levels@[l].occupied, s) ==> ok_bit(self.elapsed as int, l, s)
        &&& forall|l: int, s: int, m: int, t: int| 0 <= l < m < 6 && 0 <= s < 64 && 0 <= t < 64
                && #[trigger] bit(self.levels@[l].occupied, s) && #[trigger] bit(self.levels@[m].occupied, t)
                ==> dl(self.elapsed as int, m, t) > dl(self.elapsed as int, l, s)
    }
    /// The lowest level that holds anything.
    spec fn low(&self) -> int {
        if self.levels@[0].occupied != 0 { 0 } else if self.levels@[1].occupied != 0 { 1 } else if self.levels@[2].occupied != 0 { 2 }
        else if self.levels@[3].occupied != 0 { 3 } else if self.levels@[4].occupied != 0 { 4 } else if self.levels@[5].occupied != 0 { 5 } else { 6 }
    }
    /// `x` is the next slot that is due.
    spec fn is_next(&self, x: &Expiration) -> bool {
        &&& x.level < 6 && x.slot < 64 && bit(self.levels@[x.level as int].occupied, x.slot as int)
        &&& x.deadline == dl(self.elapsed as int, x.level as int, x.slot as int)
        &&& x.deadline >= self.elapsed
        &&& x.level == self.low()
        &&& forall|l: int, s: int| 0 <= l < 6 && 0 <= s < 64 && #[trigger] bit(self.levels@[l].occupied, s) ==> dl(self.elapsed as int, l, s) >= x.deadline
    }
    /// What happened to one level left the others alone.
    proof fn lemma_touch(&self, a: &T::Store, now: Self, b: &T::Store, l: int, touched: ISet<T::Borrowed>)
        requires self.inner(a), 0 <= l < 6, now.levels@.len() == 6, kept::<T>(a, b, touched),
            now.levels@[l].lwf(b), now.levels@[l].level == l,
            forall|m: int| 0 <= m < 6 && m != l ==> #[trigger] now.levels@[m] == self.levels@[m],
            forall|k: T::Borrowed| #[trigger] touched.contains(k) ==> self.levels@[l].has(a, k) || !self.view(a).contains(k),
        ensures
            forall|m: int| 0 <= m < 6 ==> (#[trigger] now.levels@[m]).lwf(b),
            forall|m: int| 0 <= m < 6 ==> (#[trigger] now.levels@[m]).level == m,
            T::sound(b),
            forall|m: int, k: T::Borrowed| 0 <= m < 6 && m != l ==> #[trigger] now.levels@[m].has(b, k) == self.levels@[m].has(a, k),
            forall|m: int, s: int| 0 <= m < 6 && m != l && 0 <= s < 64 ==> (#[trigger] now.levels@[m].slot@[s]).items(b) == self.levels@[m].slot@[s].items(a),
    {
        assert forall|m: int| 0 <= m < 6 && m != l implies (#[trigger] now.levels@[m]).lwf(b) &&
            (forall|k: T::Borrowed| #[trigger] now.levels@[m].has(b, k) == self.levels@[m].has(a, k))
            && (forall|s: int| 0 <= s < 64 ==> (#[trigger] now.levels@[m].slot@[s]).items(b) == self.levels@[m].slot@[s].items(a)) by {
            let v = self.levels@[m];
            assert(v.lwf(a));
            assert(now.levels@[m] == v);
            assert forall|s: int| 0 <= s < 64 implies (#[trigger] v.slot@[s]).valid(b) && v.slot@[s].items(b) == v.slot@[s].items(a) by {
                assert(v.slot@[s].valid(a));
                assert forall|k: T::Borrowed| v.slot@[s].items(a).contains(k) implies !touched.contains(k) by {
                    assert(v.has(a, k));
                    assert(self.view(a).contains(k));
                }
            }
            assert(now.levels@[m].lwf(b));
            assert forall|k: T::Borrowed| #[trigger] now.levels@[m].has(b, k) == self.levels@[m].has(a, k) by {
                lemma_slot(T::when_of(k, a) as int, m);
            }
        }
    }

    /// An occupied bit stands for an entry.
    proof fn lemma_bit(&self, store: &T::Store, l: int, s: int) -> (k: T::Borrowed)
        requires self.inner(store), 0 <= l < 6, 0 <= s < 64, bit(self.levels@[l].occupied, s),
        ensures self.levels@[l].has(store, k), slot_of(T::when_of(k, store) as int, l) == s,
    {
        let v = self.levels@[l];
        assert(v.lwf(store));
        let set = v.slot@[s].items(store);
        if forall|k: T::Borrowed| !set.contains(k) { assert(set =~= Set::<T::Borrowed>::empty()); }
        choose|k: T::Borrowed| set.contains(k)
    }

    /// An entry stands behind an occupied bit.
    proof fn lemma_has(&self, store: &T::Store, l: int, k: T::Borrowed, e: int)
        requires self.inner(store), 0 <= l < 6, self.levels@[l].has(store, k), 0 <= e, placed(l, T::when_of(k, store) as int, e),
        ensures ({ let s = slot_of(T::when_of(k, store) as int, l);
            &&& 0 <= s < 64 && bit(self.levels@[l].occupied, s) && ok_bit(e, l, s)
            &&& dl(e, l, s) == start(T::when_of(k, store) as int, l)
            &&& start(T::when_of(k, store) as int, l) <= T::when_of(k, store)
            &&& T::known(k, store) }),
    {
        let w = T::when_of(k, store) as int;
        lemma_slot(w, l);
        lemma_placed(l, w, e);
        assert(self.levels@[l].lwf(store));
        let s = slot_of(w, l);
        assert(self.levels@[l].slot@[s].items(store).contains(k));
    }

    proof fn lemma_low(&self, store: &T::Store, l: int, k: T::Borrowed)
        requires self.inner(store), 0 <= l < 6, self.levels@[l].has(store, k),
        ensures self.levels@[l].occupied != 0, self.low() <= l,
    {
        let w = T::when_of(k, store) as int;
        lemma_slot(w, l);
        assert(self.levels@[l].lwf(store));
        assert(self.levels@[l].slot@[slot_of(w, l)].items(store).contains(k));
        lemma_zero(self.levels@[l].occupied, slot_of(w, l));
    }

    proof fn lemma_sane(&self, store: &T::Store)
        requires self.inner(store), self.timely(store, self.elapsed as int),
        ensures self.sane(),
    {
        let e = self.elapsed as int;
        assert forall|l: int, s: int| 0 <= l < 6 && 0 <= s < 64 && #[trigger] bit(self.levels@[l].occupied, s) implies ok_bit(e, l, s) by {
            let k = self.lemma_bit(store, l, s);
            self.lemma_has(store, l, k, e);
        }
        assert forall|l: int, s: int, m: int, t: int| 0 <= l < m < 6 && 0 <= s < 64 && 0 <= t < 64
            && #[trigger] bit(self.levels@[l].occupied, s) && #[trigger] bit(self.levels@[m].occupied, t)
            implies dl(e, m, t) > dl(e, l, s) by {
            let k = self.lemma_bit(store, l, s);
            self.lemma_has(store, l, k, e);
            let j = self.lemma_bit(store, m, t);
            self.lemma_has(store, m, j, e);
            assert(!self.levels@[l].none(store));
            lemma_above(l, m, T::when_of(k, store) as int, T::when_of(j, store) as int, e);
        }
    }

    proof fn lemma_min(&self, store: &T::Store, x: &Expiration)
        requires self.inner(store), self.timely(store, self.elapsed as int), self.is_next(x),
        ensures forall|k: T::Borrowed| #[trigger] self.view(store).contains(k) ==> T::when_of(k, store) >= x.deadline,
    {
        assert forall|k: T::Borrowed| #[trigger] self.view(store).contains(k) implies T::when_of(k, store) >= x.deadline by {
            let l = choose|l: int| 0 <= l < 6 && #[trigger] self.levels@[l].has(store, k);
            self.lemma_has(store, l, k, self.elapsed as int);
        }
    }

    /// Nothing is due before `at`, and there is nothing if it is none.
    spec fn says(&self, store: &T::Store, at: Option<u64>) -> bool {
        &&& at is None <==> self.view(store) == ISet::<T::Borrowed>::empty()
        &&& at is Some ==> at.unwrap() >= self.elapsed
        &&& at is Some ==> exists|k: T::Borrowed| #[trigger] self.view(store).contains(k)
        &&& at is Some ==> forall|k: T::Borrowed| #[trigger] self.view(store).contains(k) ==> T::when_of(k, store) >= at.unwrap()
        &&& at is Some ==> at.unwrap() > self.elapsed || exists|k: T::Borrowed| #[trigger] self.view(store).contains(k) && T::when_of(k, store) == self.elapsed
    }
    proof fn lemma_poll_at(&self, store: &T::Store, at: Option<u64>)
        requires self.wf(store), at is None <==> self.low() == 6,
            at is Some ==> exists|x: Expiration| #[trigger] self.is_next(&x) && x.deadline == at.unwrap(),
        ensures self.says(store, at),
    {
        if at is None {
            assert forall|k: T::Borrowed| !self.view(store).contains(k) by {
                if self.view(store).contains(k) {
                    let l = choose|l: int| 0 <= l < 6 && #[trigger] self.levels@[l].has(store, k);
                    self.lemma_low(store, l, k);
                }
            }
            assert(self.view(store) =~= ISet::<T::Borrowed>::empty());
        } else {
            let x = choose|x: Expiration| #[trigger] self.is_next(&x) && x.deadline == at.unwrap();
            self.lemma_min(store, &x);
            let k = self.lemma_bit(store, x.level as int, x.slot as int);
            assert(self.view(store).contains(k));
            self.lemma_has(store, x.level as int, k, self.elapsed as int);
            if x.level == 0 { reveal(start); reveal(r); }
        }
    }

    /// What happened to the rest of the store leaves the wheel alone.
    proof fn lemma_framed(&self, a: &T::Store, b: &T::Store, keep: ISet<T::Borrowed>)
        requires self.wf(a), framed::<T>(a, b, keep), forall|k: T::Borrowed| #[trigger] self.view(a).contains(k) ==> keep.contains(k),
        ensures self.wf(b), self.view(b) == self.view(a),
    {
        assert forall|l: int| 0 <= l < 6 implies (#[trigger] self.levels@[l]).lwf(b)
            && (forall|k: T::Borrowed| #[trigger] self.levels@[l].has(b, k) == self.levels@[l].has(a, k)) by {
            let v = self.levels@[l];
            assert(v.lwf(a));
            assert forall|s: int, k: T::Borrowed| 0 <= s < 64 && (#[trigger] v.slot@[s].items(a).contains(k)) implies v.has(a, k) && keep.contains(k) && T::known(k, a) by {
                assert(v.has(a, k));
                assert(self.levels@[l].has(a, k));
                assert(self.view(a).contains(k));
            }
            assert forall|s: int| 0 <= s < 64 implies (#[trigger] v.slot@[s]).valid(b) && v.slot@[s].items(b) == v.slot@[s].items(a) by {
                assert(v.slot@[s].valid(a));
            }
            assert forall|k: T::Borrowed| #[trigger] v.has(b, k) == v.has(a, k) by {
                lemma_slot(T::when_of(k, b) as int, l);
                lemma_slot(T::when_of(k, a) as int, l);
                let s = slot_of(T::when_of(k, b) as int, l);
                if v.has(b, k) { assert(v.slot@[s].items(a).contains(k)); }
                let t = slot_of(T::when_of(k, a) as int, l);
                if v.has(a, k) { assert(v.slot@[t].items(a).contains(k)); }
            }
        }
        assert forall|k: T::Borrowed| #![auto] self.view(b).contains(k) == self.view(a).contains(k) by {
            if self.view(b).contains(k) {
                let l = choose|l: int| 0 <= l < 6 && #[trigger] self.levels@[l].has(b, k);
                assert(self.levels@[l].has(a, k));
            }
            if self.view(a).contains(k) {
                let l = choose|l: int| 0 <= l < 6 && #[trigger] self.levels@[l].has(a, k);
                assert(self.levels@[l].has(b, k));
            }
        }
        assert(self.view(b) =~= self.view(a));
        assert forall|l: int, k: T::Borrowed| 0 <= l < 6 && #[trigger] self.levels@[l].has(b, k) implies
            placed(l, T::when_of(k, b) as int, self.elapsed as int) && (l > 0 ==> start(T::when_of(k, b) as int, l) > self.elapsed) by {
            assert(self.levels@[l].has(a, k));
            assert(self.view(a).contains(k));
        }
    }

    proof fn lemma_none(&self, store: &T::Store, now: int)
        requires self.inner(store), self.timely(store, self.elapsed as int), self.elapsed <= now,
            forall|l: int, s: int| 0 <= l < 6 && 0 <= s < 64 && #[trigger] bit(self.levels@[l].occupied, s) ==> dl(self.elapsed as int, l, s) > now,
        ensures self.strict(store, now),
            forall|k: T::Borrowed| #[trigger] self.view(store).contains(k) ==> T::when_of(k, store) > now,
    {
        assert forall|l: int, k: T::Borrowed| 0 <= l < 6 && #[trigger] self.levels@[l].has(store, k) implies
            placed(l, T::when_of(k, store) as int, now) && start(T::when_of(k, store) as int, l) > now && T::when_of(k, store) > now by {
            self.lemma_has(store, l, k, self.elapsed as int);
            lemma_later(l, T::when_of(k, store) as int, self.elapsed as int, now);
        }
    }

    proof fn lemma_new(&self, store: &T::Store)
        requires self.is_new(), T::sound(store),
        ensures self.wf(store), self.view(store) == ISet::<T::Borrowed>::empty(),
    {
        assert forall|l: int| 0 <= l < 6 implies (#[trigger] self.levels@[l]).lwf(store) && self.levels@[l].none(store) by {
            let v = self.levels@[l];
            assert forall|s: int| 0 <= s < 64 implies (#[trigger] v.slot@[s]).valid(store) && !bit(v.occupied, s)
                && v.slot@[s].items(store) == Set::<T::Borrowed>::empty() by {
                if bit(v.occupied, s) { lemma_zero(v.occupied, s); }
            }
            assert forall|k: T::Borrowed| !v.has(store, k) by { lemma_slot(T::when_of(k, store) as int, l); }
        }
        assert(self.view(store) =~= ISet::<T::Borrowed>::empty());
    }

    /// What making a wheel gives: every level as `Level::new` makes it.
    spec fn is_new(&self) -> bool {
        &&& self.elapsed == 0
        &&& self.levels@.len() == 6
        &&& forall|l: int| 0 <= l < 6 ==> fresh(#[trigger] self.levels@[l], l)
    }

== fn Wheel::new
    requires default_is_empty::<T>(),
    ensures ret.is_new(),
-- loop 1
    invariant
        default_is_empty::<T>(), vnext1 <= 6, vall1@.len() == vnext1,
        forall|l: int| 0 <= l < vnext1 ==> fresh(#[trigger] vall1@[l], l),
    decreases 6 - vnext1,

== fn Wheel::elapsed
    ensures ret == self.elapsed,

== fn Wheel::insert
    requires old(self).wf(old(store)), T::known(key_of(item), old(store)), T::when_of(key_of(item), old(store)) == when,
        !old(self).view(old(store)).contains(key_of(item)), T::loose(key_of(item), old(store)),
    ensures final(self).wf(final(store)), final(self).elapsed == old(self).elapsed,
        ret is Err ==> *final(self) == *old(self) && *final(store) == *old(store) && ret->Err_0.0 == item,
        ret is Err && ret->Err_0.1 is Elapsed <==> when <= old(self).elapsed,
        ret is Err && ret->Err_0.1 is Invalid <==> when - old(self).elapsed > 0xf_ffff_ffff,
        ret is Ok ==> final(self).view(final(store)) == old(self).view(old(store)).insert(key_of(item)),
        ret is Ok ==> kept::<T>(old(store), final(store), old(self).view(old(store)).insert(key_of(item))),
-- entry
    let ghost s0 = *self;
    let ghost st0 = *store;
    let ghost key = key_of::<T::Owned, T::Borrowed>(item);
-- before `self.levels[level].add_entry`
    proof {
        lemma_insert(level as int, s0.elapsed as int, when as int);
        assert forall|s: int| 0 <= s < 64 implies !(#[trigger] s0.levels@[level as int].slot@[s]).items(&st0).contains(key) by {
            assert(s0.levels@[level as int].lwf(&st0));
            if s0.levels@[level as int].slot@[s].items(&st0).contains(key) { assert(s0.levels@[level as int].has(&st0, key)); }
        }
    }
-- after `self.levels[level].add_entry`
    proof {
        let l = level as int;
        s0.lemma_touch(&st0, *self, store, l, s0.levels@[l].view(&st0).insert(key));
        assert(self.levels@[l].view(store).contains(key));
        assert forall|m: int, k: T::Borrowed| 0 <= m < 6 && #[trigger] self.levels@[m].has(store, k) implies
            (k == key && m == l) || (k != key && s0.levels@[m].has(&st0, k)) by {
            assert(self.levels@[m].view(store).contains(k));
            if m == l { assert(s0.levels@[l].view(&st0).insert(key).contains(k)); if k == key {} else { assert(s0.levels@[l].view(&st0).contains(k)); } }
            else { assert(s0.levels@[m].has(&st0, k)); assert(s0.view(&st0).contains(k)); }
        }
        assert forall|m: int, k: T::Borrowed| 0 <= m < 6 && #[trigger] s0.levels@[m].has(&st0, k) implies self.levels@[m].has(store, k) by {
            if m == l { assert(s0.levels@[l].view(&st0).insert(key).contains(k)); assert(self.levels@[l].view(store).contains(k)); }
        }
        assert(self.view(store) =~= s0.view(&st0).insert(key)) by {
            assert forall|k: T::Borrowed| #![auto] self.view(store).contains(k) == s0.view(&st0).insert(key).contains(k) by {
                if k == key { assert(self.levels@[l].has(store, key)); }
            }
        }
        self.lemma_sane(store);
        lemma_kept_more::<T>(&st0, store, s0.levels@[l].view(&st0).insert(key), s0.view(&st0).insert(key));
    }

== fn Wheel::remove
    requires old(self).wf(old(store)), old(self).view(old(store)).contains(*item),
    ensures final(self).wf(final(store)), final(self).elapsed == old(self).elapsed,
        final(self).view(final(store)) == old(self).view(old(store)).remove(*item), T::loose(*item, final(store)),
        kept::<T>(old(store), final(store), old(self).view(old(store))),
-- entry
    let ghost s0 = *self;
    let ghost st0 = *store;
    let ghost home = choose|l: int| 0 <= l < 6 && #[trigger] self.levels@[l].has(store, *item);
    proof { self.lemma_has(store, home, *item, self.elapsed as int); }
-- before `self.levels[level].remove_entry`
    proof { lemma_home(level as int, home, s0.elapsed as int, when as int); }
-- exit
    proof {
        let l = home;
        s0.lemma_touch(&st0, *self, store, l, s0.levels@[l].view(&st0));
        assert forall|m: int, k: T::Borrowed| 0 <= m < 6 && #[trigger] self.levels@[m].has(store, k) implies k != *item && s0.levels@[m].has(&st0, k) by {
            assert(self.levels@[m].view(store).contains(k));
            if m == l { assert(s0.levels@[l].view(&st0).contains(k)); }
        }
        assert forall|m: int, k: T::Borrowed| 0 <= m < 6 && k != *item && #[trigger] s0.levels@[m].has(&st0, k) implies self.levels@[m].has(store, k) by {
            if m == l { assert(s0.levels@[l].view(&st0).contains(k)); assert(self.levels@[l].view(store).contains(k)); }
        }
        assert(self.view(store) =~= s0.view(&st0).remove(*item));
        lemma_kept_more::<T>(&st0, store, s0.levels@[l].view(&st0), s0.view(&st0));
    }

== fn Wheel::poll_at
    requires self.sane(),
    ensures ret is None <==> self.low() == 6,
        ret is Some ==> exists|x: Expiration| #[trigger] self.is_next(&x) && x.deadline == ret.unwrap(),
        forall|store: T::Store| #[trigger] self.wf(&store) ==> self.says(&store, ret),
-- exit
    proof {
        assert forall|store: T::Store| #[trigger] self.wf(&store) implies self.says(&store, ret) by {
            self.lemma_poll_at(&store, ret);
        }
    }

== fn Wheel::poll
    requires old(self).wf(old(store)), old(self).elapsed <= now,
    ensures final(self).wf(final(store)), old(self).elapsed <= final(self).elapsed <= now,
        kept::<T>(old(store), final(store), old(self).view(old(store))),
        ret is None ==> final(self).elapsed == now && final(self).view(final(store)) == old(self).view(old(store))
            && forall|k: T::Borrowed| #[trigger] old(self).view(old(store)).contains(k) ==> T::when_of(k, old(store)) > now,
        ret is Some ==> {
            let key = key_of::<T::Owned, T::Borrowed>(ret.unwrap());
            &&& old(self).view(old(store)).contains(key)
            &&& T::when_of(key, old(store)) <= now
            &&& T::loose(key, final(store))
            &&& final(self).elapsed <= T::when_of(key, old(store))
            &&& final(self).view(final(store)) == old(self).view(old(store)).remove(key)
            &&& forall|k: T::Borrowed| #[trigger] old(self).view(old(store)).contains(k) ==> T::when_of(k, old(store)) >= T::when_of(key, old(store))
        },
-- entry
    let ghost s0 = *self;
    let ghost st0 = *store;
-- loop 1
        invariant self.inner(store), self.timely(store, self.elapsed as int), s0.elapsed <= self.elapsed <= now,
            self.view(store) == s0.view(&st0), kept::<T>(&st0, store, s0.view(&st0)), s0 == *old(self), st0 == *old(store),
        decreases now - self.elapsed, self.low(),
-- loop 1 entry
    proof { self.lemma_sane(store); }
    let ghost s1 = *self;
    let ghost st1 = *store;
-- before `return Some(item)`
    proof {
        let key = key_of::<T::Owned, T::Borrowed>(item);
        s1.lemma_min(&st1, expiration);
        assert(s1.view(&st1).contains(key));
        assert(s0.view(&st0).contains(key));
        assert(kept::<T>(&st0, store, s0.view(&st0)));
    }
-- before `self.set_elapsed(expiration.deadline)`
    proof { assert(kept::<T>(&st0, store, s0.view(&st0))); }
-- before `self.set_elapsed(now)`
    proof {
        assert forall|l: int, s: int| 0 <= l < 6 && 0 <= s < 64 && #[trigger] bit(s1.levels@[l].occupied, s) implies dl(s1.elapsed as int, l, s) > now by {
            lemma_zero(s1.levels@[l].occupied, s);
        }
        s1.lemma_none(&st1, now as int);
    }

== fn Wheel::next_expiration
    requires self.sane(),
    ensures ret is None <==> self.low() == 6, ret is Some ==> self.is_next(&ret.unwrap()),
-- loop 1
        invariant self.sane(), forall|l: int| 0 <= l < level ==> (#[trigger] self.levels@[l]).occupied == 0,
-- before `return Some(expiration)`
    proof {
        assert forall|l: int, s: int| 0 <= l < 6 && 0 <= s < 64 && #[trigger] bit(self.levels@[l].occupied, s) implies dl(self.elapsed as int, l, s) >= expiration.deadline by {
            lemma_zero(self.levels@[l].occupied, s);
        }
        lemma_zero(self.levels@[level as int].occupied, expiration.slot as int);
    }

== fn Wheel::no_expirations_before
    requires self.sane(), start_level <= 6,
        forall|l: int, s: int| start_level <= l < 6 && 0 <= s < 64 && #[trigger] bit(self.levels@[l].occupied, s) ==> dl(self.elapsed as int, l, s) >= before,
    ensures ret,
-- loop 1
        invariant res, self.sane(),
            forall|l: int, s: int| start_level <= l < 6 && 0 <= s < 64 && #[trigger] bit(self.levels@[l].occupied, s) ==> dl(self.elapsed as int, l, s) >= before,

== fn Wheel::poll_expiration
    requires old(self).inner(old(store)), old(self).timely(old(store), old(self).elapsed as int), old(self).is_next(expiration),
    ensures final(self).inner(final(store)), final(self).elapsed == old(self).elapsed,
        kept::<T>(old(store), final(store), old(self).view(old(store))),
        ret is Some ==> {
            let key = key_of::<T::Owned, T::Borrowed>(ret.unwrap());
            &&& final(self).strict(final(store), old(self).elapsed as int)
            &&& old(self).view(old(store)).contains(key)
            &&& final(self).view(final(store)) == old(self).view(old(store)).remove(key)
            &&& T::when_of(key, old(store)) == expiration.deadline
            &&& T::loose(key, final(store))
        },
        ret is None ==> final(self).view(final(store)) == old(self).view(old(store))
            && final(self).timely(final(store), expiration.deadline as int)
            && final(self).low() < old(self).low(),
-- entry
    let ghost s0 = *self;
    let ghost st0 = *store;
    let ghost L = expiration.level as int;
    let ghost S = expiration.slot as int;
    let ghost d = expiration.deadline as int;
-- loop 1
        invariant s0 == *old(self), st0 == *old(store), L == expiration.level, S == expiration.slot, d == expiration.deadline,
            s0.inner(&st0), s0.timely(&st0, s0.elapsed as int), s0.is_next(expiration),
            self.inner(store), self.elapsed == s0.elapsed, kept::<T>(&st0, store, s0.view(&st0)),
            self.view(store) == s0.view(&st0),
            L == 0 ==> self.levels@ == s0.levels@ && *store == st0,
            forall|l: int, k: T::Borrowed| 0 <= l < 6 && #[trigger] self.levels@[l].has(store, k) ==>
                (if l == L - 1 { start(T::when_of(k, store) as int, L) == d } else { s0.levels@[l].has(&st0, k) }),
            L > 0 && self.levels@[L - 1].occupied == 0 ==> bit(self.levels@[L].occupied, S),
        ensures !bit(self.levels@[L].occupied, S),
        decreases self.levels@[L].slot@[S].items(store).len(),
-- before `while let`
    proof {
        assert forall|l: int, k: T::Borrowed| 0 <= l < 6 && #[trigger] self.levels@[l].has(store, k) implies l >= L by { self.lemma_low(store, l, k); }
    }
-- loop 1 entry
    let ghost s1 = *self;
    let ghost st1 = *store;
    let ghost key = key_of::<T::Owned, T::Borrowed>(item);
    let ghost rest = self.levels@[L].slot@[S].items(store);
    proof {
        assert forall|b: &T::Borrowed| #[trigger] borrows(&item, b) implies *b == key by { axiom_borrow(&item, b); }
        s0.lemma_has(&st0, L, key, s0.elapsed as int);
        if L == 0 {
            reveal(start); reveal(r);
            assert(s0.levels@[0].has(&st0, key));
            assert(!s0.levels@[0].none(&st0));
        }
    }
-- before `self.levels[next_level].add_entry`
    proof {
        assert forall|s: int| 0 <= s < 64 implies !(#[trigger] s1.levels@[L - 1].slot@[s]).items(&st1).contains(key) by {
            assert(s1.levels@[L - 1].lwf(&st1));
            if s1.levels@[L - 1].slot@[s].items(&st1).contains(key) { assert(s1.levels@[L - 1].has(&st1, key)); }
        }
    }
-- after `self.levels[next_level].add_entry`
    proof {
        let touched = s1.levels@[L - 1].view(&st1).insert(key);
        s1.lemma_touch(&st1, *self, store, L - 1, touched);
        assert(self.levels@[L].slot@[S].items(store) == rest);
        assert forall|m: int, k: T::Borrowed| 0 <= m < 6 implies
            (#[trigger] self.levels@[m].has(store, k) <==> (k == key && m == L - 1) || s1.levels@[m].has(&st1, k)) by {
            if m == L - 1 { assert(self.levels@[m].view(store).contains(k) == s1.levels@[m].view(&st1).insert(key).contains(k)); }
        }
        assert(self.view(store) =~= s0.view(&st0)) by {
            assert forall|k: T::Borrowed| s0.view(&st0).contains(k) implies self.view(store).contains(k) by {
                if k == key { assert(self.levels@[L - 1].has(store, key)); }
                else {
                    assert(s1.view(&st1).contains(k));
                    let m = choose|m: int| 0 <= m < 6 && #[trigger] s1.levels@[m].has(&st1, k);
                    assert(self.levels@[m].has(store, k));
                }
            }
        }
        assert forall|k: T::Borrowed| #[trigger] touched.contains(k) implies s0.view(&st0).contains(k) by { if k != key { assert(s1.view(&st1).contains(k)); } }
        lemma_kept_more::<T>(&st1, store, touched, s0.view(&st0));
        let sl = slot_of(when as int, L - 1);
        lemma_slot(when as int, L - 1);
        lemma_bits(s1.levels@[L - 1].occupied, sl as u64);
        lemma_zero(self.levels@[L - 1].occupied, sl);
    }
-- exit
    proof {
        if ret is None {
            s0.lemma_sane(&st0);
            let e = s0.elapsed as int;
            let k0 = s0.lemma_bit(&st0, L, S);
            assert(!s0.levels@[L].none(&st0));
            assert forall|m: int| 0 <= m < L - 1 implies (#[trigger] self.levels@[m]).none(store) by {
                assert forall|k: T::Borrowed| !self.levels@[m].has(store, k) by {
                    if self.levels@[m].has(store, k) { s0.lemma_low(&st0, m, k); }
                }
            }
            assert forall|l: int, k: T::Borrowed| 0 <= l < 6 && #[trigger] self.levels@[l].has(store, k) implies {
                let w = T::when_of(k, store) as int;
                &&& placed(l, w, d)
                &&& l > 0 ==> start(w, l) > d || forall|m: int| 0 <= m < l ==> (#[trigger] self.levels@[m]).none(store)
            } by {
                let w = T::when_of(k, store) as int;
                if l < L - 1 {
                    assert(self.levels@[l].none(store));
                } else if l == L - 1 {
                    lemma_cascade(L, w, d);
                    assert(forall|m: int| 0 <= m < l ==> (#[trigger] self.levels@[m]).none(store));
                } else {
                    assert(s0.levels@[l].has(&st0, k));
                    s0.lemma_has(&st0, l, k, e);
                    let t = slot_of(w, l);
                    if l == L {
                        assert(self.levels@[L].lwf(store));
                        if t == S { assert(self.levels@[L].slot@[S].items(store).contains(k)); }
                        assert(!bit(self.levels@[L].occupied, S));
                        assert(self.levels@[L].slot@[t].items(store).contains(k));
                        assert(t != S);
                        assert(bit(s0.levels@[L].occupied, t));
                        assert(dl(e, L, t) >= d);
                        lemma_inj(e, L, t, S);
                    }
                    else { assert(start(w, l) > d); }
                    lemma_later(l, w, e, d);
                    assert(start(w, l) > d);
                }
            }
        }
    }

== fn Wheel::set_elapsed
    requires old(self).elapsed <= when,
    ensures final(self).elapsed == when, final(self).levels == old(self).levels,

== fn Wheel::pop_entry
    requires old(self).inner(old(store)), expiration.level < 6, expiration.slot < 64,
    ensures final(self).inner(final(store)), final(self).elapsed == old(self).elapsed,
        ret is None ==> final(self).levels@ == old(self).levels@ && *final(store) == *old(store)
            && !bit(old(self).levels@[expiration.level as int].occupied, expiration.slot as int),
        ret is Some ==> {
            let l = expiration.level as int;
            let s = expiration.slot as int;
            let key = key_of::<T::Owned, T::Borrowed>(ret.unwrap());
            &&& old(self).levels@[l].slot@[s].items(old(store)).contains(key)
            &&& old(self).levels@[l].has(old(store), key)
            &&& slot_of(T::when_of(key, old(store)) as int, l) == s
            &&& T::known(key, old(store))
            &&& T::loose(key, final(store))
            &&& final(self).view(final(store)) == old(self).view(old(store)).remove(key)
            &&& final(self).levels@[l].slot@[s].items(final(store)) == old(self).levels@[l].slot@[s].items(old(store)).remove(key)
            &&& forall|m: int, k: T::Borrowed| 0 <= m < 6 ==> (#[trigger] final(self).levels@[m].has(final(store), k) <==> k != key && old(self).levels@[m].has(old(store), k))
            &&& forall|m: int| 0 <= m < 6 && m != l ==> #[trigger] final(self).levels@[m] == old(self).levels@[m]
        },
        kept::<T>(old(store), final(store), old(self).view(old(store))),
-- entry
    let ghost s0 = *self;
    let ghost st0 = *store;
-- exit
    proof {
        let l = expiration.level as int;
        if ret is Some {
            let key = key_of::<T::Owned, T::Borrowed>(ret.unwrap());
            assert(s0.levels@[l].has(&st0, key));
            s0.lemma_touch(&st0, *self, store, l, s0.levels@[l].view(&st0));
            assert forall|m: int, k: T::Borrowed| 0 <= m < 6 implies (#[trigger] self.levels@[m].has(store, k) <==> k != key && s0.levels@[m].has(&st0, k)) by {
                if m == l { assert(self.levels@[l].view(store).contains(k) == s0.levels@[l].view(&st0).remove(key).contains(k)); }
            }
            assert(self.view(store) =~= s0.view(&st0).remove(key)) by {
                assert forall|k: T::Borrowed| s0.view(&st0).contains(k) && k != key implies self.view(store).contains(k) by {
                    let m = choose|m: int| 0 <= m < 6 && #[trigger] s0.levels@[m].has(&st0, k);
                    assert(self.levels@[m].has(store, k));
                }
            }
            lemma_kept_more::<T>(&st0, store, s0.levels@[l].view(&st0), s0.view(&st0));
            lemma_slot(T::when_of(key, &st0) as int, l);
        } else {
            assert(self.levels@ =~= s0.levels@);
        }
    }

== const MAX_DURATION
    ensures MAX_DURATION == 0xf_ffff_ffff,
-- entry
    proof { assert((1u64 << 36) == 0x10_0000_0000) by (bit_vector); }

== fn Wheel::level_for
    ensures is_level(ret as int, self.elapsed as int, when as int),
== fn level_for
    ensures is_level(ret as int, elapsed as int, when as int),
-- entry
    proof { assert((1u64 << 6) == 64) by (bit_vector); }
-- before `let leading_zeros =`
    proof { axiom_u64_leading_zeros(masked); lemma_masked(elapsed, when, masked); }
-- before `significant / 6`
    proof { lemma_level(elapsed, when, masked, significant as u64); }

== lemmas
/// The level for a deadline: the lowest whose rotation it is in.
spec fn is_level(l: int, e: int, w: int) -> bool {
    0 <= l < 6 && (l < 5 ==> same(w, e, l + 1)) && (l > 0 ==> !same(w, e, l))
}

/// The number of the first slot that does not start before `now`.
spec fn up(now: int, l: int) -> int { (now + r(l) - 1) / r(l) }

/// `slot` is the first occupied one from `from` on, going round.
spec fn first(occupied: u64, from: int, slot: int) -> bool {
    &&& bit(occupied, slot)
    &&& forall|s: int| 0 <= s < 64 && bit(occupied, s) ==> (s - from) % 64 >= (slot - from) % 64
}

proof fn lemma_pow()
    ensures pow(64, 0) == 1, pow(64, 1) == 0x40, pow(64, 2) == 0x1000, pow(64, 3) == 0x4_0000, pow(64, 4) == 0x100_0000, pow(64, 5) == 0x4000_0000,
{
    reveal_with_fuel(pow, 7);
}

proof fn lemma_up(now: int, l: int)
    requires 0 <= now, 0 <= l < 6,
    ensures 0 <= up(now, l),
{
    lemma_r(l);
    lemma_div_pos_is_pos(now + r(l) - 1, r(l));
}

/// Levels are in units of the slots below.
proof fn lemma_split(x: int, l: int)
    requires 0 <= x, 0 <= l < 6,
    ensures x == (x / r(l)) * r(l) + x % r(l), 0 <= x % r(l) < r(l),
        x / r(l + 1) == (x / r(l)) / 64,
        x % r(l + 1) == ((x / r(l)) % 64) * r(l) + x % r(l),
        r(l + 1) == 64 * r(l), r(l) >= 1,
{
    reveal(r);
    let q = x / r(l);
    let m = x % r(l);
    let R = r(l);
    lemma_fundamental_div_mod(x, R);
    lemma_div_denominator(x, R, 64);
    lemma_fundamental_div_mod(x, R * 64);
    assert(R * 64 == r(l + 1));
    assert(R * q == q * R) by (nonlinear_arith);
    assert(x - (R * 64) * (q / 64) == (q % 64) * R + m) by (nonlinear_arith) requires x == R * q + m, q == 64 * (q / 64) + q % 64;
}

proof fn lemma_r(l: int)
    requires 0 <= l < 6,
    ensures r(l) >= 1, r(l + 1) == 64 * r(l),
{ reveal(r); }

proof fn lemma_cycle(u: int, q: int)
    requires 0 <= u <= q < u + 64,
    ensures u + (q % 64 - u % 64) % 64 == q,
{ }

proof fn lemma_dl(now: int, l: int, s: int)
    requires 0 <= now, 0 <= l < 6, 0 <= s < 64,
    ensures dl(now, l, s) == (up(now, l) + (s - up(now, l) % 64) % 64) * r(l),
        dl(now, l, s) >= now,
{
    reveal(dl);
    lemma_split(now, l);
    let q = now / r(l);
    let m = now % r(l);
    let a = q % 64;
    let R = r(l);
    lemma_up_is(now, l);
    let x = now - now % r(l + 1) + s * R;
    assert(x == (q - a + s) * R) by (nonlinear_arith)
        requires x == now - (a * R + m) + s * R, now == q * R + m;
    if s < a || s == a && m > 0 {
        assert(x < now) by (nonlinear_arith) requires x == (q - a + s) * R, now == q * R + m, s < a && m >= 0 || s == a && m > 0, R >= 1;
        assert(x + r(l + 1) == (q - a + s + 64) * R) by (nonlinear_arith) requires x == (q - a + s) * R, r(l + 1) == 64 * R;
        assert(up(now, l) + (s - up(now, l) % 64) % 64 == q - a + s + 64);
    } else {
        assert(x >= now) by (nonlinear_arith) requires x == (q - a + s) * R, now == q * R + m, s > a && m < R || s == a && m == 0, R >= 1;
        assert(up(now, l) + (s - up(now, l) % 64) % 64 == q - a + s);
    }
    assert(up(now, l) * R >= now) by (nonlinear_arith) requires now == q * R + m, up(now, l) == (if m > 0 { q + 1 } else { q }), m < R;
    let y = (s - up(now, l) % 64) % 64;
    assert((up(now, l) + y) * R >= now) by (nonlinear_arith) requires up(now, l) * R >= now, y >= 0, R >= 1;
}

proof fn lemma_first(now: int, l: int, slot: int, occupied: u64)
    requires 0 <= now, 0 <= l < 6, 0 <= slot < 64, first(occupied, up(now, l) % 64, slot),
    ensures forall|s: int| 0 <= s < 64 && bit(occupied, s) ==> #[trigger] dl(now, l, s) >= dl(now, l, slot),
{
    lemma_dl(now, l, slot);
    assert forall|s: int| 0 <= s < 64 && bit(occupied, s) implies #[trigger] dl(now, l, s) >= dl(now, l, slot) by {
        lemma_dl(now, l, s);
        lemma_r(l);
        let u = up(now, l);
        let a = u + (s - u % 64) % 64;
        let b = u + (slot - u % 64) % 64;
        let R = r(l);
        assert(a >= b);
        assert(a * R >= b * R) by (nonlinear_arith) requires a >= b, R >= 1;
    }
}

proof fn lemma_rotate(x: u64, n: u64)
    requires n < 64,
    ensures forall|j: int| 0 <= j < 64 ==> (#[trigger] bit((x >> n) | (x << ((64 - n) % 64) as u64), j) <==> bit(x, (j + n) % 64)),
        (x >> n) | (x << ((64 - n) % 64) as u64) == 0 <==> x == 0,
{
    let m = ((64 - n) % 64) as u64;
    assert(m == (64 - n) % 64);
    assert((x >> n) | (x << m) == 0 <==> x == 0) by (bit_vector) requires n < 64, m == (64 - n) % 64;
    assert forall|j: int| 0 <= j < 64 implies (#[trigger] bit((x >> n) | (x << m), j) <==> bit(x, (j + n) % 64)) by {
        let i = j as u64;
        let k = ((j + n) % 64) as u64;
        assert((((x >> n) | (x << m)) >> i) & 1 != 0 <==> (x >> k) & 1 != 0) by (bit_vector)
            requires n < 64, m == (64 - n) % 64, i < 64, k == (i + n) % 64;
    }
}

proof fn lemma_trailing(x: u64)
    ensures ({ let z = u64_trailing_zeros(x);
        x != 0 ==> z < 64 && bit(x, z as int) && forall|j: int| 0 <= j < z ==> !#[trigger] bit(x, j) }),
{
    axiom_u64_trailing_zeros(x);
    let z = u64_trailing_zeros(x);
    if x != 0 {
        assert forall|j: int| 0 <= j < z implies !#[trigger] bit(x, j) by {
            let i = j as u64;
            assert((x >> i) & 1 == 0);
        }
    }
}

proof fn lemma_cyclic(x: u64, rot: u64, n: int, z: int, slot: int)
    requires 0 <= n < 64, 0 <= z < 64, slot == (z + n) % 64, bit(rot, z),
        forall|j: int| 0 <= j < z ==> !#[trigger] bit(rot, j),
        forall|j: int| 0 <= j < 64 ==> (#[trigger] bit(rot, j) <==> bit(x, (j + n) % 64)),
    ensures first(x, n, slot),
{
    assert forall|s: int| 0 <= s < 64 && bit(x, s) implies (s - n) % 64 >= (slot - n) % 64 by {
        let j = (s - n) % 64;
        assert((j + n) % 64 == s);
        assert(bit(rot, j));
    }
}

proof fn lemma_slot_for(w: u64, l: usize)
    requires l < 6,
    ensures (w >> (l * 6)) % 64 == slot_of(w as int, l as int),
{
    reveal(slot_of); reveal(r);
    assert(w >> 0 == w / 1) by (bit_vector);
    assert(w >> 6 == w / 0x40) by (bit_vector);
    assert(w >> 12 == w / 0x1000) by (bit_vector);
    assert(w >> 18 == w / 0x4_0000) by (bit_vector);
    assert(w >> 24 == w / 0x100_0000) by (bit_vector);
    assert(w >> 30 == w / 0x4000_0000) by (bit_vector);
    if l == 0 {} else if l == 1 {} else if l == 2 {} else if l == 3 {} else if l == 4 {} else {}
}

proof fn lemma_slot(w: int, l: int)
    requires 0 <= w, 0 <= l < 6,
    ensures 0 <= slot_of(w, l) < 64,
{
    reveal(slot_of);
}

proof fn lemma_bits(x: u64, s: u64)
    requires s < 64,
    ensures forall|t: int| 0 <= t < 64 ==> (#[trigger] bit(x | (1u64 << s), t) <==> t == s || bit(x, t)),
        forall|t: int| 0 <= t < 64 ==> (#[trigger] bit(x ^ (1u64 << s), t) <==> ((t == s) != bit(x, t))),
        x & (1u64 << s) != 0 <==> bit(x, s as int),
{
    assert(x & (1u64 << s) != 0 <==> (x >> s) & 1 != 0) by (bit_vector) requires s < 64;
    assert forall|t: int| 0 <= t < 64 implies (#[trigger] bit(x | (1u64 << s), t) <==> t == s || bit(x, t)) by {
        let i = t as u64;
        assert(((x | (1u64 << s)) >> i) & 1 != 0 <==> i == s || (x >> i) & 1 != 0) by (bit_vector) requires s < 64, i < 64;
    }
    assert forall|t: int| 0 <= t < 64 implies (#[trigger] bit(x ^ (1u64 << s), t) <==> ((t == s) != bit(x, t))) by {
        let i = t as u64;
        assert(((x ^ (1u64 << s)) >> i) & 1 != 0 <==> ((i == s) != ((x >> i) & 1 != 0))) by (bit_vector) requires s < 64, i < 64;
    }
}

proof fn lemma_insert(l: int, e: int, w: int)
    requires is_level(l, e, w), 0 <= e < w, w - e <= 0xf_ffff_ffff,
    ensures placed(l, w, e), l > 0 ==> start(w, l) > e,
{
    reveal(r); reveal(start); reveal(same);
    lemma_split(w, l);
    lemma_split(e, l);
    let R = r(l);
    let a = w / R;
    let b = e / R;
    assert(a * R <= w);
    if l < 5 {
        let Q = r(l + 1);
        lemma_split(w, l + 1);
        lemma_split(e, l + 1);
        assert(w < e + Q) by (nonlinear_arith) requires w / Q == e / Q, w == (w / Q) * Q + w % Q, e == (e / Q) * Q + e % Q, 0 <= e % Q, w % Q < Q;
    }
    if l == 0 { assert(a * R == w); }
    if l > 0 {
        assert(a > b) by (nonlinear_arith) requires a != b, w > e, w == a * R + w % R, e == b * R + e % R, 0 <= w % R < R, 0 <= e % R < R;
        assert(a * R > e) by (nonlinear_arith) requires a >= b + 1, e == b * R + e % R, e % R < R, R >= 1;
    }
}
proof fn lemma_home(l: int, m: int, e: int, w: int)
    requires is_level(l, e, w), 0 <= m < 6, 0 <= e, 0 <= w, placed(m, w, e), m > 0 ==> start(w, m) > e,
    ensures l == m,
{
    if m > 0 {
        assert(!same(w, e, m)) by {
            reveal(same); reveal(start);
            lemma_split(e, m);
            let a = w / r(m);
            let b = e / r(m);
            let R = r(m);
            if a == b { assert(a * R <= e) by (nonlinear_arith) requires a == b, e == b * R + e % R, 0 <= e % R; }
        }
    }
    if l < m { lemma_same(w, e, l + 1, m); }
    if l > m { lemma_same(w, e, m + 1, l); }
}

proof fn lemma_same(a: int, b: int, l: int, m: int)
    requires 0 <= a, 0 <= b, 0 <= l <= m <= 6, same(a, b, l),
    ensures same(a, b, m),
    decreases m - l,
{
    if l < m {
        reveal(same);
        lemma_split(a, l);
        lemma_split(b, l);
        lemma_same(a, b, l + 1, m);
    }
}

/// A slot's deadline is its start.
proof fn lemma_placed(l: int, w: int, e: int)
    requires 0 <= l < 6, 0 <= e, 0 <= w <= u64::MAX, placed(l, w, e),
    ensures dl(e, l, slot_of(w, l)) == start(w, l), start(w, l) <= w, ok_bit(e, l, slot_of(w, l)),
{
    reveal(start); reveal(slot_of); reveal(ok_bit);
    let R = r(l);
    lemma_slot(w, l);
    lemma_split(w, l);
    lemma_split(e, l);
    lemma_dl(e, l, slot_of(w, l));
    let q = w / R;
    let u = up(e, l);
    let m = e % R;
    assert(u == if m > 0 { e / R + 1 } else { e / R }) by { lemma_up_is(e, l); }
    assert(q >= u) by (nonlinear_arith) requires q * R >= e, e == (e / R) * R + m, u == (if m > 0 { e / R + 1 } else { e / R }), R >= 1, 0 <= m < R;
    assert(q < u + 64) by (nonlinear_arith) requires q * R < e + 64 * R, e == (e / R) * R + m, u == (if m > 0 { e / R + 1 } else { e / R }), R >= 1, 0 <= m < R;
    lemma_cycle(u, q);
}

proof fn lemma_up_is(e: int, l: int)
    requires 0 <= e, 0 <= l < 6,
    ensures up(e, l) == if e % r(l) > 0 { e / r(l) + 1 } else { e / r(l) },
{
    lemma_split(e, l);
    let R = r(l);
    let q = e / R;
    let m = e % R;
    if m > 0 {
        assert(e + R - 1 == (q + 1) * R + (m - 1)) by (nonlinear_arith) requires e == q * R + m;
        lemma_fundamental_div_mod_converse(e + R - 1, R, q + 1, m - 1);
    } else {
        assert(e + R - 1 == q * R + (R - 1)) by (nonlinear_arith) requires e == q * R + m, m == 0;
        lemma_fundamental_div_mod_converse(e + R - 1, R, q, R - 1);
    }
}

/// The slots of a level are within one slot of any level above.
proof fn lemma_above(l: int, m: int, w: int, v: int, e: int)
    requires 0 <= l < m < 6, 0 <= e, 0 <= w, 0 <= v, placed(l, w, e), start(v, m) > e,
    ensures start(v, m) > start(w, l),
{
    reveal(start); reveal(same);
    lemma_split(w, l);
    lemma_split(w, l + 1);
    lemma_split(e, l + 1);
    let R = r(l + 1);
    let q = lemma_multiple(v / r(m), l + 1, m);
    let b = e / R;
    assert(q > b) by (nonlinear_arith) requires q * R > e, e == b * R + e % R, 0 <= e % R, R >= 1;
    assert(q * R > w) by (nonlinear_arith) requires q >= b + 1, w == b * R + w % R, w % R < R, R >= 1;
}

proof fn lemma_multiple(a: int, l: int, m: int) -> (q: int)
    requires 0 <= l <= m < 6,
    ensures a * r(m) == q * r(l),
    decreases m - l,
{
    if l == m { a } else {
        assert(r(m) == 64 * r(m - 1)) by { reveal(r); }
        assert(a * r(m) == (64 * a) * r(m - 1)) by (nonlinear_arith) requires r(m) == 64 * r(m - 1);
        lemma_multiple(64 * a, l, m - 1)
    }
}

proof fn lemma_later(l: int, w: int, e: int, f: int)
    requires 0 <= l < 6, 0 <= w, 0 <= e <= f <= start(w, l), placed(l, w, e),
    ensures placed(l, w, f),
{
    reveal(start); reveal(same);
    lemma_split(w, l);
    if l < 5 {
        let R = r(l + 1);
        lemma_split(w, l + 1);
        lemma_split(e, l + 1);
        lemma_split(f, l + 1);
        assert(f / R == w / R) by (nonlinear_arith)
            requires e <= f <= w, e / R == w / R, R >= 1, e == (e / R) * R + e % R, f == (f / R) * R + f % R, w == (w / R) * R + w % R,
                0 <= e % R < R, 0 <= f % R < R, 0 <= w % R < R;
    }
}

proof fn lemma_zero(x: u64, s: int)
    requires bit(x, s), 0 <= s < 64,
    ensures x != 0,
{
    let i = s as u64;
    assert((0u64 >> i) & 1 == 0) by (bit_vector);
}

proof fn lemma_kept_more<T: Stack>(a: &T::Store, b: &T::Store, t0: ISet<T::Borrowed>, t1: ISet<T::Borrowed>)
    requires kept::<T>(a, b, t0), forall|k: T::Borrowed| #[trigger] t0.contains(k) ==> t1.contains(k),
    ensures kept::<T>(a, b, t1),
{
    assert forall|o: T| #![trigger o.valid(a)] #![trigger o.valid(b)] #![trigger o.items(b)]
        o.valid(a) && (forall|k: T::Borrowed| o.items(a).contains(k) ==> !t1.contains(k))
        implies o.valid(b) && o.items(b) == o.items(a) by {
        assert forall|k: T::Borrowed| o.items(a).contains(k) implies !t0.contains(k) by {
            if t0.contains(k) { assert(t1.contains(k)); }
        }
    }
}

/// Slots of one level are due at different times.
proof fn lemma_inj(now: int, l: int, s: int, t: int)
    requires 0 <= now, 0 <= l < 6, 0 <= s < 64, 0 <= t < 64,
    ensures dl(now, l, s) == dl(now, l, t) ==> s == t,
{
    lemma_dl(now, l, s);
    lemma_dl(now, l, t);
    lemma_r(l);
    let u = up(now, l);
    let a = u + (s - u % 64) % 64;
    let b = u + (t - u % 64) % 64;
    let R = r(l);
    if a * R == b * R {
        assert(a == b) by (nonlinear_arith) requires a * R == b * R, R >= 1;
    }
}

/// Entries of a slot that starts now belong on the level below.
proof fn lemma_cascade(l: int, w: int, d: int)
    requires 0 < l < 6, 0 <= w, start(w, l) == d,
    ensures placed(l - 1, w, d), start(w, l - 1) >= d,
{
    reveal(start); reveal(same);
    lemma_split(w, l);
    lemma_split(w, l - 1);
    let R = r(l);
    let P = r(l - 1);
    let a = w / R;
    let b = w / P;
    assert(a == b / 64);
    assert(b * P >= a * R) by (nonlinear_arith) requires b >= 64 * a, R == 64 * P, P >= 1;
    assert(d / R == a) by { lemma_fundamental_div_mod_converse(d, R, a, 0); }
    assert(b * P <= w);
}

proof fn lemma_masked(e: u64, w: u64, m: u64)
    requires m == if (e ^ w | 63) <= 0xf_ffff_ffff { e ^ w | 63 } else { 0xf_ffff_ffff },
    ensures m != 0, 63 <= m <= 0xf_ffff_ffff, (m >> 36) == 0,
{
    assert((e ^ w | 63) >= 63) by (bit_vector);
    assert(m <= 0xf_ffff_ffff ==> (m >> 36) == 0) by (bit_vector);
}

proof fn lemma_level(e: u64, w: u64, m: u64, sig: u64)
    requires m == if (e ^ w | 63) <= 0xf_ffff_ffff { e ^ w | 63 } else { 0xf_ffff_ffff },
        sig < 64, (m >> sig) & 1 != 0, sig < 63 ==> m >> ((sig + 1) as u64) == 0,
    ensures is_level(sig as int / 6, e as int, w as int),
{
    let x = e ^ w | 63;
    let l = sig as int / 6;
    let n = (sig + 1) as u64;
    assert(m <= 0xf_ffff_ffff && (m >> sig) & 1 != 0 ==> sig < 36) by (bit_vector) requires sig < 64;
    assert(x >= 63) by (bit_vector) requires x == e ^ w | 63;
    assert(m >= 63 && (m >> n) == 0 ==> sig >= 5) by (bit_vector) requires n == sig + 1, sig < 63;
    reveal(same); reveal(r);
    assert(e >> 6 == e / 0x40 && w >> 6 == w / 0x40) by (bit_vector);
    assert(e >> 12 == e / 0x1000 && w >> 12 == w / 0x1000) by (bit_vector);
    assert(e >> 18 == e / 0x4_0000 && w >> 18 == w / 0x4_0000) by (bit_vector);
    assert(e >> 24 == e / 0x100_0000 && w >> 24 == w / 0x100_0000) by (bit_vector);
    assert(e >> 30 == e / 0x4000_0000 && w >> 30 == w / 0x4000_0000) by (bit_vector);
    if l == 0 {
        assert(e >> 6 == w >> 6) by (bit_vector) requires m >> n == 0, n == sig + 1, sig < 6, m == (if x <= 0xf_ffff_ffff { x } else { 0xf_ffff_ffff }), x == e ^ w | 63;
    } else if l == 1 {
        assert(e >> 12 == w >> 12) by (bit_vector) requires m >> n == 0, n == sig + 1, sig < 12, m == (if x <= 0xf_ffff_ffff { x } else { 0xf_ffff_ffff }), x == e ^ w | 63;
        assert(e >> 6 != w >> 6) by (bit_vector) requires (m >> sig) & 1 != 0, 6 <= sig < 36, m == (if x <= 0xf_ffff_ffff { x } else { 0xf_ffff_ffff }), x == e ^ w | 63;
    } else if l == 2 {
        assert(e >> 18 == w >> 18) by (bit_vector) requires m >> n == 0, n == sig + 1, sig < 18, m == (if x <= 0xf_ffff_ffff { x } else { 0xf_ffff_ffff }), x == e ^ w | 63;
        assert(e >> 12 != w >> 12) by (bit_vector) requires (m >> sig) & 1 != 0, 12 <= sig < 36, m == (if x <= 0xf_ffff_ffff { x } else { 0xf_ffff_ffff }), x == e ^ w | 63;
    } else if l == 3 {
        assert(e >> 24 == w >> 24) by (bit_vector) requires m >> n == 0, n == sig + 1, sig < 24, m == (if x <= 0xf_ffff_ffff { x } else { 0xf_ffff_ffff }), x == e ^ w | 63;
        assert(e >> 18 != w >> 18) by (bit_vector) requires (m >> sig) & 1 != 0, 18 <= sig < 36, m == (if x <= 0xf_ffff_ffff { x } else { 0xf_ffff_ffff }), x == e ^ w | 63;
    } else if l == 4 {
        assert(e >> 30 == w >> 30) by (bit_vector) requires m >> n == 0, n == sig + 1, sig < 30, m == (if x <= 0xf_ffff_ffff { x } else { 0xf_ffff_ffff }), x == e ^ w | 63;
        assert(e >> 24 != w >> 24) by (bit_vector) requires (m >> sig) & 1 != 0, 24 <= sig < 36, m == (if x <= 0xf_ffff_ffff { x } else { 0xf_ffff_ffff }), x == e ^ w | 63;
    } else {
        assert(e >> 30 != w >> 30) by (bit_vector) requires (m >> sig) & 1 != 0, 30 <= sig < 36, m == (if x <= 0xf_ffff_ffff { x } else { 0xf_ffff_ffff }), x == e ^ w | 63;
    }
}
