Contracts of src/timer/heap.rs: a heap is a map from slots to elements.

== file src/timer/heap.rs
== option --rlimit
== option 40
== option expand
== item uses
use std::mem;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
== prelude
/// Reaching this is a panic.
#[verifier::external_body]
fn vpanic<A>() -> A
    requires false,
{ unimplemented!() }

fn vassert(b: bool)
    requires b,
{ }

pub assume_specification<T>[ mem::replace::<T> ](dest: &mut T, src: T) -> (r: T)
    ensures *final(dest) == src, r == *old(dest);

/// `<=` and its relatives are a total order (C01 proves that for instants).
pub open spec fn ordered<T: Ord>() -> bool {
    &&& T::obeys_partial_cmp_spec()
    &&& forall|a: T, b: T| #![auto] a.partial_cmp_spec(&b) is Some
    &&& forall|a: T| #![auto] le(a, a)
    &&& forall|a: T, b: T| #![auto] a.partial_cmp_spec(&b) == Some(Ordering::Less) <==> b.partial_cmp_spec(&a) == Some(Ordering::Greater)
    &&& forall|a: T, b: T, c: T| #![auto] le(a, b) && le(b, c) ==> le(a, c)
}

pub open spec fn le<T: Ord>(a: T, b: T) -> bool {
    a.partial_cmp_spec(&b) != Some(Ordering::Greater)
}

spec fn parent(i: int) -> int { (i - 1) / 2 }

spec fn value_of(s: SlabSlot<usize>) -> int {
    match s { SlabSlot::Full { value } => value as int, SlabSlot::Empty { .. } => -1 }
}

spec fn next_of(s: SlabSlot<usize>) -> int {
    match s { SlabSlot::Full { .. } => -1, SlabSlot::Empty { next } => next as int }
}

/// `free` is the list of free slots, from `next` to the end of the table.
spec fn chain(index: Seq<SlabSlot<usize>>, next: int, free: Seq<int>) -> bool {
    &&& forall|k: int| 0 <= k < free.len() ==> 0 <= #[trigger] free[k] < index.len() && index[free[k]] is Empty
    &&& forall|k: int| 0 <= k < free.len() ==> next_of(index[#[trigger] free[k]]) == if k + 1 < free.len() { free[k + 1] } else { index.len() as int }
    &&& forall|k: int, l: int| 0 <= k < l < free.len() ==> free[k] != free[l]
    &&& forall|s: int| 0 <= s < index.len() && index[s] is Empty ==> #[trigger] free.contains(s)
    &&& next == if free.len() > 0 { free[0] } else { index.len() as int }
}

/// Elements and their slots point at each other.
spec fn linked<T>(items: Seq<(T, usize)>, index: Seq<SlabSlot<usize>>) -> bool {
    &&& forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]).1 < index.len() && index[items[i].1 as int] is Full && value_of(index[items[i].1 as int]) == i
    &&& forall|s: int| 0 <= s < index.len() && (#[trigger] index[s]) is Full ==> value_of(index[s]) < items.len() && items[value_of(index[s])].1 == s
}

/// Heap order, but for the element at `hole` and its parent.
spec fn order_up<T: Ord>(items: Seq<(T, usize)>, hole: int) -> bool {
    &&& forall|i: int| 0 < i < items.len() && i != hole ==> le((#[trigger] items[parent(i)]).0, (#[trigger] items[i]).0)
    &&& forall|i: int| 0 < i < items.len() && parent(i) == hole && hole > 0 ==> le(items[parent(hole)].0, (#[trigger] items[i]).0)
}

/// Heap order, but for the element at `hole` and its children.
spec fn order_down<T: Ord>(items: Seq<(T, usize)>, hole: int) -> bool {
    &&& forall|i: int| 0 < i < items.len() && parent(i) != hole ==> le((#[trigger] items[parent(i)]).0, (#[trigger] items[i]).0)
    &&& forall|i: int| 0 < i < items.len() && parent(i) == hole && hole > 0 ==> le(items[parent(hole)].0, (#[trigger] items[i]).0)
}

spec fn order<T: Ord>(items: Seq<(T, usize)>) -> bool {
    forall|i: int| 0 < i < items.len() ==> le((#[trigger] items[parent(i)]).0, (#[trigger] items[i]).0)
}

/// The elements by their slots.
spec fn by_slot<T>(items: Seq<(T, usize)>, index: Seq<SlabSlot<usize>>) -> IMap<int, T> {
    IMap::new(|s: int| 0 <= s < index.len() && index[s] is Full, |s: int| items[value_of(index[s])].0)
}

spec fn same_empty(a: Seq<SlabSlot<usize>>, b: Seq<SlabSlot<usize>>) -> bool {
    &&& a.len() == b.len()
    &&& forall|s: int| 0 <= s < a.len() ==> (#[trigger] a[s] is Full <==> b[s] is Full)
    &&& forall|s: int| 0 <= s < a.len() && (#[trigger] a[s]) is Empty ==> b[s] == a[s]
}

pub open spec fn minimal<T: Ord>(m: IMap<int, T>, t: T) -> bool {
    &&& exists|s: int| #[trigger] m.contains_key(s) && m[s] == t
    &&& forall|s: int| #[trigger] m.contains_key(s) ==> le(t, m[s])
}

impl Slot {
    pub closed spec fn id(self) -> int { self.idx as int }
}

== in Heap
    spec fn inner(self) -> bool {
        &&& linked(self.items@, self.index@)
        &&& exists|free: Seq<int>| chain(self.index@, self.next_index as int, free)
        &&& self.items.len() < 0x1000_0000
        &&& self.index.len() < 0x1000_0000
    }
    pub closed spec fn wf(self) -> bool {
        self.inner() && order(self.items@) && ordered::<T>()
    }
    pub closed spec fn view(self) -> IMap<int, T> {
        by_slot(self.items@, self.index@)
    }
    /// There is room for `n` more (2^28 elements are more than the 32-bit target can hold).
    pub closed spec fn room(self, n: nat) -> bool {
        self.items.len() + n <= 0xfff_ffff && self.index.len() + n <= 0xfff_ffff
    }
    pub closed spec fn count(self) -> nat { self.items.len() as nat }
    pub proof fn lemma_room(self, m: nat, n: nat)
        requires self.room(m), n <= m,
        ensures self.room(n),
    {}

== fn Heap::new
    requires ordered::<T>(),
    ensures ret.wf(), ret.view() == IMap::<int, T>::empty(), ret.count() == 0, ret.room(0),
-- exit
    proof {
        lemma_empty::<T>();
        assert(ret.items@ =~= Seq::<(T, usize)>::empty());
        assert(ret.index@ =~= Seq::<SlabSlot<usize>>::empty());
        assert(chain(ret.index@, ret.next_index as int, Seq::<int>::empty()));
    }

== fn Heap::push
    requires old(self).wf(), old(self).room(1),
    ensures final(self).wf(), final(self).count() == old(self).count() + 1,
        forall|n: nat| #[trigger] final(self).room(n) <== old(self).room(n + 1),
        !old(self).view().contains_key(ret.id()),
        final(self).view() == old(self).view().insert(ret.id(), t),
-- entry
    let ghost free = choose|free: Seq<int>| chain(self.index@, self.next_index as int, free);
    let ghost index0 = self.index@;
    let ghost items0 = self.items@;
-- before `self.percolate_up(len)`
    proof {
        lemma_push(items0, index0, free, self.items@, self.index@, self.next_index as int, t, slot_idx as int);
    }

== fn Heap::peek
    requires self.wf(),
    ensures ret is None ==> self.view() == IMap::<int, T>::empty(),
        ret is Some ==> minimal(self.view(), *ret.unwrap()),
-- entry
    proof {
        if self.items.len() > 0 { lemma_min(self.items@, self.index@); }
        else { assert(self.view() =~= IMap::<int, T>::empty()); }
    }

== fn Heap::pop
    requires old(self).wf(),
    ensures final(self).wf(), final(self).count() + (if ret is Some { 1int } else { 0 }) == old(self).count(),
        forall|n: nat| #[trigger] final(self).room(n) <== old(self).room(n),
        ret is None ==> old(self).view() == IMap::<int, T>::empty() && final(self).view() == old(self).view(),
        ret is Some ==> minimal(old(self).view(), ret.unwrap())
            && exists|s: int| #[trigger] old(self).view().contains_key(s) && old(self).view()[s] == ret.unwrap()
                && final(self).view() == old(self).view().remove(s),
-- entry
    proof {
        if self.items.len() > 0 { lemma_min(self.items@, self.index@); }
        else { assert(self.view() =~= IMap::<int, T>::empty()); }
    }

== fn Heap::remove
    requires old(self).wf(), old(self).view().contains_key(slot.id()),
    ensures final(self).wf(), final(self).count() + 1 == old(self).count(),
        forall|n: nat| #[trigger] final(self).room(n) <== old(self).room(n),
        ret == old(self).view()[slot.id()],
        final(self).view() == old(self).view().remove(slot.id()),
-- entry
    let ghost free = choose|free: Seq<int>| chain(self.index@, self.next_index as int, free);
    let ghost index0 = self.index@;
    let ghost items0 = self.items@;
-- in `if idx < self.items.len()`
    let ghost index1 = self.index@;
-- after `set_index(&mut self.index, self.items[idx].1, idx)`
    proof {
        lemma_remove(items0, index0, free, self.items@, self.index@, self.next_index as int, slot.idx as int, idx as int);
    }
-- before `self.percolate_up(idx)`
    proof { lemma_replaced_up(items0, self.items@, idx as int); }
-- before `self.percolate_down(idx)`
    proof { lemma_replaced_down(items0, self.items@, idx as int); }
-- before `self.assert_consistent()` #2
    proof {
        if idx >= self.items.len() {
            lemma_remove(items0, index0, free, self.items@, self.index@, self.next_index as int, slot.idx as int, idx as int);
        }
        assert(self.view() =~= by_slot(items0, index0).remove(slot.idx as int));
    }

== fn Heap::percolate_up
    requires ordered::<T>(), old(self).inner(), order_up(old(self).items@, idx as int), idx < old(self).items.len(),
    ensures final(self).wf(), final(self).view() == old(self).view(),
        same_empty(old(self).index@, final(self).index@), final(self).next_index == old(self).next_index,
        final(self).items.len() == old(self).items.len(),
-- loop 1
    invariant ordered::<T>(), self.inner(), order_up(self.items@, idx as int), idx < self.items.len(),
        same_empty(old(self).index@, self.index@), self.next_index == old(self).next_index,
        self.items.len() == old(self).items.len(),
        self.view() == old(self).view(),
    ensures order(self.items@),
    decreases idx,
-- loop 1 entry
    let ghost items0 = self.items@;
    let ghost index0 = self.index@;
    let ghost free = choose|free: Seq<int>| chain(self.index@, self.next_index as int, free);
-- before `idx = parent`
    proof {
        lemma_swap(items0, index0, self.next_index as int, free, self.items@, self.index@, parent as int, idx as int);
        lemma_swap_up(items0, self.items@, idx as int);
    }

== fn Heap::percolate_down
    requires ordered::<T>(), old(self).inner(), order_down(old(self).items@, idx as int), idx < old(self).items.len(),
    ensures final(self).wf(), final(self).view() == old(self).view(),
        same_empty(old(self).index@, final(self).index@), final(self).next_index == old(self).next_index,
        final(self).items.len() == old(self).items.len(),
-- loop 1
    invariant ordered::<T>(), self.inner(), order_down(self.items@, idx as int), idx < self.items.len(),
        same_empty(old(self).index@, self.index@), self.next_index == old(self).next_index,
        self.items.len() == old(self).items.len(),
        self.view() == old(self).view(),
    ensures order(self.items@),
    decreases self.items.len() - idx,
-- loop 1 entry
    let ghost items0 = self.items@;
    let ghost index0 = self.index@;
    let ghost free = choose|free: Seq<int>| chain(self.index@, self.next_index as int, free);
    let ghost idx0 = idx as int;
    proof {
        assert forall|i: int| 0 < i && #[trigger] parent(i) == idx0 implies i == 2 * idx0 + 1 || i == 2 * idx0 + 2 by {}
        assert(parent(2 * idx0 + 1) == idx0 && parent(2 * idx0 + 2) == idx0);
    }
-- before `let (a, b) =`
    let ghost c = if swap_left { left as int } else { right as int };
    proof {
        lemma_flip(items0[left as int].0, items0[idx0].0);
        if right < items0.len() {
            lemma_flip(items0[right as int].0, items0[idx0].0);
            lemma_flip(items0[right as int].0, items0[left as int].0);
        }
        assert(le(items0[c].0, items0[idx0].0));
        assert forall|i: int| 0 < i < items0.len() && parent(i) == idx implies le(items0[c].0, (#[trigger] items0[i]).0) by {
            assert(i == left || i == right);
        }
    }
-- after `idx = a.len()`
    proof {
        assert(idx == c);
        lemma_swap(items0, index0, self.next_index as int, free, self.items@, self.index@, idx0, idx as int);
        lemma_swap_down(items0, self.items@, idx0, idx as int);
    }

== fn Heap::assert_consistent
    requires self.wf(),
-- loop 1
    invariant
        self.wf(), vnext1 <= self.index.len(), vcount1 == full(self.index@, vnext1 as int),
    decreases self.index.len() - vnext1,
-- loop 1 entry
    proof { lemma_fulls(self.index@, vnext1 as int); }
-- loop 1 after
    proof { lemma_all_full(self.items@, self.index@); }
-- loop 2
    invariant
        self.wf(), vnext2 <= self.items.len(),
    decreases self.items.len() - vnext2,
-- loop 3
    invariant
        self.wf(), vnext3 <= self.items.len(),
    decreases self.items.len() - vnext3,
-- loop 3 entry
    proof {
        let i = vnext3 as int;
        if i > 0 {
            assert(parent(i) == (vnext3 - 1) / 2);
            assert(le(self.items@[parent(i)].0, self.items@[i].0));
            lemma_flip(self.items@[parent(i)].0, self.items@[i].0);
        }
        if 2 * i + 1 < self.items.len() {
            assert(parent(2 * i + 1) == i);
            assert(le(self.items@[parent(2 * i + 1)].0, self.items@[2 * i + 1].0));
            assert(le(self.items@[i].0, self.items@[2 * i + 1].0));
        }
        if 2 * i + 2 < self.items.len() {
            assert(parent(2 * i + 2) == i);
            assert(le(self.items@[parent(2 * i + 2)].0, self.items@[2 * i + 2].0));
            assert(le(self.items@[i].0, self.items@[2 * i + 2].0));
        }
    }

== fn set_index
    requires slab_slot < old(slab)@.len(), old(slab)@[slab_slot as int] is Full,
    ensures final(slab)@ == old(slab)@.update(slab_slot as int, SlabSlot::Full { value: val }),

== lemmas
/// The occupied slots below `n`, counted.
spec fn full(index: Seq<SlabSlot<usize>>, n: int) -> nat
    decreases n,
{
    if n <= 0 { 0 } else { full(index, n - 1) + if index[n - 1] is Full { 1nat } else { 0nat } }
}

/// The occupied slots below `n`.
spec fn fulls(index: Seq<SlabSlot<usize>>, n: int) -> Set<int> {
    vstd::set_lib::set_int_range(0, n).filter(|s: int| index[s] is Full)
}

proof fn lemma_fulls(index: Seq<SlabSlot<usize>>, n: int)
    requires 0 <= n <= index.len(),
    ensures fulls(index, n).len() == full(index, n), full(index, n) <= n,
    decreases n,
{
    vstd::set_lib::lemma_int_range(0, n);
    if n > 0 {
        lemma_fulls(index, n - 1);
        if index[n - 1] is Full { assert(fulls(index, n) =~= fulls(index, n - 1).insert(n - 1)); }
        else { assert(fulls(index, n) =~= fulls(index, n - 1)); }
    } else {
        assert(fulls(index, n) =~= Set::empty());
    }
}

/// There are as many occupied slots as elements.
proof fn lemma_all_full<T>(items: Seq<(T, usize)>, index: Seq<SlabSlot<usize>>)
    requires linked(items, index),
    ensures full(index, index.len() as int) == items.len(),
{
    let n = index.len() as int;
    lemma_fulls(index, n);
    let a = fulls(index, n);
    let b = vstd::set_lib::set_int_range(0, items.len() as int);
    vstd::set_lib::lemma_int_range(0, n);
    vstd::set_lib::lemma_int_range(0, items.len() as int);
    let f = |s: int| value_of(index[s]);
    assert forall|i: int| b.contains(i) implies exists|s: int| a.contains(s) && f(s) == i by {
        assert(a.contains(items[i].1 as int));
    }
    assert(a.map(f) =~= b) by {
        assert forall|i: int| #[trigger] a.map(f).contains(i) == b.contains(i) by {
            if b.contains(i) { assert(a.contains(items[i].1 as int) && f(items[i].1 as int) == i); }
            if a.map(f).contains(i) {
                let s = choose|s: int| a.contains(s) && f(s) == i;
                assert(index[s] is Full);
            }
        }
    }
    assert(a.injective_on(f)) by {
        assert forall|s: int, t: int| a.contains(s) && a.contains(t) && f(s) == f(t) implies s == t by {
            assert(index[s] is Full && index[t] is Full);
        }
    }
    vstd::set_lib::lemma_map_size(a, b, f);
}

/// What the comparison operators say of `le`.
proof fn lemma_flip<T: Ord>(a: T, b: T)
    requires ordered::<T>(),
    ensures a.partial_cmp_spec(&b) == Some(Ordering::Less) ==> le(a, b),
        a.partial_cmp_spec(&b) != Some(Ordering::Less) ==> le(b, a),
        b.partial_cmp_spec(&a) == Some(Ordering::Less) ==> le(b, a),
        le(a, a), le(b, b),
{
    assert(a.partial_cmp_spec(&b) is Some);
    assert(b.partial_cmp_spec(&a) is Some);
    assert(a.partial_cmp_spec(&b) == Some(Ordering::Less) <==> b.partial_cmp_spec(&a) == Some(Ordering::Greater));
    assert(le(a, a));
    assert(le(b, b));
}

proof fn lemma_empty<T>()
    ensures by_slot(Seq::<(T, usize)>::empty(), Seq::<SlabSlot<usize>>::empty()) == IMap::<int, T>::empty(),
        chain(Seq::<SlabSlot<usize>>::empty(), 0, Seq::<int>::empty()),
{
    assert(by_slot(Seq::<(T, usize)>::empty(), Seq::<SlabSlot<usize>>::empty()) =~= IMap::<int, T>::empty());
}

proof fn lemma_min<T: Ord>(items: Seq<(T, usize)>, index: Seq<SlabSlot<usize>>)
    requires order(items), linked(items, index), items.len() > 0, ordered::<T>(),
    ensures minimal(by_slot(items, index), items[0].0), by_slot(items, index).contains_key(items[0].1 as int),
        by_slot(items, index)[items[0].1 as int] == items[0].0,
{
    let m = by_slot(items, index);
    assert(m.contains_key(items[0].1 as int));
    assert forall|s: int| m.contains_key(s) implies le(items[0].0, #[trigger] m[s]) by {
        lemma_root(items, value_of(index[s]));
    }
}

proof fn lemma_root<T: Ord>(items: Seq<(T, usize)>, i: int)
    requires order(items), 0 <= i < items.len(), ordered::<T>(),
    ensures le(items[0].0, items[i].0),
    decreases i,
{
    if i > 0 {
        lemma_root(items, parent(i));
        assert(le(items[parent(i)].0, items[i].0));
    }
}

proof fn lemma_push<T: Ord>(items0: Seq<(T, usize)>, index0: Seq<SlabSlot<usize>>, free: Seq<int>,
    items: Seq<(T, usize)>, index: Seq<SlabSlot<usize>>, next: int, t: T, s: int)
    requires linked(items0, index0), order(items0), ordered::<T>(), chain(index0, if free.len() > 0 { free[0] } else { index0.len() as int }, free),
        items0.len() < 0x1000_0000, index0.len() < 0x1000_0000,
        items == items0.push((t, s as usize)), 0 <= s < index.len(),
        free.len() == 0 ==> s == index0.len() && index == index0.push(SlabSlot::Full { value: items0.len() as usize }) && next == index.len(),
        free.len() > 0 ==> s == free[0] && index == index0.update(s, SlabSlot::Full { value: items0.len() as usize })
            && next == next_of(index0[s]),
    ensures linked(items, index), order_up(items, items0.len() as int),
        exists|f: Seq<int>| chain(index, next, f),
        by_slot(items, index) == by_slot(items0, index0).insert(s, t),
        !by_slot(items0, index0).contains_key(s),
{
    if free.len() == 0 {
        assert forall|k: int| 0 <= k < index0.len() implies index0[k] is Full by {
            if index0[k] is Empty { assert(free.contains(k)); }
        }
        assert(chain(index, next, Seq::<int>::empty()));
    } else {
        let f = free.drop_first();
        assert forall|k: int| 0 <= k < index.len() && index[k] is Empty implies #[trigger] f.contains(k) by {
            assert(index0[k] is Empty);
            assert(free.contains(k));
            let j = choose|j: int| 0 <= j < free.len() && free[j] == k;
            assert(j != 0);
            assert(f[j - 1] == k);
        }
        assert forall|k: int| 0 <= k < f.len() implies 0 <= #[trigger] f[k] < index.len() && index[f[k]] is Empty
            && next_of(index[f[k]]) == if k + 1 < f.len() { f[k + 1] } else { index.len() as int } by {
            assert(f[k] == free[k + 1]);
            assert(free[0] != free[k + 1]);
        }
        assert forall|k: int, l: int| 0 <= k < l < f.len() implies f[k] != f[l] by {
            assert(free[k + 1] != free[l + 1]);
        }
        assert(next == if f.len() > 0 { f[0] } else { index.len() as int });
        assert(chain(index, next, f));
    }
    assert(linked(items, index)) by {
        assert forall|i: int| 0 <= i < items.len() implies (#[trigger] items[i]).1 < index.len() && index[items[i].1 as int] is Full && value_of(index[items[i].1 as int]) == i by {
            if i < items0.len() { assert(items[i] == items0[i]); }
        }
        assert forall|k: int| 0 <= k < index.len() && (#[trigger] index[k]) is Full implies value_of(index[k]) < items.len() && items[value_of(index[k])].1 == k by {
            if k != s { assert(index[k] == index0[k]); }
        }
    }
    assert(by_slot(items, index) =~= by_slot(items0, index0).insert(s, t)) by {
        assert forall|k: int| 0 <= k < index0.len() && index0[k] is Full implies items[value_of(index0[k])] == items0[value_of(index0[k])] by {}
    }
    assert forall|i: int| 0 < i < items.len() && i != items0.len() implies le((#[trigger] items[parent(i)]).0, (#[trigger] items[i]).0) by {
        assert(items[i] == items0[i] && items[parent(i)] == items0[parent(i)]);
    }
}

spec fn after_remove<T>(items0: Seq<(T, usize)>, index0: Seq<SlabSlot<usize>>, free: Seq<int>,
    items: Seq<(T, usize)>, index: Seq<SlabSlot<usize>>, s: int, idx: int) -> bool {
    let e = index0.update(s, SlabSlot::Empty { next: (if free.len() > 0 { free[0] } else { index0.len() as int }) as usize });
    &&& 0 <= s < index0.len() && index0[s] is Full && idx == value_of(index0[s])
    &&& items =~= items0.update(idx, items0.last()).drop_last()
    &&& index == if idx == items0.len() - 1 { e } else { e.update(items0.last().1 as int, SlabSlot::Full { value: idx as usize }) }
}

proof fn lemma_remove_chain<T>(items0: Seq<(T, usize)>, index0: Seq<SlabSlot<usize>>, free: Seq<int>,
    items: Seq<(T, usize)>, index: Seq<SlabSlot<usize>>, s: int, idx: int)
    requires linked(items0, index0), chain(index0, if free.len() > 0 { free[0] } else { index0.len() as int }, free),
        index0.len() < 0x1000_0000, after_remove(items0, index0, free, items, index, s, idx),
    ensures chain(index, s, seq![s] + free),
{
    let last = items0.len() - 1;
    assert(items0[idx].1 == s);
    assert(idx != last ==> items0[last].1 != s);
    assert(idx != last ==> index0[items0[last].1 as int] is Full);
    let f = seq![s] + free;
    assert forall|k: int| 0 <= k < index.len() && index[k] is Empty implies #[trigger] f.contains(k) by {
        if k == s { assert(f[0] == k); } else {
            assert(index0[k] is Empty);
            assert(free.contains(k));
            let j = choose|j: int| 0 <= j < free.len() && free[j] == k;
            assert(f[j + 1] == k);
        }
    }
    assert forall|k: int| 0 <= k < f.len() implies 0 <= #[trigger] f[k] < index.len() && index[f[k]] is Empty
        && next_of(index[f[k]]) == if k + 1 < f.len() { f[k + 1] } else { index.len() as int } by {
        if k > 0 {
            assert(f[k] == free[k - 1]);
            assert(index0[free[k - 1]] is Empty);
            assert(index[f[k]] == index0[f[k]]);
        }
    }
    assert forall|k: int, l: int| 0 <= k < l < f.len() implies f[k] != f[l] by {
        assert(f[l] == free[l - 1]);
        assert(index0[free[l - 1]] is Empty);
        if k > 0 { assert(f[k] == free[k - 1]); }
    }
}

proof fn lemma_remove<T: Ord>(items0: Seq<(T, usize)>, index0: Seq<SlabSlot<usize>>, free: Seq<int>,
    items: Seq<(T, usize)>, index: Seq<SlabSlot<usize>>, next: int, s: int, idx: int)
    requires linked(items0, index0), order(items0), ordered::<T>(), chain(index0, if free.len() > 0 { free[0] } else { index0.len() as int }, free),
        items0.len() < 0x1000_0000, index0.len() < 0x1000_0000,
        after_remove(items0, index0, free, items, index, s, idx),
        next == s,
    ensures linked(items, index),
        exists|f: Seq<int>| chain(index, next, f),
        by_slot(items, index) == by_slot(items0, index0).remove(s),
        idx == items0.len() - 1 ==> order(items),
{
    lemma_remove_chain(items0, index0, free, items, index, s, idx);
    let last = items0.len() - 1;
    assert(items0[idx].1 == s);
    assert(idx != last ==> items0[last].1 != s);
    assert forall|i: int| 0 <= i < items.len() implies (#[trigger] items[i]).1 < index.len() && index[items[i].1 as int] is Full && value_of(index[items[i].1 as int]) == i by {
        if i == idx { } else { assert(items[i] == items0[i]); assert(items0[i].1 != s); assert(idx != last ==> items0[i].1 != items0[last].1); }
    }
    assert forall|k: int| 0 <= k < index.len() && (#[trigger] index[k]) is Full implies value_of(index[k]) < items.len() && items[value_of(index[k])].1 == k by {
        if idx != last && k == items0[last].1 { } else { assert(index[k] == index0[k]); assert(items0[value_of(index0[k])].1 == k); }
    }
    assert(by_slot(items, index) =~= by_slot(items0, index0).remove(s));
    if idx == last {
        assert forall|i: int| 0 < i < items.len() implies le((#[trigger] items[parent(i)]).0, (#[trigger] items[i]).0) by {
            assert(items[i] == items0[i] && items[parent(i)] == items0[parent(i)]);
        }
    }
}

proof fn lemma_replaced_up<T: Ord>(items0: Seq<(T, usize)>, items: Seq<(T, usize)>, idx: int)
    requires order(items0), ordered::<T>(), 0 <= idx < items0.len() - 1,
        items == items0.update(idx, items0.last()).drop_last(), le(items[idx].0, items0[idx].0),
    ensures order_up(items, idx),
{
    assert forall|i: int| 0 < i < items.len() && i != idx implies le((#[trigger] items[parent(i)]).0, (#[trigger] items[i]).0) by {
        assert(le(items0[parent(i)].0, items0[i].0));
        assert(items[i] == items0[i]);
    }
    assert forall|i: int| 0 < i < items.len() && parent(i) == idx && idx > 0 implies le(items[parent(idx)].0, (#[trigger] items[i]).0) by {
        assert(le(items0[parent(i)].0, items0[i].0));
        assert(le(items0[parent(idx)].0, items0[idx].0));
        assert(items[parent(idx)] == items0[parent(idx)] && items[i] == items0[i]);
    }
}

proof fn lemma_replaced_down<T: Ord>(items0: Seq<(T, usize)>, items: Seq<(T, usize)>, idx: int)
    requires order(items0), ordered::<T>(), 0 <= idx < items0.len() - 1,
        items == items0.update(idx, items0.last()).drop_last(), le(items0[idx].0, items[idx].0),
    ensures order_down(items, idx),
{
    assert forall|i: int| 0 < i < items.len() && parent(i) != idx implies le((#[trigger] items[parent(i)]).0, (#[trigger] items[i]).0) by {
        assert(le(items0[parent(i)].0, items0[i].0));
        assert(items[parent(i)] == items0[parent(i)]);
    }
    assert forall|i: int| 0 < i < items.len() && parent(i) == idx && idx > 0 implies le(items[parent(idx)].0, (#[trigger] items[i]).0) by {
        assert(le(items0[parent(i)].0, items0[i].0));
        assert(le(items0[parent(idx)].0, items0[idx].0));
        assert(items[parent(idx)] == items0[parent(idx)] && items[i] == items0[i]);
    }
}

proof fn lemma_swap<T: Ord>(items0: Seq<(T, usize)>, index0: Seq<SlabSlot<usize>>, next: int, free: Seq<int>,
    items: Seq<(T, usize)>, index: Seq<SlabSlot<usize>>, a: int, b: int)
    requires linked(items0, index0), chain(index0, next, free), 0 <= a < items0.len(), 0 <= b < items0.len(), a != b,
        items0.len() < 0x1000_0000, index0.len() < 0x1000_0000,
        items =~= items0.update(a, items0[b]).update(b, items0[a]),
        index =~= index0.update(items0[b].1 as int, SlabSlot::Full { value: a as usize }).update(items0[a].1 as int, SlabSlot::Full { value: b as usize }),
    ensures linked(items, index), chain(index, next, free), same_empty(index0, index),
        by_slot(items, index) == by_slot(items0, index0),
{
    assert(items0[a].1 != items0[b].1);
    assert forall|i: int| 0 <= i < items.len() implies (#[trigger] items[i]).1 < index.len() && index[items[i].1 as int] is Full && value_of(index[items[i].1 as int]) == i by {
        if i != a && i != b { assert(items[i] == items0[i]); assert(items0[i].1 != items0[a].1 && items0[i].1 != items0[b].1); }
    }
    assert forall|k: int| 0 <= k < index.len() && (#[trigger] index[k]) is Full implies value_of(index[k]) < items.len() && items[value_of(index[k])].1 == k by {
        if k != items0[a].1 && k != items0[b].1 { assert(index[k] == index0[k]); }
    }
    assert(by_slot(items, index) =~= by_slot(items0, index0));
}

proof fn lemma_swap_up<T: Ord>(items0: Seq<(T, usize)>, items: Seq<(T, usize)>, idx: int)
    requires ordered::<T>(), order_up(items0, idx), 0 < idx < items0.len(), !le(items0[parent(idx)].0, items0[idx].0),
        items =~= items0.update(parent(idx), items0[idx]).update(idx, items0[parent(idx)]),
    ensures order_up(items, parent(idx)),
{
    let p = parent(idx);
    assert forall|i: int| 0 < i < items.len() && i != p implies le((#[trigger] items[parent(i)]).0, (#[trigger] items[i]).0) by {
        if i == idx { } else if parent(i) == p {
            assert(le(items0[parent(i)].0, items0[i].0));
        } else if parent(i) == idx {
            assert(le(items0[parent(idx)].0, items0[i].0));
        } else {
            assert(le(items0[parent(i)].0, items0[i].0));
        }
    }
    assert forall|i: int| 0 < i < items.len() && parent(i) == p && p > 0 implies le(items[parent(p)].0, (#[trigger] items[i]).0) by {
        assert(le(items0[parent(p)].0, items0[p].0));
        if i == idx { } else { assert(le(items0[parent(i)].0, items0[i].0)); }
    }
}

proof fn lemma_swap_down<T: Ord>(items0: Seq<(T, usize)>, items: Seq<(T, usize)>, idx: int, c: int)
    requires ordered::<T>(), order_down(items0, idx), 0 <= idx < c < items0.len(), parent(c) == idx,
        le(items0[c].0, items0[idx].0),
        forall|i: int| 0 < i < items0.len() && parent(i) == idx ==> le(items0[c].0, (#[trigger] items0[i]).0),
        items =~= items0.update(idx, items0[c]).update(c, items0[idx]),
    ensures order_down(items, c),
{
    assert forall|i: int| 0 < i < items.len() && parent(i) != c implies le((#[trigger] items[parent(i)]).0, (#[trigger] items[i]).0) by {
        if parent(i) == idx { } else if i == idx {
            assert(le(items0[parent(idx)].0, items0[c].0));
        } else {
            assert(le(items0[parent(i)].0, items0[i].0));
        }
    }
    assert forall|i: int| 0 < i < items.len() && parent(i) == c && c > 0 implies le(items[parent(c)].0, (#[trigger] items[i]).0) by {
        assert(le(items0[parent(i)].0, items0[i].0));
    }
}
