Contracts of src/timer/arc_list.rs: a list is a sequence of records.

== file src/timer/arc_list.rs
== option public
== option expand
== option world World<T>
== rename src/timer/arc_list.rs `as *mut Node<T>` => `` -- a pointer to a record is what it points to
== rename src/timer/arc_list.rs `as *const Node<T>` => `` -- a pointer to a record is what it points to
== rename src/timer/arc_list.rs `*mut Node<T>` => `Ptr<T>` -- a pointer to a record is what it points to
== rename src/timer/arc_list.rs `AtomicPtr<Node<T>>` => `AtomicPtr<T>` -- a cell for a pointer to a record
== rename src/timer/arc_list.rs `std::ptr::null_mut::<Node<T>>()` => `null_mut::<T>()` -- a pointer to a record is what it points to
== rename src/timer/arc_list.rs `std::ptr::null_mut()` => `null_mut()` -- a pointer to a record is what it points to
== rename src/timer/arc_list.rs `Node::EMPTY` => `Node::EMPTY()` -- the constant is read as a function
== rename src/timer/arc_list.rs `Arc::into_raw` => `into_raw` -- a pointer to a record is what it points to
== rename src/timer/arc_list.rs `Arc::from_raw` => `from_raw` -- a pointer to a record is what it points to
== rename src/timer/arc_list.rs `Drop for ArcList` => `ArcList` -- a method of its own
== rename src/timer/arc_list.rs `Deref for Node` => `Node` -- a method of its own
== drop Node::Target
== ghost .load(
== ghost .store(
== ghost .swap(
== ghost .compare_exchange(
== ghost .get_mut(
== ghost AtomicPtr::new(
== ghost AtomicBool::new(
== ghost into_raw(
== ghost from_raw(
== ghost self.pop(
== item uses
use std::sync::Arc;
use std::marker;
use std::sync::atomic::Ordering;
use std::sync::atomic::Ordering::SeqCst;
use vstd::std_specs::cmp::PartialEqSpecImpl;
== item ArcList
#[verifier::reject_recursive_types(T)]
== item Node
#[verifier::reject_recursive_types(T)]
== prelude
pub assume_specification<T>[ std::mem::drop ](t: T)
    where T: std::marker::Destruct;

fn vassert(b: bool)
    requires b,
{ }

// --- pointers to records, and the cells they are in ---

/// What a pointer says. The address of a record is neither 0 nor 1.
#[verifier::reject_recursive_types(T)]
pub ghost enum P<T> { Null, One, To(Node<T>) }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Ptr<T> { p: *mut T }

impl<T> Ptr<T> {
    pub uninterp spec fn p(self) -> P<T>;
    #[verifier::external_body]
    pub const fn wrapping_add(self, n: usize) -> (r: Self)
        ensures self.p() is Null && n == 1 ==> r.p() is One,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_null(self) -> (r: bool)
        ensures r == (self.p() is Null),
    { unimplemented!() }
}

impl<T> Clone for Ptr<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}

impl<T> Copy for Ptr<T> {}

impl<T> PartialEqSpecImpl for Ptr<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Ptr<T>) -> bool { self.p() == o.p() }
}

impl<T> PartialEq for Ptr<T> {
    #[verifier::external_body]
    fn eq(&self, o: &Ptr<T>) -> bool { unimplemented!() }
}

#[verifier::external_body]
pub const fn null_mut<T>() -> (r: Ptr<T>)
    ensures r.p() is Null,
{ unimplemented!() }

/// What the cells hold, and which records are held by pointers.
#[verifier::reject_recursive_types(T)]
pub ghost struct Cells<T> {
    pub ptr: IMap<int, P<T>>,
    pub flag: IMap<int, bool>,
    /// Records with a reference that a pointer owns.
    pub held: ISet<Node<T>>,
    /// Cells with a number from here on are not used yet.
    pub ptrs: int,
    pub flags: int,
    /// The lists, and all records there are: of these the code has nothing, they only speak of it.
    pub lists: IMap<int, Seq<Node<T>>>,
    pub nodes: ISet<Node<T>>,
}

#[verifier::reject_recursive_types(T)]
pub struct World<T> { pub g: Ghost<Cells<T>> }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct AtomicPtr<T> { p: *mut T }

impl<T> AtomicPtr<T> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(p: Ptr<T>, vw: &mut World<T>) -> (r: Self)
        ensures r.id() == old(vw).g@.ptrs,
            final(vw).g@ == (Cells { ptrs: r.id() + 1, ptr: old(vw).g@.ptr.insert(r.id(), p.p()), ..old(vw).g@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, vw: &mut World<T>) -> (r: Ptr<T>)
        ensures r.p() == old(vw).g@.ptr[self.id()], *final(vw) == *old(vw),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, p: Ptr<T>, o: Ordering, vw: &mut World<T>)
        ensures final(vw).g@ == (Cells { ptr: old(vw).g@.ptr.insert(self.id(), p.p()), ..old(vw).g@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, p: Ptr<T>, o: Ordering, vw: &mut World<T>) -> (r: Ptr<T>)
        ensures r.p() == old(vw).g@.ptr[self.id()],
            final(vw).g@ == (Cells { ptr: old(vw).g@.ptr.insert(self.id(), p.p()), ..old(vw).g@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, a: Ptr<T>, b: Ptr<T>, o: Ordering, f: Ordering, vw: &mut World<T>) -> (r: Result<Ptr<T>, Ptr<T>>)
        ensures match r {
            Ok(v) => v.p() == old(vw).g@.ptr[self.id()] && v.p() == a.p()
                && final(vw).g@ == (Cells { ptr: old(vw).g@.ptr.insert(self.id(), b.p()), ..old(vw).g@ }),
            Err(v) => v.p() == old(vw).g@.ptr[self.id()] && v.p() != a.p() && *final(vw) == *old(vw),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, vw: &'a mut World<T>) -> (r: &'a mut Ptr<T>)
        ensures r.p() == old(vw).g@.ptr[old(self).id()], final(self).id() == old(self).id(),
            final(vw).g@ == (Cells { ptr: old(vw).g@.ptr.insert(old(self).id(), final(r).p()), ..old(vw).g@ }),
    { unimplemented!() }
}

#[verifier::external_body]
pub struct AtomicBool { b: bool }

impl AtomicBool {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new<T>(b: bool, vw: &mut World<T>) -> (r: Self)
        ensures r.id() == old(vw).g@.flags,
            final(vw).g@ == (Cells { flags: r.id() + 1, flag: old(vw).g@.flag.insert(r.id(), b), ..old(vw).g@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn load<T>(&self, o: Ordering, vw: &mut World<T>) -> (r: bool)
        ensures r == old(vw).g@.flag[self.id()], *final(vw) == *old(vw),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store<T>(&self, b: bool, o: Ordering, vw: &mut World<T>)
        ensures final(vw).g@ == (Cells { flag: old(vw).g@.flag.insert(self.id(), b), ..old(vw).g@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap<T>(&self, b: bool, o: Ordering, vw: &mut World<T>) -> (r: bool)
        ensures r == old(vw).g@.flag[self.id()],
            final(vw).g@ == (Cells { flag: old(vw).g@.flag.insert(self.id(), b), ..old(vw).g@ }),
    { unimplemented!() }
}

/// The pointer owns the reference from here on.
#[verifier::external_body]
pub fn into_raw<T>(a: Arc<Node<T>>, vw: &mut World<T>) -> (r: Ptr<T>)
    requires !old(vw).g@.held.contains(*a),
    ensures r.p() == P::To(*a), final(vw).g@ == (Cells { held: old(vw).g@.held.insert(*a), ..old(vw).g@ }),
{ unimplemented!() }

/// The reference that the pointer owned is given back.
#[verifier::external_body]
pub unsafe fn from_raw<T>(p: Ptr<T>, vw: &mut World<T>) -> (r: Arc<Node<T>>)
    requires p.p() is To, old(vw).g@.held.contains(p.p()->To_0),
    ensures P::To(*r) == p.p(), final(vw).g@ == (Cells { held: old(vw).g@.held.remove(*r), ..old(vw).g@ }),
{ unimplemented!() }

// --- the model ---

/// The records from `p` on, the first of them last.
pub open spec fn chain<T>(g: Cells<T>, p: P<T>, s: Seq<Node<T>>) -> bool
    decreases s.len()
{
    if s.len() == 0 { p is Null } else { p == P::To(s.last()) && chain(g, g.ptr[s.last().next.id()], s.drop_last()) }
}

pub open spec fn is_list<T>(g: Cells<T>, l: int) -> bool {
    if g.ptr[l] is One { g.lists[l].len() == 0 } else { chain(g, g.ptr[l], g.lists[l]) }
}

pub open spec fn record<T>(a: &Arc<Node<T>>) -> Node<T> { **a }

/// The record is in the list.
pub open spec fn listed<T>(g: Cells<T>, l: int, i: int) -> bool { g.lists.contains_key(l) && 0 <= i < g.lists[l].len() }

pub open spec fn known<T>(g: Cells<T>, n: Node<T>) -> bool {
    n.next.id() < g.ptrs && n.enqueued.id() < g.flags && g.flag.contains_key(n.enqueued.id()) && !g.lists.contains_key(n.next.id())
}

/// Lists and records are as they should be: a record is in at most one list, once, and then it is flagged, and held just then.
pub open spec fn inv<T>(g: Cells<T>) -> bool {
    &&& forall|l: int| #[trigger] g.lists.contains_key(l) ==> l < g.ptrs && g.ptr.contains_key(l) && is_list(g, l)
    &&& forall|n: Node<T>| #[trigger] g.nodes.contains(n) ==> known(g, n)
    &&& forall|n: Node<T>, m: Node<T>| g.nodes.contains(n) && g.nodes.contains(m) && n != m ==>
        #[trigger] n.next.id() != #[trigger] m.next.id()
    &&& forall|n: Node<T>, m: Node<T>| g.nodes.contains(n) && g.nodes.contains(m) && n != m ==>
        #[trigger] n.enqueued.id() != #[trigger] m.enqueued.id()
    &&& forall|l: int, i: int| #[trigger] listed(g, l, i) ==> g.nodes.contains(g.lists[l][i]) && g.flag[g.lists[l][i].enqueued.id()] && g.held.contains(g.lists[l][i])
    &&& forall|l: int, i: int, m: int, j: int| #[trigger] listed(g, l, i) && #[trigger] listed(g, m, j) && g.lists[l][i] == g.lists[m][j] ==> l == m && i == j
    &&& forall|n: Node<T>| #[trigger] g.held.contains(n) ==> exists|l: int, i: int| #[trigger] listed(g, l, i) && g.lists[l][i] == n
}

/// Sealing of all lists is as it was.
pub open spec fn kept<T>(g: Cells<T>, h: Cells<T>) -> bool {
    forall|m: int| #[trigger] g.lists.contains_key(m) ==> (h.ptr[m] is One <==> g.ptr[m] is One)
}

/// Sealing of other lists is as it was.
pub open spec fn frame<T>(g: Cells<T>, h: Cells<T>, l: int) -> bool {
    forall|m: int| #[trigger] g.lists.contains_key(m) && m != l ==> (h.ptr[m] is One <==> g.ptr[m] is One)
}

impl<T> ArcList<T> {
    pub open spec fn id(&self) -> int { self.list.id() }
    /// What is in it, the record pushed last at the end.
    pub open spec fn view(&self, g: Cells<T>) -> Seq<Node<T>> { g.lists[self.id()] }
    pub open spec fn sealed(&self, g: Cells<T>) -> bool { g.ptr[self.id()] is One }
    pub open spec fn ok(&self, g: Cells<T>) -> bool { g.lists.contains_key(self.id()) && inv(g) }
}

== fn ArcList::new | ghost
    requires inv(old(vw).g@),
    ensures inv(final(vw).g@), !old(vw).g@.lists.contains_key(ret.id()), !ret.sealed(final(vw).g@), frame(old(vw).g@, final(vw).g@, ret.id()),
        final(vw).g@.lists == old(vw).g@.lists.insert(ret.id(), Seq::empty()),
        final(vw).g@.flag == old(vw).g@.flag, final(vw).g@.nodes == old(vw).g@.nodes,

-- entry
    let ghost g0 = vw.g@;
-- exit
    proof {
        vw.g@ = Cells { lists: vw.g@.lists.insert(ret.id(), Seq::empty()), ..vw.g@ };
        lemma_made(g0, vw.g@, ret.id());
    }

== fn ArcList::push | ghost | loop_isolation(false)
    requires self.ok(old(vw).g@), old(vw).g@.nodes.contains(**data),
    ensures self.ok(final(vw).g@), kept(old(vw).g@, final(vw).g@), self.sealed(final(vw).g@) == self.sealed(old(vw).g@),
        final(vw).g@.nodes == old(vw).g@.nodes,
        final(vw).g@.flag == old(vw).g@.flag.insert(data.enqueued.id(), true),
        ret is Err <==> !old(vw).g@.flag[data.enqueued.id()] && self.sealed(old(vw).g@),
        final(vw).g@.lists == if old(vw).g@.flag[data.enqueued.id()] || self.sealed(old(vw).g@) { old(vw).g@.lists } else {
            old(vw).g@.lists.insert(self.id(), self.view(old(vw).g@).push(**data)) },

-- entry
    let ghost g0 = vw.g@;
    let ghost n = record(data);
    proof { assert(g0.flag.contains_key(n.enqueued.id())); assert(g0.flag[n.enqueued.id()] ==> g0.flag.insert(n.enqueued.id(), true) =~= g0.flag);
        if !g0.flag[n.enqueued.id()] { assert(g0.ptr[self.list.id()] is One ==> g0.lists[self.list.id()].len() == 0); lemma_refused(g0, self.list.id(), n); } }
-- loop 1
        invariant n == **data, self.ok(g0), g0.nodes.contains(**data), !g0.flag[data.enqueued.id()], node.p() == P::To(**data),
            head.p() == g0.ptr[self.list.id()],
            vw.g@ == (Cells { flag: g0.flag.insert(data.enqueued.id(), true), held: g0.held.insert(**data), ..g0 }),
        decreases 0int,
-- exits
    proof { if ret is Ok && !g0.flag[n.enqueued.id()] { vw.g@ = lemma_pushed(g0, vw.g@, self.list.id(), n); } }

== fn ArcList::take | ghost | loop_isolation(false) | allow_complex_invariants
    requires self.ok(old(vw).g@),
    ensures self.ok(final(vw).g@), ret.ok(final(vw).g@), ret.id() != self.id(), !old(vw).g@.lists.contains_key(ret.id()),
        kept(old(vw).g@, final(vw).g@), self.sealed(final(vw).g@) == self.sealed(old(vw).g@),
        final(vw).g@.nodes == old(vw).g@.nodes, final(vw).g@.flag == old(vw).g@.flag,
        final(vw).g@.lists == old(vw).g@.lists.insert(self.id(), Seq::empty()).insert(ret.id(), self.view(old(vw).g@)),

-- entry
    let ghost g0 = vw.g@;
-- loop 1
        invariant_except_break vw.g@ == g0, list.p() == g0.ptr[self.list.id()],
        invariant self.ok(g0),
        ensures self.ok(g0), list.p() == g0.ptr[self.list.id()],
            vw.g@ == (Cells { ptr: g0.ptr.insert(self.list.id(), if list.p() is One { P::One } else { P::Null }), ..g0 }),
        decreases 0int,
-- loop 1 entry
    proof { assert(g0.ptr.insert(self.list.id(), list.p()) =~= g0.ptr); }
-- exit
    proof { vw.g@ = lemma_taken(g0, vw.g@, self.list.id(), ret.list.id()); }

== fn ArcList::take_and_seal | ghost
    requires self.ok(old(vw).g@),
    ensures self.ok(final(vw).g@), ret.ok(final(vw).g@), ret.id() != self.id(), !old(vw).g@.lists.contains_key(ret.id()),
        frame(old(vw).g@, final(vw).g@, self.id()), self.sealed(final(vw).g@),
        final(vw).g@.nodes == old(vw).g@.nodes, final(vw).g@.flag == old(vw).g@.flag,
        final(vw).g@.lists == old(vw).g@.lists.insert(self.id(), Seq::empty()).insert(ret.id(), self.view(old(vw).g@)),

-- entry
    let ghost g0 = vw.g@;
-- exit
    proof { vw.g@ = lemma_taken(g0, vw.g@, self.list.id(), ret.list.id()); }

== fn ArcList::pop | ghost
    requires old(self).ok(old(vw).g@),
    ensures final(self).ok(final(vw).g@), final(self).id() == old(self).id(), kept(old(vw).g@, final(vw).g@),
        final(self).sealed(final(vw).g@) == old(self).sealed(old(vw).g@), final(vw).g@.nodes == old(vw).g@.nodes,
        match ret {
            None => old(self).view(old(vw).g@).len() == 0 && *final(vw) == *old(vw),
            Some(n) => {
                &&& old(self).view(old(vw).g@).len() > 0 && *n == old(self).view(old(vw).g@).last()
                &&& final(vw).g@.lists == old(vw).g@.lists.insert(old(self).id(), old(self).view(old(vw).g@).drop_last())
                &&& final(vw).g@.flag == old(vw).g@.flag.insert(n.enqueued.id(), false)
            },
        },

-- entry
    let ghost g0 = vw.g@;
    let ghost l = self.list.id();
    proof { assert(g0.ptr.insert(l, g0.ptr[l]) =~= g0.ptr); assert(listed(g0, l, g0.lists[l].len() - 1) || g0.lists[l].len() == 0); }
-- exit
    proof { vw.g@ = lemma_popped(g0, vw.g@, l); }

== fn ArcList::drop | ghost | loop_isolation(false) | allow_complex_invariants
    requires old(self).ok(old(vw).g@),
    ensures final(self).ok(final(vw).g@), kept(old(vw).g@, final(vw).g@), final(vw).g@.nodes == old(vw).g@.nodes,
        final(vw).g@.lists == old(vw).g@.lists.insert(old(self).id(), Seq::empty()),
        forall|n: Node<T>| #[trigger] old(vw).g@.nodes.contains(n) ==> final(vw).g@.flag[n.enqueued.id()]
            == (old(vw).g@.flag[n.enqueued.id()] && !old(self).view(old(vw).g@).contains(n)),

-- entry
    let ghost g0 = vw.g@;
    let ghost l = self.list.id();
    let ghost v0 = self.view(g0);
    proof { assert(g0.lists.insert(l, g0.lists[l]) =~= g0.lists); assert(v0.subrange(0, v0.len() as int) =~= v0); }
-- loop 1
        invariant inv(g0), g0.lists.contains_key(l), v0 == g0.lists[l], self.ok(vw.g@), self.id() == l, kept(g0, vw.g@), vw.g@.nodes == g0.nodes,
            self.view(vw.g@).len() <= v0.len(), self.view(vw.g@) == v0.subrange(0, self.view(vw.g@).len() as int),
            vw.g@.lists == g0.lists.insert(l, self.view(vw.g@)),
            forall|n: Node<T>| #[trigger] g0.nodes.contains(n) ==> vw.g@.flag[n.enqueued.id()]
                == (g0.flag[n.enqueued.id()] && !v0.subrange(self.view(vw.g@).len() as int, v0.len() as int).contains(n)),
        ensures self.view(vw.g@).len() == 0,
        decreases self.view(vw.g@).len(),
-- loop 1 entry
    proof {
        let k = self.view(vw.g@).len() as int;
        assert(listed(g0, l, k));
        lemma_rest(v0, k);
        let r = v0[k];
        assert(g0.nodes.contains(r));
        assert(!vw.g@.flag[r.enqueued.id()]);
        assert forall|n: Node<T>| #[trigger] g0.nodes.contains(n) implies vw.g@.flag[n.enqueued.id()]
            == (g0.flag[n.enqueued.id()] && !v0.subrange(k, v0.len() as int).contains(n)) by {
            if n != r {
                assert(n.enqueued.id() != r.enqueued.id());
                assert(v0.subrange(k, v0.len() as int).contains(n) == v0.subrange(k + 1, v0.len() as int).contains(n));
            } else { assert(v0.subrange(k, v0.len() as int)[0] == r); }
        }
    }
-- exit
    proof {
        assert(v0.subrange(0, v0.len() as int) =~= v0);
        assert(v0.subrange(0, 0) =~= Seq::empty());
    }

== fn Node::EMPTY
    ensures ret.p() is Null,

== fn Node::sealed
    ensures ret.p() is One,

== fn Node::new | ghost
    requires inv(old(vw).g@),
    ensures inv(final(vw).g@), final(vw).g@.nodes == old(vw).g@.nodes.insert(ret), !old(vw).g@.nodes.contains(ret),
        ret.data == data, final(vw).g@.lists == old(vw).g@.lists, kept(old(vw).g@, final(vw).g@),
        final(vw).g@.flag == old(vw).g@.flag.insert(ret.enqueued.id(), false),
        forall|n: Node<T>| #[trigger] old(vw).g@.nodes.contains(n) ==> n.enqueued.id() != ret.enqueued.id(),

-- entry
    let ghost g0 = vw.g@;
-- exit
    proof { vw.g@ = Cells { nodes: vw.g@.nodes.insert(ret), ..vw.g@ }; lemma_node(g0, vw.g@, ret); }

== fn Node::deref
    ensures *ret == self.data,

== lemmas
proof fn lemma_chain<T>(g: Cells<T>, h: Cells<T>, p: P<T>, s: Seq<Node<T>>)
    requires chain(g, p, s), forall|i: int| 0 <= i < s.len() ==> h.ptr[(#[trigger] s[i]).next.id()] == g.ptr[s[i].next.id()],
    ensures chain(h, p, s),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(h.ptr[s.last().next.id()] == g.ptr[s.last().next.id()]);
        assert forall|i: int| 0 <= i < s.drop_last().len() implies h.ptr[(#[trigger] s.drop_last()[i]).next.id()] == g.ptr[s.drop_last()[i].next.id()] by {
            assert(s.drop_last()[i] == s[i]);
        }
        lemma_chain(g, h, g.ptr[s.last().next.id()], s.drop_last());
    }
}

/// The same records are in the same lists.
proof fn lemma_same<T>(g: Cells<T>, h: Cells<T>)
    requires inv(g), h.held == g.held, forall|m: int, i: int| listed(g, m, i) <==> listed(h, m, i),
        forall|m: int, i: int| #[trigger] listed(g, m, i) ==> g.lists[m][i] == h.lists[m][i],
    ensures forall|n: Node<T>| #[trigger] h.held.contains(n) ==> exists|l: int, i: int| #[trigger] listed(h, l, i) && h.lists[l][i] == n,
        forall|m: int, i: int| #[trigger] listed(h, m, i) ==> listed(g, m, i) && g.lists[m][i] == h.lists[m][i],
{
    assert forall|n: Node<T>| #[trigger] h.held.contains(n) implies exists|m: int, i: int| #[trigger] listed(h, m, i) && h.lists[m][i] == n by {
        let (m, i) = choose|m: int, i: int| #[trigger] listed(g, m, i) && g.lists[m][i] == n;
        assert(listed(h, m, i));
    }
}

/// A new list.
proof fn lemma_made<T>(g: Cells<T>, h: Cells<T>, l: int)
    requires inv(g), l == g.ptrs, h.ptr[l] is Null,
        h == (Cells { ptr: g.ptr.insert(l, h.ptr[l]), ptrs: l + 1, lists: g.lists.insert(l, Seq::empty()), ..g }),
    ensures inv(h), frame(g, h, l),
{
    lemma_lists(g, h, l);
    lemma_same(g, h);
}

proof fn lemma_lists<T>(g: Cells<T>, h: Cells<T>, l: int)
    requires inv(g), forall|m: int| #[trigger] g.lists.contains_key(m) && m != l ==> h.lists.contains_key(m) && h.lists[m] == g.lists[m] && h.ptr[m] == g.ptr[m],
        forall|m: int, i: int| #[trigger] listed(g, m, i) && m != l ==> h.ptr[g.lists[m][i].next.id()] == g.ptr[g.lists[m][i].next.id()],
    ensures forall|m: int| #[trigger] g.lists.contains_key(m) && m != l ==> is_list(h, m),
{
    assert forall|m: int| #[trigger] g.lists.contains_key(m) && m != l implies is_list(h, m) by {
        if !(g.ptr[m] is One) {
            assert forall|i: int| 0 <= i < g.lists[m].len() implies h.ptr[(#[trigger] g.lists[m][i]).next.id()] == g.ptr[g.lists[m][i].next.id()] by {
                assert(listed(g, m, i));
            }
            lemma_chain(g, h, g.ptr[m], g.lists[m]);
        }
    }
}

/// A record was put in front.
proof fn lemma_pushed<T>(g: Cells<T>, c: Cells<T>, l: int, n: Node<T>) -> (h: Cells<T>)
    requires inv(g), g.lists.contains_key(l), g.nodes.contains(n), !g.flag[n.enqueued.id()], !(g.ptr[l] is One),
        c == (Cells { ptr: g.ptr.insert(n.next.id(), g.ptr[l]).insert(l, P::To(n)), flag: g.flag.insert(n.enqueued.id(), true), held: g.held.insert(n), ..g }),
    ensures h == (Cells { lists: g.lists.insert(l, g.lists[l].push(n)), ..c }), inv(h), kept(g, h), !(h.ptr[l] is One),
{
    let h = Cells { lists: g.lists.insert(l, g.lists[l].push(n)), ..c };
    assert forall|m: int, i: int| #[trigger] listed(g, m, i) implies g.lists[m][i] != n by { }
    lemma_lists(g, h, l);
    let s = g.lists[l];
    assert(s.push(n).drop_last() =~= s);
    assert forall|i: int| 0 <= i < s.len() implies h.ptr[(#[trigger] s[i]).next.id()] == g.ptr[s[i].next.id()] by { assert(listed(g, l, i)); }
    lemma_chain(g, h, g.ptr[l], s);
    assert(is_list(h, l));
    assert forall|m: int, i: int| #[trigger] listed(h, m, i) implies (m == l && i == s.len() && h.lists[m][i] == n) || (listed(g, m, i) && h.lists[m][i] == g.lists[m][i]) by { }
    assert forall|k: Node<T>| #[trigger] h.held.contains(k) implies exists|m: int, i: int| #[trigger] listed(h, m, i) && h.lists[m][i] == k by {
        if k == n {
            assert(listed(h, l, s.len() as int));
        } else {
            let (m, i) = choose|m: int, i: int| #[trigger] listed(g, m, i) && g.lists[m][i] == k;
            assert(listed(h, m, i));
        }
    }
    h
}

/// What was in the list is in another, new one.
proof fn lemma_taken<T>(g: Cells<T>, c: Cells<T>, l: int, m: int) -> (h: Cells<T>)
    requires inv(g), g.lists.contains_key(l), m == g.ptrs, c.ptr[l] is One || c.ptr[l] is Null && !(g.ptr[l] is One),
        c == (Cells { ptr: g.ptr.insert(l, c.ptr[l]).insert(m, g.ptr[l]), ptrs: m + 1, ..g }),
    ensures h == (Cells { lists: g.lists.insert(l, Seq::empty()).insert(m, g.lists[l]), ..c }), inv(h), l != m, frame(g, h, l), !g.lists.contains_key(m),
        h.ptr[l] == c.ptr[l],
{
    let h = Cells { lists: g.lists.insert(l, Seq::empty()).insert(m, g.lists[l]), ..c };
    lemma_lists(g, h, l);
    let s = g.lists[l];
    assert forall|i: int| 0 <= i < s.len() implies h.ptr[(#[trigger] s[i]).next.id()] == g.ptr[s[i].next.id()] by { assert(listed(g, l, i)); }
    if !(g.ptr[l] is One) { lemma_chain(g, h, g.ptr[l], s); }
    assert forall|k: int, i: int| #[trigger] listed(h, k, i) implies k != l && h.lists[k][i] == g.lists[if k == m { l } else { k }][i] && listed(g, if k == m { l } else { k }, i) by { }
    assert forall|n: Node<T>| #[trigger] h.held.contains(n) implies exists|k: int, i: int| #[trigger] listed(h, k, i) && h.lists[k][i] == n by {
        let (k, i) = choose|k: int, i: int| #[trigger] listed(g, k, i) && g.lists[k][i] == n;
        assert(listed(h, if k == l { m } else { k }, i));
    }
    h
}

/// The first record is taken out.
proof fn lemma_popped<T>(g: Cells<T>, c: Cells<T>, l: int) -> (h: Cells<T>)
    requires inv(g), g.lists.contains_key(l), g.ptr[l] is To,
        c == (Cells { ptr: g.ptr.insert(l, g.ptr[g.lists[l].last().next.id()]), flag: g.flag.insert(g.lists[l].last().enqueued.id(), false),
            held: g.held.remove(g.lists[l].last()), ..g }),
    ensures h == (Cells { lists: g.lists.insert(l, g.lists[l].drop_last()), ..c }), inv(h), kept(g, h), g.lists[l].len() > 0, !(h.ptr[l] is One),
{
    let h = Cells { lists: g.lists.insert(l, g.lists[l].drop_last()), ..c };
    let s = g.lists[l];
    let n = s.last();
    lemma_lists(g, h, l);
    assert(listed(g, l, s.len() - 1));
    assert forall|i: int| 0 <= i < s.drop_last().len() implies h.ptr[(#[trigger] s.drop_last()[i]).next.id()] == g.ptr[s.drop_last()[i].next.id()] by {
        assert(listed(g, l, i));
    }
    lemma_chain(g, h, g.ptr[n.next.id()], s.drop_last());
    assert forall|m: int, i: int| #[trigger] listed(h, m, i) implies listed(g, m, i) && h.lists[m][i] == g.lists[m][i] && h.lists[m][i] != n by {
        assert(listed(g, m, i));
    }
    assert forall|k: Node<T>| #[trigger] h.held.contains(k) implies exists|m: int, i: int| #[trigger] listed(h, m, i) && h.lists[m][i] == k by {
        let (m, i) = choose|m: int, i: int| #[trigger] listed(g, m, i) && g.lists[m][i] == k;
        assert(listed(h, m, i));
    }
    h
}

/// A new record.
proof fn lemma_node<T>(g: Cells<T>, h: Cells<T>, n: Node<T>)
    requires inv(g), n.next.id() == g.ptrs, n.enqueued.id() == g.flags,
        h == (Cells { ptr: g.ptr.insert(g.ptrs, h.ptr[g.ptrs]), flag: g.flag.insert(g.flags, false), ptrs: g.ptrs + 1, flags: g.flags + 1, nodes: g.nodes.insert(n), ..g }),
    ensures inv(h), kept(g, h), !g.nodes.contains(n), forall|m: Node<T>| #[trigger] g.nodes.contains(m) ==> m.enqueued.id() != n.enqueued.id(),
{
    lemma_lists(g, h, g.ptrs);
    lemma_same(g, h);
}

/// A record that is flagged and not queued.
proof fn lemma_refused<T>(g: Cells<T>, l: int, n: Node<T>)
    requires inv(g), g.nodes.contains(n), !g.flag[n.enqueued.id()],
    ensures !g.held.contains(n), inv(Cells { flag: g.flag.insert(n.enqueued.id(), true), held: g.held.insert(n).remove(n), ..g }),
{
    let h = Cells { flag: g.flag.insert(n.enqueued.id(), true), held: g.held.insert(n).remove(n), ..g };
    assert(h.held =~= g.held);
    lemma_lists(g, h, g.ptrs);
    lemma_same(g, h);
}

/// What is left from `k` on.
proof fn lemma_rest<T>(v: Seq<Node<T>>, k: int)
    requires 0 <= k < v.len(),
    ensures forall|n: Node<T>| v.subrange(k, v.len() as int).contains(n) <==> n == v[k] || #[trigger] v.subrange(k + 1, v.len() as int).contains(n),
{
    let (a, b) = (v.subrange(k, v.len() as int), v.subrange(k + 1, v.len() as int));
    assert(a[0] == v[k]);
    assert forall|n: Node<T>| a.contains(n) <==> n == v[k] || #[trigger] b.contains(n) by {
        if b.contains(n) {
            let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == n;
            assert(a[i + 1] == n);
        }
        if a.contains(n) && n != v[k] {
            let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == n;
            assert(b[i - 1] == n);
        }
    }
}
