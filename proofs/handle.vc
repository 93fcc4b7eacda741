Contracts of the handle of the process's driver (TimerHandle in src/timer/mod.rs), over that of global::run (unit driver).
Other threads may race for the fallback between any two steps.

== file src/timer/mod.rs
== option expand
== option public
== rename src/timer/mod.rs `HANDLE_FALLBACK.` => `cell().` -- the static, a cell
== rename src/timer/mod.rs `*mut Inner` => `Raw` -- a pointer is the address of what it points to
== rename src/timer/mod.rs `as Raw` => `` -- a pointer is the address of what it points to
== rename src/timer/mod.rs `std::ptr::null_mut()` => `null()` -- a pointer is the address of what it points to
== rename src/timer/mod.rs `Weak<Inner>` => `WeakInner` -- a stand-in for weak references
== rename src/timer/mod.rs `Weak::from_raw` => `WeakInner::from_raw` -- a stand-in for weak references
== rename src/timer/mod.rs `global::run()` => `run_driver()` -- its contract (unit driver)
== rename src/timer/mod.rs `Default for TimerHandle` => `TimerHandle` -- a method of its own
== keep TimerHandle
== keep SetDefaultError
== keep EMPTY_HANDLE
== ghost .load(
== ghost .compare_exchange(
== ghost .into_raw(
== ghost from_raw(
== ghost run_driver(
== ghost .set_as_global_fallback(
== item uses
use std::sync::atomic::Ordering;
use std::sync::atomic::Ordering::SeqCst;
use vstd::std_specs::cmp::PartialEqSpecImpl;
== prelude
fn vassert(b: bool)
    requires b,
{ }

pub assume_specification<T>[ std::mem::drop ](t: T)
    where T: std::marker::Destruct;

/// What is shared, and what this thread has to answer for.
pub ghost struct Shared {
    /// What the static holds; 0 is null.
    pub slot: int,
    /// The drivers that `global::run` started: each stays ready for ever after (unit driver).
    pub running: Set<int>,
    /// The references to a driver that raw pointers of this thread own; the static owns one to what it holds.
    pub mine: IMap<int, int>,
    /// Nothing else runs.
    pub alone: bool,
}

pub struct World { pub g: Ghost<Shared> }

/// What other threads may do: start drivers, and fill the static if it is empty.
pub open spec fn meanwhile(a: Shared, b: Shared) -> bool {
    &&& b.mine == a.mine && b.alone == a.alone
    &&& a.running.subset_of(b.running)
    &&& a.slot != 0 ==> b.slot == a.slot
    &&& b.slot == a.slot || b.running.contains(b.slot) && b.slot != 0
    &&& a.alone ==> b == a
}

/// Drivers stay.
pub open spec fn later(a: Shared, b: Shared) -> bool {
    b.alone == a.alone && a.running.subset_of(b.running)
}

/// The static holds nothing, or a driver that was started.
pub open spec fn sound(g: Shared) -> bool { g.slot == 0 || g.running.contains(g.slot) }

/// What may be turned into a reference: what this thread owns, or what the static does.
pub open spec fn held(g: Shared, p: int) -> bool { g.mine[p] + (if g.slot == p { 1int } else { 0 }) > 0 }

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Raw { pub a: usize }

impl PartialEqSpecImpl for Raw {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Raw) -> bool { self.a == o.a }
}

pub const fn null() -> (r: Raw)
    ensures r.a == 0,
{ Raw { a: 0 } }

pub struct Cell { pub c: u8 }

/// The static.
pub fn cell() -> (r: Cell) { Cell { c: 0 } }

impl Cell {
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, vw: &mut World) -> (r: Raw)
        ensures meanwhile(old(vw).g@, final(vw).g@), r.a == final(vw).g@.slot,
    { unimplemented!() }
    /// What is put in must be owned, and belongs to the static from then on.
    #[verifier::external_body]
    pub fn compare_exchange(&self, from: Raw, to: Raw, s: Ordering, f: Ordering, vw: &mut World) -> (r: Result<Raw, Raw>)
        requires from.a == 0, to.a != 0, old(vw).g@.running.contains(to.a as int), old(vw).g@.mine[to.a as int] > 0,
        ensures exists|m: Shared| #[trigger] meanwhile(old(vw).g@, m) && match r {
                Ok(x) => m.slot == 0 && x.a == 0
                    && final(vw).g@ == (Shared { slot: to.a as int, mine: m.mine.insert(to.a as int, m.mine[to.a as int] - 1), ..m }),
                Err(x) => m.slot != 0 && x.a == m.slot && final(vw).g@ == m,
            },
    { unimplemented!() }
}

/// A weak reference to a driver.
#[verifier::external_body]
pub struct WeakInner { w: std::sync::Weak<u8> }

impl WeakInner {
    pub uninterp spec fn to(self) -> int;
    /// The pointer owns the reference.
    #[verifier::external_body]
    pub fn into_raw(self, vw: &mut World) -> (r: Raw)
        ensures r.a == self.to(), r.a != 0,
            final(vw).g@ == (Shared { mine: old(vw).g@.mine.insert(self.to(), old(vw).g@.mine[self.to()] + 1), ..old(vw).g@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_raw(p: Raw, vw: &mut World) -> (r: Self)
        requires p.a != 0, held(old(vw).g@, p.a as int),
        ensures r.to() == p.a,
            final(vw).g@ == (Shared { mine: old(vw).g@.mine.insert(p.a as int, old(vw).g@.mine[p.a as int] - 1), ..old(vw).g@ }),
    { unimplemented!() }
}

impl Clone for WeakInner {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}

/// What the derived one does.
impl Clone for TimerHandle {
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { TimerHandle { inner: self.inner.clone() } }
}

/// The contract of `global::run` (unit driver): a driver that is ready.
#[verifier::external_body]
pub fn run_driver(vw: &mut World) -> (r: TimerHandle)
    ensures !old(vw).g@.running.contains(r.inner.to()),
        final(vw).g@ == (Shared { running: old(vw).g@.running.insert(r.inner.to()), ..old(vw).g@ }),
{ unimplemented!() }

== const EMPTY_HANDLE
    ensures EMPTY_HANDLE.a == 0,

== fn TimerHandle::set_as_global_fallback | ghost
    requires old(vw).g@.running.contains(self.inner.to()), old(vw).g@.mine[self.inner.to()] >= 0,
    ensures
        sound(old(vw).g@) ==> sound(final(vw).g@), final(vw).g@.slot != 0, // [C11]
        ret is Ok ==> old(vw).g@.slot == 0 && final(vw).g@.slot == self.inner.to(), // [C11]
        old(vw).g@.slot != 0 ==> final(vw).g@.slot == old(vw).g@.slot, // [C11]
        old(vw).g@.alone && old(vw).g@.slot == 0 ==> ret is Ok, // [C11]
        later(old(vw).g@, final(vw).g@),
        // No reference is freed early.
        forall|p: int| final(vw).g@.mine[p] >= old(vw).g@.mine[p], // [C11]

== fn TimerHandle::into_raw | ghost
    ensures ret.a == self.inner.to(), ret.a != 0,
        final(vw).g@ == (Shared { mine: old(vw).g@.mine.insert(self.inner.to(), old(vw).g@.mine[self.inner.to()] + 1), ..old(vw).g@ }),

== fn TimerHandle::from_raw | ghost
    requires raw.a != 0, held(old(vw).g@, raw.a as int),
    ensures ret.inner.to() == raw.a,
        final(vw).g@ == (Shared { mine: old(vw).g@.mine.insert(raw.a as int, old(vw).g@.mine[raw.a as int] - 1), ..old(vw).g@ }),

== fn TimerHandle::default | ghost
    requires sound(old(vw).g@), forall|p: int| old(vw).g@.mine[p] >= 0,
    ensures
        // One driver, which is running and stays it.
        sound(final(vw).g@), final(vw).g@.slot == ret.inner.to(), final(vw).g@.running.contains(ret.inner.to()), // [C11]
        old(vw).g@.slot != 0 ==> final(vw).g@.slot == old(vw).g@.slot, // [C11]
        old(vw).g@.alone && old(vw).g@.slot != 0 ==> final(vw).g@.running == old(vw).g@.running, // [C11]
        later(old(vw).g@, final(vw).g@),
        // No reference is freed early.
        forall|p: int| final(vw).g@.mine[p] >= 0, // [C11]
