Contracts of src/timer/clock.rs (the test clock) and of the functions that control it, src/tokio/test_utils.rs.

== file src/timer/clock.rs
== file src/tokio/test_utils.rs
== option expand
== option public
== option addassign
== rename src/timer/clock.rs `CLOCK.` => `cell().` -- the static, a cell
== rename src/timer/clock.rs `*mut Inner` => `Raw` -- a pointer to a clock is what it points to
== rename src/timer/clock.rs `as Raw` => `` -- a pointer to a clock is what it points to
== rename src/timer/clock.rs `std::ptr::null_mut()` => `null()` -- a pointer to a clock is what it points to
== rename src/timer/clock.rs `Arc::into_raw` => `into_raw` -- a pointer to a clock is what it points to
== rename src/timer/clock.rs `Arc::from_raw` => `from_raw` -- a pointer to a clock is what it points to
== rename src/timer/clock.rs `.expect(` => `.or_panic(` -- a panic is an obligation or the outcome
== rename src/tokio/test_utils.rs `async fn` => `fn` -- it does not wait
== drop CLOCK
== ghost .load(
== ghost .compare_exchange(
== ghost Mutex::new(
== ghost .lock(
== ghost Instant::now_js( => tw
== ghost Clock::new( => vw, tw
== ghost Clock::from_raw(
== ghost .into_raw(
== ghost into_raw(
== ghost from_raw(
== ghost .or_panic(
== ghost vpanic(
== ghost clock( => vw, tw
== ghost .pause( => vw, tw
== ghost .resume( => vw, tw
== ghost .advance( => vw, tw
== ghost .paused(
== ghost .now( => vw, tw
== ghost .upgrade(
== ghost .wake(
== ghost TimerHandle::default(
== item uses
use std::sync::Arc;
use std::sync::atomic::Ordering;
use std::sync::atomic::Ordering::SeqCst;
use vstd::std_specs::cmp::PartialEqSpecImpl;
== prelude
// --- time: the contracts of C01 ---

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Instant { d: std::time::Duration }

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { d: std::time::Duration }

/// Durations are not negative, and instants are durations.
pub open spec fn last_instant() -> int { 0x1_0000_0000_0000_0000 * 1_000_000_000 - 1 }

impl Duration {
    pub uninterp spec fn ns(self) -> int;
}

impl Instant {
    pub uninterp spec fn t(self) -> int;
    /// The real clock: it does not run backwards.
    #[verifier::external_body]
    pub fn now_js(tw: &mut Bay) -> (r: Instant)
        ensures old(tw).t@ <= r.t() <= end(), final(tw).t@ == r.t(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_assign(&mut self, d: Duration)
        requires old(self).t() + d.ns() <= last_instant(),
        ensures final(self).t() == old(self).t() + d.ns(),
    { unimplemented!() }
}

impl vstd::std_specs::ops::SubSpecImpl<Instant> for Instant {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, d: Instant) -> bool { true }
    open spec fn sub_spec(self, d: Instant) -> Duration { arbitrary() }
}

impl std::ops::Sub<Instant> for Instant {
    type Output = Duration;
    #[verifier::external_body]
    fn sub(self, d: Instant) -> (r: Duration)
        ensures r.ns() == if self.t() >= d.t() { self.t() - d.t() } else { 0 },
    { unimplemented!() }
}

impl vstd::std_specs::ops::AddSpecImpl<Duration> for Instant {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, d: Duration) -> bool { self.t() + d.ns() <= last_instant() }
    open spec fn add_spec(self, d: Duration) -> Instant { arbitrary() }
}

impl std::ops::Add<Duration> for Instant {
    type Output = Instant;
    #[verifier::external_body]
    fn add(self, d: Duration) -> (r: Instant)
        ensures r.t() == self.t() + d.ns(),
    { unimplemented!() }
}

// --- what the cells hold ---

pub ghost struct Cells {
    pub base: IMap<int, Instant>,
    pub unfrozen: IMap<int, Option<Instant>>,
    /// The next cells get these numbers.
    pub bases: int,
    pub unfrozens: int,
    /// The clock that the static points to, and the clocks with a reference that a pointer owns.
    pub global: Option<Inner>,
    pub held: ISet<Inner>,
    /// There is a driver; what the clocks were when it was last woken.
    pub driver: bool,
    pub woken: Option<(IMap<int, Instant>, IMap<int, Option<Instant>>)>,
    /// A panic is the right outcome.
    pub wrong: bool,
}

pub struct World { pub g: Ghost<Cells> }

/// What the real clock said.
pub struct Bay { pub t: Ghost<int> }

/// What the real clock will have said at last.
pub uninterp spec fn end() -> int;

#[verifier::external_body]
#[derive(Debug)]
pub struct PoisonError { c: u8 }

pub trait Held: Sized {
    spec fn next(g: Cells) -> int;
    spec fn get(g: Cells, k: int) -> Self;
    spec fn put(g: Cells, k: int, v: Self) -> Cells;
    spec fn made(g: Cells) -> Cells;
}

impl Held for Instant {
    open spec fn next(g: Cells) -> int { g.bases }
    open spec fn get(g: Cells, k: int) -> Self { g.base[k] }
    open spec fn put(g: Cells, k: int, v: Self) -> Cells { if v == g.base[k] { g } else { Cells { base: g.base.insert(k, v), ..g } } }
    open spec fn made(g: Cells) -> Cells { Cells { bases: g.bases + 1, ..g } }
}

impl Held for Option<Instant> {
    open spec fn next(g: Cells) -> int { g.unfrozens }
    open spec fn get(g: Cells, k: int) -> Self { g.unfrozen[k] }
    open spec fn put(g: Cells, k: int, v: Self) -> Cells { if v == g.unfrozen[k] { g } else { Cells { unfrozen: g.unfrozen.insert(k, v), ..g } } }
    open spec fn made(g: Cells) -> Cells { Cells { unfrozens: g.unfrozens + 1, ..g } }
}

/// The lock of a thread by itself.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { c: Vec<T> }

impl<T: Held> Mutex<T> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(t: T, vw: &mut World) -> (r: Self)
        ensures r.id() == T::next(old(vw).g@), final(vw).g@ == T::made(T::put(old(vw).g@, r.id(), t)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lock<'a>(&'a self, vw: &'a mut World) -> (r: Result<&'a mut T, PoisonError>)
        ensures r is Ok, *r->Ok_0 == T::get(old(vw).g@, self.id()),
            final(vw).g@ == T::put(old(vw).g@, self.id(), *final(r->Ok_0)),
    { unimplemented!() }
}

fn vassert(b: bool)
    requires b,
{ }

#[verifier::external_body]
pub fn vpanic(vw: &mut World) -> !
    requires old(vw).g@.wrong,
{ unimplemented!() }

pub trait OrPanic<T> {
    spec fn value(self) -> Option<T>;
    fn or_panic(self, m: &str, vw: &mut World) -> (r: T) where Self: Sized
        requires self.value() is Some || old(vw).g@.wrong,
        ensures self.value() == Some(r), *final(vw) == *old(vw);
}

impl<T> OrPanic<T> for Option<T> {
    open spec fn value(self) -> Option<T> { self }
    #[verifier::external_body]
    fn or_panic(self, m: &str, vw: &mut World) -> (r: T) { unimplemented!() }
}

/// A pointer to a clock, or null.
#[verifier::external_body]
pub struct Raw { p: u8 }

impl Raw {
    pub uninterp spec fn p(self) -> Option<Inner>;
}

impl Clone for Raw {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}

impl Copy for Raw {}

impl PartialEqSpecImpl for Raw {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Raw) -> bool { self.p() == o.p() }
}

impl PartialEq for Raw {
    #[verifier::external_body]
    fn eq(&self, o: &Raw) -> bool { unimplemented!() }
}

#[verifier::external_body]
pub const fn null() -> (r: Raw)
    ensures r.p() is None,
{ Raw { p: 0 } }

/// The pointer owns the reference from here on.
#[verifier::external_body]
pub fn into_raw(a: Arc<Inner>, vw: &mut World) -> (r: Raw)
    requires !old(vw).g@.held.contains(*a),
    ensures r.p() == Some(*a), final(vw).g@ == (Cells { held: old(vw).g@.held.insert(*a), ..old(vw).g@ }),
{ unimplemented!() }

/// The reference that the pointer owned is given back.
#[verifier::external_body]
pub unsafe fn from_raw(p: Raw, vw: &mut World) -> (r: Arc<Inner>)
    requires p.p() is Some, old(vw).g@.held.contains(p.p().unwrap()),
    ensures Some(*r) == p.p(), final(vw).g@ == (Cells { held: old(vw).g@.held.remove(*r), ..old(vw).g@ }),
{ unimplemented!() }

/// The static.
pub struct ClockCell { pub c: u8 }

#[verifier::external_body]
pub fn cell() -> (r: ClockCell) { unimplemented!() }

impl ClockCell {
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, vw: &mut World) -> (r: Raw)
        ensures r.p() == old(vw).g@.global, *final(vw) == *old(vw),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, a: Raw, b: Raw, o: Ordering, f: Ordering, vw: &mut World) -> (r: Result<Raw, Raw2>)
        ensures r is Ok <==> a.p() == old(vw).g@.global,
            r is Ok ==> final(vw).g@ == (Cells { global: b.p(), ..old(vw).g@ }),
            r is Err ==> *final(vw) == *old(vw),
    { unimplemented!() }
}

#[verifier::external_body]
#[derive(Debug)]
pub struct Raw2 { p: u8 }

// --- the driver ---

pub struct Inner2 { pub waker: AtomicWaker }
pub struct Weak2 { pub w: u8 }
pub struct TimerHandle { pub inner: Weak2 }

#[verifier::external_body]
pub struct AtomicWaker { w: u8 }

impl AtomicWaker {
    #[verifier::external_body]
    pub fn wake(&self, vw: &mut World)
        ensures final(vw).g@ == (Cells { woken: Some((old(vw).g@.base, old(vw).g@.unfrozen)), ..old(vw).g@ }),
    { unimplemented!() }
}

impl Weak2 {
    #[verifier::external_body]
    pub fn upgrade(&self, vw: &mut World) -> (r: Option<Arc<Inner2>>)
        ensures r is Some <==> old(vw).g@.driver, *final(vw) == *old(vw),
    { unimplemented!() }
}

impl TimerHandle {
    /// There is a driver from here on, as there was.
    #[verifier::external_body]
    pub fn default(vw: &mut World) -> (r: Self)
        ensures *final(vw) == *old(vw),
    { unimplemented!() }
}

impl Clone for Clock {
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { Clock { inner: self.inner.clone() } }
}

// --- the model ---

/// What the clock says when the real clock says `h`.
pub open spec fn says(g: Cells, c: Inner, h: int) -> int {
    g.base[c.base.id()].t() + match g.unfrozen[c.unfrozen.id()] { None => 0, Some(u) => h - u.t() }
}

pub open spec fn frozen(g: Cells, c: Inner) -> bool { g.unfrozen[c.unfrozen.id()] is None }

/// The clock has been running since some time that has been, and what it says can be said to the end.
pub open spec fn ok(g: Cells, t: int, c: Inner) -> bool {
    &&& c.base.id() < g.bases && c.unfrozen.id() < g.unfrozens
    &&& match g.unfrozen[c.unfrozen.id()] { None => true, Some(u) => u.t() <= t }
    &&& 0 <= t <= end() <= last_instant()
    &&& says(g, c, end()) <= last_instant()
}

pub open spec fn same(g: Cells, h: Cells) -> bool {
    h == (Cells { base: h.base, unfrozen: h.unfrozen, ..g })
}

/// The static points to a clock that is there.
pub open spec fn glob(g: Cells, t: int) -> bool {
    match g.global { None => true, Some(c) => ok(g, t, c) && g.held.contains(c) }
}

/// What `pause`, `resume` and `advance` do, and what time does: it passes, or does not, and leaps by `d`.
pub open spec fn moved(g: Cells, t: int, h: Cells, u: int, c: Inner, d: int) -> bool {
    &&& t <= u && ok(h, u, c)
    &&& says(h, c, u) == says(g, c, u) + d
}

/// What the functions that control the clock do: the clock does, and the driver is woken once it has.
pub open spec fn controlled(g: Cells, t: int, h: Cells, u: int, d: int) -> bool {
    &&& glob(h, u) && h.global == g.global && h.held == g.held
    &&& moved(g, t, h, u, g.global.unwrap(), d)
    &&& g.driver ==> h.woken == Some((h.base, h.unfrozen))
}

== const EMPTY_CLOCK
    ensures EMPTY_CLOCK.p() is None,

== fn clock | ghost | held
    requires glob(old(vw).g@, old(tw).t@), 0 <= old(tw).t@ <= end() <= last_instant(), old(vw).g@.wrong == false || old(vw).g@.global is Some,
        old(vw).g@.global is None ==> forall|c: Inner| #[trigger] old(vw).g@.held.contains(c) ==> c.base.id() < old(vw).g@.bases,
    ensures glob(final(vw).g@, final(tw).t@), final(vw).g@.global == Some(*ret.inner),
        old(vw).g@.global is Some ==> *final(vw) == *old(vw) && *final(tw) == *old(tw),
        old(vw).g@.global is None ==> !frozen(final(vw).g@, *ret.inner) && says(final(vw).g@, *ret.inner, final(tw).t@) == final(tw).t@
            && final(vw).g@ == (Cells { global: Some(*ret.inner), base: final(vw).g@.base, unfrozen: final(vw).g@.unfrozen, held: final(vw).g@.held,
                bases: final(vw).g@.bases, unfrozens: final(vw).g@.unfrozens, ..old(vw).g@ }),

-- entry
    let ghost g0 = vw.g@;
-- exit
    proof { if g0.global is Some { assert(vw.g@.held =~= g0.held); } }

== fn now | ghost | held
    requires glob(old(vw).g@, old(tw).t@), old(vw).g@.global is Some,
    ensures ret.t() == says(old(vw).g@, old(vw).g@.global.unwrap(), final(tw).t@), same(old(vw).g@, final(vw).g@),
        final(vw).g@.base == old(vw).g@.base, final(vw).g@.unfrozen == old(vw).g@.unfrozen, glob(final(vw).g@, final(tw).t@),

== fn Clock::into_raw | ghost
    requires !old(vw).g@.held.contains(*self.inner),
    ensures ret.p() == Some(*self.inner), final(vw).g@ == (Cells { held: old(vw).g@.held.insert(*self.inner), ..old(vw).g@ }),

== fn Clock::from_raw | ghost
    requires raw.p() is Some, old(vw).g@.held.contains(raw.p().unwrap()),
    ensures raw.p() == Some(*ret.inner), final(vw).g@ == (Cells { held: old(vw).g@.held.remove(*ret.inner), ..old(vw).g@ }),

== fn Clock::new | ghost | held
    requires 0 <= old(tw).t@ <= end() <= last_instant(), !old(vw).g@.wrong,
    ensures ok(final(vw).g@, final(tw).t@, *ret.inner), frozen(final(vw).g@, *ret.inner) == start_paused,
        old(tw).t@ <= says(final(vw).g@, *ret.inner, final(tw).t@) <= final(tw).t@,
        !start_paused ==> says(final(vw).g@, *ret.inner, final(tw).t@) == final(tw).t@,
        ret.inner.base.id() >= old(vw).g@.bases,
        final(vw).g@ == (Cells { base: final(vw).g@.base, unfrozen: final(vw).g@.unfrozen, bases: final(vw).g@.bases, unfrozens: final(vw).g@.unfrozens,
            ..old(vw).g@ }), old(tw).t@ <= final(tw).t@,

== fn Clock::resume | ghost | held
    requires ok(old(vw).g@, old(tw).t@, *self.inner), old(vw).g@.wrong == !frozen(old(vw).g@, *self.inner),
        says(old(vw).g@, *self.inner, 0) + end() - old(tw).t@ <= last_instant(),
    ensures frozen(old(vw).g@, *self.inner), !frozen(final(vw).g@, *self.inner), same(old(vw).g@, final(vw).g@),
        moved(old(vw).g@, old(tw).t@, final(vw).g@, final(tw).t@, *self.inner, 0),

== fn Clock::paused | ghost
    ensures ret == frozen(old(vw).g@, *self.inner), *final(vw) == *old(vw),

== fn Clock::pause | ghost | held
    requires ok(old(vw).g@, old(tw).t@, *self.inner), old(vw).g@.wrong == frozen(old(vw).g@, *self.inner),
    ensures !frozen(old(vw).g@, *self.inner), frozen(final(vw).g@, *self.inner), same(old(vw).g@, final(vw).g@),
        moved(old(vw).g@, old(tw).t@, final(vw).g@, final(tw).t@, *self.inner, 0),

== fn Clock::advance | ghost | held
    requires ok(old(vw).g@, old(tw).t@, *self.inner), old(vw).g@.wrong == !frozen(old(vw).g@, *self.inner),
        says(old(vw).g@, *self.inner, 0) + duration.ns() <= last_instant(),
    ensures frozen(old(vw).g@, *self.inner), frozen(final(vw).g@, *self.inner), same(old(vw).g@, final(vw).g@), 
        moved(old(vw).g@, old(tw).t@, final(vw).g@, final(tw).t@, *self.inner, duration.ns()),

== fn Clock::now | ghost | held
    requires ok(old(vw).g@, old(tw).t@, *self.inner),
    ensures ret.t() == says(old(vw).g@, *self.inner, final(tw).t@), same(old(vw).g@, final(vw).g@), ok(final(vw).g@, final(tw).t@, *self.inner),
        final(vw).g@.base == old(vw).g@.base, final(vw).g@.unfrozen == old(vw).g@.unfrozen,

== fn pause | ghost | held
    requires glob(old(vw).g@, old(tw).t@), old(vw).g@.global is Some, old(vw).g@.wrong == frozen(old(vw).g@, old(vw).g@.global.unwrap()),
    ensures controlled(old(vw).g@, old(tw).t@, final(vw).g@, final(tw).t@, 0), frozen(final(vw).g@, final(vw).g@.global.unwrap()), !frozen(old(vw).g@, old(vw).g@.global.unwrap()),

== fn resume | ghost | held
    requires glob(old(vw).g@, old(tw).t@), old(vw).g@.global is Some, old(vw).g@.wrong == !frozen(old(vw).g@, old(vw).g@.global.unwrap()),
        says(old(vw).g@, old(vw).g@.global.unwrap(), 0) + end() - old(tw).t@ <= last_instant(),
    ensures controlled(old(vw).g@, old(tw).t@, final(vw).g@, final(tw).t@, 0), !frozen(final(vw).g@, final(vw).g@.global.unwrap()), frozen(old(vw).g@, old(vw).g@.global.unwrap()),

== fn advance | ghost | held
    requires glob(old(vw).g@, old(tw).t@), old(vw).g@.global is Some, old(vw).g@.wrong == !frozen(old(vw).g@, old(vw).g@.global.unwrap()),
        says(old(vw).g@, old(vw).g@.global.unwrap(), 0) + duration.ns() <= last_instant(),
    ensures controlled(old(vw).g@, old(tw).t@, final(vw).g@, final(tw).t@, duration.ns()), frozen(final(vw).g@, final(vw).g@.global.unwrap()), frozen(old(vw).g@, old(vw).g@.global.unwrap()),

== lemmas
/// What a step of a history does to the clock: time passes, or it is paused, resumed, or advanced by `d`.
pub open spec fn step(g: Cells, t: int, h: Cells, u: int, c: Inner, d: int) -> bool {
    &&& t <= u <= end() && 0 <= d && ok(g, t, c)
    &&& h.base == g.base && h.unfrozen == g.unfrozen && d == 0 || moved(g, t, h, u, c, d) && (d > 0 ==> frozen(g, c))
}

/// A history: states, readings of the real clock, and by how much the clock is advanced in each step.
pub open spec fn history(g: Seq<Cells>, t: Seq<int>, d: Seq<int>, c: Inner) -> bool {
    &&& 0 < g.len() && g.len() == t.len() && g.len() == d.len() + 1
    &&& forall|i: int| 0 <= i < d.len() ==> #[trigger] step(g[i], t[i], g[i + 1], t[i + 1], c, d[i])
}

/// The time that passed with the clock running, and was added.
pub open spec fn passed(g: Seq<Cells>, t: Seq<int>, d: Seq<int>, c: Inner) -> int
    decreases d.len()
{
    if d.len() == 0 { 0 } else {
        let n = d.len() - 1;
        passed(g.drop_last(), t.drop_last(), d.drop_last(), c) + d[n] + if frozen(g[n as int], c) { 0 } else { t[n + 1] - t[n as int] }
    }
}

/// Through any history the clock moves by just that, and so never backwards.
pub proof fn lemma_history(g: Seq<Cells>, t: Seq<int>, d: Seq<int>, c: Inner)
    requires history(g, t, d, c),
    ensures says(g.last(), c, t.last()) == says(g[0], c, t[0]) + passed(g, t, d, c), // [C10]
        0 <= passed(g, t, d, c), // [C10]
    decreases d.len(),
{
    if d.len() > 0 {
        let n = d.len() - 1;
        let (a, b, e) = (g.drop_last(), t.drop_last(), d.drop_last());
        assert forall|i: int| 0 <= i < e.len() implies #[trigger] step(a[i], b[i], a[i + 1], b[i + 1], c, e[i]) by {
            assert(step(g[i], t[i], g[i + 1], t[i + 1], c, d[i]));
        }
        lemma_history(a, b, e, c);
        assert(step(g[n], t[n], g[n + 1], t[n + 1], c, d[n]));
        assert(a.last() == g[n] && b.last() == t[n]);
    }
}
