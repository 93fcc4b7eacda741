Contracts of src/timer/global.rs over those of the timer and its sleeps (unit timer).

== assume timer
== file src/timer/global.rs
== rename src/timer/global.rs `ArcWake for Waker` => `DriverWaker` -- a method of its own
== rename src/timer/global.rs `task::waker(` => `waker_of(` -- the waker of a task that is woken by wake_by_ref
== rename src/timer/global.rs `Waker` => `DriverWaker` -- the other Waker
== rename src/timer/global.rs `AtomicUsize` => `Counter` -- a cell of its own
== rename src/timer/global.rs `Mutex` => `TimerLock` -- the lock of parking_lot
== rename src/timer/global.rs `Future::poll` => `Timer::poll` -- a method of its own
== rename src/timer/global.rs `Closure::once_into_js` => `js_of` -- a stand-in for the host's functions
== rename src/timer/global.rs `super::clock::clock()` => `the_clock()` -- a stand-in for the test clock (C10)
== rename src/timer/global.rs `drop(` => `unlock(` -- the guard is a reference
== lift schedule_callback cb driver: Arc<Driver>, number: usize
== ghost .timer.lock( => tw
== ghost TimerLock::new( => tw
== ghost Counter::new(
== ghost Timer::new(
== ghost Timer::poll(
== ghost .advance_to(
== ghost set_timeout(
== ghost schedule_callback( => vw, tw
== ghost cb( => vw, tw
== ghost .paused(
== ghost .fetch_add(
== prelude
// --- the test clock: its contracts (C10) ---

/// The test clock is compiled in (tokio-test-util).
pub open spec fn tu() -> bool { false }

pub struct Clock { pub c: u8 }

#[verifier::external_body]
pub fn the_clock() -> (r: Clock) { unimplemented!() }

impl Clock {
    #[verifier::external_body]
    pub fn paused(&self, vw: &mut World) -> (r: bool)
        ensures r == old(vw).g@.paused, *final(vw) == *old(vw),
    { unimplemented!() }
}

// --- the host ---

#[verifier::external_body]
pub struct Counter { c: u8 }

impl Counter {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(n: usize, vw: &mut World) -> (r: Self)
        ensures final(vw).g@ == (Shared { count: old(vw).g@.count.insert(r.id(), n), ..old(vw).g@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: std::sync::atomic::Ordering, vw: &mut World) -> (r: usize)
        ensures r == old(vw).g@.count[self.id()], *final(vw) == *old(vw),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&self, n: usize, o: std::sync::atomic::Ordering, vw: &mut World) -> (r: usize)
        ensures r == old(vw).g@.count[self.id()],
            final(vw).g@ == (Shared { count: old(vw).g@.count.insert(self.id(), r.wrapping_add(n)), ..old(vw).g@ }),
    { unimplemented!() }
}

/// What the lock of the driver holds.
pub struct Bay { pub t: Ghost<Timer> }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct TimerLock<T> { c: Vec<T> }

impl TimerLock<Timer> {
    #[verifier::external_body]
    pub fn new(t: Timer, tw: &mut Bay) -> (r: Self)
        ensures final(tw).t@ == t,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lock<'a>(&'a self, tw: &'a mut Bay) -> (r: &'a mut Timer)
        ensures *r == old(tw).t@, final(tw).t@ == *final(r),
    { unimplemented!() }
}

fn unlock(t: &mut Timer)
    ensures *final(t) == *old(t),
{ }

pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](r: Result<T, E>, d: T) -> (x: T)
    where T: std::marker::Destruct, E: std::marker::Destruct
    ensures x == if r is Ok { r->Ok_0 } else { d };

#[verifier::external_body]
pub fn waker_of(w: Arc<DriverWaker>) -> (r: Waker)
    ensures r.task() == (Task { id: w.driver.latest.id() }),
{ unimplemented!() }

impl<'a> Context<'a> {
    #[verifier::external_body]
    pub fn from_waker(w: &'a Waker) -> (r: Self)
        ensures r.task() == w.task(),
    { unimplemented!() }
}

/// The closure given to the host.
pub struct Lifted_cb { pub driver: Arc<Driver>, pub number: usize }

#[verifier::external_body]
#[derive(Debug)]
pub struct JsValue { v: u8 }

#[verifier::external_body]
pub struct Function { f: u8 }

impl Function {
    pub uninterp spec fn cb(&self) -> Lifted_cb;
}

impl JsValue {
    pub uninterp spec fn cb(&self) -> Lifted_cb;
    #[verifier::external_body]
    pub fn unchecked_ref(&self) -> (r: &Function)
        ensures r.cb() == self.cb(),
    { unimplemented!() }
}

#[verifier::external_body]
pub fn js_of(cb: Lifted_cb) -> (r: JsValue)
    ensures r.cb() == cb,
{ unimplemented!() }

/// The host calls `f` as soon as `ms` milliseconds have passed; a negative number counts as none.
#[verifier::external_body]
pub fn set_timeout(f: &Function, ms: i32, vw: &mut World) -> (r: Result<JsValue, JsValue>)
    ensures r is Ok,
        final(vw).g@ == (Shared { armed: old(vw).g@.armed.insert((f.cb().driver.latest.id(), f.cb().number),
            old(vw).g@.host + (if ms < 0 { 0 } else { ms as int }) * 1_000_000), ..old(vw).g@ }),
{ unimplemented!() }

/// The time that the host is asked to wait for `ns` nanoseconds: whole milliseconds, as many as it can count.
pub open spec fn wait(ns: int) -> int {
    (if ns / 1_000_000 <= 0x7fff_ffff { ns / 1_000_000 } else { 0x7fff_ffff }) * 1_000_000
}

/// When the callback scheduled last is due, in the host's time.
pub open spec fn due(d: Driver, g: Shared) -> int { g.armed[(d.latest.id(), g.count[d.latest.id()])] }

pub open spec fn armed(d: Driver, g: Shared) -> bool { g.armed.contains_key((d.latest.id(), g.count[d.latest.id()])) }

/// The host is about to call.
pub open spec fn rung(d: Driver, g: Shared) -> bool { armed(d, g) && due(d, g) <= g.host }

/// What is asked of the driver makes it schedule another callback.
pub open spec fn listens(d: Driver, t: Timer, g: Shared) -> bool {
    g.reg[t.inner.waker.id()] == (Task { id: d.latest.id() }) && !g.woken.contains(t.inner.waker.id())
}

/// Without a test clock, the clock is the host's.
pub open spec fn times(g: Shared) -> bool { !tu() ==> g.clock == g.host && !g.paused }

/// The callback scheduled last comes in time: at once, or no later than any deadline, and what is asked meanwhile brings another.
/// While the clock is paused no deadline comes.
pub open spec fn ready(d: Driver, t: Timer, g: Shared) -> bool {
    &&& t.sys(g) && times(g)
    &&& !g.paused ==> armed(d, g)
    &&& rung(d, g) || {
        &&& t.asked(g).len() == 0
        &&& listens(d, t, g)
        &&& forall|k: int| 0 <= k < g.states && #[trigger] pending(g, k) ==> {
            if g.paused { g.at[k].unwrap().t() > g.clock } else { due(d, g) - g.host <= g.at[k].unwrap().t() - g.clock }
        }
    }
}

/// Another callback is scheduled, and nothing else changes.
pub open spec fn scheduled(d: Driver, g: Shared, h: Shared) -> bool {
    let n = h.count[d.latest.id()];
    &&& h.armed.contains_key((d.latest.id(), n))
    &&& h == (Shared { count: g.count.insert(d.latest.id(), n), armed: g.armed.insert((d.latest.id(), n), due(d, h)), ..g })
}

/// The driver has had its turn.
pub open spec fn had_turn(t: Timer, g: Shared, u: Timer, h: Shared) -> bool {
    &&& u.inner == t.inner && h.clock == g.clock && h.host == g.host && h.paused == g.paused
    &&& h.at == g.at && h.states == g.states && h.alive == g.alive && h.sealed == g.sealed
    &&& forall|k: int| 0 <= k < g.states ==> #[trigger] turned(g, h, k, g.clock)
}

/// With the clock paused, the driver has its turn at once, and the host is not asked.
pub open spec fn at_once(d: Driver, t: Timer, g: Shared, u: Timer, h: Shared) -> bool {
    &&& had_turn(t, g, u, h) && h.armed == g.armed
    &&& t.sys(g) ==> ready(d, u, h)
}

/// A callback that was scheduled does not come before anything is left to do.
pub open spec fn calm(d: Driver, g: Shared) -> bool {
    if exists|k: int| 0 <= k < g.states && #[trigger] pending(g, k) {
        exists|k: int| 0 <= k < g.states && #[trigger] pending(g, k) && due(d, g) >= g.host + wait(g.at[k].unwrap().t() - g.clock)
            && forall|j: int| 0 <= j < g.states && #[trigger] pending(g, j) ==> g.at[k].unwrap().t() <= g.at[j].unwrap().t()
    } else { due(d, g) > g.host }
}

/// No sleep is pending.
pub open spec fn pending_none(g: Shared) -> bool { forall|k: int| !#[trigger] pending(g, k) }

== in Timer
    /// The host's part of what is shared is its own.
    pub proof fn lemma_host(self, g: Shared, h: Shared)
        requires self.sys(g), h == (Shared { clock: h.clock, host: h.host, paused: h.paused, armed: h.armed, count: h.count, ..g }),
        ensures self.sys(h),
    {
        assert forall|k: int| 0 <= k < h.states implies #[trigger] self.heard(h, k) by { assert(self.heard(g, k)); }
        assert forall|k: int| 0 <= k < h.states implies (#[trigger] h.state[k]) & 2 == 0 by { assert(g.state[k] & 2 == 0); }
    }

== fn run | ghost | held
    requires unused(old(vw).g@), times(old(vw).g@),
    ensures exists|d: Driver| #[trigger] ready(d, final(tw).t@, final(vw).g@), // [C11]
        ret.inner.to() == final(tw).t@.inner, pending_none(final(vw).g@),
-- entry
    let ghost mut d0: Option<Driver> = None;
    let ghost mut g1 = vw.g@;
    let ghost mut t1 = tw.t@;
-- after `Timer::new`
    proof { g1 = vw.g@; t1 = timer; }
-- after `Driver {`
    proof { d0 = Some(driver); }
-- exit
    proof {
        if !g1.paused { t1.lemma_host(g1, vw.g@); }
        assert(ready(d0.unwrap(), tw.t@, vw.g@));
    }

== fn schedule_callback | ghost | held
    requires 0 <= when.ns(), times(old(vw).g@),
        old(vw).g@.paused ==> old(tw).t@.sys(old(vw).g@) && old(tw).t@.timer_heap.room(old(tw).t@.asked(old(vw).g@).len()),
    ensures !old(vw).g@.paused ==> scheduled(*driver, old(vw).g@, final(vw).g@) && *final(tw) == *old(tw) // [C11]
            && due(*driver, final(vw).g@) == old(vw).g@.host + wait(when.ns()),
        old(vw).g@.paused ==> at_once(*driver, old(tw).t@, old(vw).g@, final(tw).t@, final(vw).g@), // [C11]
    decreases if old(vw).g@.paused { 2int } else { 0int },
-- entry
    let ghost g0 = vw.g@;
    let ghost t0 = tw.t@;
-- after `.fetch_add(`
    proof { if g0.paused { t0.lemma_host(g0, vw.g@); } }
-- exit
    proof {
        if g0.paused {
            assert forall|k: int| 0 <= k < g0.states implies #[trigger] turned(g0, vw.g@, k, g0.clock) by {
                assert(turned(Shared { count: g0.count.insert(driver.latest.id(), vw.g@.count[driver.latest.id()]), ..g0 }, vw.g@, k, g0.clock));
            }
        }
    }

== fn schedule_callback::cb | ghost | held
    requires old(tw).t@.sys(old(vw).g@), old(tw).t@.timer_heap.room(old(tw).t@.asked(old(vw).g@).len()), times(old(vw).g@),
        old(vw).g@.paused || number == old(vw).g@.count[driver.latest.id()] || ready(*driver, old(tw).t@, old(vw).g@),
    ensures ready(*driver, final(tw).t@, final(vw).g@), // [C11]
        had_turn(old(tw).t@, old(vw).g@, final(tw).t@, final(vw).g@), // [C06] [C11]
        final(vw).g@.armed == old(vw).g@.armed && final(vw).g@.count == old(vw).g@.count
            || !old(vw).g@.paused && calm(*driver, final(vw).g@), // [C11]
    decreases 1int,
-- entry
    let ghost g0 = vw.g@;
    let ghost t0 = tw.t@;
-- after `Timer::poll`
    let ghost g1 = vw.g@;
    let ghost t1 = *timer_lock;
-- after `.advance_to(`
    let ghost g2 = vw.g@;
    let ghost t2 = *timer_lock;
    proof { lemma_turn(t0, g0, t1, g1, t2, g2, Task { id: driver.latest.id() }, now);
        assert forall|k: int| 0 <= k < g0.states && #[trigger] pending(g2, k) implies pending(g0, k) && g0.at[k].unwrap().t() > g0.clock by {
            assert(turned(g0, g2, k, g0.clock));
            lemma_gen(g0.state[k]);
        }
    }
-- exits
    proof {
        let g = vw.g@;
        t2.lemma_host(g2, g);
        assert forall|k: int| pending(g, k) == #[trigger] pending(g2, k) by { }
        assert forall|k: int| #[trigger] pending(g, k) == pending(g2, k) by { }
        assert forall|k: int| 0 <= k < g0.states implies #[trigger] turned(g0, g, k, g0.clock) by { assert(turned(g0, g2, k, g0.clock)); }
    }

== fn DriverWaker::wake_by_ref | ghost | held
    requires times(old(vw).g@),
        old(vw).g@.paused ==> old(tw).t@.sys(old(vw).g@) && old(tw).t@.timer_heap.room(old(tw).t@.asked(old(vw).g@).len()),
    ensures !old(vw).g@.paused ==> scheduled(*arc_self.driver, old(vw).g@, final(vw).g@) && *final(tw) == *old(tw) // [C11]
            && due(*arc_self.driver, final(vw).g@) <= old(vw).g@.host,
        old(vw).g@.paused ==> at_once(*arc_self.driver, old(tw).t@, old(vw).g@, final(tw).t@, final(vw).g@), // [C11]

== lemmas
/// Time passes: on the clock, if it is not paused.
pub proof fn lemma_passes(d: Driver, t: Timer, g: Shared, dt: int)
    requires ready(d, t, g), 0 <= dt,
    ensures ready(d, t, Shared { host: g.host + dt, clock: if g.paused { g.clock } else { g.clock + dt }, ..g }), // [C11]
{
    let h = Shared { host: g.host + dt, clock: if g.paused { g.clock } else { g.clock + dt }, ..g };
    t.lemma_host(g, h);
    assert forall|k: int| 0 <= k < h.states && #[trigger] pending(h, k) implies pending(g, k) by { }
}

/// A sleep whose deadline has come: the callback scheduled last is due.
pub proof fn lemma_in_time(d: Driver, t: Timer, g: Shared, k: int)
    requires ready(d, t, g), 0 <= k < g.states, pending(g, k), g.at[k].unwrap().t() <= g.clock,
    ensures rung(d, g), // [C11]
{ }

/// The host calls a callback that is due, at any time after that.
fn called(c: Lifted_cb, vw: &mut World, tw: &mut Bay)
    requires ready(*c.driver, old(tw).t@, old(vw).g@), old(tw).t@.timer_heap.room(old(tw).t@.asked(old(vw).g@).len()),
        old(vw).g@.armed.contains_key((c.driver.latest.id(), c.number)),
        old(vw).g@.armed[(c.driver.latest.id(), c.number)] <= old(vw).g@.host,
    ensures ready(*c.driver, final(tw).t@, final(vw).g@), had_turn(old(tw).t@, old(vw).g@, final(tw).t@, final(vw).g@), // [C06] [C11]
        forall|k: int| 0 <= k < old(vw).g@.states && #[trigger] pending(final(vw).g@, k) ==> final(vw).g@.at[k].unwrap().t() > final(vw).g@.clock, // [C11]
        final(vw).g@.armed == old(vw).g@.armed.remove((c.driver.latest.id(), c.number)) || calm(*c.driver, final(vw).g@), // [C11]
{
    let ghost g0 = vw.g@;
    let ghost t0 = tw.t@;
    let ghost g1 = Shared { armed: g0.armed.remove((c.driver.latest.id(), c.number)), ..g0 };
    vw.g = Ghost(g1);
    proof {
        t0.lemma_host(g0, g1);
        assert forall|k: int| 0 <= k < g1.states && #[trigger] pending(g1, k) implies pending(g0, k) by { }
    }
    cb(c.driver, c.number, vw, tw);
    proof {
        let g = vw.g@;
        assert forall|k: int| 0 <= k < g0.states implies #[trigger] turned(g0, g, k, g0.clock) by { assert(turned(g1, g, k, g1.clock)); }
        assert forall|k: int| 0 <= k < g0.states && #[trigger] pending(g, k) implies g.at[k].unwrap().t() > g.clock by {
            assert(turned(g0, g, k, g0.clock));
            lemma_gen(g0.state[k]);
        }
    }
}

#[verifier::external_body]
fn whether(b: Ghost<bool>) -> (r: bool)
    ensures r == b@,
{ unimplemented!() }

spec fn heard_by(w: &Arc<DriverWaker>, t: Timer, g: Shared) -> bool { listens(*w.driver, t, g) }

/// What an AtomicWaker does when it is woken: it wakes the task that was registered, unless it has done so since.
fn delivered(w: &Arc<DriverWaker>, before: Ghost<Shared>, vw: &mut World, tw: &mut Bay)
    requires rung(*w.driver, before@) || listens(*w.driver, old(tw).t@, before@),
        old(tw).t@.sys(old(vw).g@), old(vw).g@.woken.contains(old(tw).t@.inner.waker.id()), times(old(vw).g@),
        old(vw).g@.host == before@.host, old(vw).g@.armed == before@.armed, old(vw).g@.count == before@.count,
        old(tw).t@.timer_heap.room(old(tw).t@.asked(old(vw).g@).len()),
    ensures ready(*w.driver, final(tw).t@, final(vw).g@), // [C11]
        *final(tw) == *old(tw) && final(vw).g@ == (Shared { armed: final(vw).g@.armed, count: final(vw).g@.count, ..old(vw).g@ })
            || old(vw).g@.paused && had_turn(old(tw).t@, old(vw).g@, final(tw).t@, final(vw).g@),
{
    let ghost g1 = vw.g@;
    let ghost t1 = tw.t@;
    let ghost b: bool = heard_by(w, tw.t@, before@);
    if whether(Ghost(b)) {
        DriverWaker::wake_by_ref(w, vw, tw);
        proof { if !g1.paused { t1.lemma_host(g1, vw.g@); } }
    }
}

/// A sleep is made.
fn sleeping(handle: TimerHandle, at: Instant, w: &Arc<DriverWaker>, vw: &mut World, tw: &mut Bay) -> (s: Sleep)
    requires ready(*w.driver, old(tw).t@, old(vw).g@), handle.inner.to() == old(tw).t@.inner,
        old(tw).t@.timer_heap.room(old(tw).t@.asked(old(vw).g@).len() + 1),
    ensures ready(*w.driver, final(tw).t@, final(vw).g@), s.state is Some, s.deadline == at, s.ok(final(vw).g@), // [C11]
        final(tw).t@.inner == old(tw).t@.inner, s.of(final(tw).t@, final(vw).g@),
        !old(vw).g@.paused ==> pending(final(vw).g@, s.state.unwrap().key()),
        s.elapsed(final(vw).g@) || pending(final(vw).g@, s.state.unwrap().key()),
        s.elapsed(final(vw).g@) ==> at.t() <= final(vw).g@.clock,
{
    let ghost g0 = vw.g@;
    let s = Sleep::new_handle(at, handle, vw);
    let ghost g1 = vw.g@;
    proof { tw.t@.timer_heap.lemma_room(tw.t@.asked(g0).len() + 1, tw.t@.asked(g1).len()); }
    delivered(w, Ghost(g0), vw, tw);
    proof { after_turn(g1, vw.g@, s.state.unwrap().key()); }
    s
}

/// The sleep after the driver was given the chance.
proof fn after_turn(g: Shared, h: Shared, k: int)
    requires h.state == g.state && h.at == g.at || turned(g, h, k, g.clock) && h.at == g.at, g.state[k] & 1 == 0, g.at[k] is Some,
    ensures h.state[k] & 1 == 0 || g.at[k].unwrap().t() <= g.clock, h.state[k] & 2 == g.state[k] & 2,
{
    lemma_gen(g.state[k]);
}

/// A sleep is armed again.
fn rearmed(s: &mut Sleep, at: Instant, w: &Arc<DriverWaker>, vw: &mut World, tw: &mut Bay)
    requires ready(*w.driver, old(tw).t@, old(vw).g@), old(s).ok(old(vw).g@), old(s).of(old(tw).t@, old(vw).g@),
        old(tw).t@.timer_heap.room(old(tw).t@.asked(old(vw).g@).len() + 1),
    ensures ready(*w.driver, final(tw).t@, final(vw).g@), final(s).state == old(s).state, final(s).deadline == at, final(s).ok(final(vw).g@), // [C11]
        final(tw).t@.inner == old(tw).t@.inner,
        !old(vw).g@.paused ==> pending(final(vw).g@, final(s).state.unwrap().key()),
        final(s).elapsed(final(vw).g@) || pending(final(vw).g@, final(s).state.unwrap().key()),
        final(s).elapsed(final(vw).g@) ==> at.t() <= final(vw).g@.clock,
{
    let ghost g0 = vw.g@;
    proof { assert(g0.state[s.state.unwrap().key()] & 2 == 0); }
    s.reset(at, vw);
    let ghost g1 = vw.g@;
    proof {
        tw.t@.timer_heap.lemma_room(tw.t@.asked(g0).len() + 1, tw.t@.asked(g1).len());
        lemma_bits(g1.state[s.state.unwrap().key()]);
    }
    delivered(w, Ghost(g0), vw, tw);
    proof { after_turn(g1, vw.g@, s.state.unwrap().key()); }
}

/// A sleep is polled.
fn polled_by(s: &mut Sleep, cx: &mut Context<'_>, w: &Arc<DriverWaker>, t: Ghost<Timer>, vw: &mut World) -> (r: Poll<()>)
    requires ready(*w.driver, t@, old(vw).g@), old(s).ok(old(vw).g@), old(s).of(t@, old(vw).g@),
    ensures ready(*w.driver, t@, final(vw).g@), r is Ready <==> old(s).elapsed(old(vw).g@), // [C11]
{
    let ghost g0 = vw.g@;
    proof { lemma_polls(g0.state[s.state.unwrap().key()]); assert(g0.state[s.state.unwrap().key()] & 2 == 0); }
    let r = s.poll(cx, vw);
    proof {
        let h = vw.g@;
        assert forall|k: int| 0 <= k < h.states implies #[trigger] t@.heard(h, k) by { assert(t@.heard(g0, k)); }
        assert forall|k: int| 0 <= k < h.states implies (#[trigger] h.state[k]) & 2 == 0 by { assert(g0.state[k] & 2 == 0); }
        assert forall|k: int| 0 <= k < h.states && #[trigger] pending(h, k) implies pending(g0, k) by { }
        assert(t@.sys(g0));
        assert(t@.inv(h));
        assert(h.fresh());
        assert(t@.asked(h) == t@.asked(g0));
        assert(t@.sys(h));
        assert(due(*w.driver, h) == due(*w.driver, g0));
        assert(h.clock == g0.clock);
        assert(h.woken.contains(t@.inner.waker.id()) == g0.woken.contains(t@.inner.waker.id()));
        assert(h.reg[t@.inner.waker.id()] == g0.reg[t@.inner.waker.id()]);
    }
    r
}

proof fn lemma_polls(w: usize)
    ensures w & 2 == 0 ==> w & 3 != 2,
{
    assert(w & 2 == 0 ==> w & 3 != 2) by (bit_vector);
}

proof fn lemma_bits(w: usize)
    ensures w & 3 == 0 ==> w & 1 == 0 && w & 2 == 0,
{
    assert(w & 3 == 0 ==> w & 1 == 0 && w & 2 == 0) by (bit_vector);
}

/// A sleep is dropped.
fn dropped(s: &mut Sleep, w: &Arc<DriverWaker>, vw: &mut World, tw: &mut Bay)
    requires ready(*w.driver, old(tw).t@, old(vw).g@), old(s).ok(old(vw).g@), old(s).of(old(tw).t@, old(vw).g@),
        old(tw).t@.timer_heap.room(old(tw).t@.asked(old(vw).g@).len() + 1),
    ensures ready(*w.driver, final(tw).t@, final(vw).g@), // [C11]
{
    let ghost g0 = vw.g@;
    s.drop(vw);
    proof { tw.t@.timer_heap.lemma_room(tw.t@.asked(g0).len() + 1, tw.t@.asked(vw.g@).len()); }
    delivered(w, Ghost(g0), vw, tw);
}

/// The test clock is paused, resumed or advanced, and the driver is woken then (C10).
fn controlled(paused: Ghost<bool>, by: Ghost<int>, w: &Arc<DriverWaker>, vw: &mut World, tw: &mut Bay)
    requires ready(*w.driver, old(tw).t@, old(vw).g@), tu(), 0 <= by@, by@ > 0 ==> old(vw).g@.paused && paused@,
        old(tw).t@.timer_heap.room(old(tw).t@.asked(old(vw).g@).len()),
    ensures ready(*w.driver, final(tw).t@, final(vw).g@), final(vw).g@.clock == old(vw).g@.clock + by@, final(vw).g@.paused == paused@, // [C10] [C11]
        final(tw).t@.inner == old(tw).t@.inner, final(vw).g@.at == old(vw).g@.at, final(vw).g@.states == old(vw).g@.states,
        // At once, or when the host makes the call that is due, the sleeps are completed whose deadlines have come.
        forall|k: int| 0 <= k < old(vw).g@.states && #[trigger] pending(final(vw).g@, k)
            && final(vw).g@.at[k].unwrap().t() <= final(vw).g@.clock ==> rung(*w.driver, final(vw).g@), // [C10]
        forall|k: int| 0 <= k < old(vw).g@.states && (#[trigger] final(vw).g@.state[k]) != old(vw).g@.state[k]
            ==> pending(old(vw).g@, k) && old(vw).g@.at[k].unwrap().t() <= final(vw).g@.clock, // [C10]
{
    let ghost g0 = vw.g@;
    let ghost t0 = tw.t@;
    let ghost g1 = Shared { paused: paused@, clock: g0.clock + by@, woken: g0.woken.insert(t0.inner.waker.id()), ..g0 };
    vw.g = Ghost(g1);
    proof {
        t0.lemma_host(g0, Shared { paused: paused@, clock: g0.clock + by@, ..g0 });
        assert forall|k: int| 0 <= k < g1.states implies #[trigger] t0.heard(g1, k) by { assert(t0.heard(g0, k)); }
        assert forall|k: int| 0 <= k < g1.states implies (#[trigger] g1.state[k]) & 2 == 0 by { assert(g0.state[k] & 2 == 0); }
    }
    delivered(w, Ghost(g0), vw, tw);
    proof {
        let h = vw.g@;
        assert forall|k: int| 0 <= k < g0.states && (#[trigger] h.state[k]) != g0.state[k] implies pending(g0, k) && g0.at[k].unwrap().t() <= h.clock by {
            if h.state != g1.state { assert(turned(g1, h, k, g1.clock)); }
        }
    }
}
