Contracts of src/tokio/interval.rs over those of the timer and its sleeps (unit timer).

== assume timer
== file src/tokio/interval.rs
== option awaited
== drop Interval::!
== rename src/tokio/interval.rs `Pin::new(&mut *self).sleep()` => `self.sleep` -- what unsafe_pinned makes
== rename src/tokio/interval.rs `Pin::new(&mut self.sleep)` => `self.sleep` -- a method of its own
== rename src/tokio/interval.rs `MissedTickBehavior::default()` => `some_behavior()` -- derived
== rename src/tokio/interval.rs `.try_into()` => `.as_u64()` -- a method of its own
== ghost .poll(
== ghost .poll_tick(
== ghost .reset(
== ghost Interval::new(
== ghost Interval::new_at(
== prelude
#[verifier::external_body]
pub fn some_behavior() -> (r: MissedTickBehavior)
{ unimplemented!() }

#[derive(Debug)]
pub struct TooMuch { }

/// u128 as u64, by TryInto.
pub trait Narrow: Sized {
    spec fn value(self) -> int;
    fn as_u64(self) -> (r: Result<u64, TooMuch>)
        ensures r is Ok <==> self.value() <= u64::MAX, r is Ok ==> r->Ok_0 == self.value();
}

impl Narrow for u128 {
    open spec fn value(self) -> int { self as int }
    fn as_u64(self) -> (r: Result<u64, TooMuch>)
    { if self <= 0xffff_ffff_ffff_ffff { Ok(self as u64) } else { Err(TooMuch { }) } }
}

/// More than 5 ms late.
pub open spec fn late(t: int, now: int) -> bool { now > t + 5_000_000 }

/// Whether `next` is when the tick after that at `t`, delivered at `now`, is to come.
pub open spec fn follows(b: MissedTickBehavior, t: int, now: int, p: int, next: int) -> bool {
    if !late(t, now) { next == t + p } else {
        match b {
            MissedTickBehavior::Burst => next == t + p,
            MissedTickBehavior::Delay => next == now + p,
            MissedTickBehavior::Skip => next > now && next <= now + p && (next - t) % p == 0,
        }
    }
}

/// The times that have to be represented.
pub open spec fn fits(b: MissedTickBehavior, t: int, now: int, p: int) -> bool {
    &&& t + 5_000_000 <= last_instant() && t + p <= last_instant()
    &&& late(t, now) && !(b is Burst) ==> now + p <= last_instant()
    &&& late(t, now) && b is Skip ==> p > 0 && (now - t) % p <= u64::MAX
}

proof fn lemma_skip(t: int, now: int, p: int)
    requires p > 0, now >= t,
    ensures 0 <= (now - t) % p < p, (now + p - (now - t) % p - t) % p == 0,
{
    let d = now - t;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d, p);
    vstd::arithmetic::div_mod::lemma_mod_bound(d, p);
    let q = d / p;
    assert(now + p - d % p - t == p * (q + 1)) by (nonlinear_arith)
        requires d == p * q + d % p, d == now - t;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q + 1, p);
    assert((q + 1) * p == p * (q + 1)) by (nonlinear_arith);
}

== item MissedTickBehavior
#[derive(Clone, Copy)]

== in Interval
    pub open spec fn same(self, o: Self) -> bool { self.interval == o.interval && self.missed_tick_behavior == o.missed_tick_behavior }

== fn Interval::new_at | ghost
    requires old(vw).g@.fresh(),
    ensures ret.sleep.deadline == at, ret.interval == dur, final(vw).g@.fresh(), ret.sleep.ok(final(vw).g@), !ret.sleep.elapsed(final(vw).g@), // [C08]
        ret.sleep.state is Some <==> old(vw).g@.alive.contains(the_driver().list.id()) && !old(vw).g@.sealed.contains(the_driver().list.id()),
        ret.sleep.state is Some ==> made(old(vw).g@, final(vw).g@, the_driver(), ret.sleep.state.unwrap(), at),

== fn Interval::new | ghost
    requires old(vw).g@.fresh(),
    ensures ret.sleep.deadline.t() == old(vw).g@.clock, ret.interval == dur, final(vw).g@.fresh(), ret.sleep.ok(final(vw).g@), // [C08]
        ret.sleep.state is Some <==> old(vw).g@.alive.contains(the_driver().list.id()) && !old(vw).g@.sealed.contains(the_driver().list.id()),
        ret.sleep.state is Some ==> made(old(vw).g@, final(vw).g@, the_driver(), ret.sleep.state.unwrap(), ret.sleep.deadline),

== fn Interval::poll_tick | ghost
    requires old(self).sleep.ok(old(vw).g@), old(self).sleep.state is Some, old(vw).g@.state[old(self).sleep.state.unwrap().key()] & 3 != 2,
        fits(old(self).missed_tick_behavior, old(self).sleep.deadline.t(), old(vw).g@.clock, old(self).interval.ns()), old(self).interval.ns() >= 0,
    ensures final(self).same(*old(self)), // [C08]
        ret is Ready <==> old(self).sleep.elapsed(old(vw).g@), // [C08]
        ret is Pending ==> *final(self) == *old(self)
            && final(vw).g@ == (Shared { reg: old(vw).g@.reg.insert(old(self).sleep.state.unwrap().key(), old(cx).task()), woken: old(vw).g@.woken.remove(old(self).sleep.state.unwrap().key()), ..old(vw).g@ }), // [C08]
        ret is Ready ==> ret->Ready_0 == old(self).sleep.deadline // [C08]
            && follows(old(self).missed_tick_behavior, old(self).sleep.deadline.t(), old(vw).g@.clock, old(self).interval.ns(), final(self).sleep.deadline.t())
            && final(self).sleep.ok(final(vw).g@),
        ret is Ready && old(self).sleep.open(old(vw).g@) ==> changed(old(vw).g@, final(vw).g@, old(self).sleep.state.unwrap(), Some(final(self).sleep.deadline)), // [C08]
        ret is Ready ==> forall|t: Timer| #[trigger] t.sys(old(vw).g@) && old(self).sleep.of(t, old(vw).g@) ==> t.sys(final(vw).g@) && final(self).sleep.state == old(self).sleep.state, // [C08]

== fn Interval::tick | ghost
    requires old(self).sleep.ok(old(vw).g@), old(self).sleep.state is Some, old(vw).g@.state[old(self).sleep.state.unwrap().key()] & 3 != 2,
        fits(old(self).missed_tick_behavior, old(self).sleep.deadline.t(), old(vw).g@.clock, old(self).interval.ns()), old(self).interval.ns() >= 0,
    ensures final(self).same(*old(self)), // [C08]
        ret is Ready <==> old(self).sleep.elapsed(old(vw).g@), // [C08]
        ret is Pending ==> *final(self) == *old(self)
            && final(vw).g@ == (Shared { reg: old(vw).g@.reg.insert(old(self).sleep.state.unwrap().key(), old(cx).task()), woken: old(vw).g@.woken.remove(old(self).sleep.state.unwrap().key()), ..old(vw).g@ }), // [C08]
        ret is Ready ==> ret->Ready_0 == old(self).sleep.deadline // [C08]
            && follows(old(self).missed_tick_behavior, old(self).sleep.deadline.t(), old(vw).g@.clock, old(self).interval.ns(), final(self).sleep.deadline.t())
            && final(self).sleep.ok(final(vw).g@),
        ret is Ready && old(self).sleep.open(old(vw).g@) ==> changed(old(vw).g@, final(vw).g@, old(self).sleep.state.unwrap(), Some(final(self).sleep.deadline)), // [C08]
        ret is Ready ==> forall|t: Timer| #[trigger] t.sys(old(vw).g@) && old(self).sleep.of(t, old(vw).g@) ==> t.sys(final(vw).g@) && final(self).sleep.state == old(self).sleep.state, // [C08]

== fn Interval::reset | ghost
    requires old(self).sleep.ok(old(vw).g@), old(vw).g@.clock + old(self).interval.ns() <= last_instant(),
    ensures final(self).same(*old(self)), final(self).sleep.deadline.t() == old(vw).g@.clock + old(self).interval.ns(), // [C08]
        final(self).sleep.ok(final(vw).g@), !old(self).sleep.gone(old(vw).g@) ==> !final(self).sleep.elapsed(final(vw).g@), // [C08]
        old(self).sleep.open(old(vw).g@) ==> changed(old(vw).g@, final(vw).g@, old(self).sleep.state.unwrap(), Some(final(self).sleep.deadline)), // [C08]
        forall|t: Timer| #[trigger] t.sys(old(vw).g@) && old(self).sleep.of(t, old(vw).g@) ==> t.sys(final(vw).g@) && final(self).sleep.state == old(self).sleep.state, // [C08]

== fn Interval::missed_tick_behavior
    ensures ret == self.missed_tick_behavior, // [C08]

== fn Interval::set_missed_tick_behavior
    ensures *final(self) == (Interval { missed_tick_behavior: behavior, ..*old(self) }), // [C08]

== fn Interval::period
    ensures ret == self.interval, // [C08]

== fn MissedTickBehavior::next_timeout
    requires late(timeout.t(), now.t()), now.t() >= 0, fits(*self, timeout.t(), now.t(), period.ns()), period.ns() >= 0,
    ensures follows(*self, timeout.t(), now.t(), period.ns(), ret.t()), // [C08]
-- entry
    proof { if *self is Skip { lemma_skip(timeout.t(), now.t(), period.ns()); } }

== fn interval | ghost
    requires old(vw).g@.fresh(),
    ensures ret.sleep.deadline.t() == old(vw).g@.clock, ret.interval == period, final(vw).g@.fresh(), ret.sleep.ok(final(vw).g@), // [C08]
        ret.sleep.state is Some <==> old(vw).g@.alive.contains(the_driver().list.id()) && !old(vw).g@.sealed.contains(the_driver().list.id()),
        ret.sleep.state is Some ==> made(old(vw).g@, final(vw).g@, the_driver(), ret.sleep.state.unwrap(), ret.sleep.deadline),

== fn interval_at | ghost
    requires old(vw).g@.fresh(),
    ensures ret.sleep.deadline == start, ret.interval == period, final(vw).g@.fresh(), ret.sleep.ok(final(vw).g@), // [C08]
        ret.sleep.state is Some <==> old(vw).g@.alive.contains(the_driver().list.id()) && !old(vw).g@.sealed.contains(the_driver().list.id()),
        ret.sleep.state is Some ==> made(old(vw).g@, final(vw).g@, the_driver(), ret.sleep.state.unwrap(), start),
