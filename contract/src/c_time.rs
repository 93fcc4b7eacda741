//! C08, C09 and C10: intervals, timeouts and the test clock, through the public interface.
use crate::nd::{Choices, Nd, Stop, R};
use crate::sim::*;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use wasmtimer::tokio::{interval, interval_at, timeout, timeout_at, MissedTickBehavior};

/// The next scheduled tick after one scheduled for `s` was delivered at `now`.
fn next_tick(b: MissedTickBehavior, s: u64, now: u64, period: u64) -> u64 {
    if now <= s + 5 * MS {
        return s + period;
    }
    match b {
        MissedTickBehavior::Burst => s + period,
        MissedTickBehavior::Delay => now + period,
        MissedTickBehavior::Skip => s + ((now - s) / period + 1) * period,
    }
}

fn start(nd: &mut Choices) -> World {
    let mut w = World::new();
    let k = nd.below(100_000);
    w.advance_host(k);
    if cfg!(feature = "tu") && nd.below(2) == 0 {
        w.pause();
        let ns = nd.below(3 * MS);
        w.advance_clock(ns);
    }
    w
}

const BEHAVIOURS: [MissedTickBehavior; 3] = [MissedTickBehavior::Burst, MissedTickBehavior::Delay, MissedTickBehavior::Skip];

pub fn c08(nd: &mut Choices) -> R {
    let mut w = start(nd);
    let task = Task::new();
    let period = match nd.below(6) {
        0 => 1 + nd.below(1000),
        1 => 1 + nd.below(10 * MS),
        2 => MS * (1 + nd.below(6)),
        _ => length(nd, 1 << 58).max(1),
    };
    let now = w.now();
    let (mut i, mut s) = if nd.bool() {
        (interval(Duration::from_nanos(period)), now)
    } else {
        let at = match nd.below(3) {
            0 => now.saturating_sub(length(nd, 1 << 50)),
            _ => now + length(nd, 1 << 50),
        };
        (interval_at(w.at(at), Duration::from_nanos(period)), at)
    };
    let mut b = i.missed_tick_behavior();
    check!(b == MissedTickBehavior::Burst, "a new interval has the behaviour {b:?}");
    nd.note(|| format!("at {now} ns: an interval of {period} ns, first tick at {s} ns"));
    let mut pending_since = None;
    for _ in 0..2 + nd.below(20) {
        let now = w.now();
        if now > 1 << 60 || s > 1 << 60 {
            return Ok(());
        }
        match nd.below(10) {
            0 => {
                b = BEHAVIOURS[nd.below(3) as usize];
                i.set_missed_tick_behavior(b);
                nd.note(|| format!("set behaviour {b:?}"));
            }
            1 => {
                i.reset();
                s = now + period;
                pending_since = None;
                nd.note(|| format!("at {now} ns: reset"));
            }
            2..=4 => {
                let ns = match nd.below(8) {
                    0 => length(nd, 1 << 50),
                    1 => nd.below(12) * MS / 2,
                    2 => s.saturating_sub(now) + nd.below(12) * MS,
                    3 => s.saturating_sub(now) + (5 * MS - 1) + nd.below(3),
                    4 => (s + period * nd.below(4)).saturating_sub(now) + nd.below(3),
                    5 => (s + period * nd.below(4)).saturating_sub(now).saturating_sub(nd.below(3)),
                    6 => (s + period * (1 + nd.below(3))).saturating_sub(now),
                    _ => s.saturating_sub(now),
                };
                nd.note(|| format!("{ns} ns pass"));
                w.pass(ns);
            }
            5 | 6 => w.settle(),
            _ => {
                let settled = nd.bool();
                if settled {
                    w.settle();
                    if let (Some(n), true) = (pending_since, w.now() >= s) {
                        check!(task.woken() > n, "the task was not woken for the tick of {s} ns");
                    }
                }
                let now = w.now();
                let before = task.woken();
                let out = if nd.bool() {
                    i.poll_tick(&mut Context::from_waker(&task.waker()))
                } else {
                    let mut f = std::pin::pin!(i.tick());
                    poll(f.as_mut(), &task)
                };
                pending_since = None;
                match out {
                    Poll::Pending => {
                        check!(!(settled && now >= s), "the tick of {s} ns is not delivered at {now} ns");
                        pending_since = Some(before);
                    }
                    Poll::Ready(t) => {
                        let t = w.ns(t);
                        nd.note(|| format!("at {now} ns: the tick of {t} ns"));
                        check!(t == s, "the tick delivered at {now} ns reports {t} ns, but was scheduled for {s} ns");
                        check!(now >= s, "the tick of {s} ns is delivered at {now} ns");
                        s = next_tick(b, s, now, period);
                        nd.reached();
                    }
                }
            }
        }
        check!(
            i.period() == Duration::from_nanos(period) && i.missed_tick_behavior() == b,
            "period and behaviour are {:?} and {:?}, not {period} ns and {b:?}",
            i.period(),
            i.missed_tick_behavior()
        );
    }
    Ok(())
}

/// The computation of the next tick, for all values for which the sums are representable.
#[cfg(vh_interval)]
pub fn next(nd: &mut Choices) -> R {
    const NS: u128 = 1_000_000_000;
    let split = |t: u128| Duration::new((t / NS) as u64, (t % NS) as u32);
    let zero = wasmtimer::std::Instant::now();
    fn pick(nd: &mut Choices) -> u128 {
        let s = match nd.below(3) {
            0 => nd.below(100),
            1 => nd.u64() >> 2,
            _ => 0,
        };
        (s as u128) * NS + (nd.u32() as u128) % NS
    }
    let s = pick(nd);
    let period = pick(nd).max(1);
    let late = match nd.below(4) {
        0 => 5_000_000 + nd.below(3) as u128,
        1 => period * (nd.below(1000) as u128) + nd.below(3) as u128,
        2 => (period * (nd.below(1000) as u128)).saturating_sub(nd.below(3) as u128),
        _ => pick(nd),
    };
    let now = s + late;
    let limit = (u64::MAX >> 1) as u128 * NS;
    if late <= 5_000_000 || now + period > limit {
        return Err(Stop::Skip);
    }
    let b = BEHAVIOURS[nd.below(3) as usize];
    if b == MissedTickBehavior::Skip && late % period > u64::MAX as u128 {
        // More than 584 years: documented to panic.
        return Err(Stop::Skip);
    }
    nd.note(|| format!("{b:?}: scheduled at {s} ns, now {now} ns, period {period} ns"));
    nd.reached();
    let got = caught(|| b.verif_next_timeout(zero + split(s), zero + split(now), split(period)));
    check!(got.is_ok(), "{b:?}: next_timeout({s}, {now}, {period}) panics: {}", got.as_ref().err().unwrap());
    let got = got.unwrap().duration_since(zero).as_nanos();
    let want = match b {
        MissedTickBehavior::Burst => s + period,
        MissedTickBehavior::Delay => now + period,
        MissedTickBehavior::Skip => s + (late / period + 1) * period,
    };
    check!(got == want, "{b:?}: next_timeout({s}, {now}, {period}) is {got}, not {want}");
    Ok(())
}

#[derive(Default)]
struct Script {
    polls: Cell<u32>,
    drops: Cell<u32>,
    /// The poll at which it is ready.
    ready: Cell<u32>,
    waker: RefCell<Option<Waker>>,
}

struct Inner {
    id: u64,
    script: Rc<Script>,
}

impl Drop for Inner {
    fn drop(&mut self) {
        self.script.drops.set(self.script.drops.get() + 1)
    }
}

impl Future for Inner {
    type Output = u64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        let s = &self.script;
        s.polls.set(s.polls.get() + 1);
        if s.polls.get() >= s.ready.get() {
            return Poll::Ready(self.id);
        }
        *s.waker.borrow_mut() = Some(cx.waker().clone());
        Poll::Pending
    }
}

pub fn c09(nd: &mut Choices) -> R {
    let mut w = start(nd);
    let tasks = [Task::new(), Task::new()];
    let script = Rc::new(Script::default());
    script.ready.set(1 + nd.below(6) as u32);
    let id = nd.u64();
    let inner = Inner { id, script: script.clone() };
    let now = w.now();
    let (mut f, deadline) = if nd.bool() {
        let d = length(nd, 1 << 55);
        (timeout(Duration::from_nanos(d), inner), now + d)
    } else {
        let at = match nd.below(3) {
            0 => now.saturating_sub(length(nd, 1 << 50)),
            _ => now + length(nd, 1 << 55),
        };
        (timeout_at(w.at(at), inner), at)
    };
    nd.note(|| format!("at {now} ns: a timeout at {deadline} ns, the future is ready at its poll {}", script.ready.get()));
    let mut pending: Option<(usize, usize)> = None;
    for _ in 0..1 + nd.below(12) {
        match nd.below(8) {
            0 => {
                let r = if nd.bool() { f.get_ref().id } else { f.get_mut().id };
                let r2 = Rc::ptr_eq(&f.get_ref().script, &script);
                check!(r == id && r2 && script.drops.get() == 0, "the future borrowed is another one");
            }
            1 => w.settle(),
            2 | 3 => {
                let now = w.now();
                let ns = match nd.below(4) {
                    0 => length(nd, 1 << 50),
                    1 => deadline.saturating_sub(now).saturating_sub(1 + nd.below(MS)),
                    2 => deadline.saturating_sub(now),
                    _ => deadline.saturating_sub(now) + nd.below(5 * MS),
                };
                if now + ns > 1 << 60 {
                    continue;
                }
                nd.note(|| format!("{ns} ns pass"));
                w.pass(ns);
            }
            _ => {
                let settled = nd.below(4) > 0;
                if settled {
                    w.settle();
                    if let (Some((t, n)), true) = (pending, w.now() >= deadline) {
                        check!(tasks[t].woken() > n, "the task was not woken at the deadline");
                    }
                }
                let t = nd.below(2) as usize;
                let (now, before, polls) = (w.now(), tasks[t].woken(), script.polls.get());
                let out = poll(Pin::new(&mut f), &tasks[t]);
                nd.note(|| format!("at {now} ns: poll by task {t} is {}", match &out {
                    Poll::Pending => "pending",
                    Poll::Ready(Ok(_)) => "the value",
                    Poll::Ready(Err(_)) => "elapsed",
                }));
                check!(script.polls.get() == polls + 1, "the future was polled {} times", script.polls.get() - polls);
                nd.reached();
                if script.polls.get() >= script.ready.get() {
                    match out {
                        Poll::Ready(Ok(v)) => check!(v == id, "the value is {v}, not {id}"),
                        Poll::Ready(Err(_)) => check!(false, "elapsed, although the future is ready"),
                        Poll::Pending => check!(false, "pending, although the future is ready"),
                    }
                    break;
                }
                match out {
                    Poll::Ready(Ok(_)) => check!(false, "a value, although the future is pending"),
                    Poll::Ready(Err(e)) => {
                        check!(now >= deadline, "elapsed at {now} ns, but the deadline is {deadline} ns");
                        check!(e.to_string() == "deadline has elapsed", "the error says {e}");
                        let io: std::io::Error = e.into();
                        check!(io.kind() == std::io::ErrorKind::TimedOut, "an I/O error of the kind {:?}", io.kind());
                        pending = None;
                    }
                    Poll::Pending => {
                        check!(!(settled && now >= deadline), "pending at {now} ns, but the deadline is {deadline} ns");
                        let waker = script.waker.borrow_mut().take();
                        check!(
                            waker.map_or(false, |x| x.will_wake(&tasks[t].waker())),
                            "the future was not polled with the waker of the task"
                        );
                        pending = Some((t, before));
                    }
                }
            }
        }
        check!(script.drops.get() == 0, "the future was dropped");
    }
    if nd.bool() {
        let inner = f.into_inner();
        check!(inner.id == id && Rc::ptr_eq(&inner.script, &script) && script.drops.get() == 0, "the future taken out is another one");
    } else {
        drop(f);
    }
    check!(script.drops.get() == 1, "the future was dropped {} times", script.drops.get());
    Ok(())
}

/// One clock to test: the global one through the public functions, or one of its own.
trait TheClock {
    fn pause(&mut self);
    fn resume(&mut self);
    fn advance(&mut self, ns: u64);
    fn now(&self) -> wasmtimer::std::Instant;
}

#[cfg(feature = "tu")]
struct Global;

#[cfg(feature = "tu")]
impl TheClock for Global {
    fn pause(&mut self) {
        wasmtimer::tokio::pause()
    }
    fn resume(&mut self) {
        wasmtimer::tokio::resume()
    }
    fn advance(&mut self, ns: u64) {
        let mut f = std::pin::pin!(wasmtimer::tokio::advance(Duration::from_nanos(ns)));
        assert!(poll(f.as_mut(), &Task::new()).is_ready(), "advance is pending");
    }
    fn now(&self) -> wasmtimer::std::Instant {
        wasmtimer::std::Instant::now()
    }
}

#[cfg(all(feature = "tu", vh_clock))]
impl TheClock for wasmtimer::verif::timer::clock::TestClock {
    fn pause(&mut self) {
        wasmtimer::verif::timer::clock::TestClock::pause(self)
    }
    fn resume(&mut self) {
        wasmtimer::verif::timer::clock::TestClock::resume(self)
    }
    fn advance(&mut self, ns: u64) {
        wasmtimer::verif::timer::clock::TestClock::advance(self, Duration::from_nanos(ns))
    }
    fn now(&self) -> wasmtimer::std::Instant {
        wasmtimer::verif::timer::clock::TestClock::now(self)
    }
}

#[cfg(feature = "tu")]
fn clock(nd: &mut Choices, c: &mut dyn TheClock, mut host: u64, zero: wasmtimer::std::Instant, mut paused: bool) -> R {
    let at = |c: &dyn TheClock| c.now().duration_since(zero).as_nanos();
    let mut want = at(c);
    for _ in 0..nd.below(30) {
        let got = at(c);
        check!(got == want, "the clock says {got} ns, not {want}");
        match nd.below(8) {
            0 => {
                nd.note(|| format!("pause at {want} ns"));
                let p = crate::panics(paused, || c.pause());
                check!(p == paused, "pausing while paused: {paused}; panics: {p}");
                if p {
                    return Ok(());
                }
                paused = true;
                nd.reached();
            }
            1 => {
                nd.note(|| format!("resume at {want} ns"));
                let p = crate::panics(!paused, || c.resume());
                check!(p != paused, "resuming while paused: {paused}; panics: {p}");
                if p {
                    return Ok(());
                }
                paused = false;
                nd.reached();
            }
            2 | 3 => {
                let ns = length(nd, 1 << 50);
                if !paused && nd.below(4) > 0 {
                    continue;
                }
                nd.note(|| format!("advance by {ns} ns at {want} ns"));
                let p = crate::panics(!paused, || c.advance(ns));
                check!(p != paused, "advancing while paused: {paused}; panics: {p}");
                if p {
                    return Ok(());
                }
                want += ns as u128;
            }
            _ => {
                let k = match nd.below(3) {
                    0 => nd.below(1 << 40),
                    _ => nd.below(100),
                };
                host += k;
                nd.note(|| format!("{} ns pass on the host", k * (MS / 8)));
                wasm_bindgen::host::set_now(host as f64 / 8.0);
                if !paused {
                    want += (k * (MS / 8)) as u128;
                }
            }
        }
    }
    let got = at(c);
    check!(got == want, "the clock says {got} ns, not {want}");
    Ok(())
}

#[cfg(feature = "tu")]
pub fn c10(nd: &mut Choices) -> R {
    let _ = World::new();
    let zero = wasmtimer::std::Instant::now();
    let bits = 1 + nd.below(40);
    let host = nd.below(1 << bits);
    wasm_bindgen::host::set_now(host as f64 / 8.0);
    #[cfg(vh_clock)]
    if nd.bool() {
        let paused = nd.bool();
        let mut c = wasmtimer::verif::timer::clock::TestClock::new(paused);
        let got = c.now().duration_since(zero).as_nanos();
        let want = (host * (MS / 8)) as u128;
        check!(got == want, "a new clock says {got} ns, not {want}");
        check!(c.paused() == paused, "a new clock, to start paused: {paused}, is not so");
        return clock(nd, &mut c, host, zero, paused);
    }
    clock(nd, &mut Global, host, zero, false)
}
#[cfg(not(feature = "tu"))]
pub fn c10(_: &mut Choices) -> R {
    let _: Option<&dyn TheClock> = None;
    Err(Stop::Skip)
}
