//! Contracts of single operations, from any state whatever: nothing here loops, and all of the state
//! is a choice. Kani decides them; the search samples them, and replays what Kani finds.
#![allow(dead_code)]
use crate::c_std::{NANOS, T};
use crate::nd::{Nd, R};
use crate::sim::Task;
use std::task::{Context, Poll};
use std::time::Duration;
use wasmtimer::std::Instant;

/// A precondition. Kani takes it for granted, without a path on which the contract ends early.
macro_rules! given {
    ($nd:expr, $cond:expr) => {{
        let cond = $cond;
        #[cfg(kani)]
        kani::assume(cond);
        #[cfg(not(kani))]
        $nd.assume(cond)?;
    }};
}

/// What another contract gives, which under Kani it always does.
macro_rules! get {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(e) => {
                #[cfg(kani)]
                {
                    std::mem::forget(e);
                    kani::assume(false);
                    unreachable!()
                }
                #[cfg(not(kani))]
                return Err(e);
            }
        }
    };
}

/// Any length of time.
pub fn any_t<N: Nd>(nd: &mut N) -> T {
    let (s, n) = (nd.u64(), nd.u32());
    #[cfg(kani)]
    kani::assume(n < NANOS);
    T { s, n: n % NANOS }
}

/// The origin of time.
pub fn zero() -> Instant {
    host::set(T { s: 0, n: 0 });
    #[cfg(all(feature = "tu", vh_clock))]
    return wasmtimer::verif::timer::clock::TestClock::new(false).now();
    #[cfg(not(all(feature = "tu", vh_clock)))]
    Instant::now()
}

/// What the host's clock says. Kani decides the contracts for whatever it says, with this in the place
/// of the function that reads it; elsewhere it is set to times that it can tell exactly.
pub mod host {
    use super::*;

    #[cfg(kani)]
    static mut NOW: Option<Instant> = None;

    #[cfg(kani)]
    pub fn now_js() -> Instant {
        unsafe { NOW.unwrap() }
    }
    #[cfg(kani)]
    pub fn any<N: Nd>(nd: &mut N) -> T {
        any_t(nd)
    }
    #[cfg(kani)]
    pub fn set(t: T) {
        unsafe { NOW = Some(std::mem::transmute::<Duration, Instant>(t.dur())) }
    }
    #[cfg(not(kani))]
    pub fn any<N: Nd>(nd: &mut N) -> T {
        let bits = nd.below(46);
        let k = nd.below(1 << bits);
        T { s: k / 8000, n: (k % 8000) as u32 * 125_000 }
    }
    #[cfg(not(kani))]
    pub fn set(t: T) {
        wasm_bindgen::host::set_now((t.s * 8000 + (t.n / 125_000) as u64) as f64 / 8.0)
    }
}

/// Lets go of something whose end is not what the contract is about.
fn leave<X>(x: X) {
    #[cfg(kani)]
    std::mem::forget(x);
    #[cfg(not(kani))]
    drop(x);
}

/// Runs a contract by which the code must panic.
pub fn must_panic(nd: &mut crate::nd::Choices, f: impl FnOnce(&mut crate::nd::Choices) -> R) -> R {
    let mut out = Err(crate::nd::Stop::Skip);
    if crate::panics(true, || out = f(nd)) {
        return Ok(());
    }
    match out {
        Ok(_) => Err(crate::nd::Stop::Violation("returns where it must panic".into())),
        Err(e) => Err(e),
    }
}

fn instant<N: Nd>(nd: &mut N) -> (T, Instant) {
    let t = any_t(nd);
    (t, at(t))
}

/// The moment at `t`.
fn at(t: T) -> Instant {
    #[cfg(kani)]
    return unsafe { std::mem::transmute::<Duration, Instant>(t.dur()) };
    #[cfg(not(kani))]
    return zero() + t.dur();
}

/// C12: rounding to milliseconds.
#[cfg(vh_ms)]
pub fn ms<N: Nd>(nd: &mut N) -> R {
    let (d, up) = (any_t(nd), nd.bool());
    nd.note(|| format!("{d:?} rounded {}", if up { "up" } else { "down" }));
    nd.reached();
    let got = wasmtimer::verif::tokio_util::ms(d.dur(), up);
    let part = if up { (d.n + 999_999) / 1_000_000 } else { d.n / 1_000_000 };
    let exact = d.s as u128 * 1000 + part as u128;
    let want = if exact > u64::MAX as u128 { u64::MAX } else { exact as u64 };
    check!(got == want, "ms({d:?}, up: {up}) is {got}, not {want}");
    Ok(())
}

/// C10: the test clock, from any state of it.
#[cfg(all(feature = "tu", vh_clockst))]
pub mod clock {
    use super::*;
    use wasmtimer::verif::timer::clock::TestClock;

    pub struct S {
        pub c: TestClock,
        pub paused: bool,
        /// The host's time now.
        pub h: T,
        /// What the clock says.
        pub now: T,
        pub base: T,
        pub z: Instant,
    }

    /// Any clock: the time it was last set to, and, if it runs, the host's time at that moment.
    pub fn any<N: Nd>(nd: &mut N, paused: bool) -> R<S> {
        let base = any_t(nd);
        let (tu, th) = (host::any(nd), host::any(nd));
        // The host's clock does not run backwards.
        given!(nd, tu <= th);
        let z = zero();
        host::set(th);
        let c = TestClock::of(z + base.dur(), if paused { None } else { Some(z + tu.dur()) });
        let now = if paused { Some(base) } else { base.add(th.sub(tu).unwrap()) };
        given!(nd, now.is_some());
        let now = now.unwrap();
        nd.note(|| format!("a clock that says {now:?}, paused: {paused}; the host says {th:?}"));
        Ok(S { c, paused, h: th, now, base, z })
    }

    /// Lets the host's clock move on, and says by how much.
    fn later<N: Nd>(nd: &mut N, h: T) -> R<T> {
        let t = host::any(nd);
        given!(nd, h <= t);
        host::set(t);
        Ok(t.sub(h).unwrap())
    }

    fn says(c: &TestClock, z: Instant) -> T {
        T::of(c.now().duration_since(z))
    }

    pub fn read<N: Nd>(nd: &mut N, paused: bool) -> R {
        let s = get!(any(nd, paused));
        let got = says(&s.c, s.z);
        check!(got == s.now, "the clock says {got:?}, not {:?}", s.now);
        check!(s.c.paused() == s.paused, "the clock is not paused: {}", s.paused);
        nd.reached();
        Ok(())
    }

    /// Pausing, resuming or advancing: what the clock says then, and from then on.
    pub fn op<N: Nd>(nd: &mut N, op: u64) -> R {
        let s = get!(any(nd, op != 0));
        let d = if op == 2 { any_t(nd) } else { T { s: 0, n: 0 } };
        let want = s.now.add(d);
        given!(nd, want.is_some());
        let want = want.unwrap();
        nd.note(|| format!("{} {d:?}", ["pause", "resume", "advance"][op as usize]));
        match op {
            0 => s.c.pause(),
            1 => s.c.resume(),
            _ => s.c.advance(d.dur()),
        }
        let paused = op != 1;
        check!(s.c.paused() == paused, "the clock is not paused: {paused}");
        let got = says(&s.c, s.z);
        check!(got == want, "the clock says {got:?}, not {want:?}");
        nd.reached();
        let by = get!(later(nd, s.h));
        let want = if paused { Some(want) } else { want.add(by) };
        if let Some(want) = want {
            let got = says(&s.c, s.z);
            check!(got == want, "{by:?} later the clock says {got:?}, not {want:?}");
        }
        Ok(())
    }

    /// The same where they must panic.
    pub fn misuse<N: Nd>(nd: &mut N, op: u64) -> R {
        let s = get!(any(nd, op == 0));
        let d = if op == 2 { any_t(nd) } else { T { s: 0, n: 0 } };
        nd.note(|| format!("{} {d:?}", ["pause", "resume", "advance"][op as usize]));
        nd.reached();
        match op {
            0 => s.c.pause(),
            1 => s.c.resume(),
            _ => s.c.advance(d.dur()),
        }
        Ok(())
    }
}

/// C07, C08 and C09: sleeps in any state, and what is made of them.
#[cfg(all(vh_parts, vh_arcst))]
pub mod parts {
    use super::*;
    use futures::task::AtomicWaker;
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    use std::sync::{Arc, Mutex, Weak};
    use std::task::{RawWaker, RawWakerVTable, Waker};
    use wasmtimer::tokio::{Interval, MissedTickBehavior, Sleep, Timeout};
    use wasmtimer::verif::timer::{ArcList, Inner, Node, ScheduledTimer, Timer, TimerHandle};

    pub type Rec = Arc<Node<ScheduledTimer>>;

    /// A task that counts how often it is woken.
    #[derive(Clone, Copy)]
    pub struct Task(&'static AtomicUsize);

    static TASK: RawWakerVTable = RawWakerVTable::new(
        |p| RawWaker::new(p, &TASK),
        |p| wake(p),
        |p| wake(p),
        |_| {},
    );

    fn wake(p: *const ()) {
        unsafe { &*(p as *const AtomicUsize) }.fetch_add(1, SeqCst);
    }

    impl Task {
        pub fn new() -> Task {
            Task(Box::leak(Box::new(AtomicUsize::new(0))))
        }
        pub fn waker(&self) -> Waker {
            unsafe { Waker::from_raw(RawWaker::new(self.0 as *const AtomicUsize as *const (), &TASK)) }
        }
        pub fn woken(&self) -> usize {
            self.0.load(SeqCst)
        }
    }

    /// How things are linked: a case of its own each.
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum Shape {
        /// The driver is there.
        Open,
        /// The driver is there, and the sleep is queued for it.
        Queued,
        /// The driver is there but takes nothing any more.
        Closed,
        /// The driver has gone.
        Gone,
    }
    use Shape::*;

    /// The driver of a sleep, as far as a sleep knows it.
    pub struct Driver {
        pub inner: Option<Arc<Inner>>,
        pub weak: Weak<Inner>,
        pub task: Task,
        pub shape: Shape,
    }

    impl Driver {
        pub fn any<N: Nd>(nd: &mut N, shape: Shape) -> Driver {
            let task = Task::new();
            nd.note(|| format!("the driver and the sleep: {shape:?}"));
            let inner = Arc::new(Inner {
                list: ArcList::verif_of(if shape == Closed { Node::verif_sealed() } else { std::ptr::null_mut() }),
                waker: AtomicWaker::new(),
            });
            let weak = Arc::downgrade(&inner);
            if shape == Gone {
                return Driver { inner: None, weak, task, shape };
            }
            #[cfg(not(kani))]
            inner.waker.register(&task.waker());
            Driver { inner: Some(inner), weak, task, shape }
        }
        pub fn open(&self) -> bool {
            self.shape == Open || self.shape == Queued
        }
        /// Whether the record is the last one queued for it.
        pub fn queued(&self, r: &Rec) -> bool {
            self.inner.as_ref().is_some_and(|i| i.list.verif_head() as *const _ == Arc::as_ptr(r))
        }
        /// How often it was woken.
        pub fn woken(&self) -> usize {
            #[cfg(kani)]
            return stubs::woken(&self.inner.as_ref().unwrap().waker);
            #[cfg(not(kani))]
            self.task.woken()
        }
    }

    /// What Kani uses in the place of functions that have contracts of their own.
    #[cfg(kani)]
    pub mod stubs {
        use super::*;

        /// `ArcList::push`, as its contract (C05) describes it.
        pub fn push<T>(l: &ArcList<T>, r: &Arc<Node<T>>) -> Result<(), ()> {
            let (next, queued) = r.verif_get();
            if queued {
                return Ok(());
            }
            if l.verif_head() == Node::verif_sealed() {
                r.verif_set(next, kani::any());
                return Err(());
            }
            r.verif_set(l.verif_head(), true);
            std::mem::forget(r.clone());
            l.verif_put(Arc::as_ptr(r) as *mut _);
            Ok(())
        }

        /// `Mutex::lock`, where nothing else runs: the lock is free, or this is a deadlock.
        pub fn lock<T: ?Sized>(m: &Mutex<T>) -> std::sync::LockResult<std::sync::MutexGuard<'_, T>> {
            match m.try_lock() {
                Ok(g) => Ok(g),
                Err(e) => {
                    std::mem::forget(e);
                    panic!("deadlock, or a poisoned lock")
                }
            }
        }

        /// `Sleep::reset` with a driver that takes the sleep, as its contract (C07) describes it, but for how
        /// the driver is told of it.
        pub fn reset(s: Pin<&mut Sleep>, deadline: Instant) {
            let s = s.get_mut();
            let r = s.verif_state().unwrap();
            let bits = r.state.load(SeqCst);
            assert!(bits & 0b10 == 0, "the sleep is not cut off");
            r.state.store(bits.wrapping_add(0b100) & !0b11, SeqCst);
            *r.at.lock().unwrap() = Some(deadline);
            s.verif_set_deadline(deadline);
        }

        static mut REGISTERED: Option<(*const AtomicWaker, *const ())> = None;

        /// `AtomicWaker::register`: noted, the last one only.
        pub fn register(w: &AtomicWaker, waker: &Waker) {
            unsafe { REGISTERED = Some((w, waker.data())) }
        }
        pub fn registered(w: &AtomicWaker, task: *const ()) -> bool {
            unsafe { REGISTERED.is_some_and(|r| r.0 == w as *const _ && r.1 == task) }
        }

        static mut WOKEN: (*const AtomicWaker, usize) = (std::ptr::null(), 0);

        /// `AtomicWaker::wake`, of one waker only: counted.
        pub fn wake(w: &AtomicWaker) {
            unsafe {
                assert!(WOKEN.1 == 0 || WOKEN.0 == w as *const _, "another waker is woken");
                WOKEN = (w, WOKEN.1 + 1);
            }
        }
        pub fn woken(w: &AtomicWaker) -> usize {
            unsafe {
                if WOKEN.1 > 0 && WOKEN.0 == w as *const _ {
                    WOKEN.1
                } else {
                    0
                }
            }
        }
    }

    /// Whether the sleep will wake the task (which was not woken so far).
    fn wakes(r: &Rec, task: &Task) -> bool {
        #[cfg(kani)]
        return stubs::registered(&r.waker, task.0 as *const AtomicUsize as *const ());
        #[cfg(not(kani))]
        {
            r.waker.wake();
            task.woken() == 1
        }
    }

    pub fn rec<N: Nd>(nd: &mut N, d: &Driver, bits: usize) -> Rec {
        let at = if nd.bool() { Some(instant(nd).1) } else { None };
        let r = Arc::new(Node::new(ScheduledTimer {
            at: Mutex::new(at),
            state: AtomicUsize::new(bits),
            waker: AtomicWaker::new(),
            inner: d.weak.clone(),
            slot: Mutex::new(None),
        }));
        if d.shape == Queued {
            r.verif_set(std::ptr::null_mut(), true);
            std::mem::forget(r.clone());
            d.inner.as_ref().unwrap().list.verif_put(Arc::as_ptr(&r) as *mut _);
        }
        r
    }

    /// A sleep in any state.
    pub fn any<N: Nd>(nd: &mut N, shape: Shape) -> (Driver, Rec, usize, Sleep, T) {
        let d = Driver::any(nd, shape);
        let bits = nd.usize();
        let r = rec(nd, &d, bits);
        let (t, at) = instant(nd);
        nd.note(|| format!("a sleep until {t:?}, state {bits:#b}"));
        let s = Sleep::verif_of(Some(r.clone()), at);
        (d, r, bits, s, t)
    }

    pub fn since(i: Instant) -> T {
        T::of(i.duration_since(zero()))
    }

    /// C07: making a sleep.
    pub fn make<N: Nd>(nd: &mut N, shape: Shape) -> R {
        let d = Driver::any(nd, shape);
        let (t, at) = instant(nd);
        let s = Sleep::verif_new_handle(at, TimerHandle { inner: d.weak.clone() });
        check!(s.deadline() == at, "the deadline is {:?}, not {t:?}", since(s.deadline()));
        check!(!s.is_elapsed(), "a new sleep is complete");
        match s.verif_state() {
            None => {
                check!(!d.open(), "a new sleep is not known to its driver");
                nd.reached();
            }
            Some(r) => {
                check!(d.open(), "a new sleep waits for a driver that has gone");
                nd.reached();
                check!(r.state.load(SeqCst) & 0b11 == 0, "a new sleep is complete or invalid");
                check!(*r.at.lock().unwrap() == Some(at), "another deadline is recorded");
                check!(d.queued(r), "a new sleep is not queued");
                check!(d.woken() >= 1, "the driver was woken {} times", d.woken());
            }
        }
        leave((s, d));
        Ok(())
    }

    /// C07: re-arming a sleep.
    pub fn reset<N: Nd>(nd: &mut N, shape: Shape) -> R {
        let (d, r, bits, mut s, _) = any(nd, shape);
        let refs = Arc::strong_count(&r);
        let was_queued = refs > 2;
        let (t, at) = instant(nd);
        nd.note(|| format!("re-armed for {t:?}"));
        Pin::new(&mut s).reset(at);
        check!(s.deadline() == at, "the deadline is {:?}, not {t:?}", since(s.deadline()));
        let now = r.state.load(SeqCst);
        if d.open() && bits & 0b10 == 0 {
            nd.reached();
            check!(s.verif_state().is_some_and(|x| Arc::ptr_eq(x, &r)), "the sleep is cut off");
            check!(!s.is_elapsed() && now & 0b11 == 0, "the sleep re-armed is complete: {now:#b}");
            check!(now >> 2 == (bits >> 2).wrapping_add(1) & (usize::MAX >> 2), "the generation {} follows {}", now >> 2, bits >> 2);
            check!(*r.at.lock().unwrap() == Some(at), "another deadline is recorded");
            check!(Arc::strong_count(&r) == refs + !was_queued as usize, "references to the record: {}", Arc::strong_count(&r));
            check!(d.queued(&r), "the sleep re-armed is not queued");
            check!(d.woken() >= 1, "the driver was woken {} times", d.woken());
        } else {
            nd.reached();
            check!(d.inner.is_none() || s.verif_state().is_none(), "a sleep the driver refuses waits for it");
            check!(d.inner.is_none() || !s.is_elapsed(), "a sleep re-armed is complete");
            check!(bits & 0b10 == 0 || now == bits, "the state of an invalid sleep changes");
        }
        leave((s, d, r));
        Ok(())
    }

    /// C07: polling a sleep that need not panic.
    pub fn poll<N: Nd>(nd: &mut N, shape: Shape) -> R {
        let (d, r, bits, mut s, t) = any(nd, shape);
        given!(nd, bits & 0b11 != 0b10);
        let (old, new) = (Task::new(), Task::new());
        r.waker.register(&old.waker());
        check!(s.is_elapsed() == (bits & 1 != 0), "is_elapsed is {} in state {bits:#b}", s.is_elapsed());
        let w = new.waker();
        let out = Pin::new(&mut s).poll(&mut Context::from_waker(&w));
        check!(out.is_ready() == (bits & 1 != 0), "poll is {out:?} in state {bits:#b}");
        check!(s.is_elapsed() == (bits & 1 != 0), "poll changes is_elapsed");
        check!(s.deadline() == super::at(t), "poll changes the deadline");
        check!(r.state.load(SeqCst) == bits, "poll changes the state");
        if out.is_pending() {
            nd.reached();
            r.waker.wake();
            check!(new.woken() == 1 && old.woken() == 0, "the task that polled last is not the one to be woken");
        }
        leave((s, d, r, w));
        Ok(())
    }

    /// C07: polling a sleep whose driver has gone without completing it.
    pub fn poll_gone<N: Nd>(nd: &mut N, shape: Shape) -> R {
        let (_d, _r, bits, s, _) = any(nd, shape);
        let cut = nd.bool();
        given!(nd, cut || bits & 0b11 == 0b10);
        let mut s = if cut {
            let at = s.deadline();
            std::mem::forget(s);
            Sleep::verif_of(None, at)
        } else {
            s
        };
        nd.reached();
        let w = Task::new().waker();
        let _ = Pin::new(&mut s).poll(&mut Context::from_waker(&w));
        leave((s, _d, _r));
        Ok(())
    }

    /// C07 and C05: dropping a sleep.
    pub fn drop_it<N: Nd>(nd: &mut N, shape: Shape) -> R {
        let (d, r, bits, s, _) = any(nd, shape);
        let refs = Arc::strong_count(&r);
        let was_queued = refs > 2;
        let at = *r.at.lock().unwrap();
        drop(s);
        check!(r.state.load(SeqCst) == bits, "dropping a sleep changes its state");
        let now = Arc::strong_count(&r);
        if d.open() {
            nd.reached();
            check!(r.at.lock().unwrap().is_none(), "a dropped sleep keeps its deadline on record");
            check!(now == refs - was_queued as usize, "references to the record: {now}");
            check!(d.queued(&r), "the sleep dropped is not queued");
            check!(d.woken() >= 1, "the driver was woken {} times", d.woken());
        } else {
            nd.reached();
            check!(now == refs - 1, "references to the record: {now}");
            check!(d.inner.is_some() || *r.at.lock().unwrap() == at, "the record of a gone driver changes");
        }
        leave((d, r));
        Ok(())
    }

    /// An inner future: what it does is a choice.
    pub struct Fut {
        ready: bool,
        value: u64,
        id: u64,
        polls: u32,
        waker: Option<Seen>,
    }

    /// A waker that a future was polled with.
    #[cfg(kani)]
    type Seen = *const ();
    #[cfg(not(kani))]
    type Seen = Waker;

    fn seen(w: &Waker) -> Seen {
        #[cfg(kani)]
        return w.data();
        #[cfg(not(kani))]
        w.clone()
    }

    impl Future for Fut {
        type Output = u64;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
            self.polls += 1;
            self.waker = Some(seen(cx.waker()));
            if self.ready {
                Poll::Ready(self.value)
            } else {
                Poll::Pending
            }
        }
    }

    /// C09: polling a timeout in any state.
    pub fn timeout<N: Nd>(nd: &mut N, shape: Shape) -> R {
        let (_d, r, bits, s, t) = any(nd, shape);
        let inner = Fut { ready: nd.bool(), value: nd.u64(), id: nd.u64(), polls: 0, waker: None };
        let (ready, value, id) = (inner.ready, inner.value, inner.id);
        nd.note(|| format!("the future is ready: {ready}"));
        // A sleep whose driver has gone panics, unless the future is ready.
        given!(nd, ready || bits & 0b11 != 0b10);
        let mut f = Timeout::verif_of(s, inner);
        let task = Task::new();
        let w = task.waker();
        let out = Pin::new(&mut f).poll(&mut Context::from_waker(&w));
        nd.reached();
        if ready {
            check!(matches!(out, Poll::Ready(Ok(v)) if v == value), "the value is not returned");
        } else if bits & 1 != 0 {
            check!(matches!(out, Poll::Ready(Err(_))), "not elapsed, although the deadline was reached");
        } else {
            check!(out.is_pending(), "not pending, although the deadline was not reached");
            check!(wakes(&r, &task), "the task is not registered with the deadline");
            #[cfg(kani)]
            let seen = f.get_ref().waker == Some(task.0 as *const AtomicUsize as *const ());
            #[cfg(not(kani))]
            let seen = {
                let before = task.woken();
                f.get_ref().waker.as_ref().unwrap().wake_by_ref();
                task.woken() == before + 1
            };
            check!(seen, "the task is not registered with the future");
        }
        check!(f.get_ref().polls == 1, "the future was polled {} times", f.get_ref().polls);
        check!(f.get_ref().id == id, "the future borrowed is another one");
        check!(f.get_mut().id == id, "the future borrowed is another one");
        check!(f.verif_delay().deadline() == super::at(t), "polling changes the deadline");
        check!(r.state.load(SeqCst) == bits, "polling changes the state of the sleep");
        let inner = f.into_inner();
        check!(inner.id == id && inner.polls == 1, "the future taken out is another one");
        leave((inner, _d, r, w));
        Ok(())
    }

    pub fn behaviour<N: Nd>(nd: &mut N) -> MissedTickBehavior {
        match nd.below(3) {
            0 => MissedTickBehavior::Burst,
            1 => MissedTickBehavior::Delay,
            _ => MissedTickBehavior::Skip,
        }
    }

    /// C08: polling an interval in any state, at any time. What follows a late tick is left to the contract
    /// of `next_timeout`, which is decided by itself.
    pub fn tick<N: Nd>(nd: &mut N, shape: Shape, next: fn(MissedTickBehavior, Instant, Instant, Duration) -> Option<Instant>) -> R {
        let (d, r, bits, s, t) = any(nd, shape);
        given!(nd, bits & 0b10 == 0);
        let period = any_t(nd);
        let b = behaviour(nd);
        given!(nd, period != T { s: 0, n: 0 });
        let now = host::any(nd);
        let (zt, zn) = (super::at(t), super::at(now));
        host::set(now);
        let slack = t.add(T { s: 0, n: 5_000_000 });
        // A tick at the end of time is not specified.
        given!(nd, slack.is_some());
        let late = now > slack.unwrap();
        given!(nd, t.add(period).is_some());
        given!(nd, !late || now.add(period).is_some());
        // Periods of more than 584 years are documented to panic.
        given!(nd, cfg!(kani) || !late || b != MissedTickBehavior::Skip || period.s < 1 << 33);
        nd.note(|| format!("at {now:?}: the tick of {t:?}, period {period:?}, {b:?}, late: {late}"));
        let mut i = Interval::verif_of(s, period.dur(), b);
        let task = Task::new();
        let w = task.waker();
        let out = i.poll_tick(&mut Context::from_waker(&w));
        check!(i.period() == period.dur(), "the period changed");
        check!(i.missed_tick_behavior() == b, "the behaviour changed");
        let then = i.verif_sleep().deadline();
        match out {
            Poll::Pending => {
                check!(bits & 1 == 0, "pending, although the tick is due");
                check!(then == zt, "the tick was put off");
                check!(wakes(&r, &task), "the task is not registered");
            }
            Poll::Ready(at) => {
                nd.reached();
                check!(bits & 1 != 0, "a tick before its time");
                check!(at == zt, "the tick reports {:?}, not {t:?}", since(at));
                if !late {
                    let want = t.add(period).unwrap();
                    check!(then == super::at(want), "the next tick is at {:?}, not {want:?}", since(then));
                } else if let Some(want) = next(b, zt, zn, period.dur()) {
                    check!(then == want, "the next tick is at {:?}, not {:?}", since(then), since(want));
                }
                check!(!i.verif_sleep().is_elapsed(), "the next tick is due at once");
                check!(i.verif_sleep().verif_state().is_some(), "the next tick is lost");
                check!(*r.at.lock().unwrap() == Some(then), "another tick is recorded");
            }
        }
        leave((i, d, r, w));
        Ok(())
    }

    /// C08: resetting an interval.
    pub fn reset_interval<N: Nd>(nd: &mut N, shape: Shape) -> R {
        let (d, r, bits, s, _) = any(nd, shape);
        given!(nd, bits & 0b10 == 0);
        let period = any_t(nd);
        let b = behaviour(nd);
        let set = behaviour(nd);
        let now = host::any(nd);
        let want = now.add(period);
        given!(nd, want.is_some());
        let want = want.unwrap();
        let mut i = Interval::verif_of(s, period.dur(), b);
        host::set(now);
        i.reset();
        nd.reached();
        let then = i.verif_sleep().deadline();
        check!(then == super::at(want), "the next tick is at {:?}, not {want:?}", since(then));
        check!(i.period() == period.dur() && i.missed_tick_behavior() == b, "the period or the behaviour changed");
        check!(!i.verif_sleep().is_elapsed(), "the next tick is due at once");
        check!(*r.at.lock().unwrap() == Some(then), "another tick is recorded");
        i.set_missed_tick_behavior(set);
        check!(i.period() == period.dur() && i.missed_tick_behavior() == set, "the behaviour is not the one set");
        check!(i.verif_sleep().deadline() == then, "setting the behaviour changes the next tick");
        leave((i, d, r));
        Ok(())
    }
    #[allow(unused)]
    fn unused(_: Timer) {}
}

/// C05: the list of records that changed. The list is a chain of records that is not looked into beyond its
/// first one; that one, and the record at hand, are in any state that a list can be in.
#[cfg(vh_arcst)]
pub mod arc {
    use super::*;
    use std::sync::Arc;
    use wasmtimer::verif::timer::{ArcList, Node};

    type P = *mut Node<u64>;

    fn raw(a: &Arc<Node<u64>>) -> P {
        Arc::as_ptr(a) as P
    }

    struct S {
        /// The record at hand, and whether it is in some list.
        own: Arc<Node<u64>>,
        next: P,
        queued: bool,
        /// Another record, at the head of the list or not.
        other: Arc<Node<u64>>,
        other_next: P,
        head: P,
        id: (u64, u64),
    }

    fn any<N: Nd>(nd: &mut N) -> S {
        let id = (nd.u64(), nd.u64());
        let (own, other) = (Arc::new(Node::new(id.0)), Arc::new(Node::new(id.1)));
        let far: P = 0x5550 as P;
        let next = [std::ptr::null_mut(), far, raw(&other)][nd.below(3) as usize];
        let other_next = [std::ptr::null_mut(), far][nd.below(2) as usize];
        let queued = nd.bool();
        own.verif_set(next, queued);
        let k = nd.below(4);
        let head = [std::ptr::null_mut(), Node::verif_sealed(), far, raw(&other)][k as usize];
        other.verif_set(other_next, k == 3);
        nd.note(|| format!("the list {}; the record is queued: {queued}", ["is empty", "is sealed", "holds others", "starts with another"][k as usize]));
        S { own, next, queued, other, other_next, head, id }
    }

    macro_rules! frame {
        ($s:ident) => {
            check!($s.other.verif_get() == ($s.other_next, $s.head == raw(&$s.other)), "another record changes");
            check!(Arc::strong_count(&$s.other) == 1, "references to another record change");
            check!(**$s.own == $s.id.0 && **$s.other == $s.id.1, "the data of a record changes");
        };
    }

    pub fn push<N: Nd>(nd: &mut N) -> R {
        let s = any(nd);
        let l = ArcList::verif_of(s.head);
        let out = l.push(&s.own);
        let (refs, now) = (Arc::strong_count(&s.own), l.verif_head());
        frame!(s);
        if s.queued {
            check!(out.is_ok(), "a record that is queued already is refused");
            check!(now == s.head && refs == 1, "a record that is queued already is queued again");
            check!(s.own.verif_get() == (s.next, true), "a record that is queued already changes");
        } else if s.head == Node::verif_sealed() {
            check!(out.is_err(), "a sealed list takes a record");
            check!(now == s.head && refs == 1, "a sealed list keeps a record, or is not sealed any more");
        } else {
            nd.reached();
            check!(out.is_ok(), "a record is refused");
            check!(now == raw(&s.own), "the record is not the first of the list");
            check!(s.own.verif_get() == (s.head, true), "what was in the list is lost, or the record is not marked");
            check!(refs == 2, "references to the record: {refs}");
        }
        std::mem::forget(l);
        Ok(())
    }

    pub fn take<N: Nd>(nd: &mut N) -> R {
        let s = any(nd);
        let seal = nd.bool();
        let l = ArcList::verif_of(s.head);
        let out = if seal { l.take_and_seal() } else { l.take() };
        nd.reached();
        frame!(s);
        check!(out.verif_head() == s.head, "what is taken is not what the list held");
        let want = if seal || s.head == Node::verif_sealed() { Node::verif_sealed() } else { std::ptr::null_mut() };
        check!(l.verif_head() == want, "the list left is not empty, or not sealed: {seal}");
        check!(s.own.verif_get() == (s.next, s.queued), "a record changes");
        std::mem::forget(l);
        std::mem::forget(out);
        Ok(())
    }

    pub fn pop<N: Nd>(nd: &mut N) -> R {
        let s = any(nd);
        let k = nd.below(3);
        let own = s.own.clone();
        let head = match k {
            0 => std::ptr::null_mut(),
            1 => Node::verif_sealed(),
            _ => Arc::into_raw(s.own.clone()) as P,
        };
        own.verif_set(s.next, k == 2);
        let mut l = ArcList::verif_of(head);
        let out = l.pop();
        frame!(s);
        match out {
            None => {
                check!(k != 2, "nothing is popped, but the list is not empty");
                check!(l.verif_head() == head, "the list changes");
            }
            Some(r) => {
                check!(k == 2, "a record is popped from an empty list");
                nd.reached();
                check!(Arc::ptr_eq(&r, &own), "another record is popped");
                check!(l.verif_head() == s.next, "the rest of the list is lost");
                check!(!own.verif_get().1, "the record popped is marked as queued");
                check!(Arc::strong_count(&own) == 3, "references to the record: {}", Arc::strong_count(&own));
            }
        }
        std::mem::forget(l);
        Ok(())
    }

    /// Lists of up to two records, dropped.
    pub fn drop_it<N: Nd>(nd: &mut N) -> R {
        let (a, b) = (Arc::new(Node::new(0)), Arc::new(Node::new(1)));
        let l = ArcList::new();
        let n = nd.below(3);
        if n > 0 {
            check!(l.push(&a).is_ok(), "a record is refused");
        }
        if n > 1 {
            check!(l.push(&b).is_ok(), "a record is refused");
        }
        let seal = nd.bool();
        nd.reached();
        if seal {
            drop(l.take_and_seal());
            check!(l.verif_head() == Node::verif_sealed(), "the list is not sealed any more");
        }
        drop(l);
        check!(Arc::strong_count(&a) == 1 && Arc::strong_count(&b) == 1, "records are leaked or released");
        check!(!a.verif_get().1 && !b.verif_get().1, "records are marked as queued");
        Ok(())
    }

    pub fn fresh<N: Nd>(nd: &mut N) -> R {
        let v = nd.u64();
        let (l, a) = (ArcList::<u64>::new(), Node::new(v));
        nd.reached();
        check!(l.verif_head().is_null(), "a new list is not empty");
        check!(!a.verif_get().1 && *a == v, "a new record is queued, or holds something else");
        check!(!Node::<u64>::verif_sealed().is_null(), "an empty list is a sealed one");
        Ok(())
    }
}

#[cfg(kani)]
mod proofs {
    #[allow(unused_imports)]
    use super::*;
    use crate::nd::Any;

    macro_rules! hold {
        ($($name:ident = $f:expr;)*) => {$(
            #[kani::proof]
            #[kani::unwind(4)]
            #[kani::stub(wasmtimer::std::Instant::now_js, host::now_js)]
            fn $name() {
                let _ = ($f)(&mut Any);
            }
        )*};
    }
    macro_rules! must_panic {
        ($($name:ident = $f:expr;)*) => {$(
            #[kani::proof]
            #[kani::unwind(4)]
            #[kani::should_panic]
            #[kani::stub(wasmtimer::std::Instant::now_js, host::now_js)]
            fn $name() {
                let _ = ($f)(&mut Any);
                kani::cover!(true, "must-panic: returned");
            }
        )*};
    }

    #[cfg(vh_ms)]
    hold! { c12_ms = ms; }

    #[cfg(all(feature = "tu", vh_clockst))]
    hold! {
        c10_read_paused = |nd: &mut Any| clock::read(nd, true);
        c10_read_running = |nd: &mut Any| clock::read(nd, false);
        c10_pause = |nd: &mut Any| clock::op(nd, 0);
        c10_resume = |nd: &mut Any| clock::op(nd, 1);
        c10_advance = |nd: &mut Any| clock::op(nd, 2);
    }
    #[cfg(all(feature = "tu", vh_clockst))]
    must_panic! {
        c10_pause_panics = |nd: &mut Any| clock::misuse(nd, 0);
        c10_resume_panics = |nd: &mut Any| clock::misuse(nd, 1);
        c10_advance_panics = |nd: &mut Any| clock::misuse(nd, 2);
    }

    #[cfg(all(vh_parts, vh_arcst))]
    mod shapes {
        use super::*;
        use crate::c_ops::parts::{self, Shape};

        /// These reach the driver: what they call of it is known by its contract.
        macro_rules! driven {
            ($($name:ident = $f:expr;)*) => {$(
                #[kani::proof]
                #[kani::unwind(4)]
                #[kani::stub(wasmtimer::std::Instant::now_js, host::now_js)]
                #[kani::stub(futures::task::AtomicWaker::register, parts::stubs::register)]
                #[kani::stub(wasmtimer::verif::timer::ArcList::push, parts::stubs::push)]
                #[kani::stub(futures::task::AtomicWaker::wake, parts::stubs::wake)]
                #[kani::stub(std::sync::Mutex::lock, parts::stubs::lock)]
                fn $name() {
                    let _ = ($f)(&mut Any);
                }
            )*};
        }

        macro_rules! shapes {
            ($($m:ident $shape:ident;)*) => {$(
                pub mod $m {
                    use super::*;
                    hold! {
                        c07_poll = |nd: &mut Any| parts::poll(nd, Shape::$shape);
                    }
                    driven! {
                        c09_poll = |nd: &mut Any| parts::timeout(nd, Shape::$shape);
                        c07_make = |nd: &mut Any| parts::make(nd, Shape::$shape);
                        c07_reset = |nd: &mut Any| parts::reset(nd, Shape::$shape);
                        c07_drop = |nd: &mut Any| parts::drop_it(nd, Shape::$shape);
                    }
                    must_panic! { c07_poll_gone = |nd: &mut Any| parts::poll_gone(nd, Shape::$shape); }
                }
            )*};
        }
        macro_rules! ticking {
            ($($name:ident = $f:expr;)*) => {$(
                #[kani::proof]
                #[kani::unwind(4)]
                #[kani::stub(wasmtimer::std::Instant::now_js, host::now_js)]
                #[kani::stub(wasmtimer::tokio::Sleep::reset, parts::stubs::reset)]
                #[kani::stub(futures::task::AtomicWaker::register, parts::stubs::register)]
                #[kani::stub(std::sync::Mutex::lock, parts::stubs::lock)]
                #[kani::stub(wasmtimer::tokio::MissedTickBehavior::next_timeout, next_timeout)]
                fn $name() {
                    let _ = ($f)(&mut Any);
                }
            )*};
        }
        ticking! {
            c08_tick = |nd: &mut Any| parts::tick(nd, Shape::Open, next_given);
            c08_reset = |nd: &mut Any| parts::reset_interval(nd, Shape::Open);
        }

        shapes! { open Open; queued Queued; closed Closed; gone Gone; }

        static mut NEXT: Option<(wasmtimer::tokio::MissedTickBehavior, Instant, Instant, Duration, Instant)> = None;

        /// `next_timeout` as its callers may know it: the tick that it gives depends on what it is given.
        fn next_timeout(b: &wasmtimer::tokio::MissedTickBehavior, timeout: Instant, now: Instant, period: Duration) -> Instant {
            let r = any_t(&mut Any).dur();
            let r = unsafe { std::mem::transmute::<Duration, Instant>(r) };
            unsafe {
                assert!(NEXT.is_none(), "one computation of the next tick");
                NEXT = Some((*b, timeout, now, period, r));
            }
            r
        }
        fn next_given(b: wasmtimer::tokio::MissedTickBehavior, timeout: Instant, now: Instant, period: Duration) -> Option<Instant> {
            let n = unsafe { NEXT };
            assert!(
                n.is_some_and(|n| n.0 == b && n.1 == timeout && n.2 == now && n.3 == period),
                "contract: the next tick is computed from the tick, the time and the period"
            );
            n.map(|n| n.4)
        }
    }

    #[cfg(vh_arcst)]
    hold! {
        c05_push = arc::push;
        c05_take = arc::take;
        c05_pop = arc::pop;
        c05_drop = arc::drop_it;
        c05_new = arc::fresh;
    }
}
