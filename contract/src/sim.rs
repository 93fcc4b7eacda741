//! A world for the crate to run in: a host clock that moves when told to, and host callbacks
//! that run when told to.
use crate::nd::{Choices, Nd};
use futures::task::ArcWake;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use wasm_bindgen::host;
use wasmtimer::std::Instant;

/// A task: counts how often it was woken.
#[derive(Default)]
pub struct Task(pub AtomicUsize);

impl ArcWake for Task {
    fn wake_by_ref(t: &Arc<Self>) {
        t.0.fetch_add(1, SeqCst);
    }
}

impl Task {
    pub fn new() -> Arc<Task> {
        Arc::new(Task::default())
    }
    pub fn waker(self: &Arc<Task>) -> Waker {
        futures::task::waker(self.clone())
    }
    pub fn woken(&self) -> usize {
        self.0.load(SeqCst)
    }
}

pub fn poll<F: Future>(f: Pin<&mut F>, t: &Arc<Task>) -> Poll<F::Output> {
    f.poll(&mut Context::from_waker(&t.waker()))
}

pub const MS: u64 = 1_000_000;

thread_local! {
    /// Whether a panic is what the contract that is running is about.
    pub static BLAME: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
}

/// As `caught`; where a panic cannot be caught it counts only if `blame`.
pub fn caught_if<T>(blame: bool, f: impl FnOnce() -> T) -> Result<T, String> {
    BLAME.with(|b| b.set(blame));
    let r = caught(f);
    BLAME.with(|b| b.set(true));
    r
}

/// Runs `f`; what it panicked with, if it did.
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| {
        crate::LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "a panic".into())
    })
}

/// The host and the clock. All times are in nanoseconds after `zero`.
pub struct World {
    /// Host time in eighths of a millisecond, which doubles hold exactly.
    eighths: u64,
    zero: Instant,
    pub paused: bool,
}

impl World {
    pub fn new() -> World {
        host::set_now(0.0);
        host::take_armed();
        World {
            eighths: 0,
            zero: Instant::now(),
            paused: false,
        }
    }
    pub fn now(&self) -> u64 {
        self.ns(Instant::now())
    }
    pub fn ns(&self, i: Instant) -> u64 {
        u64::try_from(i.duration_since(self.zero).as_nanos()).unwrap_or(u64::MAX)
    }
    /// A length of time in nanoseconds; like the crate's own operators it cannot be negative.
    pub fn at(&self, ns: u64) -> Instant {
        self.zero + Duration::from_nanos(ns)
    }
    pub fn host_ns(&self) -> u64 {
        self.eighths * (MS / 8)
    }
    pub fn advance_host(&mut self, eighths: u64) {
        self.eighths += eighths;
        host::set_now(self.eighths as f64 / 8.0);
    }
    #[cfg(feature = "tu")]
    pub fn pause(&mut self) {
        wasmtimer::tokio::pause();
        self.paused = true;
    }
    #[cfg(feature = "tu")]
    pub fn resume(&mut self) {
        wasmtimer::tokio::resume();
        self.paused = false;
    }
    #[cfg(feature = "tu")]
    pub fn advance_clock(&mut self, ns: u64) {
        let mut f = std::pin::pin!(wasmtimer::tokio::advance(Duration::from_nanos(ns)));
        assert!(poll(f.as_mut(), &Task::new()).is_ready(), "advance is pending");
    }
    #[cfg(not(feature = "tu"))]
    pub fn pause(&mut self) {}
    #[cfg(not(feature = "tu"))]
    pub fn resume(&mut self) {}
    #[cfg(not(feature = "tu"))]
    pub fn advance_clock(&mut self, _ns: u64) {}
    /// Lets about `ns` pass, by whichever clock is running.
    pub fn pass(&mut self, ns: u64) {
        if self.paused {
            self.advance_clock(ns)
        } else {
            self.advance_host(ns.div_ceil(MS / 8))
        }
    }
    /// The callbacks due now, in the order in which the host runs them.
    pub fn due(&self) -> Vec<u64> {
        let mut due: Vec<(f64, u64)> = host::with_armed(|a| {
            a.iter()
                .filter(|x| x.due <= self.eighths as f64 / 8.0)
                .map(|x| (x.due, x.seq))
                .collect()
        });
        due.sort_by(|x, y| x.partial_cmp(y).unwrap());
        due.into_iter().map(|x| x.1).collect()
    }
    /// Runs the callbacks that are due now, but none that they arm.
    pub fn turn(&mut self) {
        for seq in self.due() {
            host::run(seq);
        }
    }
    /// Lets the host run whatever is due, and what that leads to.
    pub fn settle(&mut self) {
        for _ in 0..3 {
            self.turn();
        }
    }
}

/// A length of time in nanoseconds, of all the magnitudes that matter, at most `max`.
pub fn length(nd: &mut Choices, max: u64) -> u64 {
    let ms = match nd.below(12) {
        0 => 0,
        1..=4 => nd.below(200),
        5 => 64 * nd.below(70) + nd.below(4),
        6 => 4096 * nd.below(70) + nd.below(200),
        7 => (1u64 << (6 * nd.below(6))) * (1 + nd.below(64)) + nd.below(3),
        8 => ((1u64 << (6 * nd.below(6))) * (1 + nd.below(64))).saturating_sub(nd.below(3)),
        9 => nd.below(1 << 20),
        10 => nd.below(1 << 32),
        _ => nd.below(5),
    };
    let frac = match nd.below(6) {
        0 => nd.below(8) * (MS / 8),
        1 => nd.below(MS),
        2 => 1,
        3 => MS - 1,
        _ => 0,
    };
    (ms * MS + frac).min(max)
}
