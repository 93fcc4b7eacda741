//! C11, and what can be seen of C06 and C07 through the public interface: sleeps on the
//! global driver, in a world whose host callbacks run when they are told to.
use crate::nd::{Choices, Nd, Stop, R};
use crate::sim::*;
use std::pin::Pin;
use std::sync::Arc;
use std::task::Poll;
use std::time::Duration;
use wasm_bindgen::host;
use wasmtimer::tokio::{sleep, sleep_until, Sleep};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum P {
    C06,
    C07,
    C11,
}
use P::*;

struct S {
    id: u64,
    sleep: Pin<Box<Sleep>>,
    deadline: u64,
    /// Known to be complete for this deadline.
    done: bool,
    /// The task that polled last, and how often it had been woken by then.
    waiting: Option<(usize, usize)>,
}

struct Sim<'a> {
    prop: P,
    nd: &'a mut Choices,
    w: World,
    all: Vec<S>,
    tasks: Vec<Arc<Task>>,
    next_id: u64,
}

macro_rules! holds {
    ($s:expr, [$($p:ident)*], $cond:expr, $($fmt:tt)*) => {
        if !$cond {
            return Err(if [$($p),*].contains(&$s.prop) {
                Stop::Violation(format!($($fmt)*))
            } else {
                Stop::Skip
            });
        }
    };
}

/// The due time of a callback in nanoseconds.
fn ns(due: f64) -> u64 {
    (due * 8.0) as u64 * (MS / 8)
}

impl Sim<'_> {
    /// What holds after every operation.
    fn invariant(&mut self) -> R {
        let now = self.w.now();
        for k in 0..self.all.len() {
            let s = &self.all[k];
            let (id, at, elapsed) = (s.id, s.deadline, s.sleep.is_elapsed());
            let reported = self.w.ns(s.sleep.deadline());
            holds!(self, [C07], reported == at, "sleep {id} reports the deadline {reported} ns, set was {at} ns");
            holds!(self, [C06 C07], !elapsed || now >= at, "sleep {id} is complete at {now} ns, but is due at {at} ns");
            holds!(self, [C06 C07], elapsed || !s.done, "sleep {id} was complete and is pending again");
            if elapsed {
                if let Some((t, n)) = s.waiting {
                    let woken = self.tasks[t].woken();
                    holds!(self, [C06 C07 C11], woken > n, "sleep {id} completed, but the task that polled last was not woken");
                }
                self.all[k].done = true;
                self.all[k].waiting = None;
                self.nd.reached();
                continue;
            }
            if self.w.paused {
                // Done at once, unless the driver was called before the pause and has yet to run.
                let called = !self.w.due().is_empty();
                holds!(
                    self,
                    [C11],
                    now < at || called,
                    "the clock is paused at {now} ns, but sleep {id} is pending and due at {at} ns, and no host callback is due"
                );
            } else {
                let host_now = self.w.host_ns();
                let by = host_now + at.saturating_sub(now);
                let first = host::with_armed(|a| a.iter().map(|x| ns(x.due)).min());
                holds!(
                    self,
                    [C11],
                    first.is_some_and(|f| f <= by),
                    "sleep {id} is pending with {} ns to go, but the first host callback is due in {:?} ns",
                    by - host_now,
                    first.map(|f| f - host_now.min(f))
                );
            }
        }
        Ok(())
    }

    /// Runs one host callback.
    fn callback(&mut self, seq: u64) -> R {
        let calls = host::calls();
        host::run(seq);
        let now = self.w.now();
        let next = self.all.iter().filter(|s| !s.sleep.is_elapsed()).map(|s| s.deadline).min();
        if next.is_some_and(|n| n <= now) {
            return self.invariant();
        }
        let least = next.map_or(1, |n| ((n - now) / MS).min(i32::MAX as u64));
        let armed: Vec<i64> = host::with_armed(|a| a.iter().filter(|x| x.seq > calls).map(|x| x.delay as i64).collect());
        holds!(
            self,
            [C11],
            armed.iter().all(|d| *d >= least as i64),
            "a callback with {:?} ns to the next deadline arms one in {armed:?} ms",
            next.map(|n| n - now)
        );
        holds!(self, [C11], armed.len() <= 1, "a callback arms {} more", armed.len());
        self.invariant()
    }

    fn turn(&mut self) -> R {
        for seq in self.w.due() {
            self.callback(seq)?;
        }
        Ok(())
    }

    fn settle(&mut self) -> R {
        for _ in 0..3 {
            self.turn()?;
        }
        let now = self.w.now();
        for s in &self.all {
            holds!(
                self,
                [C06 C07 C11],
                s.sleep.is_elapsed() || now < s.deadline,
                "sleep {} is due at {} ns and pending at {now} ns, after all callbacks due were run",
                s.id,
                s.deadline
            );
        }
        Ok(())
    }

    fn deadline(&mut self) -> u64 {
        let now = self.w.now();
        match self.nd.below(10) {
            0 => now.saturating_sub(length(self.nd, 1 << 40)),
            1 | 2 if !self.all.is_empty() => {
                let i = self.nd.below(self.all.len() as u64) as usize;
                self.all[i].deadline
            }
            3 => now + (i32::MAX as u64).wrapping_add(self.nd.below(4)).wrapping_sub(2) * MS + self.nd.below(MS),
            4 => now + (1 + self.nd.below(100)) * 365 * 86_400_000 * MS,
            _ => now + length(self.nd, 1 << 58),
        }
    }

    fn step(&mut self) -> R {
        let now = self.w.now();
        if now > 1 << 62 {
            return Err(Stop::Skip);
        }
        match self.nd.below(16) {
            0..=2 if self.all.len() < 40 => {
                let n = if self.nd.below(12) == 0 { 35 } else { 1 };
                for _ in 0..n {
                    let at = self.deadline();
                    let id = self.next_id;
                    self.next_id += 1;
                    self.nd.note(|| format!("at {now} ns: sleep {id} due at {at} ns"));
                    let s = if at >= now && self.nd.bool() {
                        sleep(Duration::from_nanos(at - now))
                    } else {
                        sleep_until(self.w.at(at))
                    };
                    self.all.push(S { id, sleep: Box::pin(s), deadline: at, done: false, waiting: None });
                }
            }
            3..=5 if !self.all.is_empty() => {
                let i = self.nd.below(self.all.len() as u64) as usize;
                let t = self.nd.below(2) as usize;
                let done = self.all[i].sleep.is_elapsed();
                let n = self.tasks[t].woken();
                let id = self.all[i].id;
                let r = poll(self.all[i].sleep.as_mut(), &self.tasks[t]);
                self.nd.note(|| format!("at {now} ns: poll of sleep {id} by task {t} is {r:?}"));
                holds!(self, [C07], r.is_ready() == done, "poll of sleep {id} says {r:?}, is_elapsed says {done}");
                if r == Poll::Pending {
                    self.all[i].waiting = Some((t, n));
                }
            }
            6 | 7 if !self.all.is_empty() => {
                let i = self.nd.below(self.all.len() as u64) as usize;
                let at = self.deadline();
                let s = &mut self.all[i];
                self.nd.note(|| format!("at {now} ns: sleep {} is reset to {at} ns", s.id));
                s.sleep.as_mut().reset(self.w.at(at));
                s.deadline = at;
                s.done = false;
                if !self.w.paused {
                    let (id, el) = (s.id, s.sleep.is_elapsed());
                    holds!(self, [C07], !el, "sleep {id} is complete although it was just re-armed");
                }
            }
            8 if !self.all.is_empty() => {
                let n = if self.nd.below(6) == 0 { self.all.len() } else { 1 };
                for _ in 0..n {
                    let i = self.nd.below(self.all.len() as u64) as usize;
                    let s = self.all.remove(i);
                    self.nd.note(|| format!("at {now} ns: sleep {} is dropped", s.id));
                    drop(s);
                }
            }
            9 if cfg!(feature = "tu") => {
                if self.w.paused {
                    self.nd.note(|| format!("at {now} ns: resume"));
                    self.w.resume();
                } else {
                    self.nd.note(|| format!("at {now} ns: pause"));
                    self.w.pause();
                }
            }
            10 => {
                if let Some(s) = self.w.due().first().cloned() {
                    self.nd.note(|| format!("at {now} ns: the host runs callback {s}"));
                    return self.callback(s);
                }
            }
            11 => {
                self.nd.note(|| format!("at {now} ns: the host runs all callbacks due"));
                return self.turn();
            }
            12 => {
                self.nd.note(|| format!("at {now} ns: the host settles"));
                return self.settle();
            }
            _ => {
                let ns = if !self.all.is_empty() && self.nd.bool() {
                    let i = self.nd.below(self.all.len() as u64) as usize;
                    let to = self.all[i].deadline.saturating_sub(now);
                    match self.nd.below(4) {
                        0 => to.saturating_sub(1 + self.nd.below(MS)),
                        1 => to + self.nd.below(MS),
                        _ => to,
                    }
                } else {
                    length(self.nd, 1 << 52)
                };
                self.nd.note(|| format!("at {now} ns: {ns} ns pass"));
                self.w.pass(ns);
            }
        }
        Ok(())
    }
}

fn run(nd: &mut Choices, prop: P) -> R {
    let mut w = World::new();
    let k = nd.below(100);
    w.advance_host(k);
    if cfg!(feature = "tu") && nd.below(3) == 0 {
        w.pause();
    }
    let steps = 3 + nd.below(50);
    let mut s = Sim { prop, nd, w, all: Vec::new(), tasks: vec![Task::new(), Task::new()], next_id: 0 };
    for _ in 0..steps {
        s.step()?;
        s.invariant()?;
    }
    s.settle()
}

pub fn c06(nd: &mut Choices) -> R {
    run(nd, C06)
}
pub fn c07(nd: &mut Choices) -> R {
    run(nd, C07)
}
pub fn c11(nd: &mut Choices) -> R {
    run(nd, C11)
}
