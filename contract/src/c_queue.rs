//! C12, C14 to C17: delay queues, against a model. Each assertion belongs to the properties
//! named in it; one that belongs to other properties than the one checked ends the case.
use crate::nd::{Choices, Nd, Stop, R};
use crate::sim::*;
use std::cell::Cell;
use std::collections::HashSet;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;
use wasmtimer::tokio_util::delay_queue::{Expired, Key};
use wasmtimer::tokio_util::DelayQueue;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum P {
    C12,
    C13,
    C14,
    C15,
    C16,
    C17,
}
use P::*;

/// A value that counts how often it is dropped.
struct Val {
    id: u64,
    drops: Rc<Cell<u32>>,
}

impl Drop for Val {
    fn drop(&mut self) {
        self.drops.set(self.drops.get() + 1)
    }
}

struct Entry {
    id: u64,
    key: Key,
    /// Requested deadline, and the same in whole milliseconds after the start of the queue.
    deadline: u64,
    rounded: u64,
    /// The deadline had passed already when it was set.
    passed: bool,
    drops: Rc<Cell<u32>>,
}

struct Sim<'a> {
    prop: P,
    nd: &'a mut Choices,
    w: World,
    q: Option<DelayQueue<Val>>,
    start: u64,
    live: Vec<Entry>,
    gone: Vec<Key>,
    drops: Vec<Rc<Cell<u32>>>,
    tasks: Vec<Arc<Task>>,
    /// The task whose poll was pending last, and how often it had been woken by then.
    waiting: Option<(usize, usize)>,
    /// Something the waiting task must be woken for has happened.
    floor: u64,
    next_id: u64,
    compacted: bool,
}

macro_rules! holds {
    ($s:expr, [$($p:ident)*], $cond:expr, $($fmt:tt)*) => {
        if !$cond {
            return Err(if [$($p),*].contains(&$s.prop) {
                Stop::Violation(format!($($fmt)*))
            } else {
                Stop::Skip
            });
        }
    };
}

impl Sim<'_> {
    fn now_ms(&self) -> u64 {
        (self.w.now() - self.start) / MS
    }

    fn round(&self, deadline: u64) -> u64 {
        deadline.saturating_sub(self.start).div_ceil(MS)
    }

    fn q(&mut self) -> &mut DelayQueue<Val> {
        self.q.as_mut().unwrap()
    }

    fn counts(&mut self) -> R {
        let n = self.live.len();
        let (len, empty) = (self.q().len(), self.q().is_empty());
        holds!(self, [C16], len == n && empty == (n == 0), "len is {len} and is_empty is {empty} with {n} entries in the queue");
        for e in &self.live {
            holds!(self, [C16], e.drops.get() == 0, "the value of live entry {} was dropped", e.id);
        }
        Ok(())
    }

    /// A deadline: relative to now, at most at the horizon of the wheel.
    fn choose_deadline(&mut self) -> u64 {
        let now = self.w.now();
        let max = self.start + (self.floor + (1 << 36) - 1) * MS;
        let d = match self.nd.below(10) {
            0 => now.saturating_sub(length(self.nd, 1 << 50)),
            1 | 2 if !self.live.is_empty() => {
                let i = self.nd.below(self.live.len() as u64) as usize;
                self.live[i].deadline
            }
            3 if !self.live.is_empty() => {
                let i = self.nd.below(self.live.len() as u64) as usize;
                self.start + self.live[i].rounded * MS + self.nd.below(3) * MS
            }
            4 => max - length(self.nd, 1 << 40),
            _ => now + length(self.nd, u64::MAX >> 2),
        };
        d.min(max)
    }

    fn set(&self, deadline: u64) -> (u64, bool) {
        let r = self.round(deadline);
        (r, self.start + r * MS <= self.w.now())
    }

    fn insert(&mut self) -> R {
        let deadline = self.choose_deadline();
        let id = self.next_id;
        self.next_id += 1;
        let drops = Rc::new(Cell::new(0));
        self.drops.push(drops.clone());
        let val = Val { id, drops: drops.clone() };
        let now = self.w.now();
        let relative = deadline >= now && self.nd.bool();
        self.nd.note(|| {
            format!("at {now} ns: insert entry {id} due at {deadline} ns{}", if relative { " (by timeout)" } else { "" })
        });
        let at = self.w.at(deadline);
        let q = self.q.as_mut().unwrap();
        let key = caught_if([C12, C15, C16].contains(&self.prop), || {
            if relative {
                q.insert(val, Duration::from_nanos(deadline - now))
            } else {
                q.insert_at(val, at)
            }
        });
        let key = match key {
            Ok(k) => k,
            Err(m) => {
                holds!(self, [C12 C15 C16], false, "inserting entry {id} due at {deadline} ns panics: {m}");
                return Err(Stop::Skip);
            }
        };
        let (rounded, passed) = self.set(deadline);
        for e in &self.live {
            holds!(self, [C15], e.key != key, "entry {id} got the key {key:?} of live entry {}", e.id);
        }
        self.gone.retain(|k| *k != key);
        self.live.push(Entry { id, key, deadline, rounded, passed, drops });
        self.counts()
    }

    /// What comes out of the queue must be what the model says.
    fn out(&mut self, e: Entry, x: Expired<Val>, how: &str, props: &[P]) -> R {
        let mine = props.contains(&self.prop);
        let id = e.id;
        let (got_id, got_key) = (x.get_ref().id, x.key());
        if got_id != id && mine {
            return Err(Stop::Violation(format!("{how} entry {id} gave the value of entry {got_id}")));
        }
        if got_id != id {
            return Err(Stop::Skip);
        }
        holds!(self, [C15], got_key == e.key, "{how} entry {id} reports the key {got_key:?}, not {:?}", e.key);
        let rep = self.w.ns(x.deadline()) as i128 - self.start as i128;
        let now = self.w.now() as i128 - self.start as i128;
        if e.passed {
            holds!(self, [C12], rep <= now, "{how} entry {id}, overdue when set, reports a deadline {rep} ns after the start, now is {now}");
        } else {
            let want = e.rounded as i128 * MS as i128;
            holds!(self, [C12 C14], rep == want, "{how} entry {id} reports the deadline {rep} ns after the start, not {want}");
        }
        holds!(self, [C16], e.drops.get() == 0, "the value of entry {id} was dropped before {how} it");
        drop(x.into_inner());
        holds!(self, [C16], e.drops.get() == 1, "the value of entry {id} was dropped {} times", e.drops.get());
        self.gone.push(e.key);
        self.counts()
    }

    fn remove(&mut self) -> R {
        if self.live.is_empty() {
            return Ok(());
        }
        let i = self.nd.below(self.live.len() as u64) as usize;
        let (id, key) = (self.live[i].id, self.live[i].key);
        let attempt = self.nd.bool();
        self.nd.note(|| format!("{} entry {id}", if attempt { "try_remove" } else { "remove" }));
        let q = self.q.as_mut().unwrap();
        let got = caught_if([C14, C15].contains(&self.prop), || if attempt { q.try_remove(&key) } else { Some(q.remove(&key)) });
        match got {
            Ok(Some(x)) => {
                let e = self.live.remove(i);
                self.out(e, x, "removing", &[C14, C15, C16])
            }
            Ok(None) => {
                holds!(self, [C14 C15], false, "try_remove of live entry {id} returns nothing");
                Ok(())
            }
            Err(m) => {
                holds!(self, [C14 C15], false, "removing live entry {id} panics: {m}");
                Ok(())
            }
        }
    }

    fn reset(&mut self) -> R {
        if self.live.is_empty() {
            return Ok(());
        }
        let i = self.nd.below(self.live.len() as u64) as usize;
        let (id, key) = (self.live[i].id, self.live[i].key);
        let deadline = self.choose_deadline();
        let now = self.w.now();
        let relative = deadline >= now && self.nd.bool();
        self.nd.note(|| {
            format!("at {now} ns: reset entry {id} to {deadline} ns{}", if relative { " (by timeout)" } else { "" })
        });
        let at = self.w.at(deadline);
        let q = self.q.as_mut().unwrap();
        let r = caught_if([C14, C15].contains(&self.prop), || {
            if relative {
                q.reset(&key, Duration::from_nanos(deadline - now))
            } else {
                q.reset_at(&key, at)
            }
        });
        if let Err(m) = r {
            holds!(self, [C14 C15], false, "resetting live entry {id} to {deadline} ns panics: {m}");
        }
        let (rounded, passed) = self.set(deadline);
        let e = &mut self.live[i];
        e.deadline = deadline;
        e.rounded = rounded;
        e.passed = passed;
        self.counts()
    }

    /// Uses a key whose entry is gone.
    fn stale(&mut self) -> R {
        if self.gone.is_empty() {
            return Ok(());
        }
        let key = self.gone[self.nd.below(self.gone.len() as u64) as usize];
        // Where a panic cannot be caught, only what must not panic.
        let how = if cfg!(target_arch = "wasm32") { 0 } else { self.nd.below(3) };
        self.nd.note(|| format!("{} with the stale {key:?}", ["try_remove", "remove", "reset_at"][how as usize]));
        let deadline = self.choose_deadline();
        let at = self.w.at(deadline);
        let q = self.q.as_mut().unwrap();
        let out = caught_if([C15].contains(&self.prop), || match how {
            0 => q.try_remove(&key).map(|x| x.get_ref().id),
            1 => Some(q.remove(&key).get_ref().id),
            _ => {
                q.reset_at(&key, at);
                None
            }
        });
        match (how, out) {
            (0, Ok(None)) => {}
            (0, Ok(Some(id))) => holds!(self, [C15], false, "try_remove with stale {key:?} took out entry {id}"),
            (0, Err(m)) => holds!(self, [C15], false, "try_remove with stale {key:?} panics: {m}"),
            (_, Ok(_)) => holds!(self, [C15], false, "{} with stale {key:?} is accepted", if how == 1 { "remove" } else { "reset_at" }),
            _ => {}
        }
        let n = self.live.len();
        let len = self.q().len();
        holds!(self, [C15 C16], len == n, "after using stale {key:?}, len is {len} with {n} entries in the queue");
        self.counts()
    }

    fn storage(&mut self) -> R {
        let how = self.nd.below(4);
        let extra = self.nd.below(20) as usize;
        self.nd.note(|| ["compact", "shrink_to_fit", "reserve", "compact"][how as usize].to_string());
        let q = self.q.as_mut().unwrap();
        let r = caught_if([C15].contains(&self.prop), || match how {
            1 => q.shrink_to_fit(),
            2 => q.reserve(extra),
            _ => q.compact(),
        });
        if let Err(m) = r {
            holds!(self, [C15], false, "compact, shrink_to_fit or reserve panics: {m}");
        }
        let (cap, len) = (self.q().capacity(), self.q().len());
        if how == 2 {
            holds!(self, [C16], cap >= len + extra, "capacity {cap} after reserving {extra} for {len} entries");
        }
        self.compacted |= how == 0 || how == 3;
        self.counts()
    }

    fn clear(&mut self) -> R {
        self.nd.note(|| "clear".to_string());
        let q = self.q.as_mut().unwrap();
        if let Err(m) = caught_if([C16].contains(&self.prop), || q.clear()) {
            holds!(self, [C16], false, "clear panics: {m}");
        }
        for e in std::mem::take(&mut self.live) {
            holds!(self, [C16], e.drops.get() == 1, "the value of entry {} was dropped {} times by clear", e.id, e.drops.get());
            self.gone.push(e.key);
        }
        self.floor = 0;
        self.counts()
    }

    /// Polls once; true if an entry came out.
    fn poll(&mut self) -> R<bool> {
        let t = match self.nd.below(4) {
            0 => 1,
            _ => 0,
        };
        let task = self.tasks[t].clone();
        let before = task.woken();
        let q = self.q.as_mut().unwrap();
        let waker = task.waker();
        let out = match caught_if([C12, C16].contains(&self.prop), || {
            let mut cx = Context::from_waker(&waker);
            // The second task uses the queue as a stream.
            if t == 1 {
                futures::Stream::poll_next(std::pin::Pin::new(q), &mut cx)
            } else {
                q.poll_expired(&mut cx)
            }
        }) {
            Ok(x) => x,
            Err(m) => {
                holds!(self, [C12 C16], false, "polling panics: {m}");
                return Err(Stop::Skip);
            }
        };
        self.waiting = None;
        let n = self.live.len();
        let now = self.w.now();
        match out {
            Poll::Pending => {
                self.nd.note(|| format!("at {now} ns: poll by task {t} is pending"));
                holds!(self, [C16], n > 0, "polling the empty queue is pending");
                self.waiting = Some((t, before));
                Ok(false)
            }
            Poll::Ready(None) => {
                self.nd.note(|| format!("at {now} ns: poll by task {t} gives the end"));
                holds!(self, [C16], n == 0, "polling gives the end with {n} entries in the queue");
                Ok(false)
            }
            Poll::Ready(Some(x)) => {
                let id = x.get_ref().id;
                self.nd.note(|| format!("at {now} ns: poll by task {t} gives entry {id}"));
                let i = match self.live.iter().position(|e| e.id == id) {
                    Some(i) => i,
                    None => {
                        holds!(self, [C14 C16], false, "polling gives entry {id}, which is not in the queue");
                        return Err(Stop::Skip);
                    }
                };
                let e = self.live.remove(i);
                let due = if e.passed { e.deadline } else { self.start + e.rounded * MS };
                holds!(self, [C12], due.min(now) == due, "entry {id} due at {due} ns came out at {now} ns");
                if !e.passed {
                    self.floor = self.floor.max(e.rounded / 64 * 64);
                    for o in &self.live {
                        holds!(
                            self,
                            [C13],
                            o.passed || o.rounded >= e.rounded,
                            "entry {id} due at {} ms came out before entry {} due at {} ms",
                            e.rounded,
                            o.id,
                            o.rounded
                        );
                    }
                }
                self.nd.reached();
                self.out(e, x, "polling", &[C12, C14, C15, C16])?;
                Ok(true)
            }
        }
    }

    /// Whether there is something for the waiting task.
    fn something(&self) -> Option<String> {
        if self.live.is_empty() {
            return Some("the queue is empty".into());
        }
        let now = self.w.now();
        self.live
            .iter()
            .find(|e| self.start + e.rounded * MS <= now)
            .map(|e| format!("entry {} is due", e.id))
    }

    fn woken(&self) -> Option<bool> {
        self.waiting.map(|(t, n)| self.tasks[t].woken() > n)
    }

    /// After the host has run: whoever waits knows, and due entries come out.
    fn settle(&mut self) -> R {
        if !self.w.paused {
            self.w.settle();
        }
        if let (Some(false), Some(what)) = (self.woken(), self.something()) {
            holds!(self, [C17], false, "at {} ns {what}, but the task that polled was not woken", self.w.now());
        }
        Ok(())
    }

    /// Polls until there is nothing more, `woken`: only while the task is woken.
    fn drain(&mut self) -> R {
        // With the clock running, what polling armed can come due at once
        // (each entry of each level of a wheel takes another turn of the host).
        let mut rounds = 10 + 8 * self.live.len();
        loop {
            while self.poll()? {}
            let now = self.w.now();
            let due = self.live.iter().any(|e| self.start + e.rounded * MS <= now);
            rounds -= 1;
            if self.w.paused || !due || rounds == 0 {
                break;
            }
            self.settle()?;
        }
        let now = self.w.now();
        let late = self.live.iter().find(|e| self.start + e.rounded * MS <= now);
        if let Some(e) = late {
            let (id, due) = (e.id, self.start + e.rounded * MS);
            holds!(self, [C12 C14], false, "entry {id} due at {due} ns has not come out at {now} ns");
        }
        Ok(())
    }

    fn pass(&mut self) -> R {
        let now = self.w.now();
        let ns = match self.nd.below(8) {
            0 => 0,
            1 => length(self.nd, 1 << 54),
            2 => MS / 8 * self.nd.below(10),
            _ if self.live.is_empty() => MS * self.nd.below(100),
            3 => {
                // to some deadline
                let i = self.nd.below(self.live.len() as u64) as usize;
                (self.start + self.live[i].rounded * MS).saturating_sub(now)
            }
            x => {
                // about the next deadline
                let next = self.live.iter().map(|e| self.start + e.rounded * MS).min().unwrap();
                let to = next.saturating_sub(now);
                match x {
                    4 => to.saturating_sub(MS * self.nd.below(3)),
                    5 => to + MS / 8 * self.nd.below(20),
                    6 => to.saturating_sub(1 + self.nd.below(MS)),
                    _ => to,
                }
            }
        };
        if now + ns > 1 << 60 {
            return Ok(());
        }
        let step = ns;
        self.nd.note(|| format!("at {now} ns: {step} ns pass"));
        self.w.pass(ns);
        Ok(())
    }

    fn step(&mut self) -> R {
        match self.nd.below(24) {
            0..=6 => self.insert(),
            7 | 8 => self.remove(),
            9..=11 => self.reset(),
            12 => self.stale(),
            13 => self.storage(),
            14 => match self.nd.below(4) {
                0 => self.clear(),
                _ => self.stale(),
            },
            15 | 16 => self.poll().map(|_| ()),
            17 => {
                // The host runs only some of what is due.
                let due = self.w.due();
                if let (Some(s), false) = (due.first(), self.w.paused) {
                    wasm_bindgen::host::run(*s);
                }
                Ok(())
            }
            18 | 19 => {
                self.settle()?;
                self.drain()
            }
            20 => self.settle(),
            _ => {
                self.pass()?;
                if self.nd.bool() {
                    self.settle()?;
                    if self.prop != C17 || self.woken() != Some(false) || self.nd.below(8) == 0 {
                        self.drain()?;
                    }
                }
                Ok(())
            }
        }
    }
}

fn run(nd: &mut Choices, prop: P) -> R {
    let mut w = World::new();
    let k = nd.below(100);
    w.advance_host(k);
    if cfg!(feature = "tu") && nd.below(2) == 0 {
        w.pause();
        let ns = nd.below(3 * MS);
        w.advance_clock(ns);
    }
    let start = w.now();
    nd.note(|| format!("a queue made at {start} ns"));
    let cap = nd.below(3) as usize;
    let q = if cap == 0 { DelayQueue::new() } else { DelayQueue::with_capacity(cap) };
    let steps = 3 + nd.below(60);
    let mut s = Sim {
        prop,
        nd,
        w,
        q: Some(q),
        start,
        live: Vec::new(),
        gone: Vec::new(),
        drops: Vec::new(),
        tasks: vec![Task::new(), Task::new()],
        waiting: None,
        floor: 0,
        next_id: 0,
        compacted: false,
    };
    for _ in 0..steps {
        s.step()?;
    }
    // Everything that is left comes out in the end.
    s.settle()?;
    if s.nd.below(4) > 0 {
        for _ in 0..200 {
            s.drain()?;
            if s.live.is_empty() {
                break;
            }
            let next = s.live.iter().map(|e| s.start + e.rounded * MS).min().unwrap();
            let now = s.w.now();
            if next > 1 << 61 {
                break;
            }
            s.nd.note(|| format!("at {now} ns: on to {next} ns"));
            s.w.pass(next.saturating_sub(now));
            s.settle()?;
        }
        if s.live.is_empty() {
            s.poll()?;
        }
    }
    let keys: HashSet<_> = s.live.iter().map(|e| e.key).collect();
    holds!(s, [C15], keys.len() == s.live.len(), "two live entries have the same key");
    drop(s.q.take());
    for (i, d) in s.drops.iter().enumerate() {
        holds!(s, [C16], d.get() == 1, "in the end the value of entry {i} was dropped {} times", d.get());
    }
    let _ = s.now_ms();
    Ok(())
}

pub fn c12(nd: &mut Choices) -> R {
    run(nd, C12)
}
pub fn c13(nd: &mut Choices) -> R {
    run(nd, C13)
}
pub fn c14(nd: &mut Choices) -> R {
    run(nd, C14)
}
pub fn c15(nd: &mut Choices) -> R {
    run(nd, C15)
}
pub fn c16(nd: &mut Choices) -> R {
    run(nd, C16)
}
pub fn c17(nd: &mut Choices) -> R {
    run(nd, C17)
}
