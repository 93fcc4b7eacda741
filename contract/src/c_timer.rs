//! C04, C06 and C07: a timer of its own (not the global driver), its turns and its expiry
//! run one by one, against a model.
use crate::nd::{Choices, Nd, Stop, R};
use crate::sim::{caught, poll, Task};
use futures::task::ArcWake;
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;
use wasmtimer::std::Instant;
use wasmtimer::tokio::Sleep;
use wasmtimer::verif::timer::{Timer, TimerHandle};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum P {
    C04,
    C06,
    C07,
}
use P::*;

type Shared = Rc<RefCell<Option<Pin<Box<Sleep>>>>>;

thread_local! {
    /// What the next wake-up of an acting task does.
    static ACTIONS: RefCell<Vec<Box<dyn FnOnce()>>> = const { RefCell::new(Vec::new()) };
}

/// A task that may do something as soon as it is woken.
#[derive(Default)]
struct Acting(AtomicUsize);

impl ArcWake for Acting {
    fn wake_by_ref(t: &Arc<Self>) {
        t.0.fetch_add(1, SeqCst);
        let a = ACTIONS.with(|a| a.borrow_mut().pop());
        if let Some(a) = a {
            a()
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum State {
    Pending,
    Complete,
    /// The timer has gone.
    Gone,
    /// Either: re-armed after the timer had gone.
    Unknown,
}

struct S {
    id: u64,
    sleep: Shared,
    deadline: u64,
    state: State,
    /// The deadline the timer has on record.
    recorded: Option<u64>,
    /// Changed since the last turn.
    changed: bool,
    dropped: bool,
    waiting: Option<(usize, usize)>,
}

struct Sim<'a> {
    prop: P,
    nd: &'a mut Choices,
    zero: Instant,
    timer: Option<Timer>,
    handle: TimerHandle,
    all: Vec<S>,
    tasks: Vec<Arc<Acting>>,
    driver: Arc<Task>,
    now: u64,
    next_id: u64,
}

macro_rules! holds {
    ($s:expr, [$($p:ident)*], $cond:expr, $($fmt:tt)*) => {
        if !$cond {
            return Err(if [$($p),*].contains(&$s.prop) {
                Stop::Violation(format!($($fmt)*))
            } else {
                Stop::Skip
            });
        }
    };
}

impl Sim<'_> {
    fn at(&self, t: u64) -> Instant {
        self.zero + Duration::from_nanos(t)
    }

    fn deadline(&mut self) -> u64 {
        match self.nd.below(8) {
            0 => self.now.saturating_sub(self.nd.below(100)),
            1..=3 if !self.all.is_empty() => {
                let i = self.nd.below(self.all.len() as u64) as usize;
                (self.all[i].deadline + self.nd.below(3)).saturating_sub(1)
            }
            4 => self.nd.u64() >> 2,
            _ => self.now + self.nd.below(60),
        }
    }

    fn next_event(&mut self) -> R {
        let Some(t) = &self.timer else { return Ok(()) };
        let got = t.next_event().map(|i| i.duration_since(self.zero).as_nanos() as u64);
        if self.all.iter().any(|s| s.changed) {
            // Changes may or may not have reached the record.
            let most = self.all.iter().filter(|s| !s.changed).filter_map(|s| s.recorded).min();
            holds!(
                self,
                [C04 C06],
                most.is_none() || got.is_some_and(|g| g <= most.unwrap()),
                "the next event is {got:?}, but one is on record for {most:?}"
            );
        } else {
            let want = self.all.iter().filter_map(|s| s.recorded).min();
            holds!(self, [C04 C06], got == want, "the next event is {got:?}, not {want:?}");
        }
        Ok(())
    }

    /// The states of all sleeps are as expected.
    fn states(&mut self) -> R {
        for k in 0..self.all.len() {
            let s = &self.all[k];
            if s.dropped || s.state == State::Unknown {
                continue;
            }
            let sl = s.sleep.borrow();
            let sl = sl.as_ref().unwrap();
            let el = sl.is_elapsed();
            let (id, deadline) = (s.id, s.deadline);
            let at = sl.deadline().duration_since(self.zero).as_nanos() as u64;
            holds!(self, [C07], at == deadline, "sleep {id} reports the deadline {at}, set was {deadline}");
            let want = s.state == State::Complete;
            holds!(
                self,
                [C04 C06 C07],
                el == want,
                "sleep {id}, due at {deadline}, is {} at {}",
                if el { "complete" } else { "pending" },
                self.now
            );
        }
        Ok(())
    }

    fn add(&mut self) -> R {
        let at = self.deadline();
        let id = self.next_id;
        self.next_id += 1;
        self.nd.note(|| format!("sleep {id} due at {at}"));
        let woken = self.driver.woken();
        let i = self.at(at);
        let handle = self.handle.clone();
        let s = caught(|| Sleep::verif_new_handle(i, handle));
        holds!(self, [C04 C06 C07], s.is_ok(), "making sleep {id} panics: {}", s.as_ref().err().unwrap());
        let s = s.unwrap();
        #[cfg(vh_state)]
        if self.timer.is_some() && self.nd.bool() {
            // Near the end of the range of generations.
            let g = (usize::MAX >> 2) - self.nd.below(3) as usize;
            s.verif_set_generation(g);
            self.nd.note(|| format!("the generation of sleep {id} is {g}"));
        }
        let alive = self.timer.is_some();
        if alive {
            self.called(woken)?;
        }
        self.all.push(S {
            id,
            sleep: Rc::new(RefCell::new(Some(Box::pin(s)))),
            deadline: at,
            state: if alive { State::Pending } else { State::Gone },
            recorded: None,
            changed: alive,
            dropped: false,
            waiting: None,
        });
        Ok(())
    }

    /// The timer was called to take a turn.
    fn called(&mut self, woken: usize) -> R {
        // The timer hears of one change at least, if it has been polled since the last.
        let first = !self.all.iter().any(|s| s.changed);
        let got = self.driver.woken();
        holds!(
            self,
            [C06],
            got > woken || !first || self.driver.woken() == 0,
            "the timer is not woken for a change"
        );
        Ok(())
    }

    fn turn(&mut self) -> R {
        let (Some(t), driver) = (&mut self.timer, self.driver.clone()) else { return Ok(()) };
        self.nd.note(|| "the timer takes a turn".into());
        let r = caught(|| poll(Pin::new(t), &driver));
        holds!(self, [C04 C06 C07], r.is_ok(), "a turn of the timer panics: {}", r.as_ref().err().unwrap());
        holds!(self, [C06], r == Ok(Poll::Pending), "the timer completes");
        for s in &mut self.all {
            if s.changed {
                s.recorded = if s.dropped { None } else { Some(s.deadline) };
                s.changed = false;
            }
        }
        Ok(())
    }

    /// What a task does when it is woken.
    fn plan(&mut self) -> Option<(u64, u64)> {
        if self.nd.below(5) > 0 || self.all.iter().all(|s| s.dropped) {
            return None;
        }
        let live: Vec<_> = self.all.iter().filter(|s| !s.dropped).map(|s| s.id).collect();
        let id = live[self.nd.below(live.len() as u64) as usize];
        let at = self.deadline();
        let i = self.at(at);
        let s = self.all.iter().find(|s| s.id == id).unwrap().sleep.clone();
        ACTIONS.with(|a| {
            a.borrow_mut().push(Box::new(move || {
                if let Some(s) = s.borrow_mut().as_mut() {
                    s.as_mut().reset(i)
                }
            }))
        });
        self.nd.note(|| format!("the first task woken will reset sleep {id} to {at}"));
        Some((id, at))
    }

    /// Whether the planned action has happened.
    fn acted(&mut self) -> bool {
        ACTIONS.with(|a| a.borrow_mut().pop().is_none())
    }

    fn advance(&mut self) -> R {
        if self.timer.is_none() {
            return Ok(());
        }
        let to = match self.nd.below(4) {
            0 => self.now.saturating_sub(self.nd.below(10)),
            1 if !self.all.is_empty() => {
                let i = self.nd.below(self.all.len() as u64) as usize;
                self.all[i].deadline
            }
            _ => self.now + self.nd.below(40),
        };
        let plan = self.plan();
        self.nd.note(|| format!("the timer is advanced to {to}"));
        let i = self.at(to);
        let before: Vec<_> = self.tasks.iter().map(|t| t.0.load(SeqCst)).collect();
        let t = self.timer.as_mut().unwrap();
        let r = caught(|| t.advance_to(i));
        holds!(self, [C04 C06 C07], r.is_ok(), "advancing the timer panics: {}", r.as_ref().err().unwrap());
        self.now = self.now.max(to);
        let acted = plan.filter(|_| self.acted());
        for k in 0..self.all.len() {
            let s = &mut self.all[k];
            if s.recorded.is_some_and(|r| r <= to) {
                s.recorded = None;
                if !s.changed && !s.dropped {
                    s.state = State::Complete;
                    self.nd.reached();
                }
            }
            if let (Some((id, at)), false) = (acted, s.dropped) {
                if s.id == id {
                    s.deadline = at;
                    s.state = State::Pending;
                    s.changed = true;
                }
            }
        }
        self.wakes(before, acted.map(|a| a.0))
    }

    /// Whoever waits for a sleep that is no longer pending was woken.
    fn wakes(&mut self, _before: Vec<usize>, except: Option<u64>) -> R {
        for k in 0..self.all.len() {
            let s = &mut self.all[k];
            if s.dropped || s.state == State::Pending || Some(s.id) == except {
                continue;
            }
            if let Some((t, n)) = s.waiting.take() {
                let (id, woken) = (s.id, self.tasks[t].0.load(SeqCst));
                holds!(self, [C06 C07], woken > n, "the task that polled sleep {id} last was not woken");
            }
        }
        Ok(())
    }

    fn step(&mut self) -> R {
        let live: Vec<_> = (0..self.all.len()).filter(|k| !self.all[*k].dropped).collect();
        match self.nd.below(20) {
            0..=4 if live.len() < 40 => self.add(),
            5..=7 if !live.is_empty() => {
                let k = live[self.nd.below(live.len() as u64) as usize];
                let at = self.deadline();
                let woken = self.driver.woken();
                let i = self.at(at);
                let s = &self.all[k];
                let id = s.id;
                self.nd.note(|| format!("sleep {id} is reset to {at}"));
                let r = caught(|| s.sleep.borrow_mut().as_mut().unwrap().as_mut().reset(i));
                holds!(self, [C04 C06 C07], r.is_ok(), "resetting sleep {id} panics: {}", r.as_ref().err().unwrap());
                if self.timer.is_some() {
                    self.called(woken)?;
                }
                let alive = self.timer.is_some();
                let s = &mut self.all[k];
                s.deadline = at;
                if alive {
                    s.state = State::Pending;
                    s.changed = true;
                } else if s.state == State::Complete {
                    s.state = State::Unknown;
                }
                Ok(())
            }
            8 | 9 if !live.is_empty() => {
                let k = live[self.nd.below(live.len() as u64) as usize];
                let woken = self.driver.woken();
                let s = &self.all[k];
                let id = s.id;
                self.nd.note(|| format!("sleep {id} is dropped"));
                let r = caught(|| drop(s.sleep.borrow_mut().take()));
                holds!(self, [C04 C06 C07], r.is_ok(), "dropping sleep {id} panics: {}", r.as_ref().err().unwrap());
                if self.timer.is_some() {
                    self.called(woken)?;
                    self.all[k].changed = true;
                }
                self.all[k].dropped = true;
                Ok(())
            }
            10..=12 if !live.is_empty() && (self.timer.is_some() || !cfg!(target_arch = "wasm32")) => {
                let k = live[self.nd.below(live.len() as u64) as usize];
                let t = self.nd.below(self.tasks.len() as u64) as usize;
                let waker = futures::task::waker(self.tasks[t].clone());
                let n = self.tasks[t].0.load(SeqCst);
                let s = &self.all[k];
                let (id, state) = (s.id, s.state);
                let r = caught(|| {
                    let mut sl = s.sleep.borrow_mut();
                    std::future::Future::poll(sl.as_mut().unwrap().as_mut(), &mut Context::from_waker(&waker))
                });
                self.nd.note(|| format!("poll of sleep {id} by task {t} is {r:?}"));
                match state {
                    State::Pending => {
                        holds!(self, [C07], r == Ok(Poll::Pending), "poll of the pending sleep {id} is {r:?}");
                        self.all[k].waiting = Some((t, n));
                    }
                    State::Complete => {
                        holds!(self, [C07], r == Ok(Poll::Ready(())), "poll of the complete sleep {id} is {r:?}")
                    }
                    State::Gone => {
                        holds!(self, [C07], r.is_err(), "poll of sleep {id}, whose timer has gone, is {r:?}")
                    }
                    State::Unknown => holds!(self, [C07], r != Ok(Poll::Pending), "poll of sleep {id}, whose timer has gone, is pending"),
                }
                Ok(())
            }
            13 if self.nd.below(6) == 0 => {
                if self.timer.is_none() {
                    return Ok(());
                }
                let plan = self.plan();
                self.nd.note(|| "the timer is dropped".into());
                let before: Vec<_> = self.tasks.iter().map(|t| t.0.load(SeqCst)).collect();
                let t = self.timer.take();
                let r = caught(|| drop(t));
                holds!(self, [C04 C06 C07], r.is_ok(), "dropping the timer panics: {}", r.as_ref().err().unwrap());
                let acted = plan.filter(|_| self.acted());
                for s in &mut self.all {
                    s.recorded = None;
                    s.changed = false;
                    if s.state == State::Pending {
                        s.state = State::Gone;
                    }
                    if let (Some((id, at)), false) = (acted, s.dropped) {
                        if s.id == id {
                            s.deadline = at;
                            if s.state == State::Complete {
                                s.state = State::Unknown;
                            }
                        }
                    }
                }
                self.wakes(before, None)
            }
            14 | 15 => {
                self.turn()?;
                self.next_event()
            }
            16 => self.turn(),
            _ => {
                if self.nd.below(4) > 0 {
                    self.turn()?;
                }
                self.advance()
            }
        }
    }
}

fn run(nd: &mut Choices, prop: P) -> R {
    ACTIONS.with(|a| a.borrow_mut().clear());
    let timer = Timer::new();
    let handle = timer.handle();
    let steps = 3 + nd.below(80);
    let zero = Instant::now();
    let mut s = Sim {
        prop,
        nd,
        zero,
        timer: Some(timer),
        handle,
        all: Vec::new(),
        tasks: (0..3).map(|_| Arc::default()).collect(),
        driver: Task::new(),
        now: 0,
        next_id: 0,
    };
    s.turn()?;
    for _ in 0..steps {
        s.step()?;
        s.next_event()?;
        s.states()?;
    }
    Ok(())
}

pub fn c04(nd: &mut Choices) -> R {
    run(nd, C04)
}
pub fn c06(nd: &mut Choices) -> R {
    run(nd, C06)
}
pub fn c07(nd: &mut Choices) -> R {
    run(nd, C07)
}
