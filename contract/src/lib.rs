#![allow(clippy::all)]
#[macro_use]
pub mod nd;
pub mod sim;
pub mod c_std;
#[cfg(target_arch = "wasm32")]
pub mod wasm;
pub mod c_queue;
pub mod c_serde;
pub mod c_time;
pub mod c_driver;
pub mod c_ops;
#[cfg(vh_heap)]
pub mod c_heap;
#[cfg(vh_timer)]
pub mod c_timer;
#[cfg(vh_arc)]
pub mod c_arc;
#[cfg(vh_wheel)]
pub mod c_wheel;

use nd::{Choices, R};
use std::cell::RefCell;

thread_local! {
    pub static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Keeps panics quiet, and what they say for the report.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string().replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(text));
    }));
}

/// Runs `f`; true if it panics. Where a panic cannot be caught, `f` is not run if it is to panic.
pub fn panics<T>(expected: bool, f: impl FnOnce() -> T) -> bool {
    if cfg!(target_arch = "wasm32") {
        if !expected {
            f();
        }
        return expected;
    }
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}

pub struct Contract {
    pub name: &'static str,
    /// Whether each case needs fresh global state.
    pub fork: bool,
    pub run: fn(&mut Choices) -> R,
}

pub fn all() -> Vec<Contract> {
    let mut v = Vec::new();
    macro_rules! c {
        ($name:expr, $fork:literal, $f:expr) => {
            v.push(Contract { name: $name, fork: $fork, run: $f })
        };
    }
    c!("C01", false, c_std::instant);
    c!("C01.checked", false, c_std::instant_checked);
    c!("C01.ops", false, c_std::instant_ops);
    c!("C01.overflow0", false, |nd| c_std::instant_must_panic(nd, 0));
    c!("C01.overflow1", false, |nd| c_std::instant_must_panic(nd, 1));
    c!("C01.overflow2", false, |nd| c_std::instant_must_panic(nd, 2));
    c!("C01.overflow3", false, |nd| c_std::instant_must_panic(nd, 3));
    c!("C02", false, c_std::system_time);
    c!("C03", false, c_serde::round_trip);
    #[cfg(vh_heap)]
    c!("C04.heap", false, c_heap::heap);
    #[cfg(vh_timer)]
    c!("C04.timer", false, c_timer::c04);
    #[cfg(vh_arc)]
    c!("C05", false, c_arc::list);
    #[cfg(vh_timer)]
    c!("C06", false, c_timer::c06);
    #[cfg(vh_timer)]
    c!("C07", false, c_timer::c07);
    #[cfg(vh_interval)]
    c!("C08.next", false, c_time::next);
    #[cfg(vh_wheel)]
    c!("C13", false, c_wheel::wheel);
    #[cfg(vh_ms)]
    c!("C12.ms", false, c_ops::ms);
    #[cfg(all(feature = "tu", vh_clockst))]
    {
        c!("C10.ops", false, |nd| match nd::Nd::below(nd, 6) {
            0 => c_ops::clock::read(nd, false),
            1 => c_ops::clock::read(nd, true),
            op @ 2..=4 => c_ops::clock::op(nd, op - 2),
            _ => {
                let op = nd::Nd::below(nd, 3);
                c_ops::must_panic(nd, |nd| c_ops::clock::misuse(nd, op))
            }
        });
        c!("C10.read0", false, |nd| c_ops::clock::read(nd, false));
        c!("C10.read1", false, |nd| c_ops::clock::read(nd, true));
        c!("C10.pause", false, |nd| c_ops::clock::op(nd, 0));
        c!("C10.resume", false, |nd| c_ops::clock::op(nd, 1));
        c!("C10.advance", false, |nd| c_ops::clock::op(nd, 2));
        c!("C10.misuse0", false, |nd| c_ops::must_panic(nd, |nd| c_ops::clock::misuse(nd, 0)));
        c!("C10.misuse1", false, |nd| c_ops::must_panic(nd, |nd| c_ops::clock::misuse(nd, 1)));
        c!("C10.misuse2", false, |nd| c_ops::must_panic(nd, |nd| c_ops::clock::misuse(nd, 2)));
    }
    #[cfg(all(vh_parts, vh_arcst))]
    {
        use c_ops::parts::{self, Shape};
        macro_rules! shape {
            ($($name:literal $shape:ident)*) => {$(
                c!(concat!("C07.make.", $name), false, |nd| parts::make(nd, Shape::$shape));
                c!(concat!("C07.reset.", $name), false, |nd| parts::reset(nd, Shape::$shape));
                c!(concat!("C07.poll.", $name), false, |nd| parts::poll(nd, Shape::$shape));
                c!(concat!("C07.drop.", $name), false, |nd| parts::drop_it(nd, Shape::$shape));
                c!(concat!("C07.gone.", $name), false, |nd| c_ops::must_panic(nd, |nd| parts::poll_gone(nd, Shape::$shape)));
                c!(concat!("C09.poll.", $name), false, |nd| parts::timeout(nd, Shape::$shape));
            )*};
        }
        shape! { "open" Open "queued" Queued "closed" Closed "gone" Gone }
        // All of C07 at once.
        c!("C07.ops", false, |nd| {
            let s = [Shape::Open, Shape::Queued, Shape::Closed, Shape::Gone][nd::Nd::below(nd, 4) as usize];
            match nd::Nd::below(nd, 5) {
                0 => parts::make(nd, s),
                1 => parts::reset(nd, s),
                2 => parts::poll(nd, s),
                3 => parts::drop_it(nd, s),
                _ => c_ops::must_panic(nd, |nd| parts::poll_gone(nd, s)),
            }
        });
        c!("C08.tick", false, |nd| parts::tick(nd, Shape::Open, |_, _, _, _| None));
        c!("C08.reset", false, |nd| parts::reset_interval(nd, Shape::Open));
    }
    #[cfg(vh_arcst)]
    {
        c!("C05.push", false, c_ops::arc::push);
        c!("C05.take", false, c_ops::arc::take);
        c!("C05.pop", false, c_ops::arc::pop);
        c!("C05.drop", false, c_ops::arc::drop_it);
        c!("C05.new", false, c_ops::arc::fresh);
        c!("C05.ops", false, |nd| match nd::Nd::below(nd, 5) {
            0 => c_ops::arc::push(nd),
            1 => c_ops::arc::take(nd),
            2 => c_ops::arc::pop(nd),
            3 => c_ops::arc::drop_it(nd),
            _ => c_ops::arc::fresh(nd),
        });
    }
    c!("C08", true, c_time::c08);
    c!("C09", true, c_time::c09);
    c!("C10", true, c_time::c10);
    c!("C06.public", true, c_driver::c06);
    c!("C07.public", true, c_driver::c07);
    c!("C11", true, c_driver::c11);
    c!("C12", true, c_queue::c12);
    c!("C13.queue", true, c_queue::c13);
    c!("C14", true, c_queue::c14);
    c!("C15", true, c_queue::c15);
    c!("C16", true, c_queue::c16);
    c!("C17", true, c_queue::c17);
    v
}

pub fn find(name: &str) -> Option<Contract> {
    all().into_iter().find(|c| c.name == name)
}
