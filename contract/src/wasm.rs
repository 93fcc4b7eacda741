//! The executable contracts on the target itself, with its 32-bit `usize`: wasm.js runs them in an
//! instance of this module. A panic ends the instance, so panics that a contract asks for are
//! not provoked here.
use crate::nd::{Choices, Stop};
use std::cell::RefCell;

thread_local! {
    static TEXT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}

fn say(s: String) {
    TEXT.with(|t| *t.borrow_mut() = s.into_bytes());
}

/// Names the contracts.
#[no_mangle]
pub extern "C" fn contract_list() {
    crate::quiet_panics();
    let names: Vec<String> = crate::all().iter().map(|c| format!("{} {}", c.name, c.fork as u8)).collect();
    say(names.join("\n"));
}

/// 0: held; 1: held, and the case was non-trivial; 2: skipped; 3: violated.
#[no_mangle]
pub extern "C" fn contract_run(n: usize, hi: u32, lo: u32, log: u32) -> u32 {
    crate::quiet_panics();
    let c = &crate::all()[n];
    let mut nd = Choices::random((hi as u64) << 32 | lo as u64);
    if log != 0 {
        nd.log = Some(Vec::new());
    }
    let out = (c.run)(&mut nd);
    let log = nd.log.take().unwrap_or_default().join("\n");
    match out {
        Ok(()) => {
            say(log);
            nd.reached as u32
        }
        Err(Stop::Skip) => 2,
        Err(Stop::Violation(m)) => {
            say(format!("{m}\n{log}"));
            3
        }
    }
}

/// After a panic: whether it counts.
#[no_mangle]
pub extern "C" fn contract_panic() -> u32 {
    say(crate::LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default());
    crate::sim::BLAME.with(|b| b.get()) as u32
}

#[no_mangle]
pub extern "C" fn contract_text() -> usize {
    TEXT.with(|t| t.borrow().as_ptr() as usize)
}

#[no_mangle]
pub extern "C" fn contract_text_len() -> usize {
    TEXT.with(|t| t.borrow().len())
}
