//! `contract search PROP --seed S --secs T [--max N] --out FILE` runs the executable form of a
//! property's contract on random, boundary-biased cases; `contract replay FILE` runs one
//! recorded case. Exit status: 0 held, 1 violated, 2 usage.
use contract::nd::{Choices, Stop};
use contract::{find, Contract};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(secs: u32) -> u32;
    fn signal(sig: i32, handler: usize) -> usize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
}

/// Seconds after which a batch of cases (or one case, in a process of its own) hangs.
const HANG: u32 = 20;
static CASE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

extern "C" fn hung(_: i32) {
    let text = format!("HANG {}\n", CASE.load(std::sync::atomic::Ordering::SeqCst));
    unsafe {
        write(1, text.as_ptr(), text.len());
        _exit(3)
    }
}

/// Held (and whether the case was non-trivial), skipped, or violated.
#[derive(Debug)]
enum Outcome {
    Held(bool),
    Skip,
    Violated(String),
}

fn run(c: &Contract, nd: &mut Choices) -> Outcome {
    contract::LAST_PANIC.with(|p| p.borrow_mut().take());
    match catch_unwind(AssertUnwindSafe(|| (c.run)(nd))) {
        Ok(Ok(())) => Outcome::Held(nd.reached),
        Ok(Err(Stop::Skip)) => Outcome::Skip,
        Ok(Err(Stop::Violation(m))) => Outcome::Violated(m),
        Err(_) => Outcome::Violated(format!(
            "unexpected panic: {}",
            contract::LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default()
        )),
    }
}

/// Runs a case in a process of its own, so that global state is fresh.
fn run_forked(c: &Contract, nd: &mut Choices) -> Outcome {
    let (mut rx, mut tx) = std::io::pipe().unwrap();
    let pid = unsafe { fork() };
    if pid == 0 {
        drop(rx);
        unsafe {
            signal(14, 0);
            alarm(HANG)
        };
        let out = run(c, nd);
        let (tag, msg) = match &out {
            Outcome::Held(r) => (*r as u8, String::new()),
            Outcome::Skip => (2, String::new()),
            Outcome::Violated(m) => (3, m.clone()),
        };
        let mut buf = vec![tag];
        buf.extend((nd.used().len() as u64).to_le_bytes());
        for v in nd.used() {
            buf.extend(v.to_le_bytes());
        }
        let log = nd.log.as_ref().map(|l| l.join("\n")).unwrap_or_default();
        buf.extend((log.len() as u64).to_le_bytes());
        buf.extend(log.as_bytes());
        buf.extend(msg.as_bytes());
        let _ = tx.write_all(&buf);
        unsafe { _exit(0) };
    }
    drop(tx);
    let mut buf = Vec::new();
    rx.read_to_end(&mut buf).unwrap();
    let mut status = 0;
    unsafe { waitpid(pid, &mut status, 0) };
    if buf.is_empty() {
        return Outcome::Violated(format!(
            "the process running the case was ended (wait status {status}; 14 means that it hung)"
        ));
    }
    let word = |at: usize| u64::from_le_bytes(buf[at..at + 8].try_into().unwrap());
    let n = word(1) as usize;
    let values = (0..n).map(|i| word(9 + 8 * i)).collect();
    let mut at = 9 + 8 * n;
    let l = word(at) as usize;
    at += 8;
    if let Some(log) = &mut nd.log {
        *log = String::from_utf8_lossy(&buf[at..at + l])
            .lines()
            .map(|l| l.to_string())
            .collect();
    }
    at += l;
    let logging = nd.log.take();
    *nd = Choices::replay(values);
    nd.log = logging;
    nd.skip_all();
    match buf[0] {
        0 => Outcome::Held(false),
        1 => Outcome::Held(true),
        2 => Outcome::Skip,
        _ => Outcome::Violated(String::from_utf8_lossy(&buf[at..]).into_owned()),
    }
}

fn exec(c: &Contract, nd: &mut Choices) -> Outcome {
    if c.fork {
        run_forked(c, nd)
    } else {
        run(c, nd)
    }
}

/// Shortens a failing case as long as it fails.
fn shrink(c: &Contract, mut best: Vec<u64>, deadline: Instant) -> Vec<u64> {
    let fails = |v: Vec<u64>| -> Option<Vec<u64>> {
        let mut nd = Choices::replay(v);
        match run_forked(c, &mut nd) {
            Outcome::Violated(_) => Some(nd.used().to_vec()),
            _ => None,
        }
    };
    let mut chunk = best.len() / 2;
    while Instant::now() < deadline {
        let mut progress = false;
        let mut i = 0;
        while chunk > 0 && i < best.len() && Instant::now() < deadline {
            let mut v = best.clone();
            v.drain(i..(i + chunk).min(v.len()));
            match fails(v) {
                Some(v) if v.len() < best.len() => {
                    best = v;
                    progress = true;
                }
                _ => i += chunk,
            }
        }
        if chunk > 1 {
            chunk /= 2;
            continue;
        }
        for i in 0..best.len() {
            for f in [|_: u64| 0, |x: u64| x / 2, |x: u64| x.saturating_sub(1)] {
                if i >= best.len() || best[i] == 0 || Instant::now() >= deadline {
                    break;
                }
                let mut v = best.clone();
                v[i] = f(v[i]);
                if let Some(w) = fails(v) {
                    if w.len() <= best.len() && w != best {
                        best = w;
                        progress = true;
                    }
                }
            }
        }
        if !progress {
            break;
        }
        chunk = 1;
    }
    best
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).map(|i| args[i + 1].clone())
}

fn describe(c: &Contract, values: &[u64]) -> (Option<String>, Vec<String>) {
    let mut nd = Choices::replay(values.to_vec());
    nd.log = Some(Vec::new());
    match run_forked(c, &mut nd) {
        Outcome::Violated(m) => (Some(m), nd.log.unwrap()),
        _ => (None, nd.log.unwrap()),
    }
}

fn main() {
    contract::quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in contract::all() {
                println!("{}", c.name);
            }
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let mut name = String::new();
            let mut values = Vec::new();
            let mut random = None;
            for line in text.lines() {
                if let Some(n) = line.strip_prefix("contract: ") {
                    name = n.trim().to_string();
                }
                if let Some(n) = line.strip_prefix("choices:") {
                    values = n.split_whitespace().map(|x| x.parse().unwrap()).collect();
                }
                if let Some(n) = line.strip_prefix("random: ") {
                    random = Some(n.trim().parse().unwrap());
                }
            }
            let c = find(&name).expect("contract");
            let (msg, log) = match random {
                Some(seed) => match run_forked(&c, &mut Choices::random(seed)) {
                    Outcome::Violated(m) => (Some(m), Vec::new()),
                    _ => (None, Vec::new()),
                },
                None => describe(&c, &values),
            };
            for l in log {
                println!("  {l}");
            }
            match msg {
                Some(m) => {
                    println!("violated: {m}");
                    std::process::exit(1);
                }
                None => println!("held"),
            }
        }
        Some("search") => {
            let mut c = find(&args[2]).expect("contract");
            c.fork |= args.iter().any(|a| a == "--fork");
            let seed: u64 = arg(&args, "--seed").map_or(1, |s| s.parse().unwrap());
            let secs: f64 = arg(&args, "--secs").map_or(5.0, |s| s.parse().unwrap());
            let max: u64 = arg(&args, "--max").map_or(u64::MAX, |s| s.parse().unwrap());
            let out = arg(&args, "--out");
            let end = Instant::now() + Duration::from_secs_f64(secs);
            let (mut evaluations, mut skipped) = (0u64, 0u64);
            let mut distinct = HashSet::new();
            let mut sample = Vec::new();
            let mut i: u64 = arg(&args, "--start").map_or(0, |s| s.parse().unwrap());
            unsafe { signal(14, hung as *const () as usize) };
            while Instant::now() < end && evaluations < max {
                unsafe { alarm(if c.fork { 0 } else { HANG }) };
                for _ in 0..16 {
                    let case = seed.wrapping_mul(1 << 32).wrapping_add(i);
                    CASE.store(i, std::sync::atomic::Ordering::SeqCst);
                    let mut nd = Choices::random(case);
                    i += 1;
                    match exec(&c, &mut nd) {
                        Outcome::Skip => skipped += 1,
                        Outcome::Held(reached) => {
                            evaluations += 1;
                            if reached && distinct.len() < 4_000_000 {
                                let mut h = std::collections::hash_map::DefaultHasher::new();
                                nd.used().hash(&mut h);
                                if distinct.insert(h.finish()) && sample.is_empty() {
                                    sample = nd.used().to_vec();
                                }
                            }
                        }
                        Outcome::Violated(m) => {
                            unsafe { alarm(0) };
                            let mut values = nd.used().to_vec();
                            let mut random = None;
                            let mut msg = m;
                            let mut log = Vec::new();
                            if let (Some(m), l) = describe(&c, &values) {
                                msg = m;
                                log = l;
                                values = shrink(&c, values, Instant::now() + Duration::from_secs(5));
                                if let (Some(m), l) = describe(&c, &values) {
                                    msg = m;
                                    log = l;
                                }
                            } else {
                                // A case that hung, or one that depends on earlier ones.
                                match run_forked(&c, &mut Choices::random(case)) {
                                    Outcome::Violated(m) => {
                                        msg = m;
                                        random = Some(case);
                                    }
                                    _ => msg.push_str(" (not reproduced in a process of its own)"),
                                }
                            }
                            let text = format!(
                                "contract: {}\nviolated: {}\ncase:\n  {}\n{}\nseed: {} case {}\n",
                                c.name,
                                msg.replace('\n', " "),
                                log.join("\n  "),
                                match random {
                                    Some(r) => format!("random: {r}"),
                                    None => format!(
                                        "choices: {}",
                                        values.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")
                                    ),
                                },
                                seed,
                                i - 1,
                            );
                            if let Some(out) = &out {
                                std::fs::write(out, &text).unwrap();
                            }
                            print!("{text}");
                            std::process::exit(1);
                        }
                    }
                }
            }
            let (_, log) = describe(&c, &sample);
            println!(
                "{{\"contract\":\"{}\",\"evaluations\":{evaluations},\"skipped\":{skipped},\"distinct_nontrivial\":{},\"sample\":{:?}}}",
                c.name,
                distinct.len(),
                log.join("; ")
            );
        }
        _ => std::process::exit(2),
    }
}
