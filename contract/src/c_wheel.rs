//! C13: the wheel itself, with slots that are vectors, against a map.
use crate::nd::{Choices, Nd, R};
use crate::sim::caught;
use wasmtimer::verif::tokio_util::wheel::TestWheel;

/// A distance of all the magnitudes that matter, at most 2^36 - 1.
fn distance(nd: &mut Choices) -> u64 {
    let unit = 1u64 << (6 * nd.below(6));
    let d = match nd.below(8) {
        0 => nd.below(4),
        1 => unit * nd.below(65) + nd.below(3),
        2 => (unit * (1 + nd.below(64))).saturating_sub(1 + nd.below(2)),
        3 => unit * nd.below(65) + nd.below(unit * 2),
        4 => (1 << 36) - 1 - nd.below(3),
        5 => nd.below(1 << 36),
        _ => nd.below(300),
    };
    d.min((1 << 36) - 1)
}

pub fn wheel(nd: &mut Choices) -> R {
    let mut w = TestWheel::new();
    // (key, when)
    let mut all: Vec<(usize, u64)> = Vec::new();
    let mut now = w.elapsed();
    check!(now == 0, "a new wheel has processed {now}");
    let start = match nd.below(4) {
        0 => distance(nd),
        1 => nd.below(64) * ((1 << 36) - 1),
        _ => 0,
    };
    if start > 0 {
        let r = caught(|| w.poll(start));
        check!(r == Ok(None), "an empty wheel yields {r:?}");
        now = start;
        nd.note(|| format!("processed up to {start}"));
    }
    for _ in 0..4 + nd.below(80) {
        let e = w.elapsed();
        check!(e == now, "the wheel has processed {e}, not {now}");
        match nd.below(9) {
            0..=3 => {
                let when = match nd.below(10) {
                    0 => now.saturating_sub(nd.below(100)),
                    1 => now + (1 << 36) + nd.below(3),
                    2 if !all.is_empty() => all[nd.below(all.len() as u64) as usize].1,
                    _ => now + distance(nd),
                };
                nd.note(|| format!("insert for {when}"));
                let r = caught(|| w.insert(when));
                check!(r.is_ok(), "insert for {when} at {now} panics: {}", r.as_ref().err().unwrap());
                match r.unwrap() {
                    Some((key, true)) => {
                        // (What is already due may be refused, what is not must come out in time.)
                        check!(when - now.min(when) < 1 << 36, "{when}, too far ahead of {now}, is accepted");
                        check!(when > now, "{when} is accepted at {now}, when it is due already");
                        all.push((key, when));
                    }
                    Some((_, false)) => check!(when <= now, "{when} is called elapsed at {now}"),
                    None => check!(when > now && when - now >= 1 << 36, "{when} is called too far ahead at {now}"),
                }
            }
            4 if !all.is_empty() => {
                let (key, when) = all.remove(nd.below(all.len() as u64) as usize);
                nd.note(|| format!("remove the entry for {when}"));
                let r = caught(|| w.remove(key));
                check!(r.is_ok(), "removing the entry for {when} at {now} panics: {}", r.as_ref().err().unwrap());
            }
            k => {
                let min = all.iter().map(|x| x.1).min();
                let to = match (k, min) {
                    (5, Some(m)) => m,
                    (6, Some(m)) => m.saturating_sub(1).max(now),
                    (7, _) => w.poll_at().unwrap_or(now).max(now),
                    _ => now + distance(nd),
                };
                nd.note(|| format!("process up to {to}"));
                loop {
                    let min = all.iter().map(|x| x.1).min();
                    let r = caught(|| w.poll(to));
                    check!(r.is_ok(), "processing up to {to} panics: {}", r.as_ref().err().unwrap());
                    match r.unwrap() {
                        None => {
                            check!(min.map_or(true, |m| m > to), "nothing comes out up to {to}, but an entry is for {min:?}");
                            break;
                        }
                        Some(key) => {
                            nd.reached();
                            let i = all.iter().position(|x| x.0 == key);
                            check!(i.is_some(), "an entry that is not in the wheel comes out");
                            let (_, when) = all.remove(i.unwrap());
                            nd.note(|| format!("the entry for {when} comes out"));
                            check!(when <= to, "the entry for {when} comes out at {to}");
                            check!(Some(when) == min, "the entry for {when} comes out before one for {min:?}");
                            let e = w.elapsed();
                            check!(e <= to && e >= now, "the wheel has processed {e} when polled for {to} at {now}");
                            now = e;
                            if nd.below(6) == 0 {
                                break;
                            }
                        }
                    }
                }
                if all.iter().all(|x| x.1 > to) {
                    let r = caught(|| w.poll(to));
                    check!(r == Ok(None), "processing up to {to} again yields {r:?}");
                    now = to;
                }
            }
        }
        let e = w.elapsed();
        let at = w.poll_at();
        let min = all.iter().map(|x| x.1).min();
        match (at, min) {
            (None, None) => {}
            (Some(at), Some(min)) => check!(at <= min && at >= e, "the wake-up is at {at}, with {e} processed and the first entry for {min}"),
            (at, min) => check!(false, "the wake-up is at {at:?}, but the first entry is for {min:?}"),
        }
    }
    Ok(())
}
