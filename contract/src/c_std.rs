//! C01 and C02: arithmetic and ordering of instants and wall-clock times.
use crate::nd::{Nd, R};
use std::cmp::Ordering;
use std::time::Duration;
use wasmtimer::std::{Instant, SystemTime, UNIX_EPOCH};

pub const NANOS: u32 = 1_000_000_000;

/// Seconds and nanoseconds, the mathematical value of an instant or duration.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct T {
    pub s: u64,
    pub n: u32,
}

impl T {
    pub fn any<N: Nd>(nd: &mut N) -> R<T> {
        let s = nd.u64();
        let n = nd.u32();
        nd.assume(n < NANOS)?;
        Ok(T { s, n })
    }
    pub fn dur(self) -> Duration {
        Duration::new(self.s, self.n)
    }
    pub fn of(d: Duration) -> T {
        T {
            s: d.as_secs(),
            n: d.subsec_nanos(),
        }
    }
    pub fn add(self, o: T) -> Option<T> {
        let n = self.n + o.n;
        let (n, c) = if n >= NANOS { (n - NANOS, 1) } else { (n, 0) };
        let s = self.s as u128 + o.s as u128 + c;
        if s > u64::MAX as u128 {
            None
        } else {
            Some(T { s: s as u64, n })
        }
    }
    pub fn sub(self, o: T) -> Option<T> {
        if self < o {
            return None;
        }
        let (n, b) = if self.n >= o.n { (self.n - o.n, 0) } else { (self.n + NANOS - o.n, 1) };
        Some(T {
            s: self.s - o.s - b,
            n,
        })
    }
}

/// The origin of time.
fn zero() -> Instant {
    wasm_bindgen::host::set_now(0.0);
    Instant::now()
}

/// The instant `t` after the origin.
fn at(z: Instant, t: T) -> Instant {
    z.checked_add(t.dur()).expect("every duration after the origin is an instant")
}

fn since(z: Instant, i: Instant) -> T {
    T::of(i.checked_duration_since(z).expect("no instant is before the origin"))
}

/// C01, the checked and saturating forms and the ordering: nothing here may panic.
pub fn instant_checked<N: Nd>(nd: &mut N) -> R {
    let z = zero();
    let (a, b) = (T::any(nd)?, T::any(nd)?);
    nd.note(|| format!("instants at {a:?} and {b:?} after the origin"));
    let (i, j) = (at(z, a), at(z, b));
    check!(since(z, i) == a, "origin + {a:?} is {:?} after the origin", since(z, i));
    nd.reached();

    let sum = i.checked_add(b.dur()).map(|x| since(z, x));
    check!(sum == a.add(b), "{a:?} checked_add {b:?} = {sum:?}, not {:?}", a.add(b));
    let dif = i.checked_sub(b.dur()).map(|x| since(z, x));
    check!(dif == a.sub(b), "{a:?} checked_sub {b:?} = {dif:?}, not {:?}", a.sub(b));

    let dist = a.sub(b);
    let sat = dist.unwrap_or(T { s: 0, n: 0 });
    let got = i.checked_duration_since(j).map(T::of);
    check!(got == dist, "{a:?} checked_duration_since {b:?} = {got:?}, not {dist:?}");
    let got = T::of(i.saturating_duration_since(j));
    check!(got == sat, "{a:?} saturating_duration_since {b:?} = {got:?}, not {sat:?}");
    let got = T::of(i.duration_since(j));
    check!(got == sat, "{a:?} duration_since {b:?} = {got:?}, not {sat:?}");
    let got = T::of(i - j);
    check!(got == sat, "{a:?} - {b:?} = {got:?}, not {sat:?}");

    check!((i == j) == (a == b), "equality of {a:?} and {b:?} is {}", i == j);
    check!((i != j) == (a != b), "inequality of {a:?} and {b:?} is {}", i != j);
    check!(i.cmp(&j) == a.cmp(&b), "cmp of {a:?} and {b:?} is {:?}", i.cmp(&j));
    check!(
        i.partial_cmp(&j) == Some(a.cmp(&b)),
        "partial_cmp of {a:?} and {b:?} is {:?}",
        i.partial_cmp(&j)
    );
    check!((i < j) == (a < b) && (i <= j) == (a <= b), "{a:?} < {b:?} is {}", i < j);
    check!((i > j) == (a > b) && (i >= j) == (a >= b), "{a:?} > {b:?} is {}", i > j);
    let k = i;
    check!(k == i && k.cmp(&i) == Ordering::Equal, "a copy of {a:?} differs from it");
    Ok(())
}

/// C01, the operators where the result is representable: exact, and no panic.
pub fn instant_ops<N: Nd>(nd: &mut N) -> R {
    let z = zero();
    let (a, b) = (T::any(nd)?, T::any(nd)?);
    nd.note(|| format!("instant at {a:?} after the origin, duration {b:?}"));
    let i = at(z, a);
    if let Some(sum) = a.add(b) {
        nd.reached();
        let got = since(z, i + b.dur());
        check!(got == sum, "{a:?} + {b:?} = {got:?}, not {sum:?}");
        let mut k = i;
        k += b.dur();
        check!(since(z, k) == sum, "{a:?} += {b:?} gives {:?}, not {sum:?}", since(z, k));
    }
    if let Some(dif) = a.sub(b) {
        nd.reached();
        let got = since(z, i - b.dur());
        check!(got == dif, "{a:?} - {b:?} = {got:?}, not {dif:?}");
        let mut k = i;
        k -= b.dur();
        check!(since(z, k) == dif, "{a:?} -= {b:?} gives {:?}, not {dif:?}", since(z, k));
    }
    Ok(())
}

/// C01, the operators where the result is not representable. They must panic; returns
/// what came back instead.
pub fn instant_overflow<N: Nd>(nd: &mut N, op: u64) -> R<Option<Instant>> {
    let z = zero();
    let (a, b) = (T::any(nd)?, T::any(nd)?);
    nd.note(|| format!("operator {op} on the instant at {a:?} and the duration {b:?}"));
    let mut i = at(z, a);
    nd.assume(if op < 2 { a.add(b).is_none() } else { a.sub(b).is_none() })?;
    nd.reached();
    match op {
        0 => return Ok(Some(i + b.dur())),
        1 => i += b.dur(),
        2 => return Ok(Some(i - b.dur())),
        _ => i -= b.dur(),
    }
    Ok(Some(i))
}

/// C01: an operator whose result is not representable panics.
pub fn instant_must_panic(nd: &mut crate::nd::Choices, op: u64) -> R {
    use crate::nd::Stop;
    let mut out = Err(Stop::Skip);
    if crate::panics(true, || out = instant_overflow(nd, op)) {
        return Ok(());
    }
    match out {
        Ok(_) => Err(Stop::Violation(format!(
            "operator {op} returned although the result is not representable"
        ))),
        Err(e) => Err(e),
    }
}

pub fn instant(nd: &mut crate::nd::Choices) -> R {
    match nd.below(4) {
        0 | 1 => instant_checked(nd),
        2 => instant_ops(nd),
        _ => {
            let op = nd.below(4);
            instant_must_panic(nd, op)
        }
    }?;
    // Readings of the clock: what the host says, to the microsecond.
    let k = nd.below(1 << 40);
    let z = zero();
    wasm_bindgen::host::set_now(k as f64 / 8.0);
    let got = T::of(Instant::now().duration_since(z));
    wasm_bindgen::host::set_now(0.0);
    let want = T::of(Duration::from_micros(k * 125));
    check!(got == want, "the clock reads {} ms, but the instant is {got:?}", k as f64 / 8.0);
    Ok(())
}

/// Largest number of milliseconds considered.
pub const MAX_MS: u64 = (1 << 53) - 1;

/// The wall-clock time `ms` after the epoch.
fn sys(ms: i64) -> SystemTime {
    if ms < 0 {
        UNIX_EPOCH - Duration::from_millis(ms.unsigned_abs())
    } else {
        UNIX_EPOCH + Duration::from_millis(ms as u64)
    }
}

/// Milliseconds since the epoch, exactly.
fn millis(t: SystemTime) -> R<i64> {
    match t.duration_since(UNIX_EPOCH) {
        Ok(d) => {
            check!(d.subsec_nanos() % 1_000_000 == 0, "distance {d:?} is not in milliseconds");
            Ok((d.as_secs() * 1000 + (d.subsec_nanos() / 1_000_000) as u64) as i64)
        }
        Err(e) => {
            let d = e.duration();
            check!(d.subsec_nanos() % 1_000_000 == 0, "distance {d:?} is not in milliseconds");
            check!(d != Duration::ZERO, "an error with an empty distance");
            Ok(-((d.as_secs() * 1000 + (d.subsec_nanos() / 1_000_000) as u64) as i64))
        }
    }
}

fn any_ms<N: Nd>(nd: &mut N) -> R<i64> {
    let v = nd.i64();
    nd.assume(v >= -(MAX_MS as i64) && v <= MAX_MS as i64)?;
    Ok(v)
}

/// C02: distances and ordering of two times.
pub fn system_pair<N: Nd>(nd: &mut N) -> R {
    let (a, b) = (any_ms(nd)?, any_ms(nd)?);
    nd.assume((a - b).unsigned_abs() <= MAX_MS)?;
    nd.note(|| format!("times {a} ms and {b} ms after the epoch"));
    let (s, t) = (sys(a), sys(b));
    nd.reached();
    match s.duration_since(t) {
        Ok(d) => {
            check!(a >= b, "duration_since of {a} and {b} is {d:?}, not an error");
            let want = Duration::from_millis((a - b) as u64);
            check!(d == want, "duration_since of {a} and {b} is {d:?}, not {want:?}");
        }
        Err(e) => {
            check!(a < b, "duration_since of {a} and {b} is an error");
            let (got, want) = (e.duration(), Duration::from_millis((b - a) as u64));
            check!(got == want, "duration_since of {a} and {b} fails with {got:?}, not {want:?}");
        }
    }
    check!((s == t) == (a == b), "equality of {a} and {b} is {}", s == t);
    check!((s != t) == (a != b), "inequality of {a} and {b} is {}", s != t);
    check!(s.cmp(&t) == a.cmp(&b), "cmp of {a} and {b} is {:?}", s.cmp(&t));
    check!(s.partial_cmp(&t) == Some(a.cmp(&b)), "partial_cmp of {a} and {b} is {:?}", s.partial_cmp(&t));
    check!((s < t) == (a < b) && (s <= t) == (a <= b), "{a} < {b} is {}", s < t);
    check!((s > t) == (a > b) && (s >= t) == (a >= b), "{a} > {b} is {}", s > t);
    check!(
        UNIX_EPOCH == SystemTime::UNIX_EPOCH && millis(SystemTime::UNIX_EPOCH)? == 0,
        "the epoch constants differ"
    );
    Ok(())
}

/// C02: adding and subtracting a duration.
pub fn system_shift<N: Nd>(nd: &mut N) -> R {
    let a = any_ms(nd)?;
    let d = T::any(nd)?;
    nd.assume(d.s <= MAX_MS / 1000)?;
    let ms = (d.s * 1000 + (d.n / 1_000_000) as u64) as i64;
    nd.assume(ms <= MAX_MS as i64)?;
    nd.note(|| format!("time {a} ms after the epoch, duration {d:?}"));
    let s = sys(a);
    let (up, down) = (a + ms, a - ms);
    if up.unsigned_abs() <= MAX_MS {
        nd.reached();
        let got = millis(s + d.dur())?;
        check!(got == up, "{a} + {d:?} = {got}, not {up}");
        let mut t = s;
        t += d.dur();
        check!(millis(t)? == up, "{a} += {d:?} gives {}, not {up}", millis(t)?);
        let t = s.checked_add(d.dur());
        check!(t.is_some(), "{a} checked_add {d:?} is nothing");
        let got = millis(t.unwrap())?;
        check!(got == up, "{a} checked_add {d:?} = {got}, not {up}");
    }
    if down.unsigned_abs() <= MAX_MS {
        nd.reached();
        let got = millis(s - d.dur())?;
        check!(got == down, "{a} - {d:?} = {got}, not {down}");
        let mut t = s;
        t -= d.dur();
        check!(millis(t)? == down, "{a} -= {d:?} gives {}, not {down}", millis(t)?);
        let t = s.checked_sub(d.dur());
        check!(t.is_some(), "{a} checked_sub {d:?} is nothing");
        let got = millis(t.unwrap())?;
        check!(got == down, "{a} checked_sub {d:?} = {got}, not {down}");
    }
    Ok(())
}

/// The wall-clock time whose distance from the epoch is `ms`, read from the host.
fn host_time(ms: f64) -> SystemTime {
    wasm_bindgen::host::set_date(ms);
    SystemTime::now()
}

fn any_finite<N: Nd>(nd: &mut N) -> R<f64> {
    let x = f64::from_bits(nd.u64());
    nd.assume(x.is_finite())?;
    Ok(x)
}

/// C02 in terms of the doubles the host gives and IEEE arithmetic on them: for all finite
/// ones. (Sums and differences of whole numbers are exact as long as they stay within 53
/// bits, which is what makes this the contract in whole milliseconds.)
pub fn float_pair<N: Nd>(nd: &mut N) -> R {
    let (x, y) = (any_finite(nd)?, any_finite(nd)?);
    let (s, t) = (host_time(x), host_time(y));
    nd.note(|| format!("times at {x} ms and {y} ms"));
    nd.reached();
    let dist = x - y;
    match s.duration_since(t) {
        Ok(d) => {
            check!(!(dist < 0.0), "duration_since of {x} and {y} is {d:?}, not an error");
            check!(d == Duration::from_millis(dist as u64), "duration_since of {x} and {y} is {d:?}");
        }
        Err(e) => {
            check!(dist < 0.0, "duration_since of {x} and {y} is an error");
            let want = Duration::from_millis((-dist) as u64);
            check!(e.duration() == want, "duration_since of {x} and {y} fails with {:?}", e.duration());
        }
    }
    check!((s == t) == (x == y), "equality of {x} and {y} is {}", s == t);
    check!((s != t) == (x != y), "inequality of {x} and {y} is {}", s != t);
    let ord = if x < y { Ordering::Less } else if x > y { Ordering::Greater } else { Ordering::Equal };
    check!(s.cmp(&t) == ord, "cmp of {x} and {y} is {:?}", s.cmp(&t));
    check!(s.partial_cmp(&t) == Some(ord), "partial_cmp of {x} and {y} is {:?}", s.partial_cmp(&t));
    check!((s < t) == (x < y) && (s <= t) == (x <= y), "{x} < {y} is {}", s < t);
    check!((s > t) == (x > y) && (s >= t) == (x >= y), "{x} > {y} is {}", s > t);
    let z = host_time(0.0);
    check!(UNIX_EPOCH == z && SystemTime::UNIX_EPOCH == z, "the epoch constants are not at zero");
    Ok(())
}

/// C02, see [`float_pair`]: shifting by a duration.
pub fn float_shift<N: Nd>(nd: &mut N) -> R {
    let x = any_finite(nd)?;
    let d = T::any(nd)?;
    let ms = (d.s as u128 * 1000 + (d.n / 1_000_000) as u128) as f64;
    nd.note(|| format!("time at {x} ms, duration {d:?}"));
    nd.reached();
    let s = host_time(x);
    let (up, down) = (host_time(x + ms), host_time(x - ms));
    check!(s + d.dur() == up, "{x} + {d:?} is not {}", x + ms);
    check!(s.checked_add(d.dur()) == Some(up), "{x} checked_add {d:?} is not {}", x + ms);
    let mut t = s;
    t += d.dur();
    check!(t == up, "{x} += {d:?} is not {}", x + ms);
    check!(s - d.dur() == down, "{x} - {d:?} is not {}", x - ms);
    check!(s.checked_sub(d.dur()) == Some(down), "{x} checked_sub {d:?} is not {}", x - ms);
    let mut t = s;
    t -= d.dur();
    check!(t == down, "{x} -= {d:?} is not {}", x - ms);
    Ok(())
}

/// A duration of whole milliseconds has exactly those.
pub fn from_millis_exact<N: Nd>(nd: &mut N) -> R {
    let k = nd.u64();
    nd.assume(k <= MAX_MS)?;
    let d = Duration::from_millis(k);
    nd.reached();
    check!(
        d.as_secs() * 1000 + d.subsec_millis() as u64 == k && d.subsec_nanos() % 1_000_000 == 0,
        "a duration of {k} ms is {d:?}"
    );
    Ok(())
}

pub fn system_time(nd: &mut crate::nd::Choices) -> R {
    match nd.below(8) {
        0 => float_pair(nd)?,
        1 => float_shift(nd)?,
        2..=4 => system_pair(nd)?,
        _ => system_shift(nd)?,
    }
    let k = nd.below(1 << 50);
    wasm_bindgen::host::set_date(k as f64);
    let got = millis(SystemTime::now())?;
    check!(got == k as i64, "the host says {k} ms, the wall-clock time is {got}");
    let e = sys(0).elapsed().map_err(|e| e.duration());
    check!(e == Ok(Duration::from_millis(k)), "elapsed since the epoch at {k} ms is {e:?}");
    Ok(())
}

#[cfg(kani)]
mod proofs {
    use super::*;
    use crate::nd::Any;

    #[kani::proof]
    fn c01_checked() {
        let _ = instant_checked(&mut Any);
    }
    #[kani::proof]
    fn c01_ops() {
        let _ = instant_ops(&mut Any);
    }
    macro_rules! must_panic {
        ($($name:ident $op:literal)*) => {$(
            #[kani::proof]
            #[kani::should_panic]
            fn $name() {
                let _ = instant_overflow(&mut Any, $op);
                kani::cover!(true, "must-panic: returned");
            }
        )*};
    }
    must_panic!(c01_add_panics 0 c01_add_assign_panics 1 c01_sub_panics 2 c01_sub_assign_panics 3);

    #[kani::proof]
    fn c02_pair() {
        let _ = float_pair(&mut Any);
    }
    #[kani::proof]
    fn c02_shift() {
        let _ = float_shift(&mut Any);
    }
    #[kani::proof]
    fn c02_millis() {
        let _ = from_millis_exact(&mut Any);
    }
}
