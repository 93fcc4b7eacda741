//! Sources of choices. A contract is written once, against [`Nd`]; Kani decides it for
//! all values of the choices, the search below runs it on concrete ones, and a replay
//! feeds it the recorded ones.

/// Why a contract stopped early.
#[derive(Debug)]
pub enum Stop {
    /// A precondition does not hold for these choices.
    Skip,
    /// The contract is violated.
    Violation(String),
}

pub type R<T = ()> = Result<T, Stop>;

pub trait Nd {
    fn u64(&mut self) -> u64;
    fn u32(&mut self) -> u32;
    fn usize(&mut self) -> usize;
    fn i64(&mut self) -> i64;
    fn bool(&mut self) -> bool;
    /// A value below `n`, `n > 0`.
    fn below(&mut self, n: u64) -> u64;
    fn assume(&mut self, cond: bool) -> R;
    /// Notes that a case the contract is about was really reached.
    fn reached(&mut self) {}
    /// Notes an operation, for the record of a failing case.
    fn note(&mut self, _what: impl FnOnce() -> String)
    where
        Self: Sized,
    {
    }
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $($fmt:tt)*) => {{
        #[cfg(kani)]
        kani::assert($cond, concat!("contract: ", stringify!($cond)));
        #[cfg(not(kani))]
        if !$cond {
            return Err($crate::nd::Stop::Violation(format!($($fmt)*)));
        }
    }};
}

#[cfg(kani)]
pub struct Any;

#[cfg(kani)]
impl Nd for Any {
    fn u64(&mut self) -> u64 {
        kani::any()
    }
    fn u32(&mut self) -> u32 {
        kani::any()
    }
    fn usize(&mut self) -> usize {
        kani::any()
    }
    fn i64(&mut self) -> i64 {
        kani::any()
    }
    fn bool(&mut self) -> bool {
        kani::any()
    }
    fn below(&mut self, n: u64) -> u64 {
        let v: u64 = kani::any();
        kani::assume(v < n);
        v
    }
    fn assume(&mut self, cond: bool) -> R {
        kani::assume(cond);
        Ok(())
    }
    fn reached(&mut self) {
        kani::cover!(true, "reached");
    }
}

/// Concrete choices: recorded ones first, then random ones, biased towards boundaries.
pub struct Choices {
    pub values: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
    pub reached: bool,
    pub log: Option<Vec<String>>,
}

impl Choices {
    pub fn random(seed: u64) -> Choices {
        Choices {
            values: Vec::new(),
            pos: 0,
            rng: Some(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x5851_f42d_4c95_7f2d),
            reached: false,
            log: None,
        }
    }
    /// Replays `values`; whatever is asked for beyond them is zero.
    pub fn replay(values: Vec<u64>) -> Choices {
        Choices {
            values,
            pos: 0,
            rng: None,
            reached: false,
            log: None,
        }
    }
    pub fn used(&self) -> &[u64] {
        &self.values[..self.pos.min(self.values.len())]
    }
    fn rand(&mut self) -> u64 {
        // splitmix64
        let s = self.rng.as_mut().unwrap();
        *s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn next(&mut self, gen: impl FnOnce(&mut Self) -> u64) -> u64 {
        let v = if self.pos < self.values.len() {
            self.values[self.pos]
        } else if self.rng.is_some() {
            let v = gen(self);
            self.values.push(v);
            v
        } else {
            0
        };
        self.pos += 1;
        v
    }
    fn boundary(&mut self, bits: u32) -> u64 {
        let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        let r = self.rand();
        let small = (self.rand() % 4).wrapping_sub(1);
        let v = match r % 16 {
            0..=3 => self.rand() % 5,
            4 => max.wrapping_sub(self.rand() % 4),
            5 | 6 => (1u64 << (self.rand() % bits as u64)).wrapping_add(small),
            7 => (1u64 << (self.rand() % bits as u64 / 6 * 6)).wrapping_mul(self.rand() % 65).wrapping_add(small),
            8 => 1_000_000u64.wrapping_mul(self.rand() % 1_001).wrapping_add(small),
            9 => 1_000_000_000u64.wrapping_mul(self.rand() % 4).wrapping_add(small),
            10 => 1_000u64.wrapping_mul(self.rand() % 100_000).wrapping_add(small),
            11 => self.rand() % 1_000,
            12 => self.rand() % 1_000_000_000,
            13 => self.rand() >> (self.rand() % 64),
            _ => self.rand(),
        };
        v & max
    }
}

impl Nd for Choices {
    fn u64(&mut self) -> u64 {
        self.next(|c| c.boundary(64))
    }
    fn u32(&mut self) -> u32 {
        self.next(|c| c.boundary(32)) as u32
    }
    fn usize(&mut self) -> usize {
        self.next(|c| c.boundary(64)) as usize
    }
    fn i64(&mut self) -> i64 {
        self.next(|c| {
            let v = c.boundary(63);
            if c.rand() & 1 == 0 {
                v
            } else {
                (v as i64).wrapping_neg() as u64
            }
        }) as i64
    }
    fn bool(&mut self) -> bool {
        self.next(|c| c.rand() & 1) & 1 != 0
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next(|c| c.rand() % n) % n
    }
    fn assume(&mut self, cond: bool) -> R {
        if cond {
            Ok(())
        } else {
            Err(Stop::Skip)
        }
    }
    fn reached(&mut self) {
        self.reached = true
    }
    fn note(&mut self, what: impl FnOnce() -> String) {
        if let Some(log) = &mut self.log {
            log.push(what())
        }
    }
}

impl Choices {
    /// Marks all recorded values as used.
    pub fn skip_all(&mut self) {
        self.pos = self.values.len();
    }
}
