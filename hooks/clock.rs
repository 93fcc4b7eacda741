#[cfg(vh_clock)]
mod hook {
    use super::super::Clock;
    use crate::std::Instant;
    use std::time::Duration;

    /// A clock of its own, apart from the global one.
    pub struct TestClock(Clock);

    impl TestClock {
        pub fn new(start_paused: bool) -> TestClock {
            TestClock(Clock::new(start_paused))
        }
        /// A clock in a given state.
        #[cfg(vh_clockst)]
        pub fn of(base: Instant, unfrozen: Option<Instant>) -> TestClock {
            TestClock(Clock {
                inner: std::sync::Arc::new(super::super::Inner {
                    base: std::sync::Mutex::new(base),
                    unfrozen: std::sync::Mutex::new(unfrozen),
                }),
            })
        }
        pub fn pause(&self) {
            self.0.pause()
        }
        pub fn resume(&self) {
            self.0.resume()
        }
        pub fn advance(&self, duration: Duration) {
            self.0.advance(duration)
        }
        pub fn paused(&self) -> bool {
            self.0.paused()
        }
        pub fn now(&self) -> Instant {
            self.0.now()
        }
    }
}
#[cfg(vh_clock)]
pub use hook::TestClock;
