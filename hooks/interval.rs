#[cfg(vh_interval)]
impl super::MissedTickBehavior {
    pub fn verif_next_timeout(
        &self,
        timeout: crate::std::Instant,
        now: crate::std::Instant,
        period: std::time::Duration,
    ) -> crate::std::Instant {
        self.next_timeout(timeout, now, period)
    }
}

#[cfg(vh_parts)]
impl super::Interval {
    /// An interval in a given state.
    pub fn verif_of(
        sleep: crate::tokio::Sleep,
        interval: std::time::Duration,
        missed_tick_behavior: super::MissedTickBehavior,
    ) -> super::Interval {
        super::Interval { sleep, interval, missed_tick_behavior }
    }
    pub fn verif_sleep(&self) -> &crate::tokio::Sleep {
        &self.sleep
    }
}
