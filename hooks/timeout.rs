#[cfg(vh_parts)]
impl<F> super::Timeout<F> {
    /// A timeout in a given state.
    pub fn verif_of(delay: crate::tokio::Sleep, future: F) -> super::Timeout<F> {
        super::Timeout { delay, future }
    }
    pub fn verif_delay(&self) -> &crate::tokio::Sleep {
        &self.delay
    }
}
