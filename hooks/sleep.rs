#[cfg(vh_timer)]
impl super::Sleep {
    pub fn verif_new_handle(at: crate::std::Instant, handle: crate::timer::TimerHandle) -> super::Sleep {
        super::Sleep::new_handle(at, handle)
    }
}

#[cfg(vh_state)]
impl super::Sleep {
    /// Sets the generation of a sleep that was just made.
    pub fn verif_set_generation(&self, generation: usize) {
        if let Some(state) = &self.state {
            state.state.store(generation << 2, std::sync::atomic::Ordering::SeqCst)
        }
    }
}

#[cfg(vh_parts)]
mod parts {
    use super::super::{Node, ScheduledTimer, Sleep};
    use crate::std::Instant;
    use std::sync::Arc;

    impl Sleep {
        /// A sleep in a given state.
        pub fn verif_of(state: Option<Arc<Node<ScheduledTimer>>>, deadline: Instant) -> Sleep {
            Sleep { state, deadline }
        }
        pub fn verif_set_deadline(&mut self, deadline: Instant) {
            self.deadline = deadline
        }
        pub fn verif_state(&self) -> Option<&Arc<Node<ScheduledTimer>>> {
            self.state.as_ref()
        }
    }
}
