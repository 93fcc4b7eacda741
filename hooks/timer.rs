#[cfg(vh_heap)]
pub use super::heap::{Heap, Slot};
#[cfg(vh_arc)]
pub use super::arc_list::{ArcList, Node};
#[cfg(vh_timer)]
pub use super::{Timer, TimerHandle};
#[cfg(vh_driver)]
pub use super::Inner;
#[cfg(all(vh_clock, feature = "tokio-test-util"))]
pub use super::clock::verif as clock;
#[cfg(vh_parts)]
pub use super::ScheduledTimer;
