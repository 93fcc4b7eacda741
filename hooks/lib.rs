pub use crate::timer::verif as timer;
#[cfg(feature = "tokio-util")]
pub use crate::tokio_util::verif as tokio_util;
