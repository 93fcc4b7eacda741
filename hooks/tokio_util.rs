pub use super::wheel::verif as wheel;

#[cfg(vh_ms)]
pub fn ms(duration: std::time::Duration, up: bool) -> u64 {
    super::ms(duration, if up { super::Round::Up } else { super::Round::Down })
}
