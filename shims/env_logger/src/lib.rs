//! Offline stand-in: logging is switched off.
pub fn init() {}
pub fn try_init() -> Result<(), ()> { Ok(()) }
