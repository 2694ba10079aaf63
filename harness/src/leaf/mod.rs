#[cfg(feature = "chunk")]
pub mod chunk;
#[cfg(feature = "duration")]
pub mod duration;
#[cfg(feature = "etcenv")]
pub mod etcenv;
#[cfg(feature = "keys")]
pub mod keys;
#[cfg(feature = "sentinel")]
pub mod sentinel;
#[cfg(feature = "template")]
pub mod template;
