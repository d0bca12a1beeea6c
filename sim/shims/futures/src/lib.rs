//! The futures façade over the real futures-util and futures-channel (the façade crate's own executor is not installed).
pub use futures_util::*;
pub mod channel { pub use futures_channel::*; }
