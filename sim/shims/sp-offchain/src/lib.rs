//! Stand-in: the prefix of the persistent off-chain storage.
pub const STORAGE_PREFIX: &[u8] = b"storage";
