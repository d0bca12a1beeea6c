//! Stand-in for sp-io. Hashes are collision-free interned functions: equal inputs give equal outputs, different
//! inputs different outputs. The off-chain index is an ordinary key-value map.
extern crate alloc;
use alloc::vec::Vec;
static mut INTERN: Vec<(u8, Vec<u8>)> = Vec::new();
fn intern(kind: u8, d: &[u8]) -> u64 {
    let t = unsafe { &mut *core::ptr::addr_of_mut!(INTERN) };
    for (i, (k, x)) in t.iter().enumerate() { if *k == kind && x.len() == d.len() && x.as_slice() == d { return i as u64 + 1 } }
    t.push((kind, d.to_vec())); t.len() as u64
}
fn fill<const N: usize>(kind: u8, d: &[u8]) -> [u8; N] { let h = intern(kind, d).to_le_bytes(); let mut r = [0xA5u8; N]; let n = if N < 8 { N } else { 8 }; let mut i = 0; while i < n { r[i] = h[i]; i += 1; } r[N - 1] = kind; r }
pub mod hashing {
    use super::fill;
    pub fn twox_64(d: &[u8]) -> [u8; 8] { fill(1, d) }
    pub fn twox_128(d: &[u8]) -> [u8; 16] { fill(2, d) }
    pub fn twox_256(d: &[u8]) -> [u8; 32] { fill(3, d) }
    pub fn blake2_128(d: &[u8]) -> [u8; 16] { fill(4, d) }
    pub fn blake2_256(d: &[u8]) -> [u8; 32] { fill(5, d) }
    pub fn sha2_256(d: &[u8]) -> [u8; 32] { fill(6, d) }
    pub fn keccak_256(d: &[u8]) -> [u8; 32] { fill(7, d) }
}
/// the off-chain database written by off-chain indexing
pub static mut OFFCHAIN: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
pub fn offchain_db() -> &'static mut Vec<(Vec<u8>, Vec<u8>)> { unsafe { &mut *core::ptr::addr_of_mut!(OFFCHAIN) } }
pub mod offchain_index {
    use super::*;
    pub fn set(k: &[u8], v: &[u8]) { clear(k); offchain_db().push((k.to_vec(), v.to_vec())) }
    pub fn clear(k: &[u8]) { offchain_db().retain(|e| e.0.as_slice() != k) }
}

pub mod offchain { pub fn timestamp() -> sp_core::offchain::Timestamp { sp_core::offchain::Timestamp(0) } }
