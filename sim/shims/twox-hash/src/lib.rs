//! `twox-hash` replacement: hashing is an arbitrary deterministic function of (seed, byte stream);
//! the harness sees the stream through `set_oracle`.
extern crate alloc;
use alloc::vec::Vec;
pub type Oracle = fn(seed: u64, stream: &[u8]) -> u64;
static mut ORACLE: Option<Oracle> = None;
pub fn set_oracle(o: Oracle) { unsafe { ORACLE = Some(o) } }
pub struct XxHash64 { seed: u64, buf: Vec<u8> }
impl XxHash64 { pub fn with_seed(seed: u64) -> Self { XxHash64 { seed, buf: Vec::new() } } }
impl Default for XxHash64 { fn default() -> Self { Self::with_seed(0) } }
impl core::hash::Hasher for XxHash64 {
    fn write(&mut self, bytes: &[u8]) { self.buf.extend_from_slice(bytes) }
    fn finish(&self) -> u64 { (unsafe { ORACLE }.expect("hash oracle"))(self.seed, &self.buf) }
}
