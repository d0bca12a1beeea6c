macro_rules! h { ($($n:ident),*) => {$( #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct $n; )*} }
h!(Identity, Twox64Concat, Twox128, Twox256, Blake2_128, Blake2_128Concat, Blake2_256);
pub trait StorageHasher { type Output: AsRef<[u8]>; fn hash(x: &[u8]) -> Self::Output; }
pub trait ReversibleStorageHasher: StorageHasher { fn reverse(x: &[u8]) -> &[u8]; }
use sp_std::vec::Vec;
fn cat(h: &[u8], x: &[u8]) -> Vec<u8> { let mut v = h.to_vec(); v.extend_from_slice(x); v }
impl StorageHasher for Identity { type Output = Vec<u8>; fn hash(x: &[u8]) -> Vec<u8> { x.to_vec() } }
impl StorageHasher for Twox64Concat { type Output = Vec<u8>; fn hash(x: &[u8]) -> Vec<u8> { cat(&sp_io::hashing::twox_64(x), x) } }
impl StorageHasher for Blake2_128Concat { type Output = Vec<u8>; fn hash(x: &[u8]) -> Vec<u8> { cat(&sp_io::hashing::blake2_128(x), x) } }
impl StorageHasher for Twox128 { type Output = [u8; 16]; fn hash(x: &[u8]) -> [u8; 16] { sp_io::hashing::twox_128(x) } }
impl StorageHasher for Twox256 { type Output = [u8; 32]; fn hash(x: &[u8]) -> [u8; 32] { sp_io::hashing::twox_256(x) } }
impl StorageHasher for Blake2_128 { type Output = [u8; 16]; fn hash(x: &[u8]) -> [u8; 16] { sp_io::hashing::blake2_128(x) } }
impl StorageHasher for Blake2_256 { type Output = [u8; 32]; fn hash(x: &[u8]) -> [u8; 32] { sp_io::hashing::blake2_256(x) } }
impl ReversibleStorageHasher for Identity { fn reverse(x: &[u8]) -> &[u8] { x } }
impl ReversibleStorageHasher for Twox64Concat { fn reverse(x: &[u8]) -> &[u8] { &x[8..] } }
impl ReversibleStorageHasher for Blake2_128Concat { fn reverse(x: &[u8]) -> &[u8] { &x[16..] } }
pub trait Hashable { fn blake2_128(&self) -> [u8; 16]; fn blake2_256(&self) -> [u8; 32]; fn twox_128(&self) -> [u8; 16]; fn twox_256(&self) -> [u8; 32]; fn twox_64_concat(&self) -> Vec<u8>; fn blake2_128_concat(&self) -> Vec<u8>; fn identity(&self) -> Vec<u8>; }
impl<T: parity_scale_codec::Encode> Hashable for T {
    fn blake2_128(&self) -> [u8; 16] { self.using_encoded(Blake2_128::hash) } fn blake2_256(&self) -> [u8; 32] { self.using_encoded(Blake2_256::hash) }
    fn twox_128(&self) -> [u8; 16] { self.using_encoded(Twox128::hash) } fn twox_256(&self) -> [u8; 32] { self.using_encoded(Twox256::hash) }
    fn twox_64_concat(&self) -> Vec<u8> { self.using_encoded(Twox64Concat::hash) } fn blake2_128_concat(&self) -> Vec<u8> { self.using_encoded(Blake2_128Concat::hash) } fn identity(&self) -> Vec<u8> { self.encode() }
}
