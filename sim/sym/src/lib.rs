//! Harness primitives: symbolic inputs, assumptions, assertions, reachability marks.
extern "C" {
    fn rsym_symbolic(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn rsym_assume(c: u32);
    fn rsym_assert(c: u32, l: *const u8, n: usize);
    fn rsym_cover(l: *const u8, n: usize);
    fn rsym_note(l: *const u8, n: usize);
    fn rsym_concretize(v: u64) -> u64;
    fn rsym_is_symbolic_run() -> u32;
    fn rsym_ite64(c: u32, a: u64, b: u64) -> u64;
    fn rsym_byteseq(a: *const u8, b: *const u8, n: usize) -> u32;
}
pub fn bytes<const N: usize>(name: &str) -> [u8; N] { let mut b = [0u8; N]; unsafe { rsym_symbolic(b.as_mut_ptr(), N, name.as_ptr(), name.len()) }; b }
/// `n` symbolic bytes (each its own variable)
pub fn byte_vec(name: &str, n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; for k in 0..n { v[k] = bytes::<1>(name)[0]; } v }
pub fn u8(name: &str) -> u8 { bytes::<1>(name)[0] }
pub fn u16(name: &str) -> u16 { u16::from_le_bytes(bytes(name)) }
pub fn u32(name: &str) -> u32 { u32::from_le_bytes(bytes(name)) }
pub fn u64(name: &str) -> u64 { u64::from_le_bytes(bytes(name)) }
pub fn u128(name: &str) -> u128 { u128::from_le_bytes(bytes(name)) }
pub fn i64(name: &str) -> i64 { u64(name) as i64 }
pub fn i32(name: &str) -> i32 { u32(name) as i32 }
pub fn bool(name: &str) -> bool { u8(name) & 1 == 1 }
/// any Unicode scalar value
pub fn char(name: &str) -> char { let x = u32(name); assume(x < 0x110000 && !(x >= 0xD800 && x < 0xE000)); unsafe { char::from_u32_unchecked(x) } }
#[inline(always)] pub fn assume(c: bool) { unsafe { rsym_assume(c as u32) } }
#[inline(always)] pub fn check(c: bool, label: &str) { unsafe { rsym_assert(c as u32, label.as_ptr(), label.len()) } }
pub fn cover(label: &str) { unsafe { rsym_cover(label.as_ptr(), label.len()) } }
pub fn note(label: &str) { unsafe { rsym_note(label.as_ptr(), label.len()) } }
/// fork on every feasible value: the result is concrete on each path
pub fn concretize(v: u64) -> u64 { unsafe { rsym_concretize(v) } }
pub fn symbolic_run() -> bool { unsafe { rsym_is_symbolic_run() == 1 } }
/// a concrete value in lo..=hi, one path per value
pub fn choose(name: &str, lo: u64, hi: u64) -> u64 { let v = u8(name) as u64; assume(v >= lo && v <= hi); concretize(v) }
pub fn ite(c: bool, a: u64, b: u64) -> u64 { unsafe { rsym_ite64(c as u32, a, b) } }
/// slice equality without a fork per byte
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && unsafe { rsym_byteseq(a.as_ptr(), b.as_ptr(), a.len()) == 1 } }
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $n:ident () $b:block )*) => {
        $( $(#[$m])* #[no_mangle] #[inline(never)] pub extern "C" fn $n() $b )*
        fn main() {
            let n = std::env::args().nth(1).unwrap_or_default();
            let t: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n as extern "C" fn())),*];
            if n == "--list" { for (k, _) in t { println!("{k}"); } return }
            for (k, f) in t { if *k == n { f(); return } }
            panic!("no such harness");
        }
    };
}
