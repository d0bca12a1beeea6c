use crate::traits::*;
use parity_scale_codec::{self, Decode, Encode, MaxEncodedLen};
pub trait FixedPointOperand: Copy + Clone + Bounded + Zero + Saturating + PartialOrd + UniqueSaturatedInto<u128> + TryFrom<u128> {}
impl FixedPointOperand for u128 {} impl FixedPointOperand for u64 {} impl FixedPointOperand for u32 {}
/// unsigned integers the parts are applied to
pub trait PerThingNum: Copy + Ord { fn to_wide(self) -> u128; fn from_wide(x: u128) -> Self; fn mul_part(self, part: u32, max: u32, up: fn(u64, u64) -> bool) -> Self; }
macro_rules! ptn { ($($t:ty, $w:ty);*) => {$( impl PerThingNum for $t { fn to_wide(self) -> u128 { self as u128 } fn from_wide(x: u128) -> Self { x as $t }
    fn mul_part(self, part: u32, max: u32, up: fn(u64, u64) -> bool) -> $t {
        let m = max as $w; let x = self as $w; let rem = (x % m) as u64; let z = rem * part as u64; let mut q = z / max as u64; if up(z % max as u64, max as u64) { q += 1 }
        ((x / m) * part as $w) as $t + q as $t
    } } )*} }
ptn!(u32, u64; u64, u64; u128, u128);
/// When set, the parts are applied as an unknown function (equal arguments give equal results, a part never
/// exceeds the whole): an over-approximation for properties that do not depend on the arithmetic.
pub static mut ABSTRACT: bool = false;
pub fn sim_abstract_parts(on: bool) { unsafe { ABSTRACT = on } }
fn abstract_on() -> bool { unsafe { ABSTRACT } }
static mut SEEN: alloc::vec::Vec<(u8, u64, u128, u64)> = alloc::vec::Vec::new();
fn unknown(kind: u8, a: u64, b: u128, max: u64) -> u64 {
    let t = unsafe { &mut *core::ptr::addr_of_mut!(SEEN) }; let y = sym::u64("part"); sym::assume(y <= max);
    for (k, x, z, w) in t.iter() { if *k == kind { sym::assume(!((*x == a) & (*z == b)) | (*w == y)) } }
    t.push((kind, a, b, y)); y
}
fn div_up(a: u128, b: u128) -> u128 { a / b + if a % b != 0 { 1 } else { 0 } }
macro_rules! per { ($n:ident, $max:expr, $pct:expr) => {
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Encode, Decode, MaxEncodedLen)]
pub struct $n(u32);
impl scale_info::TypeInfo for $n { type Identity = Self; }
impl $n {
    pub const ACCURACY: u32 = $max;
    pub const fn from_parts(p: u32) -> Self { if p > $max { $n($max) } else { $n(p) } }
    pub const fn from_percent(p: u32) -> Self { $n(if p > 100 { $max } else { p * $pct }) }
    pub const fn zero() -> Self { $n(0) } pub const fn one() -> Self { $n($max) }
    pub const fn deconstruct(self) -> u32 { self.0 }
    pub fn is_zero(&self) -> bool { self.0 == 0 } pub fn is_one(&self) -> bool { self.0 == $max }
    pub fn left_from_one(self) -> Self { $n($max - self.0) }
    pub fn saturating_sub(self, o: Self) -> Self { $n(self.0.saturating_sub(o.0)) }
    /// as sp-arithmetic: both are scaled down to the accuracy first, everything rounds down
    pub fn from_rational<N: PerThingNum>(p: N, q: N) -> Self { if abstract_on() { return $n(unknown(0, p.to_wide() as u64, q.to_wide(), $max) as u32) } Self::rational(p, q).unwrap_or($n($max)) }
    fn rational<N: PerThingNum>(p: N, q: N) -> Option<Self> {
        let (p, q) = (p.to_wide(), q.to_wide()); if q == 0 || p > q { return None }
        if q <= $max as u128 { return Some($n(((p as u64) * ($max as u64) / (q as u64)) as u32)) }
        let f = div_up(q, $max as u128); let f = if f == 0 { 1 } else { f };
        let (pr, qr) = ((p / f) as u64, (q / f) as u64); Some($n((pr * ($max as u64) / qr) as u32))
    }
    pub fn mul_floor<N: PerThingNum>(self, b: N) -> N { if abstract_on() { return N::from_wide(unknown(1, self.0 as u64, b.to_wide(), b.to_wide() as u64) as u128) } b.mul_part(self.0, $max, |_, _| false) }
    pub fn mul_ceil<N: PerThingNum>(self, b: N) -> N { if abstract_on() { return N::from_wide(unknown(2, self.0 as u64, b.to_wide(), b.to_wide() as u64) as u128) } b.mul_part(self.0, $max, |r, _| r != 0) }
}
impl<N: PerThingNum> core::ops::Mul<N> for $n { type Output = N; fn mul(self, b: N) -> N { if abstract_on() { return N::from_wide(unknown(3, self.0 as u64, b.to_wide(), b.to_wide() as u64) as u128) } b.mul_part(self.0, $max, |r, m| r > m / 2) } }
} }
per!(Perbill, 1_000_000_000, 10_000_000); per!(Permill, 1_000_000, 10_000);
