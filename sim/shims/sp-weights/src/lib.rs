//! Stand-in for sp-weights.
use core::ops::{Add, AddAssign, Div, Mul, Sub};
use parity_scale_codec::{self, Decode, Encode, MaxEncodedLen};
use sp_core::Get;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, MaxEncodedLen)]
pub struct Weight { #[codec(compact)] ref_time: u64, #[codec(compact)] proof_size: u64 }
impl scale_info::TypeInfo for Weight { type Identity = Self; }
impl Weight {
    pub const MAX: Weight = Weight { ref_time: u64::MAX, proof_size: u64::MAX };
    pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self { Weight { ref_time, proof_size } }
    pub const fn from_ref_time(ref_time: u64) -> Self { Weight { ref_time, proof_size: 0 } }
    pub const fn zero() -> Self { Weight { ref_time: 0, proof_size: 0 } }
    pub const fn ref_time(&self) -> u64 { self.ref_time }
    pub const fn proof_size(&self) -> u64 { self.proof_size }
    pub const fn set_proof_size(mut self, p: u64) -> Self { self.proof_size = p; self }
    pub const fn set_ref_time(mut self, p: u64) -> Self { self.ref_time = p; self }
    pub const fn add_proof_size(&self, p: u64) -> Self { Weight { ref_time: self.ref_time, proof_size: self.proof_size.saturating_add(p) } }
    pub const fn add_ref_time(&self, p: u64) -> Self { Weight { ref_time: self.ref_time.saturating_add(p), proof_size: self.proof_size } }
    pub const fn saturating_add(self, o: Self) -> Self { Weight { ref_time: self.ref_time.saturating_add(o.ref_time), proof_size: self.proof_size.saturating_add(o.proof_size) } }
    pub const fn saturating_sub(self, o: Self) -> Self { Weight { ref_time: self.ref_time.saturating_sub(o.ref_time), proof_size: self.proof_size.saturating_sub(o.proof_size) } }
    pub const fn saturating_mul(self, k: u64) -> Self { Weight { ref_time: self.ref_time.saturating_mul(k), proof_size: self.proof_size.saturating_mul(k) } }
    pub const fn saturating_div(self, k: u64) -> Self { Weight { ref_time: self.ref_time / k, proof_size: self.proof_size / k } }
    pub fn saturating_accrue(&mut self, o: Self) { *self = self.saturating_add(o) }
    pub fn checked_add(&self, o: &Self) -> Option<Self> { Some(Weight { ref_time: self.ref_time.checked_add(o.ref_time)?, proof_size: self.proof_size.checked_add(o.proof_size)? }) }
    pub fn checked_sub(&self, o: &Self) -> Option<Self> { Some(Weight { ref_time: self.ref_time.checked_sub(o.ref_time)?, proof_size: self.proof_size.checked_sub(o.proof_size)? }) }
    pub fn min(&self, o: Self) -> Self { Weight { ref_time: self.ref_time.min(o.ref_time), proof_size: self.proof_size.min(o.proof_size) } }
    pub fn max(&self, o: Self) -> Self { Weight { ref_time: self.ref_time.max(o.ref_time), proof_size: self.proof_size.max(o.proof_size) } }
    pub fn any_lt(&self, o: Self) -> bool { (self.ref_time < o.ref_time) | (self.proof_size < o.proof_size) }
    pub fn any_gte(&self, o: Self) -> bool { (self.ref_time >= o.ref_time) | (self.proof_size >= o.proof_size) }
    pub fn any_lte(&self, o: Self) -> bool { (self.ref_time <= o.ref_time) | (self.proof_size <= o.proof_size) }
    pub fn all_gt(&self, o: Self) -> bool { (self.ref_time > o.ref_time) & (self.proof_size > o.proof_size) }
    pub fn all_lt(&self, o: Self) -> bool { (self.ref_time < o.ref_time) & (self.proof_size < o.proof_size) }
    pub fn all_lte(&self, o: Self) -> bool { (self.ref_time <= o.ref_time) & (self.proof_size <= o.proof_size) }
    pub const fn sub_ref_time(&self, p: u64) -> Self { Weight { ref_time: self.ref_time.saturating_sub(p), proof_size: self.proof_size } }
    pub const fn sub_proof_size(&self, p: u64) -> Self { Weight { ref_time: self.ref_time, proof_size: self.proof_size.saturating_sub(p) } }
    pub const fn from_all(v: u64) -> Self { Weight { ref_time: v, proof_size: v } }
    pub const fn mul(self, k: u64) -> Self { Weight { ref_time: self.ref_time * k, proof_size: self.proof_size * k } }
    pub const fn div(self, k: u64) -> Self { Weight { ref_time: self.ref_time / k, proof_size: self.proof_size / k } }
    pub fn saturating_reduce(&mut self, o: Self) { *self = self.saturating_sub(o) }
    pub fn any_gt(&self, o: Self) -> bool { (self.ref_time > o.ref_time) | (self.proof_size > o.proof_size) }
    pub fn all_gte(&self, o: Self) -> bool { (self.ref_time >= o.ref_time) & (self.proof_size >= o.proof_size) }
    pub fn is_zero(&self) -> bool { (self.ref_time == 0) & (self.proof_size == 0) }
}
impl Add for Weight { type Output = Self; fn add(self, o: Self) -> Self { Weight { ref_time: self.ref_time + o.ref_time, proof_size: self.proof_size + o.proof_size } } }
impl AddAssign for Weight { fn add_assign(&mut self, o: Self) { *self = *self + o } }
impl core::ops::SubAssign for Weight { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
impl Sub for Weight { type Output = Self; fn sub(self, o: Self) -> Self { Weight { ref_time: self.ref_time - o.ref_time, proof_size: self.proof_size - o.proof_size } } }
macro_rules! m { ($($t:ty),*) => {$( impl Mul<$t> for Weight { type Output = Self; fn mul(self, b: $t) -> Self { Weight { ref_time: self.ref_time * b as u64, proof_size: self.proof_size * b as u64 } } } impl Div<$t> for Weight { type Output = Self; fn div(self, b: $t) -> Self { Weight { ref_time: self.ref_time / b as u64, proof_size: self.proof_size / b as u64 } } } )*} }
m!(u32, u64);
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct RuntimeDbWeight { pub read: u64, pub write: u64 }
impl RuntimeDbWeight {
    pub const fn reads(self, r: u64) -> Weight { Weight::from_parts(self.read.saturating_mul(r), 0) }
    pub const fn writes(self, w: u64) -> Weight { Weight::from_parts(self.write.saturating_mul(w), 0) }
    pub const fn reads_writes(self, r: u64, w: u64) -> Weight { Weight::from_parts(self.read.saturating_mul(r).saturating_add(self.write.saturating_mul(w)), 0) }
}
pub mod constants {
    use super::*;
    pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000;
    pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000;
    pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000;
    pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1_000;
    pub const WEIGHT_PROOF_SIZE_PER_MB: u64 = 1024 * 1024;
    pub struct RocksDbWeight;
    impl Get<RuntimeDbWeight> for RocksDbWeight { fn get() -> RuntimeDbWeight { RuntimeDbWeight { read: 25_000_000, write: 100_000_000 } } }
    pub struct ExtrinsicBaseWeight;
    impl Get<Weight> for ExtrinsicBaseWeight { fn get() -> Weight { Weight::from_parts(112_000_000, 0) } }
    impl ExtrinsicBaseWeight { pub fn get() -> Weight { <Self as Get<Weight>>::get() } }
}
