//! Stand-in for frame-support: storage is an in-memory association list per storage item, calls are plain functions.
pub extern crate alloc;
pub extern crate self as frame_support;
pub use parity_scale_codec;
pub use sp_core; pub use sp_runtime; pub use sp_std; pub use sp_io;
pub use simmacros::{pallet, storage_alias, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PartialEqNoBound, RuntimeDebugNoBound, RuntimeDebug};
pub use sp_runtime::bounded::{BoundedBTreeMap, BoundedVec};
pub mod storage; pub mod traits; pub mod dispatch; pub mod pallet_prelude; pub mod hashers;
pub use hashers::*;
pub use storage::child; 
pub use storage::types::{CountedStorageMap, StorageDoubleMap as StorageDoubleMapT, StorageMap as StorageMapT};
/// as frame-support: a fee is the sum of the terms of a polynomial in the weight's time
pub mod weights {
    pub use sp_weights::*; use sp_runtime::{traits::*, Perbill, PerThingNum, SaturatedConversion};
    pub trait WeightToFee { type Balance; fn weight_to_fee(w: &Weight) -> Self::Balance; }
    pub struct ConstantMultiplier<T, M>(core::marker::PhantomData<(T, M)>);
    impl<T: AtLeast32BitUnsigned + Copy + UniqueSaturatedFrom<u64>, M: crate::traits::Get<T>> WeightToFee for ConstantMultiplier<T, M> { type Balance = T; fn weight_to_fee(w: &Weight) -> T { T::saturated_from(w.ref_time()).saturating_mul(M::get()) } }
    pub struct WeightToFeeCoefficient<B> { pub coeff_integer: B, pub coeff_frac: Perbill, pub negative: bool, pub degree: u8 }
    pub type WeightToFeeCoefficients<B> = smallvec::SmallVec<[WeightToFeeCoefficient<B>; 4]>;
    pub trait WeightToFeePolynomial { type Balance: AtLeast32BitUnsigned + Copy + PerThingNum + UniqueSaturatedFrom<u64>; fn polynomial() -> WeightToFeeCoefficients<Self::Balance>; }
    impl<T: WeightToFeePolynomial> WeightToFee for T { type Balance = T::Balance; fn weight_to_fee(weight: &Weight) -> T::Balance {
        let mut acc = T::Balance::zero();
        for a in T::polynomial().iter() { let w1: T::Balance = T::Balance::saturated_from(weight.ref_time()); let mut w = T::Balance::one(); for _ in 0..a.degree { w = w.saturating_mul(w1) } let frac = a.coeff_frac * w; let integer = a.coeff_integer.saturating_mul(w); if a.negative { acc = acc.saturating_sub(frac); acc = acc.saturating_sub(integer) } else { acc = acc.saturating_add(frac); acc = acc.saturating_add(integer) } }
        acc
    } }
}
pub mod __private { pub use parity_scale_codec::{self as codec, Decode, Encode, MaxEncodedLen}; pub use scale_info::TypeInfo; pub use sp_runtime; pub use sp_std; pub use sp_io; pub use alloc; pub mod log { #[macro_export] macro_rules! sim_log { ($($t:tt)*) => {} } } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Never {}
impl parity_scale_codec::Encode for Never {}
impl parity_scale_codec::Decode for Never { fn decode<I: parity_scale_codec::Input>(_: &mut I) -> Result<Self, parity_scale_codec::Error> { Err(parity_scale_codec::Error("never")) } }
impl parity_scale_codec::MaxEncodedLen for Never { fn max_encoded_len() -> usize { 0 } }
/// a distinct number per pallet crate
pub const fn sim_module_index(name: &str) -> u8 { let b = name.as_bytes(); let mut h = 7u8; let mut i = 0; while i < b.len() { h = h.wrapping_mul(31).wrapping_add(b[i]); i += 1; } h }
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct PalletId(pub [u8; 8]);
#[macro_export] macro_rules! ensure { ($x:expr, $y:expr $(,)?) => { if !$x { return Err($y.into()) } } }
#[macro_export] macro_rules! fail { ($y:expr $(,)?) => { return Err($y.into()) } }
#[macro_export] macro_rules! defensive { ($($t:tt)*) => {{}} }
#[macro_export] macro_rules! defensive_assert { ($($t:tt)*) => {{}} }
#[macro_export] macro_rules! parameter_types { ($($(#[$m:meta])* pub const $n:ident: $t:ty = $v:expr;)*) => { $( pub struct $n; impl $n { #[allow(dead_code)] pub const fn get() -> $t { $v } } impl<I: From<$t>> $crate::traits::Get<I> for $n { fn get() -> I { I::from($v) } } )* } }
#[macro_export] macro_rules! assert_ok { ($x:expr $(,)?) => { assert!($x.is_ok()) } }
pub mod unsigned { pub use sp_runtime::transaction_validity::{InvalidTransaction, TransactionPriority, TransactionSource, TransactionValidity, TransactionValidityError, UnknownTransaction}; pub use sp_runtime::traits::ValidateUnsigned; }
