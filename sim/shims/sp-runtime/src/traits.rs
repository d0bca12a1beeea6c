use super::*;
use core::fmt::{Debug, Display};
pub use sp_core::{Get, TypedGet, ConstBool, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8};
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct BadOrigin;
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct LookupError;
impl From<BadOrigin> for &'static str { fn from(_: BadOrigin) -> &'static str { "Bad origin" } }
impl From<LookupError> for &'static str { fn from(_: LookupError) -> &'static str { "CannotLookup" } }
pub trait Zero: Sized { fn zero() -> Self; fn is_zero(&self) -> bool; fn set_zero(&mut self) { *self = Self::zero() } }
pub trait One: Sized { fn one() -> Self; }
pub trait Bounded { fn min_value() -> Self; fn max_value() -> Self; }
pub trait CheckedAdd: Sized { fn checked_add(&self, o: &Self) -> Option<Self>; }
pub trait CheckedSub: Sized { fn checked_sub(&self, o: &Self) -> Option<Self>; }
pub trait CheckedMul: Sized { fn checked_mul(&self, o: &Self) -> Option<Self>; }
pub trait CheckedDiv: Sized { fn checked_div(&self, o: &Self) -> Option<Self>; }
pub trait CheckedRem: Sized { fn checked_rem(&self, o: &Self) -> Option<Self>; }
pub trait CheckedNeg: Sized { fn checked_neg(&self) -> Option<Self>; }
macro_rules! ensures { ($($tr:ident $f:ident $fa:ident $c:ident $ck:ident $e:expr;)*) => {$(
    pub trait $tr: $c + Sized { fn $f(self, o: Self) -> Result<Self, ArithmeticError> { $c::$ck(&self, &o).ok_or($e) } }
    impl<T: $c> $tr for T {}
)*} }
ensures! { EnsureAdd ensure_add ensure_add_assign CheckedAdd checked_add ArithmeticError::Overflow; EnsureSub ensure_sub ensure_sub_assign CheckedSub checked_sub ArithmeticError::Underflow; EnsureMul ensure_mul ensure_mul_assign CheckedMul checked_mul ArithmeticError::Overflow; EnsureDiv ensure_div ensure_div_assign CheckedDiv checked_div ArithmeticError::DivisionByZero; }
pub trait EnsureAddAssign: EnsureAdd + Copy { fn ensure_add_assign(&mut self, o: Self) -> Result<(), ArithmeticError> { *self = self.ensure_add(o)?; Ok(()) } } impl<T: EnsureAdd + Copy> EnsureAddAssign for T {}
pub trait EnsureSubAssign: EnsureSub + Copy { fn ensure_sub_assign(&mut self, o: Self) -> Result<(), ArithmeticError> { *self = self.ensure_sub(o)?; Ok(()) } } impl<T: EnsureSub + Copy> EnsureSubAssign for T {}
pub trait TryConvert<A, B> { fn try_convert(a: A) -> Result<B, A>; }
pub trait SaturatedConversionT {}
pub trait UniqueSaturatedInto<T> { fn unique_saturated_into(self) -> T; }
pub trait UniqueSaturatedFrom<T> { fn unique_saturated_from(t: T) -> Self; }
pub trait Saturating: Sized {
    fn saturating_add(self, o: Self) -> Self; fn saturating_sub(self, o: Self) -> Self; fn saturating_mul(self, o: Self) -> Self; fn saturating_pow(self, e: usize) -> Self;
    fn saturating_inc(&mut self) where Self: One + Copy { *self = self.saturating_add(Self::one()) }
    fn saturating_dec(&mut self) where Self: One + Copy { *self = self.saturating_sub(Self::one()) }
    fn saturating_accrue(&mut self, o: Self) where Self: Copy { *self = self.saturating_add(o) }
    fn saturating_reduce(&mut self, o: Self) where Self: Copy { *self = self.saturating_sub(o) }
    fn saturating_div_by(self, o: Self) -> Self where Self: Div<Self, Output = Self> { self / o }
    fn saturating_less_one(self) -> Self where Self: One { self.saturating_sub(Self::one()) }
    fn saturating_plus_one(self) -> Self where Self: One { self.saturating_add(Self::one()) }
}
macro_rules! nums { ($($t:ident),*) => {$(
    impl Zero for $t { fn zero() -> Self { 0 } fn is_zero(&self) -> bool { *self == 0 } }
    impl One for $t { fn one() -> Self { 1 } }
    impl Bounded for $t { fn min_value() -> Self { 0 } fn max_value() -> Self { $t::MAX } }
    impl CheckedAdd for $t { fn checked_add(&self, o: &Self) -> Option<Self> { $t::checked_add(*self, *o) } }
    impl CheckedSub for $t { fn checked_sub(&self, o: &Self) -> Option<Self> { $t::checked_sub(*self, *o) } }
    impl CheckedMul for $t { fn checked_mul(&self, o: &Self) -> Option<Self> { $t::checked_mul(*self, *o) } }
    impl CheckedRem for $t { fn checked_rem(&self, o: &Self) -> Option<Self> { $t::checked_rem(*self, *o) } }
    impl CheckedDiv for $t { fn checked_div(&self, o: &Self) -> Option<Self> { $t::checked_div(*self, *o) } }
    impl Saturating for $t { fn saturating_add(self, o: Self) -> Self { $t::saturating_add(self, o) } fn saturating_sub(self, o: Self) -> Self { $t::saturating_sub(self, o) } fn saturating_mul(self, o: Self) -> Self { $t::saturating_mul(self, o) } fn saturating_pow(self, e: usize) -> Self { $t::saturating_pow(self, e as u32) } }
    sat!($t; u8, u16, u32, u64, u128, usize);
)*} }
macro_rules! sat { ($t:ident; $($f:ident),*) => {$(
    impl UniqueSaturatedFrom<$f> for $t { fn unique_saturated_from(x: $f) -> $t { <$t>::try_from(x).unwrap_or($t::MAX) } }
    impl UniqueSaturatedInto<$f> for $t { fn unique_saturated_into(self) -> $f { <$f>::try_from(self).unwrap_or($f::MAX) } }
)*} }
nums!(u8, u16, u32, u64, u128, usize);
use core::ops::*;
pub trait BaseArithmetic: From<u8> + Zero + One + Bounded + Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self> + Mul<Self, Output = Self> + MulAssign<Self> + Div<Self, Output = Self> + DivAssign<Self> + Rem<Self, Output = Self> + RemAssign<Self> + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + Saturating + PartialOrd<Self> + Ord + HasCompact + Sized + Clone + TryFrom<u16> + TryFrom<u32> + TryFrom<u64> + TryFrom<u128> + TryInto<u8> + TryInto<u16> + TryInto<u32> + TryInto<u64> + TryInto<u128> + TryInto<usize> + UniqueSaturatedFrom<u8> + UniqueSaturatedFrom<u16> + UniqueSaturatedFrom<u32> + UniqueSaturatedFrom<u64> + UniqueSaturatedFrom<u128> + UniqueSaturatedInto<u8> + UniqueSaturatedInto<u16> + UniqueSaturatedInto<u32> + UniqueSaturatedInto<u64> + UniqueSaturatedInto<u128> {}
impl BaseArithmetic for u32 {} impl BaseArithmetic for u64 {} impl BaseArithmetic for u128 {}
pub trait AtLeast16Bit: BaseArithmetic + From<u16> {} impl<T: BaseArithmetic + From<u16>> AtLeast16Bit for T {}
pub trait AtLeast32Bit: BaseArithmetic + From<u16> + From<u32> {} impl<T: BaseArithmetic + From<u16> + From<u32>> AtLeast32Bit for T {}
pub trait Unsigned: crate::PerThingNum {} impl Unsigned for u32 {} impl Unsigned for u64 {} impl Unsigned for u128 {}
pub trait AtLeast32BitUnsigned: AtLeast32Bit + Unsigned {} impl<T: AtLeast32Bit + Unsigned> AtLeast32BitUnsigned for T {}
pub trait MaybeDisplay: Display {} impl<T: Display> MaybeDisplay for T {}
pub trait MaybeDebug: Debug {} impl<T: Debug> MaybeDebug for T {}
pub trait MaybeSerializeDeserialize {} impl<T> MaybeSerializeDeserialize for T {}
pub trait MaybeSerialize {} impl<T> MaybeSerialize for T {}
pub trait Member: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static {}
impl<T: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static> Member for T {}
pub trait Convert<A, B> { fn convert(a: A) -> B; }
pub struct ConvertInto; impl<A, B: From<A>> Convert<A, B> for ConvertInto { fn convert(a: A) -> B { a.into() } }
pub struct Identity; impl<A> Convert<A, A> for Identity { fn convert(a: A) -> A { a } }
impl<A, B: Default> Convert<A, B> for () { fn convert(_: A) -> B { Default::default() } }
pub trait IdentifyAccount { type AccountId; fn into_account(self) -> Self::AccountId; }
pub trait Lazy<T: ?Sized> { fn get(&mut self) -> &T; }
impl<'a> Lazy<[u8]> for &'a [u8] { fn get(&mut self) -> &[u8] { self } }
pub trait Verify { type Signer: IdentifyAccount; fn verify<L: Lazy<[u8]>>(&self, msg: L, signer: &<Self::Signer as IdentifyAccount>::AccountId) -> bool; }
pub trait StaticLookup { type Source: Codecish; type Target; fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>; fn unlookup(t: Self::Target) -> Self::Source; }
pub trait Codecish: Encode + Decode + Clone + PartialEq + Debug + TypeInfoT {} impl<T: Encode + Decode + Clone + PartialEq + Debug + TypeInfoT> Codecish for T {}
pub use scale_info::TypeInfo as TypeInfoT;
pub struct IdentityLookup<T>(core::marker::PhantomData<T>);
impl<T: Codecish> StaticLookup for IdentityLookup<T> { type Source = T; type Target = T; fn lookup(s: T) -> Result<T, LookupError> { Ok(s) } fn unlookup(t: T) -> T { t } }
pub trait BlockNumberProvider { type BlockNumber; fn current_block_number() -> Self::BlockNumber; #[cfg(feature = "runtime-benchmarks")] fn set_block_number(_b: Self::BlockNumber) {} }
pub trait Dispatchable { type RuntimeOrigin; type Config; type Info; type PostInfo: Clone + Debug + PartialEq + Default; fn dispatch(self, origin: Self::RuntimeOrigin) -> DispatchResultWithInfo<Self::PostInfo>; }
pub type DispatchInfoOf<T> = <T as Dispatchable>::Info;
pub type PostDispatchInfoOf<T> = <T as Dispatchable>::PostInfo;
use crate::transaction_validity::{TransactionValidity, TransactionValidityError};
pub trait SignedExtension: Encode + Decode + Debug + Clone + Eq + PartialEq + TypeInfoT {
    const IDENTIFIER: &'static str;
    type AccountId; type Call: Dispatchable; type AdditionalSigned: Encode; type Pre;
    fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError>;
    fn validate(&self, _w: &Self::AccountId, _c: &Self::Call, _i: &DispatchInfoOf<Self::Call>, _l: usize) -> TransactionValidity { Ok(Default::default()) }
    fn pre_dispatch(self, w: &Self::AccountId, c: &Self::Call, i: &DispatchInfoOf<Self::Call>, l: usize) -> Result<Self::Pre, TransactionValidityError>;
    fn validate_unsigned(_c: &Self::Call, _i: &DispatchInfoOf<Self::Call>, _l: usize) -> TransactionValidity { Ok(Default::default()) }
    fn pre_dispatch_unsigned(c: &Self::Call, i: &DispatchInfoOf<Self::Call>, l: usize) -> Result<(), TransactionValidityError> { Self::validate_unsigned(c, i, l).map(|_| ()) }
    fn post_dispatch(_p: Option<Self::Pre>, _i: &DispatchInfoOf<Self::Call>, _pi: &PostDispatchInfoOf<Self::Call>, _l: usize, _r: &DispatchResult) -> Result<(), TransactionValidityError> { Ok(()) }
}
macro_rules! ext_tuples { ($(($a:ident $ai:tt $(, $n:ident $i:tt)*))*) => {$(
    impl<$a: SignedExtension $(, $n: SignedExtension<AccountId = $a::AccountId, Call = $a::Call>)*> SignedExtension for ($a, $($n,)*) where ($a, $($n,)*): Encode + Decode + Debug + Clone + Eq + TypeInfoT {
        const IDENTIFIER: &'static str = "tuple"; type AccountId = $a::AccountId; type Call = $a::Call; type AdditionalSigned = (); type Pre = ($a::Pre, $($n::Pre,)*);
        fn additional_signed(&self) -> Result<(), TransactionValidityError> { self.$ai.additional_signed()?; $(self.$i.additional_signed()?;)* Ok(()) }
        fn validate(&self, w: &Self::AccountId, c: &Self::Call, i: &DispatchInfoOf<Self::Call>, l: usize) -> TransactionValidity { let v = self.$ai.validate(w, c, i, l)?; $(let v = v.combine_with(self.$i.validate(w, c, i, l)?);)* Ok(v) }
        fn pre_dispatch(self, w: &Self::AccountId, c: &Self::Call, i: &DispatchInfoOf<Self::Call>, l: usize) -> Result<Self::Pre, TransactionValidityError> { Ok((self.$ai.pre_dispatch(w, c, i, l)?, $(self.$i.pre_dispatch(w, c, i, l)?,)*)) }
        fn post_dispatch(p: Option<Self::Pre>, i: &DispatchInfoOf<Self::Call>, pi: &PostDispatchInfoOf<Self::Call>, l: usize, r: &DispatchResult) -> Result<(), TransactionValidityError> { match p { Some(p) => { $a::post_dispatch(Some(p.$ai), i, pi, l, r)?; $($n::post_dispatch(Some(p.$i), i, pi, l, r)?;)* } None => { $a::post_dispatch(None, i, pi, l, r)?; $($n::post_dispatch(None, i, pi, l, r)?;)* } } Ok(()) }
    }
)*} }
ext_tuples! { (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) (A 0, B 1, C 2, D 3, E 4) (A 0, B 1, C 2, D 3, E 4, F 5) (A 0, B 1, C 2, D 3, E 4, F 5, G 6) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11) }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Hash, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct BlakeTwo256;
pub use crate::SaturatedConversion;
pub trait Hash { type Output; fn hash(d: &[u8]) -> Self::Output; fn hash_of<S: Encode>(s: &S) -> Self::Output { s.using_encoded(Self::hash) } }
impl Hash for BlakeTwo256 { type Output = H256; fn hash(d: &[u8]) -> H256 { H256(sp_io::hashing::blake2_256(d)) } }
pub trait Block { type Hash: Copy + PartialEq + Debug; type Header: Header; type Extrinsic: Encode + Decode; }
pub trait Header { type Number; }
pub trait AccountIdConversion<A>: Sized { fn into_account_truncating(&self) -> A; }
pub trait Checkable<C> { type Checked; }
pub trait Extrinsic: Sized {}
pub trait TrailingZeroInput {}
pub trait ValidateUnsigned { type Call; fn validate_unsigned(source: crate::transaction_validity::TransactionSource, call: &Self::Call) -> crate::transaction_validity::TransactionValidity; fn pre_dispatch(call: &Self::Call) -> Result<(), crate::transaction_validity::TransactionValidityError> { Self::validate_unsigned(crate::transaction_validity::TransactionSource::InBlock, call).map(|_| ()).map_err(Into::into) } }
