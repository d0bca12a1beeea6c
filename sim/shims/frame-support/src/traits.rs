pub use sp_core::{ConstBool, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, TypedGet};
use sp_weights::Weight;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use sp_runtime::DispatchError;
pub trait StorageInstance { const STORAGE_PREFIX: &'static str; fn pallet_prefix() -> &'static str; fn sim_slot() -> *mut *mut (); }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
pub struct StorageVersion(pub u16);
impl StorageVersion {
    pub const fn new(v: u16) -> Self { StorageVersion(v) }
    pub fn get<P: SimVersionSlot>() -> Self { StorageVersion(unsafe { *P::slot() }) }
    pub fn put<P: SimVersionSlot>(&self) { unsafe { *P::slot() = self.0 } }
}
impl PartialEq<u16> for StorageVersion { fn eq(&self, o: &u16) -> bool { self.0 == *o } }
impl PartialOrd<u16> for StorageVersion { fn partial_cmp(&self, o: &u16) -> Option<core::cmp::Ordering> { Some(self.0.cmp(o)) } }
pub trait SimVersionSlot { fn slot() -> *mut u16; }
pub trait GetStorageVersion { type CurrentStorageVersion; fn current_storage_version() -> Self::CurrentStorageVersion; fn on_chain_storage_version() -> StorageVersion; fn in_code_storage_version() -> Self::CurrentStorageVersion { Self::current_storage_version() } }
pub trait PalletInfoAccess { fn index() -> usize; fn name() -> &'static str; }
pub trait StorageInfoTrait {}
pub trait Task {}
pub struct GetDefault; impl<T: Default> Get<T> for GetDefault { fn get() -> T { T::default() } }
impl Get<Option<u32>> for SimNone { fn get() -> Option<u32> { None } } pub struct SimNone;
pub trait UnfilteredDispatchable { type RuntimeOrigin; fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> crate::dispatch::DispatchResultWithPostInfo; }
pub trait IsSubType<T> { fn is_sub_type(&self) -> Option<&T>; }
pub trait IsType<T>: Into<T> + From<T> { fn from_ref(t: &T) -> &Self; fn into_ref(&self) -> &T; fn from_mut(t: &mut T) -> &mut Self; fn into_mut(&mut self) -> &mut T; }
impl<T> IsType<T> for T { fn from_ref(t: &T) -> &Self { t } fn into_ref(&self) -> &T { self } fn from_mut(t: &mut T) -> &mut Self { t } fn into_mut(&mut self) -> &mut T { self } }
pub trait Parameter: Encode + Decode + Clone + Eq + core::fmt::Debug + scale_info::TypeInfo {} impl<T: Encode + Decode + Clone + Eq + core::fmt::Debug + scale_info::TypeInfo> Parameter for T {}
pub trait BuildGenesisConfig: Default { fn build(&self); }
pub trait Contains<T> { fn contains(t: &T) -> bool; }
pub struct Everything; impl<T> Contains<T> for Everything { fn contains(_: &T) -> bool { true } }
pub struct Nothing; impl<T> Contains<T> for Nothing { fn contains(_: &T) -> bool { false } }
pub trait InstanceFilter<T> { fn filter(&self, t: &T) -> bool; fn is_superset(&self, _o: &Self) -> bool { false } }
pub trait EnsureOrigin<O> { type Success; fn try_origin(o: O) -> Result<Self::Success, O>; fn ensure_origin(o: O) -> Result<Self::Success, sp_runtime::traits::BadOrigin> { Self::try_origin(o).map_err(|_| sp_runtime::traits::BadOrigin) } #[cfg(feature = "runtime-benchmarks")] fn try_successful_origin() -> Result<O, ()> { Err(()) } }
pub trait OriginTrait { type AccountId; }
pub trait Hooks<BlockNumber> { fn on_initialize(_n: BlockNumber) -> Weight { Weight::zero() } fn on_finalize(_n: BlockNumber) {} fn on_idle(_n: BlockNumber, _w: Weight) -> Weight { Weight::zero() } fn on_runtime_upgrade() -> Weight { Weight::zero() } fn offchain_worker(_n: BlockNumber) {} fn integrity_test() {} }
pub trait OnRuntimeUpgrade { fn on_runtime_upgrade() -> Weight { Weight::zero() } }
pub trait Len { fn len(&self) -> usize; fn is_empty(&self) -> bool { self.len() == 0 } }
impl<T> Len for sp_std::vec::Vec<T> { fn len(&self) -> usize { self.len() } }
impl<T, S> Len for sp_runtime::BoundedVec<T, S> { fn len(&self) -> usize { (**self).len() } }
/// off-nominal cases are logged and the fallback is taken
pub trait Defensive<T>: Sized { fn defensive_unwrap_or(self, o: T) -> T; fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T; fn defensive_unwrap_or_default(self) -> T where T: Default; fn defensive(self) -> Self { self } fn defensive_proof(self, _p: &'static str) -> Self { self } }
impl<T> Defensive<T> for Option<T> { fn defensive_unwrap_or(self, o: T) -> T { self.unwrap_or(o) } fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T { self.unwrap_or_else(f) } fn defensive_unwrap_or_default(self) -> T where T: Default { self.unwrap_or_default() } }
impl<T, E> Defensive<T> for Result<T, E> { fn defensive_unwrap_or(self, o: T) -> T { self.unwrap_or(o) } fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T { match self { Ok(x) => x, Err(_) => f() } } fn defensive_unwrap_or_default(self) -> T where T: Default { match self { Ok(x) => x, Err(_) => T::default() } } }
pub trait DefensiveOption<T>: Sized { fn defensive_ok_or<E>(self, e: E) -> Result<T, E>; fn defensive_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> Result<T, E>; }
impl<T> DefensiveOption<T> for Option<T> { fn defensive_ok_or<E>(self, e: E) -> Result<T, E> { self.ok_or(e) } fn defensive_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> Result<T, E> { self.ok_or_else(f) } }
pub trait DefensiveSaturating: sp_runtime::traits::Saturating + Copy { fn defensive_saturating_add(self, o: Self) -> Self { self.saturating_add(o) } fn defensive_saturating_sub(self, o: Self) -> Self { self.saturating_sub(o) } fn defensive_saturating_mul(self, o: Self) -> Self { self.saturating_mul(o) } fn defensive_saturating_accrue(&mut self, o: Self) { *self = self.saturating_add(o) } fn defensive_saturating_reduce(&mut self, o: Self) { *self = self.saturating_sub(o) } }
impl<T: sp_runtime::traits::Saturating + Copy> DefensiveSaturating for T {}
pub trait ContainsPair<A, B> { fn contains(a: &A, b: &B) -> bool; }
pub type LockIdentifier = [u8; 8];
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct WithdrawReasons(pub u8);
pub trait Currency<A> { type Balance; type NegativeImbalance; }
pub trait LockableCurrency<A>: Currency<A> { type Moment; fn remove_lock(id: LockIdentifier, who: &A); }
pub trait UnixTime { fn now() -> core::time::Duration; }
pub mod tokens {
    use super::*;
    pub trait Balance: sp_runtime::traits::AtLeast32BitUnsigned + Copy + Encode + Decode + Default + core::fmt::Debug + MaxEncodedLen + Ord + Send + Sync + scale_info::TypeInfo + sp_runtime::FixedPointOperand + parity_scale_codec::EncodeLike + Eq + PartialEq + 'static {}
    impl Balance for u32 {} impl Balance for u64 {} impl Balance for u128 {}
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum Preservation { Expendable, Protect, Preserve }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum Fortitude { Polite, Force }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum Precision { Exact, BestEffort }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum Provenance { Minted, Extant }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum DepositConsequence { BelowMinimum, CannotCreate, UnknownAsset, Overflow, Success, Blocked }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum WithdrawConsequence<B> { BalanceLow, WouldDie, UnknownAsset, Underflow, Overflow, Frozen, ReducedToZero(B), Success }
    pub mod fungible {
        use super::*;
        pub trait Inspect<AccountId>: Sized {
            type Balance: Balance;
            fn total_issuance() -> Self::Balance; fn minimum_balance() -> Self::Balance; fn total_balance(who: &AccountId) -> Self::Balance; fn balance(who: &AccountId) -> Self::Balance;
            fn reducible_balance(who: &AccountId, p: Preservation, f: Fortitude) -> Self::Balance;
        }
        pub trait Mutate<AccountId>: Inspect<AccountId> {
            fn mint_into(who: &AccountId, a: Self::Balance) -> Result<Self::Balance, DispatchError>;
            fn burn_from(who: &AccountId, a: Self::Balance, p: Precision, f: Fortitude) -> Result<Self::Balance, DispatchError>;
            fn transfer(s: &AccountId, d: &AccountId, a: Self::Balance, p: Preservation) -> Result<Self::Balance, DispatchError>;
            fn set_balance(who: &AccountId, a: Self::Balance) -> Self::Balance;
        }
        pub trait InspectFreeze<AccountId>: Inspect<AccountId> { type Id; fn balance_frozen(id: &Self::Id, who: &AccountId) -> Self::Balance; fn balance_freezable(who: &AccountId) -> Self::Balance { Self::total_balance(who) } fn can_freeze(id: &Self::Id, who: &AccountId) -> bool; }
        pub trait MutateFreeze<AccountId>: InspectFreeze<AccountId> {
            fn set_freeze(id: &Self::Id, who: &AccountId, a: Self::Balance) -> Result<(), DispatchError>;
            fn extend_freeze(id: &Self::Id, who: &AccountId, a: Self::Balance) -> Result<(), DispatchError>;
            fn thaw(id: &Self::Id, who: &AccountId) -> Result<(), DispatchError>;
        }
    }
}
pub mod fungible { pub use super::tokens::fungible::*; }
