//! Stand-in for frame-system.
pub extern crate alloc;
use frame_support::{dispatch::*, traits::*};
use parity_scale_codec::{self, Decode, Encode, EncodeLike, MaxEncodedLen};
use sp_runtime::{traits::*, DispatchError};
use core::fmt::Debug;
use alloc::vec::Vec;
pub trait Config: 'static + Eq + Clone {
    type AccountId: Parameter + Member + Debug + Ord + MaxEncodedLen + EncodeLike;
    type BlockNumber: Parameter + Member + AtLeast32BitUnsigned + Copy + Default + Ord + MaxEncodedLen + EncodeLike + core::fmt::Display;
    type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>> + From<RawOrigin<Self::AccountId>> + Clone;
    type RuntimeEvent: Parameter + Member + Debug;
    type RuntimeCall: Parameter + Debug + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin>;
    type Hash: Parameter + Member + Default + Copy + AsRef<[u8]> + EncodeLike + MaxEncodedLen + From<[u8; 32]> + Ord;
    type Nonce: Parameter + Member + Default + Copy + AtLeast32Bit + MaxEncodedLen + Ord;
    type Lookup: StaticLookup<Target = Self::AccountId>;
    type DbWeight: Get<sp_weights::RuntimeDbWeight>;
    type BlockWeights: Get<limits::BlockWeights>;
    fn sim_block_number() -> *mut Self::BlockNumber;
    fn sim_events() -> *mut Vec<Self::RuntimeEvent>;
    fn sim_accounts() -> *mut Vec<(Self::AccountId, AccountInfo<Self::Nonce>)>;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode)]
pub struct AccountInfo<N> { pub nonce: N, pub consumers: u32, pub providers: u32, pub sufficients: u32 }
/// the phase of each event of the block, if a harness gives it
pub static mut PHASES: Vec<Phase> = Vec::new();
/// the hash of block 0, if a harness gives it
pub static mut GENESIS: Option<[u8; 32]> = None;
pub struct Pallet<T>(core::marker::PhantomData<T>);
impl<T: Config> Pallet<T> {
    pub fn block_number() -> T::BlockNumber { unsafe { *T::sim_block_number() } }
    pub fn set_block_number(n: T::BlockNumber) { unsafe { *T::sim_block_number() = n } }
    pub fn current_block_number() -> T::BlockNumber { Self::block_number() }
    pub fn deposit_event(e: impl Into<T::RuntimeEvent>) { unsafe { (*T::sim_events()).push(e.into()) } }
    pub fn events() -> Vec<T::RuntimeEvent> { unsafe { (*T::sim_events()).clone() } }
    pub fn read_events_no_consensus() -> impl Iterator<Item = Box<EventRecord<T::RuntimeEvent, T::Hash>>> { Self::events().into_iter().enumerate().map(|(i, event)| Box::new(EventRecord { phase: unsafe { (*core::ptr::addr_of!(PHASES)).get(i).cloned().unwrap_or(Phase::Initialization) }, event, topics: Vec::new() })) }
    /// a block's hash: any injective function of its number
    pub fn block_hash<N: Into<T::BlockNumber>>(n: N) -> T::Hash { let n: T::BlockNumber = n.into(); if let (Some(h), true) = (unsafe { GENESIS }, n == Default::default()) { return T::Hash::from(h) } T::Hash::from(sp_io::hashing::blake2_256(&n.encode())) }
    pub fn account_nonce(a: impl EncodeLike<T::AccountId> + IntoAccount<T::AccountId>) -> T::Nonce { Account::<T>::get(a.acc()).nonce }
    pub fn inc_account_nonce(a: impl EncodeLike<T::AccountId> + IntoAccount<T::AccountId>) { let a = a.acc(); let mut i = Account::<T>::get(a.clone()); i.nonce += T::Nonce::one(); Account::<T>::insert(a, i) }
    pub fn providers(a: &T::AccountId) -> u32 { Account::<T>::get(a).providers }
    pub fn inc_providers(a: &T::AccountId) { let mut i = Account::<T>::get(a); i.providers += 1; Account::<T>::insert(a, i) }
}
impl<T: Config> BlockNumberProvider for Pallet<T> { type BlockNumber = T::BlockNumber; fn current_block_number() -> T::BlockNumber { Self::block_number() } }
pub trait IntoAccount<A> { fn acc(self) -> A; } impl<A> IntoAccount<A> for A { fn acc(self) -> A { self } } impl<'a, A: Clone> IntoAccount<A> for &'a A { fn acc(self) -> A { self.clone() } }
pub struct Account<T>(core::marker::PhantomData<T>);
impl<T: Config> Account<T> {
    fn t() -> &'static mut Vec<(T::AccountId, AccountInfo<T::Nonce>)> { unsafe { &mut *T::sim_accounts() } }
    pub fn get(a: impl IntoAccount<T::AccountId>) -> AccountInfo<T::Nonce> { let a = a.acc(); Self::t().iter().find(|e| e.0 == a).map(|e| e.1).unwrap_or_default() }
    pub fn contains_key(a: impl IntoAccount<T::AccountId>) -> bool { let a = a.acc(); Self::t().iter().any(|e| e.0 == a) }
    pub fn insert(a: impl IntoAccount<T::AccountId>, i: AccountInfo<T::Nonce>) { let a = a.acc(); let t = Self::t(); match t.iter().position(|e| e.0 == a) { Some(k) => t[k].1 = i, None => t.push((a, i)) } }
    pub fn mutate<R>(a: impl IntoAccount<T::AccountId>, f: impl FnOnce(&mut AccountInfo<T::Nonce>) -> R) -> R { let a = a.acc(); let mut i = Self::get(a.clone()); let r = f(&mut i); Self::insert(a, i); r }
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode)]
pub enum RawOrigin<A> { Root, Signed(A), None }
impl<A> From<Option<A>> for RawOrigin<A> { fn from(a: Option<A>) -> Self { match a { Some(a) => RawOrigin::Signed(a), None => RawOrigin::None } } }
pub fn ensure_signed<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<A, BadOrigin> { match o.into() { Ok(RawOrigin::Signed(a)) => Ok(a), _ => Err(BadOrigin) } }
pub fn ensure_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> { match o.into() { Ok(RawOrigin::Root) => Ok(()), _ => Err(BadOrigin) } }
pub fn ensure_none<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> { match o.into() { Ok(RawOrigin::None) => Ok(()), _ => Err(BadOrigin) } }
pub struct EnsureRoot<A>(core::marker::PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureRoot<A> { type Success = (); fn try_origin(o: O) -> Result<(), O> { match o.into() { Ok(RawOrigin::Root) => Ok(()), Ok(r) => Err(r.into()), Err(o) => Err(o) } } }
pub struct EnsureSigned<A>(core::marker::PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureSigned<A> { type Success = A; fn try_origin(o: O) -> Result<A, O> { match o.into() { Ok(RawOrigin::Signed(a)) => Ok(a), Ok(r) => Err(r.into()), Err(o) => Err(o) } } }
#[derive(Clone, PartialEq, Eq, Debug)] pub enum Phase { ApplyExtrinsic(u32), Finalization, Initialization }
pub struct EventRecord<E, H> { pub phase: Phase, pub event: E, pub topics: Vec<H> }
pub struct CheckNonce<T>(core::marker::PhantomData<T>);
/// the extensions that look at parts of a transaction this model has not got (versions, genesis, era, block weight) accept it
macro_rules! checks { ($($n:ident)*) => {$(
    #[derive(frame_support::CloneNoBound, frame_support::PartialEqNoBound, frame_support::EqNoBound, frame_support::DebugNoBound)] pub struct $n<T>(core::marker::PhantomData<T>);
    impl<T> $n<T> { pub fn new() -> Self { Self(core::marker::PhantomData) } }
    impl<T> Encode for $n<T> {} impl<T> Decode for $n<T> { fn decode<I: parity_scale_codec::Input>(_: &mut I) -> Result<Self, parity_scale_codec::Error> { Ok(Self::new()) } }
    impl<T: 'static> scale_info::TypeInfo for $n<T> { type Identity = Self; }
    impl<T: Config> SignedExtension for $n<T> { const IDENTIFIER: &'static str = stringify!($n); type AccountId = T::AccountId; type Call = T::RuntimeCall; type AdditionalSigned = (); type Pre = (); fn additional_signed(&self) -> Result<(), sp_runtime::transaction_validity::TransactionValidityError> { Ok(()) }
        fn pre_dispatch(self, _w: &Self::AccountId, _c: &Self::Call, _i: &DispatchInfoOf<Self::Call>, _l: usize) -> Result<(), sp_runtime::transaction_validity::TransactionValidityError> { Ok(()) } }
)*} }
checks! { CheckNonZeroSender CheckSpecVersion CheckTxVersion CheckGenesis CheckEra CheckMortality CheckWeight }
pub mod pallet_prelude {
    pub use crate::{ensure_none, ensure_root, ensure_signed};
    pub type OriginFor<T> = <T as crate::Config>::RuntimeOrigin;
    pub type BlockNumberFor<T> = <T as crate::Config>::BlockNumber;
    pub type HeaderFor<T> = sp_runtime::generic::Header<BlockNumberFor<T>, ()>;
}
#[allow(unused)] fn _u(_: DispatchError, _: Pays) {}
pub use pallet_prelude as _pp;
pub mod offchain {}
pub mod limits { #[derive(Clone, Copy)] pub struct BlockWeights { pub base_block: sp_weights::Weight, pub max_block: sp_weights::Weight } }

/// the calls of frame-system that matter here: remarks
#[derive(frame_support::CloneNoBound, frame_support::PartialEqNoBound, frame_support::EqNoBound, frame_support::DebugNoBound)]
pub enum Call<T: Config> { #[doc(hidden)] __Ignore(core::marker::PhantomData<T>, frame_support::Never), remark { remark: Vec<u8> }, remark_with_event { remark: Vec<u8> } }
impl<T: Config> Encode for Call<T> { fn encode_to<O: parity_scale_codec::Output + ?Sized>(&self, d: &mut O) { match self { Call::remark { remark } => { d.push_byte(0); remark.encode_to(d) }, Call::remark_with_event { remark } => { d.push_byte(7); remark.encode_to(d) }, _ => {} } } }
impl<T: Config> GetDispatchInfo for Call<T> { fn get_dispatch_info(&self) -> DispatchInfo { DispatchInfo::default() } }
impl<T: Config> UnfilteredDispatchable for Call<T> { type RuntimeOrigin = T::RuntimeOrigin; fn dispatch_bypass_filter(self, _o: T::RuntimeOrigin) -> DispatchResultWithPostInfo { Ok(Default::default()) } }
