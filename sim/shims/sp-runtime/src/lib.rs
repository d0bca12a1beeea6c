//! Stand-in for sp-runtime: the types and traits the code under verification uses.
extern crate alloc;
use alloc::vec::Vec;
use parity_scale_codec::{self, Decode, Encode, EncodeLike, HasCompact, MaxEncodedLen};
use simmacros::TypeInfo;
pub use simmacros::RuntimeDebug;
pub use sp_core::{bounded, bounded::{BoundedBTreeMap, BoundedVec}, crypto::{AccountId32, KeyTypeId}, H256};
pub use sp_std;
pub mod traits;
pub use traits::Saturating;
pub use arith::{sim_abstract_parts, PerThingNum, FixedPointOperand, Perbill, Permill};
mod arith;
pub mod transaction_validity;
pub use transaction_validity as _tv;
pub mod generic;
pub mod offchain {
    pub use sp_core::offchain::*;
    pub mod storage {
        use super::super::*;
        #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum StorageRetrievalError { Undecodable }
        #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum MutateStorageError<T, E> { ConcurrentModification(T), ValueFunctionFailed(E) }
        pub struct StorageValueRef<'a> { key: alloc::borrow::Cow<'a, [u8]> }
        impl<'a> StorageValueRef<'a> {
            pub fn persistent(key: &'a [u8]) -> Self { StorageValueRef { key: alloc::borrow::Cow::Borrowed(key) } }
            pub fn local(key: &'a [u8]) -> Self { StorageValueRef { key: alloc::borrow::Cow::Borrowed(key) } }
            fn at(&self) -> Option<usize> { sp_io::offchain_db().iter().position(|e| e.0.as_slice() == &*self.key) }
            pub fn set(&self, v: &impl Encode) { sp_io::offchain_index::set(&self.key, &v.encode()) }
            pub fn clear(&mut self) { sp_io::offchain_index::clear(&self.key) }
            pub fn get<T: Decode>(&self) -> Result<Option<T>, StorageRetrievalError> { match self.at() { None => Ok(None), Some(i) => T::decode(&mut &sp_io::offchain_db()[i].1[..]).map(Some).map_err(|_| StorageRetrievalError::Undecodable) } }
            pub fn mutate<T: Decode + Encode, E, F: FnOnce(Result<Option<T>, StorageRetrievalError>) -> Result<T, E>>(&self, f: F) -> Result<T, MutateStorageError<T, E>> { let v = f(self.get::<T>()).map_err(MutateStorageError::ValueFunctionFailed)?; self.set(&v); Ok(v) }
        }
    }
    /// the node's RPC answers what the harness says
    pub mod http {
        use super::super::*;
        #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum Error { DeadlineReached, IoError, Unknown }
        static mut ANSWER: Option<(u16, Vec<u8>)> = None;
        pub fn sim_answer(a: Option<(u16, Vec<u8>)>) { unsafe { ANSWER = a } }
        pub struct Request; pub struct PendingRequest; pub struct Response { pub code: u16, b: Vec<u8> } pub struct ResponseBody(Vec<u8>, usize);
        impl Request { pub fn post<T>(_u: &str, _b: T) -> Self { Request } pub fn add_header(self, _k: &str, _v: &str) -> Self { self } pub fn deadline(self, _d: sp_core::offchain::Timestamp) -> Self { self } pub fn send(self) -> Result<PendingRequest, ()> { Ok(PendingRequest) } }
        impl PendingRequest { pub fn try_wait(self, _d: impl Into<Option<sp_core::offchain::Timestamp>>) -> Result<Result<Response, Error>, PendingRequest> { match unsafe { (*core::ptr::addr_of!(ANSWER)).clone() } { Some((code, b)) => Ok(Ok(Response { code, b })), None => Err(self) } } }
        impl Response { pub fn body(&self) -> ResponseBody { ResponseBody(self.b.clone(), 0) } }
        impl Iterator for ResponseBody { type Item = u8; fn next(&mut self) -> Option<u8> { let r = self.0.get(self.1).copied(); self.1 += 1; r } }
    }
    pub mod storage_lock {
        use super::super::*;
        pub struct Time; pub struct BlockAndTime<B>(core::marker::PhantomData<B>); pub struct StorageLock<'a, L>(core::marker::PhantomData<&'a L>); pub struct Guard;
        // one worker: locks are always free
        impl<'a, L> StorageLock<'a, L> { pub fn with_deadline(_k: &'a [u8], _d: sp_core::offchain::Duration) -> Self { StorageLock(core::marker::PhantomData) } pub fn with_block_and_time_deadline(_k: &'a [u8], _b: u32, _d: sp_core::offchain::Duration) -> Self { StorageLock(core::marker::PhantomData) } pub fn try_lock(&mut self) -> Result<Guard, ()> { Ok(Guard) } pub fn lock(&mut self) -> Guard { Guard } }
        impl Guard { pub fn extend_lock(&mut self) -> Result<(), ()> { Ok(()) } }
        impl Guard { pub fn forget(self) {} }
        #[allow(unused)] fn _x(_: Vec<u8>) {}
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct ModuleError { pub index: u8, pub error: [u8; 4], #[codec(skip)] pub message: Option<&'static str> }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum TokenError { FundsUnavailable, OnlyProvider, BelowMinimum, CannotCreate, UnknownAsset, Frozen, Unsupported, CannotCreateHold, NotExpendable, Blocked }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum ArithmeticError { Underflow, Overflow, DivisionByZero }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum TransactionalError { LimitReached, NoLayer }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum DispatchError { Other(#[codec(skip)] &'static str), CannotLookup, BadOrigin, Module(ModuleError), ConsumerRemaining, NoProviders, TooManyConsumers, Token(TokenError), Arithmetic(ArithmeticError), Transactional(TransactionalError), Exhausted, Corruption, Unavailable, RootNotAllowed }
impl From<ArithmeticError> for DispatchError { fn from(e: ArithmeticError) -> Self { DispatchError::Arithmetic(e) } }
impl From<TokenError> for DispatchError { fn from(e: TokenError) -> Self { DispatchError::Token(e) } }
impl From<&'static str> for DispatchError { fn from(e: &'static str) -> Self { DispatchError::Other(e) } }
impl From<traits::BadOrigin> for DispatchError { fn from(_: traits::BadOrigin) -> Self { DispatchError::BadOrigin } }
impl From<traits::LookupError> for DispatchError { fn from(_: traits::LookupError) -> Self { DispatchError::CannotLookup } }
impl From<DispatchError> for &'static str { fn from(_: DispatchError) -> &'static str { "dispatch error" } }
pub type DispatchResult = Result<(), DispatchError>;
pub type TryRuntimeError = DispatchError;
#[derive(Clone, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo)]
pub struct DispatchErrorWithPostInfo<Info> { pub post_info: Info, pub error: DispatchError }
impl<I: Default, T: Into<DispatchError>> From<T> for DispatchErrorWithPostInfo<I> { fn from(e: T) -> Self { DispatchErrorWithPostInfo { post_info: I::default(), error: e.into() } } }
impl Default for DispatchError { fn default() -> Self { DispatchError::Other("") } }
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;
pub type ApplyExtrinsicResult = Result<DispatchResult, transaction_validity::TransactionValidityError>;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, TypeInfo)]
pub enum MultiAddress<AccountId, AccountIndex> { Id(AccountId), Index(#[codec(compact)] AccountIndex), Raw(Vec<u8>), Address32([u8; 32]), Address20([u8; 20]) }
impl<A, I> From<A> for MultiAddress<A, I> { fn from(a: A) -> Self { MultiAddress::Id(a) } }

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum MultiSigner { Ed25519([u8; 32]), Sr25519([u8; 32]), Ecdsa([u8; 33]) }
impl traits::IdentifyAccount for MultiSigner { type AccountId = AccountId32; fn into_account(self) -> AccountId32 { match self { MultiSigner::Ed25519(k) | MultiSigner::Sr25519(k) => AccountId32(k), MultiSigner::Ecdsa(_) => AccountId32([0xEC; 32]) } } }
/// An ideal signature scheme: a signature is valid exactly for the message and signer it was made with.
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum MultiSignature { Ed25519([u8; 64]), Sr25519([u8; 64]), Ecdsa([u8; 65]) }
impl MultiSignature { fn raw(&self) -> &[u8] { match self { MultiSignature::Ed25519(b) | MultiSignature::Sr25519(b) => b, MultiSignature::Ecdsa(b) => b } } }
static mut SIGNED: Vec<(AccountId32, Vec<u8>)> = Vec::new();
/// the signature of `msg` by `signer` (a fresh one on every call)
pub fn sim_sign(signer: &AccountId32, msg: &[u8]) -> MultiSignature {
    let t = unsafe { &mut *core::ptr::addr_of_mut!(SIGNED) }; t.push((signer.clone(), msg.to_vec())); let mut b = [0u8; 64]; b[0] = t.len() as u8; MultiSignature::Sr25519(b)
}
impl traits::Verify for MultiSignature {
    type Signer = MultiSigner;
    fn verify<L: traits::Lazy<[u8]>>(&self, mut msg: L, signer: &AccountId32) -> bool {
        let t = unsafe { &*core::ptr::addr_of!(SIGNED) }; let n = self.raw()[0] as usize;
        if n == 0 || n > t.len() { return false }
        let (s, m) = &t[n - 1]; let x = msg.get();
        s == signer && m.as_slice() == x
    }
}
#[derive(Clone, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo)]
pub struct OpaqueExtrinsic(pub Vec<u8>);
pub trait SaturatedConversion { fn saturated_from<T>(t: T) -> Self where Self: traits::UniqueSaturatedFrom<T>, Self: Sized { <Self as traits::UniqueSaturatedFrom<T>>::unique_saturated_from(t) } fn saturated_into<T>(self) -> T where Self: traits::UniqueSaturatedInto<T>, Self: Sized { self.unique_saturated_into() } }
impl<T: Sized> SaturatedConversion for T {}
pub type Justification = ();
pub mod codec { pub use parity_scale_codec::*; }
