//! The mock runtime the pallet harnesses share: accounts, balances with freezes, and the runtime types.
pub use frame_support; pub use frame_system; pub use parity_scale_codec; pub use scale_info; pub use sp_core; pub use sp_io; pub use sp_runtime; pub use sym;
pub use sp_runtime::AccountId32;
use frame_support::traits::tokens::{fungible::*, *};
use sp_runtime::{DispatchError, TokenError};
#[cfg(not(feature = "u128"))] pub type Balance = u64;
#[cfg(feature = "u128")] pub type Balance = u128;
pub type BlockNumber = u32;
/// the heaviest block; a harness may change it
pub static mut MAX_BLOCK: u64 = 500_000_000_000;
pub struct MaxBlock; impl sp_core::Get<frame_system::limits::BlockWeights> for MaxBlock { fn get() -> frame_system::limits::BlockWeights { frame_system::limits::BlockWeights { base_block: frame_support::weights::Weight::zero(), max_block: frame_support::weights::Weight::from_parts(unsafe { MAX_BLOCK }, 5 * 1024 * 1024) } } }
pub fn acct(n: u8) -> AccountId32 { AccountId32::new([n; 32]) }
/// free balances and freezes of the token
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Acc { pub who: AccountId32, pub free: Balance, pub freezes: Vec<(u8, Balance)> }
pub static mut ACCS: Vec<Acc> = Vec::new();
pub fn accs() -> &'static mut Vec<Acc> { unsafe { &mut *core::ptr::addr_of_mut!(ACCS) } }
pub fn acc(w: &AccountId32) -> &'static mut Acc { let t = accs(); let i = match t.iter().position(|a| a.who == *w) { Some(i) => i, None => { t.push(Acc { who: w.clone(), free: 0, freezes: Vec::new() }); t.len() - 1 } }; &mut t[i] }
pub fn free(w: &AccountId32) -> Balance { acc(w).free }
pub fn frozen(id: u8, w: &AccountId32) -> Balance { acc(w).freezes.iter().find(|f| f.0 == id).map(|f| f.1).unwrap_or(0) }
pub fn frozen_any(w: &AccountId32) -> bool { !acc(w).freezes.is_empty() }
#[allow(clippy::unnecessary_cast)] pub fn issuance() -> u128 { accs().iter().map(|a| a.free as u128).sum() }
pub const ED: Balance = 1;
pub struct Bal<Id = u8>(core::marker::PhantomData<Id>);
pub trait FreezeId { fn n(&self) -> u8; }
impl FreezeId for u8 { fn n(&self) -> u8 { *self } }
impl<Id: FreezeId> Inspect<AccountId32> for Bal<Id> {
    type Balance = Balance;
    fn total_issuance() -> Balance { issuance() as Balance }
    fn minimum_balance() -> Balance { ED }
    fn total_balance(w: &AccountId32) -> Balance { free(w) }
    fn balance(w: &AccountId32) -> Balance { free(w) }
    fn reducible_balance(w: &AccountId32, p: Preservation, f: Fortitude) -> Balance {
        let a = acc(w); let mut untouchable = 0;
        if f == Fortitude::Polite { for z in a.freezes.iter() { untouchable = if z.1 > untouchable { z.1 } else { untouchable } } }
        if p != Preservation::Expendable && ED > untouchable { untouchable = ED }
        a.free.saturating_sub(untouchable)
    }
}
impl<Id: FreezeId> Mutate<AccountId32> for Bal<Id> {
    fn mint_into(w: &AccountId32, a: Balance) -> Result<Balance, DispatchError> { let x = acc(w); x.free = x.free.checked_add(a).ok_or(sp_runtime::ArithmeticError::Overflow)?; Ok(a) }
    fn burn_from(w: &AccountId32, a: Balance, _p: Precision, f: Fortitude) -> Result<Balance, DispatchError> { if Self::reducible_balance(w, Preservation::Expendable, f) < a { return Err(TokenError::FundsUnavailable.into()) } acc(w).free -= a; Ok(a) }
    fn transfer(s: &AccountId32, d: &AccountId32, a: Balance, p: Preservation) -> Result<Balance, DispatchError> {
        if Self::reducible_balance(s, p, Fortitude::Polite) < a { return Err(TokenError::FundsUnavailable.into()) }
        if s == d { return Ok(a) }
        let n = free(d).checked_add(a).ok_or(sp_runtime::ArithmeticError::Overflow)?;
        if n < ED { return Err(TokenError::BelowMinimum.into()) }
        acc(s).free -= a; acc(d).free = n; Ok(a)
    }
    fn set_balance(w: &AccountId32, a: Balance) -> Balance { acc(w).free = a; a }
}
impl<Id: FreezeId> InspectFreeze<AccountId32> for Bal<Id> {
    type Id = Id;
    fn balance_frozen(id: &Id, w: &AccountId32) -> Balance { frozen(id.n(), w) }
    fn can_freeze(_id: &Id, _w: &AccountId32) -> bool { true }
}
impl<Id: FreezeId> MutateFreeze<AccountId32> for Bal<Id> {
    fn set_freeze(id: &Id, w: &AccountId32, a: Balance) -> Result<(), DispatchError> { if a == 0 { return Self::thaw(id, w) } let x = acc(w); let n = id.n(); match x.freezes.iter().position(|f| f.0 == n) { Some(i) => x.freezes[i].1 = a, None => x.freezes.push((n, a)) } Ok(()) }
    fn extend_freeze(id: &Id, w: &AccountId32, a: Balance) -> Result<(), DispatchError> { let c = frozen(id.n(), w); Self::set_freeze(id, w, if a > c { a } else { c }) }
    fn thaw(id: &Id, w: &AccountId32) -> Result<(), DispatchError> { let n = id.n(); acc(w).freezes.retain(|f| f.0 != n); Ok(()) }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Origin(pub frame_system::RawOrigin<AccountId32>);
impl From<frame_system::RawOrigin<AccountId32>> for Origin { fn from(o: frame_system::RawOrigin<AccountId32>) -> Self { Origin(o) } }
impl From<Option<AccountId32>> for Origin { fn from(o: Option<AccountId32>) -> Self { Origin(o.into()) } }
impl From<Origin> for Result<frame_system::RawOrigin<AccountId32>, Origin> { fn from(o: Origin) -> Self { Ok(o.0) } }
impl frame_support::traits::OriginTrait for Origin { type AccountId = AccountId32; }
pub fn signed(n: u8) -> Origin { Origin(frame_system::RawOrigin::Signed(acct(n))) }
pub fn signed_by(a: &AccountId32) -> Origin { Origin(frame_system::RawOrigin::Signed(a.clone())) }
pub fn root() -> Origin { Origin(frame_system::RawOrigin::Root) }
pub fn none() -> Origin { Origin(frame_system::RawOrigin::None) }
/// an arbitrary origin that is not `Root`
pub fn not_root() -> Origin { if sym::bool("origin.none") { none() } else { signed(1) } }
#[macro_export]
macro_rules! runtime { ($($v:ident: $m:ident),* $(,)?) => {
    #[derive(Clone, PartialEq, Eq, Debug)] pub struct Test;
    impl $crate::scale_info::TypeInfo for Test { type Identity = Test; }
    #[derive(Clone, PartialEq, Eq, Debug)] pub enum RuntimeEvent { $($v($m::Event<Test>)),* }
    $( impl From<$m::Event<Test>> for RuntimeEvent { fn from(e: $m::Event<Test>) -> Self { RuntimeEvent::$v(e) } } )*
    impl $crate::parity_scale_codec::Encode for RuntimeEvent { fn encode_to<O: $crate::parity_scale_codec::Output + ?Sized>(&self, d: &mut O) { match self { $(RuntimeEvent::$v(_) => d.write(stringify!($v).as_bytes())),* } } }
    impl $crate::parity_scale_codec::EncodeLike for RuntimeEvent {}
    impl $crate::parity_scale_codec::Decode for RuntimeEvent { fn decode<I: $crate::parity_scale_codec::Input>(_i: &mut I) -> Result<Self, $crate::parity_scale_codec::Error> { Err("event".into()) } }
    impl $crate::scale_info::TypeInfo for RuntimeEvent { type Identity = Self; }
    #[derive(Clone, PartialEq, Eq, Debug)] pub enum RuntimeCall { System($crate::frame_system::Call<Test>), $($v($m::Call<Test>)),* }
    impl From<$crate::frame_system::Call<Test>> for RuntimeCall { fn from(e: $crate::frame_system::Call<Test>) -> Self { RuntimeCall::System(e) } }
    $( impl From<$m::Call<Test>> for RuntimeCall { fn from(e: $m::Call<Test>) -> Self { RuntimeCall::$v(e) } }
       impl $crate::frame_support::traits::IsSubType<$m::Call<Test>> for RuntimeCall { fn is_sub_type(&self) -> Option<&$m::Call<Test>> { match self { RuntimeCall::$v(c) => Some(c), #[allow(unreachable_patterns)] _ => None } } } )*
    impl $crate::scale_info::TypeInfo for RuntimeCall { type Identity = Self; }
    impl $crate::parity_scale_codec::Encode for RuntimeCall { fn encode_to<O: $crate::parity_scale_codec::Output + ?Sized>(&self, d: &mut O) { match self { RuntimeCall::System(c) => { d.push_byte(0); $crate::parity_scale_codec::Encode::encode_to(c, d) }, $(RuntimeCall::$v(c) => { d.write(stringify!($v).as_bytes()); $crate::parity_scale_codec::Encode::encode_to(c, d) }),* } } }
    impl $crate::parity_scale_codec::EncodeLike for RuntimeCall {}
    impl $crate::parity_scale_codec::Decode for RuntimeCall { fn decode<I: $crate::parity_scale_codec::Input>(_i: &mut I) -> Result<Self, $crate::parity_scale_codec::Error> { Err("call".into()) } }
    impl $crate::frame_support::dispatch::GetDispatchInfo for RuntimeCall { fn get_dispatch_info(&self) -> $crate::frame_support::dispatch::DispatchInfo { match self { RuntimeCall::System(c) => c.get_dispatch_info(), $(RuntimeCall::$v(c) => c.get_dispatch_info()),* } } }
    impl $crate::sp_runtime::traits::Dispatchable for RuntimeCall {
        type RuntimeOrigin = $crate::Origin; type Config = (); type Info = $crate::frame_support::dispatch::DispatchInfo; type PostInfo = $crate::frame_support::dispatch::PostDispatchInfo;
        fn dispatch(self, o: $crate::Origin) -> $crate::frame_support::dispatch::DispatchResultWithPostInfo { use $crate::frame_support::traits::UnfilteredDispatchable; if unsafe { SIM_FILTER.map(|f| o.0 != $crate::frame_system::RawOrigin::Root && !f(&self)).unwrap_or(false) } { return Err($crate::sp_runtime::DispatchError::Other("CallFiltered").into()) } match self { RuntimeCall::System(c) => c.dispatch_bypass_filter(o), $(RuntimeCall::$v(c) => c.dispatch_bypass_filter(o)),* } }
    }
    impl $crate::frame_system::Config for Test {
        type AccountId = $crate::AccountId32; type BlockNumber = $crate::BlockNumber; type RuntimeOrigin = $crate::Origin; type RuntimeEvent = RuntimeEvent; type RuntimeCall = RuntimeCall;
        type Hash = $crate::sp_core::H256; type Nonce = u32; type Lookup = $crate::sp_runtime::traits::IdentityLookup<$crate::AccountId32>; type DbWeight = $crate::frame_support::weights::constants::RocksDbWeight; type BlockWeights = $crate::MaxBlock;
        fn sim_block_number() -> *mut $crate::BlockNumber { static mut B: $crate::BlockNumber = 0; unsafe { core::ptr::addr_of_mut!(B) } }
        fn sim_events() -> *mut Vec<RuntimeEvent> { static mut E: Vec<RuntimeEvent> = Vec::new(); unsafe { core::ptr::addr_of_mut!(E) } }
        fn sim_accounts() -> *mut Vec<($crate::AccountId32, $crate::frame_system::AccountInfo<u32>)> { static mut A: Vec<($crate::AccountId32, $crate::frame_system::AccountInfo<u32>)> = Vec::new(); unsafe { core::ptr::addr_of_mut!(A) } }
    }
    /// the filter every dispatched call passes unless its origin is root; none by default
    #[allow(dead_code)] pub static mut SIM_FILTER: Option<fn(&RuntimeCall) -> bool> = None;
    pub fn set_block(n: $crate::BlockNumber) { $crate::frame_system::Pallet::<Test>::set_block_number(n) }
    pub fn events() -> Vec<RuntimeEvent> { $crate::frame_system::Pallet::<Test>::events() }
} }
