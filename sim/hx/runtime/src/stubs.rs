//! The calls of pallets outside the repository, as far as the runtime's own rules look at them.
use crate::{RuntimeCall, RuntimeOrigin, Test};
use frame_support::dispatch::*;
use rt::{AccountId32, Balance};
macro_rules! stub { ($($m:ident { $($c:ident { $($f:ident: $t:ty),* $(,)? } $b:expr),* $(,)? })*) => { $(
    pub mod $m {
        #[allow(unused_imports)] use super::*; use frame_support::traits::UnfilteredDispatchable; use parity_scale_codec::{Encode, Output};
        pub trait Config: frame_system::Config {} impl Config for Test {}
        #[derive(Clone, PartialEq, Eq, Debug)] #[allow(non_camel_case_types)] pub enum Call<T> { $($c { $($f: $t),* },)* #[doc(hidden)] __Ignore(core::marker::PhantomData<T>) }
        #[derive(Clone, PartialEq, Eq, Debug)] pub enum Event<T> { __Ignore(core::marker::PhantomData<T>) }
        impl<T> Encode for Call<T> { #[allow(unused_variables, unused_assignments)] fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { let mut n = 0u8; $( if let Call::$c { $($f),* } = self { d.push_byte(n); $($f.encode_to(d);)* } n += 1; )* } }
        impl<T> GetDispatchInfo for Call<T> { fn get_dispatch_info(&self) -> DispatchInfo { DispatchInfo { weight: frame_support::weights::Weight::from_parts(1_000_000, 100), class: DispatchClass::Normal, pays_fee: Pays::Yes } } }
        impl<T> UnfilteredDispatchable for Call<T> { type RuntimeOrigin = RuntimeOrigin; #[allow(unused_variables)] fn dispatch_bypass_filter(self, o: RuntimeOrigin) -> DispatchResultWithPostInfo { match self { $(Call::$c { $($f),* } => { let f: fn(RuntimeOrigin, $($t),*) -> DispatchResultWithPostInfo = $b; f(o, $($f),*) },)* _ => Ok(().into()) } } }
        pub fn all() -> Vec<Call<Test>> { vec![$(Call::$c { $($f: Default_::default_()),* }),*] }
    }
)* } }
/// some value for each field
pub trait Default_ { fn default_() -> Self; }
impl Default_ for AccountId32 { fn default_() -> Self { rt::acct(7) } } impl Default_ for Balance { fn default_() -> Self { 1 } } impl Default_ for u32 { fn default_() -> Self { 1 } } impl Default_ for u16 { fn default_() -> Self { 1 } } impl Default_ for bool { fn default_() -> Self { true } } impl Default_ for Vec<u8> { fn default_() -> Self { vec![] } }
impl Default_ for Vec<RuntimeCall> { fn default_() -> Self { vec![] } } impl Default_ for Box<RuntimeCall> { fn default_() -> Self { Box::new(RuntimeCall::System(frame_system::Call::remark { remark: vec![] })) } }
stub! {
    pallet_balances { transfer_keep_alive { dest: AccountId32, value: Balance } |o, d, v| do_transfer(o, d, v, true), transfer_allow_death { dest: AccountId32, value: Balance } |o, d, v| do_transfer(o, d, v, false), transfer_all { dest: AccountId32, keep_alive: bool } |_, _, _| Ok(().into()), force_transfer { source: AccountId32, dest: AccountId32, value: Balance } |_, _, _, _| Ok(().into()), force_unreserve { who: AccountId32, amount: Balance } |_, _, _| Ok(().into()), force_set_balance { who: AccountId32, new_free: Balance } |_, _, _| Ok(().into()), upgrade_accounts {} |_| Ok(().into()) }
    pallet_utility { batch { calls: Vec<RuntimeCall> } |o, c| UtilityPallet::batch_all(o, c), as_derivative { index: u16, call: Box<RuntimeCall> } |o, _, c| sp_runtime::traits::Dispatchable::dispatch(*c, o), batch_all { calls: Vec<RuntimeCall> } |o, c| UtilityPallet::batch_all(o, c), dispatch_as { call: Box<RuntimeCall> } |o, c| sp_runtime::traits::Dispatchable::dispatch(*c, o), force_batch { calls: Vec<RuntimeCall> } |o, c| UtilityPallet::batch_all(o, c), with_weight { call: Box<RuntimeCall> } |o, c| sp_runtime::traits::Dispatchable::dispatch(*c, o) }
    pallet_proxy { proxy { real: AccountId32, call: Box<RuntimeCall> } |o, _, c| sp_runtime::traits::Dispatchable::dispatch(*c, o), add_proxy { delegate: AccountId32 } |_, _| Ok(().into()), remove_proxy { delegate: AccountId32 } |_, _| Ok(().into()), remove_proxies {} |_| Ok(().into()), create_pure { index: u16 } |_, _| Ok(().into()), kill_pure { spawner: AccountId32 } |_, _| Ok(().into()), announce { real: AccountId32 } |_, _| Ok(().into()), remove_announcement { real: AccountId32 } |_, _| Ok(().into()), reject_announcement { delegate: AccountId32 } |_, _| Ok(().into()), proxy_announced { delegate: AccountId32, call: Box<RuntimeCall> } |_, _, _| Ok(().into()) }
    pallet_collator_selection { set_invulnerables { new: Vec<u8> } |_, _| Ok(().into()), set_desired_candidates { max: u32 } |_, _| Ok(().into()), set_candidacy_bond { bond: Balance } |_, _| Ok(().into()), register_as_candidate {} |_| Ok(().into()), leave_intent {} |_| Ok(().into()), add_invulnerable { who: AccountId32 } |_, _| Ok(().into()), remove_invulnerable { who: AccountId32 } |_, _| Ok(().into()), update_bond { new_deposit: Balance } |_, _| Ok(().into()), take_candidate_slot { deposit: Balance, target: AccountId32 } |_, _, _| Ok(().into()) }
    pallet_council { set_members {} |_| Ok(().into()), execute { proposal: Box<RuntimeCall> } |_, _| Ok(().into()), propose { threshold: u32, proposal: Box<RuntimeCall> } |_, _, _| Ok(().into()), vote { approve: bool } |_, _| Ok(().into()), close {} |_| Ok(().into()) }
    pallet_technical_committee { set_members {} |_| Ok(().into()), execute { proposal: Box<RuntimeCall> } |_, _| Ok(().into()), propose { threshold: u32, proposal: Box<RuntimeCall> } |_, _, _| Ok(().into()), vote { approve: bool } |_, _| Ok(().into()), close {} |_| Ok(().into()) }
    pallet_democracy { propose { value: Balance } |_, _| Ok(().into()), second {} |_| Ok(().into()), vote {} |_| Ok(().into()), delegate { to: AccountId32 } |_, _| Ok(().into()) }
    pallet_treasury { propose_spend { value: Balance, beneficiary: AccountId32 } |_, _, _| Ok(().into()), approve_proposal {} |_| Ok(().into()), spend_local { amount: Balance } |_, _| Ok(().into()) }
    pallet_multisig { as_multi { threshold: u16, call: Box<RuntimeCall> } |_, _, _| Ok(().into()), approve_as_multi { threshold: u16 } |_, _| Ok(().into()), cancel_as_multi {} |_| Ok(().into()) }
    pallet_preimage { note_preimage { bytes: Vec<u8> } |_, _| Ok(().into()), request_preimage {} |_| Ok(().into()) }
    pallet_scheduler { schedule { when: u32, call: Box<RuntimeCall> } |_, _, _| Ok(().into()), cancel { when: u32 } |_, _| Ok(().into()) }
    pallet_session { set_keys { proof: Vec<u8> } |_, _| Ok(().into()), purge_keys {} |_| Ok(().into()) }
    cumulus_pallet_parachain_system { set_validation_data {} |_| Ok(().into()), sudo_send_upward_message { message: Vec<u8> } |_, _| Ok(().into()) }
    pallet_sudo { sudo { call: Box<RuntimeCall> } |_, _| Ok(().into()), set_key { new: AccountId32 } |_, _| Ok(().into()) }
    pallet_timestamp { set { now: u32 } |_, _| Ok(().into()) }
}
pub fn do_transfer(o: RuntimeOrigin, to: AccountId32, v: Balance, keep: bool) -> DispatchResultWithPostInfo {
    use frame_support::traits::tokens::{fungible::Mutate, Preservation::*}; let w = frame_system::ensure_signed(o)?; rt::Bal::<crate::Fr>::transfer(&w, &to, v, if keep { Preserve } else { Expendable })?; Ok(().into())
}
pub struct UtilityPallet;
impl UtilityPallet {
    /// each call in turn through the call filter, the first failure fails them all
    pub fn batch_all(o: RuntimeOrigin, calls: Vec<RuntimeCall>) -> DispatchResultWithPostInfo { for c in calls { if let RuntimeCall::Utility(pallet_utility::Call::batch_all { .. }) = c { return Err(sp_runtime::DispatchError::Other("CallFiltered").into()) } sp_runtime::traits::Dispatchable::dispatch(c, o.clone())?; } Ok(().into()) }
}
/// what was proposed to the council: by whom, with which threshold
pub static mut PROPOSED: Option<(AccountId32, u32, RuntimeCall, u32)> = None;
pub static mut MEMBERS: usize = 0;
pub struct CouncilPallet;
impl CouncilPallet { pub fn members() -> Vec<AccountId32> { (0..unsafe { MEMBERS }).map(|i| rt::acct(100 + i as u8)).collect() } pub fn do_propose_proposed(who: AccountId32, threshold: u32, p: Box<RuntimeCall>, len: u32) -> Result<(u32, u32), sp_runtime::DispatchError> { unsafe { PROPOSED = Some((who, threshold, *p, len)) } Ok((len, 1)) } }

/// blocks and transactions, as far as the runtime API sees them
#[derive(Debug)] pub struct Header; impl sp_runtime::traits::Header for Header { type Number = u32; }
#[derive(Debug)] pub struct Block; impl sp_runtime::traits::Block for Block { type Hash = u64; type Header = Header; type Extrinsic = UncheckedExtrinsic; }
#[derive(Clone, PartialEq, Eq, Debug)] pub struct UncheckedExtrinsic { pub function: RuntimeCall }
impl parity_scale_codec::Encode for UncheckedExtrinsic {}
/// the transaction that well-formed bytes stand for
pub static mut DECODED: Option<RuntimeCall> = None;
impl parity_scale_codec::Decode for UncheckedExtrinsic { fn decode<I: parity_scale_codec::Input>(_: &mut I) -> Result<Self, parity_scale_codec::Error> { unsafe { DECODED.clone().map(|function| UncheckedExtrinsic { function }).ok_or("transaction".into()) } } }
impl GetDispatchInfo for UncheckedExtrinsic { fn get_dispatch_info(&self) -> DispatchInfo { self.function.get_dispatch_info() } }
