//! What the runtime's filters let through, written out again.
use crate::*; use crate::calls::*;
use stubs::*;
pub fn testnet_ok(c: &RuntimeCall) -> bool { <testnet::cfg::frame_system::BaseCallFilter as Contains<RuntimeCall>>::contains(c) }
pub fn mainnet_ok(c: &RuntimeCall) -> bool { <mainnet::cfg::frame_system::BaseCallFilter as Contains<RuntimeCall>>::contains(c) }
/// registering providers and schemas directly
pub fn direct(c: &RuntimeCall) -> bool { use pallet_schemas::Call as S; matches!(c, RuntimeCall::Msa(pallet_msa::Call::create_provider { .. }) | RuntimeCall::Schemas(S::create_schema { .. }) | RuntimeCall::Schemas(S::create_schema_v2 { .. }) | RuntimeCall::Schemas(S::create_schema_v3 { .. })) }
pub fn batchy(c: &RuntimeCall) -> bool { use pallet_utility::Call as U; matches!(c, RuntimeCall::Utility(U::batch { .. }) | RuntimeCall::Utility(U::batch_all { .. }) | RuntimeCall::Utility(U::force_batch { .. })) }
/// may be one of a batch's calls
pub fn inner_ok(c: &RuntimeCall) -> bool { !batchy(c) && !matches!(c, RuntimeCall::FrequencyTxPayment(_)) && !direct(c) && c.get_dispatch_info().pays_fee != Pays::No }
pub const PROXIES: [ProxyType; 5] = [ProxyType::Any, ProxyType::NonTransfer, ProxyType::Governance, ProxyType::Staking, ProxyType::CancelProxy];
/// what the kinds of proxies are for
pub fn proxy_ok(t: usize, c: &RuntimeCall) -> bool {
    use RuntimeCall::*; use pallet_time_release::Call as T;
    match t {
        0 => true,
        1 => match c { Balances(_) | System(_) | Sudo(_) | Timestamp(_) | ParachainSystem(_) | Proxy(_) | Passkey(_) => false, TimeRelease(t) => matches!(t, T::claim { .. } | T::claim_for { .. }), _ => true },
        2 => matches!(c, Treasury(_) | Democracy(_) | TechnicalCommittee(_) | Council(_) | Utility(_)),
        3 => matches!(c, Capacity(pallet_capacity::Call::stake { .. }) | CollatorSelection(pallet_collator_selection::Call::set_candidacy_bond { .. })),
        _ => matches!(c, Proxy(pallet_proxy::Call::reject_announcement { .. })),
    }
}
