//! Calls of every kind.
use crate::*;
use pallet_stateful_storage::types::{self as st, *};
pub fn sig() -> MultiSignature { MultiSignature::Sr25519([0u8; 64]) }
fn bv<S: Get<u32>>(n: usize) -> frame_support::BoundedVec<u8, S> { frame_support::BoundedVec::try_from(vec![3u8; n]).unwrap_or_else(|_| panic!("fits")) }
/// items of `n` bytes each: additions, with a deletion between them, which adds no bytes
fn acts<S: Get<u32> + Clone + core::fmt::Debug + PartialEq, M: Get<u32>>(n: usize) -> frame_support::BoundedVec<ItemAction<S>, M> { frame_support::BoundedVec::try_from(if n == 0 { vec![ItemAction::Delete { index: 1 }] } else { vec![ItemAction::Add { data: bv(n) }, ItemAction::Delete { index: 1 }, ItemAction::Add { data: bv(n) }] }).unwrap_or_else(|_| panic!("fits")) }
/// the calls that may be paid for with capacity, with a variable part of `n`, and what the documentation says each of them weighs:
/// fixed time, time for each unit of the variable part, units, reads and writes
pub const ELIGIBLE: u64 = 16;
pub fn eligible(k: u64, n: usize) -> (RuntimeCall, [u64; 5]) {
    let d = acct(5); let ids: Vec<u16> = (0..n).map(|i| i as u16 + 1).collect(); let ap = || pallet_msa::types::AddProvider { authorized_msa_id: 1, schema_ids: ids.clone(), expiration: 10 };
    let h = || common_primitives::handles::ClaimHandlePayload { base_handle: vec![b'a'; n], expiration: 10 }; let u = n as u64;
    use pallet_stateful_storage::Call as S;
    match k {
        0 => (RuntimeCall::Msa(pallet_msa::Call::add_public_key_to_msa { msa_owner_public_key: d, msa_owner_proof: sig(), new_key_owner_proof: sig(), add_key_payload: pallet_msa::types::AddKeyData { msa_id: 1, expiration: 10, new_public_key: acct(6) } }), [177_629_000, 0, 0, 8, 7]),
        1 => (RuntimeCall::Msa(pallet_msa::Call::create_sponsored_account_with_delegation { delegator_key: d, proof: sig(), add_provider_payload: ap() }), [123_084_817, 138_668, u, 10, 7]),
        2 => (RuntimeCall::Msa(pallet_msa::Call::grant_delegation { delegator_key: d, proof: sig(), add_provider_payload: ap() }), [115_947_313, 192_710, u, 8, 4]),
        3 => (RuntimeCall::Messages(pallet_messages::Call::add_ipfs_message { schema_id: 1, cid: vec![1; n], payload_length: 3 }), [159_242_000, 0, 0, 3, 1]),
        4 => (RuntimeCall::Messages(pallet_messages::Call::add_onchain_message { on_behalf_of: None, schema_id: 1, payload: vec![1; n] }), [174_064_230, 1_527, u, 4, 1]),
        5 => (RuntimeCall::StatefulStorage(S::apply_item_actions { state_owner_msa_id: 1, schema_id: 1, target_hash: 0, actions: acts(n) }), [104_137_090, 7_325, 2 * u, 4, 1]),
        6 => (RuntimeCall::StatefulStorage(S::upsert_page { state_owner_msa_id: 1, schema_id: 1, page_id: 0, target_hash: 0, payload: bv(n) }), [32_297_181, 594, u, 4, 1]),
        7 => (RuntimeCall::StatefulStorage(S::delete_page { state_owner_msa_id: 1, schema_id: 1, page_id: 0, target_hash: 0 }), [37_792_000, 0, 0, 4, 1]),
        8 => (RuntimeCall::StatefulStorage(S::apply_item_actions_with_signature { delegator_key: d, proof: sig(), payload: st::ItemizedSignaturePayload { msa_id: 1, schema_id: 1, target_hash: 0, expiration: 10, actions: acts(n) } }), [158_947_612, 13_664, 2 * u, 3, 1]),
        9 => (RuntimeCall::StatefulStorage(S::apply_item_actions_with_signature_v2 { delegator_key: d, proof: sig(), payload: st::ItemizedSignaturePayloadV2 { schema_id: 1, target_hash: 0, expiration: 10, actions: acts(n) } }), [158_947_612, 13_664, 2 * u, 3, 1]),
        10 => (RuntimeCall::StatefulStorage(S::upsert_page_with_signature { delegator_key: d, proof: sig(), payload: st::PaginatedUpsertSignaturePayload { msa_id: 1, schema_id: 1, page_id: 0, target_hash: 0, expiration: 10, payload: bv(n) } }), [87_768_259, 6_648, u, 3, 1]),
        11 => (RuntimeCall::StatefulStorage(S::upsert_page_with_signature_v2 { delegator_key: d, proof: sig(), payload: st::PaginatedUpsertSignaturePayloadV2 { schema_id: 1, page_id: 0, target_hash: 0, expiration: 10, payload: bv(n) } }), [87_768_259, 6_648, u, 3, 1]),
        12 => (RuntimeCall::StatefulStorage(S::delete_page_with_signature { delegator_key: d, proof: sig(), payload: st::PaginatedDeleteSignaturePayload { msa_id: 1, schema_id: 1, page_id: 0, target_hash: 0, expiration: 10 } }), [90_631_000, 0, 0, 3, 1]),
        13 => (RuntimeCall::StatefulStorage(S::delete_page_with_signature_v2 { delegator_key: d, proof: sig(), payload: st::PaginatedDeleteSignaturePayloadV2 { schema_id: 1, page_id: 0, target_hash: 0, expiration: 10 } }), [90_631_000, 0, 0, 3, 1]),
        14 => (RuntimeCall::Handles(pallet_handles::Call::claim_handle { msa_owner_key: d, proof: sig(), payload: h() }), [85_480_476, 107_272, u, 3, 3]),
        _ => (RuntimeCall::Handles(pallet_handles::Call::change_handle { msa_owner_key: d, proof: sig(), payload: h() }), [95_748_064, 212_118, u, 3, 4]),
    }
}
/// reads take 25 microseconds, writes 100
pub fn time(w: [u64; 5]) -> u64 { w[0] + w[1] * w[2] + 25_000_000 * w[3] + 100_000_000 * w[4] }
/// the repository's other calls
pub fn others() -> Vec<RuntimeCall> {
    use pallet_schemas::Call as K; use common_primitives::schema::*; let m = || bv(3); let s = || frame_support::BoundedVec::try_from(vec![]).unwrap_or_else(|_| panic!("fits")); let nm = || bv(3); let t = || (ModelType::AvroBinary, PayloadLocation::OnChain);
    let sch = || pallet_time_release::ReleaseSchedule { start: 1u32, period: 1, period_count: 1, per_period: 5u128.into() };
    vec![
        RuntimeCall::Msa(pallet_msa::Call::create {}), RuntimeCall::Msa(pallet_msa::Call::create_provider { provider_name: vec![1] }), RuntimeCall::Msa(pallet_msa::Call::revoke_delegation_by_delegator { provider_msa_id: 1 }), RuntimeCall::Msa(pallet_msa::Call::delete_msa_public_key { public_key_to_delete: acct(5) }),
        RuntimeCall::Msa(pallet_msa::Call::revoke_delegation_by_provider { delegator: 1 }), RuntimeCall::Msa(pallet_msa::Call::revoke_schema_permissions { provider_msa_id: 1, schema_ids: vec![1] }), RuntimeCall::Msa(pallet_msa::Call::retire_msa {}), RuntimeCall::Msa(pallet_msa::Call::propose_to_be_provider { provider_name: vec![1] }), RuntimeCall::Msa(pallet_msa::Call::create_provider_via_governance { provider_key: acct(5), provider_name: vec![1] }),
        RuntimeCall::Schemas(K::create_schema { model: m(), model_type: t().0, payload_location: t().1 }), RuntimeCall::Schemas(K::set_max_schema_model_bytes { max_size: 5 }), RuntimeCall::Schemas(K::propose_to_create_schema { model: m(), model_type: t().0, payload_location: t().1, settings: s() }), RuntimeCall::Schemas(K::create_schema_via_governance { creator_key: acct(5), model: m(), model_type: t().0, payload_location: t().1, settings: s() }),
        RuntimeCall::Schemas(K::create_schema_v2 { model: m(), model_type: t().0, payload_location: t().1, settings: s() }), RuntimeCall::Schemas(K::propose_to_create_schema_v2 { model: m(), model_type: t().0, payload_location: t().1, settings: s(), schema_name: None }), RuntimeCall::Schemas(K::create_schema_via_governance_v2 { creator_key: acct(5), model: m(), model_type: t().0, payload_location: t().1, settings: s(), schema_name: None }),
        RuntimeCall::Schemas(K::create_schema_v3 { model: m(), model_type: t().0, payload_location: t().1, settings: s(), schema_name: None }), RuntimeCall::Schemas(K::propose_to_create_schema_name { schema_id: 1, schema_name: nm() }), RuntimeCall::Schemas(K::create_schema_name_via_governance { schema_id: 1, schema_name: nm() }),
        RuntimeCall::Capacity(pallet_capacity::Call::stake { target: 1, amount: 5 }), RuntimeCall::Capacity(pallet_capacity::Call::withdraw_unstaked {}), RuntimeCall::Capacity(pallet_capacity::Call::unstake { target: 1, requested_amount: 5 }), RuntimeCall::Capacity(pallet_capacity::Call::set_epoch_length { length: 5 }),
        RuntimeCall::Handles(pallet_handles::Call::retire_handle {}),
        RuntimeCall::TimeRelease(pallet_time_release::Call::claim {}), RuntimeCall::TimeRelease(pallet_time_release::Call::transfer { dest: acct(5), schedule: sch() }), RuntimeCall::TimeRelease(pallet_time_release::Call::update_release_schedules { who: acct(5), release_schedules: vec![] }), RuntimeCall::TimeRelease(pallet_time_release::Call::claim_for { dest: acct(5) }),
        pay(RuntimeCall::System(frame_system::Call::remark { remark: vec![] })), pay_all(vec![]), pay(eligible(7, 0).0),
        RuntimeCall::System(frame_system::Call::remark { remark: vec![1] }),
    ]
}
pub fn remark() -> RuntimeCall { RuntimeCall::System(frame_system::Call::remark { remark: vec![1] }) }
/// a call of each kind of the pallets from outside the repository
pub fn foreign() -> Vec<RuntimeCall> {
    let mut v = vec![]; macro_rules! each { ($($n:ident $m:ident),*) => { $( v.extend(stubs::$m::all().into_iter().map(RuntimeCall::$n)); )* } }
    each!(Utility pallet_utility, Balances pallet_balances, Proxy pallet_proxy, CollatorSelection pallet_collator_selection, Council pallet_council, TechnicalCommittee pallet_technical_committee, Democracy pallet_democracy, Treasury pallet_treasury, Multisig pallet_multisig, Preimage pallet_preimage, Scheduler pallet_scheduler, Session pallet_session, ParachainSystem cumulus_pallet_parachain_system, Sudo pallet_sudo, Timestamp pallet_timestamp);
    v
}
pub fn everything() -> Vec<RuntimeCall> { let mut v: Vec<RuntimeCall> = (0..ELIGIBLE).map(|k| eligible(k, 1).0).collect(); v.extend(others()); v.extend(foreign()); v.push(passkeys::proxy(9, 0, sig(), remark())); v }
pub fn pay(c: RuntimeCall) -> RuntimeCall { RuntimeCall::FrequencyTxPayment(pallet_frequency_tx_payment::Call::pay_with_capacity { call: Box::new(c) }) }
pub fn pay_all(c: Vec<RuntimeCall>) -> RuntimeCall { RuntimeCall::FrequencyTxPayment(pallet_frequency_tx_payment::Call::pay_with_capacity_batch_all { calls: c }) }
pub fn batch(kind: u64, calls: Vec<RuntimeCall>) -> RuntimeCall { RuntimeCall::Utility(match kind { 0 => stubs::pallet_utility::Call::batch { calls }, 1 => stubs::pallet_utility::Call::batch_all { calls }, _ => stubs::pallet_utility::Call::force_batch { calls } }) }
pub fn transfer(to: u8, value: Balance) -> RuntimeCall { RuntimeCall::Balances(stubs::pallet_balances::Call::transfer_keep_alive { dest: acct(to), value }) }
