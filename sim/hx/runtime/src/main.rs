//! The runtime itself: its call filter, proxy rules, capacity fee table, transaction extensions and wiring, taken from
//! /repo/runtime/frequency/src/lib.rs by build.rs and put around the real pallets. X01.., Y01.., R01..
#![allow(dead_code, unused_imports)]
mod stubs;
pub use stubs::*;
include!("wiring.rs");
mod txs; mod calls; mod fees; mod passkeys; mod filters;

use calls::*; use fees::*; use txs::*;
type Led = pallet_capacity::types::CapacityDetails<Balance, <Test as pallet_capacity::Config>::EpochNumber>;
type Ep = <Test as pallet_capacity::Config>::EpochNumber;
const LIM: u128 = 1 << 40;
fn bal(n: &str) -> Balance { sym::u64(n) as u128 & (LIM - 1) }
fn led(m: u64) -> Option<Led> { pallet_capacity::CapacityLedger::<Test>::get(m) }
fn tokens() -> (Vec<Acc>, u128) { (accs().clone(), rt::issuance()) }
fn acct_info(w: u8) -> frame_system::AccountInfo<u32> { frame_system::Account::<Test>::get(&acct(w)) }
/// account 1 holds tokens and controls MSA 1 (perhaps), MSA 1 has capacity (perhaps); MSA 2 of account 2 has capacity too
struct World { free: Balance, msa: bool, led: Option<Led>, other: Led, epoch: Ep }
fn hash(_: u64, s: &[u8]) -> u64 { s.iter().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(*b as u64)) }
fn draw(_seed: u64, _step: u32, lo: u32, _hi: u32) -> u32 { lo }
fn world() -> World {
    twox_hash::set_oracle(hash); oorandom::set_source(draw);
    filter_on(); set_block(5);
    let free = bal("free"); *accs() = vec![Acc { who: acct(1), free, freezes: vec![] }, Acc { who: acct(2), free: 1 << 41, freezes: vec![] }];
    let msa = sym::bool("msa"); let epoch = sym::u32("epoch"); pallet_capacity::CurrentEpoch::<Test>::put(epoch);
    if msa { pallet_msa::PublicKeyToMsaId::<Test>::insert(acct(1), 1) } pallet_msa::PublicKeyToMsaId::<Test>::insert(acct(2), 2);
    let l = if sym::bool("capacity") { let l = Led { remaining_capacity: bal("remaining"), total_tokens_staked: bal("staked"), total_capacity_issued: bal("issued"), last_replenished_epoch: sym::u32("last") }; pallet_capacity::CapacityLedger::<Test>::insert(1, l.clone()); Some(l) } else { None };
    let other = Led { remaining_capacity: 1 << 42, total_tokens_staked: 1 << 42, total_capacity_issued: 1 << 42, last_replenished_epoch: 0 }; pallet_capacity::CapacityLedger::<Test>::insert(2, other.clone());
    World { free, msa, led: l, other, epoch }
}
/// what a capacity fee of `fee` does: the ledger afterwards, if it can be paid
fn paid(w: &World, fee: u128) -> Option<Led> {
    if w.free < 1 || !w.msa { return None } let mut l = w.led.clone()?; if l.last_replenished_epoch < w.epoch { l.remaining_capacity = l.total_capacity_issued; l.last_replenished_epoch = w.epoch } if l.remaining_capacity < fee { return None } l.remaining_capacity -= fee; Some(l)
}
fn charged(w: &World, fee: u128, ok: bool) {
    let want = paid(w, fee); sym::check(ok == want.is_some(), "the transaction is accepted exactly if its capacity fee can be paid");
    if ok { sym::check(led(1) == want, "the fee is taken once from the sender's capacity"); sym::check(led(2) == Some(w.other.clone()), "nobody else's capacity is touched"); sym::check(accs()[0].free == w.free && accs()[1].free == 1 << 41 && accs().len() == 2, "no tokens are charged"); }
}
fn par(tip: Balance) -> Parts { Parts { nonce: 0, tip } }

sym::harnesses!{
fn x01_charge_a() { charge(0, 3) }
fn x01_charge_b() { charge(4, 7) }
fn x01_charge_c() { charge(8, 11) }
fn x01_charge_d() { charge(12, 15) }
// heavier than the heaviest block: the weight fee stops there
fn x01_cap() {
    unsafe { rt::MAX_BLOCK = 150_000_000 } let w = world(); let (c, wt) = eligible(7, 1); let two = sym::bool("two"); let len = sym::u32("len");
    let r = if two { accept(1, &pay_all(vec![c.clone(), c]), par(0), len as usize) } else { accept(1, &pay(c), par(0), len as usize) };
    charged(&w, weight_fee(105_455_000) + weight_fee(150_000_000) + BYTE * len as u128, r.is_ok()); let _ = wt;
}
fn x01_batch() {
    let w = world(); let n = sym::choose("calls", 0, 2); let len = sym::u32("len"); let mut cs = vec![]; let mut t = 0;
    for i in 0..n { let (c, wt) = eligible([4, 7][i as usize], 2); t += time(wt); cs.push(c) }
    let r = accept(1, &pay_all(cs), par(bal("tip")), len as usize); charged(&w, capacity_fee(t, len), r.is_ok());
}
// a call that is not eligible is refused, alone or in a batch with eligible ones, at any place
fn x01_refused() {
    let w = world(); let v: Vec<RuntimeCall> = others().into_iter().chain([transfer(2, 5), batch(1, vec![]), batch(0, vec![eligible(7, 0).0]), pay_all(vec![eligible(7, 0).0]), passkeys::proxy(1, 0, sig(), remark())]).collect();
    let k = sym::choose("call", 0, v.len() as u64 - 1); let c = v[k as usize].clone(); let e = eligible(7, 0).0;
    let outer = match sym::choose("how", 0, 3) { 0 => pay(c), 1 => pay_all(vec![c]), 2 => pay_all(vec![c, e]), _ => pay_all(vec![e, c]) };
    sym::check(accept(1, &outer, par(0), 100).is_err(), "a call that is not eligible cannot be paid for with capacity"); let _ = w;
}
// the pool accepts what a block would accept
fn x01_pool() {
    let w = world(); let k = sym::choose("call", 4, 7); let (c, wt) = eligible(k, 1); let len = sym::u32("len"); let r = validate(1, &pay(c), par(bal("tip")), len as usize);
    sym::check(r.is_ok() == paid(&w, capacity_fee(time(wt), len)).is_some(), "the pool accepts a transaction exactly if its capacity fee can be paid");
}
// all the way: whether the call fails or not, capacity is charged once and tokens are not
fn x01_apply() {
    let w = world(); let (c, wt) = eligible(3, 0); let len = sym::u32("len"); let all = sym::bool("all"); let r = apply(1, &if all { pay_all(vec![c]) } else { pay(c) }, par(bal("tip")), len as usize);
    charged(&w, capacity_fee(time(wt), len), r.is_ok()); sym::check(!matches!(r, Ok(Ok(()))), "there is no schema 1");
}
fn x01_apply_ok() {
    let w = world(); let n = 2; let (c, wt) = (RuntimeCall::StatefulStorage(pallet_stateful_storage::Call::delete_page { state_owner_msa_id: 1, schema_id: 1, page_id: 0, target_hash: 0 }), 0); let _ = (n, wt);
    pallet_schemas::SchemaInfos::<Test>::insert(1, pallet_schemas::SchemaInfo { model_type: common_primitives::schema::ModelType::AvroBinary, payload_location: common_primitives::schema::PayloadLocation::Paginated, settings: Default::default(), has_name: false });
    let len = sym::u32("len"); let twice = sym::bool("twice"); let r = apply(1, &if twice { pay_all(vec![c.clone(), c]) } else { pay(c) }, par(0), len as usize); let t = time(eligible(7, 0).1);
    charged(&w, capacity_fee(if twice { 2 * t } else { t }, len), r.is_ok()); if r.is_ok() { sym::check(matches!(r, Ok(Ok(()))), "the call is carried out"); sym::cover("carried out") }
}
// the calls of a batch go through the call filter and take effect together; at most ten of them
fn x01_limit() {
    let _w = world(); let n = sym::choose("calls", 9, 12) as usize; let who = sym::bool("signed"); let r = pay_all(vec![remark(); n]).dispatch(if who { signed(1) } else { rt::none() });
    sym::check(r.is_ok() == (who && n <= 10), "a batch holds at most ten calls, of a signed origin");
    let r = pay(remark()).dispatch(if who { signed(1) } else { rt::none() }); sym::check(r.is_ok() == who, "a capacity call has a signed origin");
}
// any other transaction pays with tokens, whatever capacity there is
fn x01_tokens_a() { tokens_only(0) }
fn x01_tokens_b() { tokens_only(1) }
fn x01_tokens_c() { tokens_only(2) }
fn x01_tokens_d() { tokens_only(3) }
// free calls cost a tip at most
fn x01_free() {
    let w = world(); rt::acc(&acct(1)); pallet_handles::MSAIdToDisplayName::<Test>::insert(1, (frame_support::BoundedVec::try_from(b"abc.1".to_vec()).unwrap(), 1)); let c = RuntimeCall::Handles(pallet_handles::Call::retire_handle {}); let tip = bal("tip"); let len = sym::u32("len");
    let r = accept(1, &c, par(tip), len as usize); if let Ok((i, pre)) = r { sym::check(accs()[0].free == w.free - tip && led(1) == w.led, "nothing but the tip is charged"); sym::check(finish(pre, &i, &PostDispatchInfo { actual_weight: None, pays_fee: Pays::No }, len as usize, &Ok(())).is_ok() && accs()[0].free == w.free - tip, "and nothing afterwards"); sym::cover("free"); sym::check(w.msa, "of an MSA") }
}
fn x02_eligible() {
    filter_on(); let k = sym::choose("call", 0, 15); let n = sym::choose("length", 0, 3) as usize; let (c, wt) = eligible(k, n);
    let g = <CapacityEligibleCalls as pallet_frequency_tx_payment::types::GetStableWeight<RuntimeCall, Weight>>::get_stable_weight(&c); sym::check(g.map(|w| w.ref_time()) == Some(time(wt)), "the call has its own stable weight");
}
fn x02_others() {
    let v: Vec<RuntimeCall> = others().into_iter().chain(foreign()).chain([passkeys::proxy(1, 0, sig(), remark())]).collect(); let k = sym::choose("call", 0, v.len() as u64 - 1);
    sym::check(<CapacityEligibleCalls as pallet_frequency_tx_payment::types::GetStableWeight<RuntimeCall, Weight>>::get_stable_weight(&v[k as usize]).is_none(), "no other call is eligible");
}
// which calls are free, and of which class each is
fn r05_free() {
    let v = everything(); let c = v[sym::choose("call", 0, v.len() as u64 - 1) as usize].clone(); let i = c.get_dispatch_info(); use pallet_msa::Call as M;
    let free = matches!(&c, RuntimeCall::Msa(M::retire_msa { .. } | M::delete_msa_public_key { .. } | M::revoke_delegation_by_delegator { .. } | M::revoke_delegation_by_provider { .. }) | RuntimeCall::Handles(pallet_handles::Call::retire_handle { .. })); let op = matches!(&c, RuntimeCall::Schemas(pallet_schemas::Call::set_max_schema_model_bytes { .. }));
    sym::check((i.pays_fee == Pays::No) == free, "exactly five calls are free"); use frame_support::pallet_prelude::DispatchClass; sym::check(i.class == if op { DispatchClass::Operational } else { DispatchClass::Normal }, "no call takes the room kept for operations, but the one that sets the size of schemas"); sym::check(matches!(&c, RuntimeCall::System(_)) || i.weight.ref_time() > 0, "no call is without weight");
}
// what a call weighs grows with what it carries
fn r05_weight() {
    let k = sym::choose("call", 0, ELIGIBLE + 6); let n = sym::choose("length", 0, 3) as usize; use pallet_schemas::Call as K; use common_primitives::schema::*; let sch = pallet_time_release::ReleaseSchedule { start: 1u32, period: 1, period_count: 1, per_period: 5u128.into() };
    let c = |n: usize| -> RuntimeCall { let m = || frame_support::BoundedVec::try_from(vec![3u8; n]).unwrap_or_else(|_| panic!("fits")); let s = || frame_support::BoundedVec::try_from(vec![]).unwrap_or_else(|_| panic!("fits")); let (t, l) = (ModelType::AvroBinary, PayloadLocation::OnChain);
        match if k < ELIGIBLE { 99 } else { k - ELIGIBLE } { 99 => eligible(k, n).0, 0 => RuntimeCall::Schemas(K::create_schema { model: m(), model_type: t, payload_location: l }), 1 => RuntimeCall::Schemas(K::create_schema_v2 { model: m(), model_type: t, payload_location: l, settings: s() }), 2 => RuntimeCall::Schemas(K::create_schema_v3 { model: m(), model_type: t, payload_location: l, settings: s(), schema_name: None }),
            3 => RuntimeCall::Schemas(K::create_schema_via_governance { creator_key: acct(5), model: m(), model_type: t, payload_location: l, settings: s() }), 4 => RuntimeCall::Schemas(K::propose_to_create_schema { model: m(), model_type: t, payload_location: l, settings: s() }), 5 => RuntimeCall::TimeRelease(pallet_time_release::Call::update_release_schedules { who: acct(5), release_schedules: vec![sch.clone(); n] }), _ => RuntimeCall::Msa(pallet_msa::Call::revoke_schema_permissions { provider_msa_id: 1, schema_ids: (0..n as u16).collect() }) } };
    let grows = k >= ELIGIBLE && k != ELIGIBLE + 6 && k != ELIGIBLE + 5 || [1, 2, 4, 6, 10, 11, 14, 15].contains(&k) && n > 0; let (a, b) = (c(n).get_dispatch_info().weight, c(n + 1).get_dispatch_info().weight); sym::check(b.ref_time() >= a.ref_time() && b.proof_size() >= a.proof_size(), "a longer call weighs no less"); if grows { sym::check(b.ref_time() > a.ref_time() || b.proof_size() > a.proof_size(), "what it carries is weighed"); sym::cover("grows") }
}
// a block has room for what it runs: whatever is paid for with capacity weighs no less than without
fn x02_heavy() {
    let v = everything(); let a = v[sym::choose("call", 0, v.len() as u64 - 1) as usize].clone(); let b = if sym::bool("second") { Some(eligible(sym::choose("b", 0, 15), 1).0) } else { None }; let w = |c: &RuntimeCall| c.get_dispatch_info().weight; let mut t = w(&a);
    let p = match b { Some(b) => { t = t.saturating_add(w(&b)); pay_all(vec![a.clone(), b]) } None => { sym::check(pay(a.clone()).get_dispatch_info().class == a.get_dispatch_info().class, "of the class of its call"); pay(a) } }; let i = p.get_dispatch_info();
    sym::check(i.weight.ref_time() > t.ref_time() && i.weight.proof_size() >= t.proof_size(), "it weighs more than its calls"); sym::check(i.pays_fee == Pays::Yes, "and is charged for");
}
// the weight grows with the payload without wrapping, whatever its length
fn x02_lengths() {
    use pallet_frequency_tx_payment::capacity_stable_weights::{SubstrateWeight as S, WeightInfo as _}; let n = sym::u32("n"); let k = sym::choose("call", 0, 8); let mut i = 0;
    macro_rules! each { ($($f:ident $a:expr, $b:expr, $r:expr, $w:expr;)*) => { $( if i == k { sym::check(S::<Test>::$f(n).ref_time() == $a + $b * n as u64 + 25_000_000 * $r + 100_000_000 * $w, stringify!($f)); } i += 1; )* } }
    each! { create_sponsored_account_with_delegation 123_084_817, 138_668, 10, 7; grant_delegation 115_947_313, 192_710, 8, 4; add_onchain_message 174_064_230, 1_527, 4, 1; apply_item_actions 104_137_090, 7_325, 4, 1; upsert_page 32_297_181, 594, 4, 1; apply_item_actions_with_signature 158_947_612, 13_664, 3, 1; upsert_page_with_signature 87_768_259, 6_648, 3, 1; claim_handle 85_480_476, 107_272, 3, 3; change_handle 95_748_064, 212_118, 3, 4; }
}
fn x02_inner() {
    use pallet_frequency_tx_payment::types::GetStableWeight as G; let (a, b) = (eligible(7, 0).0, remark());
    sym::check(<CapacityEligibleCalls as G<RuntimeCall, Weight>>::get_inner_calls(&pay(a.clone())) == Some(vec![&a]), "a single call"); sym::check(<CapacityEligibleCalls as G<RuntimeCall, Weight>>::get_inner_calls(&pay_all(vec![a.clone(), b.clone(), a.clone()])) == Some(vec![&a, &b, &a]), "each call of a batch"); sym::check(<CapacityEligibleCalls as G<RuntimeCall, Weight>>::get_inner_calls(&b) == Some(vec![&b]), "any other call itself");
}
fn x03_weight() {
    let a = sym::u64("a"); let f = |w| <cfg::pallet_transaction_payment::WeightToFee as frame_support::weights::WeightToFee>::weight_to_fee(&Weight::from_parts(w, 0));
    sym::check(f(a) == weight_fee(a), "a tenth of a cent for the weight of an empty call, in proportion");
    sym::check(f(0) == 0, "nothing for nothing"); let e = f(common_runtime::weights::extrinsic_weights::ExtrinsicBaseWeight::get().ref_time()); sym::check(e <= CENTS / 10 + 1 && e >= CENTS / 10 - CENTS / 1000, "a tenth of a cent for an empty call"); sym::check(f(500_000_000_000) <= 1_000 * CENTS, "a full block's weight costs less than ten dollars");
}
fn x03_length() {
    let n = sym::u64("n"); let x = <cfg::pallet_transaction_payment::LengthToFee as frame_support::weights::WeightToFee>::weight_to_fee(&Weight::from_parts(n, 0)); sym::check(x == n as u128 * BYTE, "10 millicents for each byte");
}
fn x03_capped() {
    sp_runtime::sim_abstract_parts(true);
    let m = if sym::bool("light") { 90_000_000 } else { 500_000_000_000 }; unsafe { rt::MAX_BLOCK = m } let t = sym::u64("t"); let l = sym::u32("len");
    let f = pallet_frequency_tx_payment::Pallet::<Test>::compute_capacity_fee(l, Weight::from_parts(t, 0)); sym::check(f == capacity_fee(t, l), "base, weight up to the heaviest block, and length");
}
// what a client is told a capacity call costs
fn x04_base_and_length() {
    let k = sym::choose("call", 0, 15); let (c, _) = eligible(k, 1); let all = sym::bool("all"); let outer = if all { pay_all(vec![c.clone(), c]) } else { pay(c) }; let len = sym::u32("len"); let d = pallet_frequency_tx_payment::Pallet::<Test>::compute_capacity_fee_details(&outer, &outer.get_dispatch_info().weight, len);
    let i = d.inclusion_fee; sym::check(d.tip == 0 && i.is_some(), "a fee without a tip"); if let Some(i) = i { sym::check(i.base_fee == weight_fee(105_455_000) && i.len_fee == BYTE * len as u128, "base and length are those charged") }
}
fn x04_never_less() {
    let k = sym::choose("call", 0, 15); let (c, wt) = eligible(k, 1); let all = sym::bool("all"); let outer = if all { pay_all(vec![c.clone(), c]) } else { pay(c) }; let len = sym::u32("len"); let d = pallet_frequency_tx_payment::Pallet::<Test>::compute_capacity_fee_details(&outer, &outer.get_dispatch_info().weight, len);
    sym::check(d.final_fee() >= capacity_fee(if all { 2 * time(wt) } else { time(wt) }, len), "no more is charged than was told");
}
fn x04_zero_weight() {
    let k = sym::choose("call", 0, 15); let (c, wt) = eligible(k, 1); let all = sym::bool("all"); let outer = if all { pay_all(vec![c.clone(), c]) } else { pay(c) }; let len = sym::u32("len"); let d = pallet_frequency_tx_payment::Pallet::<Test>::compute_capacity_fee_details(&outer, &Weight::zero(), len);
    sym::check(d.final_fee() == capacity_fee(if all { 2 * time(wt) } else { time(wt) }, len), "without weight of its own a transaction is told what is charged");
}
fn x04_others() {
    let v = foreign(); let k = sym::choose("call", 0, v.len() as u64 - 1); let d = pallet_frequency_tx_payment::Pallet::<Test>::compute_capacity_fee_details(&v[k as usize], &Weight::from_parts(sym::u64("w"), 0), sym::u32("len")); sym::check(d.inclusion_fee.is_none() && d.tip == 0, "a call that is not eligible has no capacity fee");
}
fn x04_kf_weight() {
    let (c, wt) = eligible(7, 0); let outer = pay(c); let len = sym::u32("len"); let w = outer.get_dispatch_info().weight; let d = pallet_frequency_tx_payment::Pallet::<Test>::compute_capacity_fee_details(&outer, &w, len); sym::check(d.final_fee() == capacity_fee(time(wt), len), "what is told is what is charged");
}

// a batch is let through exactly when each of its calls may be in one
fn r01_single() {
    let v = everything(); let k = sym::choose("call", 0, v.len() as u64 - 1) as usize; let kind = sym::choose("batch", 0, 2); let b = batch(kind, vec![v[k].clone()]);
    sym::check(filters::testnet_ok(&b) == filters::inner_ok(&v[k]), "a batch of one call (test network)"); sym::check(filters::mainnet_ok(&b) == filters::inner_ok(&v[k]), "a batch of one call (main network)");
}
fn r01_several() {
    let v = everything(); let k = sym::choose("call", 0, v.len() as u64 - 1) as usize; let at = sym::choose("at", 0, 2) as usize; let kind = sym::choose("batch", 0, 2); let mut c = vec![remark(), transfer(2, 5)]; c.insert(at, v[k].clone()); let b = batch(kind, c);
    sym::check(filters::testnet_ok(&b) == filters::inner_ok(&v[k]), "at any place among others (test network)"); sym::check(filters::mainnet_ok(&b) == filters::inner_ok(&v[k]), "at any place among others (main network)");
}
// however many calls there are
fn r01_many() {
    let n = [17usize, 50][sym::choose("calls", 0, 1) as usize]; let at = [0, 9, n - 1][sym::choose("at", 0, 2) as usize]; let kind = sym::choose("batch", 0, 2); let bad = [RuntimeCall::Msa(pallet_msa::Call::retire_msa {}), RuntimeCall::Msa(pallet_msa::Call::create_provider { provider_name: b"x".to_vec() }), pay(remark()), batch(0, vec![remark()]), transfer(2, 5)][sym::choose("call", 0, 4) as usize].clone();
    let mut c = vec![remark(); n]; c[at] = bad.clone(); let b = batch(kind, c); let ok = filters::inner_ok(&bad); sym::check(ok == matches!(bad, RuntimeCall::Balances(_)), "only the transfer may be batched"); sym::check(filters::testnet_ok(&b) == ok && filters::mainnet_ok(&b) == ok, "a long batch is judged by each of its calls"); if ok { sym::cover("passes") } else { sym::cover("refused") }
}
fn r01_outer() {
    let v = everything(); let k = sym::choose("call", 0, v.len() as u64 - 1) as usize; if filters::batchy(&v[k]) { sym::check(filters::testnet_ok(&v[k]) && filters::mainnet_ok(&v[k]), "an empty batch"); return }
    sym::check(filters::testnet_ok(&v[k]), "any other call is let through on a test network"); sym::check(filters::mainnet_ok(&v[k]) == !filters::direct(&v[k]), "on the main network all but direct registration of providers and schemas");
}
// what is filtered has no effect
fn r01_applied() {
    let main = sym::bool("main"); let _w = world(); if main { mainnet_filter_on() } let kind = sym::choose("batch", 0, 2); let first = sym::bool("first"); pallet_msa::PublicKeyToMsaId::<Test>::insert(acct(1), 1);
    let p = RuntimeCall::Msa(pallet_msa::Call::create_provider { provider_name: b"x".to_vec() }); let b = batch(kind, if first { vec![p, remark()] } else { vec![remark(), p] });
    sym::check(b.dispatch(signed(1)).is_err() && !pallet_msa::ProviderToRegistryEntry::<Test>::contains_key(common_primitives::msa::ProviderId(1)), "nothing is registered by a batch");
    let d = RuntimeCall::Msa(pallet_msa::Call::create_provider { provider_name: b"x".to_vec() }).dispatch(signed(1)); sym::check(d.is_err() == main && pallet_msa::ProviderToRegistryEntry::<Test>::contains_key(common_primitives::msa::ProviderId(1)) != main, "directly only on a test network");
}
// paying with capacity does not get around the filter
fn r01_capacity() {
    let _w = world(); mainnet_filter_on(); pallet_msa::PublicKeyToMsaId::<Test>::insert(acct(1), 1); let p = RuntimeCall::Msa(pallet_msa::Call::create_provider { provider_name: b"x".to_vec() }); let c = if sym::bool("all") { pay_all(vec![p]) } else { pay(p) };
    sym::check(c.dispatch(signed(1)).is_err() && !pallet_msa::ProviderToRegistryEntry::<Test>::contains_key(common_primitives::msa::ProviderId(1)), "nor is it by a capacity call");
}
// each transaction is accepted once, in the order of its sender's nonces
fn r02_nonce() {
    let w = world(); let mut i = acct_info(1); i.nonce = sym::u32("nonce"); i.providers = sym::u32("providers"); i.consumers = sym::u32("consumers"); i.sufficients = sym::u32("sufficients"); sym::assume(i.nonce < u32::MAX); frame_system::Account::<Test>::insert(&acct(1), i.clone()); let o = acct_info(2);
    let n = sym::u32("tx.nonce"); let c = remark(); let fee = pallet_transaction_payment::Pallet::<Test>::compute_fee(100, &c.get_dispatch_info(), 0); let e = validate(1, &c, Parts { nonce: n, tip: 0 }, 100).is_ok(); accs()[0].free = w.free; let r = accept(1, &c, Parts { nonce: n, tip: 0 }, 100);
    sym::check(r.is_ok() == (n == i.nonce && w.free > fee), "accepted exactly with the sender's next nonce, if it pays") ; if r.is_ok() { let j = acct_info(1); sym::check(j.nonce == n + 1 && j.providers == i.providers && j.consumers == i.consumers && j.sufficients == i.sufficients && acct_info(2) == o, "the nonce is used up, and nothing else changes"); sym::check(e, "what a block accepts the pool accepted"); sym::cover("accepted");
        accs()[0].free = 1 << 40; sym::check(accept(1, &c, Parts { nonce: n, tip: 0 }, 100).is_err(), "not a second time"); }
}
// the pool holds a transaction of the future back until those before it are there, and none of the past
fn r02_pool() {
    let _w = world(); accs()[0].free = 1 << 40; let mut i = acct_info(1); i.nonce = sym::u32("nonce"); frame_system::Account::<Test>::insert(&acct(1), i.clone()); let n = sym::u32("tx.nonce"); sym::assume(n < u32::MAX); let c = remark();
    let e = validate(1, &c, Parts { nonce: n, tip: 0 }, 100); sym::check(e.is_ok() == (n >= i.nonce), "no transaction of the past"); let (a, b) = ((acct(1), n).encode(), (acct(1), n.wrapping_sub(1)).encode());
    if let Ok(v) = e { sym::check(v.provides.len() == 1 && sym::same_bytes(&v.provides[0], &a), "provides its own place"); sym::check(if n > i.nonce { v.requires.len() == 1 && sym::same_bytes(&v.requires[0], &b) } else { v.requires.is_empty() }, "requires the one before it unless it is next"); sym::cover("pool") }
}
fn r02_account() {
    use common_runtime::extensions::check_nonce::CheckNonce; let mut i = acct_info(1); i.nonce = sym::u32("nonce"); i.providers = sym::u32("providers"); i.consumers = sym::u32("consumers"); i.sufficients = sym::u32("sufficients"); sym::assume(i.nonce < u32::MAX); let there = i.providers > 0 || i.consumers > 0 || i.sufficients > 0;
    frame_system::Account::<Test>::insert(&acct(1), i.clone()); let n = sym::u32("tx.nonce"); let free = sym::bool("free"); let c = remark(); let mut info = c.get_dispatch_info(); info.pays_fee = if free { Pays::No } else { Pays::Yes };
    let r = CheckNonce::<Test>::from(n).pre_dispatch(&acct(1), &c, &info, 0); sym::check(r.is_ok() == (n == i.nonce), "accepted exactly with the next nonce"); let j = acct_info(1);
    match r { Ok(_) => sym::check(j.nonce == if there || !free { n + 1 } else { n }, "an account that is there, or pays, uses its nonce up; free calls make no account"), Err(e) => sym::check(e == if n < i.nonce { InvalidTransaction::Stale } else { InvalidTransaction::Future }.into() && j == i, "else it is stale or of the future") }
}
// the transaction extensions
fn r02_extensions() {
    let mut v = vec![]; <SignedExtra as Make>::ids(&mut v); let has = |n: &str| v.iter().any(|x| *x == n);
    sym::check(has("CheckNonZeroSender"), "a transaction has a sender"); sym::check(has("CheckSpecVersion") && has("CheckTxVersion"), "it is of this runtime version"); sym::check(has("CheckGenesis"), "and of this chain"); sym::check(has("CheckEra") || has("CheckMortality"), "its era is checked"); sym::check(has("CheckWeight"), "it fits the block");
}
fn r02_free() {
    let w = world(); accs()[0].free = 1 << 40; let k = sym::choose("call", 0, 4); let c = match k { 0 => RuntimeCall::Msa(pallet_msa::Call::revoke_delegation_by_delegator { provider_msa_id: 2 }), 1 => RuntimeCall::Msa(pallet_msa::Call::revoke_delegation_by_provider { delegator: 2 }), 2 => RuntimeCall::Msa(pallet_msa::Call::delete_msa_public_key { public_key_to_delete: acct(2) }), 3 => RuntimeCall::Handles(pallet_handles::Call::retire_handle {}), _ => RuntimeCall::Msa(pallet_msa::Call::retire_msa {}) };
    if k == 4 { pallet_handles::MSAIdToDisplayName::<Test>::insert(1, (frame_support::BoundedVec::try_from(b"abc.1".to_vec()).unwrap(), 1)); }
    sym::check(accept(1, &c, par(0), 100).is_err(), "a free call that would fail is not accepted into a block"); sym::check(validate(1, &c, par(0), 100).is_err(), "nor into the pool"); let _ = w;
}
fn r03_filters() {
    let v = everything(); let k = sym::choose("call", 0, v.len() as u64 - 1) as usize; let t = sym::choose("type", 0, 4) as usize; sym::check(filters::PROXIES[t].filter(&v[k]) == filters::proxy_ok(t, &v[k]), "each kind of proxy may make the calls it is for");
}
fn r03_superset() {
    let v = everything(); let k = sym::choose("call", 0, v.len() as u64 - 1) as usize; let p = filters::PROXIES; let x = sym::choose("of", 0, 4) as usize;
    for y in 0..5 { if p[x].is_superset(&p[y]) { sym::check(!p[y].filter(&v[k]) || p[x].filter(&v[k]), "a proxy that covers another may make all calls the other may") } }
}
fn r03_any() { let p = filters::PROXIES; for x in 0..5 { sym::check(p[x].is_superset(&p[x]), "every kind covers itself"); sym::check(p[0].is_superset(&p[x]) && (x == 0 || !p[x].is_superset(&p[0])), "only Any covers Any"); } sym::check(ProxyType::default() == ProxyType::Any && p.iter().enumerate().all(|(i, x)| x.encode() == vec![[0u8, 1, 2, 3, 6][i]]), "the encoding of the kinds"); }
fn r04_proposals() {
    use common_primitives::node::ProposalProvider; let n = sym::choose("members", 0, 9) as usize; unsafe { stubs::MEMBERS = n } let c = if sym::bool("c") { remark() } else { transfer(2, 9) }; let l = c.encode().len() as u32;
    let r = testnet::__rt::CouncilProposalProvider::propose_with_simple_majority(acct(1), Box::new(c.clone())); sym::check(r.is_ok() && unsafe { stubs::PROPOSED.clone() } == Some((acct(1), n as u32 / 2 + 1, c.clone(), l)), "more than half of the council has to agree");
    let t = sym::u32("threshold"); let r = testnet::__rt::CouncilProposalProvider::propose(acct(2), t, Box::new(c.clone())); sym::check(r.is_ok() && unsafe { stubs::PROPOSED.clone() } == Some((acct(2), t, c, l)), "or as many as were asked for");
}
fn r04_from_users() {
    let _w = world(); mainnet_filter_on(); unsafe { stubs::MEMBERS = 5 } let msa = led(1).is_some(); let _ = msa; pallet_msa::PublicKeyToMsaId::<Test>::insert(acct(1), 1); let k = sym::choose("call", 0, 1);
    let r = if k == 0 { RuntimeCall::Msa(pallet_msa::Call::propose_to_be_provider { provider_name: b"x".to_vec() }) } else { RuntimeCall::Schemas(pallet_schemas::Call::propose_to_create_schema_name { schema_id: 1, schema_name: frame_support::BoundedVec::try_from(b"abc.def".to_vec()).unwrap() }) };
    if k == 1 { pallet_schemas::SchemaInfos::<Test>::insert(1, pallet_schemas::SchemaInfo { model_type: common_primitives::schema::ModelType::AvroBinary, payload_location: common_primitives::schema::PayloadLocation::Paginated, settings: Default::default(), has_name: false }); }
    let r = r.dispatch(signed(1)); sym::check(r.is_ok(), "a proposal is accepted"); match unsafe { stubs::PROPOSED.clone() } { Some((who, 1, RuntimeCall::Msa(pallet_msa::Call::create_provider_via_governance { provider_key, provider_name }), _)) => sym::check(k == 0 && who == acct(1) && provider_key == acct(1) && provider_name == b"x".to_vec(), "to make the proposer a provider"), Some((who, 3, RuntimeCall::Schemas(pallet_schemas::Call::create_schema_name_via_governance { schema_id, .. }), _)) => sym::check(k == 1 && who == acct(1) && schema_id == 1, "to name the schema"), _ => sym::check(false, "it is put to the council; schemas with a simple majority") }
    sym::check(!pallet_msa::ProviderToRegistryEntry::<Test>::contains_key(common_primitives::msa::ProviderId(1)), "nothing happens until the council agrees"); 
}
// a passkey transaction
fn y01_accept() {
    let w = world(); let mut i = acct_info(1); i.nonce = sym::u32("nonce"); sym::assume(i.nonce < u32::MAX); frame_system::Account::<Test>::insert(&acct(1), i.clone());
    let n = sym::u32("tx.nonce"); let inner = stubs::pallet_balances::all().into_iter().map(RuntimeCall::Balances).chain([remark(), batch(1, vec![transfer(2, 5)]), pay(eligible(7, 0).0), passkeys::proxy(1, n, sig(), transfer(2, 5))]).collect::<Vec<_>>(); let k = sym::choose("inner", 0, inner.len() as u64 - 1) as usize;
    let key = passkeys::pk(sym::u8("key")); let good = sym::choose("proof", 0, 4); let proof = match good { 0 => passkeys::owned(1, key), 1 => passkeys::owned(2, key), 2 => passkeys::owned(1, { let mut o = key; o[32] ^= 1; o }), 3 => sp_runtime::sim_sign(&acct(1), &key), _ => sig() };
    if k == 0 && good == 0 && sym::bool("long") { unsafe { passkeys::DATA = (120, 250) } } let c = passkeys::with(key, 1, n, proof, inner[k].clone()); let ok = k < 3 && good == 0 && n == i.nonce; let r = passkeys::accept(&c); let fee = w.free.saturating_sub(accs()[0].free);
    sym::check(!r.is_ok() || ok, "only transfers, with a nonce in turn and the account's own signature of the passkey"); if ok { sym::check(r.is_ok() == (w.free > fee_of(&c)), "and every one of them that pays"); }
    if r.is_ok() { sym::check(fee == fee_of(&c), "its fee is charged once"); sym::check(acct_info(1).nonce == n + 1, "its nonce is used up"); sym::check(led(1) == w.led && led(2) == Some(w.other.clone()) && accs()[1].free == 1 << 41, "from that account, in tokens"); accs()[0].free = 1 << 40; sym::check(passkeys::accept(&c).is_err(), "it is accepted once only"); sym::cover("accepted") }
}
// the pool's view
fn y01_pool() {
    let w = world(); let mut i = acct_info(1); i.nonce = sym::u32("nonce"); frame_system::Account::<Test>::insert(&acct(1), i.clone()); let n = sym::u32("tx.nonce"); sym::assume(n < u32::MAX); let key = passkeys::pk(1); let good = sym::choose("proof", 0, 2); let inner = if sym::bool("transfer") { transfer(2, 5) } else { remark() }; let t = inner == transfer(2, 5);
    let proof = match good { 0 => passkeys::owned(1, key), 1 => passkeys::owned(2, key), _ => sig() }; let c = passkeys::with(key, 1, n, proof, inner); let r = passkeys::validate(&c); sym::check(r.is_ok() == (t && good == 0 && n >= i.nonce && w.free > fee_of(&c)), "the pool takes those that may become acceptable");
    if let Ok(v) = r { let a = (acct(1), n).encode(); sym::check(v.provides.len() == 1 && sym::same_bytes(&v.provides[0], &a), "in the order of their nonces"); sym::check(v.requires.len() == (n > i.nonce) as usize, "after the one before") }
}
// the call is made by the account, and only by way of the checks
fn y01_proxy() {
    let w = world(); let v = bal("value"); sym::assume(v > 0); let c = passkeys::proxy(1, 0, sig(), transfer(2, v)); let o = match sym::choose("origin", 0, 2) { 0 => signed(1), 1 => signed(2), _ => rt::root() }; sym::check(c.clone().dispatch(o).is_err() && accs()[0].free == w.free, "not for a signed or root origin");
    let r = c.dispatch(rt::none()); let f = accs()[0].free; sym::check(r.is_ok() == (w.free >= 1 && w.free - 1 >= v), "a transfer of the account's tokens"); if r.is_ok() { sym::check(f == w.free - v && accs()[1].free == (1 << 41) + v, "moves them"); sym::check(events() == vec![RuntimeEvent::Passkey(pallet_passkey::Event::TransactionExecutionSuccess { account_id: acct(1) })], "and is reported"); sym::cover("moved") }
}
fn y01_weight() {
    let v = everything(); let c = v[sym::choose("call", 0, v.len() as u64 - 1) as usize].clone(); let p = passkeys::proxy(1, 0, sig(), c.clone()); let (a, b) = (c.get_dispatch_info(), p.get_dispatch_info()); sym::check(b.weight.ref_time() > a.weight.ref_time() && b.weight.proof_size() >= a.weight.proof_size(), "it weighs more than its call"); sym::check(b.class == a.class && b.pays_fee == Pays::Yes, "and is charged for");
}
fn y01_filter() { let v = everything(); let k = sym::choose("call", 0, v.len() as u64 - 1) as usize; use stubs::pallet_balances::Call as B; sym::check(<PasskeyCallFilter as Contains<RuntimeCall>>::contains(&v[k]) == matches!(v[k], RuntimeCall::Balances(B::transfer_keep_alive { .. } | B::transfer_allow_death { .. } | B::transfer_all { .. })), "only the three transfers") }
fn y01_kf_passkey() { let w = world(); accs()[0].free = 1 << 40; let _ = w; let key = passkeys::pk(1); let c = passkeys::with(key, 1, 0, passkeys::owned(1, key), transfer(2, 5)); sym::check(passkeys::accept(&c).is_err(), "a call the passkey did not sign is refused") }

// staking is for registered providers
fn w01_stake() {
    let w = world(); accs()[0].free = 1 << 42; pallet_msa::PublicKeyToMsaId::<Test>::insert(acct(2), 2); let p = sym::bool("provider"); if p { register(2) } let t = if sym::bool("other") { 3 } else { 2 }; let a = bal("amount");
    let r = RuntimeCall::Capacity(pallet_capacity::Call::stake { target: t, amount: a }).dispatch(signed(1)); let min = <<Test as pallet_capacity::Config>::MinimumStakingAmount as Get<Balance>>::get(); sym::check(r.is_ok() == (p && t == 2 && a >= min), "capacity is staked for to registered providers only"); if r.is_ok() { sym::check(rt::frozen(1, &acct(1)) == a, "the tokens are frozen"); sym::check(led(2).map(|l| l.total_tokens_staked) == Some((1 << 42) + a) && led(1) == w.led, "for that provider"); sym::cover("staked") }
}
// messages need a schema for their place, and a grant of it by whom they are for
fn w01_message() {
    let _w = world(); let m = sym::bool("has.msa"); pallet_msa::PublicKeyToMsaId::<Test>::remove(acct(1)); if m { pallet_msa::PublicKeyToMsaId::<Test>::insert(acct(1), 1) } let loc = if sym::bool("onchain") { PayloadLocation::OnChain } else { PayloadLocation::IPFS }; schema(loc); let id = if sym::bool("known") { 1 } else { 2 }; let g = sym::bool("granted"); if g { grant(3, 1, 1) } let on = if sym::bool("behalf") { Some(3) } else { None };
    let r = RuntimeCall::Messages(pallet_messages::Call::add_onchain_message { on_behalf_of: on, schema_id: id, payload: b"hello".to_vec() }).dispatch(signed(1)); sym::check(r.is_ok() == (m && id == 1 && loc == PayloadLocation::OnChain && (on.is_none() || g)), "a message is of a schema, sent by an MSA for itself or for one that granted it the schema");
    if r.is_ok() { let v = Messages::get_messages_by_schema_and_block(1, PayloadLocation::OnChain, 5); sym::check(v.len() == 1 && v[0].provider_msa_id == 1 && v[0].msa_id == Some(on.unwrap_or(1)), "and reads back"); sym::cover("sent") }
}
// stateful storage too
fn w01_storage() {
    let _w = world(); pallet_msa::PublicKeyToMsaId::<Test>::insert(acct(1), 1); let loc = if sym::bool("paged") { PayloadLocation::Paginated } else { PayloadLocation::Itemized }; schema(loc); let id = if sym::bool("known") { 1 } else { 2 }; let g = sym::bool("granted"); if g { grant(2, 1, 1) } let own = if sym::bool("own") { 1 } else { 2 };
    let r = RuntimeCall::StatefulStorage(pallet_stateful_storage::Call::upsert_page { state_owner_msa_id: own, schema_id: id, page_id: 0, target_hash: 0, payload: frame_support::BoundedVec::try_from(vec![1u8; 3]).unwrap() }).dispatch(signed(1)); sym::check(r.is_ok() == (id == 1 && loc == PayloadLocation::Paginated && (own == 1 || g)), "a page is of a paginated schema, written by its MSA or by one that was granted the schema");
    if r.is_ok() { let v = StatefulStorage::get_paginated_storage(own, 1); sym::check(matches!(v, Ok(v) if v.len() == 1 && v[0].payload == vec![1u8; 3]), "and reads back"); sym::cover("written") }
}
// only schemas that exist are granted
fn w01_grant() {
    let _w = world(); pallet_msa::PublicKeyToMsaId::<Test>::insert(acct(1), 1); register(2); schema(PayloadLocation::OnChain); let ids = vec![if sym::bool("known") { 1 } else { 2 }]; let p = pallet_msa::types::AddProvider { authorized_msa_id: 2, schema_ids: ids.clone(), expiration: 10 }; let proof = sp_runtime::sim_sign(&acct(1), &[b"<Bytes>".to_vec(), p.encode(), b"</Bytes>".to_vec()].concat());
    let c = RuntimeCall::Msa(pallet_msa::Call::grant_delegation { delegator_key: acct(1), proof, add_provider_payload: p }); let paying = sym::bool("capacity"); let r = if paying { pay(c).dispatch(signed(2)) } else { c.dispatch(signed(2)) }; sym::check(r.is_ok() == (ids[0] == 1), "a schema is granted if it exists"); if r.is_ok() { use common_primitives::msa::*; sym::check(<Msa as SchemaGrantValidator<u32>>::ensure_valid_schema_grant(ProviderId(2), DelegatorId(1), 1, 5).is_ok(), "and valid from then on"); sym::cover("granted") }
}
// handles are for MSAs, and have to be given up before an MSA is
fn w01_handle() {
    let _w = world(); let m = sym::bool("has.msa"); pallet_msa::PublicKeyToMsaId::<Test>::remove(acct(1)); if m { pallet_msa::PublicKeyToMsaId::<Test>::insert(acct(1), 1); pallet_msa::PublicKeyCountForMsaId::<Test>::insert(1, 1); } let p = common_primitives::handles::ClaimHandlePayload { base_handle: b"abcd".to_vec(), expiration: 10u32 }; let proof = sp_runtime::sim_sign(&acct(1), &[b"<Bytes>".to_vec(), p.encode(), b"</Bytes>".to_vec()].concat());
    let r = RuntimeCall::Handles(pallet_handles::Call::claim_handle { msa_owner_key: acct(1), proof, payload: p }).dispatch(signed(2)); sym::check(r.is_ok() == m, "a handle is claimed by an MSA"); if m { accs()[0].free = 1 << 40; let retire = RuntimeCall::Msa(pallet_msa::Call::retire_msa {}); sym::check(accept(1, &retire, par(0), 100).is_err(), "an MSA with a handle is not retired");
        set_block(20); sym::check(matches!(apply(1, &RuntimeCall::Handles(pallet_handles::Call::retire_handle {}), par(0), 100), Ok(Ok(()))), "the handle is retired"); let n = acct_info(1).nonce; sym::check(matches!(apply(1, &retire, Parts { nonce: n, tip: 0 }, 100), Ok(Ok(()))), "then the MSA is"); sym::check(!pallet_msa::PublicKeyToMsaId::<Test>::contains_key(acct(1)), "gone"); sym::check(accs()[0].free == 1 << 40, "all of it free of charge"); sym::cover("retired") }
}
// staked tokens cannot be scheduled away, scheduled ones not staked twice
fn w01_freezes() {
    let _w = world(); register(2); accs()[0].free = 1 << 41; let a = bal("stake"); let r = RuntimeCall::Capacity(pallet_capacity::Call::stake { target: 2, amount: a }).dispatch(signed(1)); let s = if r.is_ok() { a } else { 0 }; sym::check(rt::frozen(1, &acct(1)) == s, "staked tokens are frozen");
    let v = bal("transfer"); sym::assume(v > 0); let t = pallet_time_release::ReleaseSchedule { start: 100u32, period: 1, period_count: 1, per_period: v }; let r = RuntimeCall::TimeRelease(pallet_time_release::Call::transfer { dest: acct(2), schedule: t }).dispatch(signed(1)); let min = <<Test as pallet_time_release::Config>::MinReleaseTransfer as Get<Balance>>::get();
    sym::check(r.is_ok() == (v >= min && (1 << 41) - s >= v), "what is staked is not scheduled for another"); if r.is_ok() { sym::check(rt::frozen(2, &acct(2)) == v && rt::frozen(1, &acct(1)) == s && accs()[1].free == (1 << 41) + v, "the two freezes do not touch each other"); sym::cover("scheduled") }
}
}
use common_primitives::schema::{ModelType, PayloadLocation};
fn register(m: u64) { Msa::create_registered_provider(common_primitives::msa::ProviderId(m), frame_support::BoundedVec::try_from(vec![65]).unwrap()).expect("set up") }
/// schema 1, whose messages are kept at `l`
fn schema(l: PayloadLocation) {
    RuntimeCall::Schemas(pallet_schemas::Call::set_max_schema_model_bytes { max_size: 60_000 }).dispatch(rt::root()).expect("set up");
    RuntimeCall::Schemas(pallet_schemas::Call::create_schema_via_governance_v2 { creator_key: acct(2), model: frame_support::BoundedVec::try_from(b"{\"type\":\"string\"}".to_vec()).unwrap(), model_type: ModelType::AvroBinary, payload_location: l, settings: Default::default(), schema_name: None }).dispatch(rt::root()).expect("set up");
}
/// MSA `m` grants schema `s` to the provider `p`
fn grant(m: u64, p: u64, s: u16) { register(p); use common_primitives::msa::*; Msa::add_provider(ProviderId(p), DelegatorId(m), vec![s]).expect("set up") }
fn fee_of(c: &pallet_passkey::Call<Test>) -> Balance { pallet_transaction_payment::Pallet::<Test>::compute_fee(c.encode().len() as u32, &c.get_dispatch_info(), 0) }
fn charge(lo: u64, hi: u64) {
    let w = world(); let k = sym::choose("call", lo, hi); let (c, wt) = eligible(k, 1); let len = sym::u32("len"); let tip = bal("tip");
    let r = accept(1, &pay(c), par(tip), len as usize);
    charged(&w, capacity_fee(time(wt), len), r.is_ok()); if r.is_ok() { sym::cover("charged") }
}
fn tokens_only(k: u64) {
    let w = world(); let c = match k { 0 => remark(), 1 => RuntimeCall::Capacity(pallet_capacity::Call::withdraw_unstaked {}), 2 => eligible(7, 0).0, _ => batch(1, vec![eligible(7, 0).0]) };
    let info = c.get_dispatch_info(); let len = sym::u32("len") & 0xff_ffff; let tip = bal("tip") & 0xff_ffff_ffff; let fee = pallet_transaction_payment::Pallet::<Test>::compute_fee(len, &info, tip);
    let r = accept(1, &c, par(tip), len as usize); let afford = w.free >= 1 && w.free - 1 >= fee;
    sym::check(r.is_ok() == afford, "accepted exactly if the tokens for the fee are there"); sym::check(led(1) == w.led && led(2) == Some(w.other.clone()), "capacity is not touched");
    if let Ok((i, pre)) = r {
        sym::check(accs()[0].free == w.free - fee && accs()[1].free == 1 << 41, "the token fee with its tip is taken from the sender"); let less = sym::bool("less"); let post = PostDispatchInfo { actual_weight: if less { Some(Weight::zero()) } else { None }, pays_fee: Pays::Yes };
        let f2 = if less { let mut j = i.clone(); j.weight = Weight::zero(); pallet_transaction_payment::Pallet::<Test>::compute_fee(len, &j, tip) } else { fee };
        sym::check(finish(pre, &i, &post, len as usize, &Ok(())).is_ok() && accs()[0].free == w.free - f2, "unused weight is paid back"); sym::check(led(1) == w.led, "capacity is not touched"); sym::cover("paid")
    }
}
