//! The node's RPC: the handlers of pallets/*/src/rpc asking the runtime API of runtime/frequency around the real pallets. Q01..
#![allow(dead_code, unused_imports)]
#[path = "../../runtime/src/stubs.rs"] mod stubs;
pub use stubs::*;
include!("../../runtime/src/wiring.rs");
#[path = "../../runtime/src/calls.rs"] mod calls; #[path = "../../runtime/src/fees.rs"] mod fees; #[path = "../../runtime/src/passkeys.rs"] mod passkeys;
use calls::*; use fees::*;
use common_primitives::{handles::*, messages::*, msa::*, schema::*, stateful_storage::*};
use frame_support::BoundedVec;
use jsonrpsee::core::{Error as RpcErr, RpcResult};
use sp_rpc::number::NumberOrHex;
use std::sync::Arc;
/// the node: whether its runtime API fails, and at which blocks it was asked
#[derive(Clone)] pub struct Node;
pub static mut FAILS: bool = false; pub static mut ASKED: Vec<u64> = Vec::new();
pub fn asked(at: u64) -> Result<(), sp_api::ApiError> { unsafe { ASKED.push(at); if FAILS { Err(sp_api::ApiError::StateBackendIsNotTrie) } else { Ok(()) } } }
static mut BEST: u64 = 0;
impl sp_api::ProvideRuntimeApi<Block> for Node { type Api = Node; fn runtime_api(&self) -> Node { Node } }
impl sp_blockchain::HeaderBackend<Block> for Node { fn info(&self) -> sp_blockchain::Info<Block> { let b = unsafe { BEST }; sp_blockchain::Info { best_hash: b, finalized_hash: b ^ 1, genesis_hash: b ^ 2, best_number: 9, finalized_number: 8 } } }
fn hash(_: u64, s: &[u8]) -> u64 { s.iter().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(*b as u64)) }
fn draw(_seed: u64, _step: u32, lo: u32, _hi: u32) -> u32 { lo }
fn node() -> Arc<Node> { twox_hash::set_oracle(hash); oorandom::set_source(draw); unsafe { BEST = sym::u64("best block"); FAILS = sym::bool("node fails") } Arc::new(Node) }
/// every question is put to the state of the best block; if the node cannot answer, neither can the handler
fn at_best<T>(r: &RpcResult<T>) -> bool { unsafe { sym::check(ASKED.iter().all(|b| *b == BEST), "the state of the best block answers"); if FAILS { sym::check(r.is_err(), "a node that cannot answer gives no answer"); sym::cover("node fails"); false } else { sym::cover("answered"); true } } }
fn messages() -> pallet_messages_rpc::MessagesHandler<Node, Block> { pallet_messages_rpc::MessagesHandler::new(node()) }
type Msgs = BlockPaginationResponse<MessageResponse>;
fn schema(id: u16, l: PayloadLocation) { pallet_schemas::SchemaInfos::<Test>::insert(id, pallet_schemas::SchemaInfo { model_type: ModelType::AvroBinary, payload_location: l, settings: Default::default(), has_name: false }); pallet_schemas::SchemaPayloads::<Test>::insert(id, BoundedVec::try_from(b"{}".to_vec()).unwrap()); }
fn message(b: u32, s: u16, i: u16) { pallet_messages::MessagesV2::<Test>::insert((b, s, i), pallet_messages::Message { payload: BoundedVec::try_from(vec![b as u8, i as u8]).unwrap(), provider_msa_id: 1, msa_id: Some(2) }) }
/// the offchain storage of the node: one value under any prefix and key
#[derive(Clone)] pub struct Db { prefix: Vec<u8>, key: Vec<u8>, value: Vec<u8> }
impl sp_core::offchain::OffchainStorage for Db {
    fn set(&mut self, _: &[u8], _: &[u8], _: &[u8]) { panic!("RPC writes") } fn remove(&mut self, _: &[u8], _: &[u8]) { panic!("RPC writes") } fn compare_and_set(&mut self, _: &[u8], _: &[u8], _: Option<&[u8]>, _: &[u8]) -> bool { panic!("RPC writes") }
    fn get(&self, p: &[u8], k: &[u8]) -> Option<Vec<u8>> { if p == &self.prefix[..] && k == &self.key[..] { Some(self.value.clone()) } else { None } }
}
type MsaRpc = pallet_msa_rpc::MsaHandler<Node, Block, Db>;
fn msa() -> MsaRpc { pallet_msa_rpc::MsaHandler::new(node(), None) }
type D = pallet_msa::types::Delegation<SchemaId, u32, <Test as pallet_msa::Config>::MaxSchemaGrantsPerDelegation>;
fn put(m: u64, p: u64, revoked_at: u32, s: &[(u16, u32)]) { let mut b = sp_runtime::bounded::BoundedBTreeMap::new(); for (k, v) in s { b.try_insert(*k, *v).expect("set up"); } pallet_msa::DelegatorAndProviderToDelegation::<Test>::insert(DelegatorId(m), ProviderId(p), D { revoked_at, schema_permissions: b }) }
fn grants_of(revoked: u32, s: &[(u16, u32)]) -> Vec<(u16, u32)> { s.iter().map(|g| (g.0, if revoked > 0 && (g.1 == 0 || g.1 > revoked) { revoked } else { g.1 })).collect() }
fn pairs(p: &[SchemaGrant<u16, u32>]) -> Vec<(u16, u32)> { p.iter().map(|g| (g.schema_id, g.revoked_at)).collect() }
fn code<T>(r: &RpcResult<T>) -> i32 { match r { Err(RpcErr::Call(jsonrpsee::types::error::CallError::Custom(e))) => e.code(), _ => 0 } }
use pallet_frequency_tx_payment_rpc::CapacityPaymentApiServer as _; use pallet_handles_rpc::HandlesApiServer as _; use pallet_messages_rpc::MessagesApiServer as _; use pallet_msa_rpc::MsaApiServer as _; use pallet_schemas_rpc::SchemasApiServer as _; use pallet_stateful_storage_rpc::StatefulStorageApiServer as _;
fn check(m: &MsaRpc, d: Vec<DelegatorId>, p: u64, b: u32, s: Option<u16>) -> RpcResult<Vec<(DelegatorId, bool)>> { <MsaRpc as pallet_msa_rpc::MsaApiServer<u64, AccountId32>>::check_delegations(m, d, ProviderId(p), b, s) }
fn handles() -> pallet_handles_rpc::HandlesHandler<Node, Block> { pallet_handles_rpc::HandlesHandler::new(node()) }
fn capacity() -> pallet_frequency_tx_payment_rpc::CapacityPaymentHandler<Node, Block> { pallet_frequency_tx_payment_rpc::CapacityPaymentHandler::new(node()) }
fn details(at: Option<u64>, bytes: Vec<u8>) -> RpcResult<pallet_transaction_payment::FeeDetails<NumberOrHex>> { <pallet_frequency_tx_payment_rpc::CapacityPaymentHandler<Node, Block> as pallet_frequency_tx_payment_rpc::CapacityPaymentApiServer<u64, Balance>>::compute_capacity_fee_details(&capacity(), bytes.into(), at) }
#[path = "/repo/node/service/src/rpc/frequency_rpc.rs"] mod frequency_rpc; use frequency_rpc::FrequencyRpcApiServer;
/// a transaction of the pool: what it provides
#[derive(Clone)] pub struct Tx(Vec<Vec<u8>>);
impl sc_transaction_pool_api::InPoolTransaction for Tx { type Transaction = (); type Hash = u64; fn data(&self) -> &() { &() } fn hash(&self) -> &u64 { &0 } fn priority(&self) -> &u64 { &0 } fn longevity(&self) -> &u64 { &0 } fn requires(&self) -> &[Vec<u8>] { &[] } fn provides(&self) -> &[Vec<u8>] { &self.0 } fn is_propagable(&self) -> bool { true } }
pub struct Pool { ready: Vec<Tx>, futures: Vec<Tx> }
impl sc_transaction_pool_api::TransactionPool for Pool { type InPoolTransaction = Tx; fn ready(&self) -> Box<dyn sc_transaction_pool_api::ReadyTransactions<Item = Arc<Tx>> + Send> { Box::new(self.ready.iter().cloned().map(Arc::new).collect::<Vec<_>>().into_iter()) } fn futures(&self) -> Vec<Tx> { self.futures.clone() } fn status(&self) -> sc_transaction_pool_api::PoolStatus { sc_transaction_pool_api::PoolStatus { ready: self.ready.len(), future: self.futures.len(), ..Default::default() } } }
fn tx(a: u8, n: u32) -> Tx { Tx(vec![(acct(a), n).encode(), b"free".to_vec()]) }
fn frequency(ready: Vec<Tx>, futures: Vec<Tx>) -> frequency_rpc::FrequencyRpcHandler<Pool, Node, Block> { frequency_rpc::FrequencyRpcHandler::new(node(), Arc::new(Pool { ready, futures })) }
fn missing(h: &frequency_rpc::FrequencyRpcHandler<Pool, Node, Block>) -> RpcResult<Vec<u32>> { <_ as FrequencyRpcApiServer<Block, AccountId32, u32>>::get_missing_nonce_values(h, acct(1)) }
#[derive(Clone, PartialEq, Eq, Debug, parity_scale_codec::Encode, parity_scale_codec::Decode, scale_info::TypeInfo)] pub enum Ev { #[codec(index = 7)] A(EvA), #[codec(index = 200)] B(EvB) }
#[derive(Clone, PartialEq, Eq, Debug, parity_scale_codec::Encode, parity_scale_codec::Decode, scale_info::TypeInfo)] pub enum EvA { Plain, Data { who: u64, what: Vec<u8> } }
#[derive(Clone, PartialEq, Eq, Debug, parity_scale_codec::Encode, parity_scale_codec::Decode, scale_info::TypeInfo)] pub enum EvB { #[codec(index = 3)] Two(u32, bool) }
fn phase(k: u64, n: u32) -> frame_system::Phase { match k { 0 => frame_system::Phase::ApplyExtrinsic(n), 1 => frame_system::Phase::Finalization, _ => frame_system::Phase::Initialization } }
sym::harnesses!{
// any pool: own transactions ready and waiting, also twice, among those of others
fn q03_nonces() { nonces(2, 2, 3) }
fn q03_t_nonces() { nonces(2, 3, 4) }
fn q03_limit() {
    let n = sym::u32("nonce"); sym::assume(n < 1 << 30); set_nonce(n); let gap = [999u32, 1000, 1001][sym::choose("gap", 0, 2) as usize]; let more = sym::bool("another"); let mut f = vec![tx(1, n + gap)]; if more { f.push(tx(1, n + gap + 2)) }
    let r = missing(&frequency(vec![], f)); if !at_best(&r) { return } let r = r.unwrap(); let all = if more { gap + 1 } else { gap }; sym::check(r.len() as u32 == all.min(1000), "at most a thousand are listed"); sym::check(r.iter().enumerate().all(|(i, m)| *m == n + i as u32 + (i as u32 >= gap) as u32), "the first ones");
}
fn q03_odd() {
    // transactions that provide something else, or nothing
    let n = sym::u32("nonce"); sym::assume(n < 1 << 30); set_nonce(n); let odd = |k: u64| match k { 0 => Tx(vec![]), 1 => Tx(vec![acct(1).encode()]), 2 => Tx(vec![[acct(1).encode(), vec![1, 2]].concat()]), 3 => Tx(vec![vec![1; 8]]), 4 => Tx(vec![b"free".to_vec(), (acct(1), n).encode()]), _ => Tx(vec![(acct(2), n + 1).encode()]) };
    let (a, b) = (sym::choose("ready", 0, 5), sym::choose("waiting", 0, 5)); let r = missing(&frequency(vec![odd(a), tx(1, n), odd(a)], vec![odd(b), tx(1, n + 3)])); if !at_best(&r) { return } sym::check(r.unwrap() == vec![n + 1, n + 2], "what others send does not count");
}
fn q03_events() {
    let k = sym::choose("events", 0, 3); let (p, n) = (sym::choose("phase", 0, 2), sym::u32("extrinsic")); let mut want = vec![];
    for i in 0..k { let (e, name): (RuntimeEvent, &[u8]) = match i { 0 => (pallet_msa::Event::<Test>::MsaRetired { msa_id: 5 }.into(), b"Msa"), 1 => (pallet_schemas::Event::<Test>::SchemaMaxSizeChanged { max_size: 5 }.into(), b"Schemas"), _ => (pallet_msa::Event::<Test>::MsaRetired { msa_id: 6 }.into(), b"Msa") }; frame_system::Pallet::<Test>::deposit_event(e); let ph = phase(if i == 0 { p } else { 0 }, n + 0 * i as u32); unsafe { frame_system::PHASES.push(ph) } want.push((if i == 0 && p > 0 { None } else { Some(n) }, name[0], name[1], name[2..].to_vec())) }
    let at = sym::u64("block"); let h = frequency(vec![], vec![]); let r = <_ as FrequencyRpcApiServer<Block, AccountId32, u32>>::get_events(&h, at); unsafe { sym::check(ASKED.len() == 1 && ASKED[0] == at, "the state of the block asked for answers") } if unsafe { FAILS } { sym::check(code(&r) == 300 || code(&r) == 301, "the node's failure"); sym::cover("node fails"); return }
    sym::check(r.unwrap().into_iter().map(|e| (e.phase, e.pallet, e.event, e.data)).collect::<Vec<_>>() == want, "every event of the block, in order"); sym::cover("answered");
}
fn q03_event() {
    let k = sym::choose("event", 0, 2); let (a, b) = (sym::u64("a"), sym::u32("b")); let d = sym::byte_vec("data", 2); let c = sym::bool("c"); let (e, pallet, event, data) = match k { 0 => (Ev::A(EvA::Plain), 7u8, 0u8, vec![]), 1 => (Ev::A(EvA::Data { who: a, what: d.clone() }), 7, 1, [a.to_le_bytes().to_vec(), vec![8], d].concat()), _ => (Ev::B(EvB::Two(b, c)), 200, 3, [b.to_le_bytes().to_vec(), vec![c as u8]].concat()) };
    let (p, n) = (sym::choose("phase", 0, 2), sym::u32("extrinsic")); let r = common_primitives::rpc::RpcEvent::from(frame_system::EventRecord { phase: phase(p, n), event: e, topics: vec![0u64; 0] }); sym::check(r.pallet == pallet && r.event == event && r.data == data && r.phase == if p == 0 { Some(n) } else { None }, "which transaction it came from, the numbers of pallet and event, and its data as encoded");
}
fn n05_rpc_walk() { walk(2, 3) }
fn n05_t_rpc_walk() { walk(3, 3) }
// any request: refused if it is not a valid one or asks for a schema there is not, from any position of the range
fn n05_rpc_request() {
    let h = messages(); schema(5, PayloadLocation::OnChain); let n = sym::choose("messages", 0, 3) as u32; for i in 0..n { message(7, 5, i as u16) } let s = sym::u16("schema"); unsafe { FAILS = false }
    let q = BlockPaginationRequest { from_block: sym::choose("from", 6, 8) as u32, from_index: sym::u32("index"), to_block: sym::choose("to", 6, 9) as u32, page_size: 2 }; let valid = q.from_block < q.to_block; let (from, to, at) = (q.from_block, q.to_block, q.from_index);
    let r: RpcResult<Msgs> = h.get_messages_by_schema_id(s, q); sym::check(r.is_ok() == (valid && s == 5), "a valid request for an existing schema is answered, and no other"); let Ok(r) = r else { sym::cover("refused"); return };
    let first = if from == 7 { at } else { 0 }; let all = if from <= 7 && to > 7 && first < n { n - first } else { 0 }; sym::check(r.content.len() as u32 == all.min(2) && r.content.iter().enumerate().all(|(k, m)| m.index as u32 == first + k as u32 && m.block_number == 7), "the page begins at the requested position");
    let more = all > 2 || all == 2 && to > 8; sym::check(r.has_next == more && r.next_block == if more { Some(if all > 2 { 7 } else { 8 }) } else { None } && r.next_index == if more { Some(if all > 2 { first + 2 } else { 0 }) } else { None }, "the next page is announced exactly if there may be more"); sym::cover("answered");
}
// two delegators, each with any delegation to the provider: the answers are those of the state, in the order asked for
fn q01_check() {
    let h = msa(); let now = sym::u32("now"); set_block(now); let b = sym::u32("block"); let s = if sym::bool("schema asked for") { Some(7u16) } else { None }; let mut want = vec![];
    for d in [21u64, 22] { let has = sym::bool("delegation"); let rv = sym::u32("revoked"); let g = sym::bool("grant"); let ga = sym::u32("grant ends"); if has { put(d, 3, rv, &if g { vec![(7, ga)] } else { vec![(8, 0)] }) }
        want.push(has && b <= now && (rv == 0 || b <= rv) && (s.is_none() || g && (ga == 0 || b <= ga))); }
    let swap = sym::bool("order"); let mut ask = if swap { vec![DelegatorId(22), DelegatorId(21)] } else { vec![DelegatorId(21), DelegatorId(22)] }; if swap { want.reverse() } let n = sym::choose("asked for", 0, 2) as usize; ask.truncate(n); want.truncate(n); put(21, 4, 0, &[(7, 0)]); put(22, 4, 0, &[(7, 0)]);
    let r = check(&h, ask.clone(), 3, b, s); let r = r.expect("always answered"); sym::check(unsafe { ASKED.iter().all(|a| *a == BEST) }, "the state of the best block answers");
    if unsafe { FAILS } { sym::cover("node fails"); sym::check(r == ask.into_iter().map(|d| (d, false)).collect::<Vec<_>>(), "a node that cannot answer vouches for nobody"); return }
    sym::check(r == ask.into_iter().zip(want).collect::<Vec<_>>(), "each delegator asked for, in order, with whether the delegation and the grant hold at that block"); sym::cover("answered");
}
fn q01_granted() {
    let h = msa(); let has = sym::bool("delegation"); let rv = sym::u32("revoked"); let n = sym::choose("grants", 0, 2) as usize; let g: Vec<(u16, u32)> = [(7u16, sym::u32("end 1")), (9, sym::u32("end 2"))][..n].to_vec(); if has { put(21, 3, rv, &g) } put(21, 4, 0, &[(8, 0)]); put(22, 3, 0, &[(8, 0)]);
    let r: RpcResult<Option<Vec<SchemaGrant<u16, u32>>>> = <MsaRpc as pallet_msa_rpc::MsaApiServer<u64, AccountId32>>::get_granted_schemas_by_msa_id(&h, DelegatorId(21), ProviderId(3)); if !at_best(&r) { return }
    let r = r.unwrap(); sym::check(r.map(|v| pairs(&v)) == if has && n > 0 { Some(grants_of(rv, &g)) } else { None }, "the grants of the delegation with the block each ended at, the delegation's own end included");
}
fn q01_all() {
    let h = msa(); let mut want = vec![]; for p in [3u64, 4] { if sym::bool("delegation") { let rv = sym::u32("revoked"); let n = sym::choose("grants", 0, 1) as usize; let g = [(7u16, sym::u32("end"))][..n].to_vec(); put(21, p, rv, &g); want.push((p, grants_of(rv, &g))) } } put(22, 3, 0, &[(8, 0)]);
    let r = <MsaRpc as pallet_msa_rpc::MsaApiServer<u64, AccountId32>>::get_all_granted_delegations_by_msa_id(&h, DelegatorId(21)); if !at_best(&r) { return }
    let mut v: Vec<(u64, Vec<(u16, u32)>)> = r.unwrap().iter().map(|d| (d.provider_id.0, pairs(&d.permissions))).collect(); v.sort_by_key(|d| d.0); sym::check(v == want, "all delegations of the delegator and nobody else's");
}
// the keys of an MSA come from the index, whatever is in it
fn q01_keys() {
    let m = sym::u64("msa"); let stored = sym::choose("index holds", 0, 4); let own = common_primitives::offchain::get_msa_account_storage_key_name(21); let k = [acct(1), acct(2)];
    let value = match stored { 0 => Encode::encode(&k[..0].to_vec()), 1 => Encode::encode(&k[..1].to_vec()), 2 => Encode::encode(&k.to_vec()), 3 => { let mut v = Encode::encode(&k.to_vec()); v.pop(); v }, _ => vec![] };
    let prefix = if sym::bool("other store") { b"local".to_vec() } else { b"storage".to_vec() }; let mine = prefix == b"storage"; let on = sym::bool("indexing"); let taken = sym::bool("locked"); unsafe { parking_lot::TAKEN = taken }
    let h: MsaRpc = pallet_msa_rpc::MsaHandler::new(node(), if on { Some(Db { prefix, key: own, value }) } else { None }); sym::assume(m < 100);
    let r: RpcResult<Option<KeyInfoResponse<AccountId32>>> = h.get_keys_by_msa_id(m);
    if taken || !on { sym::check(r.is_err(), "no answer without the index"); sym::cover("no index"); return } if !mine || m != 21 { sym::check(matches!(r, Ok(None)), "an MSA that is not in the index has no keys there"); sym::cover("not there"); return }
    if stored > 2 { sym::check(r.is_err(), "damaged entries are not answered"); sym::cover("damaged") } else { let n = stored as usize; sym::check(matches!(&r, Ok(Some(i)) if i.msa_id == 21 && i.msa_keys == k[..n].to_vec()), "exactly the keys of the index, under their MSA"); sym::cover("keys") }
}
fn q02_suffixes() {
    let h = handles(); let c = if sym::bool("count given") { Some(if sym::bool("large") { let c = sym::u16("count"); sym::assume(c >= 98); c } else { sym::choose("n", 0, 3) as u16 }) } else { None }; let used = sym::choose("used", 0, 2) as u16; if used > 0 { pallet_handles::CanonicalBaseHandleToSuffixIndex::<Test>::insert(common_primitives::handles::CanonicalBase::try_from(b"wxy".to_vec()).unwrap(), (used - 1, 10u16)) }
    let r = h.get_next_suffixes("wxy".into(), c); if !at_best(&r) { return } let r = r.unwrap(); let n = match c { None => 1, Some(c) if c > 100 => 100, Some(c) => c } as usize;
    sym::check(r.suffixes.len() == n.min(90 - used as usize) && r.suffixes == Handles::get_next_suffixes(b"wxy".to_vec().try_into().unwrap(), n as u16).suffixes, "as many suffixes as asked for and there are, one by default"); sym::check(r.base_handle == b"wxy".to_vec(), "of the base handle");
}
fn q02_long() {
    let h = handles(); let n = sym::choose("length", 30, 40) as usize; let t = "k".repeat(n); let fails = unsafe { FAILS };
    sym::check(h.get_next_suffixes(t.clone(), Some(1)).is_ok() == (!fails && n <= 32), "a text too long for a handle has no suffixes"); sym::check(h.get_msa_for_handle(t.clone()).is_ok() == (!fails && n <= 38), "nor a holder");
    let v = h.validate_handle(t); if fails { sym::check(v.is_err(), "no answer") } else { sym::check(matches!(v, Ok(false)), "nor is it valid"); for k in [16usize, 17] { sym::check(matches!(h.validate_handle("\u{3b1}".repeat(k)), Ok(v) if v == (k == 16)), "not even if it begins like one that is") } } sym::cover("long");
}
fn q02_handles() {
    let h = handles(); let held = sym::bool("held"); if held { pallet_msa::PublicKeyToMsaId::<Test>::insert(acct(1), 5); let p = ClaimHandlePayload { base_handle: b"Wx y".to_vec(), expiration: 10u32 }; let s = sp_runtime::sim_sign(&acct(1), &[b"<Bytes>".to_vec(), p.encode(), b"</Bytes>".to_vec()].concat()); set_block(5); sym::check(Handles::claim_handle(signed(2), acct(1), s, p).is_ok(), "set up") }
    let m = sym::u64("msa"); let r = h.get_handle_for_msa(m); if !at_best(&r) { return } let r = r.unwrap(); sym::check(r.is_some() == (held && m == 5), "exactly the holder has a handle"); let Some(r) = r else { return };
    sym::check(r.base_handle == b"Wx y".to_vec() && r.canonical_base == b"wxy".to_vec(), "with its parts"); let who = sym::choose("written", 0, 2); let d = format!("{}.{}", ["Wx y", "wxy", "wxz"][who as usize], r.suffix);
    sym::check(h.get_msa_for_handle(d).unwrap() == if who < 2 { Some(5) } else { None }, "the handle leads back to its holder however it is written"); let v = h.validate_handle(["abc", "ab", "admin", "a b c"][sym::choose("valid", 0, 3) as usize].into()).unwrap(); let _ = v; sym::cover("held");
}
fn q02_validate() {
    let h = handles(); let k = sym::choose("text", 0, 5) as usize; let t = ["abc", "ab", "admin", "a.bc", "k k k", "@bcd"][k]; let r = h.validate_handle(t.into()); if !at_best(&r) { return } sym::check(r.unwrap() == [true, false, false, false, true, false][k], "valid exactly if it can be claimed");
}
fn q02_schemas() {
    let h = pallet_schemas_rpc::SchemasHandler::<Node, Block>::new(node()); for i in [1, 5] { schema(i, PayloadLocation::Itemized) } let s = sym::u16("schema"); let r = h.get_by_schema_id(s); if !at_best(&r) { return }
    let r = r.unwrap(); sym::check(r == if s == 5 || s == 1 { Some(SchemaResponse { schema_id: s, model: b"{}".to_vec(), model_type: ModelType::AvroBinary, payload_location: PayloadLocation::Itemized, settings: vec![] }) } else { None }, "exactly the schema registered under the id");
}
fn q02_versions() {
    let h = pallet_schemas_rpc::SchemasHandler::<Node, Block>::new(node()); let v = [sym::u16("v1"), sym::u16("v2")]; pallet_schemas::SchemaNameToIds::<Test>::insert(BoundedVec::try_from(b"abc".to_vec()).unwrap(), BoundedVec::try_from(b"de".to_vec()).unwrap(), pallet_schemas::SchemaVersionId { ids: BoundedVec::try_from(v.to_vec()).unwrap() });
    let k = sym::choose("name", 0, 4) as usize; let r = h.get_versions(["abc.de", "abc", "ABC.de ", "abd", "a b"][k].into()); if !at_best(&r) { return } let r = r.unwrap(); if k == 4 { sym::check(r.is_none(), "not a name"); return } let r = r.unwrap();
    sym::check(r.iter().map(|x| (x.schema_name.clone(), x.schema_version, x.schema_id)).collect::<Vec<_>>() == if k < 3 { vec![(b"abc.de".to_vec(), 1, v[0]), (b"abc.de".to_vec(), 2, v[1])] } else { vec![] }, "the versions of the name, or of all names of the namespace, in order");
}
fn q02_model() {
    let h = pallet_schemas_rpc::SchemasHandler::<Node, Block>::new(node()); let k = sym::choose("model", 0, 3) as usize; let m = [r#"{"type":"int"}"#, r#"{"type":"record","name":"n","fields":[]}"#, r#"{"type":"nothing"}"#, "{"][k]; let r = h.check_schema_validity(m.as_bytes().to_vec(), None);
    sym::check(if k < 2 { matches!(r, Ok(true)) } else { code(&r) == 3 }, "a model that is not a schema is refused with the code of a schema that is not valid"); sym::cover("checked");
}
fn q02_pages() {
    let h = pallet_stateful_storage_rpc::StatefulStorageHandler::<Node, Block>::new(node()); pallet_msa::PublicKeyToMsaId::<Test>::insert(acct(1), 5); schema(7, PayloadLocation::Paginated); schema(8, PayloadLocation::Itemized); let body = sym::byte_vec("page", 2);
    sym::check(StatefulStorage::upsert_page(signed(1), 5, 7, 3, 0, BoundedVec::try_from(body.clone()).unwrap()).is_ok(), "set up"); let s = sym::choose("schema", 6, 8) as u16; let m = sym::u64("msa"); let r = h.get_paginated_storage(m, s); unsafe { sym::check(ASKED.iter().all(|b| *b == BEST), "the state of the best block answers") }
    if unsafe { FAILS } { sym::check(code(&r) == 301, "the node's failure"); return } if s != 7 { sym::check(code(&r) == 300, "the runtime's refusal: no paginated schema"); return } let r = r.unwrap(); if m != 5 { sym::check(r.is_empty(), "nobody else's pages"); return }
    sym::check(r.len() == 1 && r[0].page_id == 3 && r[0].msa_id == 5 && r[0].schema_id == 7 && r[0].payload == body && r[0].nonce == 1, "the owner's pages"); sym::cover("page");
}
fn q02_items() {
    let h = pallet_stateful_storage_rpc::StatefulStorageHandler::<Node, Block>::new(node()); pallet_msa::PublicKeyToMsaId::<Test>::insert(acct(1), 5); schema(7, PayloadLocation::Paginated); schema(8, PayloadLocation::Itemized); let body = sym::byte_vec("item", 2);
    sym::check(StatefulStorage::apply_item_actions(signed(1), 5, 8, 0, BoundedVec::try_from(vec![pallet_stateful_storage::types::ItemAction::Add { data: BoundedVec::try_from(body.clone()).unwrap() }]).unwrap()).is_ok(), "set up"); let s = sym::choose("schema", 6, 8) as u16; let m = sym::u64("msa"); let r = h.get_itemized_storage(m, s); unsafe { sym::check(ASKED.iter().all(|b| *b == BEST), "the state of the best block answers") }
    if unsafe { FAILS } { sym::check(code(&r) == 301, "the node's failure"); return } if s != 8 { sym::check(code(&r) == 300, "the runtime's refusal: no itemized schema"); return } let r = r.unwrap(); sym::check(r.msa_id == m && r.schema_id == 8, "asked for"); if m != 5 { sym::check(r.items.is_empty() && r.nonce == 0, "nobody else's items"); return }
    sym::check(r.items.len() == 1 && r.items[0].index == 0 && r.items[0].payload == body && r.nonce == 1, "the owner's items"); sym::cover("item");
}
// what a wallet is told of a transaction it would send
fn x04_rpc() {
    let k = sym::choose("call", 0, 15); let (c, wt) = eligible(k, 1); let all = sym::bool("all"); let outer = if all { pay_all(vec![c.clone(), c]) } else { pay(c) }; let len = sym::choose("length", 0, 3) as usize; unsafe { DECODED = if sym::bool("well formed") { Some(outer) } else { None } }
    let at = if sym::bool("at a block") { Some(sym::u64("block")) } else { None }; let r = details(at, vec![1; len]); unsafe { sym::check(ASKED.iter().all(|b| *b == at.unwrap_or(BEST)), "the state asked for answers, or the best block's") }
    if unsafe { DECODED.is_none() } { sym::check(code(&r) == 2, "not a transaction"); sym::cover("malformed"); return } if unsafe { FAILS } { sym::check(code(&r) == 1, "the node's failure"); sym::cover("node fails"); return }
    let r = r.unwrap(); sym::check(r.inclusion_fee.is_some() && r.tip == NumberOrHex::Number(0), "a fee without a tip"); let i = r.inclusion_fee.unwrap(); sym::check(i.base_fee.into_u256() == weight_fee(105_455_000) && i.len_fee.into_u256() == BYTE * len as u128, "base and length are those charged");
    sym::check(i.base_fee.into_u256() + i.len_fee.into_u256() + i.adjusted_weight_fee.into_u256() >= capacity_fee(if all { 2 * time(wt) } else { time(wt) }, len as u32), "no more is charged than was told"); sym::cover("told");
}
fn x04_rpc_others() {
    let v = foreign(); let k = sym::choose("call", 0, v.len() as u64 - 1); unsafe { DECODED = Some(v[k as usize].clone()) } let r = details(None, vec![1; 3]); if !at_best(&r) { return } let r = r.unwrap(); sym::check(r.inclusion_fee.is_none() && r.tip == NumberOrHex::Number(0), "a call that is not paid for with capacity has no capacity fee");
}
}
fn walk(most: u64, sizes: u64) {
    // three blocks with messages of two schemas, walked page by page through the handler
    let h = messages(); schema(5, PayloadLocation::OnChain); schema(6, PayloadLocation::OnChain); let mut want = vec![];
    for b in 0..3u32 { let n = sym::choose(["l0", "l1", "l2"][b as usize], 0, most) as u16; for i in 0..n { message(10 + b, 5, 2 * i + 1); message(10 + b, 6, 2 * i); want.push((10 + b, 2 * i + 1, vec![10 + b as u8, 2 * i as u8 + 1])) } } message(9, 5, 0); message(13, 5, 0);
    let size = sym::choose("size", 1, sizes) as u32; let mut got = vec![]; let (mut fb, mut fi, mut pages) = (10u32, 0u32, 0);
    loop {
        let r: RpcResult<Msgs> = h.get_messages_by_schema_id(5, BlockPaginationRequest { from_block: fb, from_index: fi, to_block: 13, page_size: size }); if !at_best(&r) { return } let r = r.unwrap();
        sym::check(r.content.len() <= size as usize, "a page holds at most its size"); got.extend(r.content.iter().map(|m| { sym::check(m.provider_msa_id == 1 && m.msa_id == Some(2), "with its authors"); (m.block_number, m.index, m.payload.clone().unwrap()) })); pages += 1;
        if !r.has_next || pages > 10 { break } fb = r.next_block.unwrap(); fi = r.next_index.unwrap();
    }
    sym::check(got == want, "walking the pages yields every message of the schema in the range once, in order"); sym::cover("walked");
}

fn set_nonce(n: u32) { let mut i = frame_system::Account::<Test>::get(acct(1)); i.nonce = n; frame_system::Account::<Test>::insert(acct(1), i) }
fn nonces(own: u64, waiting: u64, span: u64) {
    let n = sym::u32("nonce"); sym::assume(n >= 8 && n < 1 << 30); set_nonce(n); let r = sym::choose("ready", 0, own) as u32; let mut ready = vec![]; if sym::bool("past") { ready.push(tx(1, n - 1)) } for i in 0..r { ready.push(tx(2, n + i)); ready.push(tx(1, n + i)) }
    let k = sym::choose("waiting", 0, waiting); let mut at: Vec<u32> = (0..k).map(|_| n + r + sym::choose("ahead", 1, span) as u32).collect(); let past = sym::bool("past waiting"); let mut f: Vec<Tx> = at.iter().map(|a| tx(1, *a)).collect(); if past { f.push(tx(1, n - 2)) } f.push(tx(2, n + 9)); f.push(tx(3, n));
    let got = missing(&frequency(ready, f)); if !at_best(&got) { return } let top = at.iter().max().cloned().unwrap_or(0); at.sort(); let want: Vec<u32> = (n + r..n + r + span as u32).filter(|m| *m < top && !at.contains(m)).collect(); sym::check(got.unwrap() == want, "exactly the nonces that keep waiting transactions waiting, in order"); sym::cover("waiting");
}
