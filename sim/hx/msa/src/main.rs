//! pallet-msa: M01..M09
#![allow(static_mut_refs, deprecated)]
use common_primitives::{capacity::TargetValidator, handles::*, msa::*, node::ProposalProvider, schema::{SchemaId, SchemaValidator}};
use frame_support::{dispatch::{DispatchInfo, DispatchResult}, traits::{EnsureOrigin, Get}, BoundedVec};
use pallet_msa::{types::EMPTY_FUNCTION, *};
use parity_scale_codec::Encode;
use rt::{acct, none, root, signed, AccountId32, Origin};
use sp_runtime::{bounded::BoundedBTreeMap, traits::SignedExtension, DispatchError, MultiSignature};
rt::runtime! { Msa: pallet_msa }
macro_rules! max { ($n:ident, $t:ty, $v:expr) => { #[derive(Clone, Debug, PartialEq, Eq, Default, parity_scale_codec::Encode)] pub struct $n; impl Get<$t> for $n { fn get() -> $t { $v } } impl parity_scale_codec::MaxEncodedLen for $n { fn max_encoded_len() -> usize { 0 } } } }
static mut WINDOW: u32 = 100; static mut KEYS: u8 = 3; static mut HANDLE: Option<u64> = None; static mut SIGS: u32 = 50; static mut GRANTS: u32 = 3; static mut LAST_SCHEMA: u16 = 9; static mut PROPOSED: Option<(AccountId32, u32, RuntimeCall)> = None;
max!(MaxKeys, u8, unsafe { KEYS }); max!(MaxGrants, u32, unsafe { GRANTS }); max!(MaxName, u32, 3); max!(Window, u32, unsafe { WINDOW }); max!(MaxSigs, Option<u32>, Some(unsafe { SIGS }));
pub struct Same; impl sp_runtime::traits::Convert<AccountId32, AccountId32> for Same { fn convert(a: AccountId32) -> AccountId32 { a } }
/// schemas 7, 8 and 9 exist
pub struct Schemas; impl SchemaValidator<SchemaId> for Schemas { fn are_all_schema_ids_valid(v: &Vec<SchemaId>) -> bool { v.iter().all(|s| *s >= 7 && *s <= unsafe { LAST_SCHEMA }) } }
pub struct Names; impl HandleProvider for Names { fn get_handle_for_msa(m: u64) -> Option<HandleResponse> { unsafe { if HANDLE == Some(m) { Some(HandleResponse { base_handle: vec![], canonical_base: vec![], suffix: 1 }) } else { None } } } }
pub struct Council; impl ProposalProvider<AccountId32, RuntimeCall> for Council {
    fn propose(who: AccountId32, n: u32, c: Box<RuntimeCall>) -> Result<(u32, u32), DispatchError> { unsafe { PROPOSED = Some((who, n, *c)) } Ok((1, 1)) }
    fn propose_with_simple_majority(_: AccountId32, _: Box<RuntimeCall>) -> Result<(u32, u32), DispatchError> { Err(DispatchError::Other("not asked for")) }
}
impl Config for Test {
    type RuntimeEvent = RuntimeEvent; type WeightInfo = (); type ConvertIntoAccountId32 = Same; type MaxPublicKeysPerMsa = MaxKeys; type MaxSchemaGrantsPerDelegation = MaxGrants; type MaxProviderNameSize = MaxName; type SchemaValidator = Schemas; type HandleProvider = Names;
    type MortalityWindowSize = Window; type MaxSignaturesStored = MaxSigs; type CreateProviderViaGovernanceOrigin = frame_system::EnsureRoot<AccountId32>; type Proposal = RuntimeCall; type ProposalProvider = Council;
}
type P = Pallet<Test>; type X = CheckFreeExtrinsicUse<Test>; type D = Delegation<SchemaId, u32, MaxGrants>;
fn wrap(p: Vec<u8>) -> Vec<u8> { [b"<Bytes>".to_vec(), p, b"</Bytes>".to_vec()].concat() }
fn sign<E: Encode>(who: u8, p: &E) -> MultiSignature { sp_runtime::sim_sign(&acct(who), &wrap(p.encode())) }
fn of(k: u8) -> Option<u64> { P::get_msa_by_public_key(&acct(k)) }
fn count(m: u64) -> u8 { P::get_public_key_count_by_msa_id(m) }
fn key(k: u8, m: u64) { P::add_key(m, &acct(k), EMPTY_FUNCTION).expect("set up") }
fn provider(m: u64) { P::create_registered_provider(ProviderId(m), BoundedVec::try_from(vec![65]).unwrap()).expect("set up") }
fn add_key(o: u8, n: u8, m: u64) -> DispatchResult { let p = AddKeyData::<Test> { msa_id: m, expiration: 20, new_public_key: acct(n) }; P::add_public_key_to_msa(signed(9), acct(o), sign(o, &p), sign(n, &p), p) }
fn sponsor(by: u8, k: u8, m: u64, s: Vec<u16>) -> DispatchResult { let p = AddProvider { authorized_msa_id: m, schema_ids: s, expiration: 20 }; P::create_sponsored_account_with_delegation(signed(by), acct(k), sign(k, &p), p) }
fn msa_ev(e: Event<Test>) -> RuntimeEvent { RuntimeEvent::Msa(e) }
fn valid(who: u8, c: &Call<Test>) -> bool {
    let c = RuntimeCall::Msa(c.clone()); let i = DispatchInfo::default(); let v = X::new().validate(&acct(who), &c, &i, 0).is_ok(); sym::check(X::new().pre_dispatch(&acct(who), &c, &i, 0).is_ok() == v, "what is valid in the pool is let into a block and the other way round"); v
}
fn deleg(m: u64, p: u64) -> Option<D> { DelegatorAndProviderToDelegation::<Test>::get(DelegatorId(m), ProviderId(p)) }
fn put(m: u64, p: u64, revoked_at: u32, s: &[(u16, u32)]) { let mut b = BoundedBTreeMap::new(); for (k, v) in s { b.try_insert(*k, *v).expect("set up"); } DelegatorAndProviderToDelegation::<Test>::insert(DelegatorId(m), ProviderId(p), D { revoked_at, schema_permissions: b }) }
// ---- M01/M02: keys and identifiers
struct Keys { own: [Option<u64>; 5], last: u64 }
impl Keys {
    fn check(&self, sub: &[u64]) { for k in 1..5u8 { sym::check(of(k) == self.own[k as usize], "a key has exactly the MSA it was created with or added to") } for m in sub { sym::check(count(*m) as usize == self.own.iter().filter(|o| **o == Some(*m)).count(), "the keys of an MSA are counted") } sym::check(CurrentMsaIdentifierMaximum::<Test>::get() == self.last, "the latest identifier is kept") }
}
fn history(steps: usize) {
    set_block(10); let base = 100; CurrentMsaIdentifierMaximum::<Test>::put(base); unsafe { KEYS = 2 } provider(1); key(9, 1);
    let mut k = Keys { own: [None; 5], last: base }; let mut retired: Vec<u64> = vec![]; sym::check(P::create(signed(1)).is_ok(), "set up"); k.own[1] = Some(base + 1); k.last += 1;
    for _ in 0..steps {
        let a = sym::choose("key", 1, 3) as u8; let mine = k.own[a as usize];
        match sym::choose("operation", 0, 4) {
            0 => { let ok = mine.is_none(); sym::check(P::create(signed(a)).is_ok() == ok, "any key without an MSA can create one"); if !ok { return } k.last += 1; k.own[a as usize] = Some(k.last); sym::cover("created"); sym::check(events().last() == Some(&msa_ev(Event::MsaCreated { msa_id: k.last, key: acct(a) })), "it is announced"); }
            1 => { let ok = mine.is_none(); sym::check(sponsor(9, a, 1, vec![7]).is_ok() == ok, "any key without an MSA can be given one by a provider"); if !ok { return } k.last += 1; k.own[a as usize] = Some(k.last); sym::cover("sponsored"); sym::check(deleg(k.last, 1).is_some(), "with a delegation to it"); }
            2 => { let n = sym::choose("new key", 1, 3) as u8; let m = if sym::bool("another's") { base + 1 } else { mine.unwrap_or(base + 2) }; let used = k.own.iter().filter(|o| **o == Some(m)).count();
                let ok = mine == Some(m) && k.own[n as usize].is_none() && used < 2; sym::check(add_key(a, n, m).is_ok() == ok, "a key without an MSA can be added by a key of the MSA, up to the limit"); if !ok { return } k.own[n as usize] = Some(m); sym::cover("key added"); sym::check(events().last() == Some(&msa_ev(Event::PublicKeyAdded { msa_id: m, key: acct(n) })), "it is announced"); }
            3 => { let t = sym::choose("target", 1, 3) as u8; let c = Call::delete_msa_public_key { public_key_to_delete: acct(t) }; let ok = mine.is_some() && t != a && k.own[t as usize] == mine; sym::check(valid(a, &c) == ok, "an MSA's key can remove another one of the same MSA"); if !ok { return }
                sym::check(P::delete_msa_public_key(signed(a), acct(t)).is_ok(), "removed"); k.own[t as usize] = None; sym::cover("key removed"); sym::check(events().last() == Some(&msa_ev(Event::PublicKeyDeleted { key: acct(t) })), "it is announced"); }
            _ => { let Some(m) = mine else { sym::check(!valid(a, &Call::retire_msa {}), "nothing to retire"); return }; if !valid(a, &Call::retire_msa {}) { return } sym::check(P::retire_msa(signed(a)).is_ok(), "retired"); k.own[a as usize] = None; retired.push(m); sym::cover("retired"); sym::check(events().last() == Some(&msa_ev(Event::MsaRetired { msa_id: m })), "it is announced"); }
        }
    }
    k.check(&[base + 1, base + 2, base + 3]); for m in retired { sym::check(count(m) == 0 && !k.own.contains(&Some(m)), "a retired MSA has no keys and gets none again") }
}
// ---- M03: when a delegation or a schema grant is valid
#[derive(Clone, Copy, PartialEq)]
enum St { Never, Active, Ended(u32) }
fn at(s: St, b: u32) -> bool { match s { St::Never => false, St::Active => true, St::Ended(e) => b <= e } }
fn end(s: St, now: u32) -> St { if s == St::Active { St::Ended(now) } else { s } }
fn subset(n: &str) -> Vec<u16> { match sym::choose(n, 0, 3) { 0 => vec![], 1 => vec![7], 2 => vec![8], _ => vec![8, 7] } }
fn grants(steps: usize, from: u64) {
    let mut now = sym::u32("block"); sym::assume(now > 0 && now < 1000); set_block(now); unsafe { WINDOW = 5000 } key(1, 10); key(2, 20); provider(20);
    let mut d = St::Never; let mut s = [St::Never; 2];
    if from == 9 {
        // any state reached before: revoked or not, with either grant ended or not, never later than the delegation
        let (r, a, b) = (sym::u32("revoked"), sym::u32("first revoked"), sym::u32("second revoked")); sym::assume((r <= now) & (a <= now) & (b <= now) & ((r == 0) | ((a <= r) & (b <= r)))); put(10, 20, r, &[(7, a), (8, b)]);
        d = if r == 0 { St::Active } else { St::Ended(r) }; for (i, x) in [a, b].into_iter().enumerate() { s[i] = if x != 0 { St::Ended(x) } else { d } }
    }
    for i in 0..steps {
        if i > 0 { let step = sym::u32("blocks"); sym::assume(step < 1000); now += step; set_block(now) }
        match if i == 0 && from == 0 { from } else { sym::choose("operation", 0, 3) } {
            0 => { let l = subset("granted"); let p = AddProvider { authorized_msa_id: 20, schema_ids: l.clone(), expiration: 4900 }; sym::check(P::grant_delegation(signed(2), acct(1), sign(1, &p), p).is_ok(), "granted"); for (i, id) in [7, 8].iter().enumerate() { s[i] = if l.contains(id) { St::Active } else { end(s[i], now) } } d = St::Active; sym::cover("granted"); sym::check(events().last() == Some(&msa_ev(Event::DelegationGranted { delegator_id: DelegatorId(10), provider_id: ProviderId(20) })), "it is announced"); }
            k @ (1 | 2) => { let r = if k == 1 { P::revoke_delegation_by_delegator(signed(1), 20) } else { P::revoke_delegation_by_provider(signed(2), 10) }; sym::check(r.is_ok() == (d == St::Active), "an active delegation can be revoked by either side"); if r.is_err() { return } d = end(d, now); s = [end(s[0], now), end(s[1], now)]; sym::cover("revoked"); sym::check(events().last() == Some(&msa_ev(Event::DelegationRevoked { delegator_id: DelegatorId(10), provider_id: ProviderId(20) })), "it is announced"); }
            _ => { let l = subset("revoked schemas"); let ok = d != St::Never && [7u16, 8].iter().enumerate().all(|(i, id)| !l.contains(id) || s[i] != St::Never); let r = P::revoke_schema_permissions(signed(1), 20, l.clone()); sym::check(r.is_ok() == ok, "grants can be revoked one by one"); if !ok { return } for (i, id) in [7, 8].iter().enumerate() { if l.contains(id) { s[i] = end(s[i], now) } } sym::cover("grants revoked"); }
        }
    }
    let b = sym::u32("asked for"); sym::assume(b <= now);
    sym::check(P::ensure_valid_delegation(ProviderId(20), DelegatorId(10), Some(b)).is_ok() == at(d, b), "a delegation is valid until the block it was revoked in"); sym::check(P::ensure_valid_delegation(ProviderId(20), DelegatorId(10), None).is_ok() == at(d, now), "so it is for the current block");
    for (i, id) in [7, 8].iter().enumerate() { sym::check(P::ensure_valid_schema_grant(ProviderId(20), DelegatorId(10), *id, b).is_ok() == at(s[i], b), "a schema grant is valid until the block it, or the delegation, was revoked in, and again only once granted again") }
    sym::check(P::ensure_valid_schema_grant(ProviderId(20), DelegatorId(10), 9, b).is_err() && P::ensure_valid_delegation(ProviderId(10), DelegatorId(20), Some(b)).is_err(), "nothing else is granted");
}
sym::harnesses!{
fn m01_many() {
    // as many keys as the runtime allows
    set_block(10); let n = 25u8; unsafe { KEYS = n; SIGS = 200 } provider(1); key(200, 1); for i in 1..=n { if i == 1 { key(1, 10) } else { sym::check(add_key(1, i, 10).is_ok(), "a key can be added up to the limit") } } key(100, 11);
    sym::check(count(10) == n && add_key(1, 101, 10).is_err() && of(101).is_none(), "and not beyond it"); let x = sym::choose("removed", 1, n as u64) as u8; let by = if sym::bool("by the first") { 1 } else { n }; let c = Call::delete_msa_public_key { public_key_to_delete: acct(x) };
    let ok = x != by; sym::check(valid(by, &c) == ok, "any key can remove any other one"); if !ok { return } sym::check(P::delete_msa_public_key(signed(by), acct(x)).is_ok() && count(10) == n - 1, "removed"); sym::cover("removed"); let back = sym::bool("another added"); if back { sym::check(add_key(by, 102, 10).is_ok() && of(102) == Some(10) && count(10) == n, "another one can be added") }
    for i in 1..=n { sym::check(of(i) == if i == x { None } else { Some(10) }, "the others stay") } sym::check(of(100) == Some(11) && count(11) == 1, "as do those of other MSAs"); sym::check(!valid(by, &Call::retire_msa {}), "it is not retired with keys left");
}
fn m01_ids() {
    // whatever the ids of the MSAs
    set_block(10); let (a, b) = (sym::u64("MSA"), sym::u64("another MSA")); sym::assume(a != b); key(1, a); key(2, b); let m = if sym::bool("own") { a } else { b }; let r = add_key(1, 3, m); sym::check(r.is_ok() == (m == a), "a key is added to its own MSA only"); if r.is_err() { sym::cover("refused"); sym::check(of(3).is_none() && count(b) == 1, "nothing is added"); return }
    sym::check(of(3) == Some(a) && of(1) == Some(a) && of(2) == Some(b) && count(a) == 2 && count(b) == 1, "a key has exactly the MSA it was added to"); let t = sym::choose("target", 1, 3) as u8; let c = Call::delete_msa_public_key { public_key_to_delete: acct(t) }; sym::check(valid(3, &c) == (t == 1), "an MSA's key can remove another one of the same MSA"); if t != 1 { return }
    sym::check(P::delete_msa_public_key(signed(3), acct(1)).is_ok() && of(1).is_none() && of(3) == Some(a) && of(2) == Some(b) && count(a) == 1 && count(b) == 1, "removed"); sym::cover("removed"); sym::check(valid(3, &Call::retire_msa {}) && P::retire_msa(signed(3)).is_ok() && of(3).is_none() && count(a) == 0 && of(2) == Some(b) && count(b) == 1, "retired");
}
fn m01_two() { history(2) }
fn m01_three() { history(3) }
fn m03_query() {
    let (now, r, a, b, q) = (sym::u32("block"), sym::u32("revoked"), sym::u32("first revoked"), sym::u32("second revoked"), sym::u32("asked for")); sym::assume((r <= now) & (a <= now) & (b <= now)); set_block(now); let has = sym::bool("exists"); if has { put(10, 20, r, &[(7, a), (8, b)]) } put(10, 30, 0, &[(9, 0)]); put(11, 20, 0, &[(9, 0)]);
    let (p, d) = (ProviderId(20), DelegatorId(10)); let ok = has & (q <= now) & ((r == 0) | (q <= r)); sym::check(P::ensure_valid_delegation(p, d, Some(q)).is_ok() == ok, "a delegation is valid up to the block it was revoked in, and for no future block"); sym::check(P::ensure_valid_delegation(p, d, None).is_ok() == (has & ((r == 0) | (r == now))), "without a block, the current one is meant");
    let shown = P::get_granted_schemas_by_msa_id(d, Some(p)); sym::check(shown.is_ok() == has, "grants are listed for every delegation"); let all = P::get_granted_schemas_by_msa_id(d, None).unwrap(); sym::check(all.len() == 1 + has as usize, "all delegations are listed");
    for (i, (s, x)) in [(7u16, a), (8, b), (9, 0)].into_iter().enumerate() {
        let g = ok & (s != 9) & ((x == 0) | (q <= x)); sym::check(P::ensure_valid_schema_grant(p, d, s, q).is_ok() == g, "a schema grant is valid up to the block it, or its delegation, was revoked in");
        if let (Ok(v), true) = (&shown, i < 2) { let v = &v[0]; sym::check(v.provider_id == p && v.permissions.len() == 2 && v.permissions[i].schema_id == s, "each grant is listed"); let e = v.permissions[i].revoked_at; if q <= now { sym::check(((e == 0) | (q <= e)) == g, "with the block it ends in") } sym::check(all.iter().any(|o| o.provider_id == p && o.permissions[i].revoked_at == e), "in both listings"); sym::cover("listed") }
    }
}
fn m03_many() {
    // as many schemas as the runtime allows in one delegation
    let n = 30u16; unsafe { GRANTS = n as u32; LAST_SCHEMA = 100 } let now = 10; set_block(now); unsafe { WINDOW = 5000 } key(1, 10); key(2, 20); provider(20); let all: Vec<u16> = (7..7 + n).collect();
    let grant = |l: Vec<u16>| { let p = AddProvider { authorized_msa_id: 20, schema_ids: l, expiration: 4900 }; P::grant_delegation(signed(2), acct(1), sign(1, &p), p) }; sym::check(grant([all.clone(), vec![40]].concat()).is_err(), "no more than that"); let mut l = all.clone(); l.reverse(); sym::check(grant(l).is_ok(), "granted");
    let d = sym::u32("blocks"); sym::assume(d > 0 && d < 1000); let later = now + d; set_block(later); let a = [0, 1, 7, 15, 28, 29][sym::choose("from", 0, 5) as usize]; let k = [1, n as usize][sym::choose("number", 0, 1) as usize]; let gone: Vec<u16> = all[a..].iter().take(k).copied().collect(); let again = sym::bool("granted anew");
    if again { let l: Vec<u16> = all.iter().filter(|s| !gone.contains(s)).copied().collect(); sym::check(grant(l).is_ok(), "granted anew, without some") } else { sym::check(P::revoke_schema_permissions(signed(1), 20, gone.clone()).is_ok(), "revoked") } sym::cover("revoked"); set_block(later + 1);
    let q = if sym::bool("about before") { later } else { later + 1 }; for s in &all { sym::check(P::ensure_valid_schema_grant(ProviderId(20), DelegatorId(10), *s, q).is_ok() == (!gone.contains(s) | (q <= later)), "exactly those are") } sym::check(P::ensure_valid_schema_grant(ProviderId(20), DelegatorId(10), 40, later).is_err(), "nothing else is granted");
}
fn m03_ids() {
    // whatever the ids of the MSAs and schemas
    unsafe { LAST_SCHEMA = u16::MAX } set_block(10); let (d, p, q) = (sym::u64("delegator"), sym::u64("provider"), sym::u64("another")); sym::assume((d != p) & (p != q) & (d != q)); let (s, t) = (sym::u16("schema"), sym::u16("another schema")); sym::assume((s >= 7) & (t >= 7) & (s != t)); key(1, d); key(2, p); key(3, q); provider(p); provider(q);
    let g = AddProvider { authorized_msa_id: p, schema_ids: vec![s], expiration: 20 }; sym::check(P::grant_delegation(signed(2), acct(1), sign(1, &g), g).is_ok(), "granted"); let see = |pp: u64, dd: u64, ss: u16, b: u32| P::ensure_valid_schema_grant(ProviderId(pp), DelegatorId(dd), ss, b).is_ok(); let on = |pp: u64, dd: u64| P::ensure_valid_delegation(ProviderId(pp), DelegatorId(dd), None).is_ok();
    sym::check(see(p, d, s, 10) && !see(p, d, t, 10) && !see(q, d, s, 10) && !see(p, q, s, 10) && !see(d, p, s, 10) && on(p, d) && !on(q, d) && !on(p, q) && !on(d, p), "exactly that is granted"); set_block(11); let how = sym::choose("revoked", 0, 2);
    sym::check(match how { 0 => valid(1, &Call::revoke_delegation_by_delegator { provider_msa_id: p }) && P::revoke_delegation_by_delegator(signed(1), p).is_ok(), 1 => valid(2, &Call::revoke_delegation_by_provider { delegator: d }) && P::revoke_delegation_by_provider(signed(2), d).is_ok(), _ => P::revoke_schema_permissions(signed(1), p, vec![s]).is_ok() }, "revoked");
    set_block(12); sym::check(see(p, d, s, 10) && see(p, d, s, 11) && !see(p, d, s, 12), "until the block it was revoked in"); sym::check(on(p, d) == (how == 2), "so is the delegation"); sym::cover("revoked");
}
fn m03_two() { grants(2, 0) }
fn m03_step() { grants(1, 9) }
fn m03_t_two_steps() { grants(2, 9) }
fn m03_t_three() { grants(3, 0) }
fn m02_create() { ids(0) }
fn m02_sponsored() { ids(1) }
fn m02_t_four() { history(4) }
fn m04_two() { ring(2, 4) }
fn m04_three() { ring(3, 4) }
fn m04_twenty() {
    // a longer registry: every signature in it is found, the oldest is forgotten first
    let n = 20u32; unsafe { SIGS = n; WINDOW = 100 } set_block(10); let all: Vec<MultiSignature> = (0..n + 3).map(|i| sign(1, &i)).collect(); let sg = |i: u32| all[i as usize].clone(); for i in 0..n { sym::check(P::register_signature(&sg(i), 20 + i).is_ok(), "accepted") }
    let k = sym::choose("which", 0, n as u64) as u32; let now = sym::u32("block"); sym::assume((now >= 10) & (now < 1000)); set_block(now); if k < n { sym::check(P::register_signature(&sg(k), now + 1).is_err(), "a signature is accepted once only"); sym::cover("replay refused"); return }
    for j in 0..3 { let ok = now > 20 + j; sym::check(P::register_signature(&sg(n + j), now + 1 + j).is_ok() == ok, "when it is full, one is accepted for each that has expired"); if !ok { sym::cover("full"); return } } sym::cover("accepted"); let m = 3 + sym::choose("which left", 0, n as u64 - 1) as u32; sym::check(P::register_signature(&sg(m), now + 9).is_err(), "the others are still known");
}
fn m04_t_five() { let n = sym::choose("size", 2, 3) as u32; ring(n, 5) }
fn m04_sponsor() { replay(0) }
fn m04_grant() { replay(1) }
fn m04_add_key() { replay(2) }
fn m05_many() {
    // however many delegations there are, one that is active keeps the MSA
    set_block(100); key(1, 10); let n = 40u64; let i = sym::choose("active", 0, n) ; let r = sym::u32("revoked"); sym::assume(r <= 100); for k in 0..n { put(10, 20 + k, if k == i { r } else { 1 + k as u32 }, &[(7, 0)]) }
    let ok = i == n || (r > 0) & (r < 100); sym::check(valid(1, &Call::retire_msa {}) == ok, "an MSA can be retired exactly when none of its delegations is active"); if !ok { sym::cover("refused"); return } sym::check(P::retire_msa(signed(1)).is_ok(), "retired"); sym::cover("retired"); sym::check(of(1).is_none() && count(10) == 0, "it has no keys any more"); for k in 0..n { sym::check(P::ensure_valid_delegation(ProviderId(20 + k), DelegatorId(10), None).is_err(), "nobody can act for it") }
}
fn m05_retire() { may_retire() }
fn m05_after() {
    // whatever a retired MSA's key signed or was given before, nothing brings its MSA back
    set_block(10); key(1, 10); key(2, 20); key(3, 30); provider(20); put(10, 20, 5, &[(7, 0)]); CurrentMsaIdentifierMaximum::<Test>::put(100u64);
    let p = AddKeyData::<Test> { msa_id: 10, expiration: 20, new_public_key: acct(4) }; let (a, b) = (sign(1, &p), sign(4, &p)); let g = AddProvider { authorized_msa_id: 20, schema_ids: vec![7], expiration: 20 }; let gs = sign(1, &g);
    sym::check(valid(1, &Call::retire_msa {}) && P::retire_msa(signed(1)).is_ok(), "retired"); let again = sym::bool("a new MSA"); if again { sym::check(P::create(signed(1)).is_ok() && of(1) == Some(101), "the key may get another MSA") } else { sym::check(of(1).is_none(), "the key has no MSA") }
    match sym::choose("then", 0, 3) {
        0 => sym::check(P::add_public_key_to_msa(signed(3), acct(1), a, b, p).is_err(), "no key can be added to a retired MSA"), 1 => { let r = P::grant_delegation(signed(2), acct(1), gs, g); sym::check(r.is_ok() == again, "only a new MSA can delegate"); }
        2 => sym::check(!valid(1, &Call::revoke_delegation_by_delegator { provider_msa_id: 20 }) , "nothing is left to revoke"), _ => sym::check(!valid(1, &Call::delete_msa_public_key { public_key_to_delete: acct(1) }) && !valid(3, &Call::delete_msa_public_key { public_key_to_delete: acct(1) }), "its key cannot be removed again"),
    }
    sym::cover("refused"); sym::check(count(10) == 0 && P::ensure_valid_schema_grant(ProviderId(20), DelegatorId(10), 7, 10).is_err(), "the retired MSA has no keys and grants nothing");
}
fn m06_sponsor() { authority(0) }
fn m06_grant() { authority(1) }
fn m06_add_key() { authority(2) }
fn m06_schemas() {
    // which schemas can be granted: existing ones, at most three of them
    set_block(10); key(2, 20); provider(20); let kind = sym::bool("existing MSA"); if kind { key(1, 10) } let had = kind && sym::bool("has delegation"); if had { put(10, 20, 0, &[(7, 0)]) }
    let n = sym::choose("schemas", 0, 4) as usize; let mut l = vec![]; for i in 0..n { l.push(if i == 0 { sym::choose("id", 6, 10) as u16 } else { 7 + sym::choose("id", 0, 2) as u16 }) } let mut distinct = l.clone(); distinct.sort(); distinct.dedup(); let union = distinct.len() + (had && !l.contains(&7)) as usize;
    let ok = n <= 3 && l.iter().all(|s| *s >= 7 && *s <= 9) && union <= 3; let p = AddProvider { authorized_msa_id: 20, schema_ids: l.clone(), expiration: 20 }; let r = if kind { P::grant_delegation(signed(2), acct(1), sign(1, &p), p) } else { P::create_sponsored_account_with_delegation(signed(2), acct(1), sign(1, &p), p) };
    sym::check(r.is_ok() == ok, "existing schemas, up to the limit, can be granted"); if !ok { sym::cover("refused"); return } sym::cover("granted"); for s in 7..10u16 { sym::check(P::ensure_valid_schema_grant(ProviderId(20), DelegatorId(of(1).unwrap()), s, 10).is_ok() == (l.contains(&s) || (had && s == 7)), "exactly these are granted") }
}
fn m07_delegator() { free_revoke(false) }
fn m07_provider() { free_revoke(true) }
fn m07_key() {
    let own = |n: &str| match sym::choose(n, 0, 2) { 0 => None, 1 => Some(10u64), _ => Some(11) }; let (a, b) = (own("signer's"), own("target's")); if let Some(m) = a { key(1, m) } if let Some(m) = b { key(2, m) } key(3, 10); key(4, 11); let t = sym::choose("target", 1, 2) as u8; let c = Call::delete_msa_public_key { public_key_to_delete: acct(t) };
    let ok = t == 2 && a.is_some() && a == b; sym::check(valid(1, &c) == ok, "a key can be removed by another one of the same MSA"); if !ok { sym::cover("invalid"); return } let m = a.unwrap(); let n = count(m); sym::check(P::delete_msa_public_key(signed(1), acct(2)).is_ok(), "and then it is removed"); sym::cover("valid"); sym::check(of(1) == a && of(2).is_none() && of(3) == Some(10) && of(4) == Some(11) && count(m) == n - 1 && count(21 - m) == 1, "and only it");
}
fn m07_other() {
    set_block(10); for c in [Call::create {}, Call::create_provider { provider_name: vec![1] }, Call::revoke_schema_permissions { provider_msa_id: 1, schema_ids: vec![1] }, Call::propose_to_be_provider { provider_name: vec![1] }, Call::create_provider_via_governance { provider_key: acct(1), provider_name: vec![1] }] { sym::check(valid(1, &c), "calls that are paid for are not restricted") } sym::check(X::new().validate(&acct(1), &RuntimeCall::System(frame_system::Call::remark { remark: vec![] }), &DispatchInfo::default(), 0).is_ok(), "nor are those of other pallets"); sym::cover("valid");
}
fn m08_two() { index(2, false) }
fn m08_gap() { gap() }
fn m08_many() {
    // hundreds of changes in one block
    use frame_support::traits::Hooks; unsafe { KEYS = 255; SIGS = 500 } set_block(1); P::on_initialize(1); sp_runtime::offchain::http::sim_answer(Some((200, answer(1)))); P::offchain_worker(1); set_block(2); P::on_initialize(2);
    for k in 1..=150u8 { sym::check(P::create(signed(k)).is_ok(), "created") } for k in 151..=255u8 { sym::check(add_key(1, k, 1).is_ok(), "added") } let d = sym::choose("removed", 1, 20) as u8; for k in 0..d { sym::check(P::delete_msa_public_key(signed(1), acct(255 - k)).is_ok(), "removed") } sym::check(P::retire_msa(signed(77)).is_ok(), "retired");
    sp_runtime::offchain::http::sim_answer(Some((200, answer(2)))); P::offchain_worker(2); sym::cover("indexed"); let mut want: Vec<AccountId32> = [1u8].into_iter().chain(151..=255 - d).map(acct).collect(); want.sort(); sym::check(indexed(1) == want, "the index lists exactly the keys of each MSA"); for k in 2..=150u8 { sym::check(indexed(k as u64) == if k == 77 { vec![] } else { vec![acct(k)] }, "the index lists exactly the keys of each MSA") }
}
fn m08_late() { index(2, true) }
fn m08_t_three() { index(3, false) }
fn m08_answers() {
    // whatever the node answers, the worker neither fails nor indexes without a finalized block
    set_block(10); P::add_key(10, &acct(1), EMPTY_FUNCTION).expect("set up"); let code = sym::u16("code"); let a = ["", "{", "{\"result\":5}", "{\"result\":\"0xzz\"}", "{\"result\":\"0x0102\"}", "{\"other\":\"\"}", "{\"result\":\"\"}"]; let k = sym::choose("answer", 0, 8) as usize;
    let ok = if k == 7 { sp_runtime::offchain::http::sim_answer(None); false } else if k == 8 { sp_runtime::offchain::http::sim_answer(Some((code, answer(10)))); code == 200 } else { sp_runtime::offchain::http::sim_answer(Some((code, a[k].as_bytes().to_vec()))); false };
    offchain_storage::do_offchain_worker::<Test>(10); sym::check((indexed(10) == vec![acct(1)]) == ok, "keys are indexed once a finalized block is known, not before"); if ok { sym::cover("indexed") } else { sym::cover("not indexed") }
}
fn m09_create() { registering(false) }
fn m09_governance() { registering(true) }
fn m09_propose() {
    let has = sym::bool("has MSA"); if has { key(1, 10) } let n = sym::choose("name", 0, 4) as usize; let v = sym::byte_vec("n", n); let who = sym::choose("sender", 0, 2); let o = match who { 0 => signed(1), 1 => root(), _ => none() }; let r = P::propose_to_be_provider(o, v.clone()); let ok = who == 0 && has && n <= 3; sym::check(r.is_ok() == ok, "a key with an MSA can propose it as a provider");
    if ok { sym::cover("proposed"); sym::check(unsafe { PROPOSED.clone() } == Some((acct(1), 1, RuntimeCall::Msa(Call::create_provider_via_governance { provider_key: acct(1), provider_name: v }))), "for one vote of the council on just that") } else { sym::cover("refused"); sym::check(unsafe { PROPOSED.is_none() }, "nothing is proposed") } sym::check(!P::is_registered_provider(10), "proposing does not register");
}
}
fn ids(kind: u8) {
    // whatever identifier was the latest one
    set_block(10); key(9, 1); provider(1); let last = sym::u64("latest identifier"); CurrentMsaIdentifierMaximum::<Test>::put(last); if last < 9 { return } let r = if kind == 0 { P::create(signed(1)) } else { sponsor(9, 1, 1, vec![7]) };
    sym::check(r.is_ok() == (last < u64::MAX), "identifiers are issued until they run out"); if r.is_err() { sym::cover("out of identifiers"); return } sym::cover("created"); let m = of(1); sym::check(m == Some(last + 1) && CurrentMsaIdentifierMaximum::<Test>::get() == last + 1, "the next identifier is issued and never again"); sym::check(count(last + 1) == 1, "it has one key");
    if kind == 1 { sym::check(P::ensure_valid_schema_grant(ProviderId(1), DelegatorId(last + 1), 7, 10).is_ok(), "what was asked for is granted"); let e = events(); sym::check(e.len() >= 2 && e[e.len() - 2] == msa_ev(Event::MsaCreated { msa_id: last + 1, key: acct(1) }) && e[e.len() - 1] == msa_ev(Event::DelegationGranted { delegator_id: DelegatorId(last + 1), provider_id: ProviderId(1) }), "it is announced") }
    let r = P::create(signed(2)); if last < u64::MAX - 1 { sym::check(r.is_ok() && of(2) == Some(last + 2), "two MSAs never get one identifier") }
}
// ---- M04: the registry of used signatures
fn ring(size: u32, steps: usize) {
    unsafe { SIGS = size } let mut now = sym::u32("block"); let w = sym::u32("window"); sym::assume((now < 1 << 30) & (w < 1 << 30)); unsafe { WINDOW = w } set_block(now); let mut seen: Vec<(MultiSignature, u32)> = vec![];
    for i in 0..steps {
        if i > 0 { let d = sym::u32("blocks"); sym::assume(d < 1 << 24); now += d; set_block(now) }
        let old = sym::choose("which", 0, seen.len() as u64) as usize; if old < seen.len() { let (s, e) = seen[old].clone(); sym::check(P::register_signature(&s, e).is_err(), "a signature is accepted once only"); sym::cover("replay refused"); return }
        let s = sign(1, &(i as u32)); let e = sym::u32("expiration"); let full = seen.len() >= size as usize; let ok = (now < e) & (e < now + w) & (!full || seen[seen.len() - size as usize].1 < now);
        let r = P::register_signature(&s, e); sym::check(r.is_ok() == ok, "a signature is accepted exactly inside its window, unless the registry is full of unexpired ones"); if r.is_err() { sym::cover("refused"); return } seen.push((s, e)); sym::cover("accepted"); if full { sym::cover("an expired one forgotten") }
    }
}
fn replay(kind: u8) {
    // a call that was accepted on a signature is not accepted on it again, at any later block and whatever was undone in between
    set_block(10); key(2, 20); key(9, 1); provider(20); CurrentMsaIdentifierMaximum::<Test>::put(100u64); if kind > 0 { key(1, 10) } let e = sym::u32("expiration"); let g = AddProvider { authorized_msa_id: 20, schema_ids: vec![7], expiration: e }; let k = AddKeyData::<Test> { msa_id: 10, expiration: e, new_public_key: acct(4) }; let s = if kind == 2 { (sign(1, &k), sign(4, &k)) } else { let s = sign(1, &g); (s.clone(), s) };
    let f = |half: u8| match kind { 0 => P::create_sponsored_account_with_delegation(signed(2), acct(1), s.0.clone(), g.clone()), 1 => P::grant_delegation(signed(2), acct(1), s.0.clone(), g.clone()), _ => P::add_public_key_to_msa(signed(3), acct(1), if half == 1 { sign(1, &k) } else { s.0.clone() }, if half == 2 { sign(4, &k) } else { s.1.clone() }, k.clone()) };
    if f(0).is_err() { sym::cover("outside its window"); return } let now = sym::u32("block"); sym::assume((now >= 10) & (now < u32::MAX - 200)); set_block(now);
    if sym::bool("undone") { match kind { 0 => { sym::check(P::revoke_delegation_by_delegator(signed(1), 20).is_ok(), "revoked"); P::delete_key_for_msa(101, &acct(1)).expect("undo") }, 1 => sym::check(P::revoke_delegation_by_delegator(signed(1), 20).is_ok(), "revoked"), _ => sym::check(P::delete_msa_public_key(signed(1), acct(4)).is_ok(), "removed") } }
    let half = if kind == 2 { sym::choose("half", 0, 2) as u8 } else { 0 }; sym::check(f(half).is_err(), "a signature is accepted once only"); sym::cover("replay refused");
}
// ---- M05: retirement
fn may_retire() {
    let now = sym::u32("block"); sym::assume(now > 0); set_block(now); let is = sym::bool("has MSA"); if is { key(1, 10) } key(2, 11); let two = is && sym::bool("second key"); if two { key(3, 10) } let prov = sym::bool("provider"); if prov { provider(10) } provider(20); let name = sym::choose("handle of", 9, 11); unsafe { HANDLE = if name == 9 { None } else { Some(name) } }
    let n = sym::choose("delegations", 0, 2); let mut live = false; for i in 0..n { let r = sym::u32("revoked"); sym::assume(r <= now); if sym::bool("schemas") { put(10, 20 + i, r, &[(7, 0)]) } else { put(10, 20 + i, r, &[]) } live |= (r == 0) | (r == now) } put(11, 20, 0, &[(7, 0)]);
    let ok = is && !two && !prov && name != 10 && !live; sym::check(valid(1, &Call::retire_msa {}) == ok, "an MSA can be retired exactly by its only key, when it is no provider, holds no handle and has no active delegation"); if !ok { sym::cover("refused"); return }
    sym::check(P::retire_msa(signed(1)).is_ok(), "retired"); sym::cover("retired"); sym::check(of(1).is_none() && count(10) == 0 && P::ensure_msa_owner(&acct(1), 10).is_err(), "it has no keys any more"); sym::check(of(2) == Some(11) && count(11) == 1 && deleg(11, 20).is_some(), "and no other MSA is touched"); for i in 0..n { sym::check(P::ensure_valid_delegation(ProviderId(20 + i), DelegatorId(10), None).is_err(), "nobody can act for it") }
    let e = events(); sym::check(e.len() >= 2 && e[e.len() - 2] == msa_ev(Event::PublicKeyDeleted { key: acct(1) }) && e[e.len() - 1] == msa_ev(Event::MsaRetired { msa_id: 10 }), "both are announced");
}
// ---- M06: who has to agree to what
fn authority(kind: u8) {
    let (now, w, e) = (sym::u32("block"), sym::u32("window"), sym::u32("expiration")); sym::assume(now.checked_add(w).is_some()); set_block(now); unsafe { WINDOW = w } CurrentMsaIdentifierMaximum::<Test>::put(100u64);
    let by = sym::choose("signed by", 1, 2) as u8; let (id, sid, se) = (sym::u64("id"), sym::u64("signed id"), sym::u32("signed expiration")); let raw = sym::bool("not wrapped"); let who = sym::choose("sender", 0, 3); let o = match who { 0 => signed(2), 1 => root(), 2 => none(), _ => signed(3) };
    let sg = |k: u8, p: Vec<u8>| if raw { sp_runtime::sim_sign(&acct(k), &p) } else { sp_runtime::sim_sign(&acct(k), &wrap(p)) }; let in_time = (now < e) & (e < now + w) & (se == e) & (sid == id);
    if kind == 2 {
        let has = sym::bool("has MSA"); if has { key(1, 10) } let used = sym::bool("new key in use"); if used { key(4, 11) } let (by2, sk) = (if sym::bool("new key signs") { 4 } else { 1 }, if sym::bool("same key signed") { 4 } else { 5 });
        let p = AddKeyData::<Test> { msa_id: id, expiration: e, new_public_key: acct(4) }; let sp = AddKeyData::<Test> { msa_id: sid, expiration: se, new_public_key: acct(sk) }; let ok = who != 1 && who != 2 && by == 1 && by2 == 4 && sk == 4 && !raw && in_time && id == 10 && has && !used;
        let r = P::add_public_key_to_msa(o, acct(1), sg(by, sp.encode()), sg(by2, p.encode()), p); sym::check(r.is_ok() == ok, "a key is added exactly on the signatures of a key of the MSA and of the key itself over this payload"); if ok { sym::cover("accepted"); sym::check(of(4) == Some(10) && of(1) == Some(10) && count(10) == 2, "and the key is added") } else { sym::cover("refused") } return
    }
    let (pm, pr, dm) = (sym::bool("sender has MSA"), sym::bool("provider"), sym::choose("delegator", 0, 2)); if pm { key(2, 20) } key(3, 30); if pr { provider(20) } let own = match dm { 0 => None, 1 => Some(10u64), _ => Some(20) }; if let Some(m) = own { key(1, m) }
    let p = AddProvider { authorized_msa_id: id, schema_ids: vec![7], expiration: e }; let sl = if sym::bool("other schemas signed") { vec![8] } else { vec![7] }; let sp = AddProvider { authorized_msa_id: sid, schema_ids: sl.clone(), expiration: se }; let s = sg(by, sp.encode());
    let ok = who == 0 && by == 1 && !raw && sl == [7] && in_time && pm && pr && id == 20 && if kind == 0 { own.is_none() } else { own == Some(10) };
    let r = if kind == 0 { P::create_sponsored_account_with_delegation(o, acct(1), s, p) } else { P::grant_delegation(o, acct(1), s, p) }; sym::check(r.is_ok() == ok, "an MSA delegates exactly on its key's signature, to the registered provider named in it, which submits it, for the schemas named in it"); if !ok { sym::cover("refused"); return }
    sym::cover("accepted"); let m = of(1).unwrap(); sym::check(m == if kind == 0 { 101 } else { 10 }, "the key keeps or gets its MSA"); sym::check(P::ensure_valid_schema_grant(ProviderId(20), DelegatorId(m), 7, now).is_ok() && P::ensure_valid_schema_grant(ProviderId(20), DelegatorId(m), 8, now).is_err() && P::ensure_valid_delegation(ProviderId(30), DelegatorId(m), None).is_err(), "exactly that is granted");
}
// ---- M07: free calls
fn free_revoke(by_provider: bool) {
    let now = sym::u32("block"); sym::assume(now > 0); set_block(now); let is = sym::bool("has MSA"); if is { key(1, if by_provider { 20 } else { 10 }) } key(2, if by_provider { 10 } else { 20 }); let has = sym::bool("delegation"); let r = sym::u32("revoked"); sym::assume(r <= now); if has { match sym::choose("schemas", 0, 2) { 0 => put(10, 20, r, &[]), 1 => put(10, 20, r, &[(7, 0)]), _ => put(10, 20, r, &[(7, sym::u32("schema revoked")), (8, 0)]) } } put(10, 30, 0, &[(7, 0)]); put(30, 20, 0, &[(7, 0)]); put(20, 10, 0, &[(7, 0)]);
    let other = sym::u64("named"); let there = other == if by_provider { 10 } else { 20 }; sym::assume(there | (other > 30)); let c = if by_provider { Call::revoke_delegation_by_provider { delegator: other } } else { Call::revoke_delegation_by_delegator { provider_msa_id: other } };
    let ok = is && has && there && r == 0; sym::check(valid(1, &c) == ok, "a free revocation gets into a block exactly when there is something to revoke"); if !ok { sym::cover("invalid"); return }
    let r = if by_provider { P::revoke_delegation_by_provider(signed(1), other) } else { P::revoke_delegation_by_delegator(signed(1), other) }; sym::check(r.is_ok() && deleg(10, 20).unwrap().revoked_at == now, "and then it is revoked"); sym::cover("valid"); for (d, p) in [(10, 30), (30, 20), (20, 10)] { sym::check(deleg(d, p).unwrap().revoked_at == 0, "and no other is") }
}
// ---- M09: providers
fn registering(gov: bool) {
    let has = sym::bool("has MSA"); if has { key(1, 10) } let old = [None, Some(vec![65u8]), Some(vec![]), Some(vec![65, 66, 67])][sym::choose("registered as", 0, 3) as usize].clone(); let was = old.is_some(); if let Some(w) = &old { P::create_registered_provider(ProviderId(10), BoundedVec::try_from(w.clone()).unwrap()).expect("set up") } let n = sym::choose("name", 0, 4) as usize; let v = sym::byte_vec("n", n); let who = sym::choose("sender", 0, 2); let o = match who { 0 => signed(1), 1 => root(), _ => none() };
    let r = if gov { P::create_provider_via_governance(o, acct(1), v.clone()) } else { P::create_provider(o, v.clone()) }; let ok = who == gov as u64 && has && !was && n <= 3; sym::check(r.is_ok() == ok, "an MSA is registered as a provider once, by the right origin, with a name of bounded length"); if !ok { sym::cover("refused"); sym::check(P::get_provider_registry_entry(ProviderId(10)).map(|e| e.provider_name.to_vec()) == old, "its name stays"); return }
    sym::cover("registered"); sym::check(P::is_registered_provider(10) && P::get_provider_registry_entry(ProviderId(10)).unwrap().provider_name.to_vec() == v && <P as TargetValidator>::validate(10), "it is a provider with that name"); sym::check(!P::is_registered_provider(11) && !<P as TargetValidator>::validate(11), "no other is"); sym::check(events().last() == Some(&msa_ev(Event::ProviderCreated { provider_id: ProviderId(10) })), "it is announced");
}
// ---- M08: the off-chain index of the keys of an MSA
fn answer(block: u32) -> Vec<u8> { let h = frame_system::Pallet::<Test>::block_hash(block); let mut s = String::from("{\"jsonrpc\":\"2.0\",\"result\":\"0x"); for b in h.encode() { for n in [b >> 4, b & 15] { s.push((if n < 10 { b'0' + n } else { b'a' + n - 10 }) as char) } } s.push_str("\",\"id\":10}"); s.into_bytes() }
fn indexed(m: u64) -> Vec<AccountId32> { let mut v = common_primitives::offchain::get_index_value::<Vec<AccountId32>>(&common_primitives::offchain::get_msa_account_storage_key_name(m)).unwrap().unwrap_or_default(); v.sort(); v }
fn pallet_msa_reorder() { for k in [1u8, 3] { if let Some(m) = PublicKeyToMsaId::<Test>::get(acct(k)) { PublicKeyToMsaId::<Test>::remove(acct(k)); PublicKeyToMsaId::<Test>::insert(acct(k), m) } } }
/// a finalized block becomes known only after many that are not: nothing between is lost
fn gap() {
    use frame_support::traits::Hooks; key(1, 10); key(2, 10); CurrentMsaIdentifierMaximum::<Test>::put(100u64); let n = [5u32, 6, 12][sym::choose("blocks", 0, 2) as usize]; let at = sym::choose("change in", 2, n as u64) as u32; let what = sym::choose("change", 0, 2); let down = sym::bool("worker off"); let fails = sym::bool("no answer");
    for b in 1..=n { set_block(b); P::on_initialize(b); if b == at { match what { 0 => sym::check(P::create(signed(4)).is_ok(), "created"), 1 => sym::check(add_key(1, 5, 10).is_ok(), "added"), _ => sym::check(valid(1, &Call::delete_msa_public_key { public_key_to_delete: acct(2) }) && P::delete_msa_public_key(signed(1), acct(2)).is_ok(), "removed") } }
        if b == 1 || b == n { sp_runtime::offchain::http::sim_answer(Some((200, answer(b)))); P::offchain_worker(b) } else if !down { sp_runtime::offchain::http::sim_answer(if fails { None } else { Some((200, answer(1))) }); P::offchain_worker(b) } }
    for m in [10, 101] { let mut k: Vec<AccountId32> = (1..6u8).map(acct).filter(|a| P::get_msa_by_public_key(a) == Some(m)).collect(); k.sort(); sym::check(indexed(m) == k, "the index lists exactly the keys of each MSA") } sym::cover("indexed");
}
fn index(blocks: u32, late: bool) {
    use frame_support::traits::Hooks;
    key(1, 10); key(2, 10); key(3, 11); CurrentMsaIdentifierMaximum::<Test>::put(100u64); let mut fin: u64 = 0;
    let keys = |m: u64| -> Vec<AccountId32> { (1..6u8).map(acct).filter(|a| P::get_msa_by_public_key(a) == Some(m)).collect() };
    for b in 1..=blocks {
        set_block(b); P::on_initialize(b); let n = if b == 1 || late { 2 } else { 1 };
        for _ in 0..n { match sym::choose("operation", 0, 5) {
            0 => {} 1 => if P::create(signed(4)).is_err() { return }, 2 => if add_key(1, 5, 10).is_err() { return }, 3 => if add_key(3, 5, 11).is_err() { return },
            4 => { let t = if sym::bool("fifth") { 5 } else { 2 }; let c = Call::delete_msa_public_key { public_key_to_delete: acct(t) }; if !valid(1, &c) { return } sym::check(P::delete_msa_public_key(signed(1), acct(t)).is_ok(), "removed") }
            _ => { if !valid(3, &Call::retire_msa {}) { return } sym::check(P::retire_msa(signed(3)).is_ok(), "retired") }
        } }
        // the node goes through the keys in any order
        if b == 1 && !late && sym::bool("order") { pallet_msa_reorder() }
        if b < blocks && (late || b > 1) && sym::bool("not known") { sp_runtime::offchain::http::sim_answer(None); P::offchain_worker(b); sym::cover("no finalized block known"); continue }
        fin = if b == blocks { b as u64 } else { sym::choose("finalized", fin.max(1), b as u64) }; sp_runtime::offchain::http::sim_answer(Some((200, answer(fin as u32)))); P::offchain_worker(b);
    }
    let (mut events, mut counted) = (0u64, 0u64); for (k, v) in sp_io::offchain_db().iter() { if k.starts_with(b"frequency::block_event::msa::count::") { counted += u16::from_le_bytes([v[0], v[1]]) as u64 } else if k.starts_with(b"frequency::block_event::msa::") { events += 1 } } sym::check(events == counted, "blocks that have been processed leave no events behind");
    for m in [10, 11, 101] { sym::check(indexed(m) == keys(m), "once all blocks are finalized, the index lists exactly the keys of each MSA") } sym::cover("indexed");
}
