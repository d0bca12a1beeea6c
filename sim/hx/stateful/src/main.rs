//! pallet-stateful-storage: S01..S05
#![allow(static_mut_refs, deprecated)]
use common_primitives::{msa::*, schema::*, stateful_storage::*};
use frame_support::{dispatch::DispatchResult, traits::Get, BoundedVec};
use pallet_stateful_storage::{types::*, *};
use parity_scale_codec::Encode;
use rt::{acct, signed, AccountId32};
use sp_runtime::{DispatchError, MultiSignature};
rt::runtime! { Stateful: pallet_stateful_storage }
macro_rules! max { ($n:ident, $t:ty, $v:expr) => { #[derive(Clone, Debug, PartialEq, Eq, Default, parity_scale_codec::Encode)] pub struct $n; impl Get<$t> for $n { fn get() -> $t { $v } } impl parity_scale_codec::MaxEncodedLen for $n { fn max_encoded_len() -> usize { 0 } } } }
static mut SIZES: (u32, u32, u32, u32) = (14, 6, 3, 3); max!(MaxI, u32, unsafe { SIZES.0 }); max!(MaxP, u32, unsafe { SIZES.1 }); max!(MaxB, u32, unsafe { SIZES.2 }); max!(MaxA, u32, unsafe { SIZES.3 }); max!(MaxId, u16, unsafe { MAX_ID }); max!(Window, u32, unsafe { WINDOW });
static mut MAX_ID: u16 = 0; static mut WINDOW: u32 = 0;
static mut MSAS: [Option<u64>; 2] = [None; 2];
#[derive(Clone, Copy)] struct Sch { id: u16, loc: PayloadLocation, append: bool, sig: bool }
static mut SCHEMA: Vec<Sch> = Vec::new();
static mut GRANT: bool = false; static mut ASKED: Vec<(u64, u64, u16, u32)> = Vec::new();
pub struct Msa;
impl MsaLookup for Msa { type AccountId = AccountId32; fn get_msa_id(k: &AccountId32) -> Option<u64> { unsafe { if *k == acct(1) { MSAS[0] } else if *k == acct(2) { MSAS[1] } else { None } } } }
impl MsaValidator for Msa { type AccountId = AccountId32; fn ensure_valid_msa_key(k: &AccountId32) -> Result<u64, DispatchError> { Msa::get_msa_id(k).ok_or(DispatchError::Other("no msa")) } }
pub struct Grants; impl SchemaGrantValidator<u32> for Grants { fn ensure_valid_schema_grant(p: ProviderId, d: DelegatorId, s: u16, b: u32) -> DispatchResult { unsafe { ASKED.push((p.0, d.0, s, b)); if GRANT { Ok(()) } else { Err(DispatchError::Other("no grant")) } } } }
pub struct Schemas; impl SchemaProvider<u16> for Schemas {
    fn get_schema_by_id(s: u16) -> Option<SchemaResponse> { Self::get_schema_info_by_id(s).map(|i| SchemaResponse { schema_id: i.schema_id, model: vec![], model_type: i.model_type, payload_location: i.payload_location, settings: i.settings }) }
    fn get_schema_info_by_id(s: u16) -> Option<SchemaInfoResponse> { for c in unsafe { SCHEMA.iter() } { if c.id == s { let mut v = vec![]; if c.append { v.push(SchemaSetting::AppendOnly) } if c.sig { v.push(SchemaSetting::SignatureRequired) } return Some(SchemaInfoResponse { schema_id: s, model_type: ModelType::AvroBinary, payload_location: c.loc, settings: v }) } } None }
}
pub struct Same; impl sp_runtime::traits::Convert<AccountId32, AccountId32> for Same { fn convert(a: AccountId32) -> AccountId32 { a } }
impl Config for Test {
    type RuntimeEvent = RuntimeEvent; type WeightInfo = (); type MsaInfoProvider = Msa; type SchemaGrantValidator = Grants; type SchemaProvider = Schemas;
    type MaxItemizedPageSizeBytes = MaxI; type MaxPaginatedPageSizeBytes = MaxP; type MaxItemizedBlobSizeBytes = MaxB; type MaxPaginatedPageId = MaxId; type MaxItemizedActionsCount = MaxA;
    type KeyHasher = frame_support::Twox128; type ConvertIntoAccountId32 = Same; type MortalityWindowSize = Window;
}
type P = Pallet<Test>; type Act = ItemAction<MaxB>; type Page_ = PaginatedPage<Test>; type IPage = ItemizedPage<Test>;
const OWNER: u64 = 5; const PAG: u16 = 7; const ITM: u16 = 8;
// xxhash is an arbitrary function of the bytes fed to it
static mut HASHED: Vec<(Vec<u8>, u64)> = Vec::new();
fn oracle(_seed: u64, s: &[u8]) -> u64 { unsafe { for (t, h) in HASHED.iter() { if sym::same_bytes(t, s) { return *h } } let h = sym::u64("hash"); HASHED.push((s.to_vec(), h)); h } }
fn world() { twox_hash::set_oracle(oracle); unsafe { MAX_ID = 4; WINDOW = 100; MSAS = [Some(OWNER), None]; SCHEMA = vec![Sch { id: PAG, loc: PayloadLocation::Paginated, append: false, sig: false }, Sch { id: ITM, loc: PayloadLocation::Itemized, append: false, sig: false }] } set_block(10); }
fn bv<M: Get<u32>>(v: &[u8]) -> BoundedVec<u8, M> { BoundedVec::try_from(v.to_vec()).unwrap() }
fn acts(v: Vec<Act>) -> BoundedVec<Act, MaxA> { BoundedVec::try_from(v).unwrap() }
fn add(d: &[u8]) -> Act { ItemAction::Add { data: bv(d) } }
fn read_p(m: u64, s: u16) -> Vec<(u16, u32, u16, Vec<u8>)> { P::get_paginated_storage(m, s).expect("readable").iter().map(|r| { sym::check(r.msa_id == m && r.schema_id == s, "a page is listed under its owner and schema"); (r.page_id, r.content_hash, r.nonce, r.payload.clone()) }).collect() }
fn read_i(m: u64, s: u16) -> (u32, u16, Vec<Vec<u8>>) { let r = P::get_itemized_storage(m, s).expect("readable"); let mut v = vec![]; for (k, i) in r.items.iter().enumerate() { sym::check(i.index as usize == k, "items are numbered from 0"); v.push(i.payload.clone()) } (r.content_hash, r.nonce, v) }
/// puts a page with any nonce into storage (through the pallet, then with its nonce replaced)
fn put_p(m: u64, s: u16, id: u16, page: &Page_) {
    let was = unsafe { (MSAS, frame_support::storage::child::sim_child().len()) }; unsafe { MSAS = [Some(m), None] }
    P::upsert_page(signed(1), m, s, id, 0, bv(b"x")).expect("set up"); let t = frame_support::storage::child::sim_child(); let n = t.len(); assert!(n == was.1 + 1); t[n - 1].2 = page.encode(); unsafe { MSAS = was.0 } rt_clear();
}
fn put_i(m: u64, s: u16, page: &IPage) {
    let was = unsafe { (MSAS, frame_support::storage::child::sim_child().len()) }; unsafe { MSAS = [Some(m), None] }
    P::apply_item_actions(signed(1), m, s, 0, acts(vec![add(b"x")])).expect("set up"); let t = frame_support::storage::child::sim_child(); let n = t.len(); assert!(n == was.1 + 1); t[n - 1].2 = page.encode(); unsafe { MSAS = was.0 } rt_clear();
}
fn rt_clear() { unsafe { NEV = events().len(); ASKED = Vec::new(); } }
static mut NEV: usize = 0;
fn new_events() -> Vec<RuntimeEvent> { events()[unsafe { NEV }..].to_vec() }
fn blob(n: &str, lo: u64, hi: u64) -> Vec<u8> { let l = sym::choose("length", lo, hi); sym::byte_vec(n, l as usize) }
fn items(v: &[Vec<u8>]) -> Vec<u8> { let mut o = vec![]; for i in v { o.push(i.len() as u8); o.push((i.len() >> 8) as u8); o.extend(i.iter()) } o }
/// the documented way a wallet signs: over the payload inside <Bytes> tags
fn sign<E: Encode>(who: u8, p: &E) -> MultiSignature { let m = [b"<Bytes>".to_vec(), p.encode(), b"</Bytes>".to_vec()].concat(); sp_runtime::sim_sign(&acct(who), &m) }
#[derive(Clone, Copy, PartialEq)] enum How { Own, V1, V2 }
fn how() -> How { match sym::choose("form", 0, 2) { 0 => How::Own, 1 => How::V1, _ => How::V2 } }
// the three operations of the owner of MSA 5, as an own transaction or signed by them (and sent by account 3)
fn do_items(h: How, s: u16, hash: u32, a: Vec<Act>) -> DispatchResult { let a = acts(a); match h {
    How::Own => P::apply_item_actions(signed(1), OWNER, s, hash, a),
    How::V1 => { let p = ItemizedSignaturePayload::<Test> { msa_id: OWNER, schema_id: s, target_hash: hash, expiration: 20, actions: a }; P::apply_item_actions_with_signature(signed(3), acct(1), sign(1, &p), p) }
    How::V2 => { let p = ItemizedSignaturePayloadV2::<Test> { schema_id: s, target_hash: hash, expiration: 20, actions: a }; P::apply_item_actions_with_signature_v2(signed(3), acct(1), sign(1, &p), p) } } }
fn do_upsert(h: How, s: u16, id: u16, hash: u32, d: &[u8]) -> DispatchResult { match h {
    How::Own => P::upsert_page(signed(1), OWNER, s, id, hash, bv(d)),
    How::V1 => { let p = PaginatedUpsertSignaturePayload::<Test> { msa_id: OWNER, schema_id: s, page_id: id, target_hash: hash, expiration: 20, payload: bv(d) }; P::upsert_page_with_signature(signed(3), acct(1), sign(1, &p), p) }
    How::V2 => { let p = PaginatedUpsertSignaturePayloadV2::<Test> { schema_id: s, page_id: id, target_hash: hash, expiration: 20, payload: bv(d) }; P::upsert_page_with_signature_v2(signed(3), acct(1), sign(1, &p), p) } } }
fn do_delete(h: How, s: u16, id: u16, hash: u32) -> DispatchResult { match h {
    How::Own => P::delete_page(signed(1), OWNER, s, id, hash),
    How::V1 => { let p = PaginatedDeleteSignaturePayload::<Test> { msa_id: OWNER, schema_id: s, page_id: id, target_hash: hash, expiration: 20 }; P::delete_page_with_signature(signed(3), acct(1), sign(1, &p), p) }
    How::V2 => { let p = PaginatedDeleteSignaturePayloadV2::<Test> { schema_id: s, page_id: id, target_hash: hash, expiration: 20 }; P::delete_page_with_signature_v2(signed(3), acct(1), sign(1, &p), p) } } }
sym::harnesses!{
fn s01_hash() {
    // two pages: the hash function is fed different bytes unless they have the same nonce and content; an empty page hashes to 0
    world(); let mk = |n: &str| Page_ { nonce: sym::u16(n), data: bv(&blob(n, 0, 3)) }; let (a, b) = (mk("a"), mk("b")); let (x, y) = (a.get_hash(), b.get_hash());
    if a.data.is_empty() { sym::check(x == 0, "an empty page hashes to 0") }
    if a.data.is_empty() || b.data.is_empty() { return }
    let n = unsafe { HASHED.len() }; let same = a.nonce == b.nonce && sym::same_bytes(&a.data, &b.data);
    sym::check((n == 1) == same, "the hash covers all of the nonce and the content"); if same { sym::cover("same"); sym::check(x == y, "equal pages have equal hashes") }
    sym::check(x == (unsafe { HASHED[0].1 } >> 32) as u32, "the hash is the high half of xxhash64");
}
fn s01_upsert() {
    world(); let old = if sym::bool("present") { let p = Page_ { nonce: sym::u16("nonce"), data: bv(&blob("old", 1, 2)) }; put_p(OWNER, PAG, 2, &p); Some(p) } else { None };
    let cur = old.as_ref().map_or(0, |p| p.get_hash()); let t = sym::u32("target"); let d = blob("new", 1, 2);
    let r = do_upsert(how(), PAG, 2, t, &d); sym::check(r.is_ok() == (t == cur), "an upsert is accepted exactly when it names the hash of the page as it is");
    if r.is_err() { sym::cover("stale"); return }
    let nonce = old.as_ref().map_or(0, |p| p.nonce).wrapping_add(1); let page = Page_ { nonce, data: bv(&d) }; let h = page.get_hash();
    sym::check(read_p(OWNER, PAG) == vec![(2, h, nonce, d)], "the page holds the new content with the next nonce, and lists its hash");
    sym::check(new_events() == vec![RuntimeEvent::Stateful(Event::PaginatedPageUpdated { msa_id: OWNER, schema_id: PAG, page_id: 2, prev_content_hash: cur, curr_content_hash: h })], "the update is announced with both hashes");
    if old.is_some() { sym::cover("replaced") } else { sym::cover("created") }
}
fn s01_delete() {
    world(); let p = Page_ { nonce: sym::u16("nonce"), data: bv(&blob("old", 1, 2)) }; put_p(OWNER, PAG, 2, &p); let cur = p.get_hash(); let t = sym::u32("target");
    let r = do_delete(how(), PAG, 2, t); sym::check(r.is_ok() == (t == cur), "a deletion is accepted exactly when it names the hash of the page as it is");
    if r.is_err() { sym::cover("stale"); return }
    sym::cover("deleted"); sym::check(read_p(OWNER, PAG).is_empty(), "the page is gone");
    sym::check(new_events() == vec![RuntimeEvent::Stateful(Event::PaginatedPageDeleted { msa_id: OWNER, schema_id: PAG, page_id: 2, prev_content_hash: cur })], "the deletion is announced");
}
fn s01_absent() { world(); let r = do_delete(how(), PAG, 2, sym::u32("target")); if r.is_ok() { sym::cover("nothing to do") } sym::check(read_p(OWNER, PAG).is_empty() && new_events().is_empty(), "deleting an absent page changes and announces nothing"); }
fn s01_items() {
    world(); let old = if sym::bool("present") { let p = IPage { nonce: sym::u16("nonce"), data: bv(&items(&[blob("old", 0, 1)])) }; put_i(OWNER, ITM, &p); Some(p) } else { None };
    let cur = old.as_ref().map_or(0, |p| p.get_hash()); let t = sym::u32("target"); let d = blob("new", 0, 1);
    let r = do_items(how(), ITM, t, vec![add(&d)]); sym::check(r.is_ok() == (t == cur), "item actions are accepted exactly when they name the hash of the page as it is");
    if r.is_err() { sym::cover("stale"); return }
    let nonce = old.as_ref().map_or(0, |p| p.nonce).wrapping_add(1); let mut data = old.as_ref().map_or(vec![], |p| p.data.to_vec()); data.extend(items(&[d])); let h = IPage { nonce, data: bv(&data) }.get_hash();
    let g = read_i(OWNER, ITM); sym::check(g.0 == h && g.1 == nonce, "the page moves to the next nonce and lists its hash");
    sym::check(new_events() == vec![RuntimeEvent::Stateful(Event::ItemizedPageUpdated { msa_id: OWNER, schema_id: ITM, prev_content_hash: cur, curr_content_hash: h })], "the update is announced with both hashes");
    if old.is_some() { sym::cover("extended") } else { sym::cover("created") }
}
fn s01_items_kept() {
    // a change that leaves the items as they are: no action, or one that replaces an item by one which may have the same bytes
    world(); let d = blob("old", 0, 1); let p = IPage { nonce: sym::u16("nonce"), data: bv(&items(&[d.clone()])) }; put_i(OWNER, ITM, &p); let cur = p.get_hash(); let t = sym::u32("target"); let n = blob("new", 0, 1); let none = sym::bool("no action");
    let r = do_items(how(), ITM, t, if none { vec![] } else { vec![Act::Delete { index: 0 }, add(&n)] }); sym::check(r.is_ok() == (t == cur), "item actions are accepted exactly when they name the hash of the page as it is"); if r.is_err() { sym::cover("stale"); return }
    let (nonce, data) = (p.nonce.wrapping_add(1), items(&[if none { d } else { n }])); let h = IPage { nonce, data: bv(&data) }.get_hash(); let g = read_i(OWNER, ITM); sym::check(g.0 == h && g.1 == nonce, "the page moves to the next nonce even if its items stay the same");
    sym::check(new_events() == vec![RuntimeEvent::Stateful(Event::ItemizedPageUpdated { msa_id: OWNER, schema_id: ITM, prev_content_hash: cur, curr_content_hash: h })], "the update is announced with both hashes"); if none { sym::cover("no action") } else { sym::cover("replaced") }
}
fn s01_items_emptied() {
    world(); let p = IPage { nonce: sym::u16("nonce"), data: bv(&items(&[blob("old", 0, 1)])) }; put_i(OWNER, ITM, &p); let cur = p.get_hash(); let t = sym::u32("target");
    let r = do_items(how(), ITM, t, vec![Act::Delete { index: 0 }]); sym::check(r.is_ok() == (t == cur), "item actions are accepted exactly when they name the hash of the page as it is");
    if r.is_err() { return }
    sym::cover("emptied"); sym::check(read_i(OWNER, ITM) == (0, 0, vec![]), "a page without items is gone");
    sym::check(new_events() == vec![RuntimeEvent::Stateful(Event::ItemizedPageDeleted { msa_id: OWNER, schema_id: ITM, prev_content_hash: cur })], "the deletion is announced");
}
fn s02_actions() { actions(2, 2, 1) }
fn s02_deletes() { // three items, up to three deletions and additions in any order
    world(); let old: Vec<Vec<u8>> = vec![vec![], b"ab".to_vec(), b"c".to_vec()]; put_i(OWNER, ITM, &IPage { nonce: 1, data: bv(&items(&old)) }); run_actions(&old, 3, 0) }
fn s02_t_actions() { actions(3, 3, 2) }
fn s02_many() {
    // pages of the runtime's sizes: hundreds of items, items of more than 255 bytes
    unsafe { SIZES = (65536, 1024, 1024, 5) } world(); let n = 260usize; let long = sym::choose("long one", 0, 1) as usize * 258 + 1; let old: Vec<Vec<u8>> = (0..n).map(|i| if i == long { vec![7; 300] } else { vec![i as u8, (i >> 8) as u8] }).collect(); put_i(OWNER, ITM, &IPage { nonce: 1, data: bv(&items(&old)) }); let h = IPage { nonce: 1, data: bv(&items(&old)) }.get_hash();
    let at = [0usize, 1, 127, 255, 256, 258, 259, 260]; let (x, y) = (at[sym::choose("deleted", 0, 7) as usize], at[sym::choose("and", 3, 6) as usize]); let (a, b) = (vec![sym::u8("a"); 513], vec![sym::u8("b")]); let acts = vec![Act::Delete { index: x as u16 }, add(&a), Act::Delete { index: y as u16 }, add(&[]), add(&b)];
    let ok = x < n && x != y; let r = do_items(How::Own, ITM, h, acts); sym::check(r.is_ok() == ok, "the actions apply together, each deletion naming an item of the page as it was"); let mut want = old.clone(); if ok { sym::cover("changed"); want = (0..n).filter(|i| *i != x && *i != y).map(|i| old[i].clone()).collect(); want.extend([a, vec![], b]) } else { sym::cover("refused") } sym::check(read_i(OWNER, ITM).2 == want, "the remaining items keep their order and the new ones follow in theirs");
}
fn s02_parse() {
    // whatever bytes a page holds, reading and changing it give an answer
    world(); let d = blob("page", 1, 5); put_i(OWNER, ITM, &IPage { nonce: 1, data: bv(&d) }); let r = P::get_itemized_storage(OWNER, ITM);
    match &r { Err(_) => sym::cover("corrupt"), Ok(r) => { sym::cover("well formed"); let v: Vec<Vec<u8>> = r.items.iter().map(|i| i.payload.clone()).collect(); sym::check(sym::same_bytes(&items(&v), &d), "the items are all of the page"); } }
    let h = IPage { nonce: 1, data: bv(&d) }.get_hash(); let n = r.as_ref().map_or(0, |r| r.items.len()); let i = sym::u16("index");
    let q = do_items(How::Own, ITM, h, vec![Act::Delete { index: i }]); sym::check(q.is_ok() == (r.is_ok() && (i as usize) < n), "a corrupt page is not changed; otherwise an item that is there can be deleted");
}
fn s02_size() {
    // pages up to exactly the limit
    world(); let n = sym::choose("present", 1, 3) as usize; let old: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8; 2]).collect(); put_i(OWNER, ITM, &IPage { nonce: 1, data: bv(&items(&old)) });
    let h = IPage { nonce: 1, data: bv(&items(&old)) }.get_hash(); let (x, y) = (blob("x", 0, 3), blob("y", 0, 3)); let mut want = old.clone(); want.push(x.clone()); want.push(y.clone());
    let r = do_items(how(), ITM, h, vec![add(&x), add(&y)]); let fits = items(&want).len() <= 14; sym::check(r.is_ok() == fits, "a page may grow to its limit and no further");
    if fits { sym::cover("fits"); sym::check(read_i(OWNER, ITM).2 == want, "the items are added in order") } else { sym::cover("too large") }
}
fn s02_pages() {
    // the content of a page reads back as written
    world(); let d = blob("d", 0, 6); let e = blob("e", 0, 2); sym::check(do_upsert(how(), PAG, 1, 0, &d).is_ok(), "created"); sym::check(read_p(OWNER, PAG).iter().map(|p| p.3.clone()).collect::<Vec<_>>() == vec![d.clone()], "a page reads back as written");
    let h = read_p(OWNER, PAG)[0].1; sym::check(do_upsert(How::Own, PAG, 1, h, &e).is_ok(), "replaced"); let p = read_p(OWNER, PAG); sym::check(p.len() == 1 && p[0].3 == e && p[0].2 == 2, "the new content replaces the old"); sym::cover("replaced");
}
fn s03_items() {
    let w = policy(PayloadLocation::Itemized); let del = sym::bool("delete"); let (m, s) = (sym::u64("state owner"), sym::u16("schema")); if del { preset_i(&w, m, s) }
    let a = if del { vec![add(b"a"), Act::Delete { index: 0 }] } else { vec![add(b"a")] }; let h = hash_i(&w, m, s, del);
    let r = P::apply_item_actions(w.origin(), m, s, h, acts(a)); w.verdict(r.is_ok(), m, s, 0, del, false); if r.is_ok() { let want: Vec<Vec<u8>> = vec![b"a".to_vec()]; sym::check(read_i(m, s).2 == want, "the state owner's page is the one changed") }
}
fn s03_upsert() {
    let w = policy(PayloadLocation::Paginated); let (m, s, id) = (sym::u64("state owner"), sym::u16("schema"), sym::u16("page id"));
    let r = P::upsert_page(w.origin(), m, s, id, 0, bv(b"a")); w.verdict(r.is_ok(), m, s, id, false, true); if r.is_ok() { let p = read_p(m, s); sym::check(p.len() == 1 && p[0].0 == id, "the state owner's page is the one changed") }
}
fn s03_delete() {
    let w = policy(PayloadLocation::Paginated); let (m, s, id) = (sym::u64("state owner"), sym::u16("schema"), sym::u16("page id"));
    let r = P::delete_page(w.origin(), m, s, id, 0); w.verdict(r.is_ok(), m, s, id, true, true);
}
fn s03_signed_items() {
    let w = policy(PayloadLocation::Itemized); let s = sym::u16("schema"); let v1 = sym::bool("v1"); let m = sym::u64("named MSA"); sym::assume((m < 64) & (s < 64) & (w.msa.unwrap_or(0) < 64)); let del = sym::bool("delete"); if del { if let Some(k) = w.msa { preset_i(&w, k, s) } }
    let h = w.msa.map_or(0, |k| hash_i(&w, k, s, del)); let a = acts(if del { vec![add(b"a"), Act::Delete { index: 0 }] } else { vec![add(b"a")] });
    let r = if v1 { let p = ItemizedSignaturePayload::<Test> { msa_id: m, schema_id: s, target_hash: h, expiration: 20, actions: a }; P::apply_item_actions_with_signature(w.sender(), acct(1), sign(1, &p), p) }
        else { let p = ItemizedSignaturePayloadV2::<Test> { schema_id: s, target_hash: h, expiration: 20, actions: a }; P::apply_item_actions_with_signature_v2(w.sender(), acct(1), sign(1, &p), p) };
    w.signed_verdict(r.is_ok(), v1, m, s, 0, del, false); if r.is_ok() { let want: Vec<Vec<u8>> = vec![b"a".to_vec()]; sym::check(read_i(w.msa.unwrap(), s).2 == want, "the signer's page is the one changed") }
}
fn s03_signed_upsert() {
    let w = policy(PayloadLocation::Paginated); let (s, id) = (sym::u16("schema"), sym::u16("page id")); let v1 = sym::bool("v1"); let m = sym::u64("named MSA"); sym::assume((m < 64) & (s < 64) & (w.msa.unwrap_or(0) < 64));
    let r = if v1 { let p = PaginatedUpsertSignaturePayload::<Test> { msa_id: m, schema_id: s, page_id: id, target_hash: 0, expiration: 20, payload: bv(b"a") }; P::upsert_page_with_signature(w.sender(), acct(1), sign(1, &p), p) }
        else { let p = PaginatedUpsertSignaturePayloadV2::<Test> { schema_id: s, page_id: id, target_hash: 0, expiration: 20, payload: bv(b"a") }; P::upsert_page_with_signature_v2(w.sender(), acct(1), sign(1, &p), p) };
    w.signed_verdict(r.is_ok(), v1, m, s, id, false, true); if r.is_ok() { let p = read_p(w.msa.unwrap(), s); sym::check(p.len() == 1 && p[0].0 == id, "the signer's page is the one changed") }
}
fn s03_signed_delete() {
    let w = policy(PayloadLocation::Paginated); let (s, id) = (sym::u16("schema"), sym::u16("page id")); let v1 = sym::bool("v1"); let m = sym::u64("named MSA"); sym::assume((m < 64) & (s < 64) & (w.msa.unwrap_or(0) < 64));
    let r = if v1 { let p = PaginatedDeleteSignaturePayload::<Test> { msa_id: m, schema_id: s, page_id: id, target_hash: 0, expiration: 20 }; P::delete_page_with_signature(w.sender(), acct(1), sign(1, &p), p) }
        else { let p = PaginatedDeleteSignaturePayloadV2::<Test> { schema_id: s, page_id: id, target_hash: 0, expiration: 20 }; P::delete_page_with_signature_v2(w.sender(), acct(1), sign(1, &p), p) };
    w.signed_verdict(r.is_ok(), v1, m, s, id, true, true);
}
fn s03_read() {
    // state is shown only for a schema stored that way
    world(); let w = policy_any(); let s = sym::u16("schema"); let ok = |l| s == w.id && w.loc == l;
    sym::check(P::get_paginated_storage(1, s).is_ok() == ok(PayloadLocation::Paginated), "pages are read for paginated schemas only"); sym::check(P::get_itemized_storage(1, s).is_ok() == ok(PayloadLocation::Itemized), "items are read for itemized schemas only"); sym::cover("read");
}
fn s04_window() {
    // a signed payload counts while current block < expiration < current block + window
    world(); let (now, w, e) = (sym::u32("block"), sym::u32("window"), sym::u32("expiration")); sym::assume(now.checked_add(w).is_some()); set_block(now); unsafe { WINDOW = w }
    let ok = now < e && e < now + w; let k = sym::choose("kind", 0, 5);
    let r = match k {
        0 => { let p = ItemizedSignaturePayload::<Test> { msa_id: OWNER, schema_id: ITM, target_hash: 0, expiration: e, actions: acts(vec![add(b"a")]) }; P::apply_item_actions_with_signature(signed(3), acct(1), sign(1, &p), p) }
        1 => { let p = ItemizedSignaturePayloadV2::<Test> { schema_id: ITM, target_hash: 0, expiration: e, actions: acts(vec![add(b"a")]) }; P::apply_item_actions_with_signature_v2(signed(3), acct(1), sign(1, &p), p) }
        2 => { let p = PaginatedUpsertSignaturePayload::<Test> { msa_id: OWNER, schema_id: PAG, page_id: 1, target_hash: 0, expiration: e, payload: bv(b"a") }; P::upsert_page_with_signature(signed(3), acct(1), sign(1, &p), p) }
        3 => { let p = PaginatedUpsertSignaturePayloadV2::<Test> { schema_id: PAG, page_id: 1, target_hash: 0, expiration: e, payload: bv(b"a") }; P::upsert_page_with_signature_v2(signed(3), acct(1), sign(1, &p), p) }
        4 => { let p = PaginatedDeleteSignaturePayload::<Test> { msa_id: OWNER, schema_id: PAG, page_id: 1, target_hash: 0, expiration: e }; P::delete_page_with_signature(signed(3), acct(1), sign(1, &p), p) }
        _ => { let p = PaginatedDeleteSignaturePayloadV2::<Test> { schema_id: PAG, page_id: 1, target_hash: 0, expiration: e }; P::delete_page_with_signature_v2(signed(3), acct(1), sign(1, &p), p) }
    };
    sym::check(r.is_ok() == ok, "a signed payload is accepted exactly inside its window"); if ok { sym::cover("inside") } else { sym::cover("outside") }
}
fn s04_signature() {
    // signed by any of two accounts, over a payload that may differ in any field from the one sent
    world(); unsafe { MSAS = [Some(OWNER), Some(6)] } let by = sym::choose("signed by", 1, 2) as u8; let raw = sym::bool("not wrapped"); let k = sym::choose("kind", 0, 5);
    fn two<T>(f: impl Fn(u16, u16, u32, u8) -> T) -> (T, T, bool) { let (s, i, h, d) = (sym::u16("signed schema"), sym::u16("signed page"), sym::u32("signed hash"), sym::u8("signed data")); (f(s, i, h, d), f(7, 1, 0, 9), (s == 7) & (i == 1) & (h == 0) & (d == 9)) }
    fn sg<E: Encode>(by: u8, raw: bool, p: &E) -> MultiSignature { if raw { sp_runtime::sim_sign(&acct(by), &p.encode()) } else { sign(by, p) } }
    let (r, same) = match k {
        0 => { unsafe { SCHEMA[0].loc = PayloadLocation::Itemized } let (p, q, e) = two(|s, i, h, d| ItemizedSignaturePayload::<Test> { msa_id: (i as u64).wrapping_add(4), schema_id: s, target_hash: h, expiration: 20, actions: acts(vec![add(&[d])]) }); (P::apply_item_actions_with_signature(signed(3), acct(1), sg(by, raw, &p), q), e) }
        1 => { unsafe { SCHEMA[0].loc = PayloadLocation::Itemized } let (p, q, e) = two(|s, i, h, d| ItemizedSignaturePayloadV2::<Test> { schema_id: s, target_hash: h, expiration: 19 + i as u32, actions: acts(vec![add(&[d])]) }); (P::apply_item_actions_with_signature_v2(signed(3), acct(1), sg(by, raw, &p), q), e) }
        2 => { let (p, q, e) = two(|s, i, h, d| PaginatedUpsertSignaturePayload::<Test> { msa_id: OWNER, schema_id: s, page_id: i, target_hash: h, expiration: 20, payload: bv(&[d]) }); (P::upsert_page_with_signature(signed(3), acct(1), sg(by, raw, &p), q), e) }
        3 => { let (p, q, e) = two(|s, i, h, d| PaginatedUpsertSignaturePayloadV2::<Test> { schema_id: s, page_id: i, target_hash: h, expiration: 20, payload: bv(&[d]) }); (P::upsert_page_with_signature_v2(signed(3), acct(1), sg(by, raw, &p), q), e) }
        4 => { let (p, q, e) = two(|s, i, h, d| PaginatedDeleteSignaturePayload::<Test> { msa_id: OWNER, schema_id: s, page_id: i, target_hash: h, expiration: 11 + d as u32 }); (P::delete_page_with_signature(signed(3), acct(1), sg(by, raw, &p), q), e) }
        _ => { let (p, q, e) = two(|s, i, h, d| PaginatedDeleteSignaturePayloadV2::<Test> { schema_id: s, page_id: i, target_hash: h, expiration: 11 + d as u32 }); (P::delete_page_with_signature_v2(signed(3), acct(1), sg(by, raw, &p), q), e) }
    };
    sym::check(r.is_ok() == (same && by == 1 && !raw), "a payload is accepted only when the named key signed exactly it"); if r.is_ok() { sym::cover("accepted") } else { sym::cover("refused") }
}
fn s04_kf_replay() {
    // the same signed payload, sent twice with a deletion between
    world(); let d = blob("d", 1, 1); let p = PaginatedUpsertSignaturePayloadV2::<Test> { schema_id: PAG, page_id: 1, target_hash: 0, expiration: 20, payload: bv(&d) }; let s = sign(1, &p);
    sym::check(P::upsert_page_with_signature_v2(signed(3), acct(1), s.clone(), p.clone()).is_ok(), "first"); let h = read_p(OWNER, PAG)[0].1; sym::assume(h != 0); sym::check(P::delete_page(signed(1), OWNER, PAG, 1, h).is_ok(), "deleted");
    sym::check(P::upsert_page_with_signature_v2(signed(3), acct(1), s, p).is_err(), "a signed payload cannot be replayed");
}
fn s04_kf_empty() {
    // a page without content hashes to 0, as an absent one does
    world(); let p = PaginatedUpsertSignaturePayloadV2::<Test> { schema_id: PAG, page_id: 1, target_hash: 0, expiration: 20, payload: bv(b"") }; let s = sign(1, &p);
    sym::check(P::upsert_page_with_signature_v2(signed(3), acct(1), s.clone(), p.clone()).is_ok(), "first"); sym::check(P::upsert_page_with_signature_v2(signed(3), acct(1), s, p).is_err(), "a signed payload cannot be replayed");
}
fn s04_replay() {
    // sent again at once: the page has moved on (unless two different pages hash alike)
    world(); let k = sym::bool("items"); let d = blob("d", 1, 2); let h = |n: usize| unsafe { (HASHED[n].1 >> 32) as u32 };
    let (a, b) = if k { let p = ItemizedSignaturePayloadV2::<Test> { schema_id: ITM, target_hash: 0, expiration: 20, actions: acts(vec![add(&d)]) }; let s = sign(1, &p); (P::apply_item_actions_with_signature_v2(signed(3), acct(1), s.clone(), p.clone()), P::apply_item_actions_with_signature_v2(signed(3), acct(1), s, p)) }
        else { let p = PaginatedUpsertSignaturePayloadV2::<Test> { schema_id: PAG, page_id: 1, target_hash: 0, expiration: 20, payload: bv(&d) }; let s = sign(1, &p); (P::upsert_page_with_signature_v2(signed(3), acct(1), s.clone(), p.clone()), P::upsert_page_with_signature_v2(signed(3), acct(1), s, p)) };
    sym::check(a.is_ok() && (b.is_err() || h(0) == 0), "a signed payload is not accepted again on the page it made"); if b.is_err() { sym::cover("refused") }
}
fn s05_pages() {
    // two pages under any owners, schemas and page ids: each is read where it was written, and changing one leaves the other
    world(); unsafe { MAX_ID = u16::MAX; SCHEMA[0].id = sym::u16("schema 1"); SCHEMA[1] = Sch { id: sym::u16("schema 2"), loc: PayloadLocation::Paginated, append: false, sig: false }; sym::assume(SCHEMA[0].id != SCHEMA[1].id) }
    let (m1, m2) = (sym::u64("msa 1"), sym::u64("msa 2")); let (s1, s2) = unsafe { (SCHEMA[0].id, if sym::bool("same schema") { SCHEMA[0].id } else { SCHEMA[1].id }) }; let (i1, i2) = (sym::u16("page 1"), sym::u16("page 2")); sym::assume((m1 != m2) | (s1 != s2) | (i1 != i2));
    unsafe { MSAS = [Some(m1), Some(m2)] } sym::check(P::upsert_page(signed(1), m1, s1, i1, 0, bv(b"a")).is_ok() && P::upsert_page(signed(2), m2, s2, i2, 0, bv(b"b")).is_ok(), "both are new pages");
    let see = |m: u64, s: u16| { let mut v: Vec<(u16, Vec<u8>)> = read_p(m, s).into_iter().map(|p| (p.0, p.3)).collect(); v.sort_by_key(|e| e.1[0]); v };
    if m1 == m2 && s1 == s2 { sym::cover("same list"); sym::check(see(m1, s1) == vec![(i1, b"a".to_vec()), (i2, b"b".to_vec())], "an owner and schema list all their pages") }
    else { sym::cover("two lists"); sym::check(see(m1, s1) == vec![(i1, b"a".to_vec())] && see(m2, s2) == vec![(i2, b"b".to_vec())], "an owner and schema list their own pages only") }
    let h = read_p(m1, s1).iter().find(|p| p.3[0] == b'a').unwrap().1; sym::check(P::delete_page(signed(1), m1, s1, i1, h).is_ok(), "one is deleted"); sym::check(see(m2, s2) == vec![(i2, b"b".to_vec())], "and the other stays");
}
fn s05_many() {
    // as many pages as the runtime allows, of its size
    unsafe { SIZES = (65536, 1024, 1024, 5) } world(); unsafe { MAX_ID = 32 } let b = sym::u8("content"); let data = |i: u16| { let mut v = vec![i as u8; 1024 - i as usize]; v[0] = b; v }; for i in (0..=32u16).rev() { sym::check(do_upsert(How::Own, PAG, i, 0, &data(i)).is_ok(), "written") } sym::check(do_upsert(How::Own, PAG, 33, 0, &[1]).is_err(), "no page beyond the last id");
    let x = sym::choose("changed", 0, 32) as u16; let gone = sym::bool("deleted"); let h = read_p(OWNER, PAG).iter().find(|p| p.0 == x).unwrap().1; sym::check(if gone { do_delete(How::Own, PAG, x, h) } else { do_upsert(How::Own, PAG, x, h, &[b]) }.is_ok(), "changed"); sym::cover("changed");
    let mut l: Vec<(u16, Vec<u8>)> = read_p(OWNER, PAG).into_iter().map(|p| (p.0, p.3)).collect(); l.sort_by_key(|e| e.0); let want: Vec<(u16, Vec<u8>)> = (0..=32u16).filter(|i| !gone || *i != x).map(|i| (i, if i == x { vec![b] } else { data(i) })).collect(); sym::check(l == want, "an owner and schema list all their pages, each as written last");
}
fn s05_items() {
    world(); unsafe { SCHEMA[0] = Sch { id: sym::u16("schema 1"), loc: PayloadLocation::Itemized, append: false, sig: false }; SCHEMA[1].id = sym::u16("schema 2"); sym::assume(SCHEMA[0].id != SCHEMA[1].id) }
    let (m1, m2) = (sym::u64("msa 1"), sym::u64("msa 2")); let (s1, s2) = unsafe { (SCHEMA[0].id, if sym::bool("same schema") { SCHEMA[0].id } else { SCHEMA[1].id }) }; sym::assume((m1 != m2) | (s1 != s2));
    unsafe { MSAS = [Some(m1), Some(m2)] } sym::check(P::apply_item_actions(signed(1), m1, s1, 0, acts(vec![add(b"a")])).is_ok() && P::apply_item_actions(signed(2), m2, s2, 0, acts(vec![add(b"b")])).is_ok(), "both are new pages");
    sym::check(read_i(m1, s1).2 == vec![b"a".to_vec()] && read_i(m2, s2).2 == vec![b"b".to_vec()], "an owner and schema show their own items only"); let h = read_i(m1, s1).0;
    sym::check(P::apply_item_actions(signed(1), m1, s1, h, acts(vec![Act::Delete { index: 0 }])).is_ok() && read_i(m1, s1).2.is_empty() && read_i(m2, s2).2 == vec![b"b".to_vec()], "changing one leaves the other"); sym::cover("changed");
}
fn s05_kinds() {
    // a schema's pages and items never meet, even under the same owner and id
    world(); let m = sym::u64("msa"); let s = sym::u16("schema"); let id = sym::u16("page"); unsafe { MAX_ID = u16::MAX; MSAS = [Some(m), None]; SCHEMA = vec![Sch { id: s, loc: PayloadLocation::Paginated, append: false, sig: false }] }
    sym::check(P::upsert_page(signed(1), m, s, id, 0, bv(b"a")).is_ok(), "page"); unsafe { SCHEMA[0].loc = PayloadLocation::Itemized } sym::check(read_i(m, s) == (0, 0, vec![]), "no items there");
    sym::check(P::apply_item_actions(signed(1), m, s, 0, acts(vec![add(b"i")])).is_ok() && read_i(m, s).2 == vec![b"i".to_vec()], "items"); unsafe { SCHEMA[0].loc = PayloadLocation::Paginated } let p = read_p(m, s); sym::check(p.len() == 1 && p[0].0 == id && p[0].3 == b"a".to_vec(), "the page is as it was"); sym::cover("both");
}
}
fn actions(nitems: u64, nacts: u64, blen: u64) {
    world(); let n = sym::choose("items", 0, nitems) as usize; let old: Vec<Vec<u8>> = (0..n).map(|_| blob("item", 0, blen)).collect();
    if n > 0 { put_i(OWNER, ITM, &IPage { nonce: 1, data: bv(&items(&old)) }) } run_actions(&old, nacts, blen)
}
fn run_actions(old: &[Vec<u8>], nacts: u64, blen: u64) {
    let h = if old.is_empty() { 0 } else { IPage { nonce: 1, data: bv(&items(old)) }.get_hash() };
    let k = sym::choose("actions", 1, nacts) as usize; let mut a = vec![]; let (mut kept, mut added, mut ok) = (vec![true; old.len()], vec![], true);
    for _ in 0..k { if sym::bool("add") { let d = blob("new", 0, blen); a.push(add(&d)); added.push(d) } else { let i = sym::u16("index"); a.push(Act::Delete { index: i }); let mut hit = false; for j in 0..old.len() { if i as usize == j && kept[j] { kept[j] = false; hit = true } } ok &= hit } }
    let mut want: Vec<Vec<u8>> = (0..old.len()).filter(|j| kept[*j]).map(|j| old[j].clone()).collect(); want.extend(added); let fits = items(&want).len() <= 14;
    let r = do_items(How::Own, ITM, h, a); sym::check(r.is_ok() == (ok && fits), "the actions apply together, each deletion naming an item of the page as it was");
    if r.is_ok() { if want.is_empty() { sym::cover("emptied") } else { sym::cover("changed") } sym::check(read_i(OWNER, ITM).2 == want, "the remaining items keep their order and the new ones follow in theirs") } else { sym::cover("refused") }
}
/// any caller, MSA, grant and schema
struct World { who: u64, msa: Option<u64>, schema: Sch, grant: bool, loc: PayloadLocation, max: u16 }
fn policy_any() -> Sch { let loc = match sym::choose("location", 0, 3) { 0 => PayloadLocation::OnChain, 1 => PayloadLocation::IPFS, 2 => PayloadLocation::Itemized, _ => PayloadLocation::Paginated }; let s = Sch { id: sym::u16("known schema"), loc, append: sym::bool("append only"), sig: sym::bool("signature required") }; unsafe { SCHEMA = vec![s] } s }
fn policy(loc: PayloadLocation) -> World {
    world(); let msa = if sym::bool("has MSA") { Some(sym::u64("caller MSA")) } else { None }; let grant = sym::bool("grant"); let max = sym::u16("max page id"); let schema = policy_any(); unsafe { MSAS = [msa, Some(sym::u64("another"))]; GRANT = grant; MAX_ID = max }
    World { who: sym::choose("signer", 0, 2), msa, schema, grant, loc, max }
}
impl World {
    fn origin(&self) -> rt::Origin { match self.who { 0 => signed(1), 1 => rt::root(), _ => rt::none() } }
    fn sender(&self) -> rt::Origin { match self.who { 0 => signed(3), 1 => rt::root(), _ => rt::none() } }
    fn common(&self, s: u16, id: u16, del: bool, paged: bool) -> bool { self.who == 0 && self.msa.is_some() && s == self.schema.id && self.schema.loc == self.loc && !(self.schema.append && del) && !(paged && id > self.max) }
    fn verdict(&self, got: bool, m: u64, s: u16, id: u16, del: bool, paged: bool) {
        let own = self.msa == Some(m); let ok = self.common(s, id, del, paged) && (own || (self.grant && !self.schema.sig));
        sym::check(got == ok, "state is written exactly by its owner, or by a provider granted the schema when no signature is required; in the schema's location, within the page ids, and nothing is removed from an append-only schema");
        if !got { sym::cover("refused"); return }
        if own { sym::cover("owner") } else { sym::cover("provider"); let a = unsafe { ASKED.clone() }; sym::check(a == vec![(self.msa.unwrap(), m, s, 10)], "the grant asked for is the owner's to this provider for this schema at this block") }
    }
    fn signed_verdict(&self, got: bool, v1: bool, m: u64, s: u16, id: u16, del: bool, paged: bool) {
        let ok = self.common(s, id, del, paged) && (!v1 || self.msa == Some(m));
        sym::check(got == ok, "a signed payload is applied exactly for a key with an MSA, the one it names if it names one; in the schema's location, within the page ids, and nothing is removed from an append-only schema");
        if got { sym::cover("signed") } else { sym::cover("refused") }
    }
}
fn preset_i(w: &World, m: u64, s: u16) { let was = unsafe { (SCHEMA[0], MSAS) }; unsafe { SCHEMA[0] = Sch { id: s, loc: PayloadLocation::Itemized, append: false, sig: false } } put_i(m, s, &IPage { nonce: 3, data: bv(&items(&[b"z".to_vec()])) }); unsafe { SCHEMA[0] = was.0; MSAS = was.1 } let _ = w; }
fn hash_i(_: &World, _m: u64, _s: u16, del: bool) -> u32 { if del { IPage { nonce: 3, data: bv(&items(&[b"z".to_vec()])) }.get_hash() } else { 0 } }
