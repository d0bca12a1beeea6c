//! common-primitives: N01..N05
use common_primitives::{handles::*, messages::*, msa::*, offchain::*, schema::*, stateful_storage::*, utils::*};
use parity_scale_codec::{Decode, Encode};
fn dec<T: Decode>(b: &[u8]) -> Option<T> { let mut i = b; let r = T::decode(&mut i).ok()?; if i.is_empty() { Some(r) } else { None } }
const MAIN: &str = "4a587bf17a404e3572747add7aab7bbe56e805a5479c6c436f07f36fcc8d3ae1";
const PASEO: &str = "203c6838fc78ea3660a2f298a58d859519c72a5efdc0f194abd6f0d5ce1838e0";
fn unhex(s: &str) -> Vec<u8> { s.as_bytes().chunks(2).map(|c| { let d = |x: u8| if x < b'a' { x - b'0' } else { x - b'a' + 10 }; d(c[0]) * 16 + d(c[1]) }).collect() }
sym::harnesses!{
fn n01_wrap() {
    let n = sym::choose("length", 0, 12) as usize; let d = sym::byte_vec("data", n); let w = wrap_binary_data(d.clone());
    sym::check(w.len() == n + 15 && w.starts_with(b"<Bytes>") && w.ends_with(b"</Bytes>"), "the data is enclosed in the tags wallets add"); sym::check(w[7..7 + n] == d[..], "the data itself is unchanged"); sym::cover("wrapped");
}
fn n02_ids() {
    let v = sym::u64("id"); let (d, p) = (DelegatorId(v), ProviderId(v));
    sym::check(d.encode() == v.to_le_bytes() && p.encode() == v.to_le_bytes(), "an id is encoded as its 64-bit number");
    sym::check(dec::<DelegatorId>(&v.to_le_bytes()) == Some(d) && dec::<ProviderId>(&v.to_le_bytes()) == Some(p), "and reads back as that number");
    sym::check(u64::from(d) == v && u64::from(p) == v && DelegatorId::from(v) == d && ProviderId::from(v) == p, "conversions keep the number");
    let n = sym::choose("length", 0, 7) as usize; let s = sym::byte_vec("short", n); sym::check(dec::<DelegatorId>(&s).is_none() && dec::<ProviderId>(&s).is_none(), "too few bytes are refused"); sym::cover("coded");
}
fn n02_settings() {
    let b = sym::u16("bits"); let r = dec::<SchemaSettings>(&b.to_le_bytes());
    sym::check(r.is_some() == (b < 4), "settings are read exactly when all their bits are known");
    if let Some(s) = r { sym::cover("settings"); sym::check(s.encode() == b.to_le_bytes(), "settings are written as their bits");
        sym::check(s.is_enabled(SchemaSetting::AppendOnly) == (b & 1 != 0) && s.is_enabled(SchemaSetting::SignatureRequired) == (b & 2 != 0), "each setting has its own bit");
        let mut t = s; let pick = if sym::bool("which") { SchemaSetting::AppendOnly } else { SchemaSetting::SignatureRequired }; t.set(pick);
        sym::check(t.is_enabled(pick), "a setting that is set is enabled"); let o = if pick == SchemaSetting::AppendOnly { SchemaSetting::SignatureRequired } else { SchemaSetting::AppendOnly }; sym::check(t.is_enabled(o) == s.is_enabled(o), "the other stays");
        sym::check(SchemaSettings::from(t.get_enabled()) == t && SchemaSettings::all_disabled().encode() == [0, 0], "settings copy exactly");
    }
}
fn n02_payloads() {
    // payload types that users sign: written field by field, read back the same
    let (m, s, n, h, e, pg) = (sym::u64("msa"), sym::u16("schema"), sym::u16("page"), sym::u32("hash"), sym::u32("expiration"), sym::byte_vec("data", 2));
    let c = ClaimHandlePayload { base_handle: pg.clone(), expiration: e }; let mut w = vec![8]; w.extend(&pg); w.extend(e.to_le_bytes()); sym::check(c.encode() == w && dec(&w) == Some(c), "handle claim");
    let r = PaginatedStorageResponse::new(n, m, s, h, n, pg.clone()); sym::check(dec(&r.encode()) == Some(r), "page response");
    let g = SchemaGrant::new(s, e); sym::check(dec(&g.encode()) == Some(g), "schema grant");
    let q = BlockPaginationRequest { from_block: e, from_index: h, to_block: h, page_size: e }; sym::check(dec(&q.encode()) == Some(q), "pagination request"); sym::cover("coded");
}
fn n03_chain() {
    let mut h = sym::bytes::<32>("hash").to_vec(); let which = sym::choose("based on", 0, 2);
    if which > 0 { let k = sym::choose("position", 0, 31) as usize; let b = h[k]; h = unhex(if which == 1 { MAIN } else { PASEO }); h[k] = b; }
    let want = if h == unhex(MAIN) { DetectedChainType::FrequencyMainNet } else if h == unhex(PASEO) { DetectedChainType::FrequencyPaseoTestNet } else { DetectedChainType::Unknown };
    sym::check(get_chain_type_by_genesis_hash(&h) == want, "a chain is recognised by its whole genesis hash, and no other hash is");
    match want { DetectedChainType::FrequencyMainNet => sym::cover("mainnet"), DetectedChainType::FrequencyPaseoTestNet => sym::cover("paseo"), _ => sym::cover("unknown") }
}
fn n03_lengths() {
    let n = sym::choose("length", 0, 34) as usize; sym::assume(n != 32); let long: Vec<u8> = [unhex(if sym::bool("main") { MAIN } else { PASEO }), vec![0, 0]].concat();
    sym::check(get_chain_type_by_genesis_hash(&long[..n]) == DetectedChainType::Unknown, "a cut or extended hash is not recognised"); sym::cover("unknown");
}
fn n04_names() {
    // ids of up to five digits, built from their digits; and the largest ids
    let n = sym::choose("digits", 1, 4); let mut id = 0u64; let mut text = vec![];
    for i in 0..n { let d = sym::u8("digit"); sym::assume(d < 10); if i == 0 && n > 1 { sym::assume(d > 0) } id = id * 10 + d as u64; text.push(b'0' + d); }
    sym::check(get_msa_account_lock_name(id) == [b"Msa::ofw::lock::".to_vec(), text.clone()].concat(), "the lock is named by the MSA id"); sym::check(get_msa_account_storage_key_name(id) == [b"Msa::ofw::keys::".to_vec(), text].concat(), "the key index is named by the MSA id"); sym::cover("named");
}
fn n04_large() {
    let id = u64::MAX - sym::choose("below", 0, 5); let t = format!("{}", id);
    sym::check(get_msa_account_lock_name(id) == [b"Msa::ofw::lock::", t.as_bytes()].concat() && get_msa_account_storage_key_name(id) == [b"Msa::ofw::keys::", t.as_bytes()].concat(), "large ids are named in full"); sym::cover("named");
}
fn n05_validate() {
    let r = BlockPaginationRequest { from_block: sym::u32("from"), from_index: sym::u32("index"), to_block: sym::u32("to"), page_size: sym::u32("size") };
    let ok = r.page_size >= 1 && r.page_size <= 10000 && r.from_block < r.to_block && r.to_block as u64 <= r.from_block as u64 + 50000;
    sym::check(r.validate() == ok, "a request is valid for a positive page within the limit over a non-empty range within the limit"); if ok { sym::cover("valid") }
}
fn n05_step() {
    // one item just added: does the page end, and where does the next one begin
    let req = BlockPaginationRequest { from_block: 0, from_index: 0, to_block: sym::u32("to"), page_size: sym::u32("size") }; sym::assume(req.page_size > 0 && req.page_size <= 4);
    let mut r = BlockPaginationResponse::<u8>::new(); let n = sym::choose("content", 1, 4) as usize; r.content = vec![7; n];
    let (b, i, l) = (sym::u32("block"), sym::u32("position"), sym::u32("list")); sym::assume(b < req.to_block); sym::assume(i < l);
    let full = n as u32 == req.page_size; let end = r.check_end_condition_and_set_next_pagination(b, i, l, &req);
    sym::check(end == full, "a page ends exactly when it is full");
    let (nb, ni) = if i + 1 == l { (b as u64 + 1, 0) } else { (b as u64, i + 1) };
    if full && nb < req.to_block as u64 { sym::cover("more"); sym::check(r.has_next && r.next_block == Some(nb as u32) && r.next_index == Some(ni), "the next page begins right after the last item") }
    else { sym::cover("no more"); sym::check(!r.has_next && r.next_block.is_none() && r.next_index.is_none(), "no next page is announced") }
    sym::check(r.content == vec![7; n], "the content stays");
}
fn n05_walk() {
    // three blocks with up to three items each, walked page by page as the RPC does
    let len: Vec<u32> = (0..3).map(|i| sym::choose(["l0", "l1", "l2"][i], 0, 3) as u32).collect(); let size = sym::choose("size", 1, 4) as u32;
    let mut got = vec![]; let (mut fb, mut fi, mut pages) = (10u32, 0u32, 0);
    loop {
        let req = BlockPaginationRequest { from_block: fb, from_index: fi, to_block: 13, page_size: size }; sym::check(req.validate(), "the announced next page is a valid request"); let mut r = BlockPaginationResponse::new();
        'p: for b in req.from_block..req.to_block { let l = len[b as usize - 10]; let mut i = if b == req.from_block { req.from_index } else { 0 };
            while i < l { r.content.push((b, i)); if r.check_end_condition_and_set_next_pagination(b, i, l, &req) { break 'p } i += 1; } }
        sym::check(r.content.len() <= size as usize, "a page holds at most its size"); got.extend(r.content.clone()); pages += 1;
        if !r.has_next || pages > 12 { break } fb = r.next_block.unwrap(); fi = r.next_index.unwrap();
    }
    let want: Vec<(u32, u32)> = (0..3u32).flat_map(|b| (0..len[b as usize]).map(move |i| (b + 10, i))).collect();
    sym::check(got == want, "walking the pages yields every item once, in order"); sym::cover("walked");
}
}
