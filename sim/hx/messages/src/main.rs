//! pallet-messages: G01..G03
use common_primitives::{messages::*, msa::*, schema::*};
use frame_support::{dispatch::DispatchResult, traits::Hooks, BoundedVec};
use pallet_messages::*;
use rt::{acct, signed, AccountId32};
use sp_runtime::DispatchError;
rt::runtime! { Messages: pallet_messages }
#[derive(Clone, Debug, PartialEq, Eq, parity_scale_codec::Encode)] pub struct Max; impl frame_support::traits::Get<u32> for Max { fn get() -> u32 { unsafe { MOST } } } impl parity_scale_codec::MaxEncodedLen for Max { fn max_encoded_len() -> usize { 0 } }
static mut MOST: u32 = 11;
static mut MSAS: [Option<u64>; 2] = [None; 2];
static mut SCHEMA: (u16, PayloadLocation) = (0, PayloadLocation::OnChain);
static mut GRANT: bool = false; static mut ASKED: Vec<(u64, u64, u16, u32)> = Vec::new();
pub struct Msa;
impl MsaLookup for Msa { type AccountId = AccountId32; fn get_msa_id(k: &AccountId32) -> Option<u64> { unsafe { if *k == acct(1) { MSAS[0] } else if *k == acct(2) { MSAS[1] } else { None } } } }
impl MsaValidator for Msa { type AccountId = AccountId32; fn ensure_valid_msa_key(k: &AccountId32) -> Result<u64, DispatchError> { Msa::get_msa_id(k).ok_or(DispatchError::Other("no msa")) } }
pub struct Grants; impl SchemaGrantValidator<u32> for Grants { fn ensure_valid_schema_grant(p: ProviderId, d: DelegatorId, s: u16, b: u32) -> DispatchResult { unsafe { ASKED.push((p.0, d.0, s, b)); if GRANT { Ok(()) } else { Err(DispatchError::Other("no grant")) } } } }
pub struct Schemas; impl SchemaProvider<u16> for Schemas {
    fn get_schema_by_id(s: u16) -> Option<SchemaResponse> { Self::get_schema_info_by_id(s).map(|i| SchemaResponse { schema_id: i.schema_id, model: vec![], model_type: i.model_type, payload_location: i.payload_location, settings: vec![] }) }
    fn get_schema_info_by_id(s: u16) -> Option<SchemaInfoResponse> { unsafe { if s == SCHEMA.0 { Some(SchemaInfoResponse { schema_id: s, model_type: ModelType::AvroBinary, payload_location: SCHEMA.1, settings: vec![] }) } else { None } } }
}
impl Config for Test { type RuntimeEvent = RuntimeEvent; type WeightInfo = (); type MsaInfoProvider = Msa; type SchemaGrantValidator = Grants; type SchemaProvider = Schemas; type MessagesMaxPayloadSizeBytes = Max; }
type P = Pallet<Test>; type Msg = Message<Max>;
fn msg(b: u32, s: u16, i: u16) -> Option<Msg> { MessagesV2::<Test>::get((b, s, i)) }
fn count() -> usize { MessagesV2::<Test>::sim_all().len() }
fn body(n: &str, max: u64) -> Vec<u8> { let l = sym::choose("length", 0, max); sym::byte_vec(n, l as usize) }
fn bounded(v: &[u8]) -> BoundedVec<u8, Max> { BoundedVec::try_from(v.to_vec()).unwrap() }
fn loc(n: u64) -> PayloadLocation { match n { 0 => PayloadLocation::OnChain, 1 => PayloadLocation::IPFS, 2 => PayloadLocation::Itemized, _ => PayloadLocation::Paginated } }
fn opt(n: &str) -> Option<u64> { if sym::bool(n) { Some(sym::u64(n)) } else { None } }
/// the current block, message index, and one message stored earlier in some block
struct Pre { block: u32, index: u16, old: (u32, u16, u16), n: usize }
fn pre() -> Pre {
    let block = sym::u32("block"); set_block(block); let index = sym::u16("index"); BlockMessageIndex::<Test>::set(index);
    let old = (sym::u32("old block"), sym::u16("old schema"), sym::u16("old index")); sym::assume((old.0 < block) | ((old.0 == block) & (old.2 < index)));
    MessagesV2::<Test>::insert(old, Msg { payload: bounded(b"old"), provider_msa_id: 77, msa_id: Some(78) });
    unsafe { MSAS = [opt("msa1"), Some(sym::u64("msa2"))]; SCHEMA = (sym::u16("known schema"), loc(sym::choose("location", 0, 3))); GRANT = sym::bool("grant"); }
    Pre { block, index, old, n: 1 }
}
fn kept(p: &Pre) { sym::check(msg(p.old.0, p.old.1, p.old.2) == Some(Msg { payload: bounded(b"old"), provider_msa_id: 77, msa_id: Some(78) }), "stored messages are never changed"); }
fn added(p: &Pre, s: u16, want: Msg) {
    sym::check(count() == p.n + 1 && msg(p.block, s, p.index) == Some(want), "exactly the message is stored, under the current block, its schema and the next index");
    sym::check(P::get_message_index() == p.index + 1, "the index moves on by one");
    let first = p.index == 0; let ev = events().last() == Some(&RuntimeEvent::Messages(Event::MessagesInBlock)); sym::check(events().len() == first as usize && ev == first, "the first message of a block, and only it, is announced");
    kept(p);
}
const CID: [&[u8]; 4] = [b"bafkqaaa", b"f01550000", b"bafkqbaaa", b"bafkqadaaaaaa"];
sym::harnesses!{
// the upgrade from lists of messages to one entry a message
fn v01_messages() {
    use frame_support::traits::{OnRuntimeUpgrade, StorageVersion, GetStorageVersion}; use migration::v2::{old, MigrateToV2}; let (k1, k2) = ((sym::u32("block 1"), sym::u16("schema 1")), (sym::u32("block 2"), sym::u16("schema 2"))); sym::assume((k1.0 != k2.0) | (k1.1 != k2.1));
    let mut want = vec![]; for (k, n) in [(k1, sym::choose("messages 1", 0, 2)), (k2, sym::choose("messages 2", 0, 1))] { let mut l = vec![]; for i in 0..n { let at = if i == 0 { sym::u16("index") } else { let x = sym::u16("next index"); let prev: &old::OldMessage<Max> = &l[0]; sym::assume(x > prev.index); x };
        let m = old::OldMessage::<Max> { payload: bounded(&if i == 0 { body("payload", 2) } else { vec![9] }), provider_msa_id: sym::u64("provider"), msa_id: opt("author"), index: at }; want.push((k.0, k.1, at, m.payload.clone(), m.provider_msa_id, m.msa_id)); l.push(m) } if n > 0 { old::Messages::<Test>::insert(k.0, k.1, BoundedVec::try_from(l).unwrap()) } }
    let lists = old::Messages::<Test>::iter().count(); let v = sym::u16("version"); StorageVersion::new(v).put::<P>(); MigrateToV2::<Test>::on_runtime_upgrade();
    if v >= 2 { sym::check(count() == 0 && old::Messages::<Test>::iter().count() == lists && P::on_chain_storage_version() == v, "an upgraded chain is not upgraded again"); sym::cover("newer"); return }
    for _ in 0..2 {
        sym::check(count() == want.len(), "as many messages as there were"); for w in want.iter() { let m = msg(w.0, w.1, w.2); sym::check(matches!(m, Some(m) if m.payload == w.3 && m.provider_msa_id == w.4 && m.msa_id == w.5), "each message is where it was, as it was") }
        sym::check(old::Messages::<Test>::iter().count() == 0, "nothing is left behind"); sym::check(P::on_chain_storage_version() == 2, "the chain is marked as upgraded"); MigrateToV2::<Test>::on_runtime_upgrade();
    } sym::cover("upgraded");
}
fn g01_onchain() {
    // any state of the block, any message: stored at the next free index, nothing overwritten
    let p = pre(); let s = sym::u16("schema"); let b = body("payload", 2); let by = opt("delegator");
    let r = P::add_onchain_message(signed(1), by, s, b.clone());
    if r.is_err() { sym::cover("refused"); return }
    sym::cover("added"); let me = unsafe { MSAS[0].unwrap() };
    added(&p, s, Msg { payload: bounded(&b), provider_msa_id: me, msa_id: Some(by.unwrap_or(me)) });
}
fn g01_ipfs() {
    let p = pre(); let s = sym::u16("schema"); let len = sym::u32("length"); let c = sym::choose("cid", 0, 2) as usize;
    let r = P::add_ipfs_message(signed(1), s, CID[c].to_vec(), len);
    if r.is_err() { sym::cover("refused"); return }
    sym::cover("added"); let me = unsafe { MSAS[0].unwrap() };
    let mut want = vec![16, 1, 0x55, 0, 0]; want.extend(len.to_le_bytes());
    added(&p, s, Msg { payload: bounded(&want), provider_msa_id: me, msa_id: None });
}
fn g01_blocks() {
    // three messages over two blocks, schemas in any arrangement
    unsafe { MSAS = [Some(5), None] } let b0 = sym::u32("block"); sym::assume(b0 < u32::MAX); set_block(b0); P::on_initialize(b0);
    let at = sym::choose("new block before", 1, 3); let s: Vec<u16> = (0..3).map(|i| sym::choose(["s0", "s1", "s2"][i], 1, 2) as u16).collect();
    let (mut block, mut idx) = (b0, 0u16); let mut log: Vec<(u32, u16, u16, u8)> = vec![];
    for i in 0..3u8 {
        if i as u64 == at { block += 1; idx = 0; set_block(block); P::on_initialize(block); }
        unsafe { SCHEMA = (s[i as usize], PayloadLocation::OnChain) }
        sym::check(P::add_onchain_message(signed(1), None, s[i as usize], vec![i]).is_ok(), "added");
        log.push((block, s[i as usize], idx, i)); idx += 1;
    }
    for b in [b0, b0 + 1] { for sc in 1..3u16 {
        let got: Vec<(u16, u8)> = P::get_messages_by_schema_and_block(sc, PayloadLocation::OnChain, b).iter().map(|m| (m.index, m.payload.clone().unwrap()[0])).collect();
        let want: Vec<(u16, u8)> = log.iter().filter(|l| l.0 == b && l.1 == sc).map(|l| (l.2, l.3)).collect();
        sym::check(got == want, "each block and schema lists its messages, all of them, in the order they were added");
    } }
    sym::cover("listed");
}
fn g02_onchain() {
    let p = pre(); let s = sym::u16("schema"); let b = body("payload", unsafe { MOST } as u64 + 1); let by = opt("delegator");
    let who = sym::choose("signer", 0, 2); let o = match who { 0 => signed(1), 1 => rt::root(), _ => rt::none() };
    let (known, m1, g) = unsafe { (SCHEMA, MSAS[0], GRANT) };
    let ok = who == 0 && b.len() <= unsafe { MOST } as usize && (s == known.0) && known.1 == PayloadLocation::OnChain && m1.is_some() && (by.is_none() || g) && p.index < u16::MAX;
    let r = P::add_onchain_message(o, by, s, b);
    sym::check(r.is_ok() == ok, "an on-chain message is accepted exactly from a key with an MSA, for a schema stored on chain, in size, and with the delegator's grant when sent on behalf of another");
    if r.is_err() { return }
    if by.is_none() { sym::cover("own") } else { sym::cover("delegated"); let a = unsafe { ASKED.clone() }; sym::check(a.len() == 1 && a[0] == (m1.unwrap(), by.unwrap(), s, p.block), "the grant asked for is the delegator's to this provider for this schema at this block"); }
}
fn g02_ipfs() {
    let p = pre(); let s = sym::u16("schema"); let c = sym::choose("cid", 0, 3) as usize;
    let who = sym::choose("signer", 0, 2); let o = match who { 0 => signed(1), 1 => rt::root(), _ => rt::none() };
    let (known, m1) = unsafe { (SCHEMA, MSAS[0]) }; let ok = who == 0 && c < 2 && (s == known.0) && known.1 == PayloadLocation::IPFS && m1.is_some() && p.index < u16::MAX;
    let r = P::add_ipfs_message(o, s, CID[c].to_vec(), sym::u32("length"));
    sym::check(r.is_ok() == ok, "an IPFS message is accepted exactly from a key with an MSA, for a schema stored on IPFS, with a CID that is valid and in size");
    if r.is_ok() { sym::cover("accepted") }
}
fn g03_onchain() {
    let (pl, pv, ms) = (body("payload", 3), sym::u64("provider"), opt("msa")); let m = Msg { payload: bounded(&pl), provider_msa_id: pv, msa_id: ms }; let (b, i) = (sym::u32("block"), sym::u16("index"));
    MessagesV2::<Test>::insert((b, 7u16, i), m);
    let l = loc(sym::choose("location", 0, 3)); let g = P::get_messages_by_schema_and_block(7, l, b);
    match l {
        PayloadLocation::OnChain => { sym::cover("on chain"); sym::check(g == vec![MessageResponse { provider_msa_id: pv, index: i, block_number: b, msa_id: ms, payload: Some(pl), cid: None, payload_length: None }], "an on-chain message reads back as stored") }
        PayloadLocation::IPFS => sym::check(g.len() == 1 && g[0].payload.is_none() && g[0].msa_id.is_none() && g[0].provider_msa_id == pv && g[0].index == i && g[0].block_number == b, "an IPFS reading never shows a payload"),
        _ => sym::check(g.is_empty(), "stateful locations have no messages"),
    }
    let ob = sym::u32("other block"); let os = sym::u16("other schema"); sym::assume((ob != b) | (os != 7)); sym::check(P::get_messages_by_schema_and_block(os, PayloadLocation::OnChain, ob).is_empty(), "another block or schema lists nothing");
}
fn g03_order() {
    // any three indexes
    let b = sym::u32("block"); let ix = [sym::u16("first"), sym::u16("second"), sym::u16("third")]; sym::assume((ix[0] != ix[1]) & (ix[0] != ix[2]) & (ix[1] != ix[2])); for (k, i) in ix.iter().enumerate() { MessagesV2::<Test>::insert((b, 7u16, *i), Msg { payload: bounded(&[k as u8]), provider_msa_id: k as u64, msa_id: Some(9) }); }
    MessagesV2::<Test>::insert((b, 8u16, 0), Msg { payload: bounded(&[9]), provider_msa_id: 9, msa_id: None });
    { let l = PayloadLocation::OnChain; let g = P::get_messages_by_schema_and_block(7, l, b); sym::check(g.len() == 3 && g[0].index < g[1].index && g[1].index < g[2].index, "messages are listed in the order of their indexes"); for m in g { sym::check(m.payload.as_ref().map(|p| p.len() == 1 && p[0] as u64 == m.provider_msa_id) == Some(true) && m.index == ix[m.provider_msa_id as usize] && m.block_number == b, "each is one of the messages"); } sym::cover("three") }
}
fn g03_ipfs() {
    // CIDv1, raw codec, identity hash, any digest of up to three bytes, written in base16 or base32
    let n = sym::choose("digest", 0, 2) as usize; let d = sym::byte_vec("d", n); let mut bin = vec![1, 0x55, 0, n as u8]; bin.extend(d);
    let text = if sym::bool("base32") { b32(&bin) } else { let mut t = vec![b'f']; for x in bin.iter() { t.push(hex(x >> 4)); t.push(hex(x & 15)) } t };
    unsafe { MSAS = [Some(9), None]; SCHEMA = (7, PayloadLocation::IPFS) } let b = sym::u32("block"); set_block(b); let len = sym::u32("length");
    sym::check(P::add_ipfs_message(signed(1), 7, text, len).is_ok(), "a valid CID is accepted");
    let g = P::get_messages_by_schema_and_block(7, PayloadLocation::IPFS, b);
    sym::check(g == vec![MessageResponse { provider_msa_id: 9, index: 0, block_number: b, msa_id: None, payload: None, cid: Some(b32(&bin)), payload_length: Some(len) }], "the message lists its CID in base 32, its length and its provider"); sym::cover("listed");
}
fn g03_cid() {
    // base16 texts of CIDs: version, codec, hash code, size and digest
    let n = sym::choose("bytes", 0, 5) as usize; let v = sym::byte_vec("b", n); for x in v.iter() { sym::assume(*x < 0x80) }
    let mut t = vec![b'f']; for x in v.iter() { t.push(hex(x >> 4)); t.push(hex(x & 15)) }
    let ok = n >= 4 && v[0] <= 1 && v[3] <= 64 && n - 4 >= v[3] as usize && v[0] == 1;
    let r = P::validate_cid(&t); sym::check(r.is_ok() == ok, "a text is a CID exactly when it holds a version, codec, hash code, size and that many bytes");
    if let Ok(b) = r { sym::cover("valid"); sym::check(b == v.to_vec(), "a CID is stored as the bytes it stands for") }
}
fn g03_exact() {
    // a CID with one more byte, at any place: refused unless the byte makes another digit, never taken for the CID it contains
    let mut t = b"f01550000".to_vec(); let x = sym::u8("byte"); let at = sym::choose("at", 0, 9) as usize; let digit = (x >= b'0') & (x <= b'9') | (x >= b'a') & (x <= b'f') | (x >= b'A') & (x <= b'F'); sym::assume(!digit); t.insert(at, x);
    if at == 0 { sym::assume((x < b'a') & (x < b'A') | (x > b'z') | (x > b'Z') & (x < b'a')) } sym::check(P::validate_cid(&t).is_err(), "a text that is not a CID is refused"); sym::cover("refused");
}
fn g03_real() {
    // contents and CIDs of the sizes the runtime takes
    unsafe { MOST = 3072; MSAS = [Some(9), None]; GRANT = true } let b = sym::u32("block"); set_block(b); let x = sym::u8("byte");
    if sym::bool("on chain") {
        unsafe { SCHEMA = (7, PayloadLocation::OnChain) } let n = [64usize, 255, 256, 3071, 3072, 3073][sym::choose("length", 0, 5) as usize]; let mut v = vec![5u8; n]; v[n - 1] = x; v[n / 2] = x; let r = P::add_onchain_message(signed(1), None, 7, v.clone()); sym::check(r.is_ok() == (n <= 3072), "contents up to the limit are accepted"); if r.is_err() { sym::cover("too long"); return }
        sym::check(P::get_messages_by_schema_and_block(7, PayloadLocation::OnChain, b) == vec![MessageResponse { provider_msa_id: 9, index: 0, block_number: b, msa_id: Some(9), payload: Some(v), cid: None, payload_length: None }], "the message reads back as it was sent"); sym::cover("on chain");
    } else {
        unsafe { SCHEMA = (7, PayloadLocation::IPFS) } let n = [20usize, 32, 64][sym::choose("digest", 0, 2) as usize]; let mut bin = vec![1, 0x55, [0x11, 0x12, 0x13][n / 32], n as u8]; for i in 0..n { bin.push(i as u8 * 3) } let at = 4 + [0, 1, n - 1][sym::choose("at", 0, 2) as usize]; bin[at] = sym::u8("digest byte"); let t = b32(&bin);
        sym::check(P::add_ipfs_message(signed(1), 7, t.clone(), x as u32).is_ok(), "a valid CID is accepted"); sym::check(P::get_messages_by_schema_and_block(7, PayloadLocation::IPFS, b) == vec![MessageResponse { provider_msa_id: 9, index: 0, block_number: b, msa_id: None, payload: None, cid: Some(t), payload_length: Some(x as u32) }], "the message lists its CID in base 32, its length and its provider"); sym::cover("listed");
    }
}
fn g03_refused() {
    // any three bytes: never a CID, never a crash; anything that starts like version 0 is refused
    let n = sym::choose("length", 0, 3) as usize; let mut t = sym::byte_vec("t", n);
    if sym::bool("v0") { t = [b"Qm".to_vec(), t.to_vec()].concat() }
    sym::check(P::validate_cid(&t.to_vec()).is_err(), "too short or version 0"); sym::cover("refused");
}
}
fn hex(n: u8) -> u8 { sym::ite(n < 10, (b'0' + n) as u64, b'a'.wrapping_add(n).wrapping_sub(10) as u64) as u8 }
fn b32(b: &[u8]) -> Vec<u8> { let mut o = vec![b'b']; let (mut acc, mut bits) = (0u32, 0); for x in b { acc = (acc << 8) | *x as u32; bits += 8; while bits >= 5 { bits -= 5; o.push(dig((acc >> bits) as u8 & 31)) } } if bits > 0 { o.push(dig((acc << (5 - bits)) as u8 & 31)) } o }
fn dig(n: u8) -> u8 { sym::ite(n < 26, b'a'.wrapping_add(n) as u64, b'2'.wrapping_add(n).wrapping_sub(26) as u64) as u8 }
