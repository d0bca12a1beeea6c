//! common-primitives as JSON: N06
use common_primitives::{handles::*, messages::*, msa::*, rpc::*, schema::*, stateful_storage::*};
use serde::{de::DeserializeOwned, Serialize};
use std::fmt::Debug;
// the text is the one expected, and reads back as the value
fn same<T: Serialize + DeserializeOwned + PartialEq + Debug>(v: &T, want: &str) {
    match serde_json::to_string(v) {
        Ok(s) => { sym::check(s == want, "written as documented"); match serde_json::from_str::<T>(&s) { Ok(r) => { sym::check(r == *v, "and read back the same"); sym::cover("coded") } Err(_) => sym::check(false, "it can be read back") } }
        Err(_) => sym::check(false, "it can be written"),
    }
}
fn hex(b: &[u8]) -> String { let d = |x: u8| (if x < 10 { b'0' + x } else { b'a' + x - 10 }) as char; let mut s = "0x".to_string(); for x in b { s.push(d(x >> 4)); s.push(d(x & 15)) } s }
fn data(name: &str) -> Vec<u8> { let n = sym::choose("length", 0, 3) as usize; sym::byte_vec(name, n) }
// text of plain characters, which JSON writes as they are
fn plain(name: &str, n: usize) -> Vec<u8> { let v = sym::byte_vec(name, n); for b in v.iter() { sym::assume(*b >= b'#' && *b < 127 && *b != b'\\') } v }
fn str(b: &[u8]) -> &str { core::str::from_utf8(b).unwrap_or("?") }
fn num(name: &str) -> u64 { [0, 7, 4_294_967_295][sym::choose(name, 0, 2) as usize] }
fn comma(l: Vec<String>) -> String { l.join(",") }
sym::harnesses! {
fn n06_event() {
    let (p, d) = (sym::choose("phase", 0, 2), data("data")); let phase = [None, Some(0), Some(4_294_967_295)][p as usize]; let e = RpcEvent { phase, pallet: 60, event: 3, data: d.clone() };
    same(&e, &format!("{{\"phase\":{},\"pallet\":60,\"event\":3,\"data\":\"{}\"}}", ["null", "0", "4294967295"][p as usize], hex(&d)));
}
fn n06_message() {
    let on = |n: &str| sym::bool(n); let msa = if on("msa") { Some(num("id")) } else { None }; let payload = if on("payload") { Some(data("bytes")) } else { None }; let cid = if on("cid") { Some(plain("content id", 2)) } else { None }; let len = if on("length known") { Some(42) } else { None };
    let mut l = vec!["\"provider_msa_id\":1".to_string(), "\"index\":65535".into(), "\"block_number\":9".into()]; if let Some(m) = msa { l.push(format!("\"msa_id\":{}", m)) } if let Some(p) = &payload { l.push(format!("\"payload\":\"{}\"", hex(p))) } if let Some(c) = &cid { l.push(format!("\"cid\":\"{}\"", str(c))) } if len.is_some() { l.push("\"payload_length\":42".into()) }
    same(&MessageResponse { provider_msa_id: 1, index: 65535, block_number: 9, msa_id: msa, payload, cid, payload_length: len }, &format!("{{{}}}", comma(l)));
}
fn n06_page() {
    let k = sym::choose("messages", 0, 2); let m = |i: u16| MessageResponse { provider_msa_id: 3, index: i, block_number: 9, msa_id: None, payload: Some(vec![i as u8]), cid: None, payload_length: None }; let next = sym::bool("more");
    let r = BlockPaginationResponse { content: (0..k).map(|i| m(i as u16)).collect::<Vec<_>>(), has_next: next, next_block: if next { Some(num("block") as u32) } else { None }, next_index: if next { Some(5) } else { None } };
    let l = comma((0..k).map(|i| format!("{{\"provider_msa_id\":3,\"index\":{},\"block_number\":9,\"payload\":\"0x0{}\"}}", i, i)).collect()); same(&r, &format!("{{\"content\":[{}],\"has_next\":{}{}}}", l, next, if next { format!(",\"next_block\":{},\"next_index\":5", r.next_block.unwrap()) } else { String::new() }));
    let q = BlockPaginationRequest { from_block: num("from") as u32, from_index: 2, to_block: 3, page_size: 4 }; same(&q, &format!("{{\"from_block\":{},\"from_index\":2,\"to_block\":3,\"page_size\":4}}", q.from_block));
}
fn n06_state() {
    let d = data("data"); let h = num("hash") as u32; same(&PaginatedStorageResponse::new(1, 2, 3, h, 5, d.clone()), &format!("{{\"page_id\":1,\"msa_id\":2,\"schema_id\":3,\"content_hash\":{},\"nonce\":5,\"payload\":\"{}\"}}", h, hex(&d)));
    let k = sym::choose("items", 0, 2); let items: Vec<_> = (0..k).map(|i| ItemizedStorageResponse::new(i as u16, if i == 0 { d.clone() } else { vec![] })).collect(); let l = comma(items.iter().map(|i| format!("{{\"index\":{},\"payload\":\"{}\"}}", i.index, hex(&i.payload))).collect());
    same(&ItemizedStoragePageResponse::new(2, 3, h, 65535, items), &format!("{{\"msa_id\":2,\"schema_id\":3,\"content_hash\":{},\"nonce\":65535,\"items\":[{}]}}", h, l));
}
fn n06_names() {
    let (b, c) = (plain("base", 3), plain("canonical", 2)); same(&HandleResponse { base_handle: b.clone(), canonical_base: c.clone(), suffix: 10 }, &format!("{{\"base_handle\":\"{}\",\"canonical_base\":\"{}\",\"suffix\":10}}", str(&b), str(&c)));
    same(&PresumptiveSuffixesResponse { base_handle: b.clone(), suffixes: vec![9, 99] }, &format!("{{\"base_handle\":\"{}\",\"suffixes\":[9,99]}}", str(&b))); same(&SchemaVersionResponse { schema_name: b.clone(), schema_version: 2, schema_id: 7 }, &format!("{{\"schema_name\":\"{}\",\"schema_version\":2,\"schema_id\":7}}", str(&b)));
}
fn n06_schema() {
    let m = plain("model", 2); let (t, l, s) = (sym::choose("type", 0, 1) as usize, sym::choose("location", 0, 3) as usize, sym::choose("settings", 0, 3)); let mut settings = vec![]; let mut names = vec![]; if s & 1 != 0 { settings.push(SchemaSetting::AppendOnly); names.push("\"AppendOnly\"".to_string()) } if s & 2 != 0 { settings.push(SchemaSetting::SignatureRequired); names.push("\"SignatureRequired\"".into()) }
    let (mt, pl) = ([ModelType::AvroBinary, ModelType::Parquet][t], [PayloadLocation::OnChain, PayloadLocation::IPFS, PayloadLocation::Itemized, PayloadLocation::Paginated][l]); let rest = format!("\"model_type\":\"{}\",\"payload_location\":\"{}\",\"settings\":[{}]", ["AvroBinary", "Parquet"][t], ["OnChain", "IPFS", "Itemized", "Paginated"][l], comma(names));
    same(&SchemaResponse { schema_id: 4, model: m.clone(), model_type: mt, payload_location: pl, settings: settings.clone() }, &format!("{{\"schema_id\":4,\"model\":\"{}\",{}}}", str(&m), rest)); same(&SchemaInfoResponse { schema_id: 4, model_type: mt, payload_location: pl, settings }, &format!("{{\"schema_id\":4,{}}}", rest));
}
// any text at all: written if it is text, refused if it is not
fn n06_text() {
    let n = sym::choose("length", 0, 2) as usize; let b = sym::byte_vec("text", n); let valid = core::str::from_utf8(&b).is_ok(); let v = SchemaVersionResponse { schema_name: b, schema_version: 2, schema_id: 7 };
    match serde_json::to_string(&v) { Ok(s) => { sym::check(valid, "what is not text is not written"); sym::check(serde_json::from_str::<SchemaVersionResponse>(&s).ok() == Some(v), "text reads back the same"); sym::cover("text") } Err(_) => { sym::check(!valid, "text can be written"); sym::cover("not text") } }
}
fn n06_delegations() {
    let (k, at) = (sym::choose("grants", 0, 2), num("revoked") as u32); let p: Vec<_> = (0..k).map(|i| SchemaGrant { schema_id: i as u16 + 1, revoked_at: if i == 0 { at } else { 0u32 } }).collect(); let l = comma(p.iter().map(|g| format!("{{\"schema_id\":{},\"revoked_at\":{}}}", g.schema_id, g.revoked_at)).collect());
    same(&DelegationResponse { provider_id: ProviderId(5), permissions: p }, &format!("{{\"provider_id\":5,\"permissions\":[{}]}}", l)); let id = num("id"); same(&DelegatorId(id), &id.to_string()); same(&KeyInfoResponse { msa_id: id, msa_keys: vec![1u64, 2] }, &format!("{{\"msa_id\":{},\"msa_keys\":[1,2]}}", id));
}
// hexadecimal digits are read in either case, with or without 0x; anything else is refused
fn n06_hexin() {
    let d = sym::bytes::<2>("digits"); for b in d { sym::assume(b >= b'#' && b < 127 && b != b'\\') } let pre = sym::bool("prefix"); let s = format!("{{\"index\":1,\"payload\":\"{}{}{}\"}}", if pre { "0x" } else { "" }, d[0] as char, d[1] as char);
    let v = |c: u8| (c as char).to_digit(16); let r = serde_json::from_str::<ItemizedStorageResponse>(&s).ok(); if d == *b"0x" && !pre { return } sym::check(r.map(|x| x.payload) == v(d[0]).zip(v(d[1])).map(|(a, b)| vec![(a * 16 + b) as u8]), "bytes are read from their hexadecimal digits");
    let m = serde_json::from_str::<MessageResponse>(&format!("{{\"provider_msa_id\":1,\"index\":1,\"block_number\":1,\"payload\":\"0x{}{}\"}}", d[0] as char, d[1] as char)).ok(); sym::check(m.map(|x| x.payload) == v(d[0]).zip(v(d[1])).map(|(a, b)| Some(vec![(a * 16 + b) as u8])), "also where they may be left out"); sym::cover("read");
}
}
