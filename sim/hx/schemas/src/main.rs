//! pallet-schemas: K01..K03
use common_primitives::{node::ProposalProvider, schema::*};
use frame_support::{traits::{ConstU16, ConstU32, EnsureOrigin}, BoundedVec};
use pallet_schemas::*;
use rt::{acct, signed, AccountId32, Origin};
use sp_runtime::DispatchError;
rt::runtime! { Schemas: pallet_schemas }
const MIN: u32 = 3; const LIMIT: u32 = 100;
/// account 9 stands for the council
pub struct Council; impl EnsureOrigin<Origin> for Council { type Success = (); fn try_origin(o: Origin) -> Result<(), Origin> { match &o.0 { frame_system::RawOrigin::Signed(w) if *w == acct(9) => Ok(()), _ => Err(o) } } }
static mut PROPOSED: Vec<(AccountId32, RuntimeCall)> = Vec::new();
pub struct Props; impl ProposalProvider<AccountId32, RuntimeCall> for Props {
    fn propose(_w: AccountId32, _t: u32, _p: Box<RuntimeCall>) -> Result<(u32, u32), DispatchError> { Err(DispatchError::Other("unused")) }
    fn propose_with_simple_majority(w: AccountId32, p: Box<RuntimeCall>) -> Result<(u32, u32), DispatchError> { unsafe { PROPOSED.push((w, *p)) } Ok((0, 0)) }
}
#[derive(Clone, Debug, PartialEq, Eq, parity_scale_codec::Encode)] pub struct Limit; impl frame_support::traits::Get<u32> for Limit { fn get() -> u32 { LIMIT } } impl parity_scale_codec::MaxEncodedLen for Limit { fn max_encoded_len() -> usize { 0 } }
impl Config for Test { type RuntimeEvent = RuntimeEvent; type WeightInfo = (); type MinSchemaModelSizeBytes = ConstU32<MIN>; type SchemaModelMaxBytesBoundedVecLimit = Limit; type MaxSchemaRegistrations = ConstU16<60000>; type CreateSchemaViaGovernanceOrigin = Council; type Proposal = RuntimeCall; type ProposalProvider = Props; type MaxSchemaSettingsPerSchema = ConstU32<2>; }
type P = Pallet<Test>; type Model = BoundedVec<u8, Limit>; type Sets = BoundedVec<SchemaSetting, ConstU32<2>>;
const COL: &[u8] = br#"[{"name":"a","column_type":"BOOLEAN","compression":"UNCOMPRESSED","bloom_filter":false}]"#;
/// model texts with whether they are an Avro and a Parquet model
const MODELS: [(&[u8], bool, bool); 9] = [(b"{}", true, false), (b"{ }", true, false), (br#"{"type":"int"}"#, true, false), (b"[]", false, true), (b"[ ]", false, true), (COL, false, true), (b"null", false, false), (b"{ ", false, false), (br#"[{"name":"a"}]"#, false, false)];
fn model(i: u64) -> Model { BoundedVec::try_from(MODELS[i as usize].0.to_vec()).unwrap() }
fn loc(n: u64) -> PayloadLocation { match n { 0 => PayloadLocation::OnChain, 1 => PayloadLocation::IPFS, 2 => PayloadLocation::Itemized, _ => PayloadLocation::Paginated } }
fn mty(n: u64) -> ModelType { if n == 0 { ModelType::AvroBinary } else { ModelType::Parquet } }
fn sets(n: u64) -> Vec<SchemaSetting> { use SchemaSetting::*; match n { 0 => vec![], 1 => vec![AppendOnly], 2 => vec![SignatureRequired], 3 => vec![SignatureRequired, AppendOnly], _ => vec![SignatureRequired, SignatureRequired] } }
fn name(s: &[u8]) -> SchemaNamePayload { BoundedVec::try_from(s.to_vec()).unwrap() }
fn ns(s: &[u8]) -> SchemaNamespace { BoundedVec::try_from(s.to_vec()).unwrap() }
fn de(s: &[u8]) -> SchemaDescriptor { BoundedVec::try_from(s.to_vec()).unwrap() }
fn ids(n: &[u8], d: &[u8]) -> Vec<u16> { SchemaNameToIds::<Test>::get(ns(n), de(d)).ids.into_inner() }
fn set_ids(n: &[u8], d: &[u8], v: Vec<u16>) { SchemaNameToIds::<Test>::insert(ns(n), de(d), SchemaVersionId { ids: BoundedVec::try_from(v).unwrap() }) }
/// an arbitrary newest id, one existing schema, the name abc.de with some versions and another name
struct Pre { max: u16, old: u16, info: SchemaInfo, vers: Vec<u16>, limit: u32 }
fn pre(nv: u64) -> Pre {
    let max = sym::u16("newest id"); CurrentSchemaIdentifierMaximum::<Test>::set(max);
    let old = sym::u16("existing id"); sym::assume((old >= 1) & (old <= max));
    let info = SchemaInfo { model_type: ModelType::Parquet, payload_location: PayloadLocation::IPFS, settings: SchemaSettings::from(SchemaSetting::SignatureRequired.into()), has_name: sym::bool("existing is named") };
    SchemaInfos::<Test>::insert(old, info.clone()); SchemaPayloads::<Test>::insert(old, model(4));
    let vers: Vec<u16> = (0..nv).map(|_| { let v = sym::u16("version"); sym::assume((v >= 1) & (v <= max)); v }).collect(); if nv == 2 { sym::assume(vers[0] != vers[1]) }
    if nv > 0 { set_ids(b"abc", b"de", vers.clone()) } set_ids(b"abc", b"df", vec![1]);
    let limit = sym::u32("size limit"); sym::assume(limit <= LIMIT); GovernanceSchemaModelMaxBytes::<Test>::set(limit);
    Pre { max, old, info, vers, limit }
}
fn old_kept(p: &Pre) { sym::check(SchemaInfos::<Test>::get(p.old) == Some(p.info.clone()) && SchemaPayloads::<Test>::get(p.old) == Some(model(4)), "a registered schema never changes"); sym::check(ids(b"abc", b"df") == vec![1], "other names keep their versions"); }
fn unchanged(p: &Pre) { old_kept(p); sym::check(P::get_current_schema_identifier_maximum() == p.max && SchemaInfos::<Test>::sim_all().len() == 1 && SchemaPayloads::<Test>::sim_all().len() == 1 && ids(b"abc", b"de") == p.vers, "nothing is registered"); }
/// which of the five creating calls, by whom
fn create(how: u64, o: Origin, m: Model, t: ModelType, l: PayloadLocation, s: Vec<SchemaSetting>, n: Option<SchemaNamePayload>) -> bool {
    let s: Sets = BoundedVec::try_from(s).unwrap(); #[allow(deprecated)]
    match how { 0 => P::create_schema(o, m, t, l).is_ok(), 1 => P::create_schema_v2(o, m, t, l, s).is_ok(), 2 => P::create_schema_v3(o, m, t, l, s, n).is_ok(), 3 => P::create_schema_via_governance(o, acct(5), m, t, l, s).is_ok(), _ => P::create_schema_via_governance_v2(o, acct(5), m, t, l, s, n).is_ok() }
}
fn org(n: u64) -> Origin { match n { 0 => signed(9), 1 => signed(1), 2 => rt::root(), _ => rt::none() } }
const MAINNET: [u8; 32] = [0x4a, 0x58, 0x7b, 0xf1, 0x7a, 0x40, 0x4e, 0x35, 0x72, 0x74, 0x7a, 0xdd, 0x7a, 0xab, 0x7b, 0xbe, 0x56, 0xe8, 0x05, 0xa5, 0x47, 0x9c, 0x6c, 0x43, 0x6f, 0x07, 0xf3, 0x6f, 0xcc, 0x8d, 0x3a, 0xe1];
sym::harnesses!{
// the upgrade that names mainnet's first schemas
fn v01_schemas() {
    use frame_support::traits::{OnRuntimeUpgrade, StorageVersion, GetStorageVersion}; const D: [&[u8]; 6] = [b"update", b"profile", b"public-key-key-agreement", b"public-follows", b"private-follows", b"private-connections"];
    let g: [u8; 32] = { let mut g = MAINNET; if sym::bool("another chain") { let at = [0, 9, 31][sym::choose("at", 0, 2) as usize]; let c = sym::u8("byte"); g[at] = c } g }; unsafe { frame_system::GENESIS = Some(g) } let mainnet = g == MAINNET; let v = sym::u16("version"); StorageVersion::new(v).put::<P>();
    let gone = sym::choose("not there", 4, 10) as u16; let st = sets(if gone == 4 { sym::choose("settings", 0, 3) } else { 3 }); let mut settings = SchemaSettings::all_disabled(); for s in st.iter() { settings.set(*s) } let info = |named: bool| SchemaInfo { model_type: ModelType::AvroBinary, payload_location: PayloadLocation::Paginated, settings, has_name: named };
    let named = gone == 4 && sym::bool("named"); let other = sym::u16("other"); sym::assume((other < 5) | (other > 10)); let wrong = sym::choose("wrong", 0, 2); let w: Vec<u16> = (0..wrong).map(|_| sym::u16("wrong version")).collect();
    for k in (5..=10u16).chain([other]) { if k != gone { SchemaInfos::<Test>::insert(k, info(named)); SchemaPayloads::<Test>::insert(k, model(0)) } if wrong > 0 && k != other { set_ids(b"dsnp", D[k as usize - 5], w.clone()) } } set_ids(b"dsnp", b"broadcast", vec![2, other]);
    sym::assume(other != gone); let n = SchemaNameToIds::<Test>::iter().count(); migration::v4::MigrateToV4::<Test>::on_runtime_upgrade(); let run = v < 4;
    for _ in 0..2 {
        for k in 5..=10u16 { let named_now = run && mainnet && k != gone; sym::check(SchemaInfos::<Test>::get(k) == if k == gone { None } else { Some(info(named || named_now)) }, "each schema is as it was, and has its name"); sym::check(ids(b"dsnp", D[k as usize - 5]) == if named_now { vec![k] } else { w.clone() }, "each name is its schema's alone") }
        sym::check(SchemaInfos::<Test>::get(other) == Some(info(named)) && ids(b"dsnp", b"broadcast") == vec![2, other] && SchemaPayloads::<Test>::iter().all(|p| p.1 == model(0)), "other schemas, names and models stay"); sym::check(P::on_chain_storage_version() == if run { 4 } else { v }, "the chain is marked as upgraded");
        sym::check(SchemaNameToIds::<Test>::iter().count() <= n.max(7), "no other names"); migration::v4::MigrateToV4::<Test>::on_runtime_upgrade();
    } if run && mainnet { sym::cover("named") } else { sym::cover("not touched") }
}
fn k01_create() {
    // any registry, any call that creates: exactly the next id, readable as it was given
    let nv = sym::choose("versions", 0, 2); let p = pre(nv); let how = sym::choose("call", 0, 4); let (mt, l, st, md) = (sym::choose("type", 0, 1), sym::choose("location", 0, 3), sym::choose("settings", 0, 4), sym::choose("model", 0, 8));
    // one field varies at a time beyond the two model types; k03_limits covers the limits
    sym::assume((l == 2) as u8 + (st == 0) as u8 + (how == 2) as u8 >= 2);
    let named = (how == 2 || how == 4) && nv > 0; let s = if how == 0 { vec![] } else { sets(st) };
    if !create(how, signed(9), model(md), mty(mt), loc(l), s.clone(), if named { Some(name(b"abc.de")) } else { None }) { sym::cover("refused"); return }
    sym::cover("created"); let id = p.max + 1; let mut want = vec![]; for x in [SchemaSetting::AppendOnly, SchemaSetting::SignatureRequired] { if s.contains(&x) { want.push(x) } }
    sym::check(P::get_current_schema_identifier_maximum() == id, "the new schema gets the next id");
    sym::check(P::get_schema_by_id(id) == Some(SchemaResponse { schema_id: id, model: model(md).into_inner(), model_type: mty(mt), payload_location: loc(l), settings: want.clone() }), "a schema reads back as it was registered");
    sym::check(P::get_schema_info_by_id(id) == Some(SchemaInfoResponse { schema_id: id, model_type: mty(mt), payload_location: loc(l), settings: want }), "its information too");
    sym::check(SchemaInfos::<Test>::get(id).map(|i| i.has_name) == Some(named), "it is named exactly when a name was given");
    let mut v = p.vers.clone(); if named { v.push(id) } sym::check(ids(b"abc", b"de") == v, "a named schema becomes the name's newest version");
    sym::check(SchemaInfos::<Test>::sim_all().len() == 2 && SchemaPayloads::<Test>::sim_all().len() == 2, "exactly one schema is added"); old_kept(&p);
    let who = if how >= 3 { acct(5) } else { acct(9) }; let ev = events(); sym::check(ev.len() == 1 + named as usize && ev[0] == RuntimeEvent::Schemas(Event::SchemaCreated { key: who, schema_id: id }), "the creation is announced");
    if named { sym::cover("named"); sym::check(ev[1] == RuntimeEvent::Schemas(Event::SchemaNameCreated { schema_id: id, name: b"abc.de".to_vec() }), "so is the name") }
}
fn k01_absent() {
    let p = pre(0); let q = sym::u16("asked"); sym::assume(q != p.old);
    sym::check(P::get_schema_by_id(q).is_none() && P::get_schema_info_by_id(q).is_none(), "an id without a schema has none"); sym::cover("asked");
}
fn k01_kf_limit() {
    // the configured maximum number of registrations
    CurrentSchemaIdentifierMaximum::<Test>::set(60000); GovernanceSchemaModelMaxBytes::<Test>::set(LIMIT);
    let ok = create(sym::choose("call", 0, 4), signed(9), model(1), ModelType::AvroBinary, PayloadLocation::OnChain, vec![], None);
    sym::check(!ok, "no more schemas than the configured maximum are registered");
}
fn k02_parse() {
    // every ASCII name of up to seven characters
    let n = sym::choose("length", 0, 7) as usize; let t = sym::byte_vec("name", n); for c in t.iter() { sym::assume(*c < 0x80) }
    // at most two characters are anything at all, the others letters, hyphens or separators
    let mut odd = 0u8; for c in t.iter() { let plain = ((*c >= b'a') & (*c <= b'z')) | (*c == b'-') | (*c == b'.'); odd += !plain as u8; } sym::assume(odd <= 1);
    named(t);
}
fn k02_edges() { // white space and capitals
    let mut t = b"aBc.d".to_vec(); let at = sym::choose("at", 0, 5) as usize; let c = sym::u8("char"); sym::assume(c < 0x80); t.insert(at, c); if sym::bool("twice") { let at2 = sym::choose("second", 0, 6) as usize; let c = sym::u8("char"); sym::assume(c < 0x80); t.insert(at2, c) } named(t);
}
fn k02_bytes() { // not ASCII
    let mut t = b"abc.d".to_vec(); let at = sym::choose("at", 0, 4) as usize; let v = sym::byte_vec("bytes", 2); sym::assume((v[0] >= 0x80) | (v[1] >= 0x80)); t.splice(at..at, v); sym::check(P::get_schema_versions(t).is_none(), "a name that is not ASCII is refused"); sym::cover("refused");
}
fn k02_lengths() {
    let (a, b) = (sym::choose("namespace", 0, 32) as usize, sym::choose("descriptor", 0, 32) as usize); sym::assume(a + b + 1 <= 32);
    let t: Vec<u8> = [vec![b'n'; a], vec![b'.'], vec![b'd'; b]].concat(); named(t);
}
fn k02_many() {
    // as many versions as a name may have
    let n = sym::choose("versions", 251, 254) as usize; let p = pre(0); let v: Vec<u16> = (0..n).map(|i| 1000 + i as u16).collect(); set_ids(b"abc", b"de", v.clone()); let id = p.old; sym::assume((id < 1000) | (id > 2000)); let ok = n < 254 && !p.info.has_name; let r = P::create_schema_name_via_governance(org(0), id, name(b"abc.de")); sym::check(r.is_ok() == ok, "a name has at most 254 versions");
    let mut w = v; if ok { sym::cover("named"); w.push(id) } else { sym::cover("refused") } let l = P::get_schema_versions(b"abc.de".to_vec()).unwrap(); sym::check(l.len() == w.len(), "all of them are listed"); for (i, x) in l.iter().enumerate() { sym::check(x.schema_version as usize == i + 1 && x.schema_id == w[i], "numbered from 1 in the order they were added") }
}
fn k02_name() {
    // naming an existing schema
    let nv = sym::choose("versions", 0, 2); let p = pre(nv); let o = sym::choose("origin", 0, 3); let id = sym::u16("schema"); let known = id == p.old;
    let dup = p.vers.iter().any(|v| *v == id); let ok = o == 0 && known && !p.info.has_name && !dup; let r = P::create_schema_name_via_governance(org(o), id, name(b" Abc.dE"));
    sym::check(r.is_ok() == ok, "governance names a schema exactly when it exists and has no name"); if !ok { sym::cover("refused"); return }
    sym::cover("named"); let mut v = p.vers.clone(); v.push(id); sym::check(ids(b"abc", b"de") == v, "the schema becomes the name's newest version");
    sym::check(SchemaInfos::<Test>::get(id) == Some(SchemaInfo { has_name: true, ..p.info.clone() }) && SchemaPayloads::<Test>::get(id) == Some(model(4)) && P::get_current_schema_identifier_maximum() == p.max && ids(b"abc", b"df") == vec![1], "nothing else about it changes");
    sym::check(events().last() == Some(&RuntimeEvent::Schemas(Event::SchemaNameCreated { schema_id: id, name: b"abc.de".to_vec() })), "the name is announced");
    sym::check(P::create_schema_name_via_governance(org(0), id, name(b"xyz.q")).is_err(), "a schema has at most one name");
}
fn k02_versions() {
    // names and their versions as listed
    let (n1, n2) = (sym::choose("first", 0, 3), sym::choose("second", 0, 2)); let a: Vec<u16> = (0..n1).map(|_| sym::u16("a")).collect(); let b: Vec<u16> = (0..n2).map(|_| sym::u16("b")).collect();
    if n1 > 0 { set_ids(b"abc", b"de", a.clone()) } if n2 > 0 { set_ids(b"abc", b"f", b.clone()) } set_ids(b"abcd", b"de", vec![7]);
    let want = |v: &[u16], nm: &[u8]| -> Vec<SchemaVersionResponse> { v.iter().enumerate().map(|(i, id)| SchemaVersionResponse { schema_name: nm.to_vec(), schema_version: i as u8 + 1, schema_id: *id }).collect() };
    sym::check(P::get_schema_versions(b"ABC.de ".to_vec()) == Some(want(&a, b"abc.de")), "a name lists its schemas, numbered from 1 in the order they were added");
    sym::check(P::get_schema_versions(b"abc.zz".to_vec()) == Some(vec![]), "an unused name lists nothing");
    let (mut got, mut all) = (P::get_schema_versions(b"abc".to_vec()).unwrap(), [want(&a, b"abc.de"), want(&b, b"abc.f")].concat()); got.sort_by_key(|x| (x.schema_name.clone(), x.schema_version)); all.sort_by_key(|x| (x.schema_name.clone(), x.schema_version));
    sym::check(got == all, "a namespace lists all of its names' schemas and no others"); sym::cover("listed");
}
fn k03_limits() {
    // who may register what
    let p = pre(0); let how = sym::choose("call", 0, 4); let o = sym::choose("origin", 0, 3); let (mt, l, st, md) = (sym::choose("type", 0, 1), sym::choose("location", 0, 3), sym::choose("settings", 0, 3), sym::choose("model", 0, 8));
    sym::assume((o != 0) as u8 + (st != 0) as u8 + (md != 1) as u8 <= 1); let s = if how == 0 { vec![] } else { sets(st) };
    let len = MODELS[md as usize].0.len() as u32; let good = if mt == 0 { MODELS[md as usize].1 } else { MODELS[md as usize].2 };
    let auth = if how >= 3 { o == 0 } else { o <= 1 }; let ok = auth && good && len >= MIN && len <= p.limit && (!s.contains(&SchemaSetting::AppendOnly) || l == 2) && p.max < u16::MAX;
    let r = create(how, org(o), model(md), mty(mt), loc(l), s, None);
    sym::check(r == ok, "a schema is registered exactly for a permitted origin, a model of its type within the size limits, append-only items only, and a free id"); if r { sym::cover("registered") }
}
fn k03_models() {
    // any three bytes as a model: only a JSON object is an Avro model, only a JSON list of columns a Parquet model
    GovernanceSchemaModelMaxBytes::<Test>::set(LIMIT); let v = sym::byte_vec("model", 3); for c in v.iter() { sym::assume(!((*c >= b'0') & (*c <= b'9')) & (*c != b'-')) }
    let t = sym::choose("type", 0, 1); let ws = |c: u8| c == b' ' || c == b'\t' || c == b'\n' || c == b'\r'; let (a, z) = if t == 0 { (b'{', b'}') } else { (b'[', b']') };
    let ok = (v[0] == a && ws(v[1]) && v[2] == z) || (v[0] == a && v[1] == z && ws(v[2])) || (ws(v[0]) && v[1] == a && v[2] == z);
    let r = create(2, signed(1), BoundedVec::try_from(v.clone()).unwrap(), mty(t), PayloadLocation::OnChain, vec![], None);
    sym::check(r == ok, "a model is accepted exactly when it is one"); if r { sym::cover("model"); sym::check(P::get_schema_by_id(1).map(|s| s.model) == Some(v), "the model is stored byte for byte") }
}
fn k03_max_size() {
    let p = pre(0); let n = sym::u32("size"); let o = sym::choose("origin", 0, 3); let r = P::set_max_schema_model_bytes(org(o), n);
    sym::check(r.is_ok() == (o == 2 && n <= LIMIT), "only root sets the size limit, at most the fixed bound"); if r.is_ok() { sym::cover("set"); sym::check(P::get_schema_model_max_bytes() == n, "the limit is what was set"); unchanged(&p) }
}
fn k03_valid_ids() {
    let p = pre(0); let n = sym::choose("ids", 0, 3); let v: Vec<u16> = (0..n).map(|_| sym::u16("id")).collect(); for x in v.iter() { sym::assume(*x > 0) }
    let ok = <P as SchemaValidator<u16>>::are_all_schema_ids_valid(&v); sym::check(ok == v.iter().all(|x| *x <= p.max), "ids are valid exactly when each has been issued"); if ok { sym::cover("valid") } else { sym::cover("invalid") }
}
fn k03_kf_zero() {
    let _p = pre(0); let ok = <P as SchemaValidator<u16>>::are_all_schema_ids_valid(&vec![0]); sym::check(!ok, "ids are valid exactly when each has been issued");
}
fn k03_propose() {
    // proposals carry the caller's content, register nothing
    let p = pre(1); let o = sym::choose("origin", 0, 3); let how = sym::choose("call", 0, 2); let id = sym::u16("schema"); let (mt, l, st) = (mty(sym::choose("type", 0, 1)), loc(sym::choose("location", 0, 3)), sets(sym::choose("settings", 0, 3))); let s: Sets = BoundedVec::try_from(st).unwrap(); let nm = if sym::bool("named") { Some(name(b"abc.de")) } else { None };
    #[allow(deprecated)]
    let r = match how { 0 => P::propose_to_create_schema(org(o), model(2), mt, l, s.clone()), 1 => P::propose_to_create_schema_v2(org(o), model(2), mt, l, s.clone(), nm.clone()), _ => P::propose_to_create_schema_name(org(o), id, name(b"abc.de")) };
    let ok = o <= 1 && (how < 2 || (id == p.old && !p.info.has_name)); sym::check(r.is_ok() == ok, "any signer proposes; a name only for a schema that exists and has none"); if !ok { return } unchanged(&p);
    let props = unsafe { PROPOSED.clone() }; sym::cover("proposed");
    let who = if o == 0 { acct(9) } else { acct(1) }; let want = match how { 0 => Call::<Test>::create_schema_via_governance { creator_key: who.clone(), model: model(2), model_type: mt, payload_location: l, settings: s }, 1 => Call::<Test>::create_schema_via_governance_v2 { creator_key: who.clone(), model: model(2), model_type: mt, payload_location: l, settings: s, schema_name: nm }, _ => Call::<Test>::create_schema_name_via_governance { schema_id: id, schema_name: name(b"abc.de") } };
    sym::check(props == vec![(who, RuntimeCall::Schemas(want))], "the proposal is the corresponding governance call with the caller as creator");
}
}
fn lower(c: u8) -> u8 { if c >= b'A' && c <= b'Z' { c + 32 } else { c } }
fn named(t: Vec<u8>) {
    GovernanceSchemaModelMaxBytes::<Test>::set(LIMIT);
    let r = create(2, signed(1), model(1), ModelType::AvroBinary, PayloadLocation::OnChain, vec![], Some(name(&t)));
    let ws = |c: u8| (c >= 9 && c <= 13) || c == 32; let (mut a, mut z) = (0, t.len()); while a < z && ws(t[a]) { a += 1 } while z > a && ws(t[z - 1]) { z -= 1 }
    let c: Vec<u8> = t[a..z].iter().map(|x| lower(*x)).collect(); let okc = c.iter().all(|x| (*x >= b'a' && *x <= b'z') || *x == b'-' || *x == b'.');
    let parts: Vec<Vec<u8>> = c.split(|x| *x == b'.').map(|x| x.to_vec()).collect(); let edge = |x: &[u8]| x[0] == b'-' || x[x.len() - 1] == b'-';
    let ok = okc && parts.len() == 2 && parts[0].len() >= 3 && parts[0].len() <= 30 && parts[1].len() >= 1 && parts[1].len() <= 28 && !edge(&parts[0]) && !edge(&parts[1]);
    sym::check(r == ok, "a name is accepted exactly when it is a namespace and a descriptor of letters and inner hyphens, whatever its case and surrounding white space");
    if ok { sym::cover("named"); sym::check(SchemaNameToIds::<Test>::sim_all().len() == 1 && ids(&parts[0], &parts[1]) == vec![1], "it is stored under its canonical form"); sym::check(events().len() == 2 && events()[1] == RuntimeEvent::Schemas(Event::SchemaNameCreated { schema_id: 1, name: c }), "and announced under it") }
}
