use apache_avro::{schema::Schema, types::Value};
use common_helpers::avro;
use std::collections::HashMap;
fn schema(t: &str) -> Schema { avro::translate_schema(format!(r#"{{"type":"record","name":"t","fields":[{{"name":"a","type":{t}}}]}}"#).into_bytes()).unwrap() }
fn map(v: &[(&str, Value)]) -> HashMap<String, Value> { v.iter().map(|(k, v)| (k.to_string(), v.clone())).collect() }
/// one field of type `t` holding `v` is written and read back unchanged
fn rt(t: &str, v: Value) {
    let s = schema(t); let d = avro::populate_schema_and_serialize(&s, &map(&[("a", v.clone())]));
    sym::check(d.is_ok(), "a value of the declared type is accepted"); let d = d.unwrap();
    let r = avro::get_schema_data_map(&d, &s); sym::check(r.is_ok(), "what was written can be read"); let r = r.unwrap();
    sym::check(r.len() == 1, "exactly the declared fields come back");
    match (r.get("a"), &v) {
        (Some(Value::Bytes(x)), Value::Bytes(y)) => sym::check(sym::same_bytes(x, y), "bytes come back unchanged"),
        (Some(Value::String(x)), Value::String(y)) => sym::check(sym::same_bytes(x.as_bytes(), y.as_bytes()), "string comes back unchanged"),
        (Some(Value::Fixed(n, x)), Value::Fixed(m, y)) => sym::check(n == m && sym::same_bytes(x, y), "fixed comes back unchanged"),
        (Some(Value::Float(x)), Value::Float(y)) => sym::check(x.to_bits() == y.to_bits(), "float comes back unchanged"),
        (Some(Value::Double(x)), Value::Double(y)) => sym::check(x.to_bits() == y.to_bits(), "double comes back unchanged"),
        (Some(x), y) => sym::check(x == y, "value comes back unchanged"),
        (None, _) => sym::check(false, "field comes back"),
    }
}
fn ascii(name: &str, max: u64) -> String { let n = sym::choose("len", 0, max) as usize; let v = sym::byte_vec(name, n); for b in &v { sym::assume(*b < 0x80) } unsafe { String::from_utf8_unchecked(v) } }
const TYPES: [&str; 8] = [r#""null""#, r#""boolean""#, r#""int""#, r#""long""#, r#""float""#, r#""double""#, r#""bytes""#, r#""string""#];
fn value(k: u64) -> Value { match k { 0 => Value::Null, 1 => Value::Boolean(sym::bool("b")), 2 => Value::Int(sym::i32("i")), 3 => Value::Long(sym::i64("l")), 4 => Value::Float(f32::from_bits(sym::u32("f"))), 5 => Value::Double(f64::from_bits(sym::u64("d"))), 6 => Value::Bytes(sym::bytes::<2>("y").to_vec()), _ => Value::String("s".into()) } }
/// which value kinds Avro accepts for a declared primitive type (an int is also a long)
fn accepts(t: usize, k: u64) -> bool { t as u64 == k || (t == 3 && k == 2) }
const DOC: &str = r#"{"type":"record","name":"t","doc":"d","fields":[{"name":"a","type":"long","default":1},{"name":"b","type":["null","string"]}]}"#;
const CANON: &str = r#"{"name":"t","type":"record","fields":[{"name":"a","type":"long"},{"name":"b","type":["null","string"]}]}"#;
/// all entry points agree on whether these bytes are a schema, and the canonical form is a fixed point
fn agree(b: Vec<u8>) -> bool {
    let v = avro::validate_raw_avro_schema(&b); let t = avro::translate_schema(b.clone());
    sym::check(v.is_ok() == t.is_ok(), "validation accepts exactly the schemas that can be translated");
    let ok = v.is_ok();
    if ok {
        let f = avro::fingerprint_raw_schema(std::str::from_utf8(&b).unwrap()); sym::check(f.is_ok(), "an accepted schema has a canonical form"); let (s, c) = f.unwrap();
        sym::check(s == t.unwrap(), "both entry points yield the same schema");
        let g = avro::fingerprint_raw_schema(std::str::from_utf8(&c).unwrap()); sym::check(g.is_ok(), "the canonical form is itself a valid schema");
        sym::check(g.unwrap().1 == c, "the canonical form is its own canonical form");
    }
    ok
}
/// a record schema with any one byte of the range replaced by anything
fn mutated(lo: u64, hi: u64) { let mut b = br#"{"type":"record","name":"t","fields":[]}"#.to_vec(); let k = sym::choose("pos", lo, hi) as usize; let x = sym::u8("x"); sym::assume(!x.is_ascii_digit() & (x != b'-')); b[k] = x; agree(b); }
/// a record schema named by one ASCII character
fn name1(c: u8) -> Vec<u8> { [br#"{"type":"record","name":""#.as_slice(), &[c], br#"","fields":[]}"#].concat() }
fn letter(c: u8) -> bool { (c >= b'a' && c <= b'z') | (c >= b'A' && c <= b'Z') | (c == b'_') }
sym::harnesses! {
fn c01_null_boolean() { if sym::choose("k", 0, 1) == 0 { rt(TYPES[0], Value::Null) } else { rt(TYPES[1], Value::Boolean(sym::bool("v"))) } sym::cover("rt"); }
fn c01_int() { rt(TYPES[2], Value::Int(sym::i32("v"))); sym::cover("rt"); }
fn c01_long() { rt(TYPES[3], Value::Long(sym::i64("v"))); sym::cover("rt"); }
fn c01_float_double() { if sym::choose("k", 0, 1) == 0 { rt(TYPES[4], Value::Float(f32::from_bits(sym::u32("v")))) } else { rt(TYPES[5], Value::Double(f64::from_bits(sym::u64("v")))) } sym::cover("rt"); }
fn c01_bytes() { let n = sym::choose("len", 0, 5) as usize; rt(TYPES[6], Value::Bytes(sym::byte_vec("v", n))); sym::cover("rt"); }
fn c01_string() { rt(TYPES[7], Value::String(ascii("v", 4))); sym::cover("rt"); }
fn c01_unicode_string() { let c = sym::char("c"); rt(TYPES[7], Value::String(["a".to_string(), c.to_string()].concat())); sym::cover("rt"); }
fn c01_fixed() { rt(r#"{"type":"fixed","name":"f","size":3}"#, Value::Fixed(3, sym::bytes::<3>("v").to_vec())); sym::cover("rt"); }
fn c01_optional() { if sym::choose("k", 0, 1) == 0 { rt(r#"["null","long"]"#, Value::Union(0, Box::new(Value::Null))) } else { rt(r#"["null","long"]"#, Value::Union(1, Box::new(Value::Long(sym::i64("v"))))) } sym::cover("rt"); }
fn c01_array() { let n = sym::choose("len", 0, 3); rt(r#"{"type":"array","items":"int"}"#, Value::Array((0..n).map(|_| Value::Int(sym::i32("v") & 0x3fff)).collect())); sym::cover("rt"); }
fn c01_enum() { let k = sym::choose("k", 0, 2) as usize; rt(r#"{"type":"enum","name":"e","symbols":["A","B","C"]}"#, Value::Enum(k as u32, ["A", "B", "C"][k].into())); sym::cover("rt"); }
fn c01_nested() { rt(r#"{"type":"record","name":"n","fields":[{"name":"x","type":"boolean"},{"name":"y","type":"int"}]}"#, Value::Record(vec![("x".into(), Value::Boolean(sym::bool("x"))), ("y".into(), Value::Int(sym::i32("y")))])); sym::cover("rt"); }
fn c01_fields() {
    // three fields, supplied in any order: every field comes back under its own name
    let s = avro::translate_schema(br#"{"type":"record","name":"t","fields":[{"name":"a","type":"long"},{"name":"b_B","type":"boolean"},{"name":"A","type":"bytes"}]}"#.to_vec()).unwrap();
    let (a, b, c) = (sym::i64("a") & 0xfff, sym::bool("b"), sym::bytes::<2>("c"));
    let mut f = vec![("a", Value::Long(a)), ("b_B", Value::Boolean(b)), ("A", Value::Bytes(c.to_vec()))];
    match sym::choose("order", 0, 2) { 0 => {} 1 => f.reverse(), _ => f.swap(0, 1) }
    let d = avro::populate_schema_and_serialize(&s, &map(&f)).unwrap(); let r = avro::get_schema_data_map(&d, &s).unwrap();
    sym::check(r.len() == 3 && r.get("a") == Some(&Value::Long(a)) && r.get("b_B") == Some(&Value::Boolean(b)), "fields come back under their names");
    sym::check(matches!(r.get("A"), Some(Value::Bytes(x)) if sym::same_bytes(x, &c)), "and the last one too"); sym::cover("rt");
}
fn c01_missing_field() {
    let s = avro::translate_schema(br#"{"type":"record","name":"t","fields":[{"name":"a","type":"long"},{"name":"b","type":"boolean"}]}"#.to_vec()).unwrap();
    let (ha, hb) = (sym::bool("ha"), sym::bool("hb")); let mut f = vec![]; if ha { f.push(("a", Value::Long(sym::i64("a") & 0xff))) } if hb { f.push(("b", Value::Boolean(sym::bool("b")))) }
    let d = avro::populate_schema_and_serialize(&s, &map(&f));
    sym::check(d.is_ok() == (ha & hb), "a record is written exactly when every declared field is supplied");
    if d.is_ok() { sym::cover("written"); } else { sym::cover("refused"); }
}
fn c01_wrong_type() {
    let t = sym::choose("type", 0, 7) as usize; let k = sym::choose("kind", 0, 7); let v = value(k);
    let d = avro::populate_schema_and_serialize(&schema(TYPES[t]), &map(&[("a", v)]));
    if accepts(t, k) { sym::check(d.is_ok(), "a value of the declared type is accepted"); sym::cover("accepted"); } else { sym::check(d.is_err(), "a value of another type is refused"); sym::cover("refused"); }
}
fn c01_not_a_record() {
    let t = sym::choose("type", 0, 7) as usize; let s = avro::translate_schema(TYPES[t].as_bytes().to_vec()).unwrap();
    sym::check(avro::populate_schema_and_serialize(&s, &map(&[("a", Value::Long(1))])).is_err(), "only record schemas can be populated"); sym::cover("refused");
}
fn c01_not_a_record_read() {
    // data of a schema that is not a record is never presented as a set of fields
    let d = sym::bytes::<2>("d").to_vec(); let t = sym::choose("type", 0, 3) as usize; let s = avro::translate_schema(TYPES[t].as_bytes().to_vec()).unwrap();
    sym::check(avro::get_schema_data_map(&d, &s).is_err(), "only records have named fields"); sym::cover("refused");
}
fn c01_arbitrary_data() {
    // any byte string either is refused or reads as a record with the declared fields, never a crash
    let s = avro::translate_schema(br#"{"type":"record","name":"t","fields":[{"name":"b","type":"boolean"},{"name":"a","type":"int"}]}"#.to_vec()).unwrap();
    let n = sym::choose("len", 0, 4) as usize; let d = sym::byte_vec("d", n);
    match avro::get_schema_data_map(&d, &s) { Err(_) => sym::cover("refused"), Ok(r) => {
        sym::cover("read"); sym::check(r.len() == 2 && matches!(r.get("a"), Some(Value::Int(_))) && matches!(r.get("b"), Some(Value::Boolean(_))), "a record read from any bytes has the declared fields and types");
        let e = avro::populate_schema_and_serialize(&s, &r); sym::check(e.is_ok(), "what was read can be written"); let r2 = avro::get_schema_data_map(&e.unwrap(), &s).unwrap();
        sym::check(r2 == r, "and reads the same again");
    } }
}
fn c01_truncated() {
    let s = avro::translate_schema(br#"{"type":"record","name":"t","fields":[{"name":"a","type":"long"},{"name":"b","type":"double"}]}"#.to_vec()).unwrap();
    let d = avro::populate_schema_and_serialize(&s, &map(&[("a", Value::Long(sym::i64("a") & 0x3fff)), ("b", Value::Double(f64::from_bits(sym::u64("b"))))])).unwrap();
    let cut = sym::choose("cut", 0, 8) as usize; sym::assume(cut < d.len());
    sym::check(avro::get_schema_data_map(&d[..cut].to_vec(), &s).is_err(), "a truncated record is refused"); sym::cover("cut");
}
fn c02_short() {
    // every byte string of up to three bytes that does not start a number
    let n = sym::choose("len", 0, 3) as usize; let b = sym::byte_vec("s", n); for x in &b { sym::assume(!x.is_ascii_digit() & (*x != b'-')) }
    agree(b); sym::cover("refused");
}
fn c02_mutated_primitive() {
    let t = TYPES[sym::choose("type", 0, 7) as usize]; let mut b = t.as_bytes().to_vec(); let k = sym::choose("pos", 0, 8) as usize; sym::assume(k < b.len()); b[k] = sym::u8("x");
    if agree(b) { sym::cover("accepted"); } else { sym::cover("refused"); }
}
fn c02_mutated_record_a() { mutated(0, 6); sym::cover("done"); }
fn c02_mutated_record_b() { mutated(7, 16); sym::cover("done"); }
fn c02_mutated_record_c() { mutated(17, 23); sym::cover("done"); }
fn c02_mutated_record_d() { mutated(27, 33); sym::cover("done"); }
fn c02_mutated_record_e() { mutated(34, 39); sym::cover("done"); }
fn c02_whitespace() {
    // white space between tokens and documentation do not reach the canonical form
    let mut b = DOC.as_bytes().to_vec(); let k = sym::choose("pos", 0, 5) as usize; let at = [0, 1, 7, 8, 16, b.len()][k]; let w = sym::u8("w"); sym::assume(w == b' ' || w == b'\n' || w == b'\t' || w == b'\r'); b.insert(at, w);
    let r = avro::fingerprint_raw_schema(std::str::from_utf8(&b).unwrap()); sym::check(r.is_ok(), "white space between tokens is harmless");
    sym::check(r.unwrap().1 == CANON.as_bytes(), "canonical form has no white space, documentation or defaults"); sym::cover("ws");
}
fn c02_not_utf8() {
    let mut b = br#""string""#.to_vec(); let k = sym::choose("pos", 0, 7) as usize; let x = sym::u8("x"); sym::assume(x >= 0x80); b[k] = x;
    sym::check(avro::validate_raw_avro_schema(&b).is_err() && avro::translate_schema(b).is_err(), "bytes that are not UTF-8 are refused"); sym::cover("refused");
}
fn c02_doc() {
    // any two bytes inside the documentation of a schema
    let b = [br#"{"type":"record","doc":""#.as_slice(), &sym::bytes::<2>("d"), br#"","name":"t","fields":[]}"#].concat();
    if agree(b) { sym::cover("accepted"); } else { sym::cover("refused"); }
}
fn c02_names() {
    // the name of a record is kept, whatever letter it is
    let c = sym::u8("c"); sym::assume(letter(c)); let c = sym::concretize(c as u64) as u8; let src = name1(c);
    let r = avro::validate_raw_avro_schema(&src); sym::check(r.is_ok(), "a letter or underscore is a valid name");
    let (_, k) = avro::fingerprint_raw_schema(std::str::from_utf8(&src).unwrap()).unwrap(); let want = [br#"{"name":""#.as_slice(), &[c], br#"","type":"record","fields":[]}"#].concat(); sym::check(sym::same_bytes(&k, &want), "the canonical form keeps the name"); sym::cover("valid");
}
fn c02_kf_names() {
    // a name that is not allowed must be refused like any other malformed schema
    let c = sym::u8("c"); sym::assume((c < 0x80) & !letter(c)); let r = avro::validate_raw_avro_schema(&name1(c)); sym::check(r.is_err(), "a schema with an invalid name is refused"); sym::cover("refused");
}
fn c02_unknown_type() {
    // a type name that is neither primitive nor defined is refused
    let mut b = *b"int"; let k = sym::choose("pos", 0, 2) as usize; let c = sym::u8("t"); sym::assume((c >= b'a') & (c <= b'z')); b[k] = sym::concretize(c as u64) as u8; let src = [br#"{"type":"record","name":"t","fields":[{"name":"a","type":""#.as_slice(), &b, br#""}]}"#].concat();
    let known = sym::same_bytes(&b, b"int"); let r = avro::validate_raw_avro_schema(&src);
    if known { sym::check(r.is_ok(), "a primitive type is known"); sym::cover("known"); } else { sym::check(r.is_err(), "an unknown type is refused"); sym::cover("unknown"); }
}
}
