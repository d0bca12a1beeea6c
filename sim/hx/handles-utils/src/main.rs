use handles_utils::*;
use unicode_normalization::char::{decompose_compatible, is_combining_mark};
include!("ranges.rs");
include!(concat!(env!("OUT_DIR"), "/ref.rs"));

/// branch-free membership in the supported blocks
fn supported(c: char) -> bool { let mut r = false; for &(a, b) in &SUPPORTED { r |= (c as u32).wrapping_sub(a) <= b - a; } r }
const BLOCKED: &str = "\"#%(),.:;<>@\\`{}";
fn blocked(c: char) -> bool { let mut r = false; for b in BLOCKED.chars() { r |= b == c; } r }
/// What one character contributes to a canonical form: nothing for white space, else the letters of
/// its compatibility decomposition without combining marks, homoglyphs replaced, ASCII lower-cased.
fn canon_ref(c: char, out: &mut String) {
    if c.is_whitespace() { return }
    decompose_compatible(c, |d| if !is_combining_mark(d) { out.push(homoglyph(d).to_ascii_lowercase()) });
}
fn any_in(name: &str, lo: u32, hi: u32) -> char { let c = sym::char(name); sym::assume(c as u32 >= lo && c as u32 <= hi); c }
/// one arbitrary supported character of a code point range, in a fixed context
fn one(lo: u32, hi: u32) {
    let c = any_in("c", lo, hi);
    sym::assume(supported(c));
    let s: String = ['Z', c, '4'].iter().collect();
    let mut want = String::new(); canon_ref('Z', &mut want); canon_ref(c, &mut want); canon_ref('4', &mut want);
    let got = convert_to_canonical(&s);
    if c.is_whitespace() { sym::cover("white space"); } else if want.len() > 3 { sym::cover("multi-byte"); }
    sym::check(sym::same_bytes(got.as_bytes(), want.as_bytes()), "canonical form is the concatenation of what each character contributes");
}
fn small(name: &str) -> char {
    let c = sym::char(name); let u = c as u32;
    sym::assume((u >= 0x20 && u < 0x80) || (u >= 0xe0 && u < 0xf0) || (u >= 0x300 && u < 0x304) || u == 0x430);
    c
}
static mut DRAWS: Vec<(u32, u32)> = Vec::new();
static mut BAD: u32 = 0;
/// arbitrary generator: the value drawn in step i depends on i only (one run, one seed); its position inside
/// the requested range is arbitrary
fn src(_seed: u64, step: u32, lo: u32, hi: u32) -> u32 { unsafe {
    let v = sym::u32("draw"); sym::assume(v < hi - lo);
    if DRAWS.len() != step as usize { BAD += 1; }
    DRAWS.push((v, hi - lo)); lo + v
} }
static mut STREAMS: Vec<(u64, Vec<u8>)> = Vec::new();
fn hash(seed: u64, s: &[u8]) -> u64 { unsafe { STREAMS.push((seed, s.to_vec())); 0x1234_5678_9abc_def0 } }
static mut SEEDS: Vec<u64> = Vec::new();
fn src_seed(seed: u64, _s: u32, lo: u32, _h: u32) -> u32 { unsafe { SEEDS.push(seed); } lo }
/// Fisher-Yates over min..=max with arbitrary draws
fn permutation(min: u16, n: u16) {
    oorandom::set_source(src); twox_hash::set_oracle(hash);
    let max = min + (n - 1);
    let out: Vec<u16> = suffix::generate_unique_suffixes(min, max, "base").collect();
    sym::check(out.len() == n as usize, "as many suffixes as the range holds");
    let mut inside = true; let mut distinct = true;
    for i in 0..out.len() { inside &= out[i] >= min; inside &= out[i] <= max; for j in 0..i { distinct &= out[i] != out[j]; } }
    sym::check(inside, "every suffix lies in the configured range");
    sym::check(distinct, "no suffix appears twice");
    // the sequence is the one every earlier node computed: same draws, same order
    let d = unsafe { &DRAWS }; let mut idx: Vec<u16> = (0..n).map(|k| min + k).collect(); let mut same = true; let mut w = unsafe { BAD } == 0 && d.len() == n as usize;
    if w { for (step, i) in (0..n as usize).rev().enumerate() {
        w &= d[step].1 == i as u32 + 1;
        let j = d[step].0 as usize; if j >= n as usize { continue }
        let t = idx[j]; idx[j] = idx[i]; idx[i] = t; same &= out[step] == t;
    } }
    sym::check(w, "one uniform draw per suffix over the positions left");
    sym::check(same, "sequence equals the published shuffle for the same draws");
    sym::cover("permutation");
}
sym::harnesses! {
fn h01_latin_greek_cyrillic() { one(0x20, 0x52f) }
fn h01_hebrew_to_jamo() { one(0x590, 0x11ff) }
fn h01_extended_latin_greek() { one(0x1e00, 0x1fff) }
fn h01_kana_cjk() { one(0x3040, 0x9fff) }
fn h01_hangul() { one(0xac00, 0xd7af) }
fn h01_compat_forms() { one(0xf900, 0xfdff) }
fn h01_pairs() {
    let (a, b) = (small("a"), small("b"));
    let s: String = [a, b].iter().collect();
    let mut want = String::new(); canon_ref(a, &mut want); canon_ref(b, &mut want);
    let got = convert_to_canonical(&s);
    sym::check(sym::same_bytes(got.as_bytes(), want.as_bytes()), "canonical form of two characters");
    sym::cover("pair");
}
fn h01_neutral() {
    // white space and combining marks anywhere do not matter, ASCII letter case does not either (but see h01_kf_l)
    let k = sym::choose("pos", 0, 3) as usize; let x = sym::char("x");
    sym::assume((x.is_whitespace() || is_combining_mark(x)) && (x as u32) < 0x3100);
    let mut v: Vec<char> = "b9K".chars().collect(); let plain = convert_to_canonical(&v.iter().collect::<String>());
    v.insert(k, x);
    let got = convert_to_canonical(&v.iter().collect::<String>());
    // a lone Hangul or enclosing mark is still removed; nothing else may change
    sym::check(sym::same_bytes(got.as_bytes(), plain.as_bytes()), "inserting white space or a diacritical mark leaves the canonical form alone");
    sym::cover("inserted");
}
fn h01_case() {
    let c = any_in("c", 0x41, 0x5a); sym::assume(c != 'L');
    let up = convert_to_canonical(&c.to_string()); let lo = convert_to_canonical(&c.to_ascii_lowercase().to_string());
    sym::check(sym::same_bytes(up.as_bytes(), lo.as_bytes()), "ASCII letter case does not matter");
    sym::cover("letter");
}
fn h01_kf_l() { sym::check(convert_to_canonical("L") == convert_to_canonical("l"), "L and l have the same canonical form"); }
fn h01_t_any_char() {
    let c = sym::char("c"); let mut want = String::new(); canon_ref(c, &mut want);
    let got = convert_to_canonical(&c.to_string());
    sym::check(sym::same_bytes(got.as_bytes(), want.as_bytes()), "any Unicode scalar value"); sym::cover("any");
}
fn h01_t_triples() {
    let (a, b, c) = (small("a"), any_in("b", 0x61, 0x7a), small("c"));
    let s: String = [a, b, c].iter().collect();
    let mut want = String::new(); canon_ref(a, &mut want); canon_ref(b, &mut want); canon_ref(c, &mut want);
    let got = convert_to_canonical(&s);
    sym::check(sym::same_bytes(got.as_bytes(), want.as_bytes()), "canonical form of three characters"); sym::cover("triple");
}
fn h02_supported_char() {
    let c = sym::char("c"); let r = consists_of_supported_unicode_character_sets(&c.to_string());
    sym::check(r == supported(c), "a character is accepted exactly when it lies in a supported block");
    if r { sym::cover("accepted"); } else { sym::cover("rejected"); }
}
fn h02_supported_string() {
    let k = sym::choose("pos", 0, 4) as usize; let (c, d) = (sym::char("c"), sym::char("d"));
    let mut v: Vec<char> = "aé字z".chars().collect(); v.insert(k, c); v.push(d);
    let r = consists_of_supported_unicode_character_sets(&v.iter().collect::<String>());
    sym::check(r == (supported(c) & supported(d)), "a string is accepted exactly when every character is supported");
    if r { sym::cover("accepted"); } else { sym::cover("rejected"); }
}
fn h02_blocked_char() {
    let c = sym::char("c"); let r = contains_blocked_characters(&c.to_string());
    sym::check(r == blocked(c), "a character is blocked exactly when it is listed");
    if r { sym::cover("blocked"); } else { sym::cover("clean"); }
}
fn h02_blocked_string() {
    let k = sym::choose("pos", 0, 4) as usize; let (c, d) = (sym::char("c"), sym::char("d"));
    let mut v: Vec<char> = "aé字z".chars().collect(); v.insert(k, c); v.push(d);
    let r = contains_blocked_characters(&v.iter().collect::<String>());
    sym::check(r == (blocked(c) | blocked(d)), "a string is blocked exactly when it holds a listed character");
    if r { sym::cover("blocked"); } else { sym::cover("clean"); }
}
fn h02_empty() { sym::check(!contains_blocked_characters(""), "empty string holds no blocked character"); }
fn h03_exact() {
    let n = sym::choose("len", 0, 14) as usize; let v = sym::byte_vec("s", n); for b in &v { sym::assume(*b < 0x80); }
    let s = unsafe { std::str::from_utf8_unchecked(&v) };
    let words = ["admin", "everyone", "all", "administrator", "mod", "moderator", "here", "channel"];
    let mut want = false; for w in words { want |= sym::same_bytes(w.as_bytes(), &v); }
    let got = is_reserved_handle(s);
    sym::check(got == want, "a handle is reserved exactly when it is one of the reserved words");
    if got { sym::cover("reserved"); } else { sym::cover("free"); }
}
fn h04_permutation_4() { permutation(10, 4) }
fn h04_permutation_1() { permutation(sym::choose("min", 0, 3) as u16, 1) }
fn h04_permutation_0() { permutation(0, 3) }
fn h04_permutation_high() { permutation(65533, 3) }
fn h04_permutation_5() { permutation(99, 5) }
fn h04_t_permutation_6() { permutation(10, 6) }
fn h04_t_permutation_7() { permutation(10, 7) }
fn h04_range_any_min() {
    // the configured production range and an arbitrary start: range and count with arbitrary draws, first suffix only
    oorandom::set_source(src); twox_hash::set_oracle(hash);
    let out = suffix::generate_unique_suffixes(10, 99, "base").next().unwrap();
    sym::check(out >= 10 && out <= 99, "first suffix of the production range lies in it");
    let d = unsafe { &DRAWS }; sym::check(d.len() == 1 && out as u32 == 10 + d[0].0 && d[0].1 == 90, "first suffix is the drawn one");
    sym::cover("prod");
}
fn h04_seed() {
    oorandom::set_source(src_seed); twox_hash::set_oracle(hash);
    let n = sym::choose("len", 0, 8) as usize; let v = sym::byte_vec("s", n); for b in &v { sym::assume(*b < 0x80); }
    let s = unsafe { std::str::from_utf8_unchecked(&v) };
    let seed = suffix::generate_seed(s);
    let st = unsafe { &STREAMS };
    sym::check(st.len() == 1 && st[0].0 == 0 && seed == 0x1234_5678_9abc_def0, "the seed is the xxHash64 digest with seed 0");
    let mut want = v.clone(); want.extend_from_slice(&[0; 4]);
    sym::check(sym::same_bytes(&st[0].1, &want), "the digest covers the whole canonical base and four zero bytes");
    let _ : Vec<u16> = suffix::generate_unique_suffixes(3, 5, s).collect();
    let sd = unsafe { &SEEDS }; let st = unsafe { &STREAMS };
    let mut all = sd.len() == 3 && st.len() == 2; for k in sd { all &= *k == seed; }
    sym::check(all && sym::same_bytes(&st[1].1, &want), "the shuffle of a base is seeded by that base only");
    sym::cover("seed");
}
fn h05_split() {
    let n = sym::choose("len", 0, 8) as usize; let v = sym::byte_vec("s", n); for b in &v { sym::assume(*b < 0x80); }
    // one class per byte to keep the path count low: delimiter, digit, '+', other
    let s = unsafe { std::str::from_utf8_unchecked(&v) };
    let got = split_display_name(s);
    // reference: base up to the only '.', decimal suffix without overflow
    let (mut dots, mut at) = (0usize, 0usize); for i in 0..n { if v[i] == b'.' { dots += 1; at = i; } }
    let want = if dots == 1 { let d = &v[at + 1..]; let d = if d.len() > 1 && d[0] == b'+' { &d[1..] } else { d };
        let mut x: u64 = 0; let mut ok = !d.is_empty(); for c in d { if !(*c >= b'0' && *c <= b'9') { ok = false; break } x = x * 10 + (*c - b'0') as u64; } if ok && x < 65536 { Some((at, x as u16)) } else { None } } else { None };
    match (&got, &want) {
        (None, None) => sym::cover("refused"),
        (Some((b, k)), Some((at, w))) => { sym::cover("split"); sym::check(*k == *w, "suffix is the decimal number after the delimiter"); sym::check(sym::same_bytes(b.as_bytes(), &v[..*at]), "base is everything before the delimiter"); }
        _ => sym::check(false, "a display handle splits exactly when it is base, one delimiter and a 16-bit decimal number"),
    }
}
fn h05_roundtrip() {
    // every claimed display handle (unblocked base, any suffix) splits back into its parts
    let k = sym::u16("suffix"); let c = sym::char("c"); sym::assume(c != '.');
    let base: String = ['x', c, 'y'].iter().collect(); let mut d = base.clone(); d.push('.'); d.push_str(&k.to_string());
    let got = split_display_name(&d);
    sym::check(got.is_some(), "display handle splits"); let (b, s) = got.unwrap();
    sym::check(s == k && sym::same_bytes(b.as_bytes(), base.as_bytes()), "and gives back base and suffix"); sym::cover("rt");
}
}
