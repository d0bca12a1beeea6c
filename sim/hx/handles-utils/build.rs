// Reference homoglyph table, read straight from the data file with our own rules: the first
// character of a line stands for all others on it; characters outside the supported
// blocks are left out.
use std::fmt::Write;
fn main() {
    println!("cargo:rerun-if-changed=/repo/pallets/handles/src/handles-utils/src/data/confusable_characters.txt");
    let t = std::fs::read_to_string("/repo/pallets/handles/src/handles-utils/src/data/confusable_characters.txt").unwrap();
    let mut o = String::from("pub fn homoglyph(c: char) -> char { match c as u32 {\n"); let mut seen = std::collections::BTreeSet::new();
    for l in t.lines() {
        let mut cs = l.chars(); let Some(f) = cs.next() else { continue }; if !ok(f) { continue }
        for h in cs { if ok(h) && seen.insert(h) { writeln!(o, "0x{:x} => '\\u{{{:x}}}',", h as u32, f as u32).unwrap(); } }
    }
    o.push_str("_ => c } }\n");
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("ref.rs"), o).unwrap();
}
include!("src/ranges.rs");
fn ok(c: char) -> bool { SUPPORTED.iter().any(|r| r.0 <= c as u32 && c as u32 <= r.1) }
