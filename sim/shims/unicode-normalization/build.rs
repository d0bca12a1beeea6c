// Emits branch-light lookup functions with exactly the contents of the real crate's tables.
use real_un::{char::*};
use std::fmt::Write;
fn main() {
    let mut o = String::new();
    let all = || (0u32..0x110000).filter_map(char::from_u32);
    let mut ranges: Vec<(u32, u32, u8)> = vec![]; let mut marks: Vec<(u32, u32)> = vec![];
    let (mut canon, mut compat) = (String::new(), String::new());
    for c in all() {
        let u = c as u32; let k = canonical_combining_class(c);
        if k != 0 { match ranges.last_mut() { Some(r) if r.1 + 1 == u && r.2 == k => r.1 = u, _ => ranges.push((u, u, k)) } }
        if is_combining_mark(c) { match marks.last_mut() { Some(r) if r.1 + 1 == u => r.1 = u, _ => marks.push((u, u)) } }
        if (0xAC00..0xD7A4).contains(&u) { continue } // Hangul syllables are decomposed arithmetically
        let mut a = vec![]; decompose_canonical(c, |x| a.push(x)); let mut b = vec![]; decompose_compatible(c, |x| b.push(x));
        if a != [c] { writeln!(canon, "0x{:x} => Some(&{:?}),", u, a).unwrap(); }
        if b != a { writeln!(compat, "0x{:x} => Some(&{:?}),", u, b).unwrap(); }
    }
    write!(o, "static CCC: &[(u32,u32,u8)] = &{:?};\nstatic MARKS: &[(u32,u32)] = &{:?};\n", ranges, marks).unwrap();
    write!(o, "pub(crate) fn canonical_fully_decomposed(c: char) -> Option<&'static [char]> {{ match c as u32 {{ {} _ => None }} }}\n", canon).unwrap();
    write!(o, "pub(crate) fn compatibility_fully_decomposed(c: char) -> Option<&'static [char]> {{ match c as u32 {{ {} _ => None }} }}\n", compat).unwrap();
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("t.rs"), o).unwrap();
}
