//! Lookup functions over the real tables, without perfect hashing (see build.rs).
include!(concat!(env!("OUT_DIR"), "/t.rs"));
pub fn canonical_combining_class(c: char) -> u8 {
    let u = c as u32; if u < 0x300 { return 0 }
    let mut r = 0u8; for &(a, b, k) in CCC { r |= k & (((u.wrapping_sub(a) <= b - a) as u8).wrapping_neg()); } r
}
/// Return whether the given character is a combining mark (`General_Category=Mark`)
pub fn is_combining_mark(c: char) -> bool {
    let u = c as u32; if u < 0x300 { return false }
    let mut r = false; for &(a, b) in MARKS { r |= u.wrapping_sub(a) <= b - a; } r
}
pub(crate) fn composition_table(c1: char, c2: char) -> Option<char> { real_lookups::composition_table(c1, c2) }
pub(crate) fn cjk_compat_variants_fully_decomposed(c: char) -> Option<&'static [char]> { real_lookups::cjk_compat_variants_fully_decomposed(c) }
pub fn stream_safe_trailing_nonstarters(c: char) -> usize { real_lookups::stream_safe_trailing_nonstarters(c) }
use crate::real_lookups;
