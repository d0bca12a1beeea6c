use cli_opt::SealingMode;
use clap::ValueEnum;
fn any_mode() -> SealingMode { match sym::choose("mode", 0, 2) { 0 => SealingMode::Instant, 1 => SealingMode::Manual, _ => SealingMode::Interval } }
/// the names a mode may be given on the command line
fn name(m: SealingMode) -> &'static str { match m { SealingMode::Instant => "instant", SealingMode::Manual => "manual", SealingMode::Interval => "interval" } }
sym::harnesses! {
fn o01_roundtrip() {
    let m = any_mode(); let s = m.to_string();
    let r = <SealingMode as ValueEnum>::from_str(&s, true);
    sym::check(r == Ok(m), "a mode's printed form parses (case-insensitively) to itself"); sym::cover("rt");
}
fn o01_case() {
    // any mix of upper and lower case names the mode when case is ignored, and only the exact name when it is not
    let m = any_mode(); let mut exact = true; let b: Vec<u8> = name(m).bytes().map(|c| { let up = sym::bool("up"); exact &= !up; sym::ite(up, (c - 32) as u64, c as u64) as u8 }).collect();
    let s = unsafe { String::from_utf8_unchecked(b) };
    sym::check(<SealingMode as ValueEnum>::from_str(&s, true) == Ok(m), "case does not matter when ignored");
    sym::check(<SealingMode as ValueEnum>::from_str(&s, false).is_ok() == exact, "case matters when not ignored"); sym::cover("case");
}
fn o01_nothing_else() {
    // every ASCII string of up to eight characters that parses is the name of the mode it parses to
    let n = sym::choose("len", 0, 8) as usize; let b = sym::byte_vec("s", n); for c in &b { sym::assume(*c < 0x80) } let s = unsafe { String::from_utf8_unchecked(b) };
    match <SealingMode as ValueEnum>::from_str(&s, false) { Ok(m) => { sym::check(sym::same_bytes(s.as_bytes(), name(m).as_bytes()), "only a mode's name selects it"); sym::cover("mode"); } Err(_) => { for m in [SealingMode::Instant, SealingMode::Manual, SealingMode::Interval] { sym::check(!sym::same_bytes(s.as_bytes(), name(m).as_bytes()), "a mode's name is never refused"); } sym::cover("none"); } }
}
fn o01_offered() {
    // every mode is offered exactly once
    let m = any_mode(); let v = <SealingMode as ValueEnum>::value_variants(); sym::check(v.len() == 3 && v.iter().filter(|x| **x == m).count() == 1, "every mode is offered once"); sym::cover("offered");
}
}
