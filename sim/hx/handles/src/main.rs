//! pallet-handles: H10..H13
#![allow(static_mut_refs)]
use common_primitives::{handles::*, msa::*};
use frame_support::{dispatch::{DispatchInfo, DispatchResult}, traits::Get};
use handles_utils::{consists_of_supported_unicode_character_sets, contains_blocked_characters, convert_to_canonical, is_reserved_handle};
use pallet_handles::{handles_signed_extension::HandlesSignedExtension, *};
use parity_scale_codec::Encode;
use rt::{acct, signed, AccountId32};
use sp_runtime::{traits::SignedExtension, DispatchError, MultiSignature};
rt::runtime! { Handles: pallet_handles }
static mut MSAS: [Option<u64>; 2] = [None; 2]; static mut MIN: u16 = 10; static mut MAX: u16 = 12; static mut WINDOW: u32 = 100;
pub struct Lo; impl Get<u16> for Lo { fn get() -> u16 { unsafe { MIN } } } pub struct Hi; impl Get<u16> for Hi { fn get() -> u16 { unsafe { MAX } } } pub struct Win; impl Get<u32> for Win { fn get() -> u32 { unsafe { WINDOW } } }
pub struct Msa;
impl MsaLookup for Msa { type AccountId = AccountId32; fn get_msa_id(k: &AccountId32) -> Option<u64> { unsafe { if *k == acct(1) { MSAS[0] } else if *k == acct(2) { MSAS[1] } else { None } } } }
impl MsaValidator for Msa { type AccountId = AccountId32; fn ensure_valid_msa_key(k: &AccountId32) -> Result<u64, DispatchError> { Msa::get_msa_id(k).ok_or(DispatchError::Other("no msa")) } }
pub struct Same; impl sp_runtime::traits::Convert<AccountId32, AccountId32> for Same { fn convert(a: AccountId32) -> AccountId32 { a } }
impl Config for Test { type RuntimeEvent = RuntimeEvent; type WeightInfo = (); type ConvertIntoAccountId32 = Same; type MsaInfoProvider = Msa; type HandleSuffixMin = Lo; type HandleSuffixMax = Hi; type MortalityWindowSize = Win; }
type P = Pallet<Test>; type Payload = ClaimHandlePayload<u32>;
// the shuffle of a base: arbitrary draws, the same ones whenever the same base is shuffled
static mut SEEDS: Vec<Vec<u8>> = Vec::new(); static mut DRAWS: Vec<((u64, u32, u32, u32), u32)> = Vec::new();
fn hash(_: u64, s: &[u8]) -> u64 { unsafe { for (i, t) in SEEDS.iter().enumerate() { if sym::same_bytes(t, s) { return i as u64 } } SEEDS.push(s.to_vec()); SEEDS.len() as u64 - 1 } }
fn draw(seed: u64, step: u32, lo: u32, hi: u32) -> u32 { unsafe { let k = (seed, step, lo, hi); for (t, v) in DRAWS.iter() { if *t == k { return *v } } let v = sym::choose("draw", lo as u64, hi as u64 - 1) as u32; DRAWS.push((k, v)); v } }
fn mix(seed: u64, step: u32, lo: u32, hi: u32) -> u32 { lo + (seed as u32 * 31 + step * 1_000_003 + step * step * 7919) % (hi - lo) }
fn first(_seed: u64, _step: u32, lo: u32, _hi: u32) -> u32 { lo }
fn world() { twox_hash::set_oracle(hash); oorandom::set_source(draw); unsafe { MSAS = [Some(5), Some(6)] } set_block(10); }
fn sign<E: Encode>(who: u8, p: &E) -> MultiSignature { let m = [b"<Bytes>".to_vec(), p.encode(), b"</Bytes>".to_vec()].concat(); sp_runtime::sim_sign(&acct(who), &m) }
fn pay(base: &str, exp: u32) -> Payload { ClaimHandlePayload { base_handle: base.as_bytes().to_vec(), expiration: exp } }
fn claim(who: u8, base: &str) -> DispatchResult { let p = pay(base, 20); P::claim_handle(signed(3), acct(who), sign(who, &p), p) }
fn change(who: u8, base: &str) -> DispatchResult { let p = pay(base, 20); P::change_handle(signed(3), acct(who), sign(who, &p), p) }
fn name(m: u64) -> Option<Vec<u8>> { MSAIdToDisplayName::<Test>::get(m).map(|d| d.0.to_vec()) }
fn owner(d: &[u8]) -> Option<u64> { P::get_msa_id_for_handle(d.to_vec().try_into().unwrap()) }
fn suffix(d: &[u8]) -> u16 { let at = d.iter().rposition(|c| *c == b'.').unwrap(); std::str::from_utf8(&d[at + 1..]).unwrap().parse().unwrap() }
// written differently, but of one canonical form: 0..2; of another: 3
const BASES: [&str; 4] = ["abcd", "A b\u{e7}d", "ab cd", "wxyz"];
fn consistent(m: u64, held: Option<&str>) {
    let d = name(m); sym::check(d.is_some() == held.is_some(), "an MSA holds a handle exactly from claiming it until retiring it");
    let (Some(d), Some(b)) = (d, held) else { sym::check(P::get_handle_for_msa(m).is_none(), "no handle is reported for it"); return };
    let want = [b.as_bytes(), b".", suffix(&d).to_string().as_bytes()].concat(); sym::check(d == want, "the display handle is the base as chosen, a delimiter and the suffix"); sym::check(suffix(&d) >= 10 && suffix(&d) <= 12, "suffixes stay in their range");
    sym::check(owner(&d) == Some(m), "a held handle resolves to its holder"); sym::check(owner(&[convert_to_canonical(b).as_bytes(), b".", suffix(&d).to_string().as_bytes()].concat()) == Some(m), "however it is written");
    sym::check(P::get_handle_for_msa(m) == Some(HandleResponse { base_handle: b.as_bytes().to_vec(), canonical_base: convert_to_canonical(b).into_bytes(), suffix: suffix(&d) }), "and is reported with its parts");
}
fn history(steps: usize, bases: u64) {
    world(); let mut held: [Option<&str>; 2] = [None, None]; let mut gone: Vec<Vec<u8>> = vec![]; let mut used: Vec<(String, u16)> = vec![];
    for i in 0..steps {
        let w = if i == 0 { 0 } else { sym::choose("who", 0, 1) as usize }; let m = 5 + w as u64; let b = BASES[sym::choose("base", 0, bases) as usize]; let c = convert_to_canonical(b); let free = used.iter().filter(|u| u.0 == c).count() < 3; let old = name(m);
        match sym::choose("operation", 0, 2) {
            0 => { let ok = held[w].is_none() && free; let next = P::get_next_suffixes(b.as_bytes().to_vec().try_into().unwrap(), 1).suffixes; let r = claim(w as u8 + 1, b); sym::check(r.is_ok() == ok, "an MSA without a handle can claim one as long as suffixes are left"); if !ok { sym::cover("claim refused"); return }
                let s = suffix(&name(m).unwrap()); sym::check(next == vec![s], "the suffix is the one foretold"); sym::check(!used.contains(&(c.clone(), s)), "a suffix is never issued again for the same canonical base"); used.push((c, s)); held[w] = Some(b); sym::cover("claimed"); }
            1 => { let ok = held[w].is_some() && free; let r = change(w as u8 + 1, b); sym::check(r.is_ok() == ok, "an MSA with a handle can change it as long as suffixes are left"); if !ok { sym::cover("change refused"); return }
                gone.push(old.clone().unwrap()); let s = suffix(&name(m).unwrap()); sym::check(!used.contains(&(c.clone(), s)), "a suffix is never issued again for the same canonical base"); used.push((c, s)); held[w] = Some(b); sym::cover("changed");
                let n = events().len(); sym::check(n >= 2 && events()[n - 2] == RuntimeEvent::Handles(Event::HandleRetired { msa_id: m, handle: old.unwrap() }) && events()[n - 1] == RuntimeEvent::Handles(Event::HandleClaimed { msa_id: m, handle: name(m).unwrap() }), "both are announced"); }
            _ => { let r = P::retire_handle(signed(w as u8 + 1)); sym::check(r.is_ok() == held[w].is_some(), "an MSA can retire the handle it holds"); if r.is_err() { return } gone.push(old.clone().unwrap()); held[w] = None; sym::cover("retired"); sym::check(events().last() == Some(&RuntimeEvent::Handles(Event::HandleRetired { msa_id: m, handle: old.unwrap() })), "it is announced"); }
        }
    }
    consistent(5, held[0]); consistent(6, held[1]); for g in gone { sym::check(owner(&g).is_none(), "a retired handle resolves to nobody") }
}
fn template(k: u64) -> (String, usize) { match k { 0 => ("".into(), 3), 1 => ("abcdefghijklmnopqr".into(), 3), 2 => ("  ".into(), 3), 3 => ("\u{4e00}\u{4e00}\u{4e00}\u{4e00}\u{4e00}\u{4e00}\u{4e00}\u{4e00}\u{4e00}".into(), 7), 4 => ("mo".into(), 2), 5 => ("\u{1F600}a".into(), 2), _ => ("\u{e9}\u{e7}".into(), 2) } }
fn claims(lo: u64, hi: u64) {
    world(); oorandom::set_source(first); unsafe { MSAS = [Some(5), None] }
    let (mut s, n) = template(sym::choose("prefix", lo, hi)); let k = sym::choose("letters", 0, n as u64) as usize; for _ in 0..k { s.push(if n < 4 && sym::bool("space") { ' ' } else { 'k' }) } if sym::bool("any") { let b = sym::u8("c"); sym::assume(b >= 0x20 && b < 0x7f); s.push(b as char) }
    let c = convert_to_canonical(&s); let len = |x: &str| { let n = x.chars().count(); n >= 3 && n <= 20 };
    let ok = s.len() <= 32 && len(&s) && len(&c) && !is_reserved_handle(&s) && !contains_blocked_characters(&s) && consists_of_supported_unicode_character_sets(&c);
    sym::check(P::validate_handle(s.as_bytes().to_vec()) == ok, "validate_handle tells exactly which handles can be claimed");
    let r = claim(1, &s); sym::check(r.is_ok() == ok, "a handle is claimed exactly when it and its canonical form are of 3 to 20 characters, it is of at most 32 bytes, neither reserved nor blocked, and its canonical form is of supported characters");
    if ok { sym::cover("claimed") } else { sym::cover("refused") }
}
sym::harnesses!{
fn h10_ids() {
    // whatever the ids of the MSAs
    world(); oorandom::set_source(mix); let (a, b) = (sym::u64("MSA"), sym::u64("another MSA")); sym::assume(a != b); unsafe { MSAS = [Some(a), Some(b)] } sym::check(claim(1, BASES[0]).is_ok() && claim(2, BASES[1]).is_ok(), "both claim a handle"); let (x, y) = (name(a).unwrap(), name(b).unwrap());
    sym::check(owner(&x) == Some(a) && owner(&y) == Some(b) && suffix(&x) != suffix(&y), "a held handle resolves to its holder"); sym::check(P::get_handle_for_msa(a).unwrap().suffix == suffix(&x) && P::get_handle_for_msa(b).unwrap().base_handle == BASES[1].as_bytes(), "and is reported for it");
    match sym::choose("then", 0, 2) { 0 => { sym::check(P::retire_handle(signed(1)).is_ok(), "retired"); sym::check(name(a).is_none() && P::get_handle_for_msa(a).is_none() && owner(&x).is_none(), "a retired handle is nobody's"); sym::cover("retired"); sym::check(claim(1, BASES[3]).is_ok() && owner(&name(a).unwrap()) == Some(a), "another can be claimed") }
        1 => { sym::check(change(1, BASES[3]).is_ok(), "changed"); sym::check(owner(&x).is_none() && owner(&name(a).unwrap()) == Some(a), "the new one is held, the old one not"); sym::cover("changed") } _ => sym::check(claim(1, BASES[3]).is_err(), "one handle at most is held") }
    sym::check(name(b) == Some(y.clone()) && owner(&y) == Some(b), "the other keeps its own");
}
fn h10_two() { history(2, 3) }
fn h10_three() { history(3, 1) }
fn h10_t_four() { history(4, 1) }
fn h10_kf_long() {
    // two different handles whose canonical forms are longer than 32 bytes
    world(); let (a, b) = ("\u{ac00}\u{ac01}\u{ac02}\u{ac03}\u{ac04}", "\u{ac10}\u{ac11}\u{ac12}\u{ac13}\u{ac14}"); sym::assume(claim(1, a).is_ok() && claim(2, b).is_ok());
    sym::check(owner(&name(5).unwrap()) == Some(5) && owner(&name(6).unwrap()) == Some(6), "a held handle resolves to its holder");
}
fn h11_next() {
    // any sequence index so far: the next suffix is the next of the shuffle, and none is issued beyond its end
    world(); let (min, max) = (sym::choose("min", 10, 11) as u16, sym::choose("max", 12, 13) as u16); unsafe { MIN = min; MAX = max } let i = sym::u16("index"); let was = sym::u16("min then"); let base = sym::choose("base", 0, 1) as usize;
    CanonicalBaseHandleToSuffixIndex::<Test>::insert(CanonicalBase::try_from(b"abcd".to_vec()).unwrap(), (i, was)); let all: Vec<u16> = handles_utils::suffix::generate_unique_suffixes(min, max, "abcd").collect();
    let at = if was == min { i as usize + 1 } else { 0 }; let next = P::get_next_suffixes(BASES[base].as_bytes().to_vec().try_into().unwrap(), 2).suffixes; let r = claim(1, BASES[base]); sym::check(r.is_ok() == (at < all.len()), "a suffix is issued exactly while some are left");
    if r.is_err() { sym::cover("exhausted"); return }
    let at = sym::concretize(at as u64) as usize; sym::cover("issued"); sym::check(suffix(&name(5).unwrap()) == all[at], "it is the next of the shuffle of the canonical base"); sym::check(next == all[at..all.len().min(at + 2)].to_vec(), "the next suffixes are foretold");
    sym::check(P::get_current_suffix_index_for_canonical_handle(CanonicalBase::try_from(b"abcd".to_vec()).unwrap()) == Some((at as u16, min)), "the index moves on by one; it starts over only when the range does");
}
fn h11_many() {
    // the whole range of the runtime, one after the other
    world(); oorandom::set_source(mix); unsafe { MIN = 10; MAX = 99 } let asked = [0usize, 1, 9, 88, 89, 90][sym::choose("asked after", 0, 5) as usize]; let n = [1u16, 100][sym::choose("number", 0, 1) as usize]; let mut told = vec![]; let mut got = vec![];
    for i in 0..90usize { if i == asked { told = P::get_next_suffixes(BASES[1].as_bytes().to_vec().try_into().unwrap(), n).suffixes } let w = 1 + (i % 2) as u8; sym::check(claim(w, BASES[i % 3]).is_ok(), "claimed"); let s = suffix(&name(4 + w as u64).unwrap()); sym::check(s >= 10 && s <= 99 && !got.contains(&s), "a suffix is never issued again for the same canonical base"); got.push(s); sym::check(P::retire_handle(signed(w)).is_ok(), "retired") }
    sym::check(claim(1, BASES[0]).is_err(), "and then no more"); sym::check(told == got[asked.min(90)..90.min(asked + n as usize)].to_vec(), "the next suffixes are foretold"); sym::cover("exhausted");
}
fn h11_bases() {
    // three claims on one base, whoever makes them and however it is written, exhaust a range of three
    world(); let mut got = vec![]; for i in 0..3 { let b = BASES[if i == 0 { 0 } else { sym::choose("base", 0, 2) as usize }]; sym::check(claim(1, b).is_ok(), "claimed"); got.push(suffix(&name(5).unwrap())); sym::check(P::retire_handle(signed(1)).is_ok(), "retired") }
    got.sort(); sym::check(got == vec![10, 11, 12], "each suffix of the range is issued once"); sym::check(claim(2, BASES[0]).is_err(), "and then no more"); sym::check(claim(2, BASES[3]).is_ok(), "another base is not affected"); sym::cover("exhausted");
}
fn h12_claim() { authority(false) }
fn h12_change() { authority(true) }
fn h12_retire() {
    world(); let msa = if sym::bool("has MSA") { Some(5) } else { None }; let holds = sym::bool("holds"); if holds { claim(1, BASES[0]).expect("set up") } unsafe { MSAS[0] = msa }
    let who = sym::choose("signer", 0, 2); let r = P::retire_handle(match who { 0 => signed(1), 1 => rt::root(), _ => rt::none() }); sym::check(r.is_ok() == (who == 0 && msa.is_some() && holds), "a handle is retired exactly by a key of the MSA that holds it"); if r.is_ok() { sym::cover("retired") } else { sym::cover("refused"); }
}
fn h12_extension() {
    // a free retirement gets into a block exactly when it will succeed, not before the claim's signature has expired
    world(); let msa = if sym::bool("has MSA") { Some(5) } else { None }; let holds = sym::bool("holds"); let e = sym::u32("expiration"); sym::assume(e > 10 && e < 110); if holds { let p = pay(BASES[0], e); P::claim_handle(signed(3), acct(1), sign(1, &p), p).expect("set up") } unsafe { MSAS[0] = msa }
    let now = sym::u32("block"); sym::assume(now >= 10); set_block(now); let c = RuntimeCall::Handles(Call::retire_handle {}); let ok = msa.is_some() && holds && now >= e; let x = HandlesSignedExtension::<Test>::new(); let i = DispatchInfo::default();
    sym::check(x.validate(&acct(1), &c, &i, 0).is_ok() == ok, "a retirement is valid exactly when the signer's MSA holds a handle whose claim has expired"); sym::check(x.pre_dispatch(&acct(1), &c, &i, 0).is_ok() == ok, "at dispatch as well"); if ok { sym::cover("valid"); sym::check(P::retire_handle(signed(1)).is_ok(), "and then succeeds") } else { sym::cover("invalid") }
}
fn h12_replay() {
    // a claim's payload cannot be used again: while the handle is held, nor after a retirement let into a block
    world(); let e = sym::u32("expiration"); let p = pay(BASES[0], e); let s = sign(1, &p); if P::claim_handle(signed(3), acct(1), s.clone(), p.clone()).is_err() { return }
    sym::check(P::claim_handle(signed(3), acct(1), s.clone(), p.clone()).is_err(), "not while the handle is held"); let now = sym::u32("block"); sym::assume(now >= 10 && now < u32::MAX - 200); set_block(now);
    if HandlesSignedExtension::<Test>::new().validate(&acct(1), &RuntimeCall::Handles(Call::retire_handle {}), &DispatchInfo::default(), 0).is_err() { return }
    sym::check(P::retire_handle(signed(1)).is_ok(), "retired"); sym::check(P::claim_handle(signed(3), acct(1), s, p).is_err(), "not after the handle was retired"); sym::cover("refused");
}
fn h12_kf_change() {
    world(); claim(1, BASES[0]).expect("set up"); let p = pay(BASES[3], 20); let s = sign(1, &p); sym::check(P::change_handle(signed(3), acct(1), s.clone(), p.clone()).is_ok(), "first"); sym::check(P::change_handle(signed(4), acct(1), s, p).is_err(), "a signed change is not accepted twice");
}
fn h13_short() { claims(0, 0) }
fn h13_long() { claims(1, 1) }
fn h13_spaces() { claims(2, 2) }
fn h13_bytes() { claims(3, 3) }
fn h13_words() { claims(4, 4) }
fn h13_marks() { claims(5, 6) }
fn h13_encoding() { // what is not UTF-8 is refused
    world(); oorandom::set_source(first); let n = sym::choose("length", 0, 3) as usize; let v = sym::byte_vec("b", n); let p = ClaimHandlePayload { base_handle: v.clone(), expiration: 20 }; sym::assume(v.iter().fold(false, |a, b| a | (*b >= 0x80)));
    let utf = std::str::from_utf8(&v).is_ok(); let r = P::claim_handle(signed(3), acct(1), sign(1, &p), p); if !utf || n < 3 { sym::cover("refused"); sym::check(r.is_err(), "not UTF-8") }
}
}
fn authority(existing: bool) {
    world(); oorandom::set_source(first); let holds = sym::bool("holds"); if holds { claim(1, BASES[3]).expect("set up") } let had = name(5);
    let (now, w, e) = (sym::u32("block"), sym::u32("window"), sym::u32("expiration")); sym::assume(now.checked_add(w).is_some()); set_block(now); unsafe { WINDOW = w } let msa = if sym::bool("has MSA") { Some(5) } else { None }; unsafe { MSAS[0] = msa }
    let by = sym::choose("signed by", 1, 2) as u8; let (se, sb) = (sym::u32("signed expiration"), sym::u8("signed letter")); sym::assume(sb < 0x80); let mut sp = pay("abcd", se); sp.base_handle[3] = sb; let raw = sym::bool("not wrapped"); let sg = if raw { sp_runtime::sim_sign(&acct(by), &sp.encode()) } else { sign(by, &sp) };
    let who = sym::choose("sender", 0, 2); let o = match who { 0 => signed(3), 1 => rt::root(), _ => rt::none() }; let p = pay("abcd", e);
    let ok = who == 0 && msa.is_some() && holds == existing && (now < e) & (e < now + w) && by == 1 && !raw && (se == e) & (sb == b'd');
    let r = if existing { P::change_handle(o, acct(1), sg, p) } else { P::claim_handle(o, acct(1), sg, p) };
    sym::check(r.is_ok() == ok, "a handle is given exactly on an MSA key's signature over this payload inside <Bytes> tags, inside its window"); if r.is_err() { sym::cover("refused"); return }
    sym::cover("accepted"); sym::check(MSAIdToDisplayName::<Test>::get(5).map(|d| (d.0.to_vec(), d.1)) == Some((name(5).unwrap(), e)), "the signature's expiration is kept with the handle"); sym::check(name(5) != had && name(6).is_none(), "and only this MSA's handle changes"); sym::check(events().last() == Some(&RuntimeEvent::Handles(Event::HandleClaimed { msa_id: 5, handle: name(5).unwrap() })), "the claim is announced");
}
