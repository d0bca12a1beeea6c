//! pallet-time-release: T01..T03
use frame_support::traits::{EnsureOrigin, Get};
use pallet_time_release::{*, module::FreezeReason};
use rt::{accs, acct, free, frozen, signed, Acc, AccountId32, Bal, Origin};
use sp_runtime::{traits::BlockNumberProvider, BoundedVec};
rt::runtime! { TimeRelease: pallet_time_release }
pub struct Fr; impl From<FreezeReason> for Fr { fn from(_: FreezeReason) -> Fr { Fr } }
impl rt::FreezeId for Fr { fn n(&self) -> u8 { 1 } }
const MIN: u64 = 3; static mut MAX: u32 = 2;
#[derive(Clone, Debug, PartialEq, Eq)] pub struct Most; impl Get<u32> for Most { fn get() -> u32 { unsafe { MAX } } }
static mut NOW: u32 = 0;
pub struct Now; impl BlockNumberProvider for Now { type BlockNumber = u32; fn current_block_number() -> u32 { unsafe { NOW } } }
/// accounts 1 and 2 may transfer, account 4 may not
pub struct From124; impl EnsureOrigin<Origin> for From124 { type Success = AccountId32; fn try_origin(o: Origin) -> Result<AccountId32, Origin> { match &o.0 { frame_system::RawOrigin::Signed(w) if *w != acct(4) => Ok(w.clone()), _ => Err(o) } } }
impl Config for Test {
    type RuntimeEvent = RuntimeEvent; type RuntimeFreezeReason = Fr; type Balance = u64; type Currency = Bal<Fr>; type MinReleaseTransfer = frame_support::traits::ConstU64<MIN>;
    type TransferOrigin = From124; type WeightInfo = (); type MaxReleaseSchedules = Most; type BlockNumberProvider = Now;
}
type P = Pallet<Test>; type S = ReleaseSchedule<u32, u64>; type L = BoundedVec<S, Most>;
/// a schedule and what of it is still unreleased at the current block, both by construction:
/// now = start + k * period + r with r < period, or now < start
struct Sch { s: S, left: u64, total: u64 }
static mut WIDE: u64 = 15;
fn small(n: &str, hi: u64) -> u64 { let v = sym::u64(n); sym::assume(v <= hi); v }
fn sched(now: u32, kind: u64, period: u32) -> Sch {
    let w = unsafe { WIDE };
    let per = small("per_period", 4 * w); let count = small("count", w) as u32; sym::assume(count > 0);
    if kind == 0 { // not started
        let d = sym::u32("ahead"); sym::assume(d <= 0xe000_0000); let start = now + d;
        let s = S { start, period, period_count: count, per_period: per }; let t = per * count as u64; sym::assume(s.end().is_some());
        Sch { s, left: t, total: t }
    } else {
        let k = small("elapsed", 2 * w) as u32; let r = sym::u32("rest"); sym::assume(r < period);
        let start = now - (k * period + r);
        Sch { s: S { start, period, period_count: count, per_period: per }, left: if k >= count { 0 } else { per * (count - k) as u64 }, total: per * count as u64 }
    }
}
fn now() -> u32 { let n = sym::u32("now"); sym::assume(n >= 0x0100_0000 && n <= 0x0fff_ffff); unsafe { NOW = n }; set_block(n); n }
fn list(n: u8) -> Vec<S> { ReleaseSchedules::<Test>::get(acct(n)).iter().cloned().collect() }
fn same(a: &[S], b: &[&Sch]) -> bool { let mut ok = a.len() == b.len(); for (x, y) in a.iter().zip(b) { ok &= (x.start == y.s.start) & (x.period == y.s.period) & (x.period_count == y.s.period_count) & (x.per_period == y.s.per_period); } ok }
const PERIODS: [u32; 3] = [1, 3, 10];
/// account 2 holds schedules whose tokens are frozen at least as far as they are unreleased
fn pre(n: u64, now: u32) -> (Vec<Sch>, u64) {
    let v: Vec<Sch> = (0..n).map(|i| sched(now, 1, PERIODS[i as usize + 1])).collect();
    let left: u64 = v.iter().map(|s| s.left).sum();
    if n > 0 { ReleaseSchedules::<Test>::insert(acct(2), L::try_from(v.iter().map(|s| s.s.clone()).collect::<Vec<_>>()).unwrap()); }
    let late = if n > 0 { small("unclaimed", 1 << 20) } else { 0 };
    accs().push(Acc { who: acct(2), free: left + late + small("spare2", 1 << 30), freezes: if left + late > 0 { vec![(1, left + late)] } else { vec![] } });
    accs().push(Acc { who: acct(1), free: small("free1", 1 << 30), freezes: vec![] });
    accs().push(Acc { who: acct(3), free: 7, freezes: vec![(1, 5)] });
    (v, left)
}
fn others() { sym::check(free(&acct(3)) == 7 && frozen(1, &acct(3)) == 5 && list(3).is_empty(), "other accounts stay as they are"); }
fn claim(max: u64) {
    let now = now(); let (v, left) = pre(sym::choose("schedules", 0, max), now);
    // more may be frozen than is free, as when tokens are on hold elsewhere
    if sym::bool("on hold") { accs()[0].free = small("free2", 1 << 30) }
    let (f1, f2, iss) = (free(&acct(1)), free(&acct(2)), rt::issuance());
    let how = sym::choose("how", 0, 2);
    let r = match how { 0 => P::claim(signed(2)), 1 => P::claim_for(signed(1), acct(2)), _ => P::claim_for(rt::none(), acct(2)) };
    sym::check(r.is_ok() == (how < 2), "anyone may claim for an account, nobody without signing");
    if r.is_err() { return }
    sym::cover("claimed");
    sym::check(frozen(1, &acct(2)) == left, "after a claim exactly the unreleased part is frozen");
    let rest: Vec<&Sch> = v.iter().filter(|s| s.left > 0).collect();
    sym::check(same(&list(2), &rest), "a claim drops the schedules fully released and keeps the others unchanged");
    sym::check(ReleaseSchedules::<Test>::contains_key(acct(2)) == !rest.is_empty(), "no empty list is kept");
    sym::check(free(&acct(1)) == f1 && free(&acct(2)) == f2 && rt::issuance() == iss && list(1).is_empty() && frozen(1, &acct(1)) == 0, "a claim moves no tokens and touches only the account it names");
    sym::check(events().last() == Some(&RuntimeEvent::TimeRelease(Event::Claimed { who: acct(2), amount: left })), "the event names the account and the amount left frozen");
    others();
}
fn transfer(n: u64, kind: u64) {
    unsafe { WIDE = 7 } let now = now(); let (v, left) = pre(n, now); let s = sched(now, kind, PERIODS[0]);
    let own = n == 0 && sym::bool("to itself"); let (from, to) = if own { (2u8, 2u8) } else { (1, 2) };
    let (ff, ft, iss, red) = (free(&acct(from)), free(&acct(to)), rt::issuance(), free(&acct(from)) - frozen(1, &acct(from)));
    let kept = v.iter().filter(|x| x.left > 0).count() as u64;
    let may = s.total >= MIN && red >= s.total && kept < unsafe { MAX } as u64;
    let r = P::transfer(signed(from), acct(to), s.s.clone());
    sym::check(r.is_ok() == may, "a transfer is accepted exactly for a valid schedule the sender can pay in full and the recipient has room for");
    if r.is_err() { return }
    sym::cover("transferred");
    sym::check(rt::issuance() == iss, "no tokens appear or vanish");
    if own { sym::cover("to itself"); sym::check(free(&acct(2)) == ft, "a transfer to oneself only freezes"); }
    else { sym::check(free(&acct(from)) == ff - s.total && free(&acct(to)) == ft + s.total, "exactly the scheduled total moves from sender to recipient"); }
    sym::check(frozen(1, &acct(to)) == left + s.total, "the recipient's freeze is the unreleased part of its schedules plus the whole new one");
    sym::check(frozen(1, &acct(to)) <= free(&acct(to)), "no more is frozen than the account holds");
    let mut want: Vec<&Sch> = v.iter().filter(|x| x.left > 0).collect(); want.push(&s);
    sym::check(same(&list(to), &want), "the schedule is added to the recipient's list, the others stay");
    sym::check(events().last() == Some(&RuntimeEvent::TimeRelease(Event::ReleaseScheduleAdded { from: acct(from), to: acct(to), release_schedule: s.s.clone() })), "the event reports the schedule");
    others();
}
/// the currency before freezes: locks by name
pub struct Locks; static mut LOCKS: Vec<([u8; 8], AccountId32, u64)> = Vec::new();
impl frame_support::traits::Currency<AccountId32> for Locks { type Balance = u64; type NegativeImbalance = (); }
impl frame_support::traits::LockableCurrency<AccountId32> for Locks { type Moment = u32; fn remove_lock(id: [u8; 8], w: &AccountId32) { unsafe { LOCKS.retain(|l| l.0 != id || l.1 != *w) } } }
fn locks() -> Vec<([u8; 8], AccountId32, u64)> { unsafe { LOCKS.clone() } }
fn L_(v: &[Sch]) -> L { L::try_from(v.iter().map(|x| x.s.clone()).collect::<Vec<_>>()).unwrap() }
fn upgrade(most: u64) {
    use frame_support::traits::{OnRuntimeUpgrade, StorageVersion, GetStorageVersion}; type M = migration::v2::MigrationToV2<Test, Locks>; const L: [u8; 8] = *b"timeRels"; const O: [u8; 8] = *b"netstkng";
    let now = now(); let (n1, n2) = (sym::choose("schedules", 0, most), sym::choose("others", 0, 1)); let a: Vec<Sch> = (0..n1).map(|_| sched(now, sym::choose("kind", 0, 1), 10)).collect(); let b: Vec<Sch> = (0..n2).map(|_| sched(now, 1, 3)).collect();
    let tot = |v: &[Sch]| v.iter().map(|x| x.total).sum::<u64>(); let (w1, w2) = (tot(&a), tot(&b));
    for (n, v, w) in [(1u8, &a, w1), (2, &b, w2)] { if !v.is_empty() { ReleaseSchedules::<Test>::insert(acct(n), L_(v)); unsafe { LOCKS.push((L, acct(n), w)) } } accs().push(Acc { who: acct(n), free: w, freezes: vec![] }) } unsafe { LOCKS.push((O, acct(1), 7)); LOCKS.push((O, acct(3), 8)) }
    let v = sym::u16("version"); StorageVersion::new(v).put::<P>(); let before = locks(); M::on_runtime_upgrade();
    if v >= 2 { sym::check(locks() == before && frozen(1, &acct(1)) == 0 && frozen(1, &acct(2)) == 0 && P::on_chain_storage_version() == v, "an upgraded chain is not upgraded again"); sym::cover("newer"); return }
    for _ in 0..2 {
        sym::check(frozen(1, &acct(1)) == w1 && frozen(1, &acct(2)) == w2, "what was locked is frozen, no more and no less"); sym::check(locks() == vec![(O, acct(1), 7), (O, acct(3), 8)], "no release lock is left, other locks stay"); sym::check(!rt::frozen_any(&acct(3)) && free(&acct(1)) == w1 && free(&acct(2)) == w2, "no tokens move and nobody else's are frozen");
        sym::check(same(&list(1), &a.iter().collect::<Vec<_>>()) && same(&list(2), &b.iter().collect::<Vec<_>>()), "the schedules are what they were"); sym::check(P::on_chain_storage_version() == 2, "the chain is marked as upgraded"); M::on_runtime_upgrade();
    } sym::cover("upgraded");
}
sym::harnesses!{
// the schedules a chain starts with
fn t02_genesis() {
    use frame_support::traits::BuildGenesisConfig; unsafe { WIDE = 3 } let now = now(); let n = sym::choose("schedules", 0, 2); let a: Vec<Sch> = (0..n).map(|k| sched(now, k, 10)).collect(); let b = sched(now, 1, 3); for x in a.iter().chain([&b]) { sym::assume(x.total >= MIN) }
    let (w1, w2) = (a.iter().map(|x| x.total).sum::<u64>(), b.total); let spare = sym::u64("spare"); sym::assume(spare < 1 << 40); for (k, w) in [(1u8, w1), (2, w2)] { accs().push(Acc { who: acct(k), free: w + spare, freezes: vec![] }) }
    let item = |k: u8, x: &Sch| (acct(k), x.s.start, x.s.period, x.s.period_count, x.s.per_period); let mut l: Vec<_> = a.iter().map(|x| item(1, x)).collect(); l.insert(sym::choose("order", 0, n) as usize, item(2, &b));
    GenesisConfig::<Test> { _config: Default::default(), schedules: l }.build();
    sym::check(same(&list(1), &a.iter().collect::<Vec<_>>()) && same(&list(2), &[&b]), "every account has its schedules, in order"); sym::check(frozen(1, &acct(1)) == w1 && frozen(1, &acct(2)) == w2, "their totals are frozen, no more and no less"); sym::check(free(&acct(1)) == w1 + spare && free(&acct(2)) == w2 + spare, "no tokens move"); sym::check(list(3).is_empty() && !rt::frozen_any(&acct(3)), "nobody else has any"); sym::cover("started");
}
// the upgrade from locks to freezes: any schedules of two accounts
fn v01_release() { upgrade(1) }
fn v01_t_release() { upgrade(2) }
fn t01_amount() {
    // one schedule against the clock
    let now = now(); let s = sched(now, sym::choose("kind", 0, 1), PERIODS[sym::choose("period", 0, 2) as usize]);
    sym::check(s.s.frozen_amount(now) == s.left, "what has not reached its period end is frozen, and only that"); sym::cover("compared");
}
fn t01_t_amount() {
    unsafe { WIDE = 63 }
    let now = now(); let s = sched(now, sym::choose("kind", 0, 1), [7, 100, 14400][sym::choose("period", 0, 2) as usize]);
    sym::check(s.s.frozen_amount(now) == s.left, "what has not reached its period end is frozen, and only that"); sym::cover("compared");
}
fn t01_ends() {
    let per = sym::u32("per_period") as u64; let pc = [(1u32, 1u32), (2, 5), (7, 365), (14400, 12)][sym::choose("period and count", 0, 3) as usize]; let s = S { start: sym::u32("start"), period: pc.0, period_count: pc.1, per_period: per };
    let total = per * s.period_count as u64; sym::check(s.total_amount() == Some(total), "the total is all periods together");
    let end = s.start as u64 + s.period as u64 * s.period_count as u64;
    if end > u32::MAX as u64 { sym::cover("never ends"); sym::check(s.end().is_none(), "an end past the last block is reported"); return }
    let end = end as u32; sym::check(s.end() == Some(end), "the end is the last period's end");
    sym::check(s.frozen_amount(end) == 0 && s.frozen_amount(u32::MAX) == 0, "everything is released at the end");
    sym::check(s.frozen_amount(end - 1) == per, "the last period is frozen until the end");
    sym::check(s.frozen_amount(0) == total && s.frozen_amount(s.start) == total && s.frozen_amount(s.start + s.period - 1) == total, "nothing is released before the first period is over");
    sym::check(s.frozen_amount(s.start + s.period) == total - per, "the first period is released when it ends");
    sym::cover("ends");
}
fn t01_many() {
    // as many schedules as the runtime allows, each begun at another time
    let n = 50u32; unsafe { MAX = n } let v: Vec<S> = (0..n).map(|i| if i * 7 % 5 < 3 { S { start: 1000, period: 10, period_count: 2, per_period: 10 + i as u64 } } else { S { start: 1015, period: 10, period_count: 1, per_period: 30 + i as u64 } }).collect(); let d = sym::u32("now"); sym::assume(d < 60); let now = 1000 + d; unsafe { NOW = now } set_block(now);
    let total: u64 = v.iter().map(|s| s.per_period * s.period_count as u64).sum(); ReleaseSchedules::<Test>::insert(acct(2), L::try_from(v.clone()).unwrap()); accs().push(Acc { who: acct(2), free: total, freezes: vec![(1, total)] }); accs().push(Acc { who: acct(1), free: 1 << 20, freezes: vec![] });
    let mut left = 0; let mut rest = vec![]; for s in &v { let mut l = 0; for k in 1..=s.period_count { if now < s.start + k * s.period { l += s.per_period } } if l > 0 { rest.push(s.clone()) } left += l }
    if sym::bool("one more") { let s = S { start: 1, period: 1, period_count: 1, per_period: 20 }; let ok = rest.len() < n as usize; sym::check(P::transfer(signed(1), acct(2), s.clone()).is_ok() == ok, "one more is accepted once another is over"); if !ok { sym::cover("full"); return } rest.push(s); left += 20; sym::cover("one more") } else { sym::check(P::claim(signed(2)).is_ok(), "claimed"); sym::cover("claimed") }
    sym::check(frozen(1, &acct(2)) == left, "exactly the unreleased part is frozen"); sym::check(list(2) == rest, "the schedules fully released are dropped and the others kept unchanged");
}
fn t01_claim() { claim(1) }
fn t01_t_claim() { claim(2) }
fn t02_first() { transfer(0, 0) }
fn t02_first_begun() { transfer(0, 1) }
fn t02_second() { transfer(1, 0) }
fn t02_second_begun() { transfer(1, 1) }
fn t02_t_full() { transfer(2, 0) }
fn t02_t_full_begun() { transfer(2, 1) }
fn t02_invalid() {
    // any schedule at all: accepted exactly when it is valid
    let (mut start, mut period, mut count, mut per) = (sym::u32("start"), 1u32, 1u32, 5u64);
    match sym::choose("odd", 0, 3) { 0 => { period = sym::u32("period") }, 1 => { count = sym::u32("count"); start = 0 }, 2 => { per = sym::u64("per_period") }, _ => { period = 1 << 16; count = 1 << 15; start = sym::u32("late") } }
    accs().push(Acc { who: acct(1), free: u64::MAX, freezes: vec![] });
    let s = S { start, period, period_count: count, per_period: per };
    let total = per as u128 * count as u128; let end = start as u128 + period as u128 * count as u128;
    let ok = period > 0 && count > 0 && end <= u32::MAX as u128 && total <= u64::MAX as u128 && total >= MIN as u128;
    unsafe { NOW = sym::u32("now") };
    let r = P::transfer(signed(1), acct(2), s);
    sym::check(r.is_ok() == ok, "only a schedule with periods, an end and a total within range is accepted");
    if ok { sym::cover("valid") } else { sym::cover("invalid") }
}
fn t02_origin() {
    accs().push(Acc { who: acct(4), free: 100, freezes: vec![] }); accs().push(Acc { who: acct(2), free: 100, freezes: vec![] });
    let o = match sym::choose("origin", 0, 2) { 0 => signed(4), 1 => rt::root(), _ => rt::none() };
    let s = S { start: 0, period: 1, period_count: 1, per_period: sym::u64("amount") };
    sym::check(P::transfer(o, acct(2), s).is_err(), "only a permitted signer transfers"); sym::cover("refused");
}
fn t03_update() { update(2) }
fn t03_t_update() { update(3) }
}
fn update(max: u64) {
    let now = now(); unsafe { WIDE = 7 } let (_v, _l) = pre(sym::choose("schedules", 0, 1), now); let n = sym::choose("new", 0, max); let who = sym::choose("origin", 0, 2);
    let nu: Vec<Sch> = (0..n).map(|i| sched(now, i % 2, PERIODS[i as usize % 3])).collect();
    let f2 = free(&acct(2)); let total: u64 = nu.iter().map(|s| s.total).sum();
    let ok = who == 0 && n <= unsafe { MAX } as u64 && nu.iter().all(|s| s.total >= MIN) && total <= f2;
    let r = P::update_release_schedules(match who { 0 => rt::root(), 1 => signed(2), _ => rt::none() }, acct(2), nu.iter().map(|s| s.s.clone()).collect());
    sym::check(r.is_ok() == (ok || (who == 0 && n == 0)), "only root replaces schedules, by at most the maximum of valid ones the balance covers");
    if r.is_err() { return }
    sym::cover("replaced");
    sym::check(same(&list(2), &nu.iter().collect::<Vec<_>>()), "the new schedules replace the old");
    sym::check(frozen(1, &acct(2)) == total, "the freeze covers the new schedules");
    sym::check(rt::frozen_any(&acct(2)) == (n > 0) && ReleaseSchedules::<Test>::contains_key(acct(2)) == (n > 0), "replacing by nothing removes list and freeze");
    sym::check(free(&acct(2)) == f2, "no tokens move"); others();
}
