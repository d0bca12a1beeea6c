//! pallet-capacity: P01..P06
use frame_support::traits::{Get, Hooks};
use pallet_capacity::{types::*, *};
use common_primitives::{capacity::{Nontransferable, Replenishable, TargetValidator}, msa::MessageSourceId};
use rt::{accs, acct, frozen, free, signed, Acc, Bal};
use sp_runtime::Perbill;
rt::runtime! { Capacity: pallet_capacity }
pub struct Valid;
static mut ANY: bool = false; static mut VALID: [bool; 3] = [false; 3];
impl TargetValidator for Valid { fn validate(t: MessageSourceId) -> bool { unsafe { ANY || t < 3 && VALID[t as usize] } } }
pub struct Fr; impl From<FreezeReason> for Fr { fn from(_: FreezeReason) -> Fr { Fr } }
impl rt::FreezeId for Fr { fn n(&self) -> u8 { 1 } }
const MIN_STAKE: u64 = 5; const MIN_LEFT: u64 = 10; const THAW: u16 = 3; static mut CHUNKS: u32 = 2; #[derive(Clone, Debug, PartialEq, Eq)] pub struct MaxCh; impl Get<u32> for MaxCh { fn get() -> u32 { unsafe { CHUNKS } } } const MAXEP: u32 = 100;
impl Config for Test {
    type RuntimeEvent = RuntimeEvent; type RuntimeFreezeReason = Fr; type WeightInfo = (); type Currency = Bal<Fr>; type TargetValidator = Valid;
    type MinimumStakingAmount = frame_support::traits::ConstU64<MIN_STAKE>; type MinimumTokenBalance = frame_support::traits::ConstU64<MIN_LEFT>;
    type MaxUnlockingChunks = MaxCh; type UnstakingThawPeriod = frame_support::traits::ConstU16<THAW>;
    type MaxEpochLength = frame_support::traits::ConstU32<MAXEP>; type EpochNumber = u32; type CapacityPerToken = Cpt;
}
pub struct Cpt; impl Get<Perbill> for Cpt { fn get() -> Perbill { Perbill::from_percent(2) } }
type P = Pallet<Test>;

type Led = CapacityDetails<u64, u32>;
const LIM: u64 = 1 << 36;
fn amt(n: &str) -> u64 { let v = sym::u64(n); sym::assume(v < LIM); v }
fn pos(n: &str) -> u64 { let v = amt(n); sym::assume(v > 0); v }
fn valid(a: bool, b: bool) { unsafe { VALID = [false, a, b]; } }
fn t(s: u8, m: u64) -> u64 { StakingTargetLedger::<Test>::get(acct(s), m).map(|d| d.amount).unwrap_or(0) }
fn tc(s: u8, m: u64) -> u64 { StakingTargetLedger::<Test>::get(acct(s), m).map(|d| d.capacity).unwrap_or(0) }
fn active(s: u8) -> u64 { StakingAccountLedger::<Test>::get(acct(s)).map(|d| d.active).unwrap_or(0) }
fn led(m: u64) -> Led { CapacityLedger::<Test>::get(m).unwrap_or_default() }
fn chunks(s: u8) -> Vec<(u64, u32)> { UnstakeUnlocks::<Test>::get(acct(s)).map(|l| l.iter().map(|c| (c.value, c.thaw_at)).collect()).unwrap_or_default() }
fn sum(c: &[(u64, u32)]) -> u64 { c.iter().map(|x| x.0).sum() }
fn set_t(s: u8, m: u64, a: u64, c: u64) { StakingTargetLedger::<Test>::insert(acct(s), m, StakingTargetDetails { amount: a, capacity: c }) }
fn set_active(s: u8, a: u64) { StakingAccountLedger::<Test>::insert(acct(s), StakingDetails::<Test> { active: a, staking_type: StakingType::MaximumCapacity }) }
/// an arbitrary state in which the ledgers agree: stakers 1 and 2, targets 1 and 2
struct Pre { t11: u64, t12: u64, t21: u64, chunks: Vec<(u64, u32)>, l1: Led, l2: Led, epoch: u32, free: u64, active: u64, c11: u64 }
fn pre(shape: u64, nch: u64) -> Pre {
    sp_runtime::sim_abstract_parts(true);
    let t11 = if shape & 1 != 0 { pos("t11") } else { 0 };
    let t12 = if shape & 2 != 0 { pos("t12") } else { 0 };
    let t21 = if shape & 4 != 0 { pos("t21") } else { 0 };
    let c11 = amt("c11");
    let epoch = sym::u32("epoch"); sym::assume(epoch < u32::MAX - 10); CurrentEpoch::<Test>::set(epoch);
    if t11 > 0 { set_t(1, 1, t11, c11) }
    if t12 > 0 { set_t(1, 2, t12, amt("c12")) }
    if t21 > 0 { set_t(2, 1, t21, amt("c21")); set_active(2, t21); }
    let active = t11 + t12; if shape & 3 != 0 { set_active(1, active) }
    let mk = |n: &str, staked: u64| { let rem = amt(n); let issued = rem + amt(n); let last = sym::u32(n); sym::assume(last <= epoch); CapacityDetails { remaining_capacity: rem, total_tokens_staked: staked, total_capacity_issued: issued, last_replenished_epoch: last } };
    let l1 = if shape & 8 != 0 || shape & 5 != 0 { let l = mk("l1", t11 + t21); CapacityLedger::<Test>::insert(1u64, l.clone()); l } else { Led::default() };
    let l2 = if shape & 2 != 0 { let l = mk("l2", t12); CapacityLedger::<Test>::insert(2u64, l.clone()); l } else { Led::default() };
    let chunks: Vec<(u64, u32)> = (0..nch).map(|_| (pos("chunk"), sym::u32("thaw"))).collect();
    if nch > 0 { UnstakeUnlocks::<Test>::insert(acct(1), UnlockChunkList::<Test>::try_from(chunks.iter().map(|c| UnlockChunk { value: c.0, thaw_at: c.1 }).collect::<Vec<_>>()).unwrap()); }
    let fr = active + sum(&chunks); let free = fr + amt("spare");
    accs().push(Acc { who: acct(1), free, freezes: if shape & 3 != 0 || nch > 0 { vec![(1, fr)] } else { vec![] } });
    accs().push(Acc { who: acct(2), free: amt("free2"), freezes: if t21 > 0 { vec![(1, t21)] } else { vec![] } });
    Pre { t11, t12, t21, chunks, l1, l2, epoch, free, active, c11 }
}
/// the three ledgers agree, hold no empty entries, and nothing but staker 1 and target 1 changed
fn ledgers_agree(p: &Pre) {
    sym::check(active(1) == t(1, 1) + t(1, 2), "a staker's active stake is the sum of its stake to each target");
    sym::check(StakingAccountLedger::<Test>::contains_key(acct(1)) == (active(1) != 0), "no empty staking account");
    sym::check(led(1).total_tokens_staked == t(1, 1) + t(2, 1), "a target's staked tokens are the sum over its stakers");
    sym::check(StakingTargetLedger::<Test>::sim_all().iter().all(|e| e.1.amount != 0), "no empty target entry");
    sym::check(t(2, 1) == p.t21 && active(2) == p.t21, "other stakers keep their stake");
    sym::check(t(1, 2) == p.t12 && led(2) == p.l2, "other targets keep their stake and capacity");
    sym::check(StakingTargetLedger::<Test>::sim_all().len() <= 3 && CapacityLedger::<Test>::sim_all().len() <= 2, "nothing else appears in the ledgers");
}
fn cap(a: u64) -> u64 { Cpt::get() * a }
fn stake(which: u8, maxch: u64) {
    let p = pre(sym::choose("shape", 0, if which == 2 { 3 } else { 15 }), sym::choose("chunks", 0, maxch));
    let a = sym::u64("amount"); let v = sym::bool("valid"); valid(v, true);
    let (f2, z2) = (free(&acct(2)), frozen(1, &acct(2)));
    let stakable = p.free.saturating_sub(p.active + sum(&p.chunks)).saturating_sub(MIN_LEFT); let want = if a < stakable { a } else { stakable };
    let may = a > 0 && v && want > 0 && p.active + want >= MIN_STAKE;
    let r = P::stake(signed(1), 1, a);
    sym::check(r.is_ok() == may, "staking succeeds exactly for a provider, a positive amount the free balance covers, and at least the minimum stake");
    if r.is_err() { return }
    sym::cover("staked");
    match which {
        1 => { ledgers_agree(&p); sym::check(t(1, 1) == p.t11 + want, "the target entry grows by the staked amount"); sym::check(active(1) == p.active + want, "the active stake grows by the staked amount"); },
        2 => {
            sym::check(frozen(1, &acct(1)) == active(1) + sum(&chunks(1)), "the frozen balance is the active stake plus everything unlocking");
            sym::check(frozen(1, &acct(1)) + MIN_LEFT <= free(&acct(1)), "staking leaves the minimum balance unfrozen");
            sym::check(active(1) - p.active <= a, "never more than the requested amount is staked");
            sym::check(free(&acct(1)) == p.free && free(&acct(2)) == f2 && frozen(1, &acct(2)) == z2 && chunks(1) == p.chunks, "staking moves no tokens and touches no other freeze");
        },
        _ => {
            let g = cap(want); let l = led(1);
            sym::check(l.total_capacity_issued == p.l1.total_capacity_issued + g && l.remaining_capacity == p.l1.remaining_capacity + g, "the target is issued and may at once spend the capacity generated");
            sym::check(l.last_replenished_epoch == p.l1.last_replenished_epoch, "staking does not count as a replenishment");
            sym::check(tc(1, 1) == (if p.t11 > 0 { p.c11 } else { 0 }) + g, "the staker's capacity at the target grows by what was generated");
            sym::check(events().last() == Some(&RuntimeEvent::Capacity(Event::Staked { account: acct(1), target: 1, amount: want, capacity: g })), "the event reports the amount staked and the capacity generated");
        },
    }
}
/// what unstaking `a` of `active` takes: all of it if what is left would not exceed the minimum
fn taken(active: u64, a: u64) -> u64 { if active.saturating_sub(a) <= MIN_STAKE { active } else { a } }
fn unstake(which: u8, overdraw: bool) {
    let p = pre(sym::choose("shape", 0, if which == 2 { 3 } else { 15 }), if which == 2 { sym::choose("chunks", 0, 2) } else { 0 });
    let a = sym::u64("amount"); valid(sym::bool("valid"), true);
    let took = taken(p.active, a);
    sym::assume(overdraw == (took > p.t11 && p.t11 > 0 && a <= p.active));
    let may = a > 0 && a <= p.active && p.t11 > 0 && (p.chunks.len() as u32) < MaxCh::get();
    let fr = frozen(1, &acct(1));
    let r = P::unstake(signed(1), 1, a);
    sym::check(r.is_ok() == may, "unstaking succeeds exactly for a positive amount within the stake, with room for another unlocking chunk");
    if r.is_err() { return }
    sym::cover("unstaked");
    match which {
        1 => { ledgers_agree(&p); sym::check(t(1, 1) == p.t11 - took, "the target entry shrinks by the unstaked amount"); sym::check(active(1) == p.active - took, "the active stake shrinks by the unstaked amount"); sym::check(active(1) == 0 || active(1) > MIN_STAKE, "no stake at or below the minimum is left behind"); },
        2 => {
            sym::check(frozen(1, &acct(1)) == fr, "unstaked tokens stay frozen until withdrawn");
            sym::check(fr == active(1) + sum(&chunks(1)), "the frozen balance is the active stake plus everything unlocking");
            let mut want = p.chunks.clone(); want.push((took, p.epoch + THAW as u32));
            sym::check(chunks(1) == want, "the unstaked amount becomes one more chunk that thaws after the thaw period");
            sym::check(free(&acct(1)) == p.free, "unstaking moves no tokens");
        },
        _ => {
            let l = led(1); let red = p.l1.total_capacity_issued - l.total_capacity_issued;
            sym::check(l.total_capacity_issued <= p.l1.total_capacity_issued, "unstaking never issues capacity");
            sym::check(l.remaining_capacity == p.l1.remaining_capacity.saturating_sub(if took == p.t11 { p.c11 } else { red }), "remaining capacity shrinks by the reduction");
            sym::check(l.remaining_capacity <= l.total_capacity_issued, "no more capacity remains than is issued");
            sym::check(took != p.t11 || red == if p.c11 < p.l1.total_capacity_issued { p.c11 } else { p.l1.total_capacity_issued }, "withdrawing a whole stake withdraws the capacity it generated");
            sym::check(l.last_replenished_epoch == p.l1.last_replenished_epoch, "unstaking does not count as a replenishment");
            sym::check(t(1, 1) > 0 || tc(1, 1) == 0, "no capacity without stake");
            sym::check(took == p.t11 || tc(1, 1) == p.c11.saturating_sub(red), "the staker's entry loses the capacity withdrawn");
            sym::check(took == p.t11 || events().last() == Some(&RuntimeEvent::Capacity(Event::UnStaked { account: acct(1), target: 1, amount: took, capacity: red })), "the event reports the amount unstaked and the capacity withdrawn");
        },
    }
}
fn withdraw(shape: u64, n: u64) {
    let p = pre(shape, n); let fr = frozen(1, &acct(1)); let a0 = active(1);
    let r = P::withdraw_unstaked(signed(1));
    let left: u64 = p.chunks.iter().map(|c| sym::ite(c.1 > p.epoch, c.0, 0)).sum(); let all = sum(&p.chunks);
    sym::check(r.is_ok() == (left < all), "withdrawing succeeds exactly when something has thawed");
    if r.is_err() { return }
    sym::cover("withdrawn");
    sym::check(sum(&chunks(1)) == left, "exactly the thawed chunks are withdrawn");
    sym::check(chunks(1).iter().all(|c| c.1 > p.epoch), "no thawed chunk stays");
    sym::check(frozen(1, &acct(1)) == fr - (all - left), "the freeze shrinks by what has thawed, no more");
    sym::check(frozen(1, &acct(1)) == active(1) + sum(&chunks(1)) && active(1) == a0, "the frozen balance is the active stake plus everything unlocking");
    sym::check(free(&acct(1)) == p.free, "withdrawing moves no tokens");
    sym::check(UnstakeUnlocks::<Test>::contains_key(acct(1)) == (left > 0), "an empty list is removed");
    sym::check(rt::frozen_any(&acct(1)) == (a0 + left > 0), "a freeze remains exactly while something is staked or unlocking");
    sym::check(events().last() == Some(&RuntimeEvent::Capacity(Event::StakeWithdrawn { account: acct(1), amount: all - left })), "the event reports the amount withdrawn");
}
sym::harnesses!{
fn p01_ids() {
    // whatever the ids of the targets
    unsafe { ANY = true } let (m, n) = (sym::u64("target"), sym::u64("another target")); sym::assume(m != n); accs().push(Acc { who: acct(1), free: 1000, freezes: vec![] }); let (a, b) = (200, 150); CurrentEpoch::<Test>::set(3);
    sym::check(P::stake(signed(1), m, a).is_ok() && P::stake(signed(1), n, b).is_ok(), "staked"); sym::check(t(1, m) == a && t(1, n) == b && active(1) == a + b && led(m).total_tokens_staked == a && led(n).total_tokens_staked == b && led(m).total_capacity_issued == cap(a) && led(n).remaining_capacity == cap(b), "each target has what was staked to it"); let l = led(n);
    if sym::bool("unstake") { sym::check(P::unstake(signed(1), m, 20).is_ok() && t(1, m) == a - 20 && led(m).total_tokens_staked == a - 20 && active(1) == a + b - 20, "unstaked"); sym::cover("unstaked"); let d = sym::u64("third target"); sym::check(P::unstake(signed(1), d, 20).is_ok() == (d == m || d == n), "only from where it is staked") ; if d == n { return } }
    else { let had = led(m).remaining_capacity; if had > 0 { sym::check(P::deduct(m, 1).is_ok() && led(m).remaining_capacity == had - 1, "spent"); sym::cover("spent") } } sym::check(t(1, n) == b && led(n) == l, "the other target keeps its own");
}
fn p01_stake() { stake(1, 0) }
fn p01_unstake() { unstake(1, false) }
fn p01_kf_overdraw() { unstake(1, true) }
fn p02_stake() { stake(2, 1) }
fn p02_t_stake() { stake(2, 2) }
fn p02_unstake() { unstake(2, false) }
fn p02_many() { unsafe { CHUNKS = 4 } withdraw(1, 4) }
fn p02_withdraw() { let n = sym::choose("chunks", 0, 2); withdraw(sym::choose("shape", 0, 3), n) }
fn p03_stake() { stake(3, 0) }
fn p03_unstake() { unstake(3, false) }
fn p04_spend() { spend(1) }
fn p04_spend2() { spend(2) }
fn p04_t_spend3() { spend(3) }
fn p05_epoch() {
    let epoch = sym::u32("epoch"); let start = sym::u32("start"); let len = sym::u32("length"); let now = sym::u32("now");
    sym::assume(epoch < u32::MAX && start <= now); CurrentEpoch::<Test>::set(epoch); CurrentEpochInfo::<Test>::set(EpochInfo { epoch_start: start });
    sym::assume(len <= MAXEP); EpochLength::<Test>::set(len); set_block(now);
    let _ = <P as Hooks<u32>>::on_initialize(now);
    let over = (now - start) >= len;
    sym::check(CurrentEpoch::<Test>::get() == (if over { sym::cover("a new epoch"); epoch + 1 } else { sym::cover("the same epoch"); epoch }), "an epoch lasts exactly the epoch length, and the next one follows it");
    sym::check(CurrentEpochInfo::<Test>::get().epoch_start == (if over { now } else { start }), "an epoch starts at the block that opens it");
    sym::check(EpochLength::<Test>::get() == len, "the epoch length stays as set");
}
fn p05_run() {
    // a run of blocks: epochs tile the chain
    let len = sym::u32("length"); sym::assume(len > 0 && len <= 4); let s0 = sym::u32("start"); sym::assume(s0 < 1000);
    EpochLength::<Test>::set(len); CurrentEpoch::<Test>::set(7); CurrentEpochInfo::<Test>::set(EpochInfo { epoch_start: s0 });
    for i in 1..=6u32 {
        set_block(s0 + i); let _ = <P as Hooks<u32>>::on_initialize(s0 + i);
        sym::check(CurrentEpoch::<Test>::get() == 7 + i / len, "after n blocks, n / length epochs have passed");
    }
    sym::cover("ran");
}
fn p05_length() {
    let len = sym::u32("length"); let old = sym::u32("old"); let who = sym::choose("who", 0, 2); EpochLength::<Test>::set(old); CurrentEpoch::<Test>::set(3); CurrentEpochInfo::<Test>::set(EpochInfo { epoch_start: 9 });
    let r = P::set_epoch_length(match who { 0 => rt::root(), 1 => signed(1), _ => rt::none() }, len);
    let ok = who == 0 && len <= MAXEP;
    sym::check(r.is_ok() == ok, "only root sets the epoch length, up to the configured maximum");
    sym::check(EpochLength::<Test>::get() == (if ok { sym::cover("set"); len } else { old }), "the epoch length is what root last set");
    sym::check(CurrentEpoch::<Test>::get() == 3 && CurrentEpochInfo::<Test>::get().epoch_start == 9, "setting the length moves no epoch");
}
fn p06_generated() {
    // real arithmetic: what a stake generates is 2% of it, within rounding
    let a = sym::u64("amount"); sym::assume(a >= MIN_STAKE && a < AMT06); valid(true, false);
    accs().push(Acc { who: acct(1), free: AMT06 + MIN_LEFT, freezes: vec![] });
    sym::check(P::stake(signed(1), 1, a).is_ok(), "the stake is accepted"); sym::cover("staked");
    let g = led(1).total_capacity_issued;
    sym::check(50 * g <= a + 25 && a <= 50 * g + 25, "capacity is the configured share of the stake, rounded to nearest");
    sym::check(led(1).remaining_capacity == g && tc(1, 1) == g && led(1).total_tokens_staked == a, "all of it is available");
}
fn p06_t_generated() {
    let a = sym::u64("amount"); sym::assume(a >= MIN_STAKE && a < 1 << 20); valid(true, false);
    accs().push(Acc { who: acct(1), free: 1 << 21, freezes: vec![] });
    sym::check(P::stake(signed(1), 1, a).is_ok(), "the stake is accepted"); sym::cover("staked");
    let g = led(1).total_capacity_issued;
    sym::check(50 * g <= a + 25 && a <= 50 * g + 25, "capacity is the configured share of the stake, rounded to nearest");
}
fn p06_reduction() {
    // real arithmetic: unstaking part of a stake withdraws at least its share of the capacity and less than one unit more
    let (total, other, a) = [(20u64, 0u64, 7u64), (1000, 0, 1), (231, 999, 77), (1 << 20, 5, (1 << 20) - 6)][sym::choose("case", 0, 3) as usize];
    let issued = sym::u64("issued"); sym::assume(issued < 1 << 12); let rem = sym::u64("remaining"); sym::assume(rem <= issued);
    set_t(1, 1, total, issued); set_active(1, total); if other > 0 { set_t(2, 1, other, 0); set_active(2, other) }
    CapacityLedger::<Test>::insert(1u64, CapacityDetails { remaining_capacity: rem, total_tokens_staked: total + other, total_capacity_issued: issued, last_replenished_epoch: 0 });
    accs().push(Acc { who: acct(1), free: total + MIN_LEFT, freezes: vec![(1, total)] });
    sym::check(P::unstake(signed(1), 1, a).is_ok(), "the unstake is accepted"); sym::cover("unstaked");
    let l = led(1); let red = issued - l.total_capacity_issued; let all = total + other;
    // 1e9 * share is rounded, so the exact share is met within issued / 1e9 + 1
    sym::check(1000 * red * all + all >= 1000 * issued * a && red * all <= issued * a + all + all / 1000, "capacity shrinks in proportion to the tokens unstaked");
    sym::check(red <= issued && l.remaining_capacity == rem.saturating_sub(red), "what remains shrinks by the same amount");
    sym::check(l.total_tokens_staked == all - a, "the tokens leave the total");
}
}
const AMT06: u64 = 1 << 16;
/// a sequence of operations on the capacity of target 1, with target 2 beside it
fn spend(steps: u32) {
    sp_runtime::sim_abstract_parts(true);
    let epoch = sym::u32("epoch"); CurrentEpoch::<Test>::set(epoch);
    let mk = |m: u64| { let l = CapacityDetails { remaining_capacity: sym::u64("remaining"), total_tokens_staked: sym::u64("staked"), total_capacity_issued: sym::u64("issued"), last_replenished_epoch: sym::u32("last") }; CapacityLedger::<Test>::insert(m, l.clone()); l };
    let mut l1 = if sym::bool("has1") { Some(mk(1)) } else { None }; let l2 = mk(2);
    for _ in 0..steps {
        let a = sym::u64("amount"); let op = sym::choose("op", 0, 4); let was = l1.clone(); let n = events().len();
        match op {
            0 => {
                let r = <P as Nontransferable>::deduct(1, a);
                let may = was.as_ref().map_or(false, |l| a <= l.remaining_capacity);
                sym::check(r.is_ok() == may, "capacity can be spent exactly up to what remains");
                if r.is_ok() { sym::cover("spent"); l1.as_mut().unwrap().remaining_capacity -= a;
                    sym::check(events().len() == n + 1 && events().last() == Some(&RuntimeEvent::Capacity(Event::CapacityWithdrawn { msa_id: 1, amount: a })), "spending is reported"); }
            },
            1 => {
                let r = <P as Replenishable>::replenish_all_for(1);
                sym::check(r.is_ok() == was.is_some(), "only an existing ledger is replenished");
                if let Some(l) = l1.as_mut() { sym::cover("replenished"); l.remaining_capacity = l.total_capacity_issued; l.last_replenished_epoch = epoch; }
            },
            2 => {
                let r = <P as Replenishable>::replenish_by_amount(1, a);
                sym::check(r.is_ok() == was.is_some(), "only an existing ledger is replenished");
                if let Some(l) = l1.as_mut() { l.remaining_capacity = l.remaining_capacity.saturating_add(a); l.last_replenished_epoch = epoch; }
            },
            3 => {
                let may = <P as Replenishable>::can_replenish(1);
                sym::check(may == was.as_ref().map_or(false, |l| l.last_replenished_epoch < epoch), "capacity can be replenished once per epoch");
            },
            _ => {
                let r = <P as Nontransferable>::deposit(1, a);
                if r.is_ok() {
                    sym::cover("deposited");
                    let w = was.unwrap(); let l = led(1); let g = l.total_capacity_issued - w.total_capacity_issued;
                    sym::check(l.total_capacity_issued >= w.total_capacity_issued && l.total_tokens_staked >= w.total_tokens_staked && l.total_tokens_staked - w.total_tokens_staked == a, "a deposit adds the tokens to the total");
                    sym::check(l.remaining_capacity >= w.remaining_capacity && l.remaining_capacity - w.remaining_capacity == g, "a deposit makes what it issues available");
                    sym::check(l.last_replenished_epoch == w.last_replenished_epoch, "a deposit is no replenishment");
                    l1 = Some(l);
                }
            },
        }
        sym::check(CapacityLedger::<Test>::get(1u64) == l1, "the ledger records exactly the operation, and nothing when it fails");
        sym::check(<P as Nontransferable>::balance(1) == l1.as_ref().map_or(0, |l| l.remaining_capacity), "the balance is what remains");
        sym::check(led(2) == l2, "other ledgers stay as they are");
    }
}
