//! The fee rules, written out again: a tenth of a cent for the weight of an empty call, 10 millicents a byte.
use crate::*;
pub const CENTS: u128 = 1_000_000; pub const BYTE: u128 = 10 * CENTS / 1_000;
/// a tenth of a cent over the time of an empty call, to nine places, rounded to the nearest
pub fn weight_fee(ref_time: u64) -> u128 { let q = 10 * cfg_base(); sp_runtime::Perbill::from_rational(CENTS, q) * ref_time as u128 }
fn cfg_base() -> u128 { common_runtime::weights::extrinsic_weights::ExtrinsicBaseWeight::get().ref_time() as u128 }
pub fn capped(t: u64) -> u64 { let m = unsafe { rt::MAX_BLOCK }; if t > m { m } else { t } }
/// the capacity fee of calls weighing `t` in a transaction of `len` bytes
pub fn capacity_fee(t: u64, len: u32) -> u128 { weight_fee(capped(105_455_000)) + weight_fee(capped(t)) + BYTE * len as u128 }
