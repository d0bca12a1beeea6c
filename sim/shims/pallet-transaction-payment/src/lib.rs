//! Stand-in for pallet-transaction-payment: the token fee of a call that pays is base + length + weight fee + tip, of one that
//! does not the tip alone; the fee multiplier is 1 and nothing is refunded by this model except what `OnChargeTransaction` does.
use frame_support::{dispatch::*, weights::{Weight, WeightToFee}};
use sp_runtime::{traits::*, transaction_validity::TransactionValidityError, FixedPointOperand};
pub trait Config: frame_system::Config {
    type OnChargeTransaction: OnChargeTransaction<Self>;
    type WeightToFee: WeightToFee<Balance = BalanceOf<Self>>;
    type LengthToFee: WeightToFee<Balance = BalanceOf<Self>>;
    fn sim_base() -> Weight { Weight::from_parts(125_000_000, 0) }
}
pub type BalanceOf<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::Balance;
pub type LiquidityInfoOf<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo;
pub trait OnChargeTransaction<T: Config> {
    type Balance: frame_support::traits::tokens::Balance;
    type LiquidityInfo: Default;
    fn withdraw_fee(who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, fee: Self::Balance, tip: Self::Balance) -> Result<Self::LiquidityInfo, TransactionValidityError>;
    fn correct_and_deposit_fee(who: &T::AccountId, info: &DispatchInfoOf<T::RuntimeCall>, post: &PostDispatchInfoOf<T::RuntimeCall>, corrected_fee: Self::Balance, tip: Self::Balance, already: Self::LiquidityInfo) -> Result<(), TransactionValidityError>;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct InclusionFee<B> { pub base_fee: B, pub len_fee: B, pub adjusted_weight_fee: B }
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct FeeDetails<B> { pub inclusion_fee: Option<InclusionFee<B>>, pub tip: B }
impl<B: Saturating + Copy> InclusionFee<B> { pub fn inclusion_fee(&self) -> B { self.base_fee.saturating_add(self.len_fee).saturating_add(self.adjusted_weight_fee) } }
impl<B: Saturating + Copy> FeeDetails<B> { pub fn final_fee(&self) -> B { match &self.inclusion_fee { Some(i) => i.inclusion_fee().saturating_add(self.tip), None => self.tip } } }
pub struct Pallet<T>(core::marker::PhantomData<T>);
impl<T: Config> Pallet<T> {
    pub fn weight_to_fee(w: Weight) -> BalanceOf<T> { T::WeightToFee::weight_to_fee(&w) }
    pub fn length_to_fee(n: u32) -> BalanceOf<T> { T::LengthToFee::weight_to_fee(&Weight::from_parts(n as u64, 0)) }
    pub fn compute_fee(len: u32, info: &DispatchInfo, tip: BalanceOf<T>) -> BalanceOf<T> {
        if info.pays_fee == Pays::No { return tip }
        Self::weight_to_fee(T::sim_base()).saturating_add(Self::length_to_fee(len)).saturating_add(Self::weight_to_fee(info.weight)).saturating_add(tip)
    }
}
pub struct ChargeTransactionPayment<T: Config>(pub BalanceOf<T>);
impl<T: Config> ChargeTransactionPayment<T> where BalanceOf<T>: FixedPointOperand + Send + Sync, T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo> {
    pub fn from(f: BalanceOf<T>) -> Self { Self(f) }
    pub fn get_priority(_info: &DispatchInfo, _len: usize, tip: BalanceOf<T>, _fee: BalanceOf<T>) -> u64 { let t: u128 = tip.unique_saturated_into(); t as u64 }
    pub fn post_dispatch(pre: Option<(BalanceOf<T>, T::AccountId, LiquidityInfoOf<T>)>, info: &DispatchInfo, post: &PostDispatchInfo, len: usize, _r: &DispatchResult) -> Result<(), TransactionValidityError> {
        if let Some((tip, who, i)) = pre { let mut fi = info.clone(); if let Some(w) = post.actual_weight { fi.weight = w.min(info.weight) } if post.pays_fee == Pays::No { fi.pays_fee = Pays::No } let fee = Pallet::<T>::compute_fee(len as u32, &fi, tip); T::OnChargeTransaction::correct_and_deposit_fee(&who, info, post, fee, tip, i)?; }
        Ok(())
    }
}

/// fees are burnt from the payer's free balance, which keeps the account alive, and an excess is given back
pub struct CurrencyAdapter<C, O>(core::marker::PhantomData<(C, O)>);
impl<T: Config, C: frame_support::traits::tokens::fungible::Mutate<T::AccountId>, O> OnChargeTransaction<T> for CurrencyAdapter<C, O> {
    type Balance = C::Balance; type LiquidityInfo = Option<C::Balance>;
    fn withdraw_fee(who: &T::AccountId, _c: &T::RuntimeCall, _i: &DispatchInfoOf<T::RuntimeCall>, fee: C::Balance, _t: C::Balance) -> Result<Option<C::Balance>, TransactionValidityError> {
        use frame_support::traits::tokens::*; if fee.is_zero() { return Ok(None) } if C::reducible_balance(who, Preservation::Preserve, Fortitude::Polite) < fee { return Err(sp_runtime::transaction_validity::InvalidTransaction::Payment.into()) }
        C::burn_from(who, fee, Precision::Exact, Fortitude::Polite).map_err(|_| sp_runtime::transaction_validity::InvalidTransaction::Payment)?; Ok(Some(fee))
    }
    fn correct_and_deposit_fee(who: &T::AccountId, _i: &DispatchInfoOf<T::RuntimeCall>, _p: &PostDispatchInfoOf<T::RuntimeCall>, fee: C::Balance, _t: C::Balance, paid: Option<C::Balance>) -> Result<(), TransactionValidityError> {
        if let Some(p) = paid { let back = p.saturating_sub(fee); if !back.is_zero() { C::mint_into(who, back).map_err(|_| sp_runtime::transaction_validity::InvalidTransaction::Payment)?; } } Ok(())
    }
}
