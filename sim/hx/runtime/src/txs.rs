//! A signed transaction's way through the runtime: its extensions, the call filter, the call, and back through the extensions.
use crate::*;
use sp_runtime::traits::{DispatchInfoOf, PostDispatchInfoOf};
#[derive(Clone, Copy)] pub struct Parts { pub nonce: u32, pub tip: Balance }
/// builds each of the runtime's extensions, in whatever order it lists them
pub trait Make { fn make(p: Parts) -> Self; fn ids(v: &mut Vec<&'static str>); }
macro_rules! make { ($($t:ty => $e:expr;)*) => { $(impl Make for $t { fn make(p: Parts) -> Self { let f: fn(Parts) -> Self = $e; f(p) } fn ids(v: &mut Vec<&'static str>) { v.push(<$t as SignedExtension>::IDENTIFIER) } })* } }
make! {
    frame_system::CheckNonZeroSender<Test> => |_| Self::new(); frame_system::CheckSpecVersion<Test> => |_| Self::new(); frame_system::CheckTxVersion<Test> => |_| Self::new(); frame_system::CheckGenesis<Test> => |_| Self::new(); frame_system::CheckEra<Test> => |_| Self::new(); frame_system::CheckMortality<Test> => |_| Self::new(); frame_system::CheckWeight<Test> => |_| Self::new();
    common_runtime::extensions::check_nonce::CheckNonce<Test> => |p| Self::from(p.nonce);
    pallet_frequency_tx_payment::ChargeFrqTransactionPayment<Test> => |p| Self::from(p.tip);
    pallet_msa::CheckFreeExtrinsicUse<Test> => |_| Self::new();
    pallet_handles::handles_signed_extension::HandlesSignedExtension<Test> => |_| Self::new();
}
macro_rules! tup { ($($n:ident)*) => { impl<$($n: Make),*> Make for ($($n,)*) { fn make(p: Parts) -> Self { ($($n::make(p),)*) } fn ids(v: &mut Vec<&'static str>) { $($n::ids(v);)* } } } }
tup!(A B); tup!(A B C); tup!(A B C D); tup!(A B C D E); tup!(A B C D E F); tup!(A B C D E F G); tup!(A B C D E F G H); tup!(A B C D E F G H I); tup!(A B C D E F G H I J); tup!(A B C D E F G H I J K); tup!(A B C D E F G H I J K L);
pub type Pre = <SignedExtra as SignedExtension>::Pre;
pub fn extra(p: Parts) -> SignedExtra { SignedExtra::make(p) }
pub fn filter_on() { unsafe { SIM_FILTER = Some(<testnet::cfg::frame_system::BaseCallFilter as Contains<RuntimeCall>>::contains) } }
pub fn mainnet_filter_on() { unsafe { SIM_FILTER = Some(<mainnet::cfg::frame_system::BaseCallFilter as Contains<RuntimeCall>>::contains) } }
/// accepted into the pool
pub fn validate(who: u8, c: &RuntimeCall, p: Parts, len: usize) -> TransactionValidity { extra(p).validate(&acct(who), c, &c.get_dispatch_info(), len) }
/// accepted into a block
pub fn accept(who: u8, c: &RuntimeCall, p: Parts, len: usize) -> Result<(DispatchInfo, Pre), TransactionValidityError> { let i = c.get_dispatch_info(); let pre = extra(p).pre_dispatch(&acct(who), c, &i, len)?; Ok((i, pre)) }
pub fn finish(pre: Pre, info: &DispatchInfo, post: &PostDispatchInfo, len: usize, r: &DispatchResult) -> Result<(), TransactionValidityError> { SignedExtra::post_dispatch(Some(pre), info, post, len, r) }
/// the whole of it
pub fn apply(who: u8, c: &RuntimeCall, p: Parts, len: usize) -> Result<DispatchResult, TransactionValidityError> {
    let (info, pre) = accept(who, c, p, len)?; let r = c.clone().dispatch(signed(who));
    let (post, out) = match r { Ok(i) => (i, Ok(())), Err(e) => (e.post_info, Err(e.error)) };
    finish(pre, &info, &post, len, &out)?; Ok(out)
}
