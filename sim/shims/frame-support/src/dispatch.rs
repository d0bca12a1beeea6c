pub use sp_runtime::{DispatchError, DispatchErrorWithPostInfo as SpErr, DispatchResult, ModuleError};
pub use sp_weights::Weight;
pub use crate::traits::UnfilteredDispatchable;
use parity_scale_codec::{self, Decode, Encode};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, Default)] pub enum Pays { #[default] Yes, No }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, Default)] pub enum DispatchClass { #[default] Normal, Operational, Mandatory }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, Default)] pub struct DispatchInfo { pub weight: Weight, pub class: DispatchClass, pub pays_fee: Pays }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, Default)] pub struct PostDispatchInfo { pub actual_weight: Option<Weight>, pub pays_fee: Pays }
impl scale_info::TypeInfo for PostDispatchInfo { type Identity = Self; }
impl PostDispatchInfo { pub fn calc_actual_weight(&self, info: &DispatchInfo) -> Weight { match self.actual_weight { Some(w) => w.min(info.weight), None => info.weight } } pub fn calc_unspent(&self, info: &DispatchInfo) -> Weight { info.weight - self.calc_actual_weight(info) } }
pub type DispatchErrorWithPostInfo = SpErr<PostDispatchInfo>;
pub type DispatchResultWithPostInfo = Result<PostDispatchInfo, DispatchErrorWithPostInfo>;
impl From<()> for PostDispatchInfo { fn from(_: ()) -> Self { Default::default() } }
impl From<Pays> for PostDispatchInfo { fn from(p: Pays) -> Self { PostDispatchInfo { actual_weight: None, pays_fee: p } } }
impl From<Option<Weight>> for PostDispatchInfo { fn from(w: Option<Weight>) -> Self { PostDispatchInfo { actual_weight: w, pays_fee: Pays::Yes } } }
impl From<(Option<Weight>, Pays)> for PostDispatchInfo { fn from((w, p): (Option<Weight>, Pays)) -> Self { PostDispatchInfo { actual_weight: w, pays_fee: p } } }
pub trait GetDispatchInfo { fn get_dispatch_info(&self) -> DispatchInfo; }
pub trait SimWeight { fn info(self) -> DispatchInfo; }
impl SimWeight for Weight { fn info(self) -> DispatchInfo { DispatchInfo { weight: self, ..Default::default() } } }
impl SimWeight for u64 { fn info(self) -> DispatchInfo { DispatchInfo { weight: Weight::from_parts(self, 0), ..Default::default() } } }
impl SimWeight for (Weight, Pays) { fn info(self) -> DispatchInfo { DispatchInfo { weight: self.0, pays_fee: self.1, ..Default::default() } } }
impl SimWeight for (Weight, DispatchClass) { fn info(self) -> DispatchInfo { DispatchInfo { weight: self.0, class: self.1, ..Default::default() } } }
impl SimWeight for (Weight, DispatchClass, Pays) { fn info(self) -> DispatchInfo { DispatchInfo { weight: self.0, class: self.1, pays_fee: self.2 } } }
pub fn sim_dispatch_info<W: SimWeight>(w: W) -> DispatchInfo { w.info() }
pub trait RawOriginish {}
pub use crate::traits::EnsureOrigin;
