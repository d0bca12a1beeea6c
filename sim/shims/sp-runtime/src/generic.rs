use parity_scale_codec::{self, Decode, Encode};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode)]
pub enum Era { Immortal, Mortal(u64, u64) }
pub struct Header<N, H>(core::marker::PhantomData<(N, H)>);
pub struct Block<H, E>(core::marker::PhantomData<(H, E)>);
pub struct UncheckedExtrinsic<A, C, S, E>(core::marker::PhantomData<(A, C, S, E)>);
pub enum BlockId<B: crate::traits::Block> { Hash(B::Hash), Number(core::marker::PhantomData<B>) }
