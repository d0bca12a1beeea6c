//! Stand-in: the transaction pool as its readers see it.
use std::sync::Arc;
pub type TransactionTag = Vec<u8>;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)] pub struct PoolStatus { pub ready: usize, pub ready_bytes: usize, pub future: usize, pub future_bytes: usize }
pub trait InPoolTransaction { type Transaction; type Hash; fn data(&self) -> &Self::Transaction; fn hash(&self) -> &Self::Hash; fn priority(&self) -> &u64; fn longevity(&self) -> &u64; fn requires(&self) -> &[TransactionTag]; fn provides(&self) -> &[TransactionTag]; fn is_propagable(&self) -> bool; }
pub trait ReadyTransactions: Iterator { fn report_invalid(&mut self, tx: &Self::Item); }
impl<T> ReadyTransactions for std::vec::IntoIter<T> { fn report_invalid(&mut self, _: &T) {} }
pub trait TransactionPool: Send + Sync {
    type InPoolTransaction: InPoolTransaction;
    fn ready(&self) -> Box<dyn ReadyTransactions<Item = Arc<Self::InPoolTransaction>> + Send>;
    fn futures(&self) -> Vec<Self::InPoolTransaction>;
    fn status(&self) -> PoolStatus;
}
