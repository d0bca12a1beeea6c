pub mod types; pub mod child;
pub use types::Key; pub use child::ChildTriePrefixIterator;
pub trait SimValue { type Query; }
pub trait SimMap { type Key; type Query; }
pub trait SimDoubleMap { type Key1; type Key2; type Query; }
pub trait SimNMap { type Key; type Query; }
pub trait SimKey<A>: types::NKeys { fn conv(a: A) -> Self::K; }
pub struct StorageList;
/// the calls under verification run each in its own transaction
pub fn with_transaction<T, E>(f: impl FnOnce() -> sp_runtime_tx::TransactionOutcome<Result<T, E>>) -> Result<T, E> { match f() { sp_runtime_tx::TransactionOutcome::Commit(r) | sp_runtime_tx::TransactionOutcome::Rollback(r) => r } }
pub mod sp_runtime_tx { pub enum TransactionOutcome<T> { Commit(T), Rollback(T) } }
#[derive(Default)] pub struct MultiRemovalResults { pub maybe_cursor: Option<sp_std::vec::Vec<u8>>, pub backend: u32, pub unique: u32, pub loops: u32 }
