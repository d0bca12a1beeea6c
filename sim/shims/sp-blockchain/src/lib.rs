//! Stand-in: what the client knows of the chain's head.
use sp_runtime::traits::{Block, Header};
pub struct Info<B: Block> { pub best_hash: B::Hash, pub finalized_hash: B::Hash, pub genesis_hash: B::Hash, pub best_number: <B::Header as Header>::Number, pub finalized_number: <B::Header as Header>::Number }
pub trait HeaderBackend<B: Block> where B::Header: Header { fn info(&self) -> Info<B>; }
