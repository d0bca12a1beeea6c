//! Stand-in: runtime API declarations as the traits a client asks.
pub use simmacros::decl_runtime_apis;
pub use sp_runtime::traits::Block as BlockT;
#[derive(Debug)] pub enum ApiError { StateBackendIsNotTrie, Application(String), UnknownBlock(String) }
pub trait ProvideRuntimeApi<Block: BlockT> { type Api; fn runtime_api(&self) -> Self::Api; }
impl std::fmt::Display for ApiError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("api") } }
