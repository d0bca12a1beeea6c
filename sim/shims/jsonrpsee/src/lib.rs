//! Stand-in: the JSON-RPC server's traits and error types; no transport.
pub mod core {
    pub use simmacros::async_trait;
    #[derive(Debug)] pub enum Error { Call(super::types::error::CallError), Custom(String) }
    impl From<super::types::error::CallError> for Error { fn from(e: super::types::error::CallError) -> Self { Error::Call(e) } }
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { Error::Custom(s) => f.write_str(s), Error::Call(_) => f.write_str("call error") } } }
    impl std::error::Error for Error {}
    pub type RpcResult<T> = Result<T, Error>;
    pub use super::types::error::CallError;
}
pub mod proc_macros { pub use simmacros::rpc; }
pub mod types {
    pub use error::{ErrorObject, ErrorObjectOwned};
    pub mod error {
        #[derive(Debug)] pub enum CallError { InvalidParams(String), Custom(ErrorObject), Failed(String) }
        #[derive(Debug, Clone)] pub struct ErrorObject { code: i32, message: String, data: bool }
        pub type ErrorObjectOwned = ErrorObject;
        impl ErrorObject {
            pub fn owned<S>(code: i32, message: impl Into<String>, data: Option<S>) -> Self { ErrorObject { code, message: message.into(), data: data.is_some() } }
            pub fn code(&self) -> i32 { self.code }
            pub fn message(&self) -> &str { &self.message }
        }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum ErrorCode { ParseError, OversizedRequest, InvalidRequest, MethodNotFound, ServerIsBusy, InvalidParams, InternalError, ServerError(i32) }
        impl ErrorCode { pub fn code(&self) -> i32 { match self { ErrorCode::ParseError => -32700, ErrorCode::OversizedRequest => -32007, ErrorCode::InvalidRequest => -32600, ErrorCode::MethodNotFound => -32601, ErrorCode::ServerIsBusy => -32009, ErrorCode::InvalidParams => -32602, ErrorCode::InternalError => -32603, ErrorCode::ServerError(c) => *c } } }
    }
}
pub mod tracing { pub use crate::{warn, warn as info, warn as debug, warn as error, warn as trace}; }
#[macro_export] macro_rules! warn { ($($t:tt)*) => { { } } }
