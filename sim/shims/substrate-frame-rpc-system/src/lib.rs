pub use frame_system_rpc_runtime_api::AccountNonceApi;
