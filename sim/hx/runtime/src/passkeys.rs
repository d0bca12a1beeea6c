//! Transactions of pallet-passkey: unsigned, checked by the pallet itself.
use crate::*;
use pallet_passkey::types::*;
pub fn pk(b: u8) -> [u8; 33] { let mut p = [b; 33]; p[0] = 2; p }
pub fn proxy(who: u8, nonce: u32, proof: MultiSignature, c: RuntimeCall) -> RuntimeCall { RuntimeCall::Passkey(call(who, nonce, proof, c)) }
pub fn call(who: u8, nonce: u32, proof: MultiSignature, c: RuntimeCall) -> pallet_passkey::Call<Test> { with(pk(1), who, nonce, proof, c) }
/// bytes of authenticator and client data
pub static mut DATA: (usize, usize) = (0, 0);
pub fn with(key: [u8; 33], who: u8, nonce: u32, proof: MultiSignature, c: RuntimeCall) -> pallet_passkey::Call<Test> {
    let e = || VerifiablePasskeySignature { signature: Default::default(), authenticator_data: vec![1; unsafe { DATA.0 }].try_into().unwrap(), client_data_json: vec![2; unsafe { DATA.1 }].try_into().unwrap() };
    pallet_passkey::Call::proxy { payload: PasskeyPayload { passkey_public_key: key, verifiable_passkey_signature: e(), passkey_call: PasskeyCall { account_id: acct(who), account_nonce: nonce, account_ownership_proof: proof, call: Box::new(c) } } }
}
/// the signature of the account over the wrapped passkey key
pub fn owned(who: u8, key: [u8; 33]) -> MultiSignature { let mut m = b"<Bytes>".to_vec(); m.extend(key); m.extend(b"</Bytes>"); sp_runtime::sim_sign(&acct(who), &m) }
pub fn accept(c: &pallet_passkey::Call<Test>) -> Result<(), TransactionValidityError> { <pallet_passkey::Pallet<Test> as sp_runtime::traits::ValidateUnsigned>::pre_dispatch(c) }
pub fn validate(c: &pallet_passkey::Call<Test>) -> TransactionValidity { <pallet_passkey::Pallet<Test> as sp_runtime::traits::ValidateUnsigned>::validate_unsigned(TransactionSource::External, c) }
