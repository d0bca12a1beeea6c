use alloc::{vec, vec::Vec};
use parity_scale_codec::{self, Decode, Encode};
pub type TransactionPriority = u64;
pub type TransactionLongevity = u64;
pub type TransactionTag = Vec<u8>;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode)]
pub enum InvalidTransaction { Call, Payment, Future, Stale, BadProof, AncientBirthBlock, ExhaustsResources, Custom(u8), BadMandatory, MandatoryValidation, BadSigner }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode)]
pub enum UnknownTransaction { CannotLookup, NoUnsignedValidator, Custom(u8) }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode)]
pub enum TransactionValidityError { Invalid(InvalidTransaction), Unknown(UnknownTransaction) }
impl From<InvalidTransaction> for TransactionValidityError { fn from(e: InvalidTransaction) -> Self { TransactionValidityError::Invalid(e) } }
impl From<UnknownTransaction> for TransactionValidityError { fn from(e: UnknownTransaction) -> Self { TransactionValidityError::Unknown(e) } }
impl From<InvalidTransaction> for TransactionValidity { fn from(e: InvalidTransaction) -> Self { Err(e.into()) } }
impl From<UnknownTransaction> for TransactionValidity { fn from(e: UnknownTransaction) -> Self { Err(e.into()) } }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode)]
pub enum TransactionSource { InBlock, Local, External }
pub type TransactionValidity = Result<ValidTransaction, TransactionValidityError>;
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode)]
pub struct ValidTransaction { pub priority: u64, pub requires: Vec<Vec<u8>>, pub provides: Vec<Vec<u8>>, pub longevity: u64, pub propagate: bool }
impl Default for ValidTransaction { fn default() -> Self { ValidTransaction { priority: 0, requires: vec![], provides: vec![], longevity: u64::MAX, propagate: true } } }
impl ValidTransaction {
    pub fn with_tag_prefix(prefix: &'static str) -> ValidTransactionBuilder { ValidTransactionBuilder { prefix: Some(prefix), v: Default::default() } }
    pub fn combine_with(mut self, mut o: ValidTransaction) -> Self { Self { priority: self.priority.saturating_add(o.priority), requires: { self.requires.append(&mut o.requires); self.requires }, provides: { self.provides.append(&mut o.provides); self.provides }, longevity: self.longevity.min(o.longevity), propagate: self.propagate && o.propagate } }
}
#[derive(Clone, Debug, Default)]
pub struct ValidTransactionBuilder { prefix: Option<&'static str>, v: ValidTransaction }
impl ValidTransactionBuilder {
    pub fn priority(mut self, p: u64) -> Self { self.v.priority = p; self }
    pub fn longevity(mut self, l: u64) -> Self { self.v.longevity = l; self }
    pub fn propagate(mut self, p: bool) -> Self { self.v.propagate = p; self }
    pub fn and_requires(mut self, t: impl Encode) -> Self { let x = match self.prefix { Some(p) => (p, t).encode(), None => t.encode() }; self.v.requires.push(x); self }
    pub fn and_provides(mut self, t: impl Encode) -> Self { let x = match self.prefix { Some(p) => (p, t).encode(), None => t.encode() }; self.v.provides.push(x); self }
    pub fn build(self) -> TransactionValidity { Ok(self.v) }
}
