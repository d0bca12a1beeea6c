// The runtime put together: names, wiring and configuration.
pub use rt::{acct, accs, free, signed, Acc, AccountId32, Bal, Balance, Origin as RuntimeOrigin};
pub use frame_support::traits::{Contains, Get, InstanceFilter, UnfilteredDispatchable};
pub use frame_support::dispatch::{DispatchInfo, GetDispatchInfo, Pays, PostDispatchInfo, DispatchResult, DispatchResultWithPostInfo};
pub use sp_runtime::{traits::{Dispatchable, SignedExtension}, DispatchError, transaction_validity::*, MultiSignature};
pub use frame_support::weights::{Weight, WeightToFee as _};
pub use parity_scale_codec::Encode;
rt::runtime! {
    Utility: pallet_utility, Balances: pallet_balances, Proxy: pallet_proxy, CollatorSelection: pallet_collator_selection, Council: pallet_council, TechnicalCommittee: pallet_technical_committee, Democracy: pallet_democracy, Treasury: pallet_treasury,
    Multisig: pallet_multisig, Preimage: pallet_preimage, Scheduler: pallet_scheduler, Session: pallet_session, ParachainSystem: cumulus_pallet_parachain_system, Sudo: pallet_sudo, Timestamp: pallet_timestamp,
    Msa: pallet_msa, Messages: pallet_messages, Schemas: pallet_schemas, StatefulStorage: pallet_stateful_storage, Capacity: pallet_capacity, FrequencyTxPayment: pallet_frequency_tx_payment, Handles: pallet_handles, TimeRelease: pallet_time_release, Passkey: pallet_passkey
}
/// the names construct_runtime! gives
pub mod names {
    pub use frame_support::{dispatch::GetDispatchInfo as _, traits::{Contains as _, Get as _, InstanceFilter as _, UnfilteredDispatchable as _}, weights::WeightToFee as _}; pub use parity_scale_codec::{Decode as _, Encode as _, MaxEncodedLen as _}; pub use sp_runtime::traits::{Convert as _, Dispatchable as _, SignedExtension as _};
    pub use crate::{stubs::*, RuntimeCall, RuntimeEvent, RuntimeOrigin, Test as Runtime};
    pub type System = frame_system::Pallet<Runtime>; pub type Balances = rt::Bal<crate::Fr>; pub type Msa = pallet_msa::Pallet<Runtime>; pub type Messages = pallet_messages::Pallet<Runtime>; pub type Schemas = pallet_schemas::Pallet<Runtime>; pub type StatefulStorage = pallet_stateful_storage::Pallet<Runtime>;
    pub type Capacity = pallet_capacity::Pallet<Runtime>; pub type Handles = pallet_handles::Pallet<Runtime>; pub type TimeRelease = pallet_time_release::Pallet<Runtime>; pub type Utility = crate::stubs::UtilityPallet; pub type Council = crate::stubs::CouncilPallet; pub type FrequencyTxPayment = pallet_frequency_tx_payment::Pallet<Runtime>; pub type Passkey = pallet_passkey::Pallet<Runtime>;
    pub use crate::stubs::{Block, Header, UncheckedExtrinsic}; pub use sp_runtime::traits::Block as BlockT;
}
pub mod testnet { pub use crate::names as base; include!(concat!(env!("OUT_DIR"), "/testnet.rs")); }
pub mod mainnet { pub use crate::names as base; include!(concat!(env!("OUT_DIR"), "/mainnet.rs")); }
pub use testnet::cfg; pub use testnet::__rt::{CapacityEligibleCalls, PasskeyCallFilter, ProxyType, SignedExtra};
pub use names::{Msa, Messages, Schemas, StatefulStorage, Capacity, Handles, TimeRelease};
pub struct Fr(u8); impl rt::FreezeId for Fr { fn n(&self) -> u8 { self.0 } }
impl From<pallet_capacity::FreezeReason> for Fr { fn from(_: pallet_capacity::FreezeReason) -> Fr { Fr(1) } }
impl From<pallet_time_release::module::FreezeReason> for Fr { fn from(_: pallet_time_release::module::FreezeReason) -> Fr { Fr(2) } }
type B = rt::Bal<Fr>;
impl pallet_transaction_payment::Config for Test { type OnChargeTransaction = pallet_transaction_payment::CurrencyAdapter<B, ()>; type WeightToFee = cfg::pallet_transaction_payment::WeightToFee; type LengthToFee = cfg::pallet_transaction_payment::LengthToFee; }
macro_rules! cfgs { ($p:ident: $($n:ident)*) => { $(type $n = cfg::$p::$n;)* } }
impl pallet_msa::Config for Test { type RuntimeEvent = RuntimeEvent; type WeightInfo = pallet_msa::weights::SubstrateWeight<Test>; type ConvertIntoAccountId32 = Same; type Proposal = RuntimeCall; type CreateProviderViaGovernanceOrigin = frame_system::EnsureRoot<AccountId32>;
    type MaxPublicKeysPerMsa = cfg::pallet_msa::MaxPublicKeysPerMsa; type MaxSchemaGrantsPerDelegation = cfg::pallet_msa::MaxSchemaGrantsPerDelegation; type MaxProviderNameSize = cfg::pallet_msa::MaxProviderNameSize; type SchemaValidator = cfg::pallet_msa::SchemaValidator; type HandleProvider = cfg::pallet_msa::HandleProvider; type MortalityWindowSize = cfg::pallet_msa::MortalityWindowSize; type MaxSignaturesStored = cfg::pallet_msa::MaxSignaturesStored; type ProposalProvider = cfg::pallet_msa::ProposalProvider; }
impl pallet_capacity::Config for Test { type RuntimeEvent = RuntimeEvent; type RuntimeFreezeReason = Fr; type WeightInfo = (); type Currency = B;
    type MinimumStakingAmount = cfg::pallet_capacity::MinimumStakingAmount; type MinimumTokenBalance = cfg::pallet_capacity::MinimumTokenBalance; type TargetValidator = cfg::pallet_capacity::TargetValidator; type MaxUnlockingChunks = cfg::pallet_capacity::MaxUnlockingChunks; type UnstakingThawPeriod = cfg::pallet_capacity::UnstakingThawPeriod; type MaxEpochLength = cfg::pallet_capacity::MaxEpochLength; type EpochNumber = cfg::pallet_capacity::EpochNumber; type CapacityPerToken = cfg::pallet_capacity::CapacityPerToken; }
impl pallet_schemas::Config for Test { type RuntimeEvent = RuntimeEvent; type WeightInfo = (); type Proposal = RuntimeCall; type CreateSchemaViaGovernanceOrigin = frame_system::EnsureRoot<AccountId32>;
    type MinSchemaModelSizeBytes = cfg::pallet_schemas::MinSchemaModelSizeBytes; type MaxSchemaRegistrations = cfg::pallet_schemas::MaxSchemaRegistrations; type SchemaModelMaxBytesBoundedVecLimit = cfg::pallet_schemas::SchemaModelMaxBytesBoundedVecLimit; type ProposalProvider = cfg::pallet_schemas::ProposalProvider; type MaxSchemaSettingsPerSchema = cfg::pallet_schemas::MaxSchemaSettingsPerSchema; }
impl pallet_messages::Config for Test { type RuntimeEvent = RuntimeEvent; type WeightInfo = (); type MsaInfoProvider = cfg::pallet_messages::MsaInfoProvider; type SchemaGrantValidator = cfg::pallet_messages::SchemaGrantValidator; type SchemaProvider = cfg::pallet_messages::SchemaProvider; type MessagesMaxPayloadSizeBytes = cfg::pallet_messages::MessagesMaxPayloadSizeBytes; }
impl pallet_stateful_storage::Config for Test { type RuntimeEvent = RuntimeEvent; type WeightInfo = (); type KeyHasher = frame_support::Twox128; type ConvertIntoAccountId32 = Same;
    type MaxItemizedPageSizeBytes = cfg::pallet_stateful_storage::MaxItemizedPageSizeBytes; type MaxPaginatedPageSizeBytes = cfg::pallet_stateful_storage::MaxPaginatedPageSizeBytes; type MaxItemizedBlobSizeBytes = cfg::pallet_stateful_storage::MaxItemizedBlobSizeBytes; type MaxPaginatedPageId = cfg::pallet_stateful_storage::MaxPaginatedPageId; type MaxItemizedActionsCount = cfg::pallet_stateful_storage::MaxItemizedActionsCount;
    type MsaInfoProvider = cfg::pallet_stateful_storage::MsaInfoProvider; type SchemaGrantValidator = cfg::pallet_stateful_storage::SchemaGrantValidator; type SchemaProvider = cfg::pallet_stateful_storage::SchemaProvider; type MortalityWindowSize = cfg::pallet_stateful_storage::MortalityWindowSize; }
impl pallet_handles::Config for Test { type RuntimeEvent = RuntimeEvent; type WeightInfo = (); type ConvertIntoAccountId32 = Same; type MsaInfoProvider = cfg::pallet_handles::MsaInfoProvider; type HandleSuffixMin = cfg::pallet_handles::HandleSuffixMin; type HandleSuffixMax = cfg::pallet_handles::HandleSuffixMax; type MortalityWindowSize = cfg::pallet_handles::MortalityWindowSize; }
impl pallet_time_release::Config for Test { type RuntimeEvent = RuntimeEvent; type RuntimeFreezeReason = Fr; type Balance = Balance; type Currency = B; type MinReleaseTransfer = cfg::pallet_time_release::MinReleaseTransfer; type TransferOrigin = frame_system::EnsureSigned<AccountId32>; type WeightInfo = (); type MaxReleaseSchedules = cfg::pallet_time_release::MaxReleaseSchedules; type BlockNumberProvider = names::System; }
impl pallet_frequency_tx_payment::Config for Test { type RuntimeEvent = RuntimeEvent; type RuntimeCall = RuntimeCall; type WeightInfo = (); type Capacity = cfg::pallet_frequency_tx_payment::Capacity; type CapacityCalls = cfg::pallet_frequency_tx_payment::CapacityCalls; type OnChargeCapacityTransaction = cfg::pallet_frequency_tx_payment::OnChargeCapacityTransaction; type BatchProvider = cfg::pallet_frequency_tx_payment::BatchProvider; type MaximumCapacityBatchLength = cfg::pallet_frequency_tx_payment::MaximumCapacityBatchLength; }
impl pallet_passkey::Config for Test { type RuntimeEvent = RuntimeEvent; type RuntimeCall = RuntimeCall; type WeightInfo = (); type ConvertIntoAccountId32 = Same; type PasskeyCallFilter = cfg::pallet_passkey::PasskeyCallFilter; }
pub struct Same; impl sp_runtime::traits::Convert<AccountId32, AccountId32> for Same { fn convert(a: AccountId32) -> AccountId32 { a } }

