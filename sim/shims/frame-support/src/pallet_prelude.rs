pub use crate::{ensure, fail, dispatch::{DispatchClass, DispatchResult, DispatchResultWithPostInfo, Pays, PostDispatchInfo, DispatchErrorWithPostInfo}, hashers::*,
    storage::{types::{CountedStorageMap, Key as NMapKey, OptionQuery, ResultQuery, StorageDoubleMap, StorageMap, StorageNMap, StorageValue, ValueQuery}, StorageList},
    traits::{BuildGenesisConfig, ConstBool, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, EnsureOrigin, Get, GetDefault, GetStorageVersion, Hooks, IsType, PalletInfoAccess, StorageInfoTrait, StorageVersion, TypedGet, OriginTrait, Task},
    weights::Weight, RuntimeDebug, RuntimeDebugNoBound, CloneNoBound, PartialEqNoBound, EqNoBound, DebugNoBound, DefaultNoBound};
pub use crate::traits::Parameter;
pub use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
pub use scale_info::TypeInfo;
pub use core::marker::PhantomData;
pub use sp_runtime::{traits::{MaybeSerializeDeserialize, Member, MaybeSerialize, ConstU32 as _CU}, transaction_validity::{InvalidTransaction, TransactionLongevity, TransactionPriority, TransactionSource, TransactionTag, TransactionValidity, TransactionValidityError, UnknownTransaction, ValidTransaction}, DispatchError};
pub use crate::sp_runtime::bounded::BoundedVec;
pub use sp_std; pub use frame_support;
pub use crate::storage;
pub use sp_runtime::traits::ValidateUnsigned;
