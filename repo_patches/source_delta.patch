From 838e71de5144c5967007dd5eb73456ebaef487ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 01/16] fix: handles-utils: reject characters outside the Basic
 Multilingual Plane

The check for supported characters (and the build script's copy of it) truncated
the code point to 16 bits, so an unsupported supplementary character such as
U+90400 was accepted whenever its low 16 bits fell in a supported block.
---
 pallets/handles/src/handles-utils/build.rs         | 5 ++++-
 pallets/handles/src/handles-utils/src/validator.rs | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pallets/handles/src/handles-utils/build.rs b/pallets/handles/src/handles-utils/build.rs
index 637081c..1c0c03e 100644
--- a/pallets/handles/src/handles-utils/build.rs
+++ b/pallets/handles/src/handles-utils/build.rs
@@ -9,7 +9,10 @@ mod constants;
 use constants::ALLOWED_UNICODE_CHARACTER_RANGES;
 
 fn allowed_char(c: char) -> bool {
-	ALLOWED_UNICODE_CHARACTER_RANGES.iter().any(|range| range.contains(&(c as u16)))
+	// Everything outside of the Basic Multilingual Plane is unsupported
+	u16::try_from(u32::from(c)).map_or(false, |code_point| {
+		ALLOWED_UNICODE_CHARACTER_RANGES.iter().any(|range| range.contains(&code_point))
+	})
 }
 
 #[allow(clippy::unwrap_used)]
diff --git a/pallets/handles/src/handles-utils/src/validator.rs b/pallets/handles/src/handles-utils/src/validator.rs
index 7e371d6..2228f12 100644
--- a/pallets/handles/src/handles-utils/src/validator.rs
+++ b/pallets/handles/src/handles-utils/src/validator.rs
@@ -62,7 +62,10 @@ pub fn contains_blocked_characters(input_str: &str) -> bool {
 ///
 /// A boolean value indicating whether the string contains characters within the allowed unicode character sets (`true`) or not (`false`).
 pub fn consists_of_supported_unicode_character_sets(input_str: &str) -> bool {
-	input_str
-		.chars()
-		.all(|c| ALLOWED_UNICODE_CHARACTER_RANGES.iter().any(|range| range.contains(&(c as u16))))
+	input_str.chars().all(|c| {
+		// Everything outside of the Basic Multilingual Plane is unsupported
+		u16::try_from(u32::from(c)).map_or(false, |code_point| {
+			ALLOWED_UNICODE_CHARACTER_RANGES.iter().any(|range| range.contains(&code_point))
+		})
+	})
 }
-- 
2.43.0


From 93d534b594a2ea792241f28c808c77115dea5ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 02/16] fix: handles-utils: suffix range may end at the largest
 suffix

i + 1 overflowed u16 for a range ending at u16::MAX.
---
 pallets/handles/src/handles-utils/src/suffix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/handles/src/handles-utils/src/suffix.rs b/pallets/handles/src/handles-utils/src/suffix.rs
index 2a1f674..765fbd1 100644
--- a/pallets/handles/src/handles-utils/src/suffix.rs
+++ b/pallets/handles/src/handles-utils/src/suffix.rs
@@ -37,7 +37,7 @@ pub fn generate_unique_suffixes(
 
 	let mut indices: Vec<u16> = (min..=max).collect();
 	(min..=max).rev().map(move |i| {
-		let j = rng.rand_range((min as u32)..(i + 1) as u32) as u16;
+		let j = rng.rand_range((min as u32)..(i as u32 + 1)) as u16;
 		indices.swap((i - min) as usize, (j - min) as usize);
 		indices[(i - min) as usize]
 	})
-- 
2.43.0


From 40a03058149bb8fbbeb999755a3a25244a341884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:31 +0000
Subject: [PATCH 03/16] fix: store the capacity replenished by
 replenish_by_amount

---
 pallets/capacity/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pallets/capacity/src/lib.rs b/pallets/capacity/src/lib.rs
index 5b6b696..771c3ec 100644
--- a/pallets/capacity/src/lib.rs
+++ b/pallets/capacity/src/lib.rs
@@ -715,6 +715,7 @@ impl<T: Config> Replenishable for Pallet<T> {
 		let mut capacity_details =
 			Self::get_capacity_for(msa_id).ok_or(Error::<T>::TargetCapacityNotFound)?;
 		capacity_details.replenish_by_amount(amount, &Self::get_current_epoch());
+		Self::set_capacity_for(msa_id, capacity_details);
 		Ok(())
 	}
 
-- 
2.43.0


From b0df2d6292218569c06873ffe67314bccd70eb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:31 +0000
Subject: [PATCH 04/16] fix: report an overflow when depositing capacity
 instead of storing a partial update

---
 pallets/capacity/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pallets/capacity/src/lib.rs b/pallets/capacity/src/lib.rs
index 771c3ec..3afb99c 100644
--- a/pallets/capacity/src/lib.rs
+++ b/pallets/capacity/src/lib.rs
@@ -686,7 +686,9 @@ impl<T: Config> Nontransferable for Pallet<T> {
 	fn deposit(msa_id: MessageSourceId, amount: Self::Balance) -> Result<(), DispatchError> {
 		let mut capacity_details =
 			Self::get_capacity_for(msa_id).ok_or(Error::<T>::TargetCapacityNotFound)?;
-		capacity_details.deposit(&amount, &Self::capacity_generated(amount));
+		capacity_details
+			.deposit(&amount, &Self::capacity_generated(amount))
+			.ok_or(ArithmeticError::Overflow)?;
 		Self::set_capacity_for(msa_id, capacity_details);
 		Ok(())
 	}
-- 
2.43.0


From 91a7b83bbc5439c59e3e990a510587996f4c1797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:31 +0000
Subject: [PATCH 05/16] fix: tokens already staked cannot be staked again

---
 pallets/capacity/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pallets/capacity/src/lib.rs b/pallets/capacity/src/lib.rs
index 3afb99c..a138fe6 100644
--- a/pallets/capacity/src/lib.rs
+++ b/pallets/capacity/src/lib.rs
@@ -560,7 +560,10 @@ impl<T: Config> Pallet<T> {
 		proposed_amount: BalanceOf<T>,
 	) -> BalanceOf<T> {
 		let account_balance = T::Currency::balance(&staker);
+		let already_staked =
+			T::Currency::balance_frozen(&FreezeReason::CapacityStaking.into(), &staker);
 		account_balance
+			.saturating_sub(already_staked)
 			.saturating_sub(T::MinimumTokenBalance::get())
 			.min(proposed_amount)
 	}
-- 
2.43.0


From 648ca7c1deb422ae62017effe3358902708441c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:17 +0000
Subject: [PATCH 06/16] fix: refuse a message when the block's message index is
 exhausted

The index saturated at 65535, so every further message of the block silently
replaced the one stored there. The documented TypeConversionOverflow is now
returned instead.
---
 pallets/messages/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/messages/src/lib.rs b/pallets/messages/src/lib.rs
index b8ee6b6..7c75be8 100644
--- a/pallets/messages/src/lib.rs
+++ b/pallets/messages/src/lib.rs
@@ -324,8 +324,9 @@ impl<T: Config> Pallet<T> {
 			msa_id,
 		};
 
+		let next_index = index.checked_add(1).ok_or(Error::<T>::TypeConversionOverflow)?;
 		<MessagesV2<T>>::insert((current_block, schema_id, index), msg);
-		BlockMessageIndex::<T>::set(index.saturating_add(1));
+		BlockMessageIndex::<T>::set(next_index);
 		Ok(first)
 	}
 
-- 
2.43.0


From dd74e3eba504aa057973c654c53c91941c552a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:42 +0000
Subject: [PATCH 07/16] fix: mark a schema as named when governance names it

create_schema_name_via_governance checked has_name but never set it, so the
same schema could be given any number of names despite
SchemaIdAlreadyHasName.
---
 pallets/schemas/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pallets/schemas/src/lib.rs b/pallets/schemas/src/lib.rs
index a6d7b51..02791dd 100644
--- a/pallets/schemas/src/lib.rs
+++ b/pallets/schemas/src/lib.rs
@@ -648,7 +648,13 @@ pub mod pallet {
 					});
 					Ok(())
 				},
-			)
+			)?;
+			SchemaInfos::<T>::mutate(schema_id, |info| {
+				if let Some(info) = info {
+					info.has_name = true;
+				}
+			});
+			Ok(())
 		}
 	}
 
-- 
2.43.0


From 4d7c333e86ac9a57734376e9e0a5db303b541940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:31 +0000
Subject: [PATCH 08/16] fix: validate_handle applies the length checks that a
 claim has to pass

---
 pallets/handles/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pallets/handles/src/lib.rs b/pallets/handles/src/lib.rs
index 9542b23..c5e8e07 100644
--- a/pallets/handles/src/lib.rs
+++ b/pallets/handles/src/lib.rs
@@ -759,16 +759,21 @@ pub mod pallet {
 		/// # Returns
 		/// * true if it is valid or false if invalid
 		pub fn validate_handle(handle: Vec<u8>) -> bool {
+			// The same checks a claim has to pass
+			if Self::verify_max_handle_byte_length(handle.clone()).is_err() {
+				return false
+			}
 			return match Self::validate_base_handle(handle) {
 				Ok(base_handle_str) => {
 					// Convert base handle into a canonical base
 					let (canonical_handle_str, _) =
 						Self::get_canonical_string_vec_from_base_handle(&base_handle_str);
 
-					return Self::validate_canonical_handle_contains_characters_in_supported_ranges(
-						&canonical_handle_str,
-					)
-					.is_ok()
+					return Self::validate_canonical_handle_length(&canonical_handle_str).is_ok() &&
+						Self::validate_canonical_handle_contains_characters_in_supported_ranges(
+							&canonical_handle_str,
+						)
+						.is_ok()
 				},
 				_ => false,
 			}
-- 
2.43.0


From 11cc643e53d2926599c9f8a583f7c822d7514aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:51 +0000
Subject: [PATCH 09/16] fix: a schema grant keeps the block it ended at and
 never outlives its delegation

---
 pallets/msa/src/types.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pallets/msa/src/types.rs b/pallets/msa/src/types.rs
index 70fa7fb..7c96609 100644
--- a/pallets/msa/src/types.rs
+++ b/pallets/msa/src/types.rs
@@ -113,7 +113,14 @@ impl<T: Config> PermittedDelegationSchemas<T>
 			.get_mut(&schema_id)
 			.ok_or(Error::<T>::SchemaNotGranted)?;
 
-		*schema = block_number;
+		if block_number.is_zero() {
+			// granted again
+			*schema = block_number;
+		} else if schema.is_zero() {
+			// A grant that already ended keeps the block it ended at, and no grant outlives
+			// the delegation it belongs to.
+			*schema = if self.revoked_at.is_zero() { block_number } else { self.revoked_at };
+		}
 
 		Ok(())
 	}
-- 
2.43.0


From 52d3e3504bf2408f2717008049f45470dd87e032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:51 +0000
Subject: [PATCH 10/16] fix: a delegation revoked in this block is not valid to
 revoke again

---
 pallets/msa/src/lib.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index 4e91298..c47faec 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -1643,11 +1643,25 @@ impl<T: Config + Send + Sync> CheckFreeExtrinsicUse<T> {
 			.into();
 		let provider_msa_id = ProviderId(*provider_msa_id);
 
-		Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
-			.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		Self::ensure_delegation_not_revoked(provider_msa_id, delegator_msa_id)?;
 		ValidTransaction::with_tag_prefix(TAG_PREFIX).and_provides(account_id).build()
 	}
 
+	/// Checks that a delegation exists and that it can still be revoked: one that was revoked
+	/// in the current block is still in effect, but revoking it again would fail.
+	fn ensure_delegation_not_revoked(
+		provider_id: ProviderId,
+		delegator_id: DelegatorId,
+	) -> Result<(), TransactionValidityError> {
+		let delegation = Pallet::<T>::ensure_valid_delegation(provider_id, delegator_id, None)
+			.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		ensure!(
+			delegation.revoked_at.is_zero(),
+			InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8)
+		);
+		Ok(())
+	}
+
 	/// Validates the delegation by making sure that the MSA ids used are valid and that the delegation
 	/// is still active. Returns a `ValidTransaction` or wrapped [`ValidityError`]
 	/// # Arguments:
@@ -1670,8 +1684,7 @@ impl<T: Config + Send + Sync> CheckFreeExtrinsicUse<T> {
 		let delegator_msa_id = DelegatorId(*delegator_msa_id);
 
 		// Verify the delegation exists and is active
-		Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
-			.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		Self::ensure_delegation_not_revoked(provider_msa_id, delegator_msa_id)?;
 		ValidTransaction::with_tag_prefix(TAG_PREFIX).and_provides(account_id).build()
 	}
 
-- 
2.43.0


From 08318eb72be1f336567205f58a37eea6a7c9fdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:51 +0000
Subject: [PATCH 11/16] fix: a finalized head answer too short to hold a hash
 is an error, not a panic

---
 pallets/msa/src/offchain_storage.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pallets/msa/src/offchain_storage.rs b/pallets/msa/src/offchain_storage.rs
index 612c0a5..699daf4 100644
--- a/pallets/msa/src/offchain_storage.rs
+++ b/pallets/msa/src/offchain_storage.rs
@@ -429,8 +429,12 @@ fn fetch_finalized_block_hash<T: Config>() -> Result<T::Hash, sp_runtime::offcha
 		serde_json::from_str(body_str).map_err(|_| sp_runtime::offchain::http::Error::Unknown)?;
 
 	// skipping 0x on front
-	let decoded_from_hex = hex::decode(&finalized_block_response.result[2..])
-		.map_err(|_| sp_runtime::offchain::http::Error::Unknown)?;
+	let hash_in_hex = finalized_block_response
+		.result
+		.get(2..)
+		.ok_or(sp_runtime::offchain::http::Error::Unknown)?;
+	let decoded_from_hex =
+		hex::decode(hash_in_hex).map_err(|_| sp_runtime::offchain::http::Error::Unknown)?;
 
 	let val = T::Hash::decode(&mut &decoded_from_hex[..])
 		.map_err(|_| sp_runtime::offchain::http::Error::Unknown)?;
-- 
2.43.0


From 380c90216b6379e94e65e333ea25474c122e761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:51 +0000
Subject: [PATCH 12/16] fix: a utility batch is allowed only when every call in
 it is

---
 runtime/frequency/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/frequency/src/lib.rs b/runtime/frequency/src/lib.rs
index 7f77095..f4e837e 100644
--- a/runtime/frequency/src/lib.rs
+++ b/runtime/frequency/src/lib.rs
@@ -168,7 +168,7 @@ impl BaseCallFilter {
 		match call {
 			pallet_utility::Call::batch { calls, .. } |
 			pallet_utility::Call::batch_all { calls, .. } |
-			pallet_utility::Call::force_batch { calls, .. } => calls.iter().any(Self::is_batch_call_allowed),
+			pallet_utility::Call::force_batch { calls, .. } => calls.iter().all(Self::is_batch_call_allowed),
 			_ => true,
 		}
 	}
-- 
2.43.0


From 90594ed7908f6cb2cd89c403ef67fd8884914ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:13 +0000
Subject: [PATCH 13/16] fix: a passkey transaction pays for the length of its
 call, not of the account id

---
 pallets/passkey/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/passkey/src/lib.rs b/pallets/passkey/src/lib.rs
index 911ec3f..00fadce 100644
--- a/pallets/passkey/src/lib.rs
+++ b/pallets/passkey/src/lib.rs
@@ -279,7 +279,7 @@ where
 	/// Validates the transaction fee paid with tokens.
 	pub fn pre_dispatch(&self) -> Result<(), TransactionValidityError> {
 		let info = &self.1.get_dispatch_info();
-		let len = self.0.using_encoded(|c| c.len());
+		let len = self.1.using_encoded(|c| c.len());
 		let runtime_call: <T as frame_system::Config>::RuntimeCall =
 			<T as frame_system::Config>::RuntimeCall::from(self.1.clone());
 		let who = self.0.clone();
@@ -290,7 +290,7 @@ where
 	/// Validates the transaction fee paid with tokens.
 	pub fn validate(&self) -> TransactionValidity {
 		let info = &self.1.get_dispatch_info();
-		let len = self.0.using_encoded(|c| c.len());
+		let len = self.1.using_encoded(|c| c.len());
 		let runtime_call: <T as frame_system::Config>::RuntimeCall =
 			<T as frame_system::Config>::RuntimeCall::from(self.1.clone());
 		let who = self.0.clone();
-- 
2.43.0


From 376374b916a6c21d15c8a5fb76f7aa6f2c63c9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:13 +0000
Subject: [PATCH 14/16] fix: a NonTransfer proxy does not cover a CancelProxy
 one

---
 runtime/frequency/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/frequency/src/lib.rs b/runtime/frequency/src/lib.rs
index f4e837e..3f47812 100644
--- a/runtime/frequency/src/lib.rs
+++ b/runtime/frequency/src/lib.rs
@@ -263,6 +263,8 @@ impl InstanceFilter<RuntimeCall> for ProxyType {
 			(x, y) if x == y => true,
 			(ProxyType::Any, _) => true,
 			(_, ProxyType::Any) => false,
+			// `NonTransfer` does not allow calls of the proxy pallet
+			(ProxyType::NonTransfer, ProxyType::CancelProxy) => false,
 			(ProxyType::NonTransfer, _) => true,
 			_ => false,
 		}
-- 
2.43.0


From 50b48cdb1673479a6d41292f96a3d13927f155bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:51 +0000
Subject: [PATCH 15/16] fix: list a nonce as missing only while no transaction
 for it waits

---
 node/service/src/rpc/frequency_rpc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/node/service/src/rpc/frequency_rpc.rs b/node/service/src/rpc/frequency_rpc.rs
index 1734f27..3653bcc 100644
--- a/node/service/src/rpc/frequency_rpc.rs
+++ b/node/service/src/rpc/frequency_rpc.rs
@@ -132,8 +132,10 @@ where
 			}
 		}
 
-		// progress the current_nonce
-		current_nonce += One::one();
+		// progress the current_nonce, unless another waiting transaction has already used this nonce
+		if current_nonce == future_nonce {
+			current_nonce += One::one();
+		}
 	}
 
 	result
-- 
2.43.0


From eb620bd81e787c68d5fa580419dc76f6c9d5de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:04 +0000
Subject: [PATCH 16/16] fix: refuse the specification file of an unknown chain
 instead of panicking

---
 node/cli/src/command.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node/cli/src/command.rs b/node/cli/src/command.rs
index fbec3ba..d641ac0 100644
--- a/node/cli/src/command.rs
+++ b/node/cli/src/command.rs
@@ -22,6 +22,7 @@ enum ChainIdentity {
 	FrequencyPaseo,
 	FrequencyLocal,
 	FrequencyDev,
+	Unknown,
 }
 
 trait IdentifyChain {
@@ -41,7 +42,7 @@ impl IdentifyChain for dyn sc_service::ChainSpec {
 		} else if self.id() == "dev" {
 			ChainIdentity::FrequencyDev
 		} else {
-			panic!("Unknown chain identity")
+			ChainIdentity::Unknown
 		}
 	}
 }
-- 
2.43.0

