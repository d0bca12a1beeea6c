# property data: id, title, statement, over, text, why, files, mechanism[(name, where)]
T = "the unit tests sample a handful of inputs"
P = []
def p(id, title, stmt, over, text, why, files, mech): P.append(dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
HU="pallets/handles/src/handles-utils/src/"
p("H01","Handle canonical form is well defined and stable",
  "The canonical form of a handle ignores case, white space, diacritics and look-alike letters: two handles that differ only in those have the same canonical form, and every other visible difference is kept. The canonical form of a canonical form is itself.",
  ["inputs"],"every handle built from the supported Unicode blocks (bounded in length)","The tests check a few hundred listed strings; the rule is about every code point of the supported blocks and their combinations.",
  [HU+"converter.rs",HU+"confusables.rs"],[("convert_to_canonical",HU+"converter.rs"),("replace_confusables",HU+"converter.rs"),("strip_unicode_whitespace",HU+"converter.rs")])
p("H02","Only characters of the supported blocks are accepted in handles",
  "A handle is accepted as supported exactly when each of its characters belongs to one of the supported Unicode blocks, wherever in the handle it stands. A handle is refused as containing blocked characters exactly when it holds a quotation, separator, address, control or code-injection character of the published block list.",
  ["inputs"],"every Unicode scalar value at every position","1.1 million code points and all their positions; tests check a few per block and none outside the basic plane.",
  [HU+"validator.rs","pallets/handles/src/handles-utils/build.rs","pallets/handles/src/handles-utils/constants.rs"],[("consists_of_supported_unicode_character_sets",HU+"validator.rs"),("contains_blocked_characters",HU+"validator.rs"),("ALLOWED_UNICODE_CHARACTER_RANGES","pallets/handles/src/handles-utils/constants.rs")])
p("H03","Reserved words cannot be taken as handles",
  "A base handle is recognised as reserved exactly when it equals one of the reserved words, and no other string is.",
  ["inputs"],"every string of bounded length","Tests check the listed words and a few others; a lookup error can affect any string.",
  [HU+"validator.rs","pallets/handles/src/handles-utils/constants.rs"],[("is_reserved_handle",HU+"validator.rs"),("RESERVED_WORDS","pallets/handles/src/handles-utils/constants.rs")])
p("H04","Handle suffixes enumerate the whole range without repetition",
  "For every base handle the sequence of suffixes is deterministic, stays inside the permitted range, and visits every number of the range exactly once. The order depends only on the canonical form of the base handle and the bounds of the range.",
  ["inputs"],"every range of bounded size, every draw of the random source, every seed","Tests compare one or two seeds and ranges; the claim is about every range and every sequence of draws.",
  [HU+"suffix.rs"],[("generate_unique_suffixes",HU+"suffix.rs"),("generate_seed",HU+"suffix.rs")])
p("H05","Display handles split back into base and suffix",
  "A display handle formed from a base handle and a numeric suffix splits into exactly that base and suffix. Any text without a delimiter or whose last part is not a suffix number is refused rather than misread.",
  ["inputs"],"every ASCII display handle of bounded length; every suffix","Tests try a few well-formed handles.",
  [HU+"suffix.rs"],[("split_display_name",HU+"converter.rs")])
p("C01","Avro records come back as they were written",
  "Data written for a record schema reads back as exactly the same fields and values. Data that lacks a declared field, or whose value is of a type the schema does not accept, is refused when written; bytes that are not a record of the schema are refused or read as the declared fields, never crash.",
  ["inputs"],"every field value of every primitive and several composite types; every short byte string","Tests serialise a few fixed records; corruption of a value, byte order or field order appears for specific values.",
  ["common/helpers/src/avro.rs"],[("populate_schema_and_serialize","common/helpers/src/avro.rs"),("get_schema_data_map","common/helpers/src/avro.rs")])
p("C02","Schema validation, parsing and canonical form agree",
  "A schema text passes validation exactly when it can be translated into a schema; its canonical form is then a valid schema that means the same and is its own canonical form. Text that is not valid UTF-8 or not a schema is refused without crashing.",
  ["inputs"],"every short byte string, every one-byte change of small schemas","Tests use five fixed schema strings.",
  ["common/helpers/src/avro.rs"],[("validate_raw_avro_schema","common/helpers/src/avro.rs"),("fingerprint_raw_schema","common/helpers/src/avro.rs"),("translate_schema","common/helpers/src/avro.rs")])
p("O01","Block sealing mode names round-trip",
  "The printed form of a sealing mode selects the same mode again when parsed without regard to case, every mode is offered on the command line, and no text other than a mode's name selects a mode.",
  ["inputs"],"every mode, every mix of case, every short string","Tests check the printed strings of the three modes only.",
  ["node/cli-opt/src/lib.rs"],[("SealingMode","node/cli-opt/src/lib.rs")])
CA="pallets/capacity/src/"
TS="The tests walk a few chosen amounts and orders; the claim is about every amount, every mix of existing stakes and every order of calls."
p("P01","Staking ledgers always agree",
  "After any stake or unstake, a staker's active stake is the sum of what it has staked to each target, a target's staked total is the sum over its stakers, the call moves exactly the amount staked or unstaked and changes nobody else's entries, and no ledger keeps an empty entry. Staking succeeds exactly for a valid target and a positive stakable amount reaching the minimum stake; unstaking never leaves a stake at or below the minimum.",
  ["inputs","histories"],"every state in which the ledgers agree (bounded number of stakers and targets), every amount",TS,
  [CA+"lib.rs",CA+"types.rs"],[("increase_stake_and_issue_capacity",CA+"lib.rs"),("decrease_active_staking_balance",CA+"lib.rs"),("StakingDetails::withdraw",CA+"types.rs"),("reduce_capacity",CA+"lib.rs")])
p("P02","Staked tokens stay frozen until they have thawed",
  "An account's capacity freeze always equals its active stake plus everything it is still unlocking. Unstaking frees nothing; it adds one chunk that thaws after the thaw period. Withdrawing succeeds exactly when something has thawed and releases exactly the thawed chunks. No call moves tokens, stakes tokens twice, or freezes the minimum balance.",
  ["inputs","histories"],"every consistent stake, list of unlocking chunks and epoch; every amount",TS,
  [CA+"lib.rs",CA+"types.rs"],[("do_withdraw_unstaked",CA+"lib.rs"),("add_unlock_chunk",CA+"lib.rs"),("get_stakable_amount_for",CA+"lib.rs"),("unlock_chunks_reap_thawed",CA+"types.rs")])
p("P03","Capacity is issued with a stake and withdrawn with it",
  "Staking issues to the target the capacity generated by the amount, which the target may spend at once, and credits it to the staker's entry. Unstaking withdraws capacity from the issued total, the remaining balance (never below zero) and the staker's entry; taking out a whole stake withdraws all the capacity it generated. Neither counts as a replenishment, and no more capacity remains than is issued.",
  ["inputs","histories"],"every consistent state, every amount, every rounding of the capacity share",TS,
  [CA+"lib.rs",CA+"types.rs"],[("CapacityDetails::deposit",CA+"types.rs"),("CapacityDetails::withdraw",CA+"types.rs"),("reduce_capacity",CA+"lib.rs")])
p("P04","Capacity is spent up to what remains and refilled once an epoch",
  "A provider's capacity can be spent exactly up to what remains; a failed operation changes nothing. A full replenishment restores the issued amount and stamps the current epoch, a partial one adds the amount; capacity can be replenished only when it was last replenished in an earlier epoch. Operations on one target never affect another.",
  ["inputs","histories"],"every ledger entry, every amount, sequences of operations",TS,
  [CA+"lib.rs",CA+"types.rs"],[("Nontransferable::deduct",CA+"lib.rs"),("Replenishable::replenish_all_for",CA+"lib.rs"),("Replenishable::replenish_by_amount",CA+"lib.rs"),("Replenishable::can_replenish",CA+"lib.rs")])
p("P05","Capacity epochs tile the chain",
  "A new epoch starts exactly at the first block at least one epoch length after the start of the current one, its number is one higher, and it starts at that block. Only root sets the epoch length, at most the configured maximum, and setting it moves no epoch.",
  ["inputs","histories"],"every block number, epoch start, epoch number and length; runs of blocks",TS,
  [CA+"lib.rs"],[("start_new_epoch_if_needed",CA+"lib.rs"),("set_epoch_length",CA+"lib.rs")])
p("P06","Capacity amounts follow the configured proportion",
  "The capacity a stake generates is the configured share of the stake, rounded to nearest. Unstaking part of what is staked to a target withdraws its proportional share of the target's issued capacity, rounded up.",
  ["inputs"],"every amount within the bounds",TS,
  [CA+"lib.rs"],[("capacity_generated",CA+"lib.rs"),("calculate_capacity_reduction",CA+"lib.rs")])
TR="pallets/time-release/src/"
TT="The tests follow a handful of schedules at hand-picked blocks; the claim is about every schedule, block and mix of schedules."
p("T01","Scheduled tokens are released period by period, exactly on time",
  "At any block the part of a schedule that is frozen is exactly the periods that have not ended: everything until the first period is over, nothing once the last one is. Claiming, by anyone for any account, sets the account's freeze to the sum over its schedules, drops the schedules fully released, keeps the others unchanged and moves no tokens.",
  ["inputs","histories"],"every schedule and block within the bounds, every list of schedules",TT,
  [TR+"lib.rs",TR+"types.rs"],[("ReleaseSchedule::frozen_amount",TR+"types.rs"),("do_claim",TR+"lib.rs"),("prune_and_get_frozen_balance",TR+"lib.rs")])
p("T02","A scheduled transfer moves exactly its total and freezes all of it",
  "A scheduled transfer is accepted exactly when its signer is permitted, the schedule has a non-zero period and count, an end within the chain's block numbers and a total that reaches the minimum, the sender can pay the whole total, and the recipient has room for another schedule. It then moves exactly the total to the recipient, adds the schedule to the recipient's list and freezes the recipient's unreleased tokens; no tokens appear or vanish. Schedules set at genesis are frozen just so.",
  ["inputs","histories"],"every schedule, balance and list of existing schedules within the bounds",TT,
  [TR+"lib.rs"],[("do_transfer",TR+"lib.rs"),("ensure_valid_release_schedule",TR+"lib.rs"),("ensure_sufficient_free_balance",TR+"lib.rs"),("build",TR+"lib.rs")])
p("T03","Only root replaces schedules, and the freeze follows them",
  "Release schedules of an account are replaced only by root, only by at most the maximum number of valid schedules whose totals the account's balance covers; list and freeze then match the new schedules exactly. Replacing by an empty list removes list and freeze.",
  ["inputs","histories"],"every old and new list of schedules within the bounds",TT,
  [TR+"lib.rs"],[("do_update_release_schedules",TR+"lib.rs"),("set_balance_freeze",TR+"lib.rs")])
ME="pallets/messages/src/"
p("G01","Messages of a block are numbered without gaps and never overwritten",
  "Every accepted message is stored once, under the current block, its schema and the next index of the block; indices start at zero in every block and grow by one across all schemas; no stored message is ever changed or replaced. When the block's indices are used up further messages are refused. The first message of a block is announced by an event, the others are not.",
  ["inputs","histories"],"every block, index, schema and earlier message; sequences of messages over blocks","Tests add a few messages at fixed indices and never near the end of the index.",
  [ME+"lib.rs"],[("add_message",ME+"lib.rs"),("on_initialize",ME+"lib.rs")])
p("G02","Messages are accepted only from those entitled to send them",
  "An on-chain message is accepted exactly when its signer has an MSA, the schema exists and stores on chain, the payload is within the size limit and, when sent on behalf of another MSA, that MSA's grant to the signer's MSA for that schema is valid at the current block. An IPFS message is accepted exactly when its CID is valid, its schema stores on IPFS and its signer has an MSA. A message is attributed to the signer's MSA and the MSA it was sent for.",
  ["inputs"],"every combination of signer, MSA, schema, location, grant and payload size","Tests try a few combinations; a missing check shows only for particular ones.",
  [ME+"lib.rs"],[("add_onchain_message",ME+"lib.rs"),("add_ipfs_message",ME+"lib.rs"),("find_msa_id",ME+"lib.rs")])
p("G03","Messages read back as they were sent",
  "Reading the messages of a block and schema yields exactly its messages, ordered by index; an on-chain message with its payload and source MSA, an IPFS message with its CID in base 32 and its length. A text is taken as a CID exactly when it is a multibase text of a version-1 CID; it is stored as the bytes it stands for and version-0 CIDs are refused.",
  ["inputs"],"every payload, CID and length within the bounds","Tests read a few fixed messages and CIDs.",
  [ME+"lib.rs",ME+"types.rs"],[("get_messages_by_schema_and_block",ME+"lib.rs"),("map_to_response",ME+"types.rs"),("validate_cid",ME+"lib.rs")])
SC="pallets/schemas/src/"
p("K01","Schemas are numbered in order and never change",
  "Each registered schema gets the next schema id and reads back exactly as registered: model, type, location and settings. Registering one changes no other schema, ids are never reused, and when ids run out, or the configured maximum is reached, registration fails.",
  ["inputs","histories"],"every registry state, every creating call, models, types, locations and settings","Tests register a few schemas in a fresh registry.",
  [SC+"lib.rs"],[("create_schema_for",SC+"lib.rs"),("add_schema",SC+"lib.rs"),("get_next_schema_id",SC+"lib.rs")])
p("K02","Schema names identify versions in order, at most one name per schema",
  "A schema name is accepted exactly when it is a namespace and a descriptor of letters and inner hyphens within the length limits; case and surrounding white space do not matter. Each schema has at most one name; a name lists the schemas it was given to, numbered from one in the order they were added; a namespace lists all its names' schemas and no others.",
  ["inputs","histories"],"every name of bounded length, every list of versions","Tests parse some twenty names.",
  [SC+"lib.rs",SC+"types.rs"],[("SchemaName::try_parse",SC+"types.rs"),("create_schema_name_via_governance",SC+"lib.rs"),("get_schema_versions",SC+"lib.rs"),("SchemaVersionId::add",SC+"types.rs")])
p("K03","Schemas are registered only by those permitted and within the limits",
  "A schema is registered exactly when its origin is permitted for the call, its model is well formed for its type and within the size limits, and append-only is asked for itemized storage only. Only root changes the size limit, up to the fixed bound. Proposals carry the caller's content unchanged and register nothing. Schema ids are valid exactly when they have been issued.",
  ["inputs"],"every origin, call, model, setting and location; every limit","Tests try one combination per rule.",
  [SC+"lib.rs",SC+"serde.rs"],[("create_schema_for",SC+"lib.rs"),("ensure_valid_model",SC+"lib.rs"),("set_max_schema_model_bytes",SC+"lib.rs"),("are_all_schema_ids_valid",SC+"lib.rs")])
PR="common/primitives/src/"
p("N01","Data to sign is wrapped the way wallets wrap it",
  "Wrapped data is the data enclosed in the wallet's opening and closing tags, unchanged.",
  ["inputs"],"every byte string of bounded length","Tests wrap one string.",[PR+"utils.rs"],[("wrap_binary_data",PR+"utils.rs")])
p("N02","Ids, settings and signed payloads have one encoding",
  "Delegator and provider ids are encoded as their 64-bit number and read back as it; too few bytes are refused. Schema settings are encoded as one bit per setting, unknown bits are refused, and setting one leaves the others alone. Payload types read back as written.",
  ["inputs"],"every id, every 16-bit settings word, every field value","Tests encode one or two values.",[PR+"msa.rs",PR+"schema.rs",PR+"macros.rs"],[("DelegatorId::decode",PR+"msa.rs"),("impl_codec_bitflags",PR+"macros.rs"),("SchemaSettings::set",PR+"schema.rs")])
p("N03","A chain is recognised by its whole genesis hash",
  "The main network and the Paseo test network are recognised exactly by their 32-byte genesis hashes; every other hash of any length is an unknown chain.",
  ["inputs"],"every 32-byte hash; every cut or extended hash","Tests try three hashes.",[PR+"utils.rs"],[("get_chain_type_by_genesis_hash",PR+"utils.rs")])
p("N04","Off-chain index entries of different MSAs never collide",
  "The lock name and the storage key of an MSA's off-chain index consist of their own prefix and the MSA id in decimal, so no two MSAs, nor a lock and a key, share a name.",
  ["inputs"],"every id of up to four digits and the largest ids","Tests check one id.",[PR+"offchain.rs"],[("get_msa_account_lock_name",PR+"offchain.rs"),("get_msa_account_storage_key_name",PR+"offchain.rs")])
p("N05","Pagination visits every message exactly once",
  "A page ends exactly when it holds the requested number of items and then names the position right after its last item as the start of the next, unless the requested range is exhausted. Walking the pages yields every item once and in order. Requests are valid exactly for a positive page size and a non-empty block range, both within their limits.",
  ["inputs","histories"],"every request; every block, position and list length; every walk over three blocks","Tests check one full and one partial page.",[PR+"messages.rs","pallets/messages/src/rpc/src/lib.rs"],[("check_end_condition_and_set_next_pagination",PR+"messages.rs"),("BlockPaginationRequest::validate",PR+"messages.rs"),("get_messages_by_schema_id","pallets/messages/src/rpc/src/lib.rs")])
p('S01','A state change names the exact page it replaces',
  "An upsert, deletion or item action is accepted only when its target hash is the content hash of the page as stored (0 for an absent or empty page); otherwise nothing changes. An accepted change moves the page's nonce to the next one (from 0 when absent, wrapping) and is announced with the hashes before and after. The content hash covers all of the nonce and the content. Deleting an absent page changes nothing. All of this holds for the owner's own transactions and for signed payloads of both versions.",
  ['inputs'],'every page, nonce, target hash and hash value','Tests use a few pages with their real hashes; a comparison left out of one of the nine calls shows only there.',
  ['pallets/stateful-storage/src/lib.rs', 'pallets/stateful-storage/src/types.rs'],[('update_paginated', 'pallets/stateful-storage/src/lib.rs'), ('update_itemized', 'pallets/stateful-storage/src/lib.rs'), ('delete_paginated', 'pallets/stateful-storage/src/lib.rs'), ('get_hash', 'pallets/stateful-storage/src/types.rs')])
p('S02','Item actions apply all or none, keep the order and never exceed a page',
  'Deletions name items by their index in the page as it was before the actions, each at most once; the remaining items keep their order and additions follow in the order given. If any action is invalid or the result exceeds the page size nothing changes. A page left without items is removed. Reading lists every item with its index and bytes; a page that is not a sequence of items is reported as corrupted and never changed. A paginated page reads back as written.',
  ['inputs'],'every page of items, every action list','Tests try a few lists of actions; index arithmetic and size limits fail only at particular combinations.',
  ['pallets/stateful-storage/src/lib.rs', 'pallets/stateful-storage/src/types.rs'],[('apply_item_actions', 'pallets/stateful-storage/src/types.rs'), ('try_parse', 'pallets/stateful-storage/src/types.rs'), ('get_itemized_storage', 'pallets/stateful-storage/src/lib.rs')])
p('S03',"Only an owner, a granted provider or an owner's signature changes state",
  "A change is accepted exactly when the caller's MSA owns the state, or the owner granted the caller's MSA that schema at the current block and the schema does not require signatures, or the change carries a payload signed by a key of the owner (version 1 also names the owner). The schema must exist and be stored the way the change is; nothing is removed from an append-only schema; page ids stay within the maximum. Only the owner's state under that schema and page is changed. State is read only for schemas stored that way.",
  ['inputs'],'every caller, MSA, grant, schema, setting and page id','Tests combine a few; a missing check shows only for particular settings.',
  ['pallets/stateful-storage/src/lib.rs'],[('check_msa_and_grants', 'pallets/stateful-storage/src/lib.rs'), ('check_schema_for_write', 'pallets/stateful-storage/src/lib.rs'), ('check_msa', 'pallets/stateful-storage/src/lib.rs')])
p('S04','A signed state change is genuine, in its window and not replayable',
  'A signed payload is accepted only while current block < expiration < current block + mortality window, and only when the named key signed exactly this payload inside <Bytes> tags. Once accepted it is not accepted again.',
  ['inputs', 'histories'],'every block, window, expiration, signer and signed payload','Tests try a few expirations and one wrong signature per call.',
  ['pallets/stateful-storage/src/lib.rs'],[('check_payload_expiration', 'pallets/stateful-storage/src/lib.rs'), ('check_signature', 'pallets/stateful-storage/src/lib.rs'), ('mortality_block_limit', 'pallets/stateful-storage/src/lib.rs')])
p('S05','Every page is stored apart and read back under its own keys',
  "Pages of different owners, schemas, page ids or kinds never share storage: each reads back what was written to it, changing or deleting one leaves all others, and listing an owner's schema yields exactly its pages with their page ids.",
  ['inputs', 'histories'],'every two pages under any owners, schemas and ids','Tests use small ids; keys that meet for particular ids pass them.',
  ['pallets/stateful-storage/src/lib.rs', 'pallets/stateful-storage/src/stateful_child_tree.rs'],[('hash', 'pallets/stateful-storage/src/stateful_child_tree.rs'), ('decode_without_prefix', 'pallets/stateful-storage/src/stateful_child_tree.rs'), ('get_child_tree_for_storage', 'pallets/stateful-storage/src/stateful_child_tree.rs'), ('prefix_iterator', 'pallets/stateful-storage/src/stateful_child_tree.rs')])
p('H10','An MSA and its handle always name each other',
  'After any sequence of claims, changes and retirements an MSA holds a handle exactly from claiming it until retiring it; its display handle is the base as chosen, a delimiter and a suffix within the configured range; the handle, however it is written, resolves to that MSA only; a retired or replaced handle resolves to nobody. A claim needs an MSA without a handle, a change and a retirement one that has one, and each is announced.',
  ['inputs', 'histories'],'every history of two or three operations by two MSAs over similar bases, with any shuffle of the suffixes','Tests walk a few sequences with one seed; a map left stale shows only in particular histories.',
  ['pallets/handles/src/lib.rs'],[('do_claim_handle', 'pallets/handles/src/lib.rs'), ('do_retire_handle', 'pallets/handles/src/lib.rs'), ('change_handle', 'pallets/handles/src/lib.rs'), ('get_msa_id_for_handle', 'pallets/handles/src/lib.rs')])
p('H11','No handle is ever issued twice',
  "Each claim under a canonical base takes the next suffix of that base's shuffled sequence, the one the runtime API foretells, never one issued before under it, and none outside the configured range even when the range has been changed; when the sequence is exhausted claims fail.",
  ['inputs', 'histories'],'every sequence index, every former minimum, any shuffle; every way to exhaust a range','Tests claim a handful of handles with one seed.',
  ['pallets/handles/src/lib.rs'],[('generate_suffix_for_canonical_handle', 'pallets/handles/src/lib.rs'), ('get_next_suffix_index_for_canonical_handle', 'pallets/handles/src/lib.rs'), ('get_next_suffixes', 'pallets/handles/src/lib.rs')])
p('H12',"A handle changes only by a timely signature of its holder's key",
  "Claiming or changing a handle needs a transaction by anyone that carries a payload which a key with an MSA signed in full inside <Bytes> tags, and only while current block < expiration < current block + mortality window; retiring needs a transaction by a key of the holder. A free retirement is valid for a block exactly when it will succeed and the claim's signature has expired, so a claim cannot be replayed.",
  ['inputs', 'histories'],'every block, expiration, signer, MSA and handle state; claims replayed at any later block','Tests try a wrong signature and two expirations.',
  ['pallets/handles/src/lib.rs', 'pallets/handles/src/handles_signed_extension.rs'],[('verify_signed_payload', 'pallets/handles/src/lib.rs'), ('verify_signature_mortality', 'pallets/handles/src/lib.rs'), ('claim_handle', 'pallets/handles/src/lib.rs'), ('change_handle', 'pallets/handles/src/lib.rs'), ('retire_handle', 'pallets/handles/src/lib.rs'), ('validate_retire_handle', 'pallets/handles/src/handles_signed_extension.rs')])
p('H13','Which handles can be claimed is exactly as documented',
  'A handle is claimed exactly when it is UTF-8 of at most 32 bytes, it and its canonical form have 3 to 20 characters, it is neither reserved nor contains blocked characters and its canonical form is of supported characters; validate_handle tells exactly these.',
  ['inputs'],'every handle of up to four characters, long ones around the limits, with any last character, any bytes that are not UTF-8','Tests use a table of handles.',
  ['pallets/handles/src/lib.rs'],[('validate_handle', 'pallets/handles/src/lib.rs'), ('validate_base_handle', 'pallets/handles/src/lib.rs'), ('validate_canonical_handle_length', 'pallets/handles/src/lib.rs'), ('verify_max_handle_byte_length', 'pallets/handles/src/lib.rs')])
p('M01','A key belongs to at most one MSA and every MSA has its keys counted',
  "After any sequence of MSA creations (by its owner or a provider), key additions, key removals and retirements each key controls at most one MSA, an MSA's key count is the number of keys that control it (at most the limit), each operation succeeds exactly when its documented conditions hold and changes nothing of any other MSA, and each is announced.",
  ['inputs', 'histories'],'every sequence of up to three operations over several keys','Tests check single operations.',
  ['pallets/msa/src/lib.rs'],[('create', 'pallets/msa/src/lib.rs'), ('add_key', 'pallets/msa/src/lib.rs'), ('add_public_key_to_msa', 'pallets/msa/src/lib.rs'), ('delete_key_for_msa', 'pallets/msa/src/lib.rs'), ('delete_msa_public_key', 'pallets/msa/src/lib.rs'), ('retire_msa', 'pallets/msa/src/lib.rs')])
p('M02','MSA identifiers are issued in order and never again',
  'Every new MSA takes the identifier after the highest issued so far; when identifiers are exhausted creation fails; no operation lowers the highest one or gives a retired identifier to another.',
  ['inputs', 'histories'],'every highest identifier; every history','Tests create a few MSAs.',
  ['pallets/msa/src/lib.rs'],[('create_account', 'pallets/msa/src/lib.rs'), ('get_next_msa_id', 'pallets/msa/src/lib.rs'), ('set_msa_identifier', 'pallets/msa/src/lib.rs')])
p('M03','Delegations and schema grants hold exactly from grant to revocation',
  'A delegation is in effect up to the block it is revoked in and for no future block, and a schema grant up to the block it was revoked in, never beyond its delegation; re-granting restores them; revoking what already ended leaves it ended at the block it ended at; schemas never granted are not permitted. Other delegations are untouched. The list of granted schemas tells the same.',
  ['inputs', 'histories'],'every block, revocation block and queried block; every sequence of two or three grants and revocations at any blocks','Tests use a few block numbers and single revocations.',
  ['pallets/msa/src/lib.rs', 'pallets/msa/src/types.rs'],[('ensure_valid_delegation', 'pallets/msa/src/lib.rs'), ('ensure_valid_schema_grant', 'pallets/msa/src/lib.rs'), ('upsert_schema_permissions', 'pallets/msa/src/lib.rs'), ('revoke_permissions_for_schemas', 'pallets/msa/src/lib.rs'), ('try_get_mut_schema', 'pallets/msa/src/types.rs'), ('revoke_provider', 'pallets/msa/src/lib.rs')])
p('M04','A signature for MSA authority is used at most once, within its window',
  'A payload is accepted only while current block < expiration < current block + mortality window, and never again: the registry of used signatures refuses those it holds, forgets one only after its expiration, and refuses new ones when full of unexpired ones. Creating a sponsored account, granting a delegation and adding a key register each signature they use.',
  ['inputs', 'histories'],'every registry of two or three entries with any expirations, any sequence of signatures at any blocks; each of the three calls replayed','Tests fill the registry with a fixed pattern.',
  ['pallets/msa/src/lib.rs'],[('register_signature', 'pallets/msa/src/lib.rs'), ('enqueue_signature', 'pallets/msa/src/lib.rs')])
p('M05','Retiring an MSA is final and leaves nothing behind',
  'An MSA can be retired exactly by its only key, while it is not a provider, holds no handle and has no delegation in effect; its key then controls nothing, nobody can act for it, no other MSA is touched, and nothing signed before, nor any former delegation, gives its identifier to a key again.',
  ['inputs', 'histories'],'every combination of keys, provider registration, handle and delegations at any blocks','Tests try each blocking condition once.',
  ['pallets/msa/src/lib.rs'],[('retire_msa', 'pallets/msa/src/lib.rs'), ('ensure_msa_can_retire', 'pallets/msa/src/lib.rs')])
p('M06','Delegations and keys need the consent of everyone they bind',
  "A provider gets a delegation exactly from a payload naming that provider's MSA and the granted schemas, signed by the delegator's key, in a transaction by a key of a registered provider that is not the delegator itself; a key is added to an MSA exactly when a key of that MSA and the new key both signed the same payload naming that MSA. Only existing schemas and at most the maximum are granted.",
  ['inputs'],'every combination of signer, signed payload, named MSA, provider registration and MSA ownership','Tests try one wrong element at a time.',
  ['pallets/msa/src/lib.rs'],[('create_sponsored_account_with_delegation', 'pallets/msa/src/lib.rs'), ('grant_delegation', 'pallets/msa/src/lib.rs'), ('add_public_key_to_msa', 'pallets/msa/src/lib.rs'), ('add_provider', 'pallets/msa/src/lib.rs'), ('verify_signature', 'pallets/msa/src/lib.rs')])
p('M07','A free call is let into a block exactly when it will succeed',
  'The signed extension accepts a free revocation, key removal or retirement exactly when the dispatched call succeeds in that state, so nobody fills blocks with free failing calls; paid calls are not restricted.',
  ['inputs'],'every state of the delegation, the keys and the MSA at every block','Tests try each rejection once.',
  ['pallets/msa/src/lib.rs'],[('validate_delegation_by_delegator', 'pallets/msa/src/lib.rs'), ('validate_delegation_by_provider', 'pallets/msa/src/lib.rs'), ('validate_key_delete', 'pallets/msa/src/lib.rs'), ('ensure_msa_can_retire', 'pallets/msa/src/lib.rs')])
p('M08','The off-chain index lists the keys of each MSA as of the finalized block',
  "Once a finalized block is known, each key addition and removal up to it is applied once and in order to the list of the MSA's keys, and later ones not before they are finalized; whatever the node answers, the worker does not fail.",
  ['inputs', 'histories'],'every sequence of up to two key events over three blocks, with any finalized block and late or repeated workers; nine kinds of answers','Tests cover a single addition.',
  ['pallets/msa/src/offchain_storage.rs'],[('do_offchain_worker', 'pallets/msa/src/offchain_storage.rs'), ('offchain_index_event', 'pallets/msa/src/offchain_storage.rs'), ('process_offchain_events', 'pallets/msa/src/offchain_storage.rs'), ('fetch_finalized_block_hash', 'pallets/msa/src/offchain_storage.rs')])
p('M09','Providers are registered once, by the right origin',
  'create_provider registers a provider exactly for a key with an MSA not yet registered, with a name of at most the maximum length, and only from an allowed origin (a signed key, or governance for the governance call); proposing puts just that to a vote of the council and registers nothing.',
  ['inputs'],'every origin, MSA state, registration and name length','Tests try one failure at a time.',
  ['pallets/msa/src/lib.rs'],[('create_provider', 'pallets/msa/src/lib.rs'), ('create_provider_via_governance', 'pallets/msa/src/lib.rs'), ('propose_to_be_provider', 'pallets/msa/src/lib.rs'), ('create_provider_for', 'pallets/msa/src/lib.rs')])
p('X01','A capacity transaction is charged its fee once, in capacity only',
  "pay_with_capacity and its batch are accepted exactly when the sender has a balance, controls an MSA and that MSA's capacity (replenished if its epoch has passed) covers the fee: base fee, capped stable weight fee and length fee. The fee is taken once, from that MSA only, no tokens and no tip are charged, whether the call succeeds or not; calls that are not eligible are refused; a batch is of at most ten and of all or nothing; every other transaction pays in tokens only.",
  ['inputs', 'states'],'every eligible call with every length, tip, balance, ledger and epoch','Tests charge a handful of calls with round numbers.',
  ['pallets/frequency-tx-payment/src/lib.rs', 'pallets/frequency-tx-payment/src/payment.rs', 'runtime/frequency/src/lib.rs'],[('withdraw_fee', 'pallets/frequency-tx-payment/src/lib.rs'), ('withdraw_capacity_fee', 'pallets/frequency-tx-payment/src/lib.rs'), ('withdraw_token_fee', 'pallets/frequency-tx-payment/src/lib.rs'), ('pay_with_capacity', 'pallets/frequency-tx-payment/src/lib.rs'), ('pay_with_capacity_batch_all', 'pallets/frequency-tx-payment/src/lib.rs'), ('withdraw_fee', 'pallets/frequency-tx-payment/src/payment.rs'), ('ensure_can_withdraw', 'pallets/frequency-tx-payment/src/payment.rs')])
p('X02','Eligible calls and their stable weights are the published ones',
  'Exactly the sixteen listed calls can be paid for with capacity, each at its own stable weight, which grows in proportion to its payload and never wraps; no call of another pallet or of the capacity, utility, proxy or passkey pallets is eligible, and a capacity call is as heavy as what it wraps.',
  ['inputs'],'every eligible call with any payload length, every other call the runtime offers','Tests check that the weights are present.',
  ['runtime/frequency/src/lib.rs', 'pallets/frequency-tx-payment/src/capacity_stable_weights.rs', 'pallets/frequency-tx-payment/src/lib.rs'],[('get_stable_weight', 'runtime/frequency/src/lib.rs'), ('get_inner_calls', 'runtime/frequency/src/lib.rs'), ('add_onchain_message', 'pallets/frequency-tx-payment/src/capacity_stable_weights.rs'), ('create', 'pallets/frequency-tx-payment/src/capacity_stable_weights.rs')])
p('X03','Fees follow weight and length exactly, within the published limits',
  'The weight fee is the published tenth of a cent for the base extrinsic weight in proportion, the length fee ten millicents a byte, for every weight and length; a capacity fee is base, weight and length fee, its weight part capped at that of the heaviest block.',
  ['inputs'],'every weight and every length of 64 bits','Tests check a table of weights.',
  ['runtime/common/src/fee.rs', 'pallets/frequency-tx-payment/src/lib.rs', 'runtime/frequency/src/lib.rs'],[('polynomial', 'runtime/common/src/fee.rs'), ('compute_capacity_fee', 'pallets/frequency-tx-payment/src/lib.rs'), ('weight_to_fee', 'pallets/frequency-tx-payment/src/lib.rs')])
p('X04','The fee reported for a capacity transaction is the one charged',
  'compute_capacity_fee_details reports a base and a length fee equal to those charged and an adjusted weight fee that is never below what is charged; for calls that are not paid for with capacity it reports none.',
  ['inputs'],'every eligible call with every length and dispatch weight','Tests compare one call with its own computation.',
  ['pallets/frequency-tx-payment/src/lib.rs', 'pallets/frequency-tx-payment/src/rpc/src/lib.rs', 'runtime/frequency/src/lib.rs'],[('compute_capacity_fee_details', 'pallets/frequency-tx-payment/src/lib.rs'), ('compute_capacity_fee_details', 'pallets/frequency-tx-payment/src/rpc/src/lib.rs'), ('compute_capacity_fee', 'runtime/frequency/src/lib.rs')])
p('R01',"No batch or capacity call gets around the runtime's call filter",
  'On mainnet direct registration of providers and schemas is refused, on its own and inside a capacity call; on every network a batch of any kind passes exactly when each of its calls may be batched: no free call, no direct registration, no capacity call or other batch, at any place. Every other call passes, and what is refused has no effect.',
  ['inputs'],'every call of the runtime in every wrapper, mainnet and test networks','Tests look at single calls.',
  ['runtime/frequency/src/lib.rs'],[('BaseCallFilter::contains', 'runtime/frequency/src/lib.rs'), ('is_utility_call_allowed', 'runtime/frequency/src/lib.rs'), ('is_batch_call_allowed', 'runtime/frequency/src/lib.rs'), ('is_pays_no_call', 'runtime/frequency/src/lib.rs')])
p('R02',"Each transaction is accepted once, in the order of its sender's nonces",
  "A transaction enters a block exactly with its sender's next nonce, uses it up and changes nothing else of the account; the pool accepts it exactly when the nonce is not past and holds it until those before it are there; free calls create no account; free calls that would fail are refused; the extensions for version, genesis, era, sender and weight are there.",
  ['inputs', 'histories'],'every account state and nonce, free and paying','Tests use a few nonces.',
  ['runtime/common/src/extensions/check_nonce.rs', 'runtime/frequency/src/lib.rs'],[('pre_dispatch', 'runtime/common/src/extensions/check_nonce.rs'), ('validate', 'runtime/common/src/extensions/check_nonce.rs'), ('SignedExtra', 'runtime/frequency/src/lib.rs')])
p('R03','A proxy may make only the calls of its kind',
  'Each proxy kind allows exactly the calls it is documented for; a kind that counts as covering another allows every call the other does; only Any covers Any, every kind covers itself.',
  ['inputs'],'every call of the runtime with every pair of kinds','Tests do not cover the filters.',
  ['runtime/frequency/src/lib.rs', 'runtime/common/src/proxy.rs'],[('filter', 'runtime/frequency/src/lib.rs'), ('is_superset', 'runtime/frequency/src/lib.rs')])
p('R04','User proposals reach the council with the right threshold and content',
  "propose_with_simple_majority proposes with a threshold of more than half of the members, propose with the one asked for; a proposal to become a provider or to name or create a schema carries the proposer's key and content unchanged and takes no effect until the council agrees.",
  ['inputs'],'every council size up to nine, every threshold','Tests use a mock proposal provider.',
  ['runtime/frequency/src/lib.rs', 'pallets/msa/src/lib.rs', 'pallets/schemas/src/lib.rs'],[('propose_with_simple_majority', 'runtime/frequency/src/lib.rs'), ('propose', 'runtime/frequency/src/lib.rs'), ('propose_to_be_provider', 'pallets/msa/src/lib.rs')])
p('Y01','A passkey transaction needs an owned passkey, a nonce and a fee, once',
  "A passkey transaction is accepted exactly when its call is one of the three balance transfers, its account signed the passkey's public key, its nonce is the account's next and the account pays the fee of the call as sent; its fee is charged once in tokens and its nonce used up; its call is made as the account, never for a signed or root origin; the pool's view agrees.",
  ['inputs', 'states'],'every key, signer, nonce, balance and inner call','Tests check a handful of payloads.',
  ['pallets/passkey/src/lib.rs', 'runtime/frequency/src/lib.rs'],[('proxy', 'pallets/passkey/src/lib.rs'), ('validate_unsigned', 'pallets/passkey/src/lib.rs'), ('pre_dispatch', 'pallets/passkey/src/lib.rs')])
p('W01','The pallets hold together as the runtime wires them',
  "With the runtime's own configuration: capacity is staked to registered providers only; messages and pages need an existing schema of their place and a grant by whom they are for; only existing schemas are granted; handles are claimed by MSAs and have to be given up before the MSA retires; staked and scheduled tokens are frozen independently.",
  ['inputs', 'histories'],'each cross-pallet operation in every combination of its conditions','Pallet tests mock every other pallet.',
  ['runtime/frequency/src/lib.rs', 'pallets/msa/src/lib.rs', 'pallets/messages/src/lib.rs', 'pallets/stateful-storage/src/lib.rs', 'pallets/capacity/src/lib.rs'],[('MsaInfoProvider', 'runtime/frequency/src/lib.rs'), ('SchemaGrantValidator', 'runtime/frequency/src/lib.rs'), ('TargetValidator', 'runtime/frequency/src/lib.rs')])
p('Q01','A node answers MSA queries exactly, from the best block',
  "check_delegations, get_granted_schemas_by_msa_id, get_all_granted_delegations_by_msa_id and get_keys_by_msa_id answer from the state of the best block: one answer per delegator in the order asked, true exactly when the delegation (and the grant of the schema) holds at that block; the grants with the block each ended at; nobody else's delegations; exactly the keys of the off-chain index. A node that cannot answer vouches for nobody and returns an error, never a wrong answer.",
  ['inputs', 'states'],'every delegation, grant, revocation, block and node failure',"No test runs the node's answers against a real state.",
  ['pallets/msa/src/rpc/src/lib.rs', 'runtime/frequency/src/lib.rs', 'pallets/msa/src/lib.rs'],[('check_delegations', 'pallets/msa/src/rpc/src/lib.rs'), ('get_granted_schemas_by_msa_id', 'pallets/msa/src/rpc/src/lib.rs'), ('get_all_granted_delegations_by_msa_id', 'pallets/msa/src/rpc/src/lib.rs'), ('get_keys_by_msa_id', 'pallets/msa/src/rpc/src/lib.rs'), ('has_delegation', 'runtime/frequency/src/lib.rs'), ('get_granted_schemas_by_msa_id', 'runtime/frequency/src/lib.rs')])
p('Q02','A node answers handle, schema and state queries exactly',
  'The RPC of handles, schemas and stateful storage answers from the state of the best block exactly what the chain holds: the handle of an MSA and its holder however it is written, as many next suffixes as asked for (one by default, a hundred at most), the schema of an id, the versions of a name in order, the pages and items of an owner with their nonces; a refusal of the runtime and a failure of the node are told apart by their codes, and texts too long or not valid are refused.',
  ['inputs', 'states'],'every request and node failure over a populated state',"No test runs the node's answers against a real state.",
  ['pallets/handles/src/rpc/src/lib.rs', 'pallets/schemas/src/rpc/src/lib.rs', 'pallets/stateful-storage/src/rpc/src/lib.rs', 'common/helpers/src/rpc.rs', 'runtime/frequency/src/lib.rs'],[('get_handle_for_msa', 'pallets/handles/src/rpc/src/lib.rs'), ('get_next_suffixes', 'pallets/handles/src/rpc/src/lib.rs'), ('get_msa_for_handle', 'pallets/handles/src/rpc/src/lib.rs'), ('validate_handle', 'pallets/handles/src/rpc/src/lib.rs'), ('get_by_schema_id', 'pallets/schemas/src/rpc/src/lib.rs'), ('check_schema_validity', 'pallets/schemas/src/rpc/src/lib.rs'), ('get_versions', 'pallets/schemas/src/rpc/src/lib.rs'), ('get_paginated_storage', 'pallets/stateful-storage/src/rpc/src/lib.rs'), ('get_itemized_storage', 'pallets/stateful-storage/src/rpc/src/lib.rs'), ('map_rpc_result', 'common/helpers/src/rpc.rs')])
p('V01','An upgrade keeps everything users had stored',
  'The storage migrations of messages, schemas and time release carry every entry over unchanged, to where the new code reads it, and leave nothing of the old form behind: each message keeps its block, schema, index, payload, provider and MSA; each known schema of the main net gets its name, and its model, settings and id stay; locked release schedules become frozen ones of exactly the same amount. A migration runs once, only from the version it is written for, only where it applies, and leaves the new version number; run again, or on newer storage, it changes nothing.',
  ['inputs', 'states'],'every populated old state within the bounds and every version number on chain','The tests migrate one fixed state; a migration runs once, on the state of the real chain.',
  ['pallets/messages/src/migration/v2.rs', 'pallets/schemas/src/migration/v4.rs', 'pallets/time-release/src/migration/v2.rs'],[('migrate_to_v2', 'pallets/messages/src/migration/v2.rs'), ('on_runtime_upgrade', 'pallets/messages/src/migration/v2.rs'), ('migrate_to_v4', 'pallets/schemas/src/migration/v4.rs'), ('get_known_schemas', 'pallets/schemas/src/migration/v4.rs'), ('on_runtime_upgrade', 'pallets/time-release/src/migration/v2.rs'), ('translate_lock_to_freeze', 'pallets/time-release/src/migration/v2.rs')])
p('Q03','A node tells wallets which nonces are missing and what happened',
  'frequency_getMissingNonceValues lists, in ascending order and without repetition, exactly the nonces of the account from the next one up to its last waiting transaction for which the pool holds no transaction, the first thousand of them if there are more; transactions of other accounts, or with other tags, do not count. frequency_getEvents gives the events of the very block asked for, all of them in order, each with the transaction it came from, its pallet and event number and its data in full. A failing node answers with an error.',
  ['inputs', 'states'],'every nonce, set of ready and waiting transactions and event within the bounds','The tests have a few fixed pools of transactions.',
  ['node/service/src/rpc/frequency_rpc.rs', 'common/primitives/src/rpc.rs', 'runtime/frequency/src/lib.rs'],[('get_missing_nonces', 'node/service/src/rpc/frequency_rpc.rs'), ('get_missing_nonce_values', 'node/service/src/rpc/frequency_rpc.rs'), ('get_events', 'node/service/src/rpc/frequency_rpc.rs'), ('from', 'common/primitives/src/rpc.rs'), ('get_events', 'runtime/frequency/src/lib.rs')])
p('R05','Exactly five calls are free, and calls weigh what they carry',
  'Of all the calls of the pallets, exactly retire_msa, delete_msa_public_key, revoke_delegation_by_delegator, revoke_delegation_by_provider and retire_handle are free; only set_max_schema_model_bytes is of the operational class; every call has a weight, and a call that carries more (a payload, a model, a list) never weighs less and weighs more wherever its cost depends on it.',
  ['inputs'],'every call of the pallets, with any length within the bounds','No test looks at what the calls of the runtime cost.',
  ['pallets/msa/src/lib.rs', 'pallets/handles/src/lib.rs', 'pallets/schemas/src/lib.rs', 'pallets/time-release/src/lib.rs', 'pallets/messages/src/lib.rs', 'pallets/stateful-storage/src/lib.rs', 'pallets/capacity/src/lib.rs'],[('retire_msa', 'pallets/msa/src/lib.rs'), ('delete_msa_public_key', 'pallets/msa/src/lib.rs'), ('revoke_delegation_by_delegator', 'pallets/msa/src/lib.rs'), ('revoke_delegation_by_provider', 'pallets/msa/src/lib.rs'), ('retire_handle', 'pallets/handles/src/lib.rs'), ('create_schema_v3', 'pallets/schemas/src/lib.rs'), ('update_release_schedules', 'pallets/time-release/src/lib.rs')])
p('N06','What a node answers survives JSON',
  'Every answer of a node, written as JSON and read back, is the same answer: events, messages, pages, items of state, handles, schemas and delegations. Bytes are written as hexadecimal text with 0x in front and text as text; either way what a wallet reads is what the chain holds, byte for byte. Malformed hexadecimal or text is refused, never read as something else, and a field that is absent is left out or null as documented.',
  ['inputs'],'every answer within the bounds','Tests have one or two fixed values.',
  ['common/primitives/src/utils.rs', 'common/primitives/src/messages.rs', 'common/primitives/src/msa.rs', 'common/primitives/src/handles.rs', 'common/primitives/src/schema.rs', 'common/primitives/src/stateful_storage.rs', 'common/primitives/src/rpc.rs'],[('serialize', 'common/primitives/src/utils.rs'), ('deserialize', 'common/primitives/src/utils.rs'), ('MessageResponse', 'common/primitives/src/messages.rs'), ('DelegationResponse', 'common/primitives/src/msa.rs'), ('RpcEvent', 'common/primitives/src/rpc.rs')])
p('O02','A development node seals blocks exactly as it was asked to',
  'Without a relay chain, only an authority authors blocks. With instant sealing every transaction that enters the pool is sealed at once; with interval sealing every tick of the chosen interval seals a block, an empty one only if empty blocks were asked for; with manual sealing nothing is sealed unasked. Such blocks are final and on the best chain. In each mode every command is carried out once, in order, exactly as given, whatever else happens meanwhile, and whoever sent it learns the outcome. The node starts only if all its parts do.',
  ['inputs', 'schedules'],'every mode, setting, role, failure, and schedule of ticks, transactions and commands within the bounds','No test runs the block author; it is an event loop.',
  ['node/service/src/block_sealing.rs', 'node/cli/src/run_as_localchain.rs'],[('frequency_dev_sealing', 'node/service/src/block_sealing.rs'), ('run_seal_command', 'node/service/src/block_sealing.rs'), ('run_as_localchain', 'node/cli/src/run_as_localchain.rs')])
p('O03','A node runs the chain it is told to run, and no other',
  "Each kind of node (main net, test net, local, without relay chain) runs the built-in chain of the name given, its default when none is given, and takes any other text as the path of a specification file. A file's chain runs exactly on the kind of node it is for; an absent file, one of another chain or of no known chain is refused with an error and never runs a chain in its stead. The relay chain is the one asked for, else the one the parachain names; only a node without relay chain runs alone.",
  ['inputs'],'every name of up to 22 printable characters, on each kind of node','No test looks at how a node picks its chain, and each build has only one of the four variants.',
  ['node/cli/src/command.rs', 'node/cli/src/cli.rs'],[('load_spec', 'node/cli/src/command.rs'), ('identify', 'node/cli/src/command.rs'), ('run_chain', 'node/cli/src/command.rs'), ('chain_id', 'node/cli/src/command.rs'), ('RelayChainCli::new', 'node/cli/src/cli.rs')])
