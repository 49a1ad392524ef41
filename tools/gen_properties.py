#!/usr/bin/env python3
# Generates /verif/properties.jsonl (the prose lives here so that it can be reviewed and diffed).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        **({"state":[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}),
        observe_at=observe,hook_needed=None)))

VM="vm/nova/vm.go"; V="vm/vm.go"
p("P01","Only the entitled party can unlock an input",
 "A transaction is accepted only if every input is unlocked by whoever is entitled to it at the transaction's committed time: a valid signature of the owning key over this exact transaction, a reference to an earlier unlock of the same address, the unlock of the very chain output the address names, or enough valid member unlocks of a multi address to reach its threshold (with the expiration return party, and not the original owner, entitled once the expiration has passed, and an anchor's governor or state controller depending on the kind of transition). Every unlock list meeting this is accepted, and every other one is rejected without crashing.",
 ["inputs","configurations"],"every assignment of owners (key, account, anchor, NFT, multi, restricted, implicit-account addresses) to up to 3 inputs, every unlock list over the unlock alphabet (right/wrong key, signature over another transaction, forward/self/backward references, wrong chain, missing/extra multi members), every relation of committed time to the expiration slot",
 "The tests hold a handful of hand-written unlock lists; the guarantee is about every list an attacker can attach.",
 [V,VM,"address.go","address_multi.go","address_restricted.go","unlock_multi.go","unlock_signature.go","signature_ed25519.go","signed_transaction.go"],
 [("unlock execution and identity tracking","vm/vm.go:UnlockInputs/unlockIdentity"),("owner resolution","vm/vm.go:resolveUnderlyingIdent, output.go:UnlockableBy"),("signature verification","signature_ed25519.go, address_signer.go")],
 ["nova VM ValidateUnlocks and Execute return values"])
p("P02","Unlock lists have exactly one well-formed shape",
 "A signed transaction is syntactically accepted only if it has exactly one unlock per input, no signature occurs twice, every reference points to an earlier signature or multi unlock, every chain reference points to an earlier unlock that is not itself a dangling or self reference, and multi unlocks are non-nested, not duplicated and do not repeat signatures; any list obeying this is accepted.",
 ["inputs"],"all unlock lists up to length 4 over every unlock kind, every reference index in and just outside the list, and repeated or fresh signatures, including those nested in multi unlocks",
 "Existing tests list around twenty unlock lists; the rule quantifies over all lists.",
 ["signed_transaction.go","unlock.go","unlock_multi.go","unlock_reference.gen.go","unlock_empty.go"],
 [("unlock list validator","unlock.go:SignaturesUniqueAndReferenceUnlocksValidator")],
 ["API Encode/Decode with syntactic validation of signed transactions"])
p("P03","Base tokens are conserved and storage deposits returned",
 "An accepted transaction creates exactly as many base tokens as it consumes, with no sum ever wrapping around. For every address and every consumed output whose storage deposit must be returned to it and is not being reclaimed by the return party after expiry, the outputs hold at least the total owed to that address in plain outputs that only that address can unlock.",
 ["inputs","configurations"],"up to 3 inputs and 3 outputs over a boundary alphabet of amounts (including values whose sums exceed 64 bits), return conditions to 2 addresses, return outputs with or without extra conditions, expired or not",
 "Tests use a few fixed amounts; wrap-around and multi-return combinations are never enumerated.",
 [V,"output.go","unlock_cond_storage_return.go","transaction_essence.go"],
 [("balance rule","vm/vm.go:ExecFuncBalancedBaseTokens"),("return bookkeeping","output.go:SimpleDepositAmount / vm.go return amounts"),("output sum bound","transaction.go/output.go syntactic max supply check")],
 ["nova VM Execute return value"])
p("P04","Native tokens change only under their foundry's control",
 "In an accepted transaction the balance of a native token differs between inputs and outputs only if that token's foundry is created, transitioned or destroyed in it, and then by exactly the change of minted minus melted tokens; burning without the foundry requires the burn capability. Minted and melted counts never decrease, never exceed the maximum supply, the token scheme's maximum never changes, and a foundry is destroyed only when its circulating supply is zero.",
 ["inputs","histories"],"token amounts and scheme counters over a boundary alphabet on up to 2 inputs, 2 outputs, foundry created/kept/destroyed, burn capability on/off; plus every history of mint/melt/burn/transfer steps up to a depth",
 "Tests check single transitions with fixed numbers; supply is an invariant over histories.",
 [V,VM,"token_scheme_simple.go","token_scheme.go","output_foundry.go","feat_native_token.go"],
 [("token balance rule","vm/vm.go:ExecFuncBalancedNativeTokens"),("scheme transition","token_scheme_simple.go:StateTransition"),("foundry STVF","vm/nova/vm.go:foundrySTVF")],
 ["nova VM Execute return value"])
p("P05","Mana is never created and burned only with permission",
 "In an accepted transaction the mana of outputs plus allotments never exceeds the decayed stored mana of inputs plus the mana generated by them plus claimed rewards, no sum wraps around, and a surplus left over is only allowed with the mana-burning capability. Mana bound to a block issuer account (its own stored mana, its allotment, and outputs time-locked to it) cannot be moved to anyone else.",
 ["inputs","configurations"],"stored mana, creation slots, allotments, rewards and burn capability over boundary alphabets on up to 2 inputs and 3 outputs, account block-issuer feature present/expired/locked, each target output shape (owner, timelock length, owner account)",
 "Tests sample a few combinations; overflow, rounding and locked-mana evasion need systematic combination.",
 [V,VM,"mana.go","mana_decay_provider.go","allotment.go"],
 [("mana balance rule","vm/vm.go:ExecFuncBalancedMana"),("total mana","vm/vm.go:TotalManaIn/TotalManaOut"),("block issuer mana lock","vm/nova/vm.go:accountBlockIssuerSTVF")],
 ["nova VM Execute return value","TotalManaIn/TotalManaOut"])
p("P06","Account chains change only along legal transitions",
 "A consumed or created account is accepted exactly when the transition is legal: identity and immutable data preserved, foundry counter equal to its old value plus the foundries created, block issuer feature added/changed/removed/expired only within its commitment-window rules and with non-negative issuance credit, staking feature immutable while active and removed (with reward claim) or restarted only as allowed, and destruction only with the account-destruction capability, no locked issuer feature and no active staking. No account can bypass a negative block issuance credit.",
 ["inputs","histories"],"every pair of before/after accounts over the product of feature presence and boundary values (expiry slot and staking epochs around the commitment window, counters, immutable features, metadata), credit sign, reward input presence, destruction capability",
 "The table tests fix one deviation at a time; legality is a relation over all before/after pairs.",
 [VM,"output_account.go","feat_blockissuer.go","feat_staking.go"],
 [("account STVF","vm/nova/vm.go:accountSTVF"),("block issuer rules","vm/nova/vm.go:accountBlockIssuerSTVF"),("staking rules","vm/nova/vm.go:accountStakingSTVF")],
 ["nova VM Execute return value"])
p("P07","Anchor chains change only along legal transitions",
 "A consumed or created anchor is accepted exactly when the transition is legal: with the state index unchanged (a governance transition) the amount and the state metadata stay the same; with the index increased by exactly one (a state transition) the state controller, governor and governance metadata stay the same; immutable data and identity never change; a new anchor starts at index zero with correct issuer; destruction needs the anchor-destruction capability and the governor.",
 ["inputs","histories"],"every pair of before/after anchors over the product of state index, controllers, amounts, mana, features, immutable features, each with the unlocking party varied, plus destruction with and without capability",
 "Tests mutate one field at a time for single examples.",
 [VM,"output_anchor.go"],[("anchor STVF","vm/nova/vm.go:anchorSTVF/anchorStateChangeValid/anchorGovernance...")],["nova VM Execute return value"])
p("P08","NFTs keep their identity and immutable data",
 "An NFT's identifier and immutable features never change while it exists, an NFT created with an issuer needs that issuer to have been unlocked in the same transaction, no two outputs of a transaction carry the same NFT, and an NFT disappears only in a transaction with the NFT-destruction capability. Sender and issuer features on any created output always name an address unlocked in that transaction.",
 ["inputs"],"NFT before/after pairs over identifier, immutable issuer/metadata, mutable features, destruction capability; sender/issuer features naming every unlocked and non-unlocked address kind",
 "Tests contain individual cases; the rule covers all combinations of unlocked parties and feature contents.",
 [VM,V,"output_nft.go","feat_sender.go","feat_issuer.go"],[("nft STVF","vm/nova/vm.go:nftSTVF"),("sender rule","vm/vm.go:ExecFuncSenderUnlocked")],["nova VM Execute return value"])
p("P09","Delegations start, end and pay out only as specified",
 "A delegation is accepted at creation only with a zero identifier, full delegated amount and the start epoch dictated by the commitment; it can transition only once, to a delayed-claiming state with unchanged terms and the dictated end epoch; it can be destroyed only together with a reward claim and never claims on a transition to delayed claiming; a staking account claims rewards exactly when its staking feature is removed or restarted after expiry, and every claimed reward is counted as mana exactly once.",
 ["inputs","histories"],"all before/after delegation pairs over identifier, amounts, validator, start/end epochs around the dictated ones, commitment slots around the registration slot, reward input presence and value",
 "Epoch boundary relations are sampled at one or two commitments in tests.",
 [VM,V,"output_delegation.go"],[("delegation STVF","vm/nova/vm.go:delegationSTVF"),("reward accounting","vm/vm.go:TotalManaIn, nova vm rewards")],["nova VM Execute return value"])
p("P10","Foundry and chain identities are unique and account-controlled",
 "A foundry is created only in a transaction in which its controlling account transitions with a foundry counter raised by exactly the number of new foundries, whose serials are the consecutive next numbers in output order; existing foundries keep account, immutable features and serial. No accepted transaction yields two outputs with the same chain identifier, and every non-new chain output has a matching consumed chain.",
 ["inputs"],"up to 3 new foundries with serial numbers in every order around the counter, account counter values, foundries of two accounts, chain outputs with absent/duplicate/foreign identifiers",
 "Serial ordering over multiple accounts and outputs is combinatorial.",
 [VM,V,"output_foundry.go","chain.go","transaction.go"],[("foundry genesis","vm/nova/vm.go:foundryGenesisValid"),("chain uniqueness","transaction syntactic validation, vm.go ExecFuncChainTransitions")],["nova VM Execute return value","syntactic validation"])
p("P11","Time locks and expirations never open early or late",
 "A time-locked output is spendable exactly from its unlock slot on, measured by the committed slot plus the minimum committable age, and an output with expiration is spendable by its owner only while the committed slot plus the maximum committable age is before the expiry slot and by the return party only once the committed slot plus the minimum committable age has reached it; between the two nobody can spend it. Without a commitment such outputs cannot be spent.",
 ["inputs","configurations"],"every committed slot, timelock slot and expiry slot in a window that straddles all thresholds and the ends of the slot range, several committable-age settings, each claimant",
 "Threshold tests pick one or two slots; off-by-one and wrap-around errors live on every boundary.",
 [V,"output.go","unlock_cond_timelock.go","unlock_cond_expiration.go","unlock_cond.go"],[("past/future bounded slots","vm/vm.go: PastBoundedSlotIndex/FutureBoundedSlotIndex"),("timelock rule","vm/vm.go:ExecFuncTimelocks"),("expiration check","output.go/unlock_cond_expiration.go")],["nova VM ValidateUnlocks/Execute"])
p("P12","Implicit accounts convert only into proper accounts",
 "Funds sent to an implicit account creation address are usable only by converting that output into a block issuer account with the derived identifier in the same transaction, one at a time, unlocked by a signature of the key behind it (or a reference to one), with non-negative issuance credit; such outputs carry nothing but the address condition and optional native tokens, and an implicit account address is never usable as owner, controller, return party or validator of any other output. Converting never loses or leaks the mana bound to the implicit account and never crashes validation.",
 ["inputs"],"1-2 implicit inputs, target output kinds, identifier match, block issuer feature and expiry, credit sign, signature kind, additional new foundries and outputs, mana distribution",
 "Few scenarios in tests; interactions of conversion with other rules are uncovered.",
 [VM,V,"address_implicit_account_creation.go","output_basic.go","vm/types.go"],[("implicit account STVF","vm/nova/vm.go:implicitAccountSTVF"),("at-most-one rule","vm/vm.go:ExecFuncAtMostOneImplicitAccountCreationAddress"),("syntactic restriction","output.go:implicit account creation checks")],["nova VM Execute return value"])
p("P13","Slots, epochs and times map consistently",
 "Slot, epoch and time conversions agree with one another: slots partition time into equal intervals starting at genesis, epochs partition slots into equal ranges, each slot/epoch's start and end map back to it, everything before genesis maps to the genesis slot or epoch, and the distances to epoch boundaries match these ranges.",
 ["inputs","configurations"],"all slots in several epochs and around the range ends for a product of genesis slots, genesis times, slot durations and epoch lengths, all instants at sub-slot granularity around each boundary",
 "The tests fix two configurations and a few indices.",
 ["timeprovider.go","slot_index.gen.go","epoch_index.gen.go"],[("time provider","timeprovider.go")],["TimeProvider methods"])
p("P14","Mana decay and generation follow the protocol formula",
 "For every amount, slot pair and parameter set, mana generated and decayed equals the exact fixed-point protocol formula computed without any intermediate overflow and never wraps; decay is monotone in the amount and never yields more than the amount decayed; invalid slot order is an error.",
 ["inputs","configurations"],"boundary amounts of every bit length, every slot offset in the first epochs and spans up to and beyond the decay table, several parameter sets",
 "Tests check tens of points against constants; overflow in intermediate products depends on value/table pairs.",
 ["mana_decay_provider.go","mana.go","timeprovider.go"],[("decay provider","mana_decay_provider.go"),("potential mana of outputs","mana.go:PotentialMana")],["ManaDecayProvider methods","PotentialMana"])
p("P15","Binary encoding round-trips and is canonical",
 "Every valid protocol object encodes to the byte layout the protocol fixes and decodes back to an equal object, re-encoding yields identical bytes, the reported size equals the number of bytes, and sets that must be sorted and unique are encoded in that one order and rejected in any other.",
 ["inputs"],"the product of optional parts and boundary values for every output, address, feature, unlock condition, payload, block and proof type; every permutation of small sets",
 "Random round-trips sample values; they cannot show layout agreement or single canonical order.",
 ["api_v3.go","output.go","block.go","address.go","feat.go","unlock_cond.go"],[("serix registration","api_v3.go"),("sizes","Size() methods")],["API Encode/Decode"])
p("P16","JSON encoding round-trips to the same object",
 "Every valid protocol object rendered to JSON and parsed back is the same object with the same identifier and binary form; numbers that may exceed the JSON-safe range are rendered as strings without loss, and JSON that violates syntactic rules is rejected like the binary form.",
 ["inputs"],"the same object space as for the binary encoding, plus boundary integers and per-field JSON mutations",
 "Tests round-trip random samples only.",
 ["api_v3.go","hexutil/numbers.go","api_protocol_parameters.go"],[("map encoding","api_v3.go JSONEncode/JSONDecode")],["API JSONEncode/JSONDecode"])
p("P17","Decoders never crash and accept only canonical bytes",
 "Decoding any byte string, for every wire type, ends in an error or in an object: it never panics, never over-reads and does not exhaust memory or stack on block-sized input however deeply nested, and if an object is produced with validation then re-encoding it gives exactly the bytes consumed, so that no two byte strings decode to the same object.",
 ["inputs"],"for one or more exemplars of every wire type: every truncation, every single-byte change to every position over a boundary alphabet (all 256 values in the thorough tier), every insertion of a byte, and every pair of type/length byte changes",
 "The fuzz targets sample; exhaustive single- and double-fault neighbourhoods are never covered.",
 ["api_v3.go","block.go","address.go","transaction.go","api_protocol_parameters.go","unlock.go","block_issuer_key.go"],[("serix decode with validation","api_v3.go:Decode"),("custom parsers","ParseBlock, AddressFromReader, BlockIssuerKeyFromBytes, ...")],["Decode and FromBytes functions"])
p("P18","Identifiers commit to the entire content and creation slot",
 "Block, transaction, signed transaction, output, commitment, chain and foundry identifiers are exactly the specified digest of the whole encoded content combined with its slot or index; changing any encoded bit of the content changes the identifier, equal content gives equal identifier, and identifier parts (slot, index, serial, account) read back what went in.",
 ["inputs"],"for a family of objects of every kind: every single-field and single-byte change of the encoding, boundary slots and indices",
 "Tests compare a handful of golden values.",
 ["block.go","transaction.go","signed_transaction.go","output_id.go","commitment.go","block_id.gen.go","identifier.gen.go","output_foundry.go","gen/identifier.tmpl"],[("id functions","block.go:ID, transaction.go:ID, output_id.go")],["ID methods"])
p("P19","Block signatures bind the whole block and attestations match",
 "A block's signature verifies exactly when it was made by the named key over this block's header and body; altering any header or body byte, key or signature makes verification fail, and for an account's issuer keys only listed keys count. An attestation made from a block verifies, names that block, and compares by the specified order.",
 ["inputs"],"every byte position and a set of bit flips for blocks of every body and payload kind, all pairs of attestations over a small field alphabet",
 "Tests verify a couple of positive examples.",
 ["block.go","attestation.go","signature_ed25519.go","block_issuer_key.go","block_issuer_key_ed25519_pubkeyhash.go"],[("signing message","block.go:SigningMessage/signingMessage"),("verify","block.go:VerifySignature, attestation.go:VerifySignature")],["VerifySignature, Attestation.BlockID, Compare"])
p("P20","Malformed outputs are never accepted",
 "An output is syntactically accepted exactly when it satisfies every structural rule of its type: required unlock conditions present and no others, sorted and unique conditions and features, minimum storage deposit covered and amounts within supply, expiration/timelock non-zero, no self-ownership cycles, address capabilities of restricted owners respected, metadata in bounds, foundry supply consistent, storage-return deposit sufficient, staking and anchor fields consistent.",
 ["inputs"],"the product of presence and boundary values of all conditions, features and fields for each of the six output types",
 "Tests vary single rules; structural rules interact.",
 ["output.go","output_basic.go","output_account.go","output_anchor.go","output_foundry.go","output_nft.go","output_delegation.go","syntax_validator.go","address_capabilities_bitmask.go"],[("syntactic validators","output.go: OutputsSyntactical...")],["API Encode/Decode with validation"])
p("P21","Malformed transactions are never accepted",
 "A transaction is syntactically accepted exactly when inputs are unique and within count, context inputs are unique, ordered and consistent with the inputs and commitment they need, allotments are unique, sorted and sum within the mana bound, chain identifiers are unique, the total amount is within supply and the stored mana within the mana bound, the network matches, outputs with staking, block issuer or delegation have a commitment input, and the capability flags are canonical.",
 ["inputs"],"all small sequences of inputs, context inputs, allotments and capability bytes over alphabets with duplicates and out-of-range members",
 "Interactions of context inputs, indices and order are only sampled.",
 ["transaction.go","transaction_essence.go","input.go","input_context.go","allotment.go","transaction_capabilities_bitmask.go","syntax_validator.go"],[("transaction syntactic validation","transaction.go:SyntacticallyValidate"),("context input validator","input_context.go")],["API Encode/Decode with validation"])
p("P22","Malformed blocks are never accepted",
 "A block is syntactically accepted exactly when its protocol version and network match, parent lists are within count, sorted, unique and pairwise disjoint where required, the slot commitment is within the allowed window of the issuing slot, commitment and transaction-commitment inputs agree, the payload kind is allowed for the body kind, and the maximum size is respected. Validation never modifies the block.",
 ["inputs"],"all small combinations of parent lists over a shared alphabet, issuing/commitment/input slots in a window around the thresholds for several parameter sets, body and payload kinds, versions and hashes",
 "Threshold combinations of three slots and several parent lists are not enumerated by tests.",
 ["block.go","syntax_validator.go"],[("block validation","block.go:syntacticallyValidate")],["API Encode/Decode with validation"])
p("P23","Storage score equals the size-weighted formula",
 "The storage score of each output, and the minimum deposit derived from it, equals the parameterised formula over its encoded size and its owner, delegation, staking and issuer-key parts, never wraps, and an output is accepted exactly when its amount covers it.",
 ["inputs","configurations"],"the output object space times several factor settings (including ones where single terms dominate) and amounts at the threshold -1, 0, +1",
 "Golden numbers for a few outputs only.",
 ["storagescore.go","output.go","output_basic.go","output_account.go","feat_blockissuer.go","feat_staking.go"],[("score structure","storagescore.go"),("StorageScore methods","output_*.go, feat_*.go, unlock_cond_*.go")],["StorageScore, MinDeposit, CoversMinDeposit"])
p("P24","Work score and block cost follow the work rules",
 "The work score of every block equals the sum the work parameters assign to its parts, with no wrap-around (overflow is an error), is never lower for a block with strictly more parts and never above the maximum block work computed from the same parameters; the mana cost of a block is its work score times the reference mana cost, with overflow reported.",
 ["inputs","configurations"],"blocks over the payload/output/feature/unlock space times parameter sets in which every factor is distinct or near overflow; products of boundary costs and scores",
 "Golden numbers for a few blocks only.",
 ["workscore.go","block.go","mana.go","signed_transaction.go","transaction.go","output.go"],[("work score","WorkScore methods"),("mana cost","mana.go:ManaCost"),("maximum block work","workscore.go:MaxBlockWork")],["Block.WorkScore, Block.ManaCost, WorkScoreParameters.MaxBlockWork"])
p("P25","Protocol version switches atomically at its epoch",
 "For every history of adding parameters, scheduling versions and advancing the committed slot, the API returned for a slot, epoch, time or version is the one scheduled for it, unknown versions are errors, the latest API is that of the newest known parameters, the committed API is the one in force at the committed slot, parameters added again replace the earlier ones everywhere, the versions-and-parameters hash covers exactly the scheduled versions, and this holds for every interleaving of concurrent callers as if the calls happened one at a time.",
 ["histories","schedules"],"all operation histories up to a depth over 3 versions and small epochs; all interleavings of 2-3 threads up to a preemption bound on the real provider",
 "Unit tests run one history and no concurrency.",
 ["api_epoch_based_provider.go","api_protocol_epoch_versions.go","api_single_version_provider.go","api_provider.go"],[("provider","api_epoch_based_provider.go"),("epoch versions","api_protocol_epoch_versions.go")],["EpochBasedProvider methods"],
 [("latest/current API, past versions","what the provider caches","api_epoch_based_provider.go")])
p("P26","Basic value arithmetic never wraps silently",
 "Arithmetic on token, mana and work amounts exposed by the library (sums over outputs, inputs, allotments and rewards, products, native token sums, parameter sanity checks) either returns the mathematically exact result or reports an error.",
 ["inputs"],"all pairs from a boundary alphabet of 64-bit (and 32-bit) values for every exposed checked operation",
 "Tests sample a few values.",
 ["mana.go","api_v3_protocol_parameters.go","vm/vm.go","output.go","allotment.go","workscore.go"],[("checked arithmetic","hive.go core/safemath uses"),("Outputs/allotment sums","output.go, mana.go")],["vm.TotalManaIn, vm.TotalManaOut, WorkScore.Add/Multiply, ManaCost, NativeTokenSum, PotentialMana, TargetReward, transaction validation"])
p("P27","Inclusion proofs hold exactly for committed members",
 "A Merkle proof generated for a member of an ordered list verifies against that list's root for every list size and position, and no proof verifies for a value that is not in the list, for another root, or after any part of it is altered; the root is the specified hash tree. An output proof made from a transaction verifies and yields that output's identifier, and does not verify for any other output or transaction commitment.",
 ["inputs"],"all list sizes up to 40 (quick) with every position, all single-node and single-byte alterations of proofs, duplicate values; output proofs for every output index of small transactions",
 "Tests pick one index per size and no negative space.",
 ["merklehasher/merkle_hasher.go","merklehasher/merkle_proof.go","output_id_proof.go","commitment_roots.go"],[("proof construction","merkle_proof.go"),("output id proof","output_id_proof.go")],["Hasher.Hash, ComputeProof, Proof.Hash/Contains, OutputIDProof.OutputID"])
p("P28","Address text forms are unambiguous and error-detecting",
 "Every address renders to one Bech32 string that parses back to the same address and network prefix; strings with any up to two-character error, mixed case, wrong length, non-canonical padding or a non-ASCII look-alike are rejected, and no two different accepted lower-case strings denote the same address.",
 ["inputs"],"all address kinds with boundary contents; all single substitutions/insertions/deletions/transpositions and all double substitutions (thorough) over the charset and hostile characters",
 "Tests use the BIP vectors and a few mutations.",
 ["bech32/bech32.go","bech32/checksum.go","bech32/internal","address.go","address_restricted.go","address_multi_reference.go"],[("bech32 codec","bech32/"),("address parsing","address.go:ParseBech32")],["bech32.Encode/Decode, Address.Bech32, ParseBech32"])
p("P29","The transaction builder yields the requested, unlocked and balanced transaction",
 "Whatever inputs, outputs, context inputs, allotments and options it is given, the transaction builder either reports an error or returns a signed transaction with exactly those contents (context inputs and allotments in protocol order) whose unlocks prove the ownership of every input, so that validation accepts it whenever it accepts any correctly signed transaction with the same contents; it succeeds whenever the signer holds the owner of each input or the owning account, anchor or NFT was unlocked by an earlier input. Mana stored or allotted on request (all remaining mana to an output, an account or the block issuer) is exactly what is left of the inputs' decayed stored and potential mana plus rewards at the target slot: nothing is lost or created, mana bound to an account goes only to that account, and a sum that does not fit or is not covered is an error. Later calls on the builder or its clones never alter a transaction already built.",
 ["inputs","histories"],"all call sequences up to a depth over small menus of inputs, outputs, allotment and mana-assignment options",
 "Tests build a few typical transactions.",
 ["builder/transaction_builder.go","builder/block_builder.go"],[("builder","builder/transaction_builder.go"),("available mana calculation","builder/transaction_builder.go:CalculateAvailableManaInputs")],["TransactionBuilder.Build then VM validation"])
p("P30","Output and block builders produce what was asked for",
 "For every sequence of builder calls on a new builder or one started from an existing output, Build either fails with an error or returns an output or block with exactly the requested fields and features, in protocol order, and the untouched ones of the object it started from; it fails exactly for forbidden combinations (changed immutable features, a state and a governance transition of an anchor at once, a foundry counter overflow, failed signing or a mana cost that does not fit). Building an anchor whose state changed raises its state index by exactly one. Signing covers the block as it then is. Later builder calls, or changes to a built object, never alter an already built object, the source object or the caller's arguments.",
 ["histories"],"all builder call sequences up to depth 3-4 for every builder from fresh and from existing outputs",
 "Tests run one call chain each.",
 ["builder/output_builder_basic.go","builder/output_builder_account.go","builder/output_builder_anchor.go","builder/output_builder_foundry.go","builder/output_builder_nft.go","builder/output_builder_delegation.go","builder/block_builder.go"],[("builders","builder/output_builder_*.go")],["builder Build results"])
p("P31","Clones are equal but fully independent; equality is exact",
 "Cloning any protocol object gives an equal object, and no later change to either is ever visible in the other; equality of addresses, unlock conditions, features, token schemes, outputs and protocol parameters is true exactly when their encodings are equal.",
 ["inputs"],"all objects of the encoding space; every mutable location reachable from a clone; all ordered pairs of small object families for equality",
 "Tests clone a few objects and compare once.",
 ["output.go","address_multi.go","feat_blockissuer.go","unlock_multi.go","output_delegation.go","transaction.go"],[("Clone/Equal methods","all types")],["Clone and Equal methods"])
p("P32","Node client requests, paging and events are faithful and lose nothing",
 "Every method of the node, indexer, management, block issuer and event clients sends exactly the documented request (method, path, query, headers, body) once and returns exactly what the node answered; an error status is returned as the matching error with the node's message, and a broken connection, a truncated, incomplete, malformed or missing reply is an error, never a panic, a partial or an empty result. Walking an indexer query (or all validators) returns every item exactly once in order across all pages, empty ones included, with the caller's filters unchanged on every page, stops at the end, and reports a failing page. Event subscriptions listen to the right topic and deliver every event in order; broken events are reported and do not stop later ones. Payloads go to the block issuer with the commitment and a nonce that satisfies the asked proof of work.",
 ["fault_sequences","inputs"],"every method x every status and body fault, every truncation and missing field of a reply; every distribution of up to 5-7 items over pages x fault x page; event sequences; every plugin set",
 "Tests use one canned reply per method and one page per query.",
 ["nodeclient/indexer_client.go","nodeclient/http_api_client.go","nodeclient/http.go","nodeclient/event_api_client.go","nodeclient/blockissuer_client.go","nodeclient/management_client.go"],[("cursor loop","nodeclient/indexer_client.go: IndexerResultSet.Next"),("reply decoding","nodeclient/http.go: interpretBody")],["indexer result set iteration"])
p("P33","A client never hands back an output that does not match its ID",
 "When fetching an output by identifier, the client returns it only if the supplied inclusion proof ties exactly this output to exactly the requested identifier; any altered, swapped or truncated output or proof, any status other than 200 or 201 and any other body yields an error, never a wrong output and never a crash (bytes after a complete reply are ignored).",
 ["fault_sequences","inputs"],"every response alteration (byte flips at every position, swaps between outputs of a transaction, truncation, wrong content types, every status class) for a family of transactions",
 "Tests use one good response.",
 ["nodeclient/http_api_client.go","nodeclient/http.go","output_id_proof.go","api/core.go"],[("output fetch verification","nodeclient/http_api_client.go:OutputByID / OutputWithMetadataByID")],["Client.OutputByID, OutputWithMetadataByID"])
p("P34","Key derivation and signing are deterministic and isolated",
 "The same seed or mnemonic and path always gives the same key and address (SLIP-10 and BIP-39), whatever else the manager is used for, different indices (below 2^31) give different keys, a manager made from a mnemonic or from random entropy reports the mnemonic that restores it, a signer signs for exactly the addresses whose keys it holds and fails for others, and signatures it makes verify for the address and message and for no other.",
 ["inputs"],"product of seeds, account indices, address indices and change flags; all subsets of keys times all address kinds",
 "Tests check few derivations.",
 ["wallet/keymanager.go","wallet/account.go","address_signer.go","signature_ed25519.go"],[("key manager","wallet/keymanager.go"),("signer","address_signer.go")],["KeyManager, InMemoryAddressSigner"])
p("P35","Text and byte forms of identifiers parse strictly",
 "Every identifier, hash, index and number rendered as hex, decimal or bytes parses back to itself, and text or bytes of the wrong length, prefix, alphabet or range are rejected with an error, never truncated, padded or crashing.",
 ["inputs"],"every identifier kind over boundary contents; every length 0..2x the size, every missing/odd/odd-case prefix, non-hex characters in every position",
 "Tests check a few positive round-trips.",
 ["hexutil/numbers.go","identifier.gen.go","output_id.go","block_id.gen.go","slot_index.gen.go","epoch_index.gen.go","gen"],[("generated parsers","gen/*.tmpl and *.gen.go")],["FromHexString, FromBytes, hexutil"])
p("P36","Ledger invariants survive every history of accepted transactions",
 "Starting from a valid ledger and applying any sequence of transactions the virtual machine accepts, total base tokens stay constant, each native token's circulation equals its foundry's minted minus melted amount plus permitted burns, total mana never exceeds what decay and generation allow, and every account, anchor, NFT, delegation and foundry exists in at most one unspent output.",
 ["histories"],"breadth-first exploration of all ledger states reachable by up to N transactions from a menu that includes dishonest variants of each step",
 "Tests validate isolated transactions; these are inductive invariants over histories.",
 [V,VM],[("all VM rules composed","vm/nova/vm.go:Execute")],["ledger state after accepted transactions"])
p("P37","Validation is deterministic and side-effect free",
 "Validating, encoding, identifying or sizing a protocol object never modifies it or its inputs and gives the same answer on every repetition and in every interleaving of concurrent readers.",
 ["schedules","inputs"],"the transaction, block and output spaces, each evaluated twice with a deep comparison of all inputs before and after; concurrent readers of the same object in all interleavings at call granularity plus a race-detector pass",
 "Tests call validation once and never compare the inputs afterwards.",
 [V,VM,"transaction.go","block.go","signed_transaction.go"],[("working set construction","vm/vm.go: NewVMParamsWorkingSet"),("lazy caches","ID and set accessors")],["Execute, Encode, ID, Size"])
p("P38","Proof-of-work mining finds valid nonces and always ends",
 "Mining with any number of workers ends with a nonce whose hash over the data's digest has at least the requested number of trailing zeros, or - only if it was cancelled - with the cancellation error; a cancelled search stops soon, and a target that no hash can meet is refused at once. It never deadlocks, leaks a worker goroutine or returns a nonce together with an error.",
 ["schedules","inputs"],"all interleavings up to a preemption bound of 1-3 workers, the caller and a canceller on the real worker code; all target difficulties up to the limit and beyond on short inputs",
 "The test runs one lucky schedule with one cancellation.",
 ["blockissuer/pow/worker.go","blockissuer/pow/pow.go"],[("worker","blockissuer/pow/worker.go:Mine/worker"),("difficulty","blockissuer/pow/pow.go:TrailingZeros")],["Worker.Mine result"])
p("P39","Protocol parameters are built consistent or refused",
 "Snapshot protocol parameters carry exactly the options asked for, in whatever order they are given, and derived values (decay table, decay sum, bootstrapping duration, target rewards rates) that follow from them up to floating point precision; they survive encoding. Building them is refused exactly when they are inconsistent: liveness bounds out of order or not within the minimum committable age, committable ages, epoch nearing threshold and epoch length not strictly increasing, congestion thresholds out of order or above what can be scheduled in a slot, token supply bits and pool coefficient exponent above 64 together, more than 32 validation blocks per slot, no decay of mana, a mana supply that may outgrow its bits, or a derived value that does not fit its type.",
 ["inputs"],"boundary alphabets of every option around each constraint, every option in every order",
 "The tests build a handful of valid parameter sets and never an inconsistent one.",
 ["api_v3_protocol_parameters.go","api_protocol_parameters.go"],[("constructor","api_v3_protocol_parameters.go:NewV3SnapshotProtocolParameters"),("checks","api_v3_protocol_parameters.go:timeSanityCheck/congestionControlSanityCheck/stakingSanityCheck/manaSupplySanityCheck")],["NewV3SnapshotProtocolParameters result"])
import sys
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
