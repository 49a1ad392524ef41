From 28da03d87e9ae4255bdd10dcc78438592197fbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 01/60] fix: cloning a multi address must not panic

---
 address_multi.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/address_multi.go b/address_multi.go
index 9a9a3d1..a2a7a10 100644
--- a/address_multi.go
+++ b/address_multi.go
@@ -65,6 +65,7 @@ func (addr *MultiAddress) Clone() Address {
 		Threshold: addr.Threshold,
 	}
 
+	cpy.Addresses = cpy.Addresses[:len(addr.Addresses)]
 	for i, address := range addr.Addresses {
 		cpy.Addresses[i] = &AddressWithWeight{
 			Address: address.Address.Clone(),
-- 
2.43.0


From 9f5fab10f6967dbcb97053954a6c74395c863f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 02/60] fix: BlockIssuerKeyFromBytes must decode into the
 returned key

---
 block_issuer_key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block_issuer_key.go b/block_issuer_key.go
index 7f6a39e..45cfad5 100644
--- a/block_issuer_key.go
+++ b/block_issuer_key.go
@@ -177,7 +177,7 @@ func BlockIssuerKeyFromReader(reader io.ReadSeeker) (BlockIssuerKey, error) {
 func BlockIssuerKeyFromBytes(bytes []byte) (BlockIssuerKey, int, error) {
 	var blockIssuerKey BlockIssuerKey
 
-	n, err := CommonSerixAPI().Decode(context.TODO(), bytes, blockIssuerKey)
+	n, err := CommonSerixAPI().Decode(context.TODO(), bytes, &blockIssuerKey)
 	if err != nil {
 		return nil, 0, ierrors.Wrap(err, "unable to decode block issuer key")
 	}
-- 
2.43.0


From b7f667eb458bba02d6aa7b3da46c821b011f45a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 03/60] fix: reject hex output IDs of the wrong length instead
 of panicking or padding

---
 output_id.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/output_id.go b/output_id.go
index 2677f9d..59510d0 100644
--- a/output_id.go
+++ b/output_id.go
@@ -85,6 +85,9 @@ func (oih OutputIDHex) SplitParts() (*TransactionID, uint16, error) {
 	if err != nil {
 		return nil, 0, err
 	}
+	if err := IsValidOutputID(outputIDBytes); err != nil {
+		return nil, 0, err
+	}
 	var txID TransactionID
 	copy(txID[:], outputIDBytes[:TransactionIDLength])
 	outputIndex := binary.LittleEndian.Uint16(outputIDBytes[TransactionIDLength : TransactionIDLength+serializer.UInt16ByteSize])
@@ -139,6 +142,9 @@ func (ids HexOutputIDs) OutputIDs() (OutputIDs, error) {
 		if err != nil {
 			return nil, err
 		}
+		if err := IsValidOutputID(val); err != nil {
+			return nil, err
+		}
 		copy(vals[i][:], val)
 	}
 
-- 
2.43.0


From 428af6b9c01c64de6571631cec02aaeedc66852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 04/60] fix: bech32 decoding must reject non-ASCII characters
 that lower-case into the charset

---
 bech32/bech32.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bech32/bech32.go b/bech32/bech32.go
index c6faca6..56a34fc 100644
--- a/bech32/bech32.go
+++ b/bech32/bech32.go
@@ -82,6 +82,12 @@ func Decode(s string) (string, []byte, error) {
 			return "", nil, &SyntaxError{ierrors.WithMessage(ErrInvalidCharacter, "non US-ASCII character in human-readable part"), i}
 		}
 	}
+	// validate that the data part is US-ASCII, as other characters may map to the charset when converted to lower case
+	for i := hrpLen; i < len(s); i++ {
+		if s[i] > 126 {
+			return "", nil, &SyntaxError{ierrors.WithMessage(ErrInvalidCharacter, "non-charset character in data part"), i}
+		}
+	}
 	// validate that the case of the entire string is consistent
 	if err := validateCase(s); err != nil {
 		return "", nil, err
-- 
2.43.0


From 35eb8d2acd4fa043bc883a31da58f9a498fb055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 05/60] fix: EpochBasedProvider.ProtocolEpochVersions must hold
 the read lock

---
 api_epoch_based_provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api_epoch_based_provider.go b/api_epoch_based_provider.go
index 356f7ba..892ec7f 100644
--- a/api_epoch_based_provider.go
+++ b/api_epoch_based_provider.go
@@ -217,6 +217,9 @@ func (e *EpochBasedProvider) ProtocolParametersHash(version Version) Identifier
 }
 
 func (e *EpochBasedProvider) ProtocolEpochVersions() []ProtocolEpochVersion {
+	e.mutex.RLock()
+	defer e.mutex.RUnlock()
+
 	return e.protocolVersions.Slice()
 }
 
-- 
2.43.0


From 874248ff99b4a1faa4f63ed59678febcff484e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:00 +0000
Subject: [PATCH 06/60] fix: foundry creation alongside an implicit account
 conversion must fail instead of panicking

---
 vm/nova/vm.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vm/nova/vm.go b/vm/nova/vm.go
index 9f41510..5a00603 100644
--- a/vm/nova/vm.go
+++ b/vm/nova/vm.go
@@ -801,6 +801,13 @@ func foundryGenesisValid(vmParams *vm.Params, current *iotago.FoundryOutput, thi
 		)
 	}
 
+	// the account chain might only be created by the conversion of an implicit account in this transaction
+	if _, isAccount := inAccount.Output.(*iotago.AccountOutput); !isAccount {
+		return ierrors.WithMessagef(iotago.ErrFoundryTransitionWithoutAccount,
+			"input account %s for new foundry output %s is not an account output", accountID, thisFoundryID.ToHex(),
+		)
+	}
+
 	outAccount, ok := vmParams.WorkingSet.OutChains[accountID]
 	if !ok {
 		return ierrors.WithMessagef(iotago.ErrFoundryTransitionWithoutAccount,
-- 
2.43.0


From 91e4ab47ea1da1bb58840cbf8b7d043b4d949d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 07/60] fix: reject non-zero foundry counter when converting an
 implicit account

---
 vm/nova/vm.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vm/nova/vm.go b/vm/nova/vm.go
index 5a00603..b3b22f9 100644
--- a/vm/nova/vm.go
+++ b/vm/nova/vm.go
@@ -236,6 +236,11 @@ func implicitAccountSTVF(vmParams *vm.Params, implicitAccount *vm.ImplicitAccoun
 		return err
 	}
 
+	// An implicit account cannot have created any foundries yet and foundries cannot be created when it is converted.
+	if next.FoundryCounter != 0 {
+		return ierrors.WithMessagef(iotago.ErrAccountInvalidFoundryCounter, "foundry counter of a converted implicit account must be 0, got %d", next.FoundryCounter)
+	}
+
 	return accountGenesisValid(vmParams, next, false)
 }
 
-- 
2.43.0


From 300d3e17ac438532f8b5c57ce323eac2687e51b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 08/60] fix: do not write to the strong parents' backing array
 when validating a block

---
 block.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/block.go b/block.go
index b98835c..3c422eb 100644
--- a/block.go
+++ b/block.go
@@ -293,7 +293,8 @@ func (b *Block) syntacticallyValidate() error {
 	block := b.Body
 	if len(block.WeakParentIDs()) > 0 {
 		// weak parents must be disjunct to the rest of the parents
-		nonWeakParents := lo.KeyOnlyBy(append(block.StrongParentIDs(), block.ShallowLikeParentIDs()...), func(v BlockID) BlockID {
+		// copy the parents, so that the append does not write to the backing array of the strong parents.
+		nonWeakParents := lo.KeyOnlyBy(append(append(BlockIDs{}, block.StrongParentIDs()...), block.ShallowLikeParentIDs()...), func(v BlockID) BlockID {
 			return v
 		})
 
-- 
2.43.0


From bf8d047733fbe4c9c079431cdf6d818dad5319d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 09/60] fix: exempt commitment inputs to a non-zero genesis
 slot from the too-recent check

---
 block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block.go b/block.go
index 3c422eb..0a21557 100644
--- a/block.go
+++ b/block.go
@@ -427,7 +427,7 @@ func (b *BasicBlockBody) syntacticallyValidate(block *Block) error {
 		if cInput := signedTransaction.Transaction.CommitmentInput(); cInput != nil {
 			cInputSlot := cInput.CommitmentID.Slot()
 			// check that commitment input is not too recent.
-			if cInputSlot > 0 && // Don't filter commitments to genesis based on being too recent.
+			if cInputSlot > block.API.ProtocolParameters().GenesisSlot() && // Don't filter commitments to genesis based on being too recent.
 				blockSlot < cInputSlot+minCommittableAge { // filter commitments to future slots.
 				return ierrors.WithMessagef(ErrCommitmentInputTooRecent, "block at slot %d with commitment input to slot %d, min committable age %d", blockSlot, cInput.CommitmentID.Slot(), minCommittableAge)
 			}
-- 
2.43.0


From 73a2d7d287a24c5cefe6eeac3a0304f3dbad61b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:47 +0000
Subject: [PATCH 10/60] fix: apply the metadata size limit to immutable
 metadata features

---
 output.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/output.go b/output.go
index 3da1543..79eec6c 100644
--- a/output.go
+++ b/output.go
@@ -874,6 +874,15 @@ func OutputsSyntacticalMetadataFeatureMaxSize() ElementValidationFunc[Output] {
 			}
 		}
 
+		if chainOutput, is := output.(ChainOutputImmutable); is {
+			if immutableMetadataFeat := chainOutput.ImmutableFeatureSet().Metadata(); immutableMetadataFeat != nil {
+				mapSize := immutableMetadataFeat.mapSize()
+				if err := checkMaxSize(index, immutableMetadataFeat.Type(), mapSize); err != nil {
+					return ierrors.WithMessagef(err, "output %d", index)
+				}
+			}
+		}
+
 		return nil
 	}
 }
-- 
2.43.0


From 699bd5c51b8b046acbd448add4740cfca837b9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 11/60] fix: an anchor's state index must not wrap around to
 zero on a state transition

---
 output_anchor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/output_anchor.go b/output_anchor.go
index 773c5b2..5f097fa 100644
--- a/output_anchor.go
+++ b/output_anchor.go
@@ -141,7 +141,7 @@ func (a *AnchorOutput) Owner(nextState OwnerTransitionDependentOutput) (Address,
 	switch {
 	case a.StateIndex == otherAnchorOutput.StateIndex:
 		return a.GovernorAddress(), nil
-	case a.StateIndex+1 == otherAnchorOutput.StateIndex:
+	case a.StateIndex < otherAnchorOutput.StateIndex && a.StateIndex+1 == otherAnchorOutput.StateIndex:
 		return a.StateController(), nil
 	default:
 		return nil, ierrors.WithMessage(ErrOwnerTransitionDependentOutputNextInvalid, "can not compute right owner for anchor output as state index delta is invalid")
-- 
2.43.0


From e2ea4be5db1cecb134953cfc648fa7dacac7c0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 12/60] fix: slot commitments near the last slot must not wrap
 around the committable age checks of a block

---
 block.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/block.go b/block.go
index 0a21557..27e47f9 100644
--- a/block.go
+++ b/block.go
@@ -314,12 +314,12 @@ func (b *Block) syntacticallyValidate() error {
 
 	// check that commitment is not too recent.
 	if commitmentSlot > genesisSlot && // Don't filter commitments to genesis based on being too recent.
-		blockSlot < commitmentSlot+minCommittableAge {
+		(blockSlot < commitmentSlot || blockSlot-commitmentSlot < minCommittableAge) {
 		return ierrors.WithMessagef(ErrCommitmentTooRecent, "block at slot %d committing to slot %d, min committable age %d", blockSlot, b.Header.SlotCommitmentID.Slot(), minCommittableAge)
 	}
 
 	// Check that commitment is not too old.
-	if blockSlot > commitmentSlot+maxCommittableAge {
+	if blockSlot > commitmentSlot && blockSlot-commitmentSlot > maxCommittableAge {
 		return ierrors.WithMessagef(ErrCommitmentTooOld, "block at slot %d committing to slot %d, max committable age %d", blockSlot, b.Header.SlotCommitmentID.Slot(), maxCommittableAge)
 	}
 
@@ -428,11 +428,11 @@ func (b *BasicBlockBody) syntacticallyValidate(block *Block) error {
 			cInputSlot := cInput.CommitmentID.Slot()
 			// check that commitment input is not too recent.
 			if cInputSlot > block.API.ProtocolParameters().GenesisSlot() && // Don't filter commitments to genesis based on being too recent.
-				blockSlot < cInputSlot+minCommittableAge { // filter commitments to future slots.
+				(blockSlot < cInputSlot || blockSlot-cInputSlot < minCommittableAge) { // filter commitments to future slots.
 				return ierrors.WithMessagef(ErrCommitmentInputTooRecent, "block at slot %d with commitment input to slot %d, min committable age %d", blockSlot, cInput.CommitmentID.Slot(), minCommittableAge)
 			}
 			// Check that commitment input is not too old.
-			if blockSlot > cInputSlot+maxCommittableAge {
+			if blockSlot > cInputSlot && blockSlot-cInputSlot > maxCommittableAge {
 				return ierrors.WithMessagef(ErrCommitmentInputTooOld, "block at slot %d with commitment input to slot %d, max committable age %d", blockSlot, cInput.CommitmentID.Slot(), maxCommittableAge)
 			}
 
-- 
2.43.0


From 774c9826a1f56a30a107434fcf6a4e3301885ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 13/60] fix: count the payload length prefix in the size of a
 transaction essence with a payload

---
 transaction_essence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction_essence.go b/transaction_essence.go
index d8dbc80..657a552 100644
--- a/transaction_essence.go
+++ b/transaction_essence.go
@@ -69,7 +69,7 @@ func (u *TransactionEssence) Clone() *TransactionEssence {
 func (u *TransactionEssence) Size() int {
 	payloadSize := serializer.PayloadLengthByteSize
 	if u.Payload != nil {
-		payloadSize = u.Payload.Size()
+		payloadSize += u.Payload.Size()
 	}
 
 	// NetworkID
-- 
2.43.0


From fab147a9b4bc920aca8e0c3b68a7b7910a64c96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:53 +0000
Subject: [PATCH 14/60] fix: mana generation must not overflow silently in its
 fixed point multiplication

---
 mana_decay_provider.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/mana_decay_provider.go b/mana_decay_provider.go
index ea66b3a..45745f2 100644
--- a/mana_decay_provider.go
+++ b/mana_decay_provider.go
@@ -1,6 +1,8 @@
 package iotago
 
 import (
+	"math/bits"
+
 	"github.com/iotaledger/hive.go/core/safemath"
 	"github.com/iotaledger/hive.go/ierrors"
 	"github.com/iotaledger/hive.go/lo"
@@ -43,20 +45,19 @@ func fixedPointMultiplication32Splitted(valueHi uint64, valueLo uint64, factor u
 }
 
 // fixedPointMultiplication32 does a fixed point multiplication.
+// The product is computed with 128 bits, and an error is returned if the scaled result does not fit into 64 bits.
 func fixedPointMultiplication32(value uint64, factor uint64, scale uint64) (uint64, error) {
-	var remainingScale uint64
-	if scale > 32 {
-		remainingScale = scale - 32
-		scale = 32
+	productHi, productLo := bits.Mul64(value, factor)
+
+	if scale >= 64 {
+		return productHi >> (scale - 64), nil
 	}
-	valueHi, valueLo := splitUint64(value)
 
-	resultHi, resultLo, err := fixedPointMultiplication32Splitted(valueHi, valueLo, factor, scale)
-	if err != nil {
-		return 0, err
+	if productHi>>scale != 0 {
+		return 0, ierrors.Wrapf(safemath.ErrIntegerOverflow, "fixed point multiplication of %d by %d with scaling factor %d", value, factor, scale)
 	}
 
-	return mergeUint64(resultHi, resultLo) >> remainingScale, nil
+	return productHi<<(64-scale) | productLo>>scale, nil
 }
 
 // ManaDecayProvider calculates the mana decay and mana generation
-- 
2.43.0


From b9fabf6bd9c966577fa2abf94f3fc4291b227848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:40 +0000
Subject: [PATCH 15/60] fix: outputs without unlock conditions in JSON crashed
 or passed validation

The unlock conditions of every output were marked omitempty, so JSON without the
field skipped the minimum count and mandatory condition rules.
---
 output_account.go    | 2 +-
 output_anchor.go     | 2 +-
 output_basic.go      | 2 +-
 output_delegation.go | 2 +-
 output_foundry.go    | 2 +-
 output_nft.go        | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/output_account.go b/output_account.go
index aa169c3..441d78b 100644
--- a/output_account.go
+++ b/output_account.go
@@ -36,7 +36,7 @@ type AccountOutput struct {
 	// The counter that denotes the number of foundries created by this account.
 	FoundryCounter uint32 `serix:""`
 	// The unlock conditions on this output.
-	UnlockConditions AccountOutputUnlockConditions `serix:",omitempty"`
+	UnlockConditions AccountOutputUnlockConditions `serix:""`
 	// The features on the output.
 	Features AccountOutputFeatures `serix:",omitempty"`
 	// The immutable feature on the output.
diff --git a/output_anchor.go b/output_anchor.go
index 5f097fa..05ed502 100644
--- a/output_anchor.go
+++ b/output_anchor.go
@@ -34,7 +34,7 @@ type AnchorOutput struct {
 	// The index of the state.
 	StateIndex uint32 `serix:""`
 	// The unlock conditions on this output.
-	UnlockConditions AnchorOutputUnlockConditions `serix:",omitempty"`
+	UnlockConditions AnchorOutputUnlockConditions `serix:""`
 	// The features on the output.
 	Features AnchorOutputFeatures `serix:",omitempty"`
 	// The immutable feature on the output.
diff --git a/output_basic.go b/output_basic.go
index 67dc592..a9b8f04 100644
--- a/output_basic.go
+++ b/output_basic.go
@@ -21,7 +21,7 @@ type BasicOutput struct {
 	// The stored mana held by the output.
 	Mana Mana `serix:""`
 	// The unlock conditions on this output.
-	UnlockConditions BasicOutputUnlockConditions `serix:",omitempty"`
+	UnlockConditions BasicOutputUnlockConditions `serix:""`
 	// The features on the output.
 	Features BasicOutputFeatures `serix:",omitempty"`
 }
diff --git a/output_delegation.go b/output_delegation.go
index 3d85146..ec92da9 100644
--- a/output_delegation.go
+++ b/output_delegation.go
@@ -108,7 +108,7 @@ type DelegationOutput struct {
 	// The index of the last epoch for which this output delegates.
 	EndEpoch EpochIndex `serix:""`
 	// The unlock conditions on this output.
-	UnlockConditions DelegationOutputUnlockConditions `serix:",omitempty"`
+	UnlockConditions DelegationOutputUnlockConditions `serix:""`
 }
 
 func (d *DelegationOutput) Clone() Output {
diff --git a/output_foundry.go b/output_foundry.go
index 40ed21a..b03eb7a 100644
--- a/output_foundry.go
+++ b/output_foundry.go
@@ -115,7 +115,7 @@ type FoundryOutput struct {
 	// The token scheme this foundry uses.
 	TokenScheme TokenScheme `serix:""`
 	// The unlock conditions on this output.
-	UnlockConditions FoundryOutputUnlockConditions `serix:",omitempty"`
+	UnlockConditions FoundryOutputUnlockConditions `serix:""`
 	// The feature on the output.
 	Features FoundryOutputFeatures `serix:",omitempty"`
 	// The immutable feature on the output.
diff --git a/output_nft.go b/output_nft.go
index fe508b7..b87e257 100644
--- a/output_nft.go
+++ b/output_nft.go
@@ -91,7 +91,7 @@ type NFTOutput struct {
 	// The identifier of this NFT.
 	NFTID NFTID `serix:""`
 	// The unlock conditions on this output.
-	UnlockConditions NFTOutputUnlockConditions `serix:",omitempty"`
+	UnlockConditions NFTOutputUnlockConditions `serix:""`
 	// The feature on the output.
 	Features NFTOutputFeatures `serix:",omitempty"`
 	// The immutable feature on the output.
-- 
2.43.0


From 666a948952505e6eb4499277446dc777acafdd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:36 +0000
Subject: [PATCH 16/60] fix: decoding a truncated Ed25519 signature panicked or
 read past its end

---
 signature_ed25519.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signature_ed25519.go b/signature_ed25519.go
index 6c2e492..3e8c6a5 100644
--- a/signature_ed25519.go
+++ b/signature_ed25519.go
@@ -38,6 +38,10 @@ func (e *Ed25519Signature) Clone() Signature {
 }
 
 func (e *Ed25519Signature) Decode(b []byte) (int, error) {
+	if len(b) < Ed25519SignatureSerializedBytesSize-serializer.SmallTypeDenotationByteSize {
+		return 0, ierrors.Wrapf(serializer.ErrDeserializationNotEnoughData, "%d bytes are too short for an Ed25519 signature", len(b))
+	}
+
 	copy(e.PublicKey[:], b[:ed25519.PublicKeySize])
 	copy(e.Signature[:], b[ed25519.PublicKeySize:])
 
-- 
2.43.0


From cc206b6e878a68083ee687f7892a06f6167f810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 17/60] fix: an attestation with the empty public key must not
 verify, as its block does not

---
 attestation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/attestation.go b/attestation.go
index bf194e5..5d3c5fc 100644
--- a/attestation.go
+++ b/attestation.go
@@ -3,6 +3,7 @@ package iotago
 import (
 	"bytes"
 	"context"
+	"crypto/ed25519"
 
 	hiveEd25519 "github.com/iotaledger/hive.go/crypto/ed25519"
 	"github.com/iotaledger/hive.go/ierrors"
@@ -111,6 +112,10 @@ func (a *Attestation) VerifySignature() (valid bool, err error) {
 		return false, ierrors.Errorf("only ed2519 signatures supported, got %s", a.Signature.Type())
 	}
 
+	if edSig.PublicKey == [ed25519.PublicKeySize]byte{} {
+		return false, ierrors.New("ed25519 public key must not be empty")
+	}
+
 	return hiveEd25519.Verify(edSig.PublicKey[:], signingMessage, edSig.Signature[:]), nil
 }
 
-- 
2.43.0


From 2eed9e23a621df1a00577c0241d48f4a5285194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 18/60] fix: refuse storage score parameters under which a
 storage score could wrap around

---
 storagescore.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/storagescore.go b/storagescore.go
index 5b5662b..f0ff21c 100644
--- a/storagescore.go
+++ b/storagescore.go
@@ -84,8 +84,40 @@ func (r *StorageScoreStructure) OffsetDelegation() StorageScore {
 	return r.StorageScoreParameters.OffsetDelegation
 }
 
+// maxStorageScore returns an overestimation of the storage score any output can have under these parameters.
+// It returns an error if the storage score of an output might not be representable.
+func (r *StorageScoreParameters) maxStorageScore() (StorageScore, error) {
+	const (
+		// an upper bound for the number of addresses in an output that carry their own storage score.
+		maxAddressesCount = 8
+		// the metadata of an output, the largest possible output and the data part of the offset
+		// for implicit account creation addresses, which is less than the size of the metadata.
+		maxDataBytes = MaxPayloadSize + (maxAddressesCount+1)*(OutputIDLength+BlockIDLength+SlotIndexLength)
+	)
+
+	// each implicit account creation address accounts for one block issuer key.
+	maxKeys, err := safemath.SafeMul(r.OffsetEd25519BlockIssuerKey, StorageScore(MaxBlockIssuerKeysCount+maxAddressesCount))
+	if err != nil {
+		return 0, err
+	}
+
+	maxScore := r.FactorData.Multiply(maxDataBytes)
+	for _, offset := range []StorageScore{maxKeys, r.OffsetOutputOverhead, r.OffsetStakingFeature, r.OffsetDelegation} {
+		maxScore, err = safemath.SafeAdd(maxScore, offset)
+		if err != nil {
+			return 0, err
+		}
+	}
+
+	return maxScore, nil
+}
+
 // NewStorageScoreStructure creates a new StorageScoreStructure.
+// It panics if the storage score of an output could overflow under the given parameters.
 func NewStorageScoreStructure(storageScoreParameters *StorageScoreParameters) *StorageScoreStructure {
+	// make sure that the sums which make up the storage score of an output never overflow.
+	_ = lo.PanicOnErr(storageScoreParameters.maxStorageScore())
+
 	// create a dummy account with a block issuer feature to calculate the storage score.
 	dummyAccountOutput := &AccountOutput{
 		Amount:         0,
-- 
2.43.0


From 84631ff347ef947fe4827ed2ea2d69e8713779c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 19/60] fix: multiplying a work score with a factor outside of
 its range is an error

---
 workscore.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/workscore.go b/workscore.go
index e800728..2862017 100644
--- a/workscore.go
+++ b/workscore.go
@@ -1,6 +1,8 @@
 package iotago
 
 import (
+	"math"
+
 	"github.com/iotaledger/hive.go/core/safemath"
 	"github.com/iotaledger/hive.go/ierrors"
 )
@@ -25,6 +27,10 @@ func (w WorkScore) Add(in ...WorkScore) (WorkScore, error) {
 
 // Multiply multiplies in with this workscore.
 func (w WorkScore) Multiply(in int) (WorkScore, error) {
+	if in < 0 || uint64(in) > math.MaxUint32 {
+		return 0, ierrors.Errorf("failed to calculate WorkScore: factor %d is out of range", in)
+	}
+
 	result, err := safemath.SafeMul(w, WorkScore(in))
 	if err != nil {
 		return 0, ierrors.Wrap(err, "failed to calculate WorkScore")
-- 
2.43.0


From 1545eef517d28c0699c7b74199e35350b174f9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 20/60] fix: the maximum block work accounts for native token
 features of foundry outputs

---
 workscore.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/workscore.go b/workscore.go
index 2862017..d78fc53 100644
--- a/workscore.go
+++ b/workscore.go
@@ -113,8 +113,9 @@ func (w WorkScoreParameters) MaxBlockWork() (WorkScore, error) {
 	// outputs factor for max number of outputs
 	addWorkScore(w.Output, MaxOutputsCount)
 
-	// native tokens factor for max number of outputs
-	addWorkScore(w.NativeToken, MaxOutputsCount)
+	// native tokens factor for max number of outputs, where a foundry accounts for
+	// its token scheme and additionally for the native token feature it might have
+	addWorkScore(w.NativeToken, 2*MaxOutputsCount)
 
 	// staking factor for max number of outputs each with a staking feature
 	addWorkScore(w.Staking, MaxOutputsCount)
-- 
2.43.0


From a457718bd887889f8114ff4a91ccd0f5ea4691c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 21/60] fix: protocol parameter sanity checks compare against
 exact products

---
 api_v3_protocol_parameters.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index 281bcff..c679324 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -356,7 +356,7 @@ func timeSanityCheck(protocolParams *V3ProtocolParameters) {
 	if protocolParams.LivenessThresholdLowerBoundInSeconds > protocolParams.LivenessThresholdUpperBoundInSeconds {
 		panic("LivenessThresholdLowerBoundInSeconds must be less than or equal to LivenessThresholdUpperBoundInSeconds")
 	}
-	if SlotIndex(protocolParams.LivenessThresholdUpperBoundInSeconds) >= protocolParams.MinCommittableAge()*SlotIndex(protocolParams.SlotDurationInSeconds()) {
+	if uint64(protocolParams.LivenessThresholdUpperBoundInSeconds) >= uint64(protocolParams.MinCommittableAge())*uint64(protocolParams.SlotDurationInSeconds()) {
 		panic("LivenessThresholdUpperBoundInSeconds must be strictly less than MinCommittableAge * SlotDurationInSeconds")
 	}
 	if protocolParams.MinCommittableAge() >= protocolParams.MaxCommittableAge() {
@@ -372,11 +372,13 @@ func timeSanityCheck(protocolParams *V3ProtocolParameters) {
 }
 
 func congestionControlSanityCheck(protocolParams *V3ProtocolParameters) {
-	if protocolParams.CongestionControlParameters().IncreaseThreshold > WorkScore(protocolParams.SlotDurationInSeconds())*protocolParams.CongestionControlParameters().SchedulerRate {
+	// the product does not fit into a WorkScore for high scheduler rates.
+	maxThreshold := uint64(protocolParams.SlotDurationInSeconds()) * uint64(protocolParams.CongestionControlParameters().SchedulerRate)
+	if uint64(protocolParams.CongestionControlParameters().IncreaseThreshold) > maxThreshold {
 		fmt.Printf("IncreaseThreshold: %d, SchedulerRate: %d, SlotDurationSeconds: %d\n", protocolParams.CongestionControlParameters().IncreaseThreshold, protocolParams.CongestionControlParameters().SchedulerRate, protocolParams.SlotDurationInSeconds())
 		panic("IncreaseThreshold must be less than or equal to SchedulerRate*SlotDurationInSeconds")
 	}
-	if protocolParams.CongestionControlParameters().DecreaseThreshold > WorkScore(protocolParams.SlotDurationInSeconds())*protocolParams.CongestionControlParameters().SchedulerRate {
+	if uint64(protocolParams.CongestionControlParameters().DecreaseThreshold) > maxThreshold {
 		panic("DecreaseThreshold must be less than or equal to SchedulerRate*SlotDurationInSeconds")
 	}
 	if protocolParams.CongestionControlParameters().DecreaseThreshold > protocolParams.CongestionControlParameters().IncreaseThreshold {
-- 
2.43.0


From 5f15d66f91bf1e48be5de1a9f650c2017a1a2281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 22/60] fix: the bounded slots of a commitment input must not
 wrap around at the end of the slot range

---
 vm/nova/vm.go |  2 +-
 vm/vm.go      | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/vm/nova/vm.go b/vm/nova/vm.go
index b3b22f9..1b63c44 100644
--- a/vm/nova/vm.go
+++ b/vm/nova/vm.go
@@ -418,7 +418,7 @@ func accountBlockIssuerSTVF(vmParams *vm.Params, input *vm.ChainOutputWithIDs, c
 	}
 
 	// AccountOutLocked - outputs with manalock conditions
-	minManalockedSlot := pastBoundedSlot + vmParams.API.ProtocolParameters().MaxCommittableAge()
+	minManalockedSlot := vmParams.PastBoundedSlotIndex(pastBoundedSlot)
 	for outputIndex, output := range vmParams.WorkingSet.Tx.Outputs {
 		if output.UnlockConditionSet().HasManalockCondition(next.AccountID, minManalockedSlot) {
 			manaOut, err = safemath.SafeSub(manaOut, output.StoredMana())
diff --git a/vm/vm.go b/vm/vm.go
index 47fa9ac..5469a38 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -131,7 +131,7 @@ func TotalManaOut(outputs iotago.Outputs[iotago.TxEssenceOutput], allotments iot
 // That means no commitment input can be chosen such that the index lies behind the slot index of the block,
 // hence the past is bounded.
 func (params *Params) PastBoundedSlotIndex(commitmentInputSlot iotago.SlotIndex) iotago.SlotIndex {
-	return commitmentInputSlot + params.API.ProtocolParameters().MaxCommittableAge()
+	return boundedSlotIndex(commitmentInputSlot, params.API.ProtocolParameters().MaxCommittableAge())
 }
 
 // FutureBoundedSlotIndex calculates the future bounded slot for the given slot.
@@ -140,7 +140,17 @@ func (params *Params) PastBoundedSlotIndex(commitmentInputSlot iotago.SlotIndex)
 // That means no commitment input can be chosen such that the index lies ahead of the slot index of the block,
 // hence the future is bounded.
 func (params *Params) FutureBoundedSlotIndex(commitmentInputSlot iotago.SlotIndex) iotago.SlotIndex {
-	return commitmentInputSlot + params.API.ProtocolParameters().MinCommittableAge()
+	return boundedSlotIndex(commitmentInputSlot, params.API.ProtocolParameters().MinCommittableAge())
+}
+
+// boundedSlotIndex adds the committable age to the slot of a commitment input. The result is capped at the last slot,
+// otherwise it would wrap around to the first slots for commitments close to the end of the slot range.
+func boundedSlotIndex(commitmentInputSlot iotago.SlotIndex, committableAge iotago.SlotIndex) iotago.SlotIndex {
+	if committableAge > iotago.MaxSlotIndex-commitmentInputSlot {
+		return iotago.MaxSlotIndex
+	}
+
+	return commitmentInputSlot + committableAge
 }
 
 // RunVMFuncs runs the given ExecFunc(s) in serial order.
@@ -519,8 +529,8 @@ func checkExpiration(output iotago.Output, commitmentInput VMCommitmentInput, pr
 			return nil, iotago.ErrExpirationCommitmentInputMissing
 		}
 
-		pastBoundedSlotIndex := commitmentInput.Slot + protocolParameters.MaxCommittableAge()
-		futureBoundedSlotIndex := commitmentInput.Slot + protocolParameters.MinCommittableAge()
+		pastBoundedSlotIndex := boundedSlotIndex(commitmentInput.Slot, protocolParameters.MaxCommittableAge())
+		futureBoundedSlotIndex := boundedSlotIndex(commitmentInput.Slot, protocolParameters.MinCommittableAge())
 
 		return output.UnlockConditionSet().CheckExpirationCondition(futureBoundedSlotIndex, pastBoundedSlotIndex)
 	}
-- 
2.43.0


From 32cae1dcc1f99f274ab4f89ab8196d7c6d76010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 23/60] fix: a negative index has no inclusion proof

ComputeProofForIndex checked the index only against the upper bound and
panicked for negative ones.
---
 merklehasher/merkle_proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merklehasher/merkle_proof.go b/merklehasher/merkle_proof.go
index 07019c9..e40bac5 100644
--- a/merklehasher/merkle_proof.go
+++ b/merklehasher/merkle_proof.go
@@ -81,7 +81,7 @@ func (t *Hasher[V]) ComputeProofForIndex(values []V, index int) (*Proof[V], erro
 	if len(values) < 1 {
 		return nil, ierrors.New("at least one item is needed to create an inclusion proof")
 	}
-	if index >= len(values) {
+	if index < 0 || index >= len(values) {
 		return nil, ierrors.Errorf("index %d out of bounds for 'values' of len %d", index, len(values))
 	}
 
-- 
2.43.0


From 2ca3e4b911dc9f979a12e6905b2302c9267e2559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 24/60] fix: an inclusion proof proves exactly one value

A proof was accepted for every value hash found anywhere in it and its
sibling hashes could have any length or be opened up into nodes. Marking
a sibling as a value or moving bytes between siblings left the proof
valid, and made the proof of one output verify for its neighbour. Only
the shape that ComputeProof generates is accepted now: one child of every
node leads to the value, the other is a hash of the hasher's size.
---
 merklehasher/merkle_proof.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/merklehasher/merkle_proof.go b/merklehasher/merkle_proof.go
index e40bac5..13e52a2 100644
--- a/merklehasher/merkle_proof.go
+++ b/merklehasher/merkle_proof.go
@@ -172,19 +172,29 @@ func (p *Proof[V]) Hash(hasher *Hasher[V]) []byte {
 	return p.MerkleHashable.hash(hasher)
 }
 
+// containsValueHash tells whether the hashable is the audit path of the hashed value: exactly one child of every node
+// leads on to the value and the other one is the hash of the subtree next to it.
 func containsValueHash[V Value](hashable MerkleHashable[V], hashedValue []byte) bool {
 	switch t := hashable.(type) {
-	case *LeafHash[V]:
-		return false
 	case *ValueHash[V]:
 		return bytes.Equal(hashedValue, t.Hash)
 	case *Node[V]:
-		return containsValueHash[V](t.Right, hashedValue) || containsValueHash[V](t.Left, hashedValue)
+		if isSubtreeHash[V](t.Left, len(hashedValue)) {
+			return containsValueHash[V](t.Right, hashedValue)
+		}
+
+		return isSubtreeHash[V](t.Right, len(hashedValue)) && containsValueHash[V](t.Left, hashedValue)
 	}
 
 	return false
 }
 
+func isSubtreeHash[V Value](hashable MerkleHashable[V], hashSize int) bool {
+	leafHash, is := hashable.(*LeafHash[V])
+
+	return is && len(leafHash.Hash) == hashSize
+}
+
 func (p *Proof[V]) ContainsValue(value V, hasher *Hasher[V]) (bool, error) {
 	valueBytes, err := value.Bytes()
 	if err != nil {
-- 
2.43.0


From 790d8d7d472dece19de91960edeb814f4e95e5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 25/60] fix: bytes behind a multi address in a Bech32 string
 are an error

Every other address kind already refuses them. Without the check, strings
with inserted characters before a final p and any longer string with a
right checksum were accepted as the same multi address.
---
 address.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/address.go b/address.go
index 49e8c3f..34afd61 100644
--- a/address.go
+++ b/address.go
@@ -221,11 +221,15 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 	//nolint:exhaustive
 	switch addrType {
 	case AddressMulti:
-		multiAddrRef, _, err := MultiAddressReferenceFromBytes(addrData)
+		multiAddrRef, consumed, err := MultiAddressReferenceFromBytes(addrData)
 		if err != nil {
 			return "", nil, ierrors.Wrap(err, "invalid multi address")
 		}
 
+		if consumed != len(addrData) {
+			return "", nil, serializer.ErrDeserializationNotAllConsumed
+		}
+
 		return NetworkPrefix(hrp), multiAddrRef, nil
 
 	case AddressRestricted:
@@ -240,11 +244,15 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 			}
 
 			// get the address capabilities from the remaining bytes
-			capabilities, _, err := AddressCapabilitiesBitMaskFromBytes(addrData[1+consumed:])
+			capabilities, capabilitiesConsumed, err := AddressCapabilitiesBitMaskFromBytes(addrData[1+consumed:])
 			if err != nil {
 				return "", nil, ierrors.Wrap(err, "invalid restricted address capabilities")
 			}
 
+			if 1+consumed+capabilitiesConsumed != len(addrData) {
+				return "", nil, serializer.ErrDeserializationNotAllConsumed
+			}
+
 			return NetworkPrefix(hrp), &RestrictedAddress{
 				Address:             multiAddrRef,
 				AllowedCapabilities: capabilities,
-- 
2.43.0


From 62c206f58f56109fca4e2d4c903145f9b0ccec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 26/60] fix: ParseBech32 validates the parsed address

Restricted addresses with a capability mask that has trailing zero bytes or
is too long, and nestings no address may have, were accepted from Bech32
strings although every other decoder of addresses refuses them.
---
 address.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/address.go b/address.go
index 34afd61..02ca5f8 100644
--- a/address.go
+++ b/address.go
@@ -253,6 +253,14 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 				return "", nil, serializer.ErrDeserializationNotAllConsumed
 			}
 
+			// the reference can't be encoded, so the rules of the capabilities are checked on their own
+			if _, err := CommonSerixAPI().Encode(context.TODO(), capabilities, serix.WithValidation()); err != nil {
+				return "", nil, ierrors.Wrap(err, "invalid restricted address capabilities")
+			}
+			if err := BitMaskNonTrailingZeroBytesValidatorFunc(capabilities); err != nil {
+				return "", nil, ierrors.Wrap(err, "invalid restricted address capabilities")
+			}
+
 			return NetworkPrefix(hrp), &RestrictedAddress{
 				Address:             multiAddrRef,
 				AllowedCapabilities: capabilities,
@@ -266,7 +274,7 @@ func ParseBech32(s string) (NetworkPrefix, Address, error) {
 	}
 
 	serixAPI := CommonSerixAPI()
-	n, err := serixAPI.Decode(context.TODO(), addrData, addr)
+	n, err := serixAPI.Decode(context.TODO(), addrData, addr, serix.WithValidation())
 	if err != nil {
 		return "", nil, err
 	}
-- 
2.43.0


From d29107e1454a10b8ca075b303659a94c04aabc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 27/60] fix: identifiers in hex must have exactly their length

The FromHexString functions only required the minimum length and dropped
the remaining bytes.
---
 block_id.gen.go              | 4 ++++
 commitment_id.gen.go         | 4 ++++
 gen/identifier.tmpl          | 4 ++++
 gen/slot_identifier.tmpl     | 4 ++++
 identifier.gen.go            | 4 ++++
 identifier_account.gen.go    | 4 ++++
 identifier_anchor.gen.go     | 4 ++++
 output_id.gen.go             | 4 ++++
 signed_transaction_id.gen.go | 4 ++++
 transaction_id.gen.go        | 4 ++++
 10 files changed, 40 insertions(+)

diff --git a/block_id.gen.go b/block_id.gen.go
index e98d820..a89ad29 100644
--- a/block_id.gen.go
+++ b/block_id.gen.go
@@ -47,6 +47,10 @@ func BlockIDFromHexString(hex string) (BlockID, error) {
 		return EmptyBlockID, err
 	}
 
+	if err := IsValidBlockID(b); err != nil {
+		return EmptyBlockID, err
+	}
+
 	s, _, err := BlockIDFromBytes(b)
 
 	return s, err
diff --git a/commitment_id.gen.go b/commitment_id.gen.go
index 1ea2a0f..fd62800 100644
--- a/commitment_id.gen.go
+++ b/commitment_id.gen.go
@@ -47,6 +47,10 @@ func CommitmentIDFromHexString(hex string) (CommitmentID, error) {
 		return EmptyCommitmentID, err
 	}
 
+	if err := IsValidCommitmentID(b); err != nil {
+		return EmptyCommitmentID, err
+	}
+
 	s, _, err := CommitmentIDFromBytes(b)
 
 	return s, err
diff --git a/gen/identifier.tmpl b/gen/identifier.tmpl
index 114670f..cc151f7 100644
--- a/gen/identifier.tmpl
+++ b/gen/identifier.tmpl
@@ -38,6 +38,10 @@ func {{.Name}}FromHexString(hex string) ({{.Name}}, error) {
 		return Empty{{.Name}}, err
 	}
 
+	if err := IsValid{{.Name}}(bytes); err != nil {
+		return Empty{{.Name}}, err
+	}
+
 	{{.Receiver}}, _, err := {{.Name}}FromBytes(bytes)
 
 	return {{.Receiver}}, err
diff --git a/gen/slot_identifier.tmpl b/gen/slot_identifier.tmpl
index 4ee3a39..ad2733f 100644
--- a/gen/slot_identifier.tmpl
+++ b/gen/slot_identifier.tmpl
@@ -63,6 +63,10 @@ func {{.Name}}FromHexString(hex string) ({{.Name}}, error) {
 		return Empty{{.Name}}, err
 	}
 
+	if err := IsValid{{.Name}}(b); err != nil {
+		return Empty{{.Name}}, err
+	}
+
 	s, _, err := {{.Name}}FromBytes(b)
 
 	return s, err
diff --git a/identifier.gen.go b/identifier.gen.go
index 9039988..ec7f63d 100644
--- a/identifier.gen.go
+++ b/identifier.gen.go
@@ -38,6 +38,10 @@ func IdentifierFromHexString(hex string) (Identifier, error) {
 		return EmptyIdentifier, err
 	}
 
+	if err := IsValidIdentifier(bytes); err != nil {
+		return EmptyIdentifier, err
+	}
+
 	i, _, err := IdentifierFromBytes(bytes)
 
 	return i, err
diff --git a/identifier_account.gen.go b/identifier_account.gen.go
index 155f55d..fd2e902 100644
--- a/identifier_account.gen.go
+++ b/identifier_account.gen.go
@@ -38,6 +38,10 @@ func AccountIDFromHexString(hex string) (AccountID, error) {
 		return EmptyAccountID, err
 	}
 
+	if err := IsValidAccountID(bytes); err != nil {
+		return EmptyAccountID, err
+	}
+
 	a, _, err := AccountIDFromBytes(bytes)
 
 	return a, err
diff --git a/identifier_anchor.gen.go b/identifier_anchor.gen.go
index 32f009d..5fbd875 100644
--- a/identifier_anchor.gen.go
+++ b/identifier_anchor.gen.go
@@ -38,6 +38,10 @@ func AnchorIDFromHexString(hex string) (AnchorID, error) {
 		return EmptyAnchorID, err
 	}
 
+	if err := IsValidAnchorID(bytes); err != nil {
+		return EmptyAnchorID, err
+	}
+
 	a, _, err := AnchorIDFromBytes(bytes)
 
 	return a, err
diff --git a/output_id.gen.go b/output_id.gen.go
index 77af5e6..ff38a67 100644
--- a/output_id.gen.go
+++ b/output_id.gen.go
@@ -37,6 +37,10 @@ func OutputIDFromHexString(hex string) (OutputID, error) {
 		return EmptyOutputID, err
 	}
 
+	if err := IsValidOutputID(b); err != nil {
+		return EmptyOutputID, err
+	}
+
 	s, _, err := OutputIDFromBytes(b)
 
 	return s, err
diff --git a/signed_transaction_id.gen.go b/signed_transaction_id.gen.go
index 8ecf09f..d7a5594 100644
--- a/signed_transaction_id.gen.go
+++ b/signed_transaction_id.gen.go
@@ -47,6 +47,10 @@ func SignedTransactionIDFromHexString(hex string) (SignedTransactionID, error) {
 		return EmptySignedTransactionID, err
 	}
 
+	if err := IsValidSignedTransactionID(b); err != nil {
+		return EmptySignedTransactionID, err
+	}
+
 	s, _, err := SignedTransactionIDFromBytes(b)
 
 	return s, err
diff --git a/transaction_id.gen.go b/transaction_id.gen.go
index 85b702b..e527a17 100644
--- a/transaction_id.gen.go
+++ b/transaction_id.gen.go
@@ -47,6 +47,10 @@ func TransactionIDFromHexString(hex string) (TransactionID, error) {
 		return EmptyTransactionID, err
 	}
 
+	if err := IsValidTransactionID(b); err != nil {
+		return EmptyTransactionID, err
+	}
+
 	s, _, err := TransactionIDFromBytes(b)
 
 	return s, err
-- 
2.43.0


From 27e0a547158e7a594efe3daa3fdf51bded890827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 28/60] fix: identifiers unmarshal only from text of their
 length

Longer text crashed with an index out of range and shorter text left the
rest of the identifier as it was.
---
 block_id.gen.go              | 4 ++++
 commitment_id.gen.go         | 4 ++++
 gen/identifier.tmpl          | 4 ++++
 gen/slot_identifier.tmpl     | 4 ++++
 identifier.gen.go            | 4 ++++
 identifier_account.gen.go    | 4 ++++
 identifier_anchor.gen.go     | 4 ++++
 output_id.gen.go             | 4 ++++
 signed_transaction_id.gen.go | 4 ++++
 transaction_id.gen.go        | 4 ++++
 10 files changed, 40 insertions(+)

diff --git a/block_id.gen.go b/block_id.gen.go
index a89ad29..6b12412 100644
--- a/block_id.gen.go
+++ b/block_id.gen.go
@@ -96,6 +96,10 @@ func (b BlockID) MarshalText() (text []byte, err error) {
 }
 
 func (b *BlockID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(len(b)) {
+		return ierrors.Errorf("invalid text length: expected %d characters, got %d characters", hex.EncodedLen(len(b)), len(text))
+	}
+
 	_, err := hex.Decode(b[:], text)
 
 	return err
diff --git a/commitment_id.gen.go b/commitment_id.gen.go
index fd62800..14c528b 100644
--- a/commitment_id.gen.go
+++ b/commitment_id.gen.go
@@ -96,6 +96,10 @@ func (c CommitmentID) MarshalText() (text []byte, err error) {
 }
 
 func (c *CommitmentID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(len(c)) {
+		return ierrors.Errorf("invalid text length: expected %d characters, got %d characters", hex.EncodedLen(len(c)), len(text))
+	}
+
 	_, err := hex.Decode(c[:], text)
 
 	return err
diff --git a/gen/identifier.tmpl b/gen/identifier.tmpl
index cc151f7..dcf560e 100644
--- a/gen/identifier.tmpl
+++ b/gen/identifier.tmpl
@@ -88,6 +88,10 @@ func ({{.Receiver}} {{.Name}}) MarshalText() (text []byte, err error) {
 }
 
 func ({{.Receiver}} *{{.Name}}) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(len({{.Receiver}})) {
+		return ierrors.Errorf("invalid text length: expected %d characters, got %d characters", hex.EncodedLen(len({{.Receiver}})), len(text))
+	}
+
 	_, err := hex.Decode({{.Receiver}}[:], text)
 
 	return err
diff --git a/gen/slot_identifier.tmpl b/gen/slot_identifier.tmpl
index ad2733f..5a609b5 100644
--- a/gen/slot_identifier.tmpl
+++ b/gen/slot_identifier.tmpl
@@ -112,6 +112,10 @@ func ({{.Receiver}} {{.Name}}) MarshalText() (text []byte, err error) {
 }
 
 func ({{.Receiver}} *{{.Name}}) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(len({{.Receiver}})) {
+		return ierrors.Errorf("invalid text length: expected %d characters, got %d characters", hex.EncodedLen(len({{.Receiver}})), len(text))
+	}
+
 	_, err := hex.Decode({{.Receiver}}[:], text)
 
 	return err
diff --git a/identifier.gen.go b/identifier.gen.go
index ec7f63d..1434a0d 100644
--- a/identifier.gen.go
+++ b/identifier.gen.go
@@ -88,6 +88,10 @@ func (i Identifier) MarshalText() (text []byte, err error) {
 }
 
 func (i *Identifier) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(len(i)) {
+		return ierrors.Errorf("invalid text length: expected %d characters, got %d characters", hex.EncodedLen(len(i)), len(text))
+	}
+
 	_, err := hex.Decode(i[:], text)
 
 	return err
diff --git a/identifier_account.gen.go b/identifier_account.gen.go
index fd2e902..ae40cec 100644
--- a/identifier_account.gen.go
+++ b/identifier_account.gen.go
@@ -88,6 +88,10 @@ func (a AccountID) MarshalText() (text []byte, err error) {
 }
 
 func (a *AccountID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(len(a)) {
+		return ierrors.Errorf("invalid text length: expected %d characters, got %d characters", hex.EncodedLen(len(a)), len(text))
+	}
+
 	_, err := hex.Decode(a[:], text)
 
 	return err
diff --git a/identifier_anchor.gen.go b/identifier_anchor.gen.go
index 5fbd875..26018ca 100644
--- a/identifier_anchor.gen.go
+++ b/identifier_anchor.gen.go
@@ -88,6 +88,10 @@ func (a AnchorID) MarshalText() (text []byte, err error) {
 }
 
 func (a *AnchorID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(len(a)) {
+		return ierrors.Errorf("invalid text length: expected %d characters, got %d characters", hex.EncodedLen(len(a)), len(text))
+	}
+
 	_, err := hex.Decode(a[:], text)
 
 	return err
diff --git a/output_id.gen.go b/output_id.gen.go
index ff38a67..f6605d5 100644
--- a/output_id.gen.go
+++ b/output_id.gen.go
@@ -86,6 +86,10 @@ func (o OutputID) MarshalText() (text []byte, err error) {
 }
 
 func (o *OutputID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(len(o)) {
+		return ierrors.Errorf("invalid text length: expected %d characters, got %d characters", hex.EncodedLen(len(o)), len(text))
+	}
+
 	_, err := hex.Decode(o[:], text)
 
 	return err
diff --git a/signed_transaction_id.gen.go b/signed_transaction_id.gen.go
index d7a5594..d2a21e1 100644
--- a/signed_transaction_id.gen.go
+++ b/signed_transaction_id.gen.go
@@ -96,6 +96,10 @@ func (t SignedTransactionID) MarshalText() (text []byte, err error) {
 }
 
 func (t *SignedTransactionID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(len(t)) {
+		return ierrors.Errorf("invalid text length: expected %d characters, got %d characters", hex.EncodedLen(len(t)), len(text))
+	}
+
 	_, err := hex.Decode(t[:], text)
 
 	return err
diff --git a/transaction_id.gen.go b/transaction_id.gen.go
index e527a17..5f77dd5 100644
--- a/transaction_id.gen.go
+++ b/transaction_id.gen.go
@@ -96,6 +96,10 @@ func (t TransactionID) MarshalText() (text []byte, err error) {
 }
 
 func (t *TransactionID) UnmarshalText(text []byte) error {
+	if len(text) != hex.EncodedLen(len(t)) {
+		return ierrors.Errorf("invalid text length: expected %d characters, got %d characters", hex.EncodedLen(len(t)), len(text))
+	}
+
 	_, err := hex.Decode(t[:], text)
 
 	return err
-- 
2.43.0


From 1ad5551b18cce7536c979284f4ca20dd8396092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 29/60] fix: parsing an identifier consumes only its own bytes

IdentifierFromBytes, AccountIDFromBytes and AnchorIDFromBytes reported the
whole input as consumed.
---
 gen/identifier.tmpl       | 2 +-
 identifier.gen.go         | 2 +-
 identifier_account.gen.go | 2 +-
 identifier_anchor.gen.go  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gen/identifier.tmpl b/gen/identifier.tmpl
index dcf560e..8c658ac 100644
--- a/gen/identifier.tmpl
+++ b/gen/identifier.tmpl
@@ -73,7 +73,7 @@ func {{.Name}}FromBytes(bytes []byte) ({{.Name}}, int, error) {
 	}
 	copy({{.Receiver}}[:], bytes)
 
-	return {{.Receiver}}, len(bytes), nil
+	return {{.Receiver}}, {{.Name}}Length, nil
 }
 
 func ({{.Receiver}} {{.Name}}) Bytes() ([]byte, error) {
diff --git a/identifier.gen.go b/identifier.gen.go
index 1434a0d..2d25c2c 100644
--- a/identifier.gen.go
+++ b/identifier.gen.go
@@ -73,7 +73,7 @@ func IdentifierFromBytes(bytes []byte) (Identifier, int, error) {
 	}
 	copy(i[:], bytes)
 
-	return i, len(bytes), nil
+	return i, IdentifierLength, nil
 }
 
 func (i Identifier) Bytes() ([]byte, error) {
diff --git a/identifier_account.gen.go b/identifier_account.gen.go
index ae40cec..812eba1 100644
--- a/identifier_account.gen.go
+++ b/identifier_account.gen.go
@@ -73,7 +73,7 @@ func AccountIDFromBytes(bytes []byte) (AccountID, int, error) {
 	}
 	copy(a[:], bytes)
 
-	return a, len(bytes), nil
+	return a, AccountIDLength, nil
 }
 
 func (a AccountID) Bytes() ([]byte, error) {
diff --git a/identifier_anchor.gen.go b/identifier_anchor.gen.go
index 26018ca..901b44f 100644
--- a/identifier_anchor.gen.go
+++ b/identifier_anchor.gen.go
@@ -73,7 +73,7 @@ func AnchorIDFromBytes(bytes []byte) (AnchorID, int, error) {
 	}
 	copy(a[:], bytes)
 
-	return a, len(bytes), nil
+	return a, AnchorIDLength, nil
 }
 
 func (a AnchorID) Bytes() ([]byte, error) {
-- 
2.43.0


From 1f74d40068bd5412fb5a1285116ba5a5f8e6af8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 30/60] fix: an implicit account creation address in hex must
 have exactly its length

---
 address_implicit_account_creation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address_implicit_account_creation.go b/address_implicit_account_creation.go
index aecc20e..e9f78be 100644
--- a/address_implicit_account_creation.go
+++ b/address_implicit_account_creation.go
@@ -12,7 +12,7 @@ func ParseImplicitAccountCreationAddressFromHexString(hexAddr string) (*Implicit
 		return nil, err
 	}
 
-	if len(addrBytes) < ImplicitAccountCreationAddressBytesLength {
+	if len(addrBytes) != ImplicitAccountCreationAddressBytesLength {
 		return nil, ierrors.New("invalid ImplicitAccountCreationAddress length")
 	}
 
-- 
2.43.0


From c2937325b95ae6a8636ea01771b490f664d92c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 31/60] fix: unknown transaction states are refused when parsed
 from bytes

The JSON form refuses them already, and printing one crashes.
---
 api/core.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/api/core.go b/api/core.go
index 364111c..9da1d23 100644
--- a/api/core.go
+++ b/api/core.go
@@ -134,6 +134,10 @@ func TransactionStateFromBytes(b []byte) (TransactionState, int, error) {
 		return 0, 0, ierrors.New("invalid transaction state size")
 	}
 
+	if TransactionState(b[0]) > TransactionStateFailed {
+		return 0, 0, ierrors.Errorf("invalid transaction state: %d", b[0])
+	}
+
 	return TransactionState(b[0]), TransactionStateLength, nil
 }
 
-- 
2.43.0


From d8adea8b90d63fc34bb44fc0745415bf7d5806d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 32/60] fix: clone the keys of the block issuer feature

---
 feat_blockissuer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feat_blockissuer.go b/feat_blockissuer.go
index 400d315..ad0f898 100644
--- a/feat_blockissuer.go
+++ b/feat_blockissuer.go
@@ -40,7 +40,7 @@ type BlockIssuerFeature struct {
 func (s *BlockIssuerFeature) Clone() Feature {
 	return &BlockIssuerFeature{
 		ExpirySlot:      s.ExpirySlot,
-		BlockIssuerKeys: s.BlockIssuerKeys,
+		BlockIssuerKeys: s.BlockIssuerKeys.Clone(),
 	}
 }
 
-- 
2.43.0


From 8beb4802b68a70cf65529598496c274818ff534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 33/60] fix: clone the validator address of the delegation
 output

---
 output_delegation.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/output_delegation.go b/output_delegation.go
index ec92da9..60fa6fe 100644
--- a/output_delegation.go
+++ b/output_delegation.go
@@ -113,10 +113,11 @@ type DelegationOutput struct {
 
 func (d *DelegationOutput) Clone() Output {
 	return &DelegationOutput{
-		Amount:           d.Amount,
-		DelegatedAmount:  d.DelegatedAmount,
-		DelegationID:     d.DelegationID,
-		ValidatorAddress: d.ValidatorAddress,
+		Amount:          d.Amount,
+		DelegatedAmount: d.DelegatedAmount,
+		DelegationID:    d.DelegationID,
+		//nolint:forcetypeassert // we can safely assume that this is an AccountAddress
+		ValidatorAddress: d.ValidatorAddress.Clone().(*AccountAddress),
 		StartEpoch:       d.StartEpoch,
 		EndEpoch:         d.EndEpoch,
 		UnlockConditions: d.UnlockConditions.Clone(),
-- 
2.43.0


From 724eb8eba73efcac2d0b31e81b8a823648928b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:12 +0000
Subject: [PATCH 34/60] fix: resolve the IDs of newly created chains when the
 transaction builder unlocks their owned outputs

---
 builder/transaction_builder.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/builder/transaction_builder.go b/builder/transaction_builder.go
index 1584b8e..d3485ab 100644
--- a/builder/transaction_builder.go
+++ b/builder/transaction_builder.go
@@ -732,7 +732,7 @@ func (b *TransactionBuilder) build(signEssence bool) (*iotago.SignedTransaction,
 
 			// always mark the chain as unlocked in case the output is a chain output.
 			// e.g. "an NFT owns an NFT".
-			unlockedSet.addChainAsUnlocked(inputs[inputIndex], inputIndex)
+			unlockedSet.addChainAsUnlocked(inputIDs[inputIndex], inputs[inputIndex], inputIndex)
 
 			// skip the rest of the input processing because we don't need to sign chain inputs
 			continue
@@ -777,7 +777,7 @@ func (b *TransactionBuilder) build(signEssence bool) (*iotago.SignedTransaction,
 
 		// always mark the chain as unlocked in case the output is a chain output
 		// e.g. "an NFT owned by an ed25519 address".
-		unlockedSet.addChainAsUnlocked(inputs[inputIndex], inputIndex)
+		unlockedSet.addChainAsUnlocked(inputIDs[inputIndex], inputs[inputIndex], inputIndex)
 	}
 
 	sigTxPayload := &iotago.SignedTransaction{
@@ -826,9 +826,20 @@ func (u *txBuilderUnlockedSet) addSignerUID(signerUID iotago.Identifier, unlocke
 // addChainAsUnlocked marks the underlying chain address as unlocked at "unlockedAtIndex".
 // This is only done if the output is a chain output and the chain ID is addressable,
 // which is only valid for AccountOutput, AnchorOutput and NFTOutput.
-func (u *txBuilderUnlockedSet) addChainAsUnlocked(input iotago.Output, unlockedAtIndex int) {
-	if chainInput, is := input.(iotago.ChainOutput); is && chainInput.ChainID().Addressable() {
-		u.unlockedChains[chainInput.ChainID().ToAddress().Key()] = unlockedAtIndex
+func (u *txBuilderUnlockedSet) addChainAsUnlocked(inputID iotago.OutputID, input iotago.Output, unlockedAtIndex int) {
+	chainInput, is := input.(iotago.ChainOutput)
+	if !is {
+		return
+	}
+
+	chainID := chainInput.ChainID()
+	if utxoIDChainID, is := chainID.(iotago.UTXOIDChainID); is && chainID.Empty() {
+		// the chain ID of a newly created chain output is derived from its output ID
+		chainID = utxoIDChainID.FromOutputID(inputID)
+	}
+
+	if chainID.Addressable() {
+		u.unlockedChains[chainID.ToAddress().Key()] = unlockedAtIndex
 	}
 }
 
-- 
2.43.0


From 8bb65f7fa0a998a6ca6d52b60bb4e5fa6cacb7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:35 +0000
Subject: [PATCH 35/60] fix: bind the mana of newly created and implicit
 accounts to their account ID in the transaction builder

---
 builder/transaction_builder.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/builder/transaction_builder.go b/builder/transaction_builder.go
index d3485ab..85e6b5f 100644
--- a/builder/transaction_builder.go
+++ b/builder/transaction_builder.go
@@ -574,6 +574,28 @@ func (a *AvailableManaResult) AddAccountBoundMana(accountID iotago.AccountID, va
 	return nil
 }
 
+// accountBoundInput returns the ID of the account the mana of the given input is bound to, if there is one.
+func accountBoundInput(inputID iotago.OutputID, input iotago.Output) (iotago.AccountID, bool) {
+	switch output := input.(type) {
+	case *iotago.AccountOutput:
+		if output.AccountID.Empty() {
+			// the account ID of a newly created account is derived from its output ID
+			return iotago.AccountIDFromOutputID(inputID), true
+		}
+
+		return output.AccountID, true
+
+	case *iotago.BasicOutput:
+		// the mana of an implicit account can only be moved to the account it gets transitioned to
+		addressUnlock := output.UnlockConditionSet().Address()
+		if addressUnlock != nil && addressUnlock.Address.Type() == iotago.AddressImplicitAccountCreation {
+			return iotago.AccountIDFromOutputID(inputID), true
+		}
+	}
+
+	return iotago.EmptyAccountID, false
+}
+
 // CalculateAvailableManaInputs calculates the available mana on the input side
 // including mana generation and decay and the rewards.
 func (b *TransactionBuilder) CalculateAvailableManaInputs(targetSlot iotago.SlotIndex) (*AvailableManaResult, error) {
@@ -604,13 +626,13 @@ func (b *TransactionBuilder) CalculateAvailableManaInputs(targetSlot iotago.Slot
 			return nil, err
 		}
 
-		if accountOutput, isAccountOutput := input.(*iotago.AccountOutput); isAccountOutput {
+		if accountID, isAccountBound := accountBoundInput(inputID, input); isAccountBound {
 			inputTotalMana, err := safemath.SafeAdd(inputPotentialMana, inputStoredMana)
 			if err != nil {
 				return nil, ierrors.Wrap(err, "failed to add input mana")
 			}
 
-			if err := result.AddAccountBoundMana(accountOutput.AccountID, inputTotalMana); err != nil {
+			if err := result.AddAccountBoundMana(accountID, inputTotalMana); err != nil {
 				return nil, err
 			}
 		} else {
-- 
2.43.0


From 1cef778af2942e0bf55da43b8c304b510be82fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 36/60] fix: report overflowing mana sums in the transaction
 builder

---
 builder/transaction_builder.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/builder/transaction_builder.go b/builder/transaction_builder.go
index 85e6b5f..c5e8f42 100644
--- a/builder/transaction_builder.go
+++ b/builder/transaction_builder.go
@@ -100,7 +100,12 @@ func (b *TransactionBuilder) AddBlockIssuanceCreditInput(blockIssuanceCreditInpu
 // AddRewardInput adds the given reward input to the builder.
 func (b *TransactionBuilder) AddRewardInput(rewardInput *iotago.RewardInput, mana iotago.Mana) *TransactionBuilder {
 	b.transaction.TransactionEssence.ContextInputs = append(b.transaction.TransactionEssence.ContextInputs, rewardInput)
-	b.rewards += mana
+
+	rewards, err := safemath.SafeAdd(b.rewards, mana)
+	if err != nil {
+		return b.setBuildError(ierrors.Wrap(err, "failed to add reward"))
+	}
+	b.rewards = rewards
 
 	return b
 }
@@ -114,7 +119,12 @@ func (b *TransactionBuilder) IncreaseAllotment(accountID iotago.AccountID, value
 	// check if the allotment already exists and add the value on top
 	for _, allotment := range b.transaction.Allotments {
 		if allotment.AccountID == accountID {
-			allotment.Mana += value
+			increasedMana, err := safemath.SafeAdd(allotment.Mana, value)
+			if err != nil {
+				return b.setBuildError(ierrors.Wrapf(err, "failed to increase the allotment of account %s", accountID.ToHex()))
+			}
+			allotment.Mana = increasedMana
+
 			return b
 		}
 	}
@@ -561,6 +571,10 @@ func (a *AvailableManaResult) AddRewards(value iotago.Mana) error {
 	}
 	a.Rewards = rewards
 
+	if err := a.addTotalMana(value); err != nil {
+		return err
+	}
+
 	return a.addUnboundMana(value)
 }
 
-- 
2.43.0


From 2ecdd16e7c9e61c90167b4587e08cc110ff799e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:44 +0000
Subject: [PATCH 37/60] fix: reject a negative stored mana output index in the
 transaction builder

---
 builder/transaction_builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/transaction_builder.go b/builder/transaction_builder.go
index c5e8f42..35eec2e 100644
--- a/builder/transaction_builder.go
+++ b/builder/transaction_builder.go
@@ -244,7 +244,7 @@ func (b *TransactionBuilder) AllotAllMana(targetSlot iotago.SlotIndex, accountID
 // getStoredManaOutputAccountID returns the account ID of the output at the given index if it belongs to an account.
 // (account output or output with mana lock condition).
 func (b *TransactionBuilder) getStoredManaOutputAccountID(storedManaOutputIndex int) (iotago.AccountID, error) {
-	if storedManaOutputIndex >= len(b.transaction.Outputs) {
+	if storedManaOutputIndex < 0 || storedManaOutputIndex >= len(b.transaction.Outputs) {
 		return iotago.EmptyAccountID, ierrors.Errorf("given storedManaOutputIndex does not exist: %d", storedManaOutputIndex)
 	}
 
@@ -270,7 +270,7 @@ func (b *TransactionBuilder) getStoredManaOutputAccountID(storedManaOutputIndex
 
 // storeRemainingManaInOutput moves the remaining unbound mana to stored mana on the specified output index.
 func (b *TransactionBuilder) storeRemainingManaInOutput(targetSlot iotago.SlotIndex, storedManaOutputIndex int, storedManaOutputAccountID iotago.AccountID) error {
-	if storedManaOutputIndex >= len(b.transaction.Outputs) {
+	if storedManaOutputIndex < 0 || storedManaOutputIndex >= len(b.transaction.Outputs) {
 		return ierrors.Errorf("given storedManaOutputIndex does not exist: %d", storedManaOutputIndex)
 	}
 
-- 
2.43.0


From 3d13e6d14f97514181a2d1d78b92eb5caa781fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:03 +0000
Subject: [PATCH 38/60] fix: only add a dummy allotment when the block issuer
 has none yet

---
 builder/transaction_builder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/transaction_builder.go b/builder/transaction_builder.go
index 35eec2e..2536c98 100644
--- a/builder/transaction_builder.go
+++ b/builder/transaction_builder.go
@@ -680,7 +680,9 @@ func (b *TransactionBuilder) MinRequiredAllottedMana(rmc iotago.Mana, blockIssue
 	}()
 
 	// add a dummy allotment to account for the later added allotment for the block issuer in case it does not exist yet
-	b.IncreaseAllotment(blockIssuerAccountID, 1074)
+	if b.transaction.Allotments.Get(blockIssuerAccountID) == 0 {
+		b.IncreaseAllotment(blockIssuerAccountID, 1074)
+	}
 
 	// the transaction is "signed" with empty signatures to get the correct workscore.
 	// later the transaction needs to be signed with the correct signer, after the allotted mana was set correctly.
-- 
2.43.0


From 94a01723ef6a90141667c39418b453b5123294c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:03 +0000
Subject: [PATCH 39/60] fix: keep built transactions independent of later
 transaction builder calls

---
 builder/transaction_builder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/builder/transaction_builder.go b/builder/transaction_builder.go
index 2536c98..3cc4d5d 100644
--- a/builder/transaction_builder.go
+++ b/builder/transaction_builder.go
@@ -819,8 +819,9 @@ func (b *TransactionBuilder) build(signEssence bool) (*iotago.SignedTransaction,
 	}
 
 	sigTxPayload := &iotago.SignedTransaction{
-		API:         b.api,
-		Transaction: b.transaction,
+		API: b.api,
+		// the transaction is cloned so that later calls on the builder don't change the already built transaction
+		Transaction: b.transaction.Clone(),
 		Unlocks:     unlockedSet.unlocks,
 	}
 
-- 
2.43.0


From 386dfcb5c9f1528306e7827037d4a830cadda94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:12 +0000
Subject: [PATCH 40/60] fix: keep built outputs independent of later output
 builder calls

---
 builder/output_builder_account.go    |  4 +++-
 builder/output_builder_anchor.go     | 12 ++++++++----
 builder/output_builder_basic.go      |  4 +++-
 builder/output_builder_delegation.go |  4 +++-
 builder/output_builder_foundry.go    |  4 +++-
 builder/output_builder_nft.go        |  4 +++-
 6 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/builder/output_builder_account.go b/builder/output_builder_account.go
index 37a659e..3e4ab22 100644
--- a/builder/output_builder_account.go
+++ b/builder/output_builder_account.go
@@ -140,7 +140,9 @@ func (builder *AccountOutputBuilder) Build() (*iotago.AccountOutput, error) {
 	builder.output.Features.Sort()
 	builder.output.ImmutableFeatures.Sort()
 
-	return builder.output, nil
+	// the output is cloned so that later builder calls don't change the already built output
+	//nolint:forcetypeassert // we can safely assume that this is the same output type
+	return builder.output.Clone().(*iotago.AccountOutput), nil
 }
 
 // MustBuild works like Build() but panics if an error is encountered.
diff --git a/builder/output_builder_anchor.go b/builder/output_builder_anchor.go
index d875d24..1c87411 100644
--- a/builder/output_builder_anchor.go
+++ b/builder/output_builder_anchor.go
@@ -116,9 +116,6 @@ func (builder *AnchorOutputBuilder) Build() (*iotago.AnchorOutput, error) {
 	}
 
 	if builder.prev != nil {
-		if builder.stateCtrlReq {
-			builder.output.StateIndex++
-		}
 		if !builder.prev.ImmutableFeatures.Equal(builder.output.ImmutableFeatures) {
 			return nil, ierrors.New("immutable features are not allowed to be changed")
 		}
@@ -128,7 +125,14 @@ func (builder *AnchorOutputBuilder) Build() (*iotago.AnchorOutput, error) {
 	builder.output.Features.Sort()
 	builder.output.ImmutableFeatures.Sort()
 
-	return builder.output, nil
+	// the output is cloned so that later builder calls don't change the already built output
+	//nolint:forcetypeassert // we can safely assume that this is the same output type
+	output := builder.output.Clone().(*iotago.AnchorOutput)
+	if builder.prev != nil && builder.stateCtrlReq {
+		output.StateIndex++
+	}
+
+	return output, nil
 }
 
 // MustBuild works like Build() but panics if an error is encountered.
diff --git a/builder/output_builder_basic.go b/builder/output_builder_basic.go
index 39a3299..199b6e6 100644
--- a/builder/output_builder_basic.go
+++ b/builder/output_builder_basic.go
@@ -102,7 +102,9 @@ func (builder *BasicOutputBuilder) Build() (*iotago.BasicOutput, error) {
 	builder.output.UnlockConditions.Sort()
 	builder.output.Features.Sort()
 
-	return builder.output, nil
+	// the output is cloned so that later builder calls don't change the already built output
+	//nolint:forcetypeassert // we can safely assume that this is the same output type
+	return builder.output.Clone().(*iotago.BasicOutput), nil
 }
 
 // MustBuild works like Build() but panics if an error is encountered.
diff --git a/builder/output_builder_delegation.go b/builder/output_builder_delegation.go
index d1d1562..04617e2 100644
--- a/builder/output_builder_delegation.go
+++ b/builder/output_builder_delegation.go
@@ -85,7 +85,9 @@ func (builder *DelegationOutputBuilder) Address(addr iotago.Address) *Delegation
 func (builder *DelegationOutputBuilder) Build() (*iotago.DelegationOutput, error) {
 	builder.output.UnlockConditions.Sort()
 
-	return builder.output, nil
+	// the output is cloned so that later builder calls don't change the already built output
+	//nolint:forcetypeassert // we can safely assume that this is the same output type
+	return builder.output.Clone().(*iotago.DelegationOutput), nil
 }
 
 // MustBuild works like Build() but panics if an error is encountered.
diff --git a/builder/output_builder_foundry.go b/builder/output_builder_foundry.go
index 1a40164..562bfc0 100644
--- a/builder/output_builder_foundry.go
+++ b/builder/output_builder_foundry.go
@@ -81,7 +81,9 @@ func (builder *FoundryOutputBuilder) Build() (*iotago.FoundryOutput, error) {
 	builder.output.Features.Sort()
 	builder.output.ImmutableFeatures.Sort()
 
-	return builder.output, nil
+	// the output is cloned so that later builder calls don't change the already built output
+	//nolint:forcetypeassert // we can safely assume that this is the same output type
+	return builder.output.Clone().(*iotago.FoundryOutput), nil
 }
 
 // MustBuild works like Build() but panics if an error is encountered.
diff --git a/builder/output_builder_nft.go b/builder/output_builder_nft.go
index 7ee4be2..1ebf50a 100644
--- a/builder/output_builder_nft.go
+++ b/builder/output_builder_nft.go
@@ -133,7 +133,9 @@ func (builder *NFTOutputBuilder) Build() (*iotago.NFTOutput, error) {
 	builder.output.Features.Sort()
 	builder.output.ImmutableFeatures.Sort()
 
-	return builder.output, nil
+	// the output is cloned so that later builder calls don't change the already built output
+	//nolint:forcetypeassert // we can safely assume that this is the same output type
+	return builder.output.Clone().(*iotago.NFTOutput), nil
 }
 
 // MustBuild works like Build() but panics if an error is encountered.
-- 
2.43.0


From a18f95be9a1e9c3cdb605ef05a13754eeae4bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:15 +0000
Subject: [PATCH 41/60] fix: set the features created by the account builder
 transitions on the output

---
 builder/output_builder_account.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/output_builder_account.go b/builder/output_builder_account.go
index 3e4ab22..08ccc12 100644
--- a/builder/output_builder_account.go
+++ b/builder/output_builder_account.go
@@ -171,6 +171,7 @@ func (builder *AccountOutputBuilder) BlockIssuerTransition() *BlockIssuerTransit
 			BlockIssuerKeys: iotago.NewBlockIssuerKeys(),
 			ExpirySlot:      0,
 		}
+		builder.output.Features.Upsert(blockIssuerFeature)
 	}
 
 	return &BlockIssuerTransition{
@@ -190,6 +191,7 @@ func (builder *AccountOutputBuilder) StakingTransition() *StakingTransition {
 			StartEpoch:   0,
 			EndEpoch:     0,
 		}
+		builder.output.Features.Upsert(stakingFeature)
 	}
 
 	return &StakingTransition{
-- 
2.43.0


From 21a2030e007666103dcb43296a6c397537fb77a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:19 +0000
Subject: [PATCH 42/60] fix: copy the given block issuer keys in the account
 output builder

---
 builder/output_builder_account.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/output_builder_account.go b/builder/output_builder_account.go
index 08ccc12..d5f16c8 100644
--- a/builder/output_builder_account.go
+++ b/builder/output_builder_account.go
@@ -88,7 +88,7 @@ func (builder *AccountOutputBuilder) Metadata(entries iotago.MetadataFeatureEntr
 // BlockIssuer sets/modifies an iotago.BlockIssuerFeature as a mutable feature on the output.
 func (builder *AccountOutputBuilder) BlockIssuer(keys iotago.BlockIssuerKeys, expirySlot iotago.SlotIndex) *AccountOutputBuilder {
 	builder.output.Features.Upsert(&iotago.BlockIssuerFeature{
-		BlockIssuerKeys: keys,
+		BlockIssuerKeys: keys.Clone(),
 		ExpirySlot:      expirySlot,
 	})
 
@@ -223,7 +223,7 @@ func (trans *BlockIssuerTransition) RemoveKey(keyToDelete iotago.BlockIssuerKey)
 
 // Keys sets the keys of the iotago.BlockIssuerFeature.
 func (trans *BlockIssuerTransition) Keys(keys iotago.BlockIssuerKeys) *BlockIssuerTransition {
-	trans.feature.BlockIssuerKeys = keys
+	trans.feature.BlockIssuerKeys = keys.Clone()
 
 	return trans
 }
-- 
2.43.0


From c86e90eea2b2ee67c2752e5d2302c28236f1c278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:34 +0000
Subject: [PATCH 43/60] fix: report a foundry counter overflow in the account
 output builder

---
 builder/output_builder_account.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/builder/output_builder_account.go b/builder/output_builder_account.go
index d5f16c8..364c00d 100644
--- a/builder/output_builder_account.go
+++ b/builder/output_builder_account.go
@@ -1,6 +1,7 @@
 package builder
 
 import (
+	"github.com/iotaledger/hive.go/core/safemath"
 	"github.com/iotaledger/hive.go/ierrors"
 	iotago "github.com/iotaledger/iota.go/v4"
 )
@@ -31,8 +32,9 @@ func NewAccountOutputBuilderFromPrevious(previous *iotago.AccountOutput) *Accoun
 
 // AccountOutputBuilder builds an iotago.AccountOutput.
 type AccountOutputBuilder struct {
-	prev   *iotago.AccountOutput
-	output *iotago.AccountOutput
+	prev             *iotago.AccountOutput
+	output           *iotago.AccountOutput
+	occurredBuildErr error
 }
 
 // Amount sets the base token amount of the output.
@@ -59,7 +61,12 @@ func (builder *AccountOutputBuilder) AccountID(accountID iotago.AccountID) *Acco
 
 // FoundriesToGenerate bumps the output's foundry counter by the amount of foundries to generate.
 func (builder *AccountOutputBuilder) FoundriesToGenerate(count uint32) *AccountOutputBuilder {
-	builder.output.FoundryCounter += count
+	foundryCounter, err := safemath.SafeAdd(builder.output.FoundryCounter, count)
+	if err != nil {
+		builder.occurredBuildErr = ierrors.Wrap(err, "failed to increase the foundry counter")
+		return builder
+	}
+	builder.output.FoundryCounter = foundryCounter
 
 	return builder
 }
@@ -130,6 +137,10 @@ func (builder *AccountOutputBuilder) ImmutableMetadata(entries iotago.MetadataFe
 
 // Build builds the iotago.AccountOutput.
 func (builder *AccountOutputBuilder) Build() (*iotago.AccountOutput, error) {
+	if builder.occurredBuildErr != nil {
+		return nil, builder.occurredBuildErr
+	}
+
 	if builder.prev != nil {
 		if !builder.prev.ImmutableFeatures.Equal(builder.output.ImmutableFeatures) {
 			return nil, ierrors.New("immutable features are not allowed to be changed")
-- 
2.43.0


From 13c77285644b1c00cbd54d83eafa9ae33e8c2fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 44/60] fix: keep built blocks independent of later block
 builder calls

---
 builder/block_builder.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/builder/block_builder.go b/builder/block_builder.go
index 87543e7..453f777 100644
--- a/builder/block_builder.go
+++ b/builder/block_builder.go
@@ -54,7 +54,11 @@ func (b *BasicBlockBuilder) Build() (*iotago.Block, error) {
 		return nil, b.err
 	}
 
-	return b.protocolBlock, nil
+	// the block is copied so that later builder calls don't change the already built block
+	block, basicBlock := *b.protocolBlock, *b.basicBlock
+	block.Body = &basicBlock
+
+	return &block, nil
 }
 
 // ProtocolVersion sets the protocol version.
@@ -253,7 +257,11 @@ func (v *ValidationBlockBuilder) Build() (*iotago.Block, error) {
 		return nil, v.err
 	}
 
-	return v.protocolBlock, nil
+	// the block is copied so that later builder calls don't change the already built block
+	block, validationBlock := *v.protocolBlock, *v.validationBlock
+	block.Body = &validationBlock
+
+	return &block, nil
 }
 
 // ProtocolVersion sets the protocol version.
-- 
2.43.0


From 76baf3b0567ff8afc1dc3b4b74bde11be166cc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 45/60] fix: an empty page with a cursor does not end an
 indexer query

---
 nodeclient/indexer_client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nodeclient/indexer_client.go b/nodeclient/indexer_client.go
index 7f86996..c7925f9 100644
--- a/nodeclient/indexer_client.go
+++ b/nodeclient/indexer_client.go
@@ -76,7 +76,8 @@ func (resultSet *IndexerResultSet) Next() bool {
 	resultSet.query.SetOffset(&resultSet.Response.Cursor)
 	resultSet.firstQueryDone = true
 
-	return len(resultSet.Response.Items) > 0
+	// a page can be empty although there are further pages
+	return len(resultSet.Response.Items) > 0 || resultSet.Response.Cursor != ""
 }
 
 // Outputs collects/fetches the outputs result from the query.
-- 
2.43.0


From 7ec2915c44cd6eb853d8d7c2501d2a3f27c230c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 46/60] fix: indexer client returns an error instead of
 panicking on an unexpected reply

---
 nodeclient/indexer_client.go | 53 ++++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/nodeclient/indexer_client.go b/nodeclient/indexer_client.go
index c7925f9..42ea12f 100644
--- a/nodeclient/indexer_client.go
+++ b/nodeclient/indexer_client.go
@@ -82,7 +82,11 @@ func (resultSet *IndexerResultSet) Next() bool {
 
 // Outputs collects/fetches the outputs result from the query.
 func (resultSet *IndexerResultSet) Outputs(ctx context.Context) (iotago.Outputs[iotago.Output], error) {
-	outputIDs := resultSet.Response.Items.MustOutputIDs()
+	outputIDs, err := resultSet.Response.Items.OutputIDs()
+	if err != nil {
+		return nil, ierrors.Wrap(err, "invalid output IDs in the response")
+	}
+
 	outputs := make(iotago.Outputs[iotago.Output], len(outputIDs))
 	for i, outputID := range outputIDs {
 		output, err := resultSet.client.OutputByID(ctx, outputID)
@@ -164,7 +168,12 @@ func (client *indexerClient) singleOutputQuery(ctx context.Context, route string
 		return nil, nil, res.CommittedSlot, ierrors.WithMessagef(ErrIndexerNotFound, "route %s", route)
 	}
 
-	outputID := res.Items.MustOutputIDs()[0]
+	outputIDs, err := res.Items.OutputIDs()
+	if err != nil {
+		return nil, nil, res.CommittedSlot, ierrors.Wrap(err, "invalid output IDs in the response")
+	}
+	outputID := outputIDs[0]
+
 	output, err := client.core.OutputByID(ctx, outputID)
 	if err != nil {
 		return nil, nil, res.CommittedSlot, err
@@ -179,8 +188,12 @@ func (client *indexerClient) Account(ctx context.Context, accountAddress *iotago
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an AccountOutput
-	return outputID, output.(*iotago.AccountOutput), ledgerIndex, nil
+	accountOutput, ok := output.(*iotago.AccountOutput)
+	if !ok {
+		return nil, nil, ledgerIndex, ierrors.Errorf("the node returned %T instead of an account output", output)
+	}
+
+	return outputID, accountOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) Anchor(ctx context.Context, anchorAddress *iotago.AnchorAddress) (*iotago.OutputID, *iotago.AnchorOutput, iotago.SlotIndex, error) {
@@ -189,8 +202,12 @@ func (client *indexerClient) Anchor(ctx context.Context, anchorAddress *iotago.A
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an AnchorOutput
-	return outputID, output.(*iotago.AnchorOutput), ledgerIndex, nil
+	anchorOutput, ok := output.(*iotago.AnchorOutput)
+	if !ok {
+		return nil, nil, ledgerIndex, ierrors.Errorf("the node returned %T instead of an anchor output", output)
+	}
+
+	return outputID, anchorOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) Foundry(ctx context.Context, foundryID iotago.FoundryID) (*iotago.OutputID, *iotago.FoundryOutput, iotago.SlotIndex, error) {
@@ -199,8 +216,12 @@ func (client *indexerClient) Foundry(ctx context.Context, foundryID iotago.Found
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an FoundryOutput
-	return outputID, output.(*iotago.FoundryOutput), ledgerIndex, nil
+	foundryOutput, ok := output.(*iotago.FoundryOutput)
+	if !ok {
+		return nil, nil, ledgerIndex, ierrors.Errorf("the node returned %T instead of a foundry output", output)
+	}
+
+	return outputID, foundryOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) NFT(ctx context.Context, nftAddress *iotago.NFTAddress) (*iotago.OutputID, *iotago.NFTOutput, iotago.SlotIndex, error) {
@@ -209,8 +230,12 @@ func (client *indexerClient) NFT(ctx context.Context, nftAddress *iotago.NFTAddr
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is an NFTOutput
-	return outputID, output.(*iotago.NFTOutput), ledgerIndex, nil
+	nftOutput, ok := output.(*iotago.NFTOutput)
+	if !ok {
+		return nil, nil, ledgerIndex, ierrors.Errorf("the node returned %T instead of an NFT output", output)
+	}
+
+	return outputID, nftOutput, ledgerIndex, nil
 }
 
 func (client *indexerClient) Delegation(ctx context.Context, delegationID iotago.DelegationID) (*iotago.OutputID, *iotago.DelegationOutput, iotago.SlotIndex, error) {
@@ -219,6 +244,10 @@ func (client *indexerClient) Delegation(ctx context.Context, delegationID iotago
 		return nil, nil, ledgerIndex, err
 	}
 
-	//nolint:forcetypeassert // we can safely assume that this is a DelegationOutput
-	return outputID, output.(*iotago.DelegationOutput), ledgerIndex, nil
+	delegationOutput, ok := output.(*iotago.DelegationOutput)
+	if !ok {
+		return nil, nil, ledgerIndex, ierrors.Errorf("the node returned %T instead of a delegation output", output)
+	}
+
+	return outputID, delegationOutput, ledgerIndex, nil
 }
-- 
2.43.0


From a6691d3b9b2d92a9d5f6d3ce989b4dbb148d920f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 47/60] fix: a response without content is an error if content
 was requested

---
 nodeclient/http.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nodeclient/http.go b/nodeclient/http.go
index 48bf16e..c3cb9bf 100644
--- a/nodeclient/http.go
+++ b/nodeclient/http.go
@@ -57,6 +57,10 @@ func interpretBody(ctx context.Context, serixAPI *serix.API, res *http.Response,
 	defer res.Body.Close()
 
 	if res.StatusCode == http.StatusNoContent {
+		if decodeTo != nil {
+			return ierrors.WithMessagef(ErrHTTPUnknownError, "url %s, error message: empty response", res.Request.URL.String())
+		}
+
 		return nil
 	}
 
-- 
2.43.0


From ef6859625b09ec1dfb59a10b2853114708b0851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 48/60] fix: refuse nested addresses before decoding them, the
 nesting could exhaust the memory

---
 address_multi.go      | 40 ++++++++++++++++++++++++++++++++++++++++
 address_restricted.go | 21 +++++++++++++++++++++
 2 files changed, 61 insertions(+)

diff --git a/address_multi.go b/address_multi.go
index a2a7a10..1590720 100644
--- a/address_multi.go
+++ b/address_multi.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"io"
 	"sort"
+	"sync"
 
 	"golang.org/x/crypto/blake2b"
 
@@ -59,6 +60,37 @@ type MultiAddress struct {
 	Threshold uint16              `serix:""`
 }
 
+// addressSerixAPI is used by the addresses which deserialize themselves.
+var addressSerixAPI = sync.OnceValue(CommonSerixAPI)
+
+// multiAddressFields has the fields of a MultiAddress but does not deserialize itself.
+type multiAddressFields MultiAddress
+
+// Decode deserializes the fields of the MultiAddress.
+// It refuses nested multi and restricted addresses upfront, because the input could nest them arbitrarily deep.
+func (addr *MultiAddress) Decode(b []byte) (int, error) {
+	if len(b) > 0 {
+		// all other addresses have the same size
+		const addressWithWeightSize = serializer.SmallTypeDenotationByteSize + Ed25519AddressBytesLength + AddressWeightSerializedBytesSize
+
+		for i, pos := 0, serializer.OneByte; i < int(b[0]) && pos < len(b); i, pos = i+1, pos+addressWithWeightSize {
+			if err := checkMultiAddressElementType(AddressType(b[pos]), i); err != nil {
+				return 0, err
+			}
+		}
+	}
+
+	return addressSerixAPI().Decode(context.TODO(), b, (*multiAddressFields)(addr), serix.WithValidation())
+}
+
+func checkMultiAddressElementType(addressType AddressType, index int) error {
+	if addressType == AddressMulti || addressType == AddressRestricted {
+		return ierrors.WithMessagef(ErrInvalidNestedAddressType, "address with index %d is a %s inside a multi address", index, addressType)
+	}
+
+	return nil
+}
+
 func (addr *MultiAddress) Clone() Address {
 	cpy := &MultiAddress{
 		Addresses: make(AddressesWithWeight, 0, len(addr.Addresses)),
@@ -155,6 +187,14 @@ func MultiAddressFromReader(reader io.ReadSeeker) (Address, error) {
 
 	var addressesWithWeight AddressesWithWeight
 	if err := stream.ReadCollection(reader, serializer.SeriLengthPrefixTypeAsByte, func(index int) error {
+		addressType, err := stream.PeekSize(reader, serializer.SeriLengthPrefixTypeAsByte)
+		if err != nil {
+			return ierrors.Wrapf(err, "unable to read type of address %d", index)
+		}
+		if err := checkMultiAddressElementType(AddressType(addressType), index); err != nil {
+			return err
+		}
+
 		address, err := AddressFromReader(reader)
 		if err != nil {
 			return ierrors.Wrapf(err, "unable to read address %d", index)
diff --git a/address_restricted.go b/address_restricted.go
index 99da67d..ecf9330 100644
--- a/address_restricted.go
+++ b/address_restricted.go
@@ -20,6 +20,19 @@ type RestrictedAddress struct {
 	AllowedCapabilities AddressCapabilitiesBitMask `serix:",omitempty"`
 }
 
+// restrictedAddressFields has the fields of a RestrictedAddress but does not deserialize itself.
+type restrictedAddressFields RestrictedAddress
+
+// Decode deserializes the fields of the RestrictedAddress.
+// It refuses nested restricted addresses upfront, because the input could nest them arbitrarily deep.
+func (addr *RestrictedAddress) Decode(b []byte) (int, error) {
+	if len(b) > 0 && AddressType(b[0]) == AddressRestricted {
+		return 0, ierrors.WithMessage(ErrInvalidNestedAddressType, "underlying address is a restricted address inside a restricted address")
+	}
+
+	return addressSerixAPI().Decode(context.TODO(), b, (*restrictedAddressFields)(addr), serix.WithValidation())
+}
+
 func (addr *RestrictedAddress) Clone() Address {
 	return &RestrictedAddress{
 		Address:             addr.Address.Clone(),
@@ -125,6 +138,14 @@ func RestrictedAddressFromReader(reader io.ReadSeeker) (Address, error) {
 		return nil, ierrors.Wrap(err, "unable to skip address type byte")
 	}
 
+	addressType, err := stream.PeekSize(reader, serializer.SeriLengthPrefixTypeAsByte)
+	if err != nil {
+		return nil, ierrors.Wrap(err, "unable to read underlying address type")
+	}
+	if AddressType(addressType) == AddressRestricted {
+		return nil, ierrors.WithMessage(ErrInvalidNestedAddressType, "underlying address is a restricted address inside a restricted address")
+	}
+
 	address, err := AddressFromReader(reader)
 	if err != nil {
 		return nil, ierrors.Wrap(err, "unable to read restricted address")
-- 
2.43.0


From 13b7fe7beafe8113eda0ffa8dfa40fe6cf6f8017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 49/60] fix: refuse merkle proofs of an impossible depth before
 decoding them, the nesting could exhaust the memory

---
 merklehasher/merkle_proof.go | 41 ++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/merklehasher/merkle_proof.go b/merklehasher/merkle_proof.go
index 13e52a2..8b96bc6 100644
--- a/merklehasher/merkle_proof.go
+++ b/merklehasher/merkle_proof.go
@@ -18,7 +18,12 @@ const (
 	MerkleHashableTypeValueHash MerkleHashableType = 2
 )
 
+// maxProofDepth is the depth of the proof for the longest possible list of values.
+const maxProofDepth = 64
+
 var (
+	// ErrProofTooDeep gets returned when a serialized proof is deeper than any list of values needs.
+	ErrProofTooDeep = ierrors.New("the inclusion proof is too deep")
 	// ErrProofValueNotFound gets returned when the value for which to compute the proof was not found.
 	ErrProofValueNotFound = ierrors.New("the value for which to compute the inclusion proof was not found in the supplied list")
 )
@@ -248,6 +253,42 @@ func ProofFromJSON[V Value](bytes []byte) (*Proof[V], error) {
 	return p, nil
 }
 
+// Decode deserializes the proof.
+// It refuses proofs that are deeper than any list of values needs, because the input could nest nodes arbitrarily deep.
+func (p *Proof[V]) Decode(b []byte) (int, error) {
+	if _, err := skipHashable(b, 0); err != nil {
+		return 0, err
+	}
+
+	return serixAPI[V]().Decode(context.TODO(), b, &p.MerkleHashable)
+}
+
+// skipHashable returns the bytes after the serialized hashable, nil if there are none or if it is incomplete.
+func skipHashable(b []byte, depth int) (rest []byte, err error) {
+	if depth > maxProofDepth {
+		return nil, ErrProofTooDeep
+	}
+
+	if len(b) == 0 {
+		return nil, nil
+	}
+
+	if b[0] == MerkleHashableTypeNode {
+		if rest, err = skipHashable(b[1:], depth+1); err != nil {
+			return nil, err
+		}
+
+		return skipHashable(rest, depth+1)
+	}
+
+	// type, length and hash
+	if len(b) < 2 || len(b) < 2+int(b[1]) {
+		return nil, nil
+	}
+
+	return b[2+int(b[1]):], nil
+}
+
 func ProofFromBytes[V Value](bytes []byte) (*Proof[V], int, error) {
 	p := new(Proof[V])
 	count, err := serixAPI[V]().Decode(context.TODO(), bytes, p)
-- 
2.43.0


From c13dfbd425da03afaf41a57e580d2f5acbdc10a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 50/60] fix: refuse nested multi unlocks before decoding them,
 the nesting could exhaust the memory

---
 api_v3.go       | 47 ++++++++++++++++++++++++-----------------------
 unlock_multi.go | 37 +++++++++++++++++++++++++++++++++++++
 2 files changed, 61 insertions(+), 23 deletions(-)

diff --git a/api_v3.go b/api_v3.go
index 0393cae..01c0cee 100644
--- a/api_v3.go
+++ b/api_v3.go
@@ -250,12 +250,7 @@ func V3API(protoParams ProtocolParameters) API {
 		serix.TypeSettings{}.WithObjectType(uint8(PayloadCandidacyAnnouncement))),
 	)
 
-	{
-		must(api.RegisterTypeSettings(Ed25519Signature{},
-			serix.TypeSettings{}.WithObjectType(uint8(SignatureEd25519))),
-		)
-		must(api.RegisterInterfaceObjects((*Signature)(nil), (*Ed25519Signature)(nil)))
-	}
+	registerV3Unlocks(api)
 
 	{
 		must(api.RegisterTypeSettings(SenderFeature{},
@@ -363,23 +358,6 @@ func V3API(protoParams ProtocolParameters) API {
 		)
 	}
 
-	{
-		must(api.RegisterTypeSettings(SignatureUnlock{}, serix.TypeSettings{}.WithObjectType(uint8(UnlockSignature))))
-		must(api.RegisterTypeSettings(ReferenceUnlock{}, serix.TypeSettings{}.WithObjectType(uint8(UnlockReference))))
-		must(api.RegisterTypeSettings(AccountUnlock{}, serix.TypeSettings{}.WithObjectType(uint8(UnlockAccount))))
-		must(api.RegisterTypeSettings(AnchorUnlock{}, serix.TypeSettings{}.WithObjectType(uint8(UnlockAnchor))))
-		must(api.RegisterTypeSettings(NFTUnlock{}, serix.TypeSettings{}.WithObjectType(uint8(UnlockNFT))))
-		must(api.RegisterTypeSettings(MultiUnlock{}, serix.TypeSettings{}.WithObjectType(uint8(UnlockMulti))))
-		must(api.RegisterTypeSettings(EmptyUnlock{}, serix.TypeSettings{}.WithObjectType(uint8(UnlockEmpty))))
-		must(api.RegisterInterfaceObjects((*Unlock)(nil), (*SignatureUnlock)(nil)))
-		must(api.RegisterInterfaceObjects((*Unlock)(nil), (*ReferenceUnlock)(nil)))
-		must(api.RegisterInterfaceObjects((*Unlock)(nil), (*AccountUnlock)(nil)))
-		must(api.RegisterInterfaceObjects((*Unlock)(nil), (*AnchorUnlock)(nil)))
-		must(api.RegisterInterfaceObjects((*Unlock)(nil), (*NFTUnlock)(nil)))
-		must(api.RegisterInterfaceObjects((*Unlock)(nil), (*MultiUnlock)(nil)))
-		must(api.RegisterInterfaceObjects((*Unlock)(nil), (*EmptyUnlock)(nil)))
-	}
-
 	{
 		must(api.RegisterTypeSettings(BasicOutput{}, serix.TypeSettings{}.WithObjectType(uint8(OutputBasic))))
 
@@ -643,3 +621,26 @@ func V3API(protoParams ProtocolParameters) API {
 
 	return v3
 }
+
+// registerV3Unlocks registers the signatures and unlocks.
+func registerV3Unlocks(api *serix.API) {
+	must(api.RegisterTypeSettings(Ed25519Signature{},
+		serix.TypeSettings{}.WithObjectType(uint8(SignatureEd25519))),
+	)
+	must(api.RegisterInterfaceObjects((*Signature)(nil), (*Ed25519Signature)(nil)))
+
+	must(api.RegisterTypeSettings(SignatureUnlock{}, serix.TypeSettings{}.WithObjectType(uint8(UnlockSignature))))
+	must(api.RegisterTypeSettings(ReferenceUnlock{}, serix.TypeSettings{}.WithObjectType(uint8(UnlockReference))))
+	must(api.RegisterTypeSettings(AccountUnlock{}, serix.TypeSettings{}.WithObjectType(uint8(UnlockAccount))))
+	must(api.RegisterTypeSettings(AnchorUnlock{}, serix.TypeSettings{}.WithObjectType(uint8(UnlockAnchor))))
+	must(api.RegisterTypeSettings(NFTUnlock{}, serix.TypeSettings{}.WithObjectType(uint8(UnlockNFT))))
+	must(api.RegisterTypeSettings(MultiUnlock{}, serix.TypeSettings{}.WithObjectType(uint8(UnlockMulti))))
+	must(api.RegisterTypeSettings(EmptyUnlock{}, serix.TypeSettings{}.WithObjectType(uint8(UnlockEmpty))))
+	must(api.RegisterInterfaceObjects((*Unlock)(nil), (*SignatureUnlock)(nil)))
+	must(api.RegisterInterfaceObjects((*Unlock)(nil), (*ReferenceUnlock)(nil)))
+	must(api.RegisterInterfaceObjects((*Unlock)(nil), (*AccountUnlock)(nil)))
+	must(api.RegisterInterfaceObjects((*Unlock)(nil), (*AnchorUnlock)(nil)))
+	must(api.RegisterInterfaceObjects((*Unlock)(nil), (*NFTUnlock)(nil)))
+	must(api.RegisterInterfaceObjects((*Unlock)(nil), (*MultiUnlock)(nil)))
+	must(api.RegisterInterfaceObjects((*Unlock)(nil), (*EmptyUnlock)(nil)))
+}
diff --git a/unlock_multi.go b/unlock_multi.go
index eb3dbb5..6eff3fd 100644
--- a/unlock_multi.go
+++ b/unlock_multi.go
@@ -1,8 +1,13 @@
 package iotago
 
 import (
+	"context"
+	"sync"
+
+	"github.com/iotaledger/hive.go/ierrors"
 	"github.com/iotaledger/hive.go/lo"
 	"github.com/iotaledger/hive.go/serializer/v2"
+	"github.com/iotaledger/hive.go/serializer/v2/serix"
 )
 
 // MultiUnlock is an Unlock which holds a list of unlocks for a multi address.
@@ -11,6 +16,38 @@ type MultiUnlock struct {
 	Unlocks []Unlock `serix:",lenPrefix=uint8,minLen=2,maxLen=10"`
 }
 
+// multiUnlockFields has the fields of a MultiUnlock but does not deserialize itself.
+type multiUnlockFields MultiUnlock
+
+// multiUnlockSerixAPI is used by the multi unlocks which deserialize themselves.
+var multiUnlockSerixAPI = sync.OnceValue(func() *serix.API {
+	api := CommonSerixAPI()
+	registerV3Unlocks(api)
+
+	return api
+})
+
+// Decode deserializes the fields of the MultiUnlock.
+// It refuses nested multi unlocks upfront, because the input could nest them arbitrarily deep.
+func (u *MultiUnlock) Decode(b []byte) (int, error) {
+	if len(b) > 0 {
+		for i, pos := 0, serializer.OneByte; i < int(b[0]) && pos < len(b); i++ {
+			switch UnlockType(b[pos]) {
+			case UnlockMulti:
+				return 0, ierrors.WithMessagef(ErrNestedMultiUnlock, "unlock at index %d is invalid", i)
+			case UnlockSignature:
+				pos += serializer.SmallTypeDenotationByteSize + Ed25519SignatureSerializedBytesSize
+			case UnlockEmpty:
+				pos += serializer.SmallTypeDenotationByteSize
+			default:
+				pos += serializer.SmallTypeDenotationByteSize + serializer.UInt16ByteSize
+			}
+		}
+	}
+
+	return multiUnlockSerixAPI().Decode(context.TODO(), b, (*multiUnlockFields)(u), serix.WithValidation())
+}
+
 func (u *MultiUnlock) Clone() Unlock {
 	return &MultiUnlock{
 		Unlocks: lo.CloneSlice(u.Unlocks),
-- 
2.43.0


From 726144a0ff53b74c0e5a7f299200fd1e5c297e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 51/60] fix: report the mnemonic that restores a key manager

A key manager made from a mnemonic panicked in Mnemonic(), and the mnemonic
of one made from random entropy did not restore its keys.
---
 wallet/keymanager.go | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/wallet/keymanager.go b/wallet/keymanager.go
index 856615c..cf9967b 100644
--- a/wallet/keymanager.go
+++ b/wallet/keymanager.go
@@ -24,17 +24,33 @@ const (
 type KeyManager struct {
 	seed []byte
 	path bip32path.Path
+	// mnemonic is the sentence the seed was derived from, if there is one.
+	mnemonic bip39.Mnemonic
 }
 
 // NewKeyManagerFromRandom creates a new key manager from random entropy.
 func NewKeyManagerFromRandom(path string) (*KeyManager, error) {
-	// Generate random entropy by using ed25519 key generation and using the private key seed (32 bytes)
-	_, random, err := ed25519.GenerateKey(nil)
-	if err != nil {
-		return nil, ierrors.Wrap(err, "failed to generate random entropy")
-	}
+	for {
+		// Generate random entropy by using ed25519 key generation and using the private key seed (32 bytes)
+		_, random, err := ed25519.GenerateKey(nil)
+		if err != nil {
+			return nil, ierrors.Wrap(err, "failed to generate random entropy")
+		}
+
+		entropy := random.Seed()
+		if entropy[0] == 0 {
+			// the bip39 package can not read back the mnemonic of an entropy with leading zeros
+			continue
+		}
+
+		// derive the seed from the mnemonic of the entropy, so that the mnemonic restores the key manager
+		mnemonicSentence, err := bip39.EntropyToMnemonic(entropy)
+		if err != nil {
+			return nil, ierrors.Wrap(err, "failed to convert entropy to mnemonic")
+		}
 
-	return NewKeyManager(random.Seed(), path)
+		return NewKeyManagerFromMnemonic(mnemonicSentence.String(), path)
+	}
 }
 
 // NewKeyManagerFromMnemonic creates a new key manager from a mnemonic.
@@ -49,7 +65,13 @@ func NewKeyManagerFromMnemonic(mnemonic string, path string) (*KeyManager, error
 		return nil, ierrors.Wrap(err, "failed to convert mnemonic to seed")
 	}
 
-	return NewKeyManager(seed, path)
+	keyManager, err := NewKeyManager(seed, path)
+	if err != nil {
+		return nil, err
+	}
+	keyManager.mnemonic = mnemonicSentence
+
+	return keyManager, nil
 }
 
 // NewKeyManager creates a new key manager.
@@ -98,8 +120,13 @@ func (k *KeyManager) Path(index ...uint32) bip32path.Path {
 	return newPath
 }
 
-// Mnemonic returns the mnemonic of the key manager.
+// Mnemonic returns the mnemonic the key manager was created from,
+// or the mnemonic that encodes the seed if it was created from a seed.
 func (k *KeyManager) Mnemonic() bip39.Mnemonic {
+	if k.mnemonic != nil {
+		return lo.CopySlice(k.mnemonic)
+	}
+
 	mnemonic, err := bip39.EntropyToMnemonic(k.seed)
 	if err != nil {
 		panic(ierrors.Wrap(err, "failed to convert seed to mnemonic"))
-- 
2.43.0


From 30e67b011d54fae572fcfeb8ee40433a5f3400a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 52/60] fix: do not share the seed and the path of a key
 manager with its users

Wiping the seed after creating a key manager, or changing the path it
returned, changed the keys it derives.
---
 wallet/keymanager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wallet/keymanager.go b/wallet/keymanager.go
index cf9967b..7509e89 100644
--- a/wallet/keymanager.go
+++ b/wallet/keymanager.go
@@ -82,7 +82,7 @@ func NewKeyManager(seed []byte, path string) (*KeyManager, error) {
 	}
 
 	return &KeyManager{
-		seed: seed,
+		seed: lo.CopySlice(seed),
 		path: bip32Path,
 	}, nil
 }
@@ -103,7 +103,7 @@ func (k *KeyManager) KeyPair(index ...uint32) (ed25519.PrivateKey, ed25519.Publi
 func (k *KeyManager) Path(index ...uint32) bip32path.Path {
 	if len(index) == 0 {
 		// no additional index given, use the internal path
-		return k.path
+		return lo.CopySlice(k.path)
 	}
 
 	// new index given, check if the internal path contains the index part
-- 
2.43.0


From 1b4d83aefe76bff2cff54970292ac9cf5b80721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 53/60] fix: find the key of a restricted address in the
 in-memory signer

Keys mapped with NewAddressKeysForRestrictedEd25519Address were never found,
so the signer refused to sign for the very address it holds the key of.
---
 address_signer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/address_signer.go b/address_signer.go
index 6dbcb7e..d5b9fda 100644
--- a/address_signer.go
+++ b/address_signer.go
@@ -103,7 +103,7 @@ type InMemoryAddressSigner struct {
 
 // privateKeyForAddress returns the private key for the given address.
 func (s *InMemoryAddressSigner) privateKeyForAddress(addr Address) (crypto.PrivateKey, error) {
-	privateKeyForEd25519Address := func(edAddr DirectUnlockableAddress) (ed25519.PrivateKey, error) {
+	privateKeyForEd25519Address := func(edAddr Address) (ed25519.PrivateKey, error) {
 		maybePrvKey, ok := s.addrKeys[edAddr.Key()]
 		if !ok {
 			return nil, ierrors.Errorf("can't sign message for Ed25519 address: %w", ErrAddressKeysNotMapped)
@@ -124,6 +124,11 @@ func (s *InMemoryAddressSigner) privateKeyForAddress(addr Address) (crypto.Priva
 	case *RestrictedAddress:
 		switch underlyingAddr := address.Address.(type) {
 		case *Ed25519Address:
+			// prefer the key that was mapped to the restricted address itself
+			if _, ok := s.addrKeys[address.Key()]; ok {
+				return privateKeyForEd25519Address(address)
+			}
+
 			return privateKeyForEd25519Address(underlyingAddr)
 		default:
 			panic(fmt.Sprintf("underlying address type %T in restricted address is not supported in the address signer since it only handles addresses backed by keypairs", addr))
-- 
2.43.0


From 33bb2442cc3d065aecddb079a390f3acb65240a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 54/60] fix: do not cache the bytes, hash and network ID of the
 protocol parameters

Bytes read its cache before taking the lock, a data race between concurrent
callers, and the cached values raced with the encoding of the parameters,
which copies them. Callers also received the cache itself.
---
 api_v3_protocol_parameters.go | 43 +++--------------------------------
 1 file changed, 3 insertions(+), 40 deletions(-)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index c679324..04706d2 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"fmt"
 	"math"
-	"sync"
 	"time"
 
 	"github.com/iotaledger/hive.go/core/safemath"
@@ -15,15 +14,6 @@ import (
 // V3ProtocolParameters defines the parameters of the protocol.
 type V3ProtocolParameters struct {
 	basicProtocolParameters `serix:""`
-
-	hashIdentifier Identifier
-	hashOnce       sync.Once
-
-	bytes      []byte
-	bytesMutex sync.Mutex
-
-	networkID     NetworkID
-	networkIDOnce sync.Once
 }
 
 var _ ProtocolParameters = &V3ProtocolParameters{}
@@ -57,11 +47,7 @@ func (p *V3ProtocolParameters) TokenSupply() BaseToken {
 }
 
 func (p *V3ProtocolParameters) NetworkID() NetworkID {
-	p.networkIDOnce.Do(func() {
-		p.networkID = NetworkIDFromString(p.basicProtocolParameters.NetworkName)
-	})
-
-	return p.networkID
+	return NetworkIDFromString(p.basicProtocolParameters.NetworkName)
 }
 
 // GenesisBlockID defines the block ID of the genesis block.
@@ -147,26 +133,7 @@ func (p *V3ProtocolParameters) ChainSwitchingThreshold() uint8 {
 }
 
 func (p *V3ProtocolParameters) Bytes() ([]byte, error) {
-	if len(p.bytes) > 0 {
-		return p.bytes, nil
-	}
-
-	p.bytesMutex.Lock()
-	defer p.bytesMutex.Unlock()
-
-	// Check if some other goroutine cached the bytes while waiting for the lock.
-	if len(p.bytes) > 0 {
-		return p.bytes, nil
-	}
-
-	bytes, err := CommonSerixAPI().Encode(context.TODO(), p)
-	if err != nil {
-		return nil, err
-	}
-
-	p.bytes = bytes
-
-	return p.bytes, nil
+	return CommonSerixAPI().Encode(context.TODO(), p)
 }
 
 func (p *V3ProtocolParameters) Hash() (Identifier, error) {
@@ -175,11 +142,7 @@ func (p *V3ProtocolParameters) Hash() (Identifier, error) {
 		return Identifier{}, err
 	}
 
-	p.hashOnce.Do(func() {
-		p.hashIdentifier = IdentifierFromData(bytes)
-	})
-
-	return p.hashIdentifier, nil
+	return IdentifierFromData(bytes), nil
 }
 
 func (p *V3ProtocolParameters) String() string {
-- 
2.43.0


From 165737749a8610edbb6347091055ad815931a37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 55/60] fix: pow.Worker.Mine reports an impossible target
 instead of a cancellation

---
 blockissuer/pow/worker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blockissuer/pow/worker.go b/blockissuer/pow/worker.go
index a2af40a..456fff6 100644
--- a/blockissuer/pow/worker.go
+++ b/blockissuer/pow/worker.go
@@ -42,6 +42,10 @@ func New(numWorkers ...int) *Worker {
 // It returns a nonce that appended to data results in at least targetTrailingZeros.
 // The computation can be canceled anytime using ctx.
 func (w *Worker) Mine(ctx context.Context, data []byte, targetTrailingZeros int) (uint64, error) {
+	if targetTrailingZeros > MaxTrailingZeros {
+		return 0, ErrInvalidTargetTrailingZeroes
+	}
+
 	var (
 		done    uint32
 		wg      sync.WaitGroup
-- 
2.43.0


From 6353b0270f77f93c37a6c25ebdd9e5a19f90f519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 56/60] fix: AddProtocolParametersAtEpoch adds parameters and
 version in one step

---
 api_epoch_based_provider.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/api_epoch_based_provider.go b/api_epoch_based_provider.go
index 892ec7f..bdf036d 100644
--- a/api_epoch_based_provider.go
+++ b/api_epoch_based_provider.go
@@ -52,14 +52,22 @@ func (e *EpochBasedProvider) SetCommittedSlot(slot SlotIndex) {
 }
 
 func (e *EpochBasedProvider) AddProtocolParametersAtEpoch(protocolParameters ProtocolParameters, epoch EpochIndex) {
-	e.AddProtocolParameters(protocolParameters)
-	e.AddVersion(protocolParameters.Version(), epoch)
+	e.mutex.Lock()
+	defer e.mutex.Unlock()
+
+	// both steps need to happen under the same lock, otherwise parameters without a start epoch can be observed.
+	e.addProtocolParameters(protocolParameters)
+	e.addVersion(protocolParameters.Version(), epoch)
 }
 
 func (e *EpochBasedProvider) AddProtocolParameters(protocolParameters ProtocolParameters) {
 	e.mutex.Lock()
 	defer e.mutex.Unlock()
 
+	e.addProtocolParameters(protocolParameters)
+}
+
+func (e *EpochBasedProvider) addProtocolParameters(protocolParameters ProtocolParameters) {
 	e.protocolParametersByVersion[protocolParameters.Version()] = protocolParameters
 	delete(e.futureProtocolParametersByVersion, protocolParameters.Version())
 
@@ -72,6 +80,10 @@ func (e *EpochBasedProvider) AddVersion(version Version, epoch EpochIndex) {
 	e.mutex.Lock()
 	defer e.mutex.Unlock()
 
+	e.addVersion(version, epoch)
+}
+
+func (e *EpochBasedProvider) addVersion(version Version, epoch EpochIndex) {
 	e.protocolVersions.Add(version, epoch)
 
 	e.committedSlotMutex.Lock()
-- 
2.43.0


From b19079d7ca13b1602efb024696975633ad8d232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 57/60] fix: EpochBasedProvider does not keep an API of
 replaced protocol parameters

---
 api_epoch_based_provider.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/api_epoch_based_provider.go b/api_epoch_based_provider.go
index bdf036d..b6f4663 100644
--- a/api_epoch_based_provider.go
+++ b/api_epoch_based_provider.go
@@ -68,11 +68,23 @@ func (e *EpochBasedProvider) AddProtocolParameters(protocolParameters ProtocolPa
 }
 
 func (e *EpochBasedProvider) addProtocolParameters(protocolParameters ProtocolParameters) {
-	e.protocolParametersByVersion[protocolParameters.Version()] = protocolParameters
-	delete(e.futureProtocolParametersByVersion, protocolParameters.Version())
+	version := protocolParameters.Version()
+	delete(e.futureProtocolParametersByVersion, version)
 
-	if e.latestAPI == nil || e.latestAPI.Version() < protocolParameters.Version() {
-		e.latestAPI = lo.PanicOnErr(e.apiForVersion(protocolParameters.Version()))
+	if known, exists := e.protocolParametersByVersion[version]; exists && known.Equals(protocolParameters) {
+		return
+	}
+
+	e.protocolParametersByVersion[version] = protocolParameters
+
+	// an API built from replaced parameters of the same version must not be kept.
+	if e.latestAPI == nil || e.latestAPI.Version() <= version {
+		e.latestAPI = lo.PanicOnErr(e.newAPI(protocolParameters))
+	}
+
+	if e.committedAPI != nil && e.committedAPI.Version() == version {
+		e.committedAPI = nil
+		e.committedAPI = lo.PanicOnErr(e.apiForVersion(version))
 	}
 }
 
@@ -114,6 +126,10 @@ func (e *EpochBasedProvider) apiForVersion(version Version) (API, error) {
 		return nil, ierrors.Errorf("protocol parameters for version %d are not set", version)
 	}
 
+	return e.newAPI(protocolParams)
+}
+
+func (e *EpochBasedProvider) newAPI(protocolParams ProtocolParameters) (API, error) {
 	//nolint:gocritic // further version will be added here
 	switch protocolParams.Version() {
 	case 3:
-- 
2.43.0


From 567abe17f4a59b4ff66bfefbaf9dcf8153a2d99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 58/60] fix: EpochBasedProvider switches the committed API when
 its parameters arrive late

---
 api_epoch_based_provider.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/api_epoch_based_provider.go b/api_epoch_based_provider.go
index b6f4663..81c1107 100644
--- a/api_epoch_based_provider.go
+++ b/api_epoch_based_provider.go
@@ -86,6 +86,15 @@ func (e *EpochBasedProvider) addProtocolParameters(protocolParameters ProtocolPa
 		e.committedAPI = nil
 		e.committedAPI = lo.PanicOnErr(e.apiForVersion(version))
 	}
+
+	// the parameters can belong to the version that is already in force at the committed slot.
+	e.committedSlotMutex.RLock()
+	defer e.committedSlotMutex.RUnlock()
+
+	committedEpoch := e.latestAPI.TimeProvider().EpochFromSlot(e.committedSlot)
+	if startEpoch, scheduled := e.protocolVersions.EpochForVersion(version); scheduled && startEpoch <= committedEpoch && e.versionForEpoch(committedEpoch) == version {
+		e.updateCommittedAPI(e.committedSlot)
+	}
 }
 
 func (e *EpochBasedProvider) AddVersion(version Version, epoch EpochIndex) {
-- 
2.43.0


From b0bcb99383647a000287f31c8703dd227ec3d467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:37 +0000
Subject: [PATCH 59/60] fix: refuse protocol parameters whose derived values do
 not fit their types

---
 api_v3_protocol_parameters.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index 04706d2..768e580 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -249,6 +249,9 @@ func deriveManaDecayFactors(annualDecayFactorPercentage uint8, slotsPerEpochExpo
 
 	for epoch := 1; epoch <= epochsInTable; epoch++ {
 		decayFactor := math.Pow(decayFactorPerEpoch, float64(epoch)) * (math.Pow(2, float64(decayFactorsExponent)))
+		if decayFactor >= math.Pow(2, 32) {
+			panic("decay factors must not require more than 32 bits")
+		}
 		decayFactors[epoch-1] = uint32(decayFactor)
 	}
 
@@ -260,7 +263,13 @@ func deriveManaDecayFactorEpochsSum(annualDecayFactorPercentage uint8, slotsPerE
 	delta := math.Pow(2, float64(slotsPerEpochExponent)) * (1.0 / (365.0 * 24.0 * 60.0 * 60.0)) * float64(slotDurationSeconds)
 	annualDecayFactor := float64(annualDecayFactorPercentage) / 100.0
 
-	return uint32((math.Pow(annualDecayFactor, delta) / (1 - math.Pow(annualDecayFactor, delta)) * (math.Pow(2, float64(decayFactorEpochsSumExponent)))))
+	decayFactorEpochsSum := math.Pow(annualDecayFactor, delta) / (1 - math.Pow(annualDecayFactor, delta)) * (math.Pow(2, float64(decayFactorEpochsSumExponent)))
+	// the sum is infinite without decay and negative if Mana grows over time
+	if !(decayFactorEpochsSum >= 0 && decayFactorEpochsSum < math.Pow(2, 32)) {
+		panic("decayFactorEpochsSum must not require more than 32 bits")
+	}
+
+	return uint32(decayFactorEpochsSum)
 }
 
 // deriveBootstrappingDuration computes the bootstrapping duration using floating point arithmetic.
@@ -298,6 +307,9 @@ func deriveTargetRewardsRates(protoParams ProtocolParameters) (Mana, Mana) {
 	decayBalancingConstant := 1 / math.Pow(annualDecayFactor, bootstrappingDurationInYears)
 
 	initialTargetRewardsRate := float64(finalTargetRewardsRate) * decayBalancingConstant
+	if initialTargetRewardsRate >= math.Pow(2, 64) {
+		panic("failed to calculate target reward due to multiplication with decayBalancingConstant overflow")
+	}
 
 	return Mana(initialTargetRewardsRate), Mana(finalTargetRewardsRate)
 }
-- 
2.43.0


From 965d8a7da81cceb20605ed9035ee224cd008a347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:39 +0000
Subject: [PATCH 60/60] fix: count the bits of the token supply exactly in the
 staking sanity check

---
 api_v3_protocol_parameters.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api_v3_protocol_parameters.go b/api_v3_protocol_parameters.go
index 768e580..aed77f7 100644
--- a/api_v3_protocol_parameters.go
+++ b/api_v3_protocol_parameters.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"math"
+	"math/bits"
 	"time"
 
 	"github.com/iotaledger/hive.go/core/safemath"
@@ -362,7 +363,8 @@ func congestionControlSanityCheck(protocolParams *V3ProtocolParameters) {
 }
 
 func stakingSanityCheck(protocolParams *V3ProtocolParameters) {
-	tokenSupplyBitsCount := uint8(math.Log2(float64(protocolParams.TokenSupply()))) + 1
+	// a float64 would round supplies of more than 53 bits up to the next power of two
+	tokenSupplyBitsCount := uint8(bits.Len64(uint64(protocolParams.TokenSupply())))
 	poolCoefficientExponent := protocolParams.RewardsParameters().PoolCoefficientExponent
 	if poolCoefficientExponent > 64 || tokenSupplyBitsCount+poolCoefficientExponent > 64 {
 		message := fmt.Sprintf("Token supply bits count (%d) + PoolCoefficientExponent (%d) must be less than or equal to 64\n", tokenSupplyBitsCount, protocolParams.RewardsParameters().PoolCoefficientExponent)
-- 
2.43.0

