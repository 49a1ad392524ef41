// Package ref holds the reference models: independent, deliberately boring re-statements of what the
// protocol prescribes. They read only the exported data fields of iota.go objects, never their methods.
package ref

import (
	"bytes"
	"encoding/binary"
	"math/big"
	"sort"
	"time"

	"golang.org/x/crypto/blake2b"

	iotago "github.com/iotaledger/iota.go/v4"
)

func u16(v uint16) []byte { return binary.LittleEndian.AppendUint16(nil, v) }
func u32(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }
func u64(v uint64) []byte { return binary.LittleEndian.AppendUint64(nil, v) }

// U256 is the 32 byte little endian form.
func U256(v *big.Int) []byte {
	b := make([]byte, 32)
	if v == nil {
		return b
	}
	be := v.Bytes()
	for i := range be {
		b[len(be)-1-i] = be[i]
	}
	return b
}

// Blake is BLAKE2b-256.
func Blake(bs ...[]byte) []byte {
	h, _ := blake2b.New256(nil)
	for _, b := range bs {
		h.Write(b)
	}
	return h.Sum(nil)
}

func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

func list8[T any](l []T) []byte {
	out := []byte{byte(len(l))}
	for _, e := range l {
		out = append(out, Enc(e)...)
	}
	return out
}

func list16[T any](l []T) []byte {
	out := u16(uint16(len(l)))
	for _, e := range l {
		out = append(out, Enc(e)...)
	}
	return out
}

func bytes8(b []byte) []byte  { return append([]byte{byte(len(b))}, b...) }
func bytes32(b []byte) []byte { return append(u32(uint32(len(b))), b...) }

func entries(m map[string][]byte) []byte {
	var es [][]byte
	for k, v := range m {
		es = append(es, cat(bytes8([]byte(k)), u16(uint16(len(v))), v))
	}
	sort.Slice(es, func(i, j int) bool { return bytes.Compare(es[i], es[j]) < 0 })
	return append([]byte{byte(len(es))}, cat(es...)...)
}

// Enc encodes an object to the protocol's binary layout.
func Enc(v any) []byte {
	switch x := v.(type) {
	// addresses
	case *iotago.Ed25519Address:
		return cat([]byte{0}, x[:])
	case *iotago.AccountAddress:
		return cat([]byte{8}, x[:])
	case *iotago.NFTAddress:
		return cat([]byte{16}, x[:])
	case *iotago.AnchorAddress:
		return cat([]byte{24}, x[:])
	case *iotago.ImplicitAccountCreationAddress:
		return cat([]byte{32}, x[:])
	case *iotago.MultiAddress:
		out := []byte{40, byte(len(x.Addresses))}
		for _, a := range x.Addresses {
			out = append(out, Enc(a.Address)...)
			out = append(out, a.Weight)
		}
		return append(out, u16(x.Threshold)...)
	case *iotago.RestrictedAddress:
		return cat([]byte{48}, Enc(x.Address), bytes8(x.AllowedCapabilities))
	// unlock conditions
	case *iotago.AddressUnlockCondition:
		return cat([]byte{0}, Enc(x.Address))
	case *iotago.StorageDepositReturnUnlockCondition:
		return cat([]byte{1}, Enc(x.ReturnAddress), u64(uint64(x.Amount)))
	case *iotago.TimelockUnlockCondition:
		return cat([]byte{2}, u32(uint32(x.Slot)))
	case *iotago.ExpirationUnlockCondition:
		return cat([]byte{3}, Enc(x.ReturnAddress), u32(uint32(x.Slot)))
	case *iotago.StateControllerAddressUnlockCondition:
		return cat([]byte{4}, Enc(x.Address))
	case *iotago.GovernorAddressUnlockCondition:
		return cat([]byte{5}, Enc(x.Address))
	case *iotago.ImmutableAccountUnlockCondition:
		return cat([]byte{6}, Enc(x.Address))
	// features
	case *iotago.SenderFeature:
		return cat([]byte{0}, Enc(x.Address))
	case *iotago.IssuerFeature:
		return cat([]byte{1}, Enc(x.Address))
	case *iotago.MetadataFeature:
		m := map[string][]byte{}
		for k, b := range x.Entries {
			m[string(k)] = b
		}
		return cat([]byte{2}, entries(m))
	case *iotago.StateMetadataFeature:
		m := map[string][]byte{}
		for k, b := range x.Entries {
			m[string(k)] = b
		}
		return cat([]byte{3}, entries(m))
	case *iotago.TagFeature:
		return cat([]byte{4}, bytes8(x.Tag))
	case *iotago.NativeTokenFeature:
		return cat([]byte{5}, x.ID[:], U256(x.Amount))
	case *iotago.BlockIssuerFeature:
		return cat([]byte{6}, u32(uint32(x.ExpirySlot)), list8(x.BlockIssuerKeys))
	case *iotago.StakingFeature:
		return cat([]byte{7}, u64(uint64(x.StakedAmount)), u64(uint64(x.FixedCost)), u32(uint32(x.StartEpoch)), u32(uint32(x.EndEpoch)))
	case *iotago.Ed25519PublicKeyHashBlockIssuerKey:
		return cat([]byte{0}, x.PublicKeyHash[:])
	// outputs
	case *iotago.BasicOutput:
		return cat([]byte{0}, u64(uint64(x.Amount)), u64(uint64(x.Mana)), list8(x.UnlockConditions), list8(x.Features))
	case *iotago.AccountOutput:
		return cat([]byte{1}, u64(uint64(x.Amount)), u64(uint64(x.Mana)), x.AccountID[:], u32(x.FoundryCounter), list8(x.UnlockConditions), list8(x.Features), list8(x.ImmutableFeatures))
	case *iotago.AnchorOutput:
		return cat([]byte{2}, u64(uint64(x.Amount)), u64(uint64(x.Mana)), x.AnchorID[:], u32(x.StateIndex), list8(x.UnlockConditions), list8(x.Features), list8(x.ImmutableFeatures))
	case *iotago.FoundryOutput:
		return cat([]byte{3}, u64(uint64(x.Amount)), u32(x.SerialNumber), Enc(x.TokenScheme), list8(x.UnlockConditions), list8(x.Features), list8(x.ImmutableFeatures))
	case *iotago.NFTOutput:
		return cat([]byte{4}, u64(uint64(x.Amount)), u64(uint64(x.Mana)), x.NFTID[:], list8(x.UnlockConditions), list8(x.Features), list8(x.ImmutableFeatures))
	case *iotago.DelegationOutput:
		return cat([]byte{5}, u64(uint64(x.Amount)), u64(uint64(x.DelegatedAmount)), x.DelegationID[:], Enc(x.ValidatorAddress), u32(uint32(x.StartEpoch)), u32(uint32(x.EndEpoch)), list8(x.UnlockConditions))
	case *iotago.SimpleTokenScheme:
		return cat([]byte{0}, U256(x.MintedTokens), U256(x.MeltedTokens), U256(x.MaximumSupply))
	// signatures and unlocks
	case *iotago.Ed25519Signature:
		return cat([]byte{0}, x.PublicKey[:], x.Signature[:])
	case *iotago.SignatureUnlock:
		return cat([]byte{0}, Enc(x.Signature))
	case *iotago.ReferenceUnlock:
		return cat([]byte{1}, u16(x.Reference))
	case *iotago.AccountUnlock:
		return cat([]byte{2}, u16(x.Reference))
	case *iotago.AnchorUnlock:
		return cat([]byte{3}, u16(x.Reference))
	case *iotago.NFTUnlock:
		return cat([]byte{4}, u16(x.Reference))
	case *iotago.MultiUnlock:
		return cat([]byte{5}, list8(x.Unlocks))
	case *iotago.EmptyUnlock:
		return []byte{6}
	// inputs
	case *iotago.UTXOInput:
		return cat([]byte{0}, x.TransactionID[:], u16(x.TransactionOutputIndex))
	case *iotago.CommitmentInput:
		return cat([]byte{0}, x.CommitmentID[:])
	case *iotago.BlockIssuanceCreditInput:
		return cat([]byte{1}, x.AccountID[:])
	case *iotago.RewardInput:
		return cat([]byte{2}, u16(x.Index))
	case *iotago.Allotment:
		return cat(x.AccountID[:], u64(uint64(x.Mana)))
	// payloads
	case *iotago.TaggedData:
		return cat([]byte{0}, bytes8(x.Tag), bytes32(x.Data))
	case *iotago.CandidacyAnnouncement:
		return []byte{2}
	case *iotago.TransactionEssence:
		out := cat(u64(uint64(x.NetworkID)), u32(uint32(x.CreationSlot)), list16(x.ContextInputs), list16(x.Inputs), list16(x.Allotments), bytes8(x.Capabilities))
		if x.Payload == nil {
			return append(out, u32(0)...)
		}
		p := Enc(x.Payload)
		return cat(out, u32(uint32(len(p))), p)
	case *iotago.Transaction:
		return cat(Enc(x.TransactionEssence), list16(x.Outputs))
	case *iotago.SignedTransaction:
		return cat([]byte{1}, Enc(x.Transaction), list16(x.Unlocks))
	// blocks
	case *iotago.BlockHeader:
		return cat([]byte{byte(x.ProtocolVersion)}, u64(uint64(x.NetworkID)), u64(unixNano(x.IssuingTime)), x.SlotCommitmentID[:], u32(uint32(x.LatestFinalizedSlot)), x.IssuerID[:])
	case iotago.BlockHeader:
		return Enc(&x)
	case *iotago.BasicBlockBody:
		return cat([]byte{0}, ids8(x.StrongParents), ids8(x.WeakParents), ids8(x.ShallowLikeParents), optPayload(x.Payload), u64(uint64(x.MaxBurnedMana)))
	case *iotago.ValidationBlockBody:
		return cat([]byte{1}, ids8(x.StrongParents), ids8(x.WeakParents), ids8(x.ShallowLikeParents), []byte{byte(x.HighestSupportedVersion)}, x.ProtocolParametersHash[:])
	case *iotago.Block:
		return cat(Enc(&x.Header), Enc(x.Body), Enc(x.Signature))
	case *iotago.Attestation:
		return cat(Enc(&x.Header), x.BodyHash[:], Enc(x.Signature))
	case *iotago.Commitment:
		return cat([]byte{byte(x.ProtocolVersion)}, u32(uint32(x.Slot)), x.PreviousCommitmentID[:], x.RootsID[:], u64(x.CumulativeWeight), u64(uint64(x.ReferenceManaCost)))
	}
	return encMore(v)
}

func optPayload(p iotago.ApplicationPayload) []byte {
	if p == nil {
		return u32(0)
	}
	b := Enc(p)
	return cat(u32(uint32(len(b))), b)
}

func ids8(ids []iotago.BlockID) []byte {
	out := []byte{byte(len(ids))}
	for _, id := range ids {
		out = append(out, id[:]...)
	}
	return out
}

func unixNano(t time.Time) uint64 { return uint64(t.Unix())*1e9 + uint64(t.Nanosecond()) }

// Size is the encoded size.
func Size(v any) int { return len(Enc(v)) }

// AddrKey identifies an address.
func AddrKey(a iotago.Address) string { return string(Enc(a)) }

// Underlying strips the restriction of a restricted address.
func Underlying(a iotago.Address) iotago.Address {
	if r, ok := a.(*iotago.RestrictedAddress); ok {
		return r.Address
	}
	return a
}

// SlotID appends the slot index to a digest.
func SlotID(digest []byte, slot iotago.SlotIndex) []byte { return cat(digest, u32(uint32(slot))) }

// TxID computes the transaction identifier: hash of (transaction commitment, output commitment) plus creation slot.
func TxID(tx *iotago.Transaction) iotago.TransactionID {
	var id iotago.TransactionID
	copy(id[:], SlotID(Blake(TxCommitment(tx), OutputsRoot(tx)), tx.TransactionEssence.CreationSlot))
	return id
}

// TxCommitment is the digest of the essence.
func TxCommitment(tx *iotago.Transaction) []byte { return Blake(Enc(tx.TransactionEssence)) }

// OutputsRoot is the Merkle root of the outputs.
func OutputsRoot(tx *iotago.Transaction) []byte {
	var vs [][]byte
	for _, o := range tx.Outputs {
		vs = append(vs, Enc(o))
	}
	return MerkleRoot(vs)
}

// MerkleRoot is the RFC 6962 style tree hash with BLAKE2b-256.
func MerkleRoot(vs [][]byte) []byte {
	switch len(vs) {
	case 0:
		return Blake(nil)
	case 1:
		return Blake([]byte{0}, vs[0])
	}
	k := 1
	for k*2 < len(vs) {
		k *= 2
	}
	return Blake([]byte{1}, MerkleRoot(vs[:k]), MerkleRoot(vs[k:]))
}

// OutputIDOf builds an output identifier.
func OutputIDOf(id iotago.TransactionID, idx uint16) iotago.OutputID {
	var o iotago.OutputID
	copy(o[:], id[:])
	binary.LittleEndian.PutUint16(o[len(id):], idx)
	return o
}

// SlotOf reads the creation slot of an output ID.
func SlotOf(o iotago.OutputID) iotago.SlotIndex {
	return iotago.SlotIndex(binary.LittleEndian.Uint32(o[32:36]))
}

// SigMsg is the message signed for a transaction.
func SigMsg(tx *iotago.Transaction) []byte { return Blake(Enc(tx)) }

// FoundryID computes the identifier of a foundry.
func FoundryID(f *iotago.FoundryOutput) (id iotago.FoundryID) {
	for _, uc := range f.UnlockConditions {
		if ia, ok := any(uc).(*iotago.ImmutableAccountUnlockCondition); ok {
			copy(id[:], cat(Enc(ia.Address), u32(f.SerialNumber), []byte{0}))
		}
	}
	return
}

// Fill is n bytes of b.
func Fill(b byte, n int) []byte { return bytes.Repeat([]byte{b}, n) }
