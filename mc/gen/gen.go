// Package gen builds the deterministic fixtures all checks share: APIs, keys, addresses, resolved inputs
// and signed transactions.
package gen

import (
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"sync"

	"golang.org/x/crypto/blake2b"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/ref"
)

// ProtoParams builds the protocol parameters for a plain record and fills in its derived fields.
func ProtoParams(p *ref.Params) *iotago.V3ProtocolParameters {
	pp := iotago.NewV3SnapshotProtocolParameters(
		iotago.WithVersion(iotago.Version(p.Version)),
		iotago.WithNetworkOptions(p.Name, iotago.NetworkPrefix(p.HRP)),
		iotago.WithStorageOptions(iotago.BaseToken(p.StorageCost), iotago.StorageScoreFactor(p.FactorData), iotago.StorageScore(p.OffOutput), iotago.StorageScore(p.OffKey), iotago.StorageScore(p.OffStaking), iotago.StorageScore(p.OffDelegation)),
		iotago.WithWorkScoreOptions(ws(p.Work.DataByte), ws(p.Work.Block), ws(p.Work.Input), ws(p.Work.ContextInput), ws(p.Work.Output), ws(p.Work.NativeToken), ws(p.Work.Staking), ws(p.Work.BlockIssuer), ws(p.Work.Allotment), ws(p.Work.Sig)),
		iotago.WithTimeProviderOptions(iotago.SlotIndex(p.GenesisSlot), p.GenesisUnix, p.SlotDur, p.EpochExp),
		iotago.WithLivenessOptions(p.LiveLower, p.LiveUpper, iotago.SlotIndex(p.MinCA), iotago.SlotIndex(p.MaxCA), iotago.SlotIndex(p.Nearing)),
		iotago.WithSupplyOptions(1000, 63, 1, p.EpochExp+8, 32, 1, 70), // placeholder passing the sanity checks, replaced below
		iotago.WithCongestionControlOptions(iotago.Mana(p.MinRMC), iotago.Mana(p.RMCInc), iotago.Mana(p.RMCDec), ws(p.IncThr), ws(p.DecThr), ws(p.SchedRate), p.MaxBuf, p.MaxValBuf),
		iotago.WithStakingOptions(iotago.EpochIndex(p.Unbonding), p.ValBlocks, iotago.EpochIndex(p.Punish)),
		iotago.WithVersionSignalingOptions(p.Signal[0], p.Signal[1], p.Signal[2]),
		iotago.WithRewardsOptions(p.Profit, p.Pool, p.Ratio, p.Retention),
		iotago.WithTargetCommitteeSize(p.Committee),
		iotago.WithChainSwitchingThreshold(p.Switch),
	)
	// the supply and mana parameters are set after construction: the sanity checks of the snapshot constructor
	// are about economics (year-long projections) which the small models of the checks do not meet
	iotago.WithSupplyOptions(iotago.BaseToken(p.Supply), p.Bits, p.GenRate, p.GenExp, p.DecayExp, p.SumExp, p.AnnualPct)(pp)
	m := pp.ManaParameters()
	if p.DecayFactors != nil {
		m.DecayFactors = append([]uint32{}, p.DecayFactors...)
		m.DecayFactorEpochsSum = p.DecaySum
	} else {
		p.DecayFactors = append([]uint32{}, m.DecayFactors...)
		p.DecaySum = m.DecayFactorEpochsSum
	}
	h := blake2b.Sum256([]byte(p.Name))
	p.NetworkID = binary.LittleEndian.Uint64(h[:8])
	return pp
}

func ws(v uint32) iotago.WorkScore { return iotago.WorkScore(v) }

// Env is an API with the plain record it was made from.
type Env struct {
	P   *ref.Params
	API iotago.API
}

// NewEnv builds an API.
func NewEnv(p ref.Params) *Env {
	pp := ProtoParams(&p)
	return &Env{P: &p, API: iotago.V3API(pp)}
}

var (
	keyMu sync.Mutex
	keys  = map[int]ed25519.PrivateKey{}
)

// Key is the i-th deterministic private key.
func Key(i int) ed25519.PrivateKey {
	keyMu.Lock()
	defer keyMu.Unlock()
	if k, ok := keys[i]; ok {
		return k
	}
	s := sha256.Sum256([]byte(fmt.Sprintf("verif key %d", i)))
	k := ed25519.NewKeyFromSeed(s[:])
	keys[i] = k
	return k
}

// Pub is the i-th public key.
func Pub(i int) []byte { return Key(i).Public().(ed25519.PublicKey) }

// Ed is the Ed25519 address of key i.
func Ed(i int) *iotago.Ed25519Address {
	h := blake2b.Sum256(Pub(i))
	a := iotago.Ed25519Address(h)
	return &a
}

// Implicit is the implicit account creation address of key i.
func Implicit(i int) *iotago.ImplicitAccountCreationAddress {
	h := blake2b.Sum256(Pub(i))
	a := iotago.ImplicitAccountCreationAddress(h)
	return &a
}

// Fill32 is 32 bytes of b.
func Fill32(b byte) (a [32]byte) {
	for i := range a {
		a[i] = b
	}
	return
}

// AccID, NFTID, AncID, DelID are recognisable identifiers.
func AccID(b byte) iotago.AccountID { return iotago.AccountID(Fill32(b)) }

// NFTID is a recognisable NFT identifier.
func NFTID(b byte) iotago.NFTID { return iotago.NFTID(Fill32(b)) }

// AncID is a recognisable anchor identifier.
func AncID(b byte) iotago.AnchorID { return iotago.AnchorID(Fill32(b)) }

// DelID is a recognisable delegation identifier.
func DelID(b byte) iotago.DelegationID { return iotago.DelegationID(Fill32(b)) }

// AccAddr is the account address of AccID(b).
func AccAddr(b byte) *iotago.AccountAddress { a := iotago.AccountAddress(Fill32(b)); return &a }

// NFTAddr is the NFT address of NFTID(b).
func NFTAddr(b byte) *iotago.NFTAddress { a := iotago.NFTAddress(Fill32(b)); return &a }

// AncAddr is the anchor address of AncID(b).
func AncAddr(b byte) *iotago.AnchorAddress { a := iotago.AnchorAddress(Fill32(b)); return &a }

// Restricted wraps an address.
func Restricted(a iotago.Address, caps ...byte) *iotago.RestrictedAddress {
	return &iotago.RestrictedAddress{Address: a, AllowedCapabilities: append([]byte{}, caps...)}
}

// Multi builds a multi address (members sorted by their encoding) with weight 1 each.
func Multi(threshold uint16, members ...iotago.Address) *iotago.MultiAddress {
	m := &iotago.MultiAddress{Threshold: threshold}
	for _, a := range members {
		m.Addresses = append(m.Addresses, &iotago.AddressWithWeight{Address: a, Weight: 1})
	}
	SortMulti(m)
	return m
}

// SortMulti sorts the members by encoding.
func SortMulti(m *iotago.MultiAddress) {
	for i := range m.Addresses {
		for j := i + 1; j < len(m.Addresses); j++ {
			if ref.AddrKey(m.Addresses[j].Address) < ref.AddrKey(m.Addresses[i].Address) {
				m.Addresses[i], m.Addresses[j] = m.Addresses[j], m.Addresses[i]
			}
		}
	}
}

// TxIDAt is a recognisable transaction ID whose slot is the creation slot.
func TxIDAt(b byte, slot uint32) (id iotago.TransactionID) {
	for i := 0; i < 32; i++ {
		id[i] = b
	}
	binary.LittleEndian.PutUint32(id[32:], slot)
	return
}

// OutID is a recognisable output ID.
func OutID(b byte, slot uint32, idx uint16) iotago.OutputID {
	return ref.OutputIDOf(TxIDAt(b, slot), idx)
}

// Sign makes an Ed25519 signature object over msg.
func Sign(key int, msg []byte) *iotago.Ed25519Signature {
	s := &iotago.Ed25519Signature{}
	copy(s.PublicKey[:], Pub(key))
	copy(s.Signature[:], ed25519.Sign(Key(key), msg))
	return s
}

// BIKey is the block issuer key of key i.
func BIKey(i int) iotago.BlockIssuerKey {
	h := blake2b.Sum256(Pub(i))
	k := &iotago.Ed25519PublicKeyHashBlockIssuerKey{}
	copy(k.PublicKeyHash[:], h[:])
	return k
}

// Commitment at a slot.
func Commitment(slot uint32) *iotago.Commitment {
	return &iotago.Commitment{ProtocolVersion: 3, Slot: iotago.SlotIndex(slot)}
}
