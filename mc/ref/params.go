package ref

import (
	"math/big"
	"math/bits"

	iotago "github.com/iotaledger/iota.go/v4"
)

// Params is the plain parameter record all reference models compute with.
type Params struct {
	Version       byte
	Name          string
	HRP           string
	StorageCost   uint64
	FactorData    uint8
	OffOutput     uint64
	OffKey        uint64
	OffStaking    uint64
	OffDelegation uint64
	Work          WorkParams
	GenesisSlot   uint32
	GenesisUnix   int64
	SlotDur       uint8
	EpochExp      uint8
	LiveLower     uint16
	LiveUpper     uint16
	MinCA         uint32
	MaxCA         uint32
	Nearing       uint32
	Supply        uint64
	Bits          uint8
	GenRate       uint8
	GenExp        uint8
	DecayExp      uint8
	SumExp        uint8
	AnnualPct     uint8
	DecayFactors  []uint32 // nil: derived
	DecaySum      uint32   // used if DecayFactors != nil
	MinRMC        uint64
	RMCInc        uint64
	RMCDec        uint64
	IncThr        uint32
	DecThr        uint32
	SchedRate     uint32
	MaxBuf        uint32
	MaxValBuf     uint32
	Unbonding     uint32
	ValBlocks     uint8
	Punish        uint32
	Signal        [3]uint8
	Profit        uint8
	Pool          uint8
	Ratio         uint8
	Retention     uint16
	Committee     uint8
	Switch        uint8

	NetworkID uint64 // filled in by gen
}

// WorkParams are the work score parameters.
type WorkParams struct {
	DataByte, Block, Input, ContextInput, Output, NativeToken, Staking, BlockIssuer, Allotment, Sig uint32
}

// Default returns a small-number parameter set: 8 slots per epoch, short committable ages, cheap storage.
func Default() Params {
	return Params{Version: 3, Name: "vnet", HRP: "vn", StorageCost: 1, FactorData: 1, OffOutput: 10, OffKey: 3, OffStaking: 5, OffDelegation: 7,
		Work:        WorkParams{1, 100, 7, 11, 13, 17, 19, 23, 29, 31},
		GenesisSlot: 0, GenesisUnix: 1_600_000_000, SlotDur: 10, EpochExp: 3, LiveLower: 5, LiveUpper: 9, MinCA: 1, MaxCA: 3, Nearing: 5,
		Supply: 1_000_000, Bits: 63, GenRate: 1, GenExp: 6, DecayExp: 32, SumExp: 20, AnnualPct: 70,
		DecayFactors: []uint32{4000000000, 3700000000, 3400000000}, DecaySum: 5 << 20,
		MinRMC: 1, RMCInc: 10, RMCDec: 10, IncThr: 400, DecThr: 200, SchedRate: 100, MaxBuf: 100, MaxValBuf: 10,
		Unbonding: 2, ValBlocks: 10, Punish: 2, Signal: [3]uint8{7, 5, 7}, Profit: 8, Pool: 11, Ratio: 2, Retention: 384, Committee: 4, Switch: 3}
}

// ---- time -------------------------------------------------------------

// Epoch of a slot.
func (p *Params) Epoch(slot uint32) uint32 {
	if slot <= p.GenesisSlot {
		return 0
	}
	return (slot - p.GenesisSlot) / (1 << p.EpochExp)
}

// EpochStart is the first slot of an epoch.
func (p *Params) EpochStart(e uint32) uint64 {
	return uint64(p.GenesisSlot) + uint64(e)*(1<<p.EpochExp)
}

// ---- storage score ------------------------------------------------------

func sum(xs ...*big.Int) *big.Int {
	t := new(big.Int)
	for _, x := range xs {
		t.Add(t, x)
	}
	return t
}

func bu(v uint64) *big.Int { return new(big.Int).SetUint64(v) }
func mul(a, b uint64) *big.Int {
	return new(big.Int).Mul(bu(a), bu(b))
}

// AddrScore is the additional storage score of an address: only implicit account creation addresses carry one,
// namely the difference between a minimal block issuer account and a minimal basic output without address.
func (p *Params) AddrScore(a iotago.Address) *big.Int {
	switch a.(type) {
	case *iotago.ImplicitAccountCreationAddress:
		acc := &iotago.AccountOutput{UnlockConditions: iotago.AccountOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: &iotago.Ed25519Address{}}},
			Features: iotago.AccountOutputFeatures{&iotago.BlockIssuerFeature{BlockIssuerKeys: iotago.BlockIssuerKeys{&iotago.Ed25519PublicKeyHashBlockIssuerKey{}}}}}
		bas := &iotago.BasicOutput{UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: &iotago.Ed25519Address{}}}}
		return new(big.Int).Sub(p.StorageScore(acc), p.StorageScore(bas))
	}
	return new(big.Int)
}

func (p *Params) addrsScore(o iotago.Output) *big.Int {
	t := new(big.Int)
	for _, a := range addressesIn(o) {
		t.Add(t, p.AddrScore(a))
	}
	for _, f := range Feats(o) {
		switch x := f.(type) {
		case *iotago.BlockIssuerFeature:
			for range x.BlockIssuerKeys {
				t.Add(t, bu(p.OffKey))
			}
		case *iotago.StakingFeature:
			t.Add(t, bu(p.OffStaking))
		}
	}
	return t
}

// StorageScore of an output.
func (p *Params) StorageScore(o iotago.Output) *big.Int {
	meta := uint64(38 + 36 + 4) // output ID, block ID, slot index
	t := sum(bu(p.OffOutput), mul(uint64(p.FactorData), meta), mul(uint64(p.FactorData), uint64(Size(o))), p.addrsScore(o))
	if _, ok := o.(*iotago.DelegationOutput); ok {
		t.Add(t, bu(p.OffDelegation))
	}
	return t
}

// MinDeposit of an output (not truncated).
func (p *Params) MinDeposit(o iotago.Output) *big.Int {
	return new(big.Int).Mul(p.StorageScore(o), bu(p.StorageCost))
}

// ---- output accessors (own switch over exported fields) -------------------

// UCs lists the unlock conditions of an output.
func UCs(o iotago.Output) (out []iotago.UnlockCondition) {
	switch x := o.(type) {
	case *iotago.BasicOutput:
		for _, u := range x.UnlockConditions {
			out = append(out, u)
		}
	case *iotago.AccountOutput:
		for _, u := range x.UnlockConditions {
			out = append(out, u)
		}
	case *iotago.AnchorOutput:
		for _, u := range x.UnlockConditions {
			out = append(out, u)
		}
	case *iotago.FoundryOutput:
		for _, u := range x.UnlockConditions {
			out = append(out, u)
		}
	case *iotago.NFTOutput:
		for _, u := range x.UnlockConditions {
			out = append(out, u)
		}
	case *iotago.DelegationOutput:
		for _, u := range x.UnlockConditions {
			out = append(out, u)
		}
	}
	return
}

// MutFeats lists the mutable features.
func MutFeats(o iotago.Output) (out []iotago.Feature) {
	switch x := o.(type) {
	case *iotago.BasicOutput:
		for _, u := range x.Features {
			out = append(out, u)
		}
	case *iotago.AccountOutput:
		for _, u := range x.Features {
			out = append(out, u)
		}
	case *iotago.AnchorOutput:
		for _, u := range x.Features {
			out = append(out, u)
		}
	case *iotago.FoundryOutput:
		for _, u := range x.Features {
			out = append(out, u)
		}
	case *iotago.NFTOutput:
		for _, u := range x.Features {
			out = append(out, u)
		}
	}
	return
}

// ImmFeats lists the immutable features.
func ImmFeats(o iotago.Output) (out []iotago.Feature) {
	switch x := o.(type) {
	case *iotago.AccountOutput:
		for _, u := range x.ImmutableFeatures {
			out = append(out, u)
		}
	case *iotago.AnchorOutput:
		for _, u := range x.ImmutableFeatures {
			out = append(out, u)
		}
	case *iotago.FoundryOutput:
		for _, u := range x.ImmutableFeatures {
			out = append(out, u)
		}
	case *iotago.NFTOutput:
		for _, u := range x.ImmutableFeatures {
			out = append(out, u)
		}
	}
	return
}

// Feats lists all features.
func Feats(o iotago.Output) []iotago.Feature { return append(MutFeats(o), ImmFeats(o)...) }

func pickUC[T any](o iotago.Output) (z T) {
	for _, u := range UCs(o) {
		if x, ok := u.(T); ok {
			return x
		}
	}
	return
}

func pickF[T any](fs []iotago.Feature) (z T) {
	for _, u := range fs {
		if x, ok := u.(T); ok {
			return x
		}
	}
	return
}

func addressesIn(o iotago.Output) (out []iotago.Address) {
	for _, u := range UCs(o) {
		switch x := u.(type) {
		case *iotago.AddressUnlockCondition:
			out = append(out, x.Address)
		case *iotago.StorageDepositReturnUnlockCondition:
			out = append(out, x.ReturnAddress)
		case *iotago.ExpirationUnlockCondition:
			out = append(out, x.ReturnAddress)
		case *iotago.StateControllerAddressUnlockCondition:
			out = append(out, x.Address)
		case *iotago.GovernorAddressUnlockCondition:
			out = append(out, x.Address)
		case *iotago.ImmutableAccountUnlockCondition:
			out = append(out, x.Address)
		}
	}
	for _, f := range Feats(o) {
		switch x := f.(type) {
		case *iotago.SenderFeature:
			out = append(out, x.Address)
		case *iotago.IssuerFeature:
			out = append(out, x.Address)
		}
	}
	if d, ok := o.(*iotago.DelegationOutput); ok && d.ValidatorAddress != nil {
		out = append(out, d.ValidatorAddress)
	}
	return
}

// Amount of an output.
func Amount(o iotago.Output) uint64 {
	switch x := o.(type) {
	case *iotago.BasicOutput:
		return uint64(x.Amount)
	case *iotago.AccountOutput:
		return uint64(x.Amount)
	case *iotago.AnchorOutput:
		return uint64(x.Amount)
	case *iotago.FoundryOutput:
		return uint64(x.Amount)
	case *iotago.NFTOutput:
		return uint64(x.Amount)
	case *iotago.DelegationOutput:
		return uint64(x.Amount)
	}
	panic("unknown output")
}

// StoredMana of an output.
func StoredMana(o iotago.Output) uint64 {
	switch x := o.(type) {
	case *iotago.BasicOutput:
		return uint64(x.Mana)
	case *iotago.AccountOutput:
		return uint64(x.Mana)
	case *iotago.AnchorOutput:
		return uint64(x.Mana)
	case *iotago.NFTOutput:
		return uint64(x.Mana)
	}
	return 0
}

// ---- mana -----------------------------------------------------------------

// Decay applies e epochs of decay to v: floor(v*f/2^s) for each chunk of the table.
func (p *Params) Decay(v *big.Int, e uint64) *big.Int {
	n := uint64(len(p.DecayFactors))
	r := new(big.Int).Set(v)
	if n == 0 {
		return r
	}
	if v.IsUint64() && p.DecayExp < 64 {
		// the same computation in 128 bit words
		x := v.Uint64()
		for e > 0 && x > 0 {
			s := min(e, n)
			e -= s
			hi, lo := bits.Mul64(x, uint64(p.DecayFactors[s-1]))
			if hi>>p.DecayExp != 0 {
				panic("decay factor above one")
			}
			x = lo>>p.DecayExp | hi<<(64-p.DecayExp)
		}
		return r.SetUint64(x)
	}
	for e > 0 && r.Sign() > 0 {
		s := e
		if s > n {
			s = n
		}
		e -= s
		r.Mul(r, bu(uint64(p.DecayFactors[s-1])))
		r.Rsh(r, uint(p.DecayExp))
	}
	return r
}

func (p *Params) generate(amount uint64, slots uint64) *big.Int {
	t := mul(amount, slots)
	t.Mul(t, bu(uint64(p.GenRate)))
	return t.Rsh(t, uint(p.GenExp))
}

// Generated mana of amount between two slots, decayed. before/since give the slot distances to the epoch
// boundaries (parameters so that known deviations can be modelled).
func (p *Params) Generated(amount uint64, from, to uint32, before, since func(uint32) uint64) (*big.Int, bool) {
	if from > to {
		return nil, false
	}
	ef, et := p.Epoch(from), p.Epoch(to)
	d := uint64(et - ef)
	switch d {
	case 0:
		return p.generate(amount, uint64(to-from)), true
	case 1:
		return sum(p.Decay(p.generate(amount, before(from)), 1), p.generate(amount, since(to))), true
	}
	first := p.Decay(p.generate(amount, before(from)), d)
	// c = amount*sum*rate / 2^(sumExp+genExp-epochExp)
	c := mul(amount, uint64(p.DecaySum))
	c.Mul(c, bu(uint64(p.GenRate)))
	c.Rsh(c, uint(p.SumExp)+uint(p.GenExp)-uint(p.EpochExp))
	mid := new(big.Int).Sub(c, p.Decay(c, d-1))
	t := sum(mid, p.generate(amount, since(to)), first)
	t.Sub(t, new(big.Int).Rsh(c, uint(p.DecayExp)))
	if t.Sign() < 0 {
		return nil, false
	}
	return t, true
}

// Before is the number of slots until the next epoch starts.
func (p *Params) Before(slot uint32) uint64 {
	return p.EpochStart(p.Epoch(slot)+1) - uint64(slot)
}

// Since is the number of slots since the epoch started.
func (p *Params) Since(slot uint32) uint64 {
	return uint64(slot) - p.EpochStart(p.Epoch(slot))
}

// Potential mana of an output.
func (p *Params) Potential(o iotago.Output, from, to uint32) (*big.Int, bool) {
	amt := Amount(o)
	min := p.MinDeposit(o)
	if min.Cmp(bu(amt)) >= 0 {
		if from > to {
			return nil, false
		}
		return new(big.Int), true
	}
	return p.Generated(amt-min.Uint64(), from, to, p.Before, p.Since)
}

// DecaySlots decays stored mana between slots.
func (p *Params) DecaySlots(v *big.Int, from, to uint32) (*big.Int, bool) {
	ef, et := p.Epoch(from), p.Epoch(to)
	if ef > et {
		return nil, false
	}
	return p.Decay(v, uint64(et-ef)), true
}
