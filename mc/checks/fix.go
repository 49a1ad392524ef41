package checks

import (
	"math/big"
	"sort"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

// imm marks an immutable feature among the parts of an output.
type imm struct{ f any }

func ucSDR(a iotago.Address, amt uint64) any {
	return &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: a, Amount: iotago.BaseToken(amt)}
}
func ucTL(slot uint32) any { return &iotago.TimelockUnlockCondition{Slot: iotago.SlotIndex(slot)} }
func ucExp(a iotago.Address, slot uint32) any {
	return &iotago.ExpirationUnlockCondition{ReturnAddress: a, Slot: iotago.SlotIndex(slot)}
}
func fSender(a iotago.Address) any { return &iotago.SenderFeature{Address: a} }
func fIssuer(a iotago.Address) any { return &iotago.IssuerFeature{Address: a} }
func fMeta(v string) any {
	return &iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{"k": []byte(v)}}
}
func fState(v string) any {
	return &iotago.StateMetadataFeature{Entries: iotago.StateMetadataFeatureEntries{"k": []byte(v)}}
}
func fTag(v string) any { return &iotago.TagFeature{Tag: []byte(v)} }
func fNT(id iotago.FoundryID, amt int64) any {
	return &iotago.NativeTokenFeature{ID: id, Amount: big.NewInt(amt)}
}
func fNTb(id iotago.FoundryID, amt *big.Int) any {
	return &iotago.NativeTokenFeature{ID: id, Amount: amt}
}
func fBI(exp uint32, keys ...int) any {
	f := &iotago.BlockIssuerFeature{ExpirySlot: iotago.SlotIndex(exp)}
	if len(keys) == 0 {
		keys = []int{0}
	}
	for _, k := range keys {
		f.BlockIssuerKeys = append(f.BlockIssuerKeys, gen.BIKey(k))
	}
	sort.Slice(f.BlockIssuerKeys, func(i, j int) bool {
		return string(ref.Enc(f.BlockIssuerKeys[i])) < string(ref.Enc(f.BlockIssuerKeys[j]))
	})
	return f
}
func fStake(amt, cost uint64, start, end uint32) any {
	return &iotago.StakingFeature{StakedAmount: iotago.BaseToken(amt), FixedCost: iotago.Mana(cost), StartEpoch: iotago.EpochIndex(start), EndEpoch: iotago.EpochIndex(end)}
}

func split(parts []any) (ucs, feats, imms []any) {
	ty := func(x any) byte { return ref.Enc(x)[0] }
	for _, p := range parts {
		switch x := p.(type) {
		case nil:
		case imm:
			if x.f != nil {
				imms = append(imms, x.f)
			}
		case iotago.UnlockCondition:
			ucs = append(ucs, x)
		default:
			feats = append(feats, x)
		}
	}
	for _, l := range [][]any{ucs, feats, imms} {
		l := l
		sort.SliceStable(l, func(i, j int) bool { return ty(l[i]) < ty(l[j]) })
	}
	return
}

func conv[T any](l []any) (out []T) {
	for _, x := range l {
		out = append(out, x.(T))
	}
	return
}

func basic(a iotago.Address, amt, mana uint64, parts ...any) *iotago.BasicOutput {
	u, f, _ := split(append(parts, &iotago.AddressUnlockCondition{Address: a}))
	o := &iotago.BasicOutput{Amount: iotago.BaseToken(amt), Mana: iotago.Mana(mana)}
	for _, x := range u {
		o.UnlockConditions = append(o.UnlockConditions, x.(iotago.UnlockCondition))
	}
	for _, x := range f {
		o.Features = append(o.Features, x.(iotago.Feature))
	}
	return o
}

func account(id iotago.AccountID, a iotago.Address, amt, mana uint64, counter uint32, parts ...any) *iotago.AccountOutput {
	u, f, im := split(append(parts, &iotago.AddressUnlockCondition{Address: a}))
	o := &iotago.AccountOutput{Amount: iotago.BaseToken(amt), Mana: iotago.Mana(mana), AccountID: id, FoundryCounter: counter}
	for _, x := range u {
		o.UnlockConditions = append(o.UnlockConditions, x.(iotago.UnlockCondition))
	}
	for _, x := range f {
		o.Features = append(o.Features, x.(iotago.Feature))
	}
	for _, x := range im {
		o.ImmutableFeatures = append(o.ImmutableFeatures, x.(iotago.Feature))
	}
	return o
}

func anchor(id iotago.AnchorID, sc, gov iotago.Address, amt, mana uint64, idx uint32, parts ...any) *iotago.AnchorOutput {
	u, f, im := split(append(parts, &iotago.StateControllerAddressUnlockCondition{Address: sc}, &iotago.GovernorAddressUnlockCondition{Address: gov}))
	o := &iotago.AnchorOutput{Amount: iotago.BaseToken(amt), Mana: iotago.Mana(mana), AnchorID: id, StateIndex: idx}
	for _, x := range u {
		o.UnlockConditions = append(o.UnlockConditions, x.(iotago.UnlockCondition))
	}
	for _, x := range f {
		o.Features = append(o.Features, x.(iotago.Feature))
	}
	for _, x := range im {
		o.ImmutableFeatures = append(o.ImmutableFeatures, x.(iotago.Feature))
	}
	return o
}

func nft(id iotago.NFTID, a iotago.Address, amt, mana uint64, parts ...any) *iotago.NFTOutput {
	u, f, im := split(append(parts, &iotago.AddressUnlockCondition{Address: a}))
	o := &iotago.NFTOutput{Amount: iotago.BaseToken(amt), Mana: iotago.Mana(mana), NFTID: id}
	for _, x := range u {
		o.UnlockConditions = append(o.UnlockConditions, x.(iotago.UnlockCondition))
	}
	for _, x := range f {
		o.Features = append(o.Features, x.(iotago.Feature))
	}
	for _, x := range im {
		o.ImmutableFeatures = append(o.ImmutableFeatures, x.(iotago.Feature))
	}
	return o
}

func foundryB(acc iotago.AccountID, amt uint64, serial uint32, minted, melted, max *big.Int, parts ...any) *iotago.FoundryOutput {
	aa := iotago.AccountAddress(acc)
	u, f, im := split(append(parts, &iotago.ImmutableAccountUnlockCondition{Address: &aa}))
	o := &iotago.FoundryOutput{Amount: iotago.BaseToken(amt), SerialNumber: serial, TokenScheme: &iotago.SimpleTokenScheme{MintedTokens: minted, MeltedTokens: melted, MaximumSupply: max}}
	for _, x := range u {
		o.UnlockConditions = append(o.UnlockConditions, x.(iotago.UnlockCondition))
	}
	for _, x := range f {
		o.Features = append(o.Features, x.(iotago.Feature))
	}
	for _, x := range im {
		o.ImmutableFeatures = append(o.ImmutableFeatures, x.(iotago.Feature))
	}
	return o
}

func foundry(acc iotago.AccountID, amt uint64, serial uint32, minted, melted, max int64, parts ...any) *iotago.FoundryOutput {
	return foundryB(acc, amt, serial, big.NewInt(minted), big.NewInt(melted), big.NewInt(max), parts...)
}

func foundryID(acc iotago.AccountID, serial uint32) (id iotago.FoundryID) {
	id[0] = 8
	copy(id[1:], acc[:])
	id[33], id[34], id[35], id[36] = byte(serial), byte(serial>>8), byte(serial>>16), byte(serial>>24)
	return
}

func delegation(id iotago.DelegationID, a iotago.Address, amt, del uint64, val *iotago.AccountAddress, start, end uint32) *iotago.DelegationOutput {
	return &iotago.DelegationOutput{Amount: iotago.BaseToken(amt), DelegatedAmount: iotago.BaseToken(del), DelegationID: id, ValidatorAddress: val,
		StartEpoch: iotago.EpochIndex(start), EndEpoch: iotago.EpochIndex(end),
		UnlockConditions: iotago.DelegationOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: a}}}
}

// accIDOf is the identifier of a fresh chain output consumed/created under an output ID.
func digest32(oid iotago.OutputID) (d [32]byte) {
	copy(d[:], ref.Blake(oid[:]))
	return
}

func sortStrings(s []string) { sort.Strings(s) }
