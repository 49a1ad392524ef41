package checks

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math"
	"math/big"
	"sort"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/builder"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P30"] = p30 }

// om is the model of an output under construction.
type om struct {
	amount, mana, delegated uint64
	id                      [32]byte
	counter                 uint64
	stateIdx, serial        uint32
	start, end              uint32
	validator               *iotago.AccountAddress
	scheme                  iotago.TokenScheme
	ucs, feats, imms        map[byte]any
	prevImms                []byte
	prev, state, gov        bool
}

func (m *om) put(l map[byte]any, x any) { l[ref.Enc(x)[0]] = x }

func partList(ls ...map[byte]any) (out []any) {
	for i, l := range ls {
		for _, x := range l {
			if i == 2 {
				x = imm{x}
			}
			out = append(out, x)
		}
	}
	return
}

func (m *om) immBytes() (b []byte) {
	var ks []int
	for k := range m.imms {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	for _, k := range ks {
		b = append(b, ref.Enc(m.imms[byte(k)])...)
	}
	return append(b, byte(len(ks)))
}

// refused tells why Build must fail.
func (m *om) refused() string {
	switch {
	case m.prev && m.state && m.gov:
		return "state and governance transition"
	case m.prev && !bytes.Equal(m.prevImms, m.immBytes()):
		return "immutable features changed"
	case m.counter > math.MaxUint32:
		return "foundry counter overflow"
	}
	return ""
}

// out is the output the model expects, as bytes.
func (m *om) out(kind string) []byte {
	var o iotago.Output
	addr := func(t byte) iotago.Address {
		switch u := m.ucs[t].(type) {
		case *iotago.AddressUnlockCondition:
			return u.Address
		case *iotago.StateControllerAddressUnlockCondition:
			return u.Address
		case *iotago.GovernorAddressUnlockCondition:
			return u.Address
		case *iotago.ImmutableAccountUnlockCondition:
			return u.Address
		}
		panic("address")
	}
	more := map[byte]any{}
	for t, u := range m.ucs {
		switch u.(type) {
		case *iotago.AddressUnlockCondition, *iotago.StateControllerAddressUnlockCondition, *iotago.GovernorAddressUnlockCondition, *iotago.ImmutableAccountUnlockCondition:
		default:
			more[t] = u
		}
	}
	parts := partList(more, m.feats, m.imms)
	switch kind {
	case "basic":
		o = basic(addr(0), m.amount, m.mana, parts...)
	case "account":
		o = account(iotago.AccountID(m.id), addr(0), m.amount, m.mana, uint32(m.counter), parts...)
	case "anchor":
		i := m.stateIdx
		if m.prev && m.state {
			i++
		}
		o = anchor(iotago.AnchorID(m.id), addr(4), addr(5), m.amount, m.mana, i, parts...)
	case "nft":
		o = nft(iotago.NFTID(m.id), addr(0), m.amount, m.mana, parts...)
	case "foundry":
		f := foundryB(iotago.AccountID{}, m.amount, m.serial, nil, nil, nil, parts...)
		f.UnlockConditions = iotago.FoundryOutputUnlockConditions{m.ucs[6].(*iotago.ImmutableAccountUnlockCondition)}
		f.TokenScheme = m.scheme
		o = f
	case "delegation":
		o = delegation(iotago.DelegationID(m.id), addr(0), m.amount, m.delegated, m.validator, m.start, m.end)
	}
	return ref.Enc(o)
}

// call is one builder call with its effect on the model.
type call struct {
	name string
	do   func(b any)
	eff  func(m *om)
}

// built is the result of a Build.
type made struct {
	o   iotago.Output
	raw []byte
}

// obuilder is one kind of output builder.
type obuilder struct {
	kind  string
	start []struct {
		name string
		mk   func() (b any, m *om, source iotago.Output)
	}
	calls []call
	build func(b any) (iotago.Output, error)
	must  func(b any) iotago.Output
}

func cl[B any](name string, do func(b B), eff func(m *om)) call {
	return call{name, func(b any) { do(b.(B)) }, eff}
}

// args are the caller's own objects handed to builders; they must stay as they are.
type args struct {
	names []string
	vals  []any
	dumps []string
}

func (a *args) own(name string, v any) any {
	a.names, a.vals, a.dumps = append(a.names, name), append(a.vals, v), append(a.dumps, dump(v))
	return v
}

func (a *args) changed() string {
	for i, v := range a.vals {
		if dump(v) != a.dumps[i] {
			return fmt.Sprintf("%s: %s became %s", a.names[i], a.dumps[i], dump(v))
		}
	}
	return ""
}

func entriesM(v string) iotago.MetadataFeatureEntries {
	return iotago.MetadataFeatureEntries{"k": []byte(v)}
}
func entriesS(v string) iotago.StateMetadataFeatureEntries {
	return iotago.StateMetadataFeatureEntries{"k": []byte(v)}
}

// startFrom is the model of an existing output.
func startFrom(o iotago.Output) *om {
	m := &om{prev: true, amount: ref.Amount(o), mana: ref.StoredMana(o), ucs: map[byte]any{}, feats: map[byte]any{}, imms: map[byte]any{}}
	for _, u := range ref.UCs(o) {
		m.put(m.ucs, u)
	}
	for _, f := range ref.MutFeats(o) {
		m.put(m.feats, f)
	}
	for _, f := range ref.ImmFeats(o) {
		m.put(m.imms, f)
	}
	switch x := o.(type) {
	case *iotago.AccountOutput:
		m.id, m.counter = x.AccountID, uint64(x.FoundryCounter)
	case *iotago.AnchorOutput:
		m.id, m.stateIdx = x.AnchorID, x.StateIndex
	case *iotago.NFTOutput:
		m.id = x.NFTID
	case *iotago.FoundryOutput:
		m.serial, m.scheme = x.SerialNumber, x.TokenScheme
	case *iotago.DelegationOutput:
		m.id, m.delegated, m.start, m.end, m.validator = x.DelegationID, uint64(x.DelegatedAmount), uint32(x.StartEpoch), uint32(x.EndEpoch), x.ValidatorAddress
	}
	m.prevImms = m.immBytes()
	return m
}

func fresh(amount uint64, ucs ...any) *om {
	m := &om{amount: amount, ucs: map[byte]any{}, feats: map[byte]any{}, imms: map[byte]any{}}
	for _, u := range ucs {
		m.put(m.ucs, u)
	}
	return m
}

type starter = struct {
	name string
	mk   func() (b any, m *om, source iotago.Output)
}

func setBI(m *om, f func(x *iotago.BlockIssuerFeature)) {
	n := &iotago.BlockIssuerFeature{}
	if old, ok := m.feats[byte(iotago.FeatureBlockIssuer)].(*iotago.BlockIssuerFeature); ok {
		n.ExpirySlot = old.ExpirySlot
		n.BlockIssuerKeys = append(n.BlockIssuerKeys, old.BlockIssuerKeys...)
	}
	f(n)
	m.put(m.feats, n)
}

func setStake(m *om, f func(x *iotago.StakingFeature)) {
	n := &iotago.StakingFeature{}
	if old, ok := m.feats[byte(iotago.FeatureStaking)].(*iotago.StakingFeature); ok {
		*n = *old
	}
	f(n)
	m.put(m.feats, n)
}

func keysOf(ks ...int) iotago.BlockIssuerKeys {
	return fBI(0, ks...).(*iotago.BlockIssuerFeature).BlockIssuerKeys
}

func hasKey(l iotago.BlockIssuerKeys, k iotago.BlockIssuerKey) int {
	for i, x := range l {
		if bytes.Equal(ref.Enc(x), ref.Enc(k)) {
			return i
		}
	}
	return -1
}

func sortKeys(l iotago.BlockIssuerKeys) {
	sort.Slice(l, func(i, j int) bool { return bytes.Compare(ref.Enc(l[i]), ref.Enc(l[j])) < 0 })
}

func outputBuilders(a *args) []obuilder {
	A, B, C := gen.Ed(0), gen.Ed(1), gen.AccAddr(0xa1)
	ft := foundryID(gen.AccID(0xa1), 1)
	uc := func(x any) func(*om) { return func(m *om) { m.put(m.ucs, x) } }
	ft1 := func(x any) func(*om) { return func(m *om) { m.put(m.feats, x) } }
	im := func(x any) func(*om) { return func(m *om) { m.put(m.imms, x) } }
	meta := a.own("metadata entries", entriesM("one")).(iotago.MetadataFeatureEntries)
	stateMeta := a.own("state metadata entries", entriesS("two")).(iotago.StateMetadataFeatureEntries)
	tag := a.own("tag", []byte("tagged")).([]byte)
	nt := a.own("native token", fNT(ft, 77)).(*iotago.NativeTokenFeature)
	spare := make(iotago.BlockIssuerKeys, 0, 8)
	spare = append(spare, keysOf(3, 1)...)
	keysA := a.own("issuer keys", spare).(iotago.BlockIssuerKeys)
	room := spare[:cap(spare)]
	a.own("room behind the issuer keys", room)
	src := func(o iotago.Output) iotago.Output { return a.own("source output", o).(iotago.Output) }

	bas := obuilder{kind: "basic",
		build: func(b any) (iotago.Output, error) { o, err := b.(*builder.BasicOutputBuilder).Build(); return o, err },
		must:  func(b any) iotago.Output { return b.(*builder.BasicOutputBuilder).MustBuild() },
		start: []starter{
			{"new", func() (any, *om, iotago.Output) {
				return builder.NewBasicOutputBuilder(A, 10), fresh(10, &iotago.AddressUnlockCondition{Address: A}), nil
			}},
			{"previous", func() (any, *om, iotago.Output) {
				o := src(basic(A, 20, 5, ucTL(9), ucExp(B, 7), fMeta("old"), fTag("x"), fNT(ft, 3))).(*iotago.BasicOutput)
				return builder.NewBasicOutputBuilderFromPrevious(o), startFrom(o), o
			}},
		},
		calls: []call{
			cl("Amount", func(b *builder.BasicOutputBuilder) { b.Amount(33) }, func(m *om) { m.amount = 33 }),
			cl("Mana", func(b *builder.BasicOutputBuilder) { b.Mana(44) }, func(m *om) { m.mana = 44 }),
			cl("Address", func(b *builder.BasicOutputBuilder) { b.Address(C) }, uc(&iotago.AddressUnlockCondition{Address: C})),
			cl("StorageDepositReturn", func(b *builder.BasicOutputBuilder) { b.StorageDepositReturn(B, 3) }, uc(ucSDR(B, 3))),
			cl("Timelock", func(b *builder.BasicOutputBuilder) { b.Timelock(55) }, uc(ucTL(55))),
			cl("Expiration", func(b *builder.BasicOutputBuilder) { b.Expiration(C, 66) }, uc(ucExp(C, 66))),
			cl("Expiration 2", func(b *builder.BasicOutputBuilder) { b.Expiration(B, 67) }, uc(ucExp(B, 67))),
			cl("Sender", func(b *builder.BasicOutputBuilder) { b.Sender(B) }, ft1(fSender(B))),
			cl("Metadata", func(b *builder.BasicOutputBuilder) { b.Metadata(meta) }, ft1(fMeta("one"))),
			cl("Tag", func(b *builder.BasicOutputBuilder) { b.Tag(tag) }, ft1(fTag("tagged"))),
			cl("NativeToken", func(b *builder.BasicOutputBuilder) { b.NativeToken(nt) }, ft1(fNT(ft, 77))),
		}}

	acc := obuilder{kind: "account",
		build: func(b any) (iotago.Output, error) { o, err := b.(*builder.AccountOutputBuilder).Build(); return o, err },
		must:  func(b any) iotago.Output { return b.(*builder.AccountOutputBuilder).MustBuild() },
		start: []starter{
			{"new", func() (any, *om, iotago.Output) {
				return builder.NewAccountOutputBuilder(A, 10), fresh(10, &iotago.AddressUnlockCondition{Address: A}), nil
			}},
			{"previous", func() (any, *om, iotago.Output) {
				o := src(account(gen.AccID(0xa1), A, 20, 5, math.MaxUint32-1, fMeta("old"), fBI(9, 1, 2), fStake(1, 2, 3, 4), imm{fIssuer(B)}, imm{fMeta("imm")})).(*iotago.AccountOutput)
				return builder.NewAccountOutputBuilderFromPrevious(o), startFrom(o), o
			}},
			{"bare previous", func() (any, *om, iotago.Output) {
				o := src(account(gen.AccID(0xa1), A, 20, 5, 0)).(*iotago.AccountOutput)
				return builder.NewAccountOutputBuilderFromPrevious(o), startFrom(o), o
			}},
		},
		calls: []call{
			cl("Amount", func(b *builder.AccountOutputBuilder) { b.Amount(33) }, func(m *om) { m.amount = 33 }),
			cl("Mana", func(b *builder.AccountOutputBuilder) { b.Mana(44) }, func(m *om) { m.mana = 44 }),
			cl("AccountID", func(b *builder.AccountOutputBuilder) { b.AccountID(gen.AccID(7)) }, func(m *om) { m.id = gen.AccID(7) }),
			cl("FoundriesToGenerate 1", func(b *builder.AccountOutputBuilder) { b.FoundriesToGenerate(1) }, func(m *om) { m.counter++ }),
			cl("FoundriesToGenerate 2^31", func(b *builder.AccountOutputBuilder) { b.FoundriesToGenerate(1 << 31) }, func(m *om) { m.counter += 1 << 31 }),
			cl("Address", func(b *builder.AccountOutputBuilder) { b.Address(B) }, uc(&iotago.AddressUnlockCondition{Address: B})),
			cl("Sender", func(b *builder.AccountOutputBuilder) { b.Sender(B) }, ft1(fSender(B))),
			cl("Metadata", func(b *builder.AccountOutputBuilder) { b.Metadata(meta) }, ft1(fMeta("one"))),
			cl("BlockIssuer", func(b *builder.AccountOutputBuilder) { b.BlockIssuer(keysA, 12) }, ft1(fBI(12, 1, 3))),
			cl("Staking", func(b *builder.AccountOutputBuilder) { b.Staking(5, 6, 7) }, ft1(fStake(5, 6, 7, math.MaxUint32))),
			cl("Staking end", func(b *builder.AccountOutputBuilder) { b.Staking(5, 6, 7, 8) }, ft1(fStake(5, 6, 7, 8))),
			cl("ImmutableIssuer", func(b *builder.AccountOutputBuilder) { b.ImmutableIssuer(B) }, im(fIssuer(B))),
			cl("ImmutableIssuer other", func(b *builder.AccountOutputBuilder) { b.ImmutableIssuer(A) }, im(fIssuer(A))),
			cl("ImmutableMetadata", func(b *builder.AccountOutputBuilder) { b.ImmutableMetadata(meta) }, im(fMeta("one"))),
			cl("RemoveFeature staking", func(b *builder.AccountOutputBuilder) { b.RemoveFeature(iotago.FeatureStaking) }, func(m *om) { delete(m.feats, byte(iotago.FeatureStaking)) }),
			cl("RemoveFeature metadata", func(b *builder.AccountOutputBuilder) { b.RemoveFeature(iotago.FeatureMetadata) }, func(m *om) { delete(m.feats, byte(iotago.FeatureMetadata)) }),
			cl("keys added", func(b *builder.AccountOutputBuilder) {
				b.BlockIssuerTransition().AddKeys(gen.BIKey(2), gen.BIKey(0)).Builder()
			}, func(m *om) {
				setBI(m, func(f *iotago.BlockIssuerFeature) {
					for _, k := range []int{2, 0} {
						if hasKey(f.BlockIssuerKeys, gen.BIKey(k)) < 0 {
							f.BlockIssuerKeys = append(f.BlockIssuerKeys, gen.BIKey(k))
						}
					}
					sortKeys(f.BlockIssuerKeys)
				})
			}),
			cl("key removed", func(b *builder.AccountOutputBuilder) {
				b.BlockIssuerTransition().RemoveKey(gen.BIKey(1)).ExpirySlot(99)
			}, func(m *om) {
				setBI(m, func(f *iotago.BlockIssuerFeature) {
					if i := hasKey(f.BlockIssuerKeys, gen.BIKey(1)); i >= 0 {
						f.BlockIssuerKeys = append(f.BlockIssuerKeys[:i], f.BlockIssuerKeys[i+1:]...)
					}
					f.ExpirySlot = 99
				})
			}),
			cl("keys set", func(b *builder.AccountOutputBuilder) { b.BlockIssuerTransition().Keys(keysA) }, func(m *om) {
				setBI(m, func(f *iotago.BlockIssuerFeature) { f.BlockIssuerKeys = keysOf(1, 3) })
			}),
			cl("stake changed", func(b *builder.AccountOutputBuilder) {
				b.StakingTransition().StakedAmount(50).FixedCost(51).StartEpoch(52).EndEpoch(53).Builder()
			}, func(m *om) {
				setStake(m, func(f *iotago.StakingFeature) {
					f.StakedAmount, f.FixedCost, f.StartEpoch, f.EndEpoch = 50, 51, 52, 53
				})
			}),
			cl("stake end changed", func(b *builder.AccountOutputBuilder) { b.StakingTransition().EndEpoch(63) }, func(m *om) {
				setStake(m, func(f *iotago.StakingFeature) { f.EndEpoch = 63 })
			}),
		}}

	anc := obuilder{kind: "anchor",
		build: func(b any) (iotago.Output, error) { o, err := b.(*builder.AnchorOutputBuilder).Build(); return o, err },
		must:  func(b any) iotago.Output { return b.(*builder.AnchorOutputBuilder).MustBuild() },
		start: []starter{
			{"new", func() (any, *om, iotago.Output) {
				return builder.NewAnchorOutputBuilder(A, B, 10), fresh(10, &iotago.StateControllerAddressUnlockCondition{Address: A}, &iotago.GovernorAddressUnlockCondition{Address: B}), nil
			}},
			{"previous", func() (any, *om, iotago.Output) {
				o := src(anchor(gen.AncID(0xc1), A, B, 20, 5, 41, fMeta("old"), fState("old"), imm{fIssuer(B)}, imm{fMeta("imm")})).(*iotago.AnchorOutput)
				return builder.NewAnchorOutputBuilderFromPrevious(o), startFrom(o), o
			}},
		},
		calls: []call{
			cl("Amount", func(b *builder.AnchorOutputBuilder) { b.Amount(33) }, func(m *om) { m.amount, m.state = 33, true }),
			cl("Mana", func(b *builder.AnchorOutputBuilder) { b.Mana(44) }, func(m *om) { m.mana = 44 }),
			cl("AnchorID", func(b *builder.AnchorOutputBuilder) { b.AnchorID(gen.AncID(7)) }, func(m *om) { m.id = gen.AncID(7) }),
			cl("StateController", func(b *builder.AnchorOutputBuilder) { b.StateController(C) }, func(m *om) {
				m.gov = true
				m.put(m.ucs, &iotago.StateControllerAddressUnlockCondition{Address: C})
			}),
			cl("Governor", func(b *builder.AnchorOutputBuilder) { b.Governor(C) }, func(m *om) {
				m.gov = true
				m.put(m.ucs, &iotago.GovernorAddressUnlockCondition{Address: C})
			}),
			cl("Metadata", func(b *builder.AnchorOutputBuilder) { b.Metadata(meta) }, func(m *om) { m.gov = true; m.put(m.feats, fMeta("one")) }),
			cl("StateMetadata", func(b *builder.AnchorOutputBuilder) { b.StateMetadata(stateMeta) }, func(m *om) { m.state = true; m.put(m.feats, fState("two")) }),
			cl("ImmutableIssuer", func(b *builder.AnchorOutputBuilder) { b.ImmutableIssuer(B) }, im(fIssuer(B))),
			cl("ImmutableIssuer other", func(b *builder.AnchorOutputBuilder) { b.ImmutableIssuer(A) }, im(fIssuer(A))),
			cl("ImmutableMetadata", func(b *builder.AnchorOutputBuilder) { b.ImmutableMetadata(meta) }, im(fMeta("one"))),
			cl("state transition", func(b *builder.AnchorOutputBuilder) {
				b.StateTransition().Amount(34).Mana(35).StateMetadata(stateMeta).Builder()
			}, func(m *om) { m.state, m.amount, m.mana = true, 34, 35; m.put(m.feats, fState("two")) }),
			cl("governance transition", func(b *builder.AnchorOutputBuilder) {
				b.GovernanceTransition().StateController(B).Governor(A).Metadata(meta).Builder()
			}, func(m *om) {
				m.gov = true
				m.put(m.ucs, &iotago.StateControllerAddressUnlockCondition{Address: B})
				m.put(m.ucs, &iotago.GovernorAddressUnlockCondition{Address: A})
				m.put(m.feats, fMeta("one"))
			}),
		}}

	nf := obuilder{kind: "nft",
		build: func(b any) (iotago.Output, error) { o, err := b.(*builder.NFTOutputBuilder).Build(); return o, err },
		must:  func(b any) iotago.Output { return b.(*builder.NFTOutputBuilder).MustBuild() },
		start: []starter{
			{"new", func() (any, *om, iotago.Output) {
				return builder.NewNFTOutputBuilder(A, 10), fresh(10, &iotago.AddressUnlockCondition{Address: A}), nil
			}},
			{"previous", func() (any, *om, iotago.Output) {
				o := src(nft(gen.NFTID(0xb1), A, 20, 5, ucTL(3), ucSDR(B, 2), fMeta("old"), fTag("o"), imm{fIssuer(B)}, imm{fMeta("imm")})).(*iotago.NFTOutput)
				return builder.NewNFTOutputBuilderFromPrevious(o), startFrom(o), o
			}},
		},
		calls: []call{
			cl("Amount", func(b *builder.NFTOutputBuilder) { b.Amount(33) }, func(m *om) { m.amount = 33 }),
			cl("Mana", func(b *builder.NFTOutputBuilder) { b.Mana(44) }, func(m *om) { m.mana = 44 }),
			cl("NFTID", func(b *builder.NFTOutputBuilder) { b.NFTID(gen.NFTID(7)) }, func(m *om) { m.id = gen.NFTID(7) }),
			cl("Address", func(b *builder.NFTOutputBuilder) { b.Address(C) }, uc(&iotago.AddressUnlockCondition{Address: C})),
			cl("StorageDepositReturn", func(b *builder.NFTOutputBuilder) { b.StorageDepositReturn(B, 3) }, uc(ucSDR(B, 3))),
			cl("Timelock", func(b *builder.NFTOutputBuilder) { b.Timelock(55) }, uc(ucTL(55))),
			cl("Expiration", func(b *builder.NFTOutputBuilder) { b.Expiration(C, 66) }, uc(ucExp(C, 66))),
			cl("Sender", func(b *builder.NFTOutputBuilder) { b.Sender(B) }, ft1(fSender(B))),
			cl("Metadata", func(b *builder.NFTOutputBuilder) { b.Metadata(meta) }, ft1(fMeta("one"))),
			cl("Tag", func(b *builder.NFTOutputBuilder) { b.Tag(tag) }, ft1(fTag("tagged"))),
			cl("ImmutableIssuer", func(b *builder.NFTOutputBuilder) { b.ImmutableIssuer(B) }, im(fIssuer(B))),
			cl("ImmutableIssuer other", func(b *builder.NFTOutputBuilder) { b.ImmutableIssuer(A) }, im(fIssuer(A))),
			cl("ImmutableMetadata", func(b *builder.NFTOutputBuilder) { b.ImmutableMetadata(meta) }, im(fMeta("one"))),
		}}

	scheme := a.own("token scheme", &iotago.SimpleTokenScheme{MintedTokens: big.NewInt(5), MeltedTokens: big.NewInt(1), MaximumSupply: big.NewInt(50)}).(*iotago.SimpleTokenScheme)
	scheme2 := a.own("other token scheme", &iotago.SimpleTokenScheme{MintedTokens: big.NewInt(6), MeltedTokens: big.NewInt(2), MaximumSupply: big.NewInt(50)}).(*iotago.SimpleTokenScheme)
	imAcc := &iotago.ImmutableAccountUnlockCondition{Address: C}
	fou := obuilder{kind: "foundry",
		build: func(b any) (iotago.Output, error) { o, err := b.(*builder.FoundryOutputBuilder).Build(); return o, err },
		must:  func(b any) iotago.Output { return b.(*builder.FoundryOutputBuilder).MustBuild() },
		start: []starter{
			{"new", func() (any, *om, iotago.Output) {
				m := fresh(10, imAcc)
				m.serial, m.scheme = 4, scheme
				return builder.NewFoundryOutputBuilder(C, 10, 4, scheme), m, nil
			}},
			{"previous", func() (any, *om, iotago.Output) {
				o := src(foundry(gen.AccID(0xa1), 20, 6, 9, 1, 100, fMeta("old"), fNT(ft, 8), imm{fMeta("imm")})).(*iotago.FoundryOutput)
				return builder.NewFoundryOutputBuilderFromPrevious(o), startFrom(o), o
			}},
		},
		calls: []call{
			cl("Amount", func(b *builder.FoundryOutputBuilder) { b.Amount(33) }, func(m *om) { m.amount = 33 }),
			cl("Metadata", func(b *builder.FoundryOutputBuilder) { b.Metadata(meta) }, ft1(fMeta("one"))),
			cl("NativeToken", func(b *builder.FoundryOutputBuilder) { b.NativeToken(nt) }, ft1(fNT(ft, 77))),
			cl("ImmutableMetadata", func(b *builder.FoundryOutputBuilder) { b.ImmutableMetadata(meta) }, im(fMeta("one"))),
			cl("ImmutableMetadata same", func(b *builder.FoundryOutputBuilder) { b.ImmutableMetadata(entriesM("imm")) }, im(fMeta("imm"))),
			cl("TokenScheme", func(b *builder.FoundryOutputBuilder) { b.TokenScheme(scheme2) }, func(m *om) { m.scheme = scheme2 }),
		}}

	v1, v2 := gen.AccAddr(0x71), gen.AccAddr(0x72)
	del := obuilder{kind: "delegation",
		build: func(b any) (iotago.Output, error) {
			o, err := b.(*builder.DelegationOutputBuilder).Build()
			return o, err
		},
		must: func(b any) iotago.Output { return b.(*builder.DelegationOutputBuilder).MustBuild() },
		start: []starter{
			{"new", func() (any, *om, iotago.Output) {
				m := fresh(10, &iotago.AddressUnlockCondition{Address: A})
				m.validator = v1
				return builder.NewDelegationOutputBuilder(v1, A, 10), m, nil
			}},
			{"previous", func() (any, *om, iotago.Output) {
				o := src(delegation(gen.DelID(0xd1), A, 20, 20, gen.AccAddr(0x73), 4, 5)).(*iotago.DelegationOutput)
				return builder.NewDelegationOutputBuilderFromPrevious(o), startFrom(o), o
			}},
		},
		calls: []call{
			cl("Amount", func(b *builder.DelegationOutputBuilder) { b.Amount(33) }, func(m *om) { m.amount = 33 }),
			cl("DelegatedAmount", func(b *builder.DelegationOutputBuilder) { b.DelegatedAmount(34) }, func(m *om) { m.delegated = 34 }),
			cl("ValidatorAddress", func(b *builder.DelegationOutputBuilder) { b.ValidatorAddress(v2) }, func(m *om) { m.validator = v2 }),
			cl("DelegationID", func(b *builder.DelegationOutputBuilder) { b.DelegationID(gen.DelID(9)) }, func(m *om) { m.id = gen.DelID(9) }),
			cl("StartEpoch", func(b *builder.DelegationOutputBuilder) { b.StartEpoch(60) }, func(m *om) { m.start = 60 }),
			cl("EndEpoch", func(b *builder.DelegationOutputBuilder) { b.EndEpoch(61) }, func(m *om) { m.end = 61 }),
			cl("Address", func(b *builder.DelegationOutputBuilder) { b.Address(B) }, uc(&iotago.AddressUnlockCondition{Address: B})),
		}}
	return []obuilder{bas, acc, anc, nf, fou, del}
}

func p30(x *core.Ctx) {
	x.Assume("call sequences up to the stated length per builder, Build allowed in between; caller-owned arguments (maps, byte strings, key lists with spare room, token schemes, native tokens, source outputs) are watched for changes")
	depth := core.Pick(x, 3, 4)
	for _, ob := range outputBuilders(&args{}) {
		kind := ob.kind
		names := []string{"-", "Build"}
		for _, cc := range ob.calls {
			names = append(names, cc.name)
		}
		var st []string
		for _, s := range ob.start {
			st = append(st, s.name)
		}
		n := depth
		if kind == "account" || kind == "basic" {
			n++
		}
		if len(ob.calls) < 15 {
			n++
		}
		ds := []core.Dim{core.DL("start", st...)}
		for i := 0; i < n; i++ {
			ds = append(ds, core.DL(fmt.Sprintf("call %d", i), names...))
		}
		x.Product("calls of the "+kind+" builder", ds, func(v []int, c *core.C) {
			var own args
			var ob obuilder
			for _, o := range outputBuilders(&own) {
				if o.kind == kind {
					ob = o
				}
			}
			b, m, _ := ob.start[v[0]].mk()
			var done []made
			build := func(what string) bool {
				o, err := ob.build(b)
				c.Step(1)
				want := m.refused()
				if !c.Check((err == nil) == (want == ""), "build "+kind+" "+want, "%s: model expects %q, Build says %v", what, want, err) {
					return false
				}
				if err != nil {
					c.Outcome("refused: " + want)
					c.Check(core.Panics(func() { ob.must(b) }) != "", "MustBuild "+kind, "MustBuild returned although Build failed")
					return true
				}
				c.Outcome("built")
				raw := ref.Enc(o)
				if !c.Check(bytes.Equal(raw, m.out(kind)), "content "+kind, "%s: built %s, expected bytes %x, got %x", what, dump(o), m.out(kind), raw) {
					return false
				}
				done = append(done, made{o, raw})
				return true
			}
			unchanged := func(what string) bool {
				for _, d := range done {
					if !c.Check(bytes.Equal(ref.Enc(d.o), d.raw), "built output changed "+kind, "%s changes an output built before: %x became %x", what, d.raw, ref.Enc(d.o)) {
						return false
					}
				}
				ch := own.changed()
				return c.Check(ch == "", "argument changed "+kind, "%s changes an object of the caller, %s", what, ch)
			}
			ended := false
			for _, k := range v[1:] {
				switch {
				case k == 0:
					ended = true
					continue
				case ended:
					c.Skip()
					return
				case k == 1:
					if !build("Build") || !unchanged("Build") {
						return
					}
				default:
					cc := ob.calls[k-2]
					if p := core.Panics(func() { cc.do(b) }); p != "" {
						c.Fail("panic "+kind, "%s: %s", cc.name, p)
						return
					}
					cc.eff(m)
					if !unchanged(cc.name) {
						return
					}
				}
			}
			if !build("in the end") || !unchanged("the last Build") {
				return
			}
			// changing the built output must not reach the source, the arguments or the builder
			if (len(v) > 2 && v[2] != 0) || len(done) == 0 || m.refused() != "" {
				return
			}
			for _, s := range sites(done[len(done)-1].o) {
				undo := s.apply()
				ch := own.changed()
				if undo(); !c.Check(ch == "", "source shared "+kind, "changing %s of the built output changes %s", s.path, ch) {
					return
				}
			}
			for _, s := range sites(done[len(done)-1].o) {
				undo := s.apply()
				o, err := ob.build(b)
				if undo(); !c.Check(err == nil && bytes.Equal(ref.Enc(o), m.out(kind)), "again "+kind, "after changing %s of the built output the builder builds another one (%v)", s.path, err) {
					return
				}
			}
		})
	}
	p30blocks(x)
}

// ---- blocks -------------------------------------------------------------------------------------------------------

type blockModel struct {
	version               uint8
	time                  time.Time
	commitment            [36]byte
	finalized             uint32
	issuer                iotago.AccountID
	sig                   *iotago.Ed25519Signature
	strong, weak, shallow [][36]byte
	payload               iotago.ApplicationPayload
	burned                uint64
	high                  uint8
	hash                  [32]byte
	fail                  bool
	signed                bool
}

func dedup(ids iotago.BlockIDs) (out [][36]byte) {
	seen := map[[36]byte]bool{}
	for _, id := range ids {
		if !seen[id] {
			seen[id] = true
			out = append(out, id)
		}
	}
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i][:], out[j][:]) < 0 })
	return
}

func p30blocks(x *core.Ctx) {
	e := gen.NewEnv(ref.Default())
	parents := []iotago.BlockIDs{{blockID(3, 9), blockID(1, 9), blockID(3, 9)}, {blockID(2, 8)}, {}}
	names := []string{"-", "Build", "ProtocolVersion", "IssuingTime", "SlotCommitmentID", "LatestFinalizedSlot", "Sign", "Sign 2", "sign with wrong signer", "StrongParents", "StrongParents 2", "WeakParents", "ShallowLikeParents", "no WeakParents"}
	more := map[bool][]string{false: {"Payload", "Payload 2", "MaxBurnedMana", "cost at 3", "cost at max"}, true: {"HighestSupportedVersion", "ProtocolParametersHash"}}
	depth := core.Pick(x, 4, 5)
	for _, validation := range []bool{false, true} {
		ns := append(append([]string{}, names...), more[validation]...)
		var ds []core.Dim
		for i := 0; i < depth; i++ {
			ds = append(ds, core.DL(fmt.Sprintf("call %d", i), ns...))
		}
		x.Product(fmt.Sprintf("calls of the block builder, validation block %v", validation), ds, func(v []int, c *core.C) {
			var own args
			var ps []iotago.BlockIDs
			for i, l := range parents {
				ps = append(ps, own.own(fmt.Sprintf("parents %d", i), append(iotago.BlockIDs{}, l...)).(iotago.BlockIDs))
			}
			pay := []iotago.ApplicationPayload{&iotago.TaggedData{Tag: []byte("t"), Data: []byte("payload")}, &iotago.CandidacyAnnouncement{}}
			own.own("payload", pay[0])
			bb, vb := builder.NewBasicBlockBuilder(e.API), builder.NewValidationBlockBuilder(e.API)
			when := time.Unix(e.P.GenesisUnix+77, 5).In(time.FixedZone("x", 3600))
			m := &blockModel{version: e.P.Version, sig: &iotago.Ed25519Signature{}, time: when}
			bb.IssuingTime(when)
			vb.IssuingTime(when)
			if validation {
				com := &iotago.Commitment{ProtocolVersion: iotago.Version(e.P.Version), Slot: 0}
				_ = com
			}
			var done []struct {
				b   *iotago.Block
				raw []byte
			}
			build := func() (*iotago.Block, error) {
				if validation {
					return vb.Build()
				}
				return bb.Build()
			}
			// the commitment a new builder starts with
			if b0, err := build(); c.Check(err == nil, "new block", "a new builder fails: %v", err) && err == nil {
				m.commitment = b0.Header.SlotCommitmentID
			} else {
				return
			}
			expected := func() *iotago.Block {
				ids := func(l [][36]byte) (o iotago.BlockIDs) {
					for _, id := range l {
						o = append(o, id)
					}
					return
				}
				b := &iotago.Block{API: e.API, Header: iotago.BlockHeader{ProtocolVersion: iotago.Version(m.version), NetworkID: iotago.NetworkID(e.P.NetworkID), IssuingTime: m.time, SlotCommitmentID: m.commitment, LatestFinalizedSlot: iotago.SlotIndex(m.finalized), IssuerID: m.issuer}, Signature: m.sig}
				if validation {
					b.Body = &iotago.ValidationBlockBody{API: e.API, StrongParents: ids(m.strong), WeakParents: ids(m.weak), ShallowLikeParents: ids(m.shallow), HighestSupportedVersion: iotago.Version(m.high), ProtocolParametersHash: m.hash}
				} else {
					b.Body = &iotago.BasicBlockBody{API: e.API, StrongParents: ids(m.strong), WeakParents: ids(m.weak), ShallowLikeParents: ids(m.shallow), Payload: m.payload, MaxBurnedMana: iotago.Mana(m.burned)}
				}
				return b
			}
			finish := func(what string) bool {
				b, err := build()
				c.Step(1)
				if !c.Check((err == nil) == !m.fail, "block error", "%s: model expects failure %v, got %v", what, m.fail, err) {
					return false
				}
				if err != nil {
					c.Check(b == nil, "block with error", "a block comes with the error")
					c.Outcome("refused")
					return true
				}
				want := ref.Enc(expected())
				if !c.Check(bytes.Equal(ref.Enc(b), want), "block content", "%s: built %x instead of %x", what, ref.Enc(b), want) {
					return false
				}
				c.Outcome("built")
				done = append(done, struct {
					b   *iotago.Block
					raw []byte
				}{b, want})
				return true
			}
			both := func(f func(b *builder.BasicBlockBuilder), g func(b *builder.ValidationBlockBuilder)) {
				if validation {
					g(vb)
				} else {
					f(bb)
				}
			}
			set := func(f func()) {
				if !m.fail {
					f()
				}
			}
			sign := func(k int) {
				set(func() {
					m.issuer = gen.AccID(byte(k))
					raw := ref.Enc(expected())
					head := ref.Enc(&expected().Header)
					body := raw[len(head) : len(raw)-97]
					msg := append(ref.Blake(head), ref.Blake(body)...)
					m.sig = gen.Sign(k, msg)
					c.Check(ed25519.Verify(gen.Pub(k), msg, m.sig.Signature[:]), "selfcheck", "signature")
				})
			}
			ended := false
			for _, k := range v {
				if k == 0 {
					ended = true
					continue
				}
				if ended {
					c.Skip()
					return
				}
				n := ns[k]
				pan := core.Panics(func() {
					switch n {
					case "Build":
					case "ProtocolVersion":
						both(func(b *builder.BasicBlockBuilder) { b.ProtocolVersion(9) }, func(b *builder.ValidationBlockBuilder) { b.ProtocolVersion(9) })
						set(func() { m.version = 9 })
					case "IssuingTime":
						t := time.Unix(e.P.GenesisUnix+99, 999).In(time.FixedZone("y", -7200))
						both(func(b *builder.BasicBlockBuilder) { b.IssuingTime(t) }, func(b *builder.ValidationBlockBuilder) { b.IssuingTime(t) })
						set(func() { m.time = t })
					case "SlotCommitmentID":
						both(func(b *builder.BasicBlockBuilder) { b.SlotCommitmentID(commitID(4, 55)) }, func(b *builder.ValidationBlockBuilder) { b.SlotCommitmentID(commitID(4, 55)) })
						set(func() { m.commitment = commitID(4, 55) })
					case "LatestFinalizedSlot":
						both(func(b *builder.BasicBlockBuilder) { b.LatestFinalizedSlot(66) }, func(b *builder.ValidationBlockBuilder) { b.LatestFinalizedSlot(66) })
						set(func() { m.finalized = 66 })
					case "Sign", "Sign 2":
						i := 1
						if n == "Sign 2" {
							i = 2
						}
						both(func(b *builder.BasicBlockBuilder) { b.Sign(gen.AccID(byte(i)), gen.Key(i)) }, func(b *builder.ValidationBlockBuilder) { b.Sign(gen.AccID(byte(i)), gen.Key(i)) })
						sign(i)
					case "sign with wrong signer":
						s := signerOf(1)
						both(func(b *builder.BasicBlockBuilder) { b.SignWithSigner(gen.AccID(3), s, gen.Ed(5)) }, func(b *builder.ValidationBlockBuilder) { b.SignWithSigner(gen.AccID(3), s, gen.Ed(5)) })
						m.fail = true
					case "StrongParents", "StrongParents 2":
						l := ps[0]
						if n != "StrongParents" {
							l = ps[1]
						}
						both(func(b *builder.BasicBlockBuilder) { b.StrongParents(l) }, func(b *builder.ValidationBlockBuilder) { b.StrongParents(l) })
						set(func() { m.strong = dedup(l) })
					case "WeakParents", "no WeakParents":
						l := ps[0]
						if n != "WeakParents" {
							l = ps[2]
						}
						both(func(b *builder.BasicBlockBuilder) { b.WeakParents(l) }, func(b *builder.ValidationBlockBuilder) { b.WeakParents(l) })
						set(func() { m.weak = dedup(l) })
					case "ShallowLikeParents":
						both(func(b *builder.BasicBlockBuilder) { b.ShallowLikeParents(ps[0]) }, func(b *builder.ValidationBlockBuilder) { b.ShallowLikeParents(ps[0]) })
						set(func() { m.shallow = dedup(ps[0]) })
					case "Payload", "Payload 2":
						p := pay[0]
						if n != "Payload" {
							p = pay[1]
						}
						bb.Payload(p)
						set(func() { m.payload = p })
					case "MaxBurnedMana":
						bb.MaxBurnedMana(123)
						set(func() { m.burned = 123 })
					case "cost at 3", "cost at max":
						rmc := uint64(3)
						if n != "cost at 3" {
							rmc = math.MaxUint64
						}
						bb.CalculateAndSetMaxBurnedMana(iotago.Mana(rmc))
						set(func() {
							n, _ := ref.PartsOf(expected())
							w := n.Cost(e.API.ProtocolParameters().WorkScoreParameters())
							w.Mul(w, new(big.Int).SetUint64(rmc))
							if w.BitLen() > 64 {
								m.fail = true
							} else {
								m.burned = w.Uint64()
							}
						})
					case "HighestSupportedVersion":
						vb.HighestSupportedVersion(13)
						set(func() { m.high = 13 })
					case "ProtocolParametersHash":
						vb.ProtocolParametersHash(gen.Fill32(0x5a))
						set(func() { m.hash = gen.Fill32(0x5a) })
					}
				})
				if pan != "" {
					c.Fail("panic block", "%s: %s", n, pan)
					return
				}
				if n == "Build" && !finish(n) {
					return
				}
				for _, d := range done {
					if !c.Check(bytes.Equal(ref.Enc(d.b), d.raw), "built block changed", "%s changes a block built before: %x became %x", n, d.raw, ref.Enc(d.b)) {
						return
					}
				}
				ch := own.changed()
				c.Check(ch == "", "argument changed block", "%s changes an object of the caller, %s", n, ch)
			}
			if finish("in the end") {
				for _, d := range done {
					c.Check(bytes.Equal(ref.Enc(d.b), d.raw), "built block changed", "the last Build changes a block built before")
				}
			}
		})
	}
}
