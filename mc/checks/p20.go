package checks

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"strings"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P20"] = p20 }

const kindsRule = "kinds of conditions or features"

// JudgeSyntax compares the syntactic verdict on a signed transaction on the encoding and the decoding side. raw is nil when
// the object has no faithful encoding (a length that does not fit its prefix).
func JudgeSyntax(c *core.C, e *gen.Env, stx *iotago.SignedTransaction, want string, decodable bool) string {
	if pure {
		pureSyntax(c, e, stx)
		return want
	}
	if viaJSON {
		if !decodable {
			c.Skip()
		} else {
			judgeJSON(c, e, stx, want, func() any { return &iotago.SignedTransaction{API: e.API} })
		}
		return want
	}
	c.Step(1)
	var raw []byte
	if decodable {
		raw = ref.Enc(stx)
		c.State(raw)
	} else {
		c.StateS(fmt.Sprintf("unencodable %d %s", stx.Transaction.TransactionEssence.CreationSlot, want))
	}
	var got []byte
	var err error
	enc := func() { got, err = e.API.Encode(stx, serix.WithValidation()) }
	if want == kindsRule {
		// a Go value without its mandatory conditions has no owner: refusing it with a panic is refusing it. The wire never
		// gets there (the decoding leg demands an error).
		if p := core.Panics(enc); p != "" {
			err = errors.New(p)
			c.Outcome("refused by panic on encoding")
		}
	} else {
		enc()
	}
	if !c.Check((err == nil) == (want == ""), "encode:"+why(want), "encoding with validation: model says %q, implementation says %v", want, err) {
		return want
	}
	if err == nil && !bytes.Equal(got, raw) {
		c.Fail("bytes", "encoded bytes differ from the protocol layout:\n impl %x\n want %x", got, raw)
	}
	if decodable {
		c.Step(1)
		dec := &iotago.SignedTransaction{API: e.API}
		n, err := e.API.Decode(raw, dec, serix.WithValidation())
		c.Check((err == nil) == (want == ""), "decode:"+why(want), "decoding with validation: model says %q, implementation says %v", want, err)
		if err == nil {
			c.Check(n == len(raw), "short read", "decoding consumed %d of %d bytes", n, len(raw))
			c.Check(bytes.Equal(ref.Enc(dec), raw), "decoded object", "decoded object encodes differently")
		}
	}
	if want == "" {
		c.Outcome("valid")
	} else {
		c.Outcome(want)
	}
	return want
}

// outTx wraps an output in an otherwise valid transaction.
func outTx(e *gen.Env, commit bool, outs ...iotago.Output) *iotago.SignedTransaction {
	cs := &Case{E: e, Slot: 20, Commit: -1}
	if commit {
		cs.Commit = 18
	}
	cs.Add(basic(gen.Ed(0), 9000, 0))
	cs.Outs = outs
	stx := &iotago.SignedTransaction{API: e.API, Transaction: cs.Tx()}
	stx.Unlocks = iotago.Unlocks{&iotago.SignatureUnlock{Signature: gen.Sign(0, []byte("x"))}}
	return stx
}

func judgeOut(c *core.C, e *gen.Env, o iotago.Output, commit bool) string {
	stx := outTx(e, commit, o)
	return JudgeSyntax(c, e, stx, e.P.SyntaxSigned(stx), decodableOut(o))
}

func decodableOut(o iotago.Output) bool {
	for _, f := range ref.Feats(o) {
		switch x := f.(type) {
		case *iotago.MetadataFeature:
			if len(x.Entries) > 255 {
				return false
			}
			for k, v := range x.Entries {
				if len(k) > 255 || len(v) > 65535 {
					return false
				}
			}
		case *iotago.StateMetadataFeature:
			if len(x.Entries) > 255 {
				return false
			}
			for k, v := range x.Entries {
				if len(k) > 255 || len(v) > 65535 {
					return false
				}
			}
		case *iotago.TagFeature:
			if len(x.Tag) > 255 {
				return false
			}
		case *iotago.NativeTokenFeature:
			if x.Amount.Sign() < 0 || x.Amount.BitLen() > 256 {
				return false
			}
		}
	}
	if f, ok := o.(*iotago.FoundryOutput); ok {
		s := f.TokenScheme.(*iotago.SimpleTokenScheme)
		for _, v := range []*big.Int{s.MintedTokens, s.MeltedTokens, s.MaximumSupply} {
			if v.Sign() < 0 || v.BitLen() > 256 {
				return false
			}
		}
	}
	return true
}

var outKinds = []string{"basic", "account", "anchor", "foundry", "nft", "delegation"}

// skeleton is an output of a kind with the given raw lists.
func skeleton(kind int, amt, mana uint64, uc []iotago.UnlockCondition, mf, im []iotago.Feature) iotago.Output {
	switch kind {
	case 0:
		o := &iotago.BasicOutput{Amount: iotago.BaseToken(amt), Mana: iotago.Mana(mana)}
		for _, u := range uc {
			o.UnlockConditions = append(o.UnlockConditions, u)
		}
		for _, f := range mf {
			o.Features = append(o.Features, f)
		}
		return o
	case 1:
		o := &iotago.AccountOutput{Amount: iotago.BaseToken(amt), Mana: iotago.Mana(mana), AccountID: gen.AccID(0x31)}
		for _, u := range uc {
			o.UnlockConditions = append(o.UnlockConditions, u)
		}
		for _, f := range mf {
			o.Features = append(o.Features, f)
		}
		for _, f := range im {
			o.ImmutableFeatures = append(o.ImmutableFeatures, f)
		}
		return o
	case 2:
		o := &iotago.AnchorOutput{Amount: iotago.BaseToken(amt), Mana: iotago.Mana(mana), AnchorID: gen.AncID(0x32)}
		for _, u := range uc {
			o.UnlockConditions = append(o.UnlockConditions, u)
		}
		for _, f := range mf {
			o.Features = append(o.Features, f)
		}
		for _, f := range im {
			o.ImmutableFeatures = append(o.ImmutableFeatures, f)
		}
		return o
	case 3:
		o := &iotago.FoundryOutput{Amount: iotago.BaseToken(amt), SerialNumber: 1, TokenScheme: &iotago.SimpleTokenScheme{MintedTokens: big.NewInt(0), MeltedTokens: big.NewInt(0), MaximumSupply: big.NewInt(9)}}
		for _, u := range uc {
			o.UnlockConditions = append(o.UnlockConditions, u)
		}
		for _, f := range mf {
			o.Features = append(o.Features, f)
		}
		for _, f := range im {
			o.ImmutableFeatures = append(o.ImmutableFeatures, f)
		}
		return o
	case 4:
		o := &iotago.NFTOutput{Amount: iotago.BaseToken(amt), Mana: iotago.Mana(mana), NFTID: gen.NFTID(0x33)}
		for _, u := range uc {
			o.UnlockConditions = append(o.UnlockConditions, u)
		}
		for _, f := range mf {
			o.Features = append(o.Features, f)
		}
		for _, f := range im {
			o.ImmutableFeatures = append(o.ImmutableFeatures, f)
		}
		return o
	default:
		o := &iotago.DelegationOutput{Amount: iotago.BaseToken(amt), DelegatedAmount: iotago.BaseToken(amt), ValidatorAddress: gen.AccAddr(0x34)}
		for _, u := range uc {
			o.UnlockConditions = append(o.UnlockConditions, u)
		}
		return o
	}
}

// addrs is the address alphabet of the syntax spaces: every kind, valid and malformed.
func synAddrs() (as []iotago.Address, names []string) {
	add := func(n string, a iotago.Address) { as = append(as, a); names = append(names, n) }
	mw := func(thr uint16, ms ...any) *iotago.MultiAddress {
		m := &iotago.MultiAddress{Threshold: thr}
		for i := 0; i < len(ms); i += 2 {
			m.Addresses = append(m.Addresses, &iotago.AddressWithWeight{Address: ms[i].(iotago.Address), Weight: byte(ms[i+1].(int))})
		}
		return m
	}
	sorted := func(m *iotago.MultiAddress) *iotago.MultiAddress { gen.SortMulti(m); return m }
	e0, e1 := gen.Ed(0), gen.Ed(1)
	if ref.AddrKey(e0) > ref.AddrKey(e1) {
		e0, e1 = e1, e0
	}
	add("ed25519", gen.Ed(0))
	add("account", gen.AccAddr(0x51))
	add("nft", gen.NFTAddr(0x52))
	add("anchor", gen.AncAddr(0x53))
	add("implicit", gen.Implicit(0))
	add("multi", gen.Multi(2, gen.Ed(0), gen.Ed(1)))
	add("multi of all kinds", gen.Multi(2, gen.Ed(0), gen.AccAddr(1), gen.NFTAddr(2), gen.AncAddr(3)))
	add("multi of 1", mw(1, e0, 1))
	add("multi of 0", mw(0))
	ten := &iotago.MultiAddress{Threshold: 2550}
	for i := 0; i < 11; i++ {
		ten.Addresses = append(ten.Addresses, &iotago.AddressWithWeight{Address: gen.AccAddr(byte(i)), Weight: 255})
	}
	eleven := &iotago.MultiAddress{Threshold: 2805, Addresses: ten.Addresses}
	ten = &iotago.MultiAddress{Threshold: 2550, Addresses: ten.Addresses[:10]}
	add("multi of 10", ten)
	add("multi of 11", eleven)
	add("multi threshold sum+1", mw(3, e0, 1, e1, 1))
	add("multi threshold 256 of 255+1", mw(256, e0, 255, e1, 1))
	add("multi threshold 257 of 255+1", mw(257, e0, 255, e1, 1))
	add("multi threshold 0", mw(0, e0, 1, e1, 1))
	add("multi weight 0", mw(1, e0, 0, e1, 1))
	add("multi unsorted", mw(1, e1, 1, e0, 1))
	add("multi duplicate", mw(1, e0, 1, e0, 2))
	add("multi of implicit", sorted(mw(1, gen.Ed(0), 1, gen.Implicit(0), 1)))
	add("multi of restricted", sorted(mw(1, gen.Ed(0), 1, gen.Restricted(gen.Ed(1), 1), 1)))
	add("multi of multi", sorted(mw(1, gen.Ed(0), 1, gen.Multi(2, gen.Ed(0), gen.Ed(1)), 1)))
	add("restricted none", gen.Restricted(gen.Ed(0)))
	add("restricted all", gen.Restricted(gen.Ed(0), 0xff, 0x01))
	add("restricted trailing zero", gen.Restricted(gen.Ed(0), 0xff, 0x00))
	add("restricted one zero byte", gen.Restricted(gen.Ed(0), 0x00))
	add("restricted 3 bytes", gen.Restricted(gen.Ed(0), 0xff, 0x01, 0x01))
	add("restricted unknown bits", gen.Restricted(gen.Ed(0), 0xff, 0xff))
	add("restricted account", gen.Restricted(gen.AccAddr(0x51), 0xff, 0x01))
	add("restricted nft", gen.Restricted(gen.NFTAddr(0x52), 0xff, 0x01))
	add("restricted anchor", gen.Restricted(gen.AncAddr(0x53), 0xff, 0x01))
	add("restricted multi", gen.Restricted(gen.Multi(2, gen.Ed(0), gen.Ed(1)), 0xff, 0x01))
	add("restricted bad multi", gen.Restricted(mw(3, e0, 1, e1, 1), 0xff, 0x01))
	add("restricted implicit", gen.Restricted(gen.Implicit(0), 0xff, 0x01))
	add("restricted restricted", gen.Restricted(gen.Restricted(gen.Ed(0), 0xff, 0x01), 0xff, 0x01))
	return
}

func mkUC(kind int, a iotago.Address) iotago.UnlockCondition {
	switch kind {
	case 0:
		return &iotago.AddressUnlockCondition{Address: a}
	case 1:
		return &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: a, Amount: 500}
	case 2:
		return &iotago.TimelockUnlockCondition{Slot: 5}
	case 3:
		return &iotago.ExpirationUnlockCondition{ReturnAddress: a, Slot: 6}
	case 4:
		return &iotago.StateControllerAddressUnlockCondition{Address: a}
	case 5:
		return &iotago.GovernorAddressUnlockCondition{Address: a}
	}
	return &iotago.ImmutableAccountUnlockCondition{Address: gen.AccAddr(0x41)}
}

func mkF(kind int) iotago.Feature {
	switch kind {
	case 0:
		return &iotago.SenderFeature{Address: gen.Ed(2)}
	case 1:
		return &iotago.IssuerFeature{Address: gen.Ed(3)}
	case 2:
		return fMeta("v").(iotago.Feature)
	case 3:
		return fState("w").(iotago.Feature)
	case 4:
		return fTag("t").(iotago.Feature)
	case 5:
		return fNT(foundryID(gen.AccID(0x41), 1), 4).(iotago.Feature)
	case 6:
		return fBI(99, 0, 1).(iotago.Feature)
	}
	return fStake(10, 1, 3, 9).(iotago.Feature)
}

// lists is every list of up to n kinds out of k (repetition and any order included).
func lists(k, n int) (out [][]int) {
	out = [][]int{{}}
	last := [][]int{{}}
	for i := 0; i < n; i++ {
		var next [][]int
		for _, l := range last {
			for j := 0; j < k; j++ {
				next = append(next, append(append([]int{}, l...), j))
			}
		}
		out = append(out, next...)
		last = next
	}
	return
}

func listNames(ls [][]int) (s []string) {
	for _, l := range ls {
		s = append(s, strings.ReplaceAll(fmt.Sprint(l), " ", ""))
	}
	return
}

func baseUC(kind int) []iotago.UnlockCondition {
	switch kind {
	case 2:
		return []iotago.UnlockCondition{mkUC(4, gen.Ed(0)), mkUC(5, gen.Ed(1))}
	case 3:
		return []iotago.UnlockCondition{mkUC(6, nil)}
	}
	return []iotago.UnlockCondition{mkUC(0, gen.Ed(0))}
}

func p20(x *core.Ctx) {
	e := gen.NewEnv(ref.Default())
	outDim := core.DL("output", outKinds...)
	yesno := core.DL("commitment input", "yes", "no")

	ucl := lists(7, core.Pick(x, 4, 5))
	x.Product("conditions", []core.Dim{outDim, core.DL("list", listNames(ucl)...)}, func(v []int, c *core.C) {
		var uc []iotago.UnlockCondition
		for i, k := range ucl[v[1]] {
			uc = append(uc, mkUC(k, gen.Ed(i%2)))
		}
		judgeOut(c, e, skeleton(v[0], 5000, 0, uc, nil, nil), true)
	})
	fl := lists(8, core.Pick(x, 4, 5))
	x.Product("features", []core.Dim{outDim, core.DL("list", listNames(fl)...)}, func(v []int, c *core.C) {
		if v[0] == 5 && v[1] > 0 {
			c.Skip()
			return
		}
		var fs []iotago.Feature
		for _, k := range fl[v[1]] {
			fs = append(fs, mkF(k))
		}
		judgeOut(c, e, skeleton(v[0], 5000, 0, baseUC(v[0]), fs, nil), true)
	})
	il := lists(8, 3)
	x.Product("immutable features", []core.Dim{outDim, core.DL("list", listNames(il)...), core.DL("mutable", "none", "metadata")}, func(v []int, c *core.C) {
		if v[0] == 5 || v[0] == 0 {
			c.Skip()
			return
		}
		var fs, mf []iotago.Feature
		for _, k := range il[v[1]] {
			fs = append(fs, mkF(k))
		}
		if v[2] == 1 {
			mf = append(mf, mkF(2))
		}
		judgeOut(c, e, skeleton(v[0], 5000, 0, baseUC(v[0]), mf, fs), true)
	})

	as, an := synAddrs()
	// every address in every place that names one
	places := []string{"basic owner", "basic return", "basic expiration", "basic sender", "account owner", "account issuer", "account sender", "anchor state controller", "anchor governor", "anchor issuer",
		"nft owner", "nft return", "nft expiration", "nft sender", "nft issuer", "delegation owner"}
	at := func(p int, a, b iotago.Address) iotago.Output {
		one := func(u ...iotago.UnlockCondition) []iotago.UnlockCondition { return u }
		f := func(f iotago.Feature) []iotago.Feature { return []iotago.Feature{f} }
		switch p {
		case 0:
			return skeleton(0, 5000, 0, one(mkUC(0, a)), nil, nil)
		case 1:
			return skeleton(0, 5000, 0, one(mkUC(0, b), mkUC(1, a)), nil, nil)
		case 2:
			return skeleton(0, 5000, 0, one(mkUC(0, b), mkUC(3, a)), nil, nil)
		case 3:
			return skeleton(0, 5000, 0, one(mkUC(0, b)), f(&iotago.SenderFeature{Address: a}), nil)
		case 4:
			return skeleton(1, 5000, 0, one(mkUC(0, a)), nil, nil)
		case 5:
			return skeleton(1, 5000, 0, one(mkUC(0, b)), nil, f(&iotago.IssuerFeature{Address: a}))
		case 6:
			return skeleton(1, 5000, 0, one(mkUC(0, b)), f(&iotago.SenderFeature{Address: a}), nil)
		case 7:
			return skeleton(2, 5000, 0, one(mkUC(4, a), mkUC(5, b)), nil, nil)
		case 8:
			return skeleton(2, 5000, 0, one(mkUC(4, b), mkUC(5, a)), nil, nil)
		case 9:
			return skeleton(2, 5000, 0, one(mkUC(4, b), mkUC(5, b)), nil, f(&iotago.IssuerFeature{Address: a}))
		case 10:
			return skeleton(4, 5000, 0, one(mkUC(0, a)), nil, nil)
		case 11:
			return skeleton(4, 5000, 0, one(mkUC(0, b), mkUC(1, a)), nil, nil)
		case 12:
			return skeleton(4, 5000, 0, one(mkUC(0, b), mkUC(3, a)), nil, nil)
		case 13:
			return skeleton(4, 5000, 0, one(mkUC(0, b)), f(&iotago.SenderFeature{Address: a}), nil)
		case 14:
			return skeleton(4, 5000, 0, one(mkUC(0, b)), nil, f(&iotago.IssuerFeature{Address: a}))
		}
		return skeleton(5, 5000, 0, one(mkUC(0, a)), nil, nil)
	}
	x.Product("addresses", []core.Dim{core.DL("place", places...), core.DL("address", an...), core.DL("other address", an...)}, func(v []int, c *core.C) {
		judgeOut(c, e, at(v[0], as[v[1]], as[v[2]]), true)
	})

	// restricted owners against everything an output may hold
	hold := []string{"native token", "mana", "timelock", "expiration", "deposit return"}
	for kind, n := range []int{5, 1, 1, 0, 4, 0} {
		if kind == 3 {
			continue
		}
		kind, n := kind, n
		x.Product("capabilities of "+outKinds[kind], []core.Dim{core.DV("mask", seq(512)), core.DV("holds", seq(1<<n)), core.DL("place", "owner", "return address", "governor"), core.DL("wraps", "ed25519", "account", "multi")}, func(v []int, c *core.C) {
			m := v[0]
			var caps []byte
			switch {
			case m > 255:
				caps = []byte{byte(m), byte(m >> 8)}
			case m > 0:
				caps = []byte{byte(m)}
			}
			r := gen.Restricted([]iotago.Address{gen.Ed(0), gen.AccAddr(0x51), gen.Multi(2, gen.Ed(0), gen.Ed(1))}[v[3]], caps...)
			h := v[1]
			if kind == 4 {
				h <<= 1
			} else if kind == 1 || kind == 2 {
				h <<= 1
			}
			own, back := iotago.Address(r), iotago.Address(gen.Ed(1))
			switch v[2] {
			case 1:
				if kind != 0 && kind != 4 || h&8 == 0 {
					c.Skip()
					return
				}
				own, back = gen.Ed(1), r
			case 2:
				if kind != 2 {
					c.Skip()
					return
				}
			}
			uc := []iotago.UnlockCondition{mkUC(0, own)}
			if kind == 2 {
				uc = []iotago.UnlockCondition{mkUC(4, own), mkUC(5, back)}
				if v[2] == 2 {
					uc = []iotago.UnlockCondition{mkUC(4, back), mkUC(5, own)}
				}
			}
			if h&16 != 0 {
				uc = append(uc, mkUC(1, gen.Ed(2)))
			}
			if h&4 != 0 {
				uc = append(uc, mkUC(2, nil))
			}
			if h&8 != 0 {
				uc = append(uc, mkUC(3, back))
			}
			var mf []iotago.Feature
			if h&1 != 0 {
				mf = append(mf, mkF(5))
			}
			mana := uint64(0)
			if h&2 != 0 {
				mana = 1
			}
			c.Note("%v %b", hold, h)
			judgeOut(c, e, skeleton(kind, 5000, mana, uc, mf, nil), true)
		})
	}
	x.Product("implicit owner", []core.Dim{outDim, core.DV("holds", seq(32)), core.DV("features", seq(8))}, func(v []int, c *core.C) {
		uc := []iotago.UnlockCondition{mkUC(0, gen.Implicit(0))}
		if v[0] == 2 {
			uc = []iotago.UnlockCondition{mkUC(4, gen.Implicit(0)), mkUC(5, gen.Ed(0))}
		} else if v[0] == 3 {
			c.Skip()
			return
		} else {
			if v[1]&16 != 0 {
				uc = append(uc, mkUC(1, gen.Ed(2)))
			}
			if v[1]&4 != 0 {
				uc = append(uc, mkUC(2, nil))
			}
			if v[1]&8 != 0 {
				uc = append(uc, mkUC(3, gen.Ed(3)))
			}
		}
		var mf []iotago.Feature
		for i, k := range []int{0, 2, 4} {
			if v[2]>>i&1 == 1 {
				mf = append(mf, mkF(k))
			}
		}
		if v[1]&1 != 0 {
			mf = append(mf, mkF(5))
		}
		judgeOut(c, e, skeleton(v[0], 5000, uint64(v[1]>>1&1), uc, mf, nil), true)
	})

	// minimum deposit at the exact boundary for every shape
	pars := []ref.Params{ref.Default(), ref.Default(), ref.Default(), ref.Default()}
	pars[1].StorageCost = 0
	pars[2].StorageCost, pars[2].FactorData, pars[2].OffOutput, pars[2].OffKey, pars[2].OffStaking, pars[2].OffDelegation = 3, 2, 7, 11, 13, 17
	pars[3].StorageCost, pars[3].FactorData, pars[3].OffOutput, pars[3].OffKey, pars[3].OffStaking, pars[3].OffDelegation = 1, 255, 100000, 100000, 100000, 100000
	var envs []*gen.Env
	for i := range pars {
		envs = append(envs, gen.NewEnv(pars[i]))
	}
	fsets := [][]int{{0, 2, 4, 5}, {0, 2, 6, 7}, {2, 3}, {2, 5}, {0, 2, 4}, {}}
	x.Product("deposit", []core.Dim{core.DL("parameters", "default", "free", "mixed", "expensive"), outDim, core.DV("features", seq(16)), core.DL("address", an[:7]...), core.DL("amount", "min-1", "min", "min+1", "0", "supply", "supply+1"), yesno},
		func(v []int, c *core.C) {
			en := envs[v[0]]
			fs := fsets[v[1]]
			if v[2]>>len(fs) != 0 {
				c.Skip()
				return
			}
			var mf []iotago.Feature
			for i, k := range fs {
				if v[2]>>i&1 == 1 {
					f := mkF(k)
					if k == 7 {
						f = fStake(0, 1, 3, 9).(iotago.Feature)
					}
					mf = append(mf, f)
				}
			}
			uc := baseUC(v[1])
			if v[1] != 3 {
				uc[0] = mkUC(int(ref.Enc(uc[0])[0]), as[v[3]])
			}
			o := skeleton(v[1], 0, 0, uc, mf, nil)
			min := en.P.MinDeposit(o).Uint64()
			amt := []uint64{min - 1, min, min + 1, 0, en.P.Supply, en.P.Supply + 1}[v[4]]
			if min == 0 && v[4] == 0 {
				c.Skip()
				return
			}
			o = skeleton(v[1], amt, 0, uc, mf, nil)
			judgeOut(c, en, o, v[5] == 0)
		})
	x.Product("deposit return", []core.Dim{core.DL("parameters", "default", "free", "mixed", "expensive"), core.DL("output", "basic", "nft"), core.DL("return address", an...), core.DL("return amount", "0", "min-1", "min", "amount-1", "amount", "amount+1", "max"), core.DL("amount", "generous", "min of output")},
		func(v []int, c *core.C) {
			en := envs[v[0]]
			k := []int{0, 4}[v[1]]
			r := as[v[2]]
			mk := func(amt, ret uint64) iotago.Output {
				return skeleton(k, amt, 0, []iotago.UnlockCondition{mkUC(0, gen.Ed(0)), ucSDR(r, ret).(iotago.UnlockCondition)}, nil, nil)
			}
			amt := en.P.Supply / 2
			if v[4] == 1 {
				amt = en.P.MinDeposit(mk(0, 0)).Uint64()
			}
			min := en.P.MinDeposit(basic(r, 0, 0)).Uint64()
			if min == 0 && v[3] == 1 {
				c.Skip()
				return
			}
			judgeOut(c, en, mk(amt, []uint64{0, min - 1, min, amt - 1, amt, amt + 1, ^uint64(0)}[v[3]]), true)
		})
	x.Product("slots", []core.Dim{core.DL("output", "basic", "nft"), core.DV("timelock", []int{-1, 0, 1, 20, 1<<32 - 1}), core.DV("expiration", []int{-1, 0, 1, 20, 1<<32 - 1}), core.DL("deposit return", "no", "yes"), yesno}, func(v []int, c *core.C) {
		vals := []int64{-1, 0, 1, 20, 1<<32 - 1}
		uc := []iotago.UnlockCondition{mkUC(0, gen.Ed(0))}
		if v[3] == 1 {
			uc = append(uc, mkUC(1, gen.Ed(1)))
		}
		if vals[v[1]] >= 0 {
			uc = append(uc, ucTL(uint32(vals[v[1]])).(iotago.UnlockCondition))
		}
		if vals[v[2]] >= 0 {
			uc = append(uc, ucExp(gen.Ed(1), uint32(vals[v[2]])).(iotago.UnlockCondition))
		}
		judgeOut(c, e, skeleton([]int{0, 4}[v[0]], 5000, 0, uc, nil, nil), v[4] == 0)
	})

	// metadata
	big1 := ref.Default()
	big1.StorageCost = 0
	eb := gen.NewEnv(big1)
	keyset := []string{"", "!", "~", " ", "\x7f", "\x00", "\xff", "\u00e9", "aZ9_:/", "a b", "k\n", "\u212a", strings.Repeat("k", 255), strings.Repeat("k", 256), strings.Repeat("k", 254) + " "}
	mplaces := []string{"basic", "account", "anchor", "foundry", "nft", "account immutable", "anchor immutable", "foundry immutable", "nft immutable", "anchor state"}
	put := func(p int, ent map[string][]byte) iotago.Output {
		m := &iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{}}
		s := &iotago.StateMetadataFeature{Entries: iotago.StateMetadataFeatureEntries{}}
		for k, v := range ent {
			m.Entries[iotago.MetadataFeatureEntriesKey(k)] = v
			s.Entries[iotago.StateMetadataFeatureEntriesKey(k)] = v
		}
		switch {
		case p == 9:
			return skeleton(2, 5000, 0, baseUC(2), []iotago.Feature{s}, nil)
		case p >= 5:
			k := []int{1, 2, 3, 4}[p-5]
			return skeleton(k, 5000, 0, baseUC(k), nil, []iotago.Feature{m})
		}
		k := []int{0, 1, 2, 3, 4}[p]
		return skeleton(k, 5000, 0, baseUC(k), []iotago.Feature{m}, nil)
	}
	x.Product("metadata keys", []core.Dim{core.DL("place", mplaces...), core.DL("key", lab2(keyset)...), core.DL("second key", lab2(keyset)...), core.DV("value length", []int{0, 1, 300})}, func(v []int, c *core.C) {
		val := make([]byte, []int{0, 1, 300}[v[3]])
		judgeOut(c, eb, put(v[0], map[string][]byte{keyset[v[1]]: val, keyset[v[2]]: val}), true)
	})
	x.Product("every metadata key byte", []core.Dim{core.DL("place", mplaces...), core.DV("byte", seq(256)), core.DL("position", "alone", "first", "last")}, func(v []int, c *core.C) {
		k := string([]byte{byte(v[1])})
		judgeOut(c, eb, put(v[0], map[string][]byte{[]string{k, k + "a", "a" + k}[v[2]]: {1}}), true)
	})
	x.Product("metadata size", []core.Dim{core.DL("place", mplaces...), core.DV("entries", []int{0, 1, 2, 254, 255, 256}), core.DL("total", "small", "max-1", "max", "max+1", "max+3", "value 65535", "value 65536")}, func(v []int, c *core.C) {
		n := []int{0, 1, 2, 254, 255, 256}[v[1]]
		ent := map[string][]byte{}
		size := 1
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("k%03d", i)
			ent[k] = []byte{}
			size += 3 + len(k)
		}
		if n > 0 {
			fill := 0
			switch v[2] {
			case 1, 2, 3, 4:
				fill = ref.MaxMetadata + []int{-1, 0, 1, 3}[v[2]-1] - size
			case 5:
				fill = 65535
			case 6:
				fill = 65536
			}
			ent["k000"] = make([]byte, fill)
		} else if v[2] > 0 {
			c.Skip()
			return
		}
		judgeOut(c, eb, put(v[0], ent), true)
	})
	x.Product("two metadata features", []core.Dim{core.DL("place", "account", "anchor", "foundry", "nft"), core.DL("mutable", "none", "small", "max", "max+1"), core.DL("immutable", "none", "small", "max", "max+1"), core.DL("state", "none", "small", "max", "max+1")}, func(v []int, c *core.C) {
		k := []int{1, 2, 3, 4}[v[0]]
		f := func(i int) iotago.Feature {
			return &iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{"key": make([]byte, []int{0, 1, ref.MaxMetadata - 7, ref.MaxMetadata - 6}[i])}}
		}
		var mf, im []iotago.Feature
		if v[1] > 0 {
			mf = append(mf, f(v[1]))
		}
		if v[3] > 0 {
			if k != 2 {
				c.Skip()
				return
			}
			mf = append(mf, &iotago.StateMetadataFeature{Entries: iotago.StateMetadataFeatureEntries{"key": make([]byte, []int{0, 1, ref.MaxMetadata - 7, ref.MaxMetadata - 6}[v[3]])}})
		}
		if v[2] > 0 {
			im = append(im, f(v[2]))
		}
		judgeOut(c, eb, skeleton(k, 5000, 0, baseUC(k), mf, im), true)
	})

	// bounded features
	x.Product("tag and issuer keys", []core.Dim{core.DL("tag", "none", "0", "1", "64", "65", "255", "256"), core.DL("keys", "none", "0", "1", "2", "2 swapped", "2 equal", "128", "129", "first and last equal"), core.DV("expiry", []int{0, 1, 1<<32 - 1}), yesno}, func(v []int, c *core.C) {
		if v[0] > 0 && v[1] > 0 {
			c.Skip()
			return
		}
		if v[0] > 0 {
			n := []int{0, 0, 1, 64, 65, 255, 256}[v[0]]
			f := &iotago.TagFeature{Tag: make([]byte, n)}
			judgeOut(c, eb, skeleton([]int{0, 4}[v[2]%2], 5000, 0, baseUC(0), []iotago.Feature{f}, nil), v[3] == 0)
			return
		}
		if v[1] == 0 {
			c.Skip()
			return
		}
		f := &iotago.BlockIssuerFeature{ExpirySlot: iotago.SlotIndex([]uint32{0, 1, 1<<32 - 1}[v[2]])}
		key := func(i int) iotago.BlockIssuerKey {
			k := &iotago.Ed25519PublicKeyHashBlockIssuerKey{}
			k.PublicKeyHash[0] = byte(i)
			return k
		}
		n := []int{0, 0, 1, 2, 2, 2, 128, 129, 3}[v[1]]
		for i := 0; i < n; i++ {
			f.BlockIssuerKeys = append(f.BlockIssuerKeys, key(i))
		}
		switch v[1] {
		case 4:
			f.BlockIssuerKeys[0], f.BlockIssuerKeys[1] = f.BlockIssuerKeys[1], f.BlockIssuerKeys[0]
		case 5:
			f.BlockIssuerKeys[1] = key(0)
		case 8:
			f.BlockIssuerKeys[2] = key(0)
		}
		judgeOut(c, eb, skeleton(1, 5000, 0, baseUC(1), []iotago.Feature{f}, nil), v[3] == 0)
	})
	max := new(big.Int).Sub(pow2(1, 256), big.NewInt(1))
	vals := []*big.Int{big.NewInt(-1), big.NewInt(0), big.NewInt(1), big.NewInt(2), pow2(1, 255), new(big.Int).Sub(max, big.NewInt(1)), max, pow2(1, 256)}
	var vn []string
	for _, b := range vals {
		vn = append(vn, b.String())
	}
	x.Product("native token amount", []core.Dim{core.DL("output", "basic", "foundry"), core.DL("amount", vn...), core.DL("token", "of this foundry", "other serial", "other account", "scheme")}, func(v []int, c *core.C) {
		id := foundryID(gen.AccID(0x41), 1)
		switch v[2] {
		case 1:
			id = foundryID(gen.AccID(0x41), 2)
		case 2:
			id = foundryID(gen.AccID(0x42), 1)
		case 3:
			id[37] = 1
		}
		k := []int{0, 3}[v[0]]
		judgeOut(c, e, skeleton(k, 5000, 0, baseUC(k), []iotago.Feature{fNTb(id, new(big.Int).Set(vals[v[1]])).(iotago.Feature)}, nil), true)
	})
	x.Product("token scheme", []core.Dim{core.DL("minted", vn...), core.DL("melted", vn...), core.DL("maximum", vn...), core.DV("serial", []int{0, 1, 1<<32 - 1})}, func(v []int, c *core.C) {
		judgeOut(c, e, foundryB(gen.AccID(0x41), 5000, []uint32{0, 1, 1<<32 - 1}[v[3]], new(big.Int).Set(vals[v[0]]), new(big.Int).Set(vals[v[1]]), new(big.Int).Set(vals[v[2]])), true)
	})

	// identifiers, counters and self reference
	self := func(b byte) []iotago.Address {
		return []iotago.Address{gen.Ed(0), gen.AccAddr(b), gen.AccAddr(b + 1), gen.NFTAddr(b), gen.NFTAddr(b + 1), gen.AncAddr(b), gen.AncAddr(b + 1), gen.AccAddr(0), gen.NFTAddr(0), gen.AncAddr(0)}
	}
	sn := []string{"ed25519", "account self", "account other", "nft self", "nft other", "anchor self", "anchor other", "account zero", "nft zero", "anchor zero"}
	idn := []int{0, 0x31, 0x32}
	x.Product("account state", []core.Dim{core.DV("id", idn), core.DL("owner", sn...), core.DV("counter", []int{0, 1, 1<<32 - 1}), core.DL("block issuer", "no", "yes"), core.DL("staking", "no", "0", "amount", "amount+1", "max"), yesno}, func(v []int, c *core.C) {
		var ps []any
		if v[3] == 1 {
			ps = append(ps, fBI(30, 0))
		}
		if v[4] > 0 {
			ps = append(ps, fStake([]uint64{0, 0, 5000, 5001, ^uint64(0)}[v[4]], 1, 2, 3))
		}
		judgeOut(c, e, account(gen.AccID(byte(idn[v[0]])), self(0x31)[v[1]], 5000, 0, []uint32{0, 1, 1<<32 - 1}[v[2]], ps...), v[5] == 0)
	})
	x.Product("staking fields", []core.Dim{core.DV("start", []int{0, 1, 2, 1<<32 - 1}), core.DV("end", []int{0, 1, 2, 1<<32 - 1}), core.DL("cost", "0", "1", "max"), core.DL("staked", "0", "1", "amount", "amount+1")}, func(v []int, c *core.C) {
		es := []uint32{0, 1, 2, 1<<32 - 1}
		judgeOut(c, e, account(gen.AccID(0x31), gen.Ed(0), 5000, 0, 0, fBI(30, 0), fStake([]uint64{0, 1, 5000, 5001}[v[3]], []uint64{0, 1, ^uint64(0)}[v[2]], es[v[0]], es[v[1]])), true)
	})
	x.Product("anchor state", []core.Dim{core.DV("id", idn), core.DL("state controller", sn...), core.DL("governor", sn...), core.DV("state index", []int{0, 1, 1<<32 - 1})}, func(v []int, c *core.C) {
		judgeOut(c, e, anchor(gen.AncID(byte(idn[v[0]])), self(0x31)[v[1]], self(0x31)[v[2]], 5000, 0, []uint32{0, 1, 1<<32 - 1}[v[3]]), true)
	})
	x.Product("nft state", []core.Dim{core.DV("id", idn), core.DL("owner", sn...), core.DL("return", sn...), core.DL("issuer", sn...)}, func(v []int, c *core.C) {
		judgeOut(c, e, nft(gen.NFTID(byte(idn[v[0]])), self(0x31)[v[1]], 5000, 0, ucExp(self(0x31)[v[2]], 40), imm{fIssuer(self(0x31)[v[3]])}), true)
	})
	x.Product("delegation state", []core.Dim{core.DV("id", idn), core.DL("owner", sn...), core.DL("validator", "zero", "set", "owner"), core.DV("start", []int{0, 1, 1<<32 - 1}), core.DV("end", []int{0, 1, 1<<32 - 1}), core.DL("delegated", "0", "amount", "amount+1", "max"), yesno}, func(v []int, c *core.C) {
		es := []uint32{0, 1, 1<<32 - 1}
		judgeOut(c, e, delegation(gen.DelID(byte(idn[v[0]])), self(0x31)[v[1]], 5000, []uint64{0, 5000, 5001, ^uint64(0)}[v[5]], gen.AccAddr([]byte{0, 0x77, 0x31}[v[2]]), es[v[3]], es[v[4]]), v[6] == 0)
	})
	x.Product("mana", []core.Dim{outDim, core.DL("mana", "0", "1", "bound-1", "bound", "bound+1", "max")}, func(v []int, c *core.C) {
		b := uint64(1)<<e.P.Bits - 1
		judgeOut(c, e, skeleton(v[0], 5000, []uint64{0, 1, b - 1, b, b + 1, ^uint64(0)}[v[1]], baseUC(v[0]), nil, nil), true)
	})
	x.Assume("self ownership is judged for an output owned directly by its own chain address, as the protocol rule states; ownership through a restricted or multi address is outside the rule")
	x.Assume("fields hold non-nil Go values of the declared types; nil fields are not protocol objects")
}

func seq(n int) (o []int) {
	for i := 0; i < n; i++ {
		o = append(o, i)
	}
	return
}

func lab2(ss []string) (o []string) {
	for _, s := range ss {
		if len(s) > 20 {
			s = fmt.Sprintf("%.4s...(%d)%q", s, len(s), s[len(s)-1:])
		}
		o = append(o, fmt.Sprintf("%q", s))
	}
	return
}
