package checks

import (
	"fmt"
	"math"
	"math/big"
	"reflect"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P23"] = p23 }

// withAmount is a shallow copy of the output with another amount.
func withAmount(o iotago.Output, amt uint64) iotago.Output {
	n := reflect.New(reflect.TypeOf(o).Elem())
	n.Elem().Set(reflect.ValueOf(o).Elem())
	n.Elem().FieldByName("Amount").SetUint(amt)
	return n.Interface().(iotago.Output)
}

func scoreParams(p *ref.Params) *iotago.StorageScoreParameters {
	return &iotago.StorageScoreParameters{StorageCost: iotago.BaseToken(p.StorageCost), FactorData: iotago.StorageScoreFactor(p.FactorData), OffsetOutputOverhead: iotago.StorageScore(p.OffOutput),
		OffsetEd25519BlockIssuerKey: iotago.StorageScore(p.OffKey), OffsetStakingFeature: iotago.StorageScore(p.OffStaking), OffsetDelegation: iotago.StorageScore(p.OffDelegation)}
}

// structure builds the score structure; nil if the parameters are refused.
func structure(p *ref.Params) (s *iotago.StorageScoreStructure, refused string) {
	refused = core.Panics(func() { s = iotago.NewStorageScoreStructure(scoreParams(p)) })
	return
}

// scoreOutputs are outputs over every part that has a score of its own.
func scoreOutputs(e *gen.Env) (os []iotago.Output, names []string) {
	for _, o := range catalog(e) {
		if o.Kind == "output" {
			os = append(os, o.New().(iotago.Output))
			names = append(names, o.Name)
		}
	}
	keys := func(n int) any {
		f := &iotago.BlockIssuerFeature{ExpirySlot: 9}
		for i := 0; i < n; i++ {
			k := &iotago.Ed25519PublicKeyHashBlockIssuerKey{}
			k.PublicKeyHash[0] = byte(i)
			f.BlockIssuerKeys = append(f.BlockIssuerKeys, k)
		}
		return f
	}
	addAcc := func(n int, parts ...any) {
		os = append(os, account(gen.AccID(1), gen.Ed(0), 1, 0, 0, append([]any{keys(n)}, parts...)...))
		names = append(names, fmt.Sprintf("account with %d issuer keys and %d other features", n, len(parts)))
	}
	for _, n := range []int{0, 1, 2, 3, 7, 64, 127, 128} {
		addAcc(n)
		addAcc(n, fStake(1, 1, 3, 9))
		addAcc(n, fStake(1, 1, 3, 9), fSender(gen.Ed(1)))
	}
	as, an := synAddrs()
	for i, a := range as {
		add := func(n string, o iotago.Output) { os = append(os, o); names = append(names, n+" "+an[i]) }
		add("basic to", basic(a, 1, 0))
		add("basic returning to", basic(gen.Ed(0), 1, 0, ucSDR(a, 1)))
		add("basic expiring to", basic(gen.Ed(0), 1, 0, ucExp(a, 3)))
		add("basic sent by", basic(gen.Ed(0), 1, 0, fSender(a)))
		add("basic with everything", basic(a, 1, 0, ucSDR(a, 1), ucExp(a, 3), ucTL(3), fSender(a), fTag("t")))
		add("account of", account(gen.AccID(1), a, 1, 0, 0))
		add("account issued by", account(gen.AccID(1), gen.Ed(0), 1, 0, 0, imm{fIssuer(a)}))
		add("anchor controlled by", anchor(gen.AncID(1), a, gen.Ed(0), 1, 0, 0))
		add("anchor governed by", anchor(gen.AncID(1), gen.Ed(0), a, 1, 0, 0))
		add("nft of", nft(gen.NFTID(1), a, 1, 0))
		add("nft issued by", nft(gen.NFTID(1), gen.Ed(0), 1, 0, imm{fIssuer(a)}))
		add("delegation of", delegation(gen.DelID(1), a, 1, 1, gen.AccAddr(3), 1, 2))
	}
	return
}

func judgeScore(c *core.C, p *ref.Params, s *iotago.StorageScoreStructure, o iotago.Output) {
	want := p.StorageScore(o)
	key := func(k string) string { return fmt.Sprintf("%s:%T", k, o) }
	before := ref.Enc(o)
	got := o.StorageScore(s, nil)
	c.Step(4)
	c.State(before)
	c.Check(want.IsUint64() && uint64(got) == want.Uint64(), key("score"), "storage score is %d, the formula says %s", got, want)
	c.Check(o.StorageScore(s, nil) == got, key("repeat"), "a second computation of the storage score differs")
	min := p.MinDeposit(o)
	d, err := s.MinDeposit(o)
	if !min.IsUint64() {
		c.Outcome("deposit beyond 64 bits")
		c.Check(err != nil, key("deposit overflow"), "minimum deposit %s does not fit into 64 bits, got %d without an error", min, d)
		for _, a := range []uint64{0, 1, uint64(d), math.MaxUint64} {
			_, err := s.CoversMinDeposit(o, iotago.BaseToken(a))
			c.Check(err != nil, key("covered overflow"), "amount %d is said to cover a deposit of %s", a, min)
		}
		return
	}
	c.Outcome("deposit")
	c.Check(err == nil && uint64(d) == min.Uint64(), key("deposit"), "minimum deposit is %d (%v), the formula says %s", d, err, min)
	for _, a := range edges(min.Uint64()) {
		d, err := s.CoversMinDeposit(o, iotago.BaseToken(a))
		c.Check((err == nil) == (a >= min.Uint64()), key("covers"), "minimum deposit %s, amount %d: %v", min, a, err)
		c.Check(err != nil || uint64(d) == min.Uint64(), key("covers value"), "minimum deposit %s reported as %d", min, d)
	}
	// the amount itself does not change the score
	c.Check(withAmount(o, math.MaxUint64).StorageScore(s, nil) == got, key("amount"), "the storage score depends on the amount")
	c.Check(string(ref.Enc(o)) == string(before), key("modified"), "computing the storage score changed the output")
}

// edges are the amounts around v.
func edges(v uint64) []uint64 {
	out := []uint64{0, 1, v, math.MaxUint64}
	if v > 0 {
		out = append(out, v-1)
	}
	if v < math.MaxUint64 {
		out = append(out, v+1)
	}
	return out
}

func p23(x *core.Ctx) {
	e := gen.NewEnv(ref.Default())
	os, on := scoreOutputs(e)
	type set struct {
		n string
		p ref.Params
	}
	var sets []*set
	add := func(n string, cost uint64, factor uint8, out, key, stake, del uint64) {
		p := ref.Default()
		p.StorageCost, p.FactorData, p.OffOutput, p.OffKey, p.OffStaking, p.OffDelegation = cost, factor, out, key, stake, del
		sets = append(sets, &set{n, p})
	}
	add("default", 1, 1, 10, 3, 5, 7)
	add("real network", 100, 1, 10, 100, 100, 100)
	add("zero", 0, 0, 0, 0, 0, 0)
	add("free", 0, 255, 1<<40, 1<<40, 1<<40, 1<<40)
	add("cost only", 7, 0, 0, 0, 0, 0)
	add("factor only", 1, 255, 0, 0, 0, 0)
	add("overhead only", 3, 0, 1<<61, 0, 0, 0)
	add("keys only", 3, 0, 0, 1<<50, 0, 0)
	add("staking only", 3, 0, 0, 0, 1<<61, 0)
	add("delegation only", 3, 0, 0, 0, 0, 1<<61)
	add("64-bit deposits", 1<<53, 1, 1024, 1, 1, 1)
	add("large cost", math.MaxUint64, 1, 0, 0, 0, 0)
	add("one unit large cost", math.MaxUint64, 0, 1, 0, 0, 0)
	add("primes", 13, 3, 1009, 10007, 100003, 1000003)
	var sn []string
	for _, s := range sets {
		sn = append(sn, s.n)
	}
	x.Product("scores", []core.Dim{core.DL("parameters", sn...), core.DL("output", on...)}, func(v []int, c *core.C) {
		p := sets[v[0]].p
		s, refused := structure(&p)
		if !c.Check(refused == "", "refused", "harmless parameters refused: %s", refused) {
			return
		}
		judgeScore(c, &p, s, os[v[1]])
	})

	// parameters from the whole 64-bit range: what is not refused does not wrap
	vals := core.Pick(x, []uint64{0, 1 << 32, 1 << 56, 1 << 57, 1<<62 - 1, 1 << 63, math.MaxUint64 - 100_000, math.MaxUint64 - 1000, math.MaxUint64},
		[]uint64{0, 1, 1 << 32, 1 << 56, 1<<56 + 1, 1 << 57, 1<<62 - 1, 1 << 63, math.MaxUint64 / 3, math.MaxUint64/136 + 1, math.MaxUint64 - 9_000_000, math.MaxUint64 - 100_000, math.MaxUint64 - 1000, math.MaxUint64})
	var few []iotago.Output
	var fn []string
	seen := map[string]bool{}
	for i, o := range os {
		// one output per kind and set of parts
		sig := fmt.Sprintf("%T", o)
		for _, u := range ref.UCs(o) {
			sig += fmt.Sprintf("%T%v", u, hasImplicit(u))
		}
		for _, f := range ref.Feats(o) {
			sig += fmt.Sprintf("%T", f)
			if b, ok := f.(*iotago.BlockIssuerFeature); ok {
				sig += fmt.Sprint(len(b.BlockIssuerKeys))
			}
		}
		if !seen[sig] {
			seen[sig] = true
			few, fn = append(few, o), append(fn, on[i])
		}
	}
	x.Extra("outputs scored under extreme parameters", fmt.Sprint(len(few), " of ", len(os)))
	_ = fn
	x.Product("extreme parameters", []core.Dim{core.DV("cost", []uint64{0, 1, 2, 1 << 40, math.MaxUint64}), core.DV("factor", []int{0, 1, 255}), core.DV("overhead", vals), core.DV("key", vals), core.DV("staking", vals), core.DV("delegation", vals)}, func(v []int, c *core.C) {
		p := ref.Default()
		p.StorageCost, p.FactorData = []uint64{0, 1, 2, 1 << 40, math.MaxUint64}[v[0]], []uint8{0, 1, 255}[v[1]]
		p.OffOutput, p.OffKey, p.OffStaking, p.OffDelegation = vals[v[2]], vals[v[3]], vals[v[4]], vals[v[5]]
		if v[0] != 1 && v[1] != 1 && (v[2]+v[3]+v[4]+v[5])%5 != 0 {
			c.Skip()
			return
		}
		c.Step(1)
		s, refused := structure(&p)
		// no output can reach this: 64 kB of data, 200 keys and implicit addresses
		bound := new(big.Int).SetUint64(p.OffKey)
		bound.Mul(bound, big.NewInt(200))
		for _, t := range []uint64{p.OffOutput, p.OffStaking, p.OffDelegation, 255 * 65536} {
			bound.Add(bound, new(big.Int).SetUint64(t))
		}
		if refused != "" {
			c.Outcome("refused")
			c.Check(!bound.IsUint64(), "refused", "parameters under which no score can wrap are refused: %s", refused)
			return
		}
		for _, o := range few {
			if want := p.StorageScore(o); !want.IsUint64() {
				c.Check(false, "wrap", "%T: storage score %s is beyond 64 bits, got %d", o, want, o.StorageScore(s, nil))
				return
			}
			judgeScore(c, &p, s, o)
			if c.Failed() {
				return
			}
		}
		c.Outcome("accepted")
	})

	as, an := synAddrs()
	x.Product("return deposit", []core.Dim{core.DL("parameters", sn...), core.DL("return address", an...)}, func(v []int, c *core.C) {
		p := sets[v[0]].p
		s, refused := structure(&p)
		if !c.Check(refused == "", "refused", "harmless parameters refused: %s", refused) {
			return
		}
		c.Step(1)
		want := p.MinDeposit(basic(as[v[1]], 0, 0))
		got, err := s.MinStorageDepositForReturnOutput(as[v[1]])
		c.Check((err == nil) == want.IsUint64() && (err != nil || uint64(got) == want.Uint64()), "return", "minimum deposit of a return output: got %d (%v), want %s", got, err, want)
	})

	// the amount of an output in a transaction
	var envs []*gen.Env
	var en []string
	for _, s := range sets {
		if s.n == "large cost" || s.n == "one unit large cost" {
			continue
		}
		p := s.p
		p.Supply = 1 << 62
		envs = append(envs, gen.NewEnv(p))
		en = append(en, s.n)
	}
	amts := []string{"min-1", "min", "min+1", "0", "min/2"}
	x.Product("acceptance", []core.Dim{core.DL("parameters", en...), core.DL("output", on...), core.DL("amount", amts...)}, func(v []int, c *core.C) {
		e := envs[v[0]]
		o := os[v[1]]
		if x.Tier == "quick" && v[0] > 2 && !seenOutput(few, o) {
			c.Skip()
			return
		}
		min := e.P.MinDeposit(o)
		if !min.IsUint64() || min.Sign() == 0 && v[2] != 1 {
			c.Skip()
			return
		}
		m := min.Uint64()
		o = withAmount(o, []uint64{m - 1, m, m + 1, 0, m / 2}[v[2]])
		if d, ok := o.(*iotago.DelegationOutput); ok {
			d.DelegatedAmount = d.Amount
		}
		c.Outcome(judgeOut(c, e, o, true))
	})
}

func hasImplicit(u iotago.UnlockCondition) bool {
	a, ok := u.(*iotago.AddressUnlockCondition)
	if !ok {
		return false
	}
	_, ok = a.Address.(*iotago.ImplicitAccountCreationAddress)
	return ok
}

func seenOutput(l []iotago.Output, o iotago.Output) bool {
	for _, x := range l {
		if x == o {
			return true
		}
	}
	return false
}
