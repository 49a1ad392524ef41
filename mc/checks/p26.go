package checks

import (
	"fmt"
	"math"
	"math/big"
	"os"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P26"] = p26 }

// bounds64 is the boundary alphabet of 64-bit amounts.
func bounds64(deep bool) (out []uint64) {
	ks := []uint{0, 1, 31, 32, 62, 63}
	if deep {
		ks = []uint{0, 1, 2, 15, 16, 31, 32, 33, 53, 61, 62, 63}
	}
	for _, k := range ks {
		for _, v := range []uint64{1<<k - 1, 1 << k, 1<<k + 1} {
			out = append(out, v)
		}
	}
	for _, v := range []uint64{math.MaxUint64/3 - 1, math.MaxUint64 / 3, math.MaxUint64 - 1, math.MaxUint64} {
		out = append(out, v)
	}
	return uniq(out)
}

func uniq[T comparable](in []T) (out []T) {
	seen := map[T]bool{}
	for _, v := range in {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	return
}

func p26(x *core.Ctx) {
	u := func(v uint64) *big.Int { return new(big.Int).SetUint64(v) }
	// exact compares a 64-bit result with the exact value.
	exact := func(c *core.C, key string, got uint64, err error, want *big.Int, limit *big.Int, what string) {
		fits := want.Sign() >= 0 && want.Cmp(limit) < 0
		c.Step(1)
		c.Outcomef("%s overflow %v", key, !fits)
		c.Check((err == nil) == fits && (err != nil || got == want.Uint64()), key, "%s: got %d (%v), exact value %s", what, got, err, want)
	}
	l64, l32 := pow2(64, 0), pow2(32, 0)

	// work scores
	ws := uniq([]uint64{0, 1, 2, 3, 1 << 15, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<31 - 1, 1 << 31, 1<<31 + 1, math.MaxUint32 / 3, math.MaxUint32 - 1, math.MaxUint32})
	x.Product("work score sums", []core.Dim{core.DV("first", ws), core.DV("second", ws), core.DV("third", ws), core.DV("fourth", ws), core.D("operands", 4)}, func(v []int, c *core.C) {
		n := v[4]
		for i := n + 1; i < 4; i++ {
			if v[i] != 0 {
				c.Skip()
				return
			}
		}
		want := u(ws[v[0]])
		var more []iotago.WorkScore
		for i := 1; i <= n; i++ {
			more = append(more, iotago.WorkScore(ws[v[i]]))
			want.Add(want, u(ws[v[i]]))
		}
		got, err := iotago.WorkScore(ws[v[0]]).Add(more...)
		exact(c, "work sum", uint64(got), err, want, l32, fmt.Sprintf("%d plus %v", ws[v[0]], more))
	})
	factors := []int{math.MinInt64, math.MinInt32, -1 << 32, -2, -1, 0, 1, 2, 3, 255, 1 << 15, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 6 << 32, 1 << 33, 1 << 62, math.MaxInt64}
	x.Product("work score products", []core.Dim{core.DV("score", ws), core.DV("factor", factors)}, func(v []int, c *core.C) {
		w, f := ws[v[0]], factors[v[1]]
		want := new(big.Int).Mul(u(w), big.NewInt(int64(f)))
		got, err := iotago.WorkScore(w).Multiply(f)
		fits := want.Sign() >= 0 && want.Cmp(l32) < 0
		c.Step(1)
		c.Outcomef("fits %v", fits)
		// a factor outside of the range may be refused even where the product happens to be zero
		c.Check(err == nil && fits && uint64(got) == want.Uint64() || err != nil && (!fits || f < 0 || f > math.MaxUint32), "work product", "%d times %d: got %d (%v), exact value %s", w, f, got, err, want)
	})

	// mana out of outputs and allotments
	b64 := bounds64(false)
	out1 := func(kind int, mana uint64) iotago.Output {
		switch kind {
		case 0:
			return basic(gen.Ed(0), 500, mana)
		case 1:
			return account(gen.AccID(1), gen.Ed(0), 500, mana, 0)
		case 2:
			return anchor(gen.AncID(1), gen.Ed(0), gen.Ed(1), 500, mana, 0)
		case 3:
			return nft(gen.NFTID(1), gen.Ed(0), 500, mana)
		case 4:
			return foundry(gen.AccID(1), 500, 1, 0, 0, 9)
		}
		return delegation(gen.DelID(1), gen.Ed(0), 500, 500, gen.AccAddr(2), 1, 0)
	}
	amts := core.Pick(x, b64, bounds64(true))
	x.Product("mana out", []core.Dim{core.DL("first", "basic", "account", "anchor", "nft", "foundry", "delegation"), core.DL("second", "basic", "account", "anchor", "nft", "foundry", "delegation"), core.DV("first mana", amts), core.DV("second mana", amts), core.DV("allotted", amts), core.DL("outputs and allotments", "1+0", "2+0", "1+1", "2+1", "0+2", "0+3")}, func(v []int, c *core.C) {
		n := [][2]int{{1, 0}, {2, 0}, {1, 1}, {2, 1}, {0, 2}, {0, 3}}[v[5]]
		if n[0] < 2 && v[1] != 0 || n[0] < 1 && v[0] != 0 || n[1] == 0 && v[4] != 0 || n == [2]int{1, 1} && v[3] != 0 || n == [2]int{1, 0} && v[3] != 0 || v[0] >= 4 && v[2] != 0 || v[1] >= 4 && v[3] != 0 {
			c.Skip()
			return
		}
		if x.Tier == "quick" && v[0] != v[1] && (v[0]+v[1])%5 != 1 {
			c.Skip()
			return
		}
		tx := &iotago.Transaction{API: nil, TransactionEssence: &iotago.TransactionEssence{}}
		for i := 0; i < n[0]; i++ {
			tx.Outputs = append(tx.Outputs, out1(v[i], amts[v[2+i]]))
		}
		for i := 0; i < n[1]; i++ {
			a := amts[v[4]]
			if n[0] == 0 && i > 0 {
				a = amts[v[1+i]]
			}
			tx.TransactionEssence.Allotments = append(tx.TransactionEssence.Allotments, &iotago.Allotment{AccountID: gen.AccID(byte(i)), Mana: iotago.Mana(a)})
		}
		got, err := vm.TotalManaOut(tx.Outputs, tx.TransactionEssence.Allotments)
		exact(c, "mana out", uint64(got), err, ref.ManaOut(tx), l64, "mana out")
	})

	// mana in of inputs and rewards
	e := gen.NewEnv(func() ref.Params { p := ref.Default(); p.Bits = 64; p.Supply = math.MaxUint64; return p }())
	mv := core.Pick(x, []uint64{0, 1, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}, uniq(append(b64, 1<<33, 1<<53)))
	at := []uint64{0, 400, 1 << 40, math.MaxUint64}
	x.Product("mana in", []core.Dim{core.DL("first", "basic", "account", "anchor", "nft", "foundry", "delegation"), core.DL("second", "none", "basic", "account", "nft"), core.DV("first mana", mv), core.DV("second mana", mv), core.DV("amount", at), core.DV("created", []uint32{1, 7, 20, 21}), core.DV("reward", mv), core.DL("rewards", "0", "1", "2")}, func(v []int, c *core.C) {
		if v[0] >= 4 && v[2] != 0 || v[1] == 0 && v[3] != 0 || v[7] == 0 && v[6] != 0 {
			c.Skip()
			return
		}
		set := vm.InputSet{}
		total := new(big.Int)
		ok := true
		created := []uint32{1, 7, 20, 21}[v[5]]
		add := func(o iotago.Output, i uint16) {
			o = withAmount(o, at[v[4]])
			set[gen.OutID(byte(i), created, i)] = o
			d, is := e.P.DecaySlots(u(ref.StoredMana(o)), created, 20)
			ok = ok && is
			if is {
				total.Add(total, d)
			}
			g, is := e.P.Potential(o, created, 20)
			if e.P.MinDeposit(o).Cmp(u(ref.Amount(o))) > 0 {
				g, is = new(big.Int), true
			}
			ok = ok && is
			if is {
				total.Add(total, g)
			}
		}
		add(out1(v[0], mv[v[2]]), 0)
		if v[1] > 0 {
			add(out1([]int{0, 0, 1, 3}[v[1]], mv[v[3]]), 1)
		}
		rewards := vm.RewardsInputSet{}
		for i := 0; i < v[7]; i++ {
			rewards[gen.AccID(byte(i))] = iotago.Mana(mv[v[6]])
			total.Add(total, u(mv[v[6]]))
		}
		got, err := vm.TotalManaIn(e.API.ManaDecayProvider(), e.API.StorageScoreStructure(), 20, set, rewards)
		if !ok {
			// created in a later slot of a later epoch or of the same one
			c.Outcome("created later")
			if created == 21 && e.P.Epoch(created) == e.P.Epoch(20) && err == nil {
				c.Check(false, "mana in order", "mana of an output created after the transaction: %d", got)
			}
			return
		}
		exact(c, "mana in", uint64(got), err, total, l64, "mana in")
	})

	// token sums
	nt := []*big.Int{big.NewInt(-1), big.NewInt(0), big.NewInt(1), big.NewInt(2), pow2(64, 0), pow2(255, -1), pow2(255, 0), pow2(256, -2), pow2(256, -1), pow2(256, 0)}
	var nn []string
	for _, n := range nt {
		nn = append(nn, n.String())
	}
	f1, f2 := foundryID(gen.AccID(1), 1), foundryID(gen.AccID(1), 2)
	x.Product("native token sums", []core.Dim{core.DL("first", nn...), core.DL("second", nn...), core.DL("third", nn...), core.DL("tokens", "one", "two", "third differs"), core.DL("outputs", "1", "2", "3")}, func(v []int, c *core.C) {
		var outs iotago.Outputs[iotago.Output]
		var tos iotago.Outputs[iotago.TxEssenceOutput]
		want := map[iotago.FoundryID]*big.Int{}
		bad := false
		for i := 0; i <= v[4]; i++ {
			id := f1
			if v[3] == 1 && i == 1 || v[3] == 2 && i == 2 {
				id = f2
			}
			a := new(big.Int).Set(nt[v[i]])
			o := basic(gen.Ed(0), 500, 0, fNTb(id, a))
			if i == 1 {
				// another kind of output with a token
				outs = append(outs, foundryB(gen.AccID(1), 500, 1, big.NewInt(0), big.NewInt(0), big.NewInt(1), fNTb(id, a)))
			} else {
				outs = append(outs, o)
			}
			tos = append(tos, outs[i])
			if a.Sign() <= 0 {
				bad = true
			}
			if want[id] == nil {
				want[id] = new(big.Int)
			}
			want[id].Add(want[id], a)
		}
		for i := v[4] + 1; i < 3; i++ {
			if v[i] != 0 {
				c.Skip()
				return
			}
		}
		for _, w := range want {
			if w.BitLen() > 256 {
				bad = true
			}
		}
		c.Step(2)
		c.Outcomef("refused %v", bad)
		for i, f := range []func() (iotago.NativeTokenSum, error){outs.NativeTokenSum, tos.NativeTokenSum} {
			got, err := f()
			if !c.Check((err != nil) == bad, "token sum", "native token sum %d: %v, exact %v", i, err, want) || err != nil {
				continue
			}
			c.Check(len(got) == len(want), "token sum count", "%d tokens summed, want %d", len(got), len(want))
			for id, w := range want {
				c.Check(got[id] != nil && got[id].Cmp(w) == 0, "token sum value", "token %x: sum %v, want %s", id, got[id], w)
			}
		}
		for i := 0; i <= v[4]; i++ {
			c.Check(ref.Feats(outs[i])[0].(*iotago.NativeTokenFeature).Amount.Cmp(nt[v[i]]) == 0, "token sum modified", "summing native tokens changed an output")
		}
	})

	// sums of a transaction under the largest supply and mana parameters
	e63 := gen.NewEnv(func() ref.Params {
		p := ref.Default()
		p.Supply = math.MaxUint64
		p.StorageCost = 0
		return p
	}())
	e64 := gen.NewEnv(func() ref.Params {
		p := ref.Default()
		p.Supply = math.MaxUint64
		p.StorageCost = 0
		p.Bits = 64
		return p
	}())
	small := gen.NewEnv(func() ref.Params {
		p := ref.Default()
		p.Supply = 1 << 63
		p.StorageCost = 0
		p.Bits = 10
		return p
	}())
	envs := []*gen.Env{e63, e64, small}
	sv := core.Pick(x, []uint64{1, 2, 1023, 1<<63 - 1, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}, []uint64{1, 2, 3, 512, 1023, 1024, 1 << 32, 1<<62 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64})
	x.Product("transaction sums", []core.Dim{core.DL("parameters", "63 bits", "64 bits", "10 bits"), core.DL("what", "base tokens", "stored mana", "allotments"), core.DL("count", "1", "2", "3"), core.DV("first", sv), core.DV("second", sv), core.DV("third", sv)}, func(v []int, c *core.C) {
		for i := v[2] + 1; i < 3; i++ {
			if v[3+i] != 0 {
				c.Skip()
				return
			}
		}
		en := envs[v[0]]
		outs := []iotago.Output{}
		for i := 0; i <= v[2]; i++ {
			switch v[1] {
			case 0:
				outs = append(outs, basic(gen.Ed(0), sv[v[3+i]], 0))
			case 1:
				outs = append(outs, basic(gen.Ed(0), 1, sv[v[3+i]]))
			default:
				outs = append(outs, basic(gen.Ed(0), 1, 0))
			}
		}
		stx := outTx(en, true, outs...)
		if v[1] == 2 {
			for i := 0; i <= v[2]; i++ {
				stx.Transaction.TransactionEssence.Allotments = append(stx.Transaction.TransactionEssence.Allotments, &iotago.Allotment{AccountID: gen.AccID(byte(i + 1)), Mana: iotago.Mana(sv[v[3+i]])})
			}
		}
		c.Outcome(JudgeSyntax(c, en, stx, en.P.SyntaxSigned(stx), true))
	})

	// sanity checks of protocol parameters
	thr := []uint64{0, 1, 4, 5, 2550, 1 << 31, math.MaxUint32 - 1, math.MaxUint32}
	rate := []uint64{0, 1, 10, 429496729, 429496730, 1 << 24, 1<<24 + 1, 1 << 31, math.MaxUint32}
	durs := []uint64{1, 2, 10, 255}
	stdout := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull) // the constructor prints what it refuses
	x.Product("congestion parameters", []core.Dim{core.DV("increase threshold", thr), core.DV("decrease threshold", thr), core.DV("scheduler rate", rate), core.DV("slot duration", durs)}, func(v []int, c *core.C) {
		inc, dec, r, d := thr[v[0]], thr[v[1]], rate[v[2]], durs[v[3]]
		ok := inc <= r*d && dec <= inc
		c.Step(1)
		p := core.Panics(func() {
			iotago.NewV3SnapshotProtocolParameters(iotago.WithTimeProviderOptions(0, 1600000000, uint8(d), 13), iotago.WithLivenessOptions(0, 0, 1, 3, 5), iotago.WithSupplyOptions(1000, 63, 1, 17, 32, 1, 70),
				iotago.WithRewardsOptions(8, 11, 2, 384), iotago.WithCongestionControlOptions(1, 1, 1, iotago.WorkScore(inc), iotago.WorkScore(dec), iotago.WorkScore(r), 10, 10))
		})
		c.Outcomef("accepted %v", ok)
		c.Check((p == "") == ok, "congestion parameters", "thresholds %d and %d with %d x %d schedulable: %q", inc, dec, r, d, p)
	})
	os.Stdout = stdout
	ages := []uint64{1, 2, 3, 60, 429496729, 429496730, 858993460, 1 << 24, 1<<24 + 1, 1 << 31}
	lives := []uint64{0, 1, 4, 9, 10, 11, 65535}
	x.Product("liveness parameters", []core.Dim{core.DV("lower bound", lives), core.DV("upper bound", lives), core.DV("committable age", ages), core.DV("slot duration", durs)}, func(v []int, c *core.C) {
		lo, up, age, d := lives[v[0]], lives[v[1]], ages[v[2]], durs[v[3]]
		// the ages have to fit into an epoch
		exp := uint64(31)
		ok := lo <= up && up < age*d && age+2 < 1<<exp
		if age >= 1<<31 {
			c.Skip()
			return
		}
		c.Step(1)
		p := core.Panics(func() {
			iotago.NewV3SnapshotProtocolParameters(iotago.WithTimeProviderOptions(0, 1600000000, uint8(d), uint8(exp)), iotago.WithLivenessOptions(uint16(lo), uint16(up), iotago.SlotIndex(age), iotago.SlotIndex(age+1), iotago.SlotIndex(age+2)), iotago.WithSupplyOptions(1000, 63, 1, 40, 32, 1, 70),
				iotago.WithRewardsOptions(8, 11, 2, 384), iotago.WithCongestionControlOptions(1, 1, 1, 1, 1, 10, 10, 10))
		})
		c.Outcomef("accepted %v", ok)
		c.Check((p == "") == ok, "liveness parameters", "liveness bounds %d and %d with a committable age of %d slots of %d s: %q", lo, up, age, d, p)
	})
	supplies := []uint64{1, 1000, 1813620509061365, 1 << 53, 1 << 61, 1<<62 + 5, 1 << 63, math.MaxUint64 / 255, math.MaxUint64}
	x.Product("reward rates", []core.Dim{core.DV("supply", supplies), core.DV("ratio", []uint64{0, 1, 2, 255}), core.DV("generation rate", []uint64{0, 1, 3, 255}), core.DV("generation exponent", []uint64{0, 12, 13, 14, 17, 40, 76, 77, 90})}, func(v []int, c *core.C) {
		s, r, g, x := supplies[v[0]], []uint64{0, 1, 2, 255}[v[1]], []uint64{0, 1, 3, 255}[v[2]], []uint64{0, 12, 13, 14, 17, 40, 76, 77, 90}[v[3]]
		prod := new(big.Int).Mul(new(big.Int).Mul(u(s), u(r)), u(g))
		ok := prod.IsUint64() && x >= 13
		var pp *iotago.V3ProtocolParameters
		c.Step(1)
		p := core.Panics(func() {
			pp = iotago.NewV3SnapshotProtocolParameters(iotago.WithTimeProviderOptions(0, 1600000000, 10, 13), iotago.WithSupplyOptions(iotago.BaseToken(s), 63, uint8(g), uint8(x), 32, 1, 70), iotago.WithRewardsOptions(8, 0, uint8(r), 384))
		})
		if p != "" {
			// other sanity checks refuse some of the parameters as well
			c.Outcome("refused")
			return
		}
		c.Outcome("accepted")
		if !c.Check(ok, "reward rate overflow", "supply %d, ratio %d, generation %d/2^%d: rewards computed although %s does not fit", s, r, g, x, prod) {
			return
		}
		want := prod.Rsh(prod, uint(x-13))
		c.Check(uint64(pp.RewardsParameters().FinalTargetRewardsRate) == want.Uint64(), "reward rate", "final target rewards rate is %d, want %s", pp.RewardsParameters().FinalTargetRewardsRate, want)
	})
}
