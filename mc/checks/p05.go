package checks

import (
	"math/big"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P05"] = p05 }

func p05(x *core.Ctx) {
	x.Assume("genesis slot 0 in the transaction spaces (see the known finding on non-zero genesis slots under P13/P14)")
	e := gen.NewEnv(ref.Default())
	O := gen.Ed(0)
	// totals: stored, generated and reward mana against stored and allotted outputs, at and around the exact balance
	stored := []uint64{0, 1, 1000, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	slots := []uint32{20, 19, 16, 15, 8, 7, 0, 21}
	rew := []uint64{0, 1, 1 << 63, 1<<64 - 1}
	x.Product("totals", []core.Dim{core.DV("stored1", stored), core.DV("stored2", stored), core.DV("slot1", slots), core.DV("slot2", core.Pick(x, []uint32{20, 12, 21}, slots)), core.DV("reward", rew),
		core.DL("outputs", "-1", "exact", "+1", "none", "exact in allotment", "+1 in allotment", "-1 split", "exact split", "+1 split", "exact+2^64", "max+max", "allot max + exact-max"), core.DL("caps", "-", "burn")}, func(v []int, c *core.C) {
		if x.Tier == "quick" && v[1] > 0 && v[2] > 3 && v[4] > 1 {
			c.Skip()
			return
		}
		cs := &Case{E: e, Slot: 20, Commit: 19, Rewards: map[int]uint64{}, Caps: [][]byte{nil, caps(ref.CapBurnMana)}[v[6]]}
		cs.AddAt(basic(O, 5000, stored[v[0]]), slots[v[2]])
		cs.AddAt(basic(O, 60000, stored[v[1]]), []uint32{20, 12, 21, 15, 8, 7, 0, 19}[v[3]])
		if rew[v[4]] > 0 {
			cs.Add(delegation(gen.DelID(0xd0), O, 500, 500, gen.AccAddr(0xcc), 1, 2))
			cs.Rewards[2] = rew[v[4]]
		}
		tx0 := cs.Tx()
		in, bad := e.P.ManaIn(tx0, cs.Resolved())
		if bad != "" {
			// unusable whatever comes out
			if v[5] > 3 {
				c.Skip()
				return
			}
			in = big.NewInt(int64([]int{0, 1, 1000, 5}[v[5]]))
		}
		one := big.NewInt(1)
		lim := new(big.Int).Lsh(one, 64)
		emit := func(outs []*big.Int, allots []*big.Int) bool {
			for _, o := range outs {
				if o.Sign() < 0 || o.Cmp(lim) >= 0 {
					return false
				}
				cs.Outs = append(cs.Outs, basic(O, 500, o.Uint64()))
			}
			for i, a := range allots {
				if a.Sign() < 0 || a.Cmp(lim) >= 0 {
					return false
				}
				cs.Allot = append(cs.Allot, &iotago.Allotment{AccountID: gen.AccID(byte(1 + i)), Mana: iotago.Mana(a.Uint64())})
			}
			return true
		}
		half := new(big.Int).Rsh(in, 1)
		maxm := new(big.Int).Sub(new(big.Int).Lsh(one, 63), one)
		plus := func(d int64) *big.Int { return new(big.Int).Add(in, big.NewInt(d)) }
		rest := func(d int64) *big.Int { return new(big.Int).Sub(plus(d), half) }
		ok := true
		switch v[5] {
		case 0, 1, 2:
			ok = emit([]*big.Int{plus(int64(v[5] - 1))}, nil)
		case 3:
		case 4:
			ok = emit(nil, []*big.Int{in})
		case 5:
			ok = emit(nil, []*big.Int{plus(1)})
		case 6, 7, 8:
			ok = emit([]*big.Int{half}, []*big.Int{rest(int64(v[5] - 7))})
		case 9: // three parts whose sum is the input plus 2^64
			ok = emit([]*big.Int{maxm, one}, []*big.Int{maxm, new(big.Int).Add(in, one)})
		case 10:
			ok = emit([]*big.Int{maxm}, []*big.Int{maxm})
		case 11:
			ok = emit([]*big.Int{new(big.Int).Sub(in, maxm)}, []*big.Int{maxm})
		}
		if !ok {
			c.Skip()
			return
		}
		cs.Fill(O, 0)
		cs.Run(c)
	})
	p05bound(x, e)
	p05funcs(x, e)
}

// p05bound: mana bound to a block issuer account.
func p05bound(x *core.Ctx, e *gen.Env) {
	O := gen.Ed(0)
	id := gen.AccID(0xab)
	self, other := gen.AccAddr(0xab), gen.AccAddr(0xac)
	const commit, slot = 22, 24 // past bound 25, timelock must exceed 28
	x.Product("bound mana", []core.Dim{
		core.DL("issuer", "live kept", "expired removed", "expired renewed", "added", "none", "expires now"),
		core.DV("account mana", []uint64{0, 100}), core.DL("account created", "now", "earlier"), core.DV("foreign mana", []uint64{0, 50}),
		core.DV("kept on account", []uint64{0, 60, 100, 150}), core.DV("allot self", []uint64{0, 40, 50}), core.DV("allot other", []uint64{0, 1, 50}),
		core.DL("locked output", "none", "self 40 @29", "self 40 @28", "other 40 @29", "self 40 @29 with expiration", "self nft 40 @29", "self 50 untimed", "key 40 @29"),
		core.DL("plain", "0", "rest", "rest+1 -1 kept"), core.DL("burn", "no", "yes"),
	}, func(v []int, c *core.C) {
		cs := &Case{E: e, Slot: slot, Commit: commit, BIC: map[iotago.AccountID]int64{id: 0}}
		if v[9] == 1 {
			cs.Caps = caps(ref.CapBurnMana)
		}
		bi := [][2]any{{fBI(40), fBI(40)}, {fBI(21), nil}, {fBI(21), fBI(30)}, {nil, fBI(30)}, {nil, nil}, {fBI(22), fBI(25)}}[v[0]]
		if x.Tier == "quick" && (v[0] == 5 || v[0] == 3) && v[7] > 3 {
			c.Skip()
			return
		}
		am := []uint64{0, 100}[v[1]]
		cr := uint32(slot)
		if v[2] == 1 {
			cr = 8
		}
		cs.AddAt(account(id, O, 20000, am, 0, bi[0]), cr)
		fm := []uint64{0, 50}[v[3]]
		cs.Add(basic(O, 20000, fm))
		kept := []uint64{0, 60, 100, 150}[v[4]]
		if as := []uint64{0, 40, 50}[v[5]]; as > 0 {
			cs.Allot = append(cs.Allot, &iotago.Allotment{AccountID: id, Mana: iotago.Mana(as)})
		}
		if ao := []uint64{0, 1, 50}[v[6]]; ao > 0 {
			cs.Allot = append(cs.Allot, &iotago.Allotment{AccountID: gen.AccID(0xac), Mana: iotago.Mana(ao)})
		}
		var lo iotago.Output
		switch v[7] {
		case 1:
			lo = basic(self, 1000, 40, ucTL(29))
		case 2:
			lo = basic(self, 1000, 40, ucTL(28))
		case 3:
			lo = basic(other, 1000, 40, ucTL(29))
		case 4:
			lo = basic(self, 1000, 40, ucTL(29), ucExp(O, 60))
		case 5:
			lo = nft(gen.NFTID(0), self, 1000, 40, ucTL(29))
		case 6:
			lo = basic(self, 1000, 50)
		case 7:
			lo = basic(O, 1000, 40, ucTL(29))
		}
		cs.Outs = append(cs.Outs, account(id, O, 20000, kept, 0, bi[1]))
		if lo != nil {
			cs.Outs = append(cs.Outs, lo)
		}
		tx0 := cs.Tx()
		in, _ := e.P.ManaIn(tx0, cs.Resolved())
		rest := new(big.Int).Sub(in, ref.ManaOut(tx0))
		if rest.Sign() < 0 {
			if v[8] != 0 {
				c.Skip()
				return
			}
		}
		switch v[8] {
		case 0:
			if rest.Sign() == 0 && false {
				return
			}
			cs.Fill(O, 0)
		case 1:
			if rest.Sign() == 0 {
				c.Skip()
				return
			}
			cs.Fill(O, rest.Uint64())
		case 2:
			if kept == 0 {
				c.Skip()
				return
			}
			cs.Outs[0].(*iotago.AccountOutput).Mana--
			cs.Fill(O, rest.Uint64()+1)
		}
		cs.Run(c)
	})
	// two block issuer accounts in one transaction: mana of one must not reach the other
	ids := []iotago.AccountID{gen.AccID(0xa1), gen.AccID(0xa2)}
	x.Product("two issuers", []core.Dim{core.DV("kept1", []uint64{0, 60, 100, 140}), core.DV("kept2", []uint64{0, 60, 100, 140}), core.DV("allot1", []uint64{0, 40}), core.DV("allot2", []uint64{0, 40}), core.DV("foreign", []uint64{0, 40}),
		core.DL("issuer2", "live", "expired", "none"), core.DL("fill", "0", "rest"), core.DL("burn", "no", "yes")}, func(v []int, c *core.C) {
		cs := &Case{E: e, Slot: slot, Commit: commit, BIC: map[iotago.AccountID]int64{ids[0]: 0, ids[1]: 5}}
		if v[7] == 1 {
			cs.Caps = caps(ref.CapBurnMana)
		}
		b2 := []any{fBI(40), fBI(21), nil}[v[5]]
		cs.Add(account(ids[0], O, 20000, 100, 0, fBI(40)))
		cs.Add(account(ids[1], O, 20000, 100, 0, b2))
		cs.Add(basic(O, 20000, []uint64{0, 40}[v[4]]))
		b2n := b2
		if v[5] == 1 {
			b2n = nil
		}
		ks := []uint64{0, 60, 100, 140}
		cs.Outs = append(cs.Outs, account(ids[0], O, 20000, ks[v[0]], 0, fBI(40)), account(ids[1], O, 20000, ks[v[1]], 0, b2n))
		for i := 0; i < 2; i++ {
			if v[2+i] == 1 {
				cs.Allot = append(cs.Allot, &iotago.Allotment{AccountID: ids[i], Mana: 40})
			}
		}
		tx0 := cs.Tx()
		in, _ := e.P.ManaIn(tx0, cs.Resolved())
		rest := new(big.Int).Sub(in, ref.ManaOut(tx0))
		f := uint64(0)
		if v[6] == 1 {
			if rest.Sign() <= 0 {
				c.Skip()
				return
			}
			f = rest.Uint64()
		}
		cs.Fill(O, f)
		cs.Run(c)
	})
}

// p05funcs compares the exported totals with exact arithmetic.
func p05funcs(x *core.Ctx, e *gen.Env) {
	O := gen.Ed(0)
	stored := []uint64{0, 1, 1000, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1}
	x.Product("total mana functions", []core.Dim{core.DV("m1", stored), core.DV("m2", stored), core.DV("m3", stored), core.DV("age", []uint32{0, 4, 8, 25}), core.DL("kind", "basic", "account", "nft", "anchor", "delegation", "foundry", "implicit")}, func(v []int, c *core.C) {
		cs := &Case{E: e, Slot: 40, Commit: -1}
		mk := func(m uint64) iotago.Output {
			switch v[4] {
			case 0:
				return basic(O, 5000, m)
			case 1:
				return account(gen.AccID(1), O, 5000, m, 0)
			case 2:
				return nft(gen.NFTID(1), O, 5000, m)
			case 3:
				return anchor(gen.AncID(1), O, O, 5000, m, 0)
			case 4:
				return delegation(gen.DelID(1), O, 5000, 5000, gen.AccAddr(2), 1, 0)
			case 5:
				return foundry(gen.AccID(1), 5000, 1, 0, 0, 1)
			default:
				return basic(gen.Implicit(0), 5000, m)
			}
		}
		age := []uint32{0, 4, 8, 25}[v[3]]
		cs.AddAt(mk(stored[v[0]]), 40-age)
		cs.AddAt(basic(O, 5000, stored[v[1]]), 40)
		cs.Rewards = map[int]uint64{}
		cs.Outs = []iotago.Output{mk(stored[v[0]]), basic(O, 5000, stored[v[1]])}
		cs.Allot = iotago.Allotments{&iotago.Allotment{AccountID: gen.AccID(1), Mana: iotago.Mana(stored[v[2]])}}
		tx := cs.Tx()
		res := cs.Resolved()
		res.RewardsInputSet[gen.AccID(9)] = iotago.Mana(stored[v[2]])
		c.StateS(describe(cs) + core.DV("", v).Labels[0] + lab(stored)[v[0]] + lab(stored)[v[1]] + lab(stored)[v[2]] + core.DV("", []uint32{age}).Labels[0])
		want, bad := e.P.ManaIn(tx, res)
		got, err := vm.TotalManaIn(e.API.ManaDecayProvider(), e.API.StorageScoreStructure(), tx.TransactionEssence.CreationSlot, res.InputSet, res.RewardsInputSet)
		c.Step(2)
		if v[4] != 6 { // implicit accounts are wrapped before the total is taken
			if bad != "" {
				c.Check(err != nil, "total in", "total mana in: implementation returns %d although %s", got, bad)
				c.Outcome("in: " + bad)
			} else if c.Check(err == nil && new(big.Int).SetUint64(uint64(got)).Cmp(want) == 0, "total in", "total mana in: implementation %d, %v, exact %s", got, err, want) {
				c.Outcome("in: exact")
			}
		}
		w := ref.ManaOut(tx)
		o, err := vm.TotalManaOut(tx.Outputs, tx.TransactionEssence.Allotments)
		if w.BitLen() > 64 {
			c.Check(err != nil, "total out", "total mana out wraps: %d for exact %s", o, w)
			c.Outcome("out: overflow")
		} else {
			c.Check(err == nil && new(big.Int).SetUint64(uint64(o)).Cmp(w) == 0, "total out", "total mana out: implementation %d, %v, exact %s", o, err, w)
			c.Outcome("out: exact")
		}
	})
}
