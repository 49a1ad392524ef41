package checks

import (
	"math/big"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P04"] = p04 }

func pow2(n uint, d int64) *big.Int {
	return new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), n), big.NewInt(d))
}

func p04(x *core.Ctx) {
	e := gen.NewEnv(ref.Default())
	acc := gen.AccID(0xbb)
	O := gen.Ed(0)
	fid := foundryID(acc, 1)
	// one foundry, every combination of counts and token movements
	mints := core.Pick(x, []int64{0, 1, 3, 5}, []int64{0, 1, 2, 3, 4, 5})
	melts := core.Pick(x, []int64{0, 1, 3}, []int64{0, 1, 2, 3})
	toks := core.Pick(x, []int64{0, 1, 2, 4}, []int64{0, 1, 2, 3, 4, 5})
	capsets := [][]byte{nil, caps(ref.CapBurnNT), caps(ref.CapDestroyFoundry), caps(ref.CapBurnNT, ref.CapDestroyFoundry)}
	x.Product("one foundry", []core.Dim{core.DL("foundry", "created", "kept", "destroyed", "absent"), core.DV("minted", mints), core.DV("melted", melts), core.DV("minted'", mints), core.DV("melted'", melts),
		core.DL("max'", "same", "+1", "-1"), core.DV("in", toks), core.DV("out", toks), core.DL("caps", "-", "burn", "destroy", "both")}, func(v []int, c *core.C) {
		k := v[0]
		if k == 0 && (v[1] > 0 || v[2] > 0) || k == 2 && (v[3] > 0 || v[4] > 0 || v[5] > 0) || k == 3 && (v[1] > 0 || v[2] > 0 || v[3] > 0 || v[4] > 0 || v[5] > 0) || k == 0 && v[5] > 0 {
			c.Skip()
			return
		}
		if x.Tier == "quick" && v[8] != 0 && v[8] != 3 && (k == 1 && v[5] > 0) {
			c.Skip()
			return
		}
		cs := &Case{E: e, Slot: 20, Commit: -1, Caps: capsets[v[8]]}
		ci, co := uint32(1), uint32(1)
		if k == 0 {
			ci = 0
		}
		cs.Add(account(acc, O, 5000, 0, ci))
		cs.Outs = append(cs.Outs, account(acc, O, 5000, 0, co))
		if k == 3 {
			// the token belongs to a foundry that takes no part
		}
		if k == 1 || k == 2 {
			cs.Add(foundry(acc, 2000, 1, mints[v[1]], melts[v[2]], 5))
		}
		if k < 2 {
			cs.Outs = append(cs.Outs, foundry(acc, 2000, 1, mints[v[3]], melts[v[4]], 5+[]int64{0, 1, -1}[v[5]]))
		}
		parts := func(n int64) (p []any) {
			if n > 0 {
				p = append(p, fNT(fid, n))
			}
			return
		}
		cs.Add(basic(O, 9000, 0, parts(toks[v[6]])...))
		cs.Fill(O, 0, parts(toks[v[7]])...)
		cs.Run(c)
	})
	// sums over several holders, edge amounts of 256 bits
	vals := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(2), pow2(255, 0), pow2(255, -1), pow2(256, -1), pow2(256, -2)}
	lv := make([]string, len(vals))
	for i, q := range vals {
		lv[i] = q.String()
	}
	parts := func(i int) (p []any) {
		if vals[i].Sign() > 0 {
			p = append(p, fNTb(fid, vals[i]))
		}
		return
	}
	x.Product("256-bit sums", []core.Dim{core.DL("foundry", "absent", "mints the modular difference", "melts the modular difference", "mints out", "idle"), core.DL("in1", lv...), core.DL("in2", lv...), core.DL("out1", lv...), core.DL("out2", lv...), core.DL("caps", "-", "burn")}, func(v []int, c *core.C) {
		if v[1] > v[2] || v[3] > v[4] {
			c.Skip()
			return
		}
		cs := &Case{E: e, Slot: 20, Commit: -1, Caps: [][]byte{nil, caps(ref.CapBurnNT)}[v[5]]}
		cs.Add(account(acc, O, 5000, 0, 1))
		cs.Outs = append(cs.Outs, account(acc, O, 5000, 0, 1))
		mod := pow2(256, 0)
		sum := func(a, b int) *big.Int { return new(big.Int).Add(vals[a], vals[b]) }
		d := new(big.Int).Mod(new(big.Int).Sub(sum(v[3], v[4]), sum(v[1], v[2])), mod)
		max := pow2(256, -1)
		zero := new(big.Int)
		switch v[0] {
		case 1:
			cs.Add(foundryB(acc, 2000, 1, zero, zero, max))
			cs.Outs = append(cs.Outs, foundryB(acc, 2000, 1, d, zero, max))
		case 2:
			cs.Add(foundryB(acc, 2000, 1, max, zero, max))
			cs.Outs = append(cs.Outs, foundryB(acc, 2000, 1, max, new(big.Int).Mod(new(big.Int).Neg(d), mod), max))
		case 3:
			cs.Add(foundryB(acc, 2000, 1, zero, zero, max))
			cs.Outs = append(cs.Outs, foundryB(acc, 2000, 1, new(big.Int).Mod(sum(v[3], v[4]), mod), zero, max))
		case 4:
			cs.Add(foundryB(acc, 2000, 1, max, zero, max))
			cs.Outs = append(cs.Outs, foundryB(acc, 2000, 1, max, zero, max))
		}
		cs.Add(basic(O, 9000, 0, parts(v[1])...))
		cs.Add(basic(O, 9000, 0, parts(v[2])...))
		cs.Outs = append(cs.Outs, basic(O, 9000, 0, parts(v[3])...))
		cs.Fill(O, 0, parts(v[4])...)
		cs.Run(c)
	})
	// token scheme edges with 256 bit values on a transition
	x.Product("scheme edges", []core.Dim{core.DL("minted", lv...), core.DL("melted", lv...), core.DL("minted'", lv...), core.DL("melted'", lv...), core.DL("max", lv...), core.DL("tokens", "none", "difference minted on the output side", "difference melted on the input side")}, func(v []int, c *core.C) {
		cs := &Case{E: e, Slot: 20, Commit: -1, Caps: caps(ref.CapBurnNT)}
		cs.Add(account(acc, O, 5000, 0, 1))
		cs.Outs = append(cs.Outs, account(acc, O, 5000, 0, 1))
		cs.Add(foundryB(acc, 2000, 1, vals[v[0]], vals[v[1]], vals[v[4]]))
		cs.Outs = append(cs.Outs, foundryB(acc, 2000, 1, vals[v[2]], vals[v[3]], vals[v[4]]))
		if f := cs.Ins[1].Out.(*iotago.FoundryOutput); f.TokenScheme.(*iotago.SimpleTokenScheme).MeltedTokens.Cmp(f.TokenScheme.(*iotago.SimpleTokenScheme).MintedTokens) > 0 || vals[v[0]].Cmp(vals[v[4]]) > 0 || vals[v[4]].Sign() == 0 {
			c.Skip() // not a valid ledger state
			return
		}
		var pi, po []any
		switch v[5] {
		case 1:
			d := new(big.Int).Sub(vals[v[2]], vals[v[0]])
			if d.Sign() <= 0 {
				c.Skip()
				return
			}
			po = append(po, fNTb(fid, d))
		case 2:
			d := new(big.Int).Sub(vals[v[3]], vals[v[1]])
			if d.Sign() <= 0 {
				c.Skip()
				return
			}
			pi = append(pi, fNTb(fid, d))
		}
		cs.Add(basic(O, 9000, 0, pi...))
		cs.Fill(O, 0, po...)
		cs.Run(c)
	})
	// two foundries: operations and token movements of each, including tokens moved to the wrong identifier
	ops := []string{"absent", "idle", "mint 2", "melt 2", "destroyed", "created with 2", "created with 0"}
	mv := []string{"unchanged", "+2", "-2", "-all"}
	x.Product("two foundries", []core.Dim{core.DL("op1", ops...), core.DL("op2", ops...), core.DL("tok1", mv...), core.DL("tok2", mv...), core.DL("ids", "own", "swapped"), core.DL("holders", "same kinds", "nft and account"), core.DL("caps", "-", "burn", "destroy", "both"), core.DL("accounts", "one", "two")}, func(v []int, c *core.C) {
		cs := &Case{E: e, Slot: 20, Commit: -1, Caps: capsets[v[6]]}
		accs := []iotago.AccountID{acc, acc}
		serial := []uint32{1, 2}
		if v[7] == 1 {
			accs[1], serial[1] = gen.AccID(0xbc), 1
		}
		counterIn := map[iotago.AccountID]uint32{}
		counterOut := map[iotago.AccountID]uint32{}
		for i := 0; i < 2; i++ {
			if v[i] < 5 {
				counterIn[accs[i]] = serial[i]
			}
			if counterOut[accs[i]] < serial[i] {
				counterOut[accs[i]] = serial[i]
			}
		}
		if v[7] == 0 && v[0] >= 5 && v[1] < 5 {
			c.Skip() // serial 2 exists before serial 1
			return
		}
		for _, a := range []iotago.AccountID{accs[0], accs[1]} {
			if a == accs[0] && len(cs.Outs) > 0 {
				continue
			}
			cs.Add(account(a, O, 5000, 0, counterIn[a]))
			cs.Outs = append(cs.Outs, account(a, O, 5000, 0, counterOut[a]))
		}
		ids := []iotago.FoundryID{foundryID(accs[0], serial[0]), foundryID(accs[1], serial[1])}
		for i := 0; i < 2; i++ {
			if v[i] >= 1 && v[i] <= 4 {
				mi := int64(6)
				if v[i] == 4 {
					mi = 4
				}
				cs.Add(foundry(accs[i], 2000, serial[i], mi, 0, 100))
			}
			switch v[i] {
			case 1:
				cs.Outs = append(cs.Outs, foundry(accs[i], 2000, serial[i], 6, 0, 100))
			case 2:
				cs.Outs = append(cs.Outs, foundry(accs[i], 2000, serial[i], 8, 0, 100))
			case 3:
				cs.Outs = append(cs.Outs, foundry(accs[i], 2000, serial[i], 6, 2, 100))
			case 5:
				cs.Outs = append(cs.Outs, foundry(accs[i], 2000, serial[i], 2, 0, 100))
			case 6:
				cs.Outs = append(cs.Outs, foundry(accs[i], 2000, serial[i], 0, 0, 100))
			}
		}
		for i := 0; i < 2; i++ {
			in := int64(4)
			if v[i] >= 5 {
				in = 0
			}
			out := in + []int64{0, 2, -2, -in}[v[2+i]]
			if out < 0 {
				c.Skip()
				return
			}
			oid := ids[i]
			if v[4] == 1 {
				oid = ids[1-i]
			}
			var pi, po []any
			if in > 0 {
				pi = append(pi, fNT(ids[i], in))
			}
			if out > 0 {
				po = append(po, fNT(oid, out))
			}
			cs.Add(basic(O, 7000, 0, pi...))
			cs.Outs = append(cs.Outs, basic(O, 1500, 0, po...))
			if v[5] == 1 {
				cs.Add(nft(gen.NFTID(byte(0x70+i)), O, 1000, 0))
				cs.Outs = append(cs.Outs, nft(gen.NFTID(byte(0x70+i)), O, 1000, 0))
			}
		}
		cs.Fill(O, 0)
		cs.Run(c)
	})
	// foundries may hold their own and foreign tokens
	x.Product("tokens inside foundries", []core.Dim{core.DL("in", "-", "own 3", "foreign 3"), core.DL("out", "-", "own 3", "own 1", "own 5", "foreign 3"), core.DL("scheme", "idle", "mint 2", "melt 2", "melt 3", "mint 5"), core.DL("outside", "-", "in 3", "out 3"), core.DL("caps", "-", "burn")}, func(v []int, c *core.C) {
		cs := &Case{E: e, Slot: 20, Commit: -1, Caps: [][]byte{nil, caps(ref.CapBurnNT)}[v[4]]}
		cs.Add(account(acc, O, 5000, 0, 1))
		cs.Outs = append(cs.Outs, account(acc, O, 5000, 0, 1))
		other := foundryID(gen.AccID(0xdd), 1)
		in := []any{nil, fNT(fid, 3), fNT(other, 3)}[v[0]]
		out := []any{nil, fNT(fid, 3), fNT(fid, 1), fNT(fid, 5), fNT(other, 3)}[v[1]]
		m := [][2]int64{{9, 0}, {11, 0}, {9, 2}, {9, 3}, {14, 0}}[v[2]]
		cs.Add(foundry(acc, 2000, 1, 9, 0, 100, in))
		cs.Outs = append(cs.Outs, foundry(acc, 2000, 1, m[0], m[1], 100, out))
		cs.Add(basic(O, 3000, 0, []any{nil, fNT(fid, 3), nil}[v[3]]))
		cs.Fill(O, 0, []any{nil, nil, fNT(fid, 3)}[v[3]])
		cs.Run(c)
	})
}
