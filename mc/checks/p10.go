package checks

import (
	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P10"] = p10 }

func p10(x *core.Ctx) {
	e := gen.NewEnv(ref.Default())
	O := gen.Ed(0)
	accs := []iotago.AccountID{gen.AccID(0xa1), gen.AccID(0xa2)}
	// serials, counters and output order
	ser := core.Pick(x, 5, 6)
	x.Product("serials", []core.Dim{core.DV("counter", []uint32{0, 1, 2}), core.DL("counter'", "same", "+1", "+2", "+3", "-1"), core.D("serial1", ser), core.D("serial2", ser), core.D("serial3", ser), core.DL("existing foundry", "none", "kept first", "kept last", "destroyed"), core.DL("account", "kept", "destroyed", "not consumed", "fresh", "implicit"), core.DL("account output last", "no", "yes")}, func(v []int, c *core.C) {
		if x.Tier == "quick" && v[7] == 1 && v[6] > 0 || v[0] == 0 && (v[1] == 4 || v[5] > 0) || v[3] == 0 && v[4] > 0 || v[2] == 0 && v[3] > 0 {
			c.Skip()
			return
		}
		cs := &Case{E: e, Slot: 20, Commit: -1, Caps: caps(ref.CapDestroyAccount, ref.CapDestroyFoundry)}
		cin := uint32(v[0])
		cout := []uint32{cin, cin + 1, cin + 2, cin + 3, cin - 1}[v[1]]
		id := accs[0]
		ao := account(id, O, 3000, 0, cout)
		switch v[6] {
		case 0:
			cs.Add(account(id, O, 3000, 0, cin))
		case 1:
			cs.Add(account(id, O, 3000, 0, cin))
			ao = nil
		case 2:
			ao = nil
		case 3: // the controlling account is itself created here
			if v[0] > 0 || v[5] > 0 {
				c.Skip()
				return
			}
			ao.AccountID = iotago.AccountID{}
		case 4:
			if v[0] > 0 || v[5] > 0 {
				c.Skip()
				return
			}
			cs.Add(basic(gen.Implicit(0), 3000, 0))
			id = iotago.AccountID(digest32(cs.IDAt(0, 20)))
			cs.Commit, cs.BIC = 18, map[iotago.AccountID]int64{id: 0}
			ao = account(id, O, 3000, 0, cout, fBI(60))
		}
		if v[5] > 0 {
			if v[6] == 2 {
				c.Skip()
				return
			}
			cs.Add(foundry(id, 2000, cin, 0, 0, 9))
		}
		if ao != nil && v[7] == 0 {
			cs.Outs = append(cs.Outs, ao)
		}
		if v[5] == 1 {
			cs.Outs = append(cs.Outs, foundry(id, 2000, cin, 0, 0, 9))
		}
		for _, s := range v[2:5] {
			if s > 0 {
				cs.Outs = append(cs.Outs, foundry(id, 2000, uint32(s), 0, 0, 9))
			}
		}
		if v[5] == 2 {
			cs.Outs = append(cs.Outs, foundry(id, 2000, cin, 0, 0, 9))
		}
		if ao != nil && v[7] == 1 {
			cs.Outs = append(cs.Outs, ao)
		}
		cs.Add(basic(O, 40000, 0))
		cs.Fill(O, 0)
		cs.Run(c)
	})
	// two controlling accounts, interleaved foundries
	x.Product("two accounts", []core.Dim{core.DL("counter1'", "+0", "+1", "+2"), core.DL("counter2'", "+0", "+1", "+2"), core.DL("f1", "-", "a1 #1", "a1 #2", "a2 #1", "a2 #2"), core.DL("f2", "-", "a1 #1", "a1 #2", "a2 #1", "a2 #2"), core.DL("f3", "-", "a1 #1", "a1 #2", "a2 #1", "a2 #2"), core.DL("f4", "-", "a1 #1", "a1 #2", "a2 #1", "a2 #2"), core.DL("second account", "kept", "not consumed")}, func(v []int, c *core.C) {
		cs := &Case{E: e, Slot: 20, Commit: -1}
		for i, id := range accs {
			if i == 1 && v[6] == 1 {
				continue
			}
			cs.Add(account(id, O, 3000, 0, 0))
			cs.Outs = append(cs.Outs, account(id, O, 3000, 0, uint32(v[i])))
		}
		for _, k := range v[2:6] {
			if k > 0 {
				cs.Outs = append(cs.Outs, foundry(accs[(k-1)/2], 2000, uint32(1+(k-1)%2), 0, 0, 9))
			}
		}
		cs.Add(basic(O, 40000, 0))
		cs.Fill(O, 0)
		cs.Run(c)
	})
	// existing foundries: account, serial and immutable features are fixed
	im := []any{nil, imm{fMeta("a")}, imm{fMeta("b")}}
	x.Product("existing foundry", []core.Dim{core.DL("immutable", "-", "a", "b"), core.DL("immutable'", "-", "a", "b"), core.DV("serial'", []uint32{1, 2, 3}), core.DL("account'", "same", "other"), core.DL("mutable'", "-", "metadata"), core.DL("destroy cap", "no", "yes"), core.DL("counter'", "same", "+1"), core.DL("output", "kept", "absent", "twice"), core.DL("controller", "kept", "destroyed", "owner of foundry absent")}, func(v []int, c *core.C) {
		cs := &Case{E: e, Slot: 20, Commit: -1, Caps: caps(ref.CapDestroyAccount)}
		if v[5] == 1 {
			cs.Caps = caps(ref.CapDestroyFoundry, ref.CapDestroyAccount)
		}
		if v[8] < 2 {
			cs.Add(account(accs[0], O, 3000, 0, 2))
		}
		cs.Add(account(accs[1], O, 3000, 0, 0))
		if v[8] == 0 {
			cs.Outs = append(cs.Outs, account(accs[0], O, 3000, 0, 2+uint32(v[6])))
		}
		cs.Outs = append(cs.Outs, account(accs[1], O, 3000, 0, 0))
		cs.Add(foundry(accs[0], 2000, 1, 3, 1, 9, im[v[0]]))
		if v[7] == 1 && (v[1] > 0 || v[2] > 0 || v[3] > 0 || v[4] > 0) {
			c.Skip()
			return
		}
		n := 1
		if v[7] == 1 {
			n = 0
		}
		if v[7] == 2 {
			n = 2
		}
		for i := 0; i < n; i++ {
			cs.Outs = append(cs.Outs, foundry(accs[v[3]], 2000, uint32(1+v[2]), 3, 1, 9, im[v[1]], []any{nil, fMeta("m")}[v[4]]))
		}
		cs.Add(basic(O, 40000, 0))
		cs.Fill(O, 0)
		cs.Run(c)
	})
	// identifiers of every chain kind: duplicates on the output side, unknown ones, and identifiers of the right
	// digest but the wrong kind
	type mk func(b byte) iotago.Output
	d := gen.Fill32(0x66)
	kinds := []mk{
		func(b byte) iotago.Output { return account(gen.AccID(b), O, 2000, 0, 0) },
		func(b byte) iotago.Output { return nft(gen.NFTID(b), O, 2000, 0) },
		func(b byte) iotago.Output { return anchor(gen.AncID(b), O, O, 2000, 0, 0) },
		func(b byte) iotago.Output {
			return delegation(gen.DelID(b), O, 2000, 2000, gen.AccAddr(0xcc), 3, map[bool]uint32{true: 0, false: 3}[b == 0])
		},
	}
	_ = d
	kn := []string{"account", "nft", "anchor", "delegation"}
	ids := []byte{0, 0x66, 0x67}
	x.Product("identifiers", []core.Dim{core.DL("in kind", append([]string{"none"}, kn...)...), core.DL("out1 kind", kn...), core.DV("out1 id", ids), core.DL("out2 kind", append([]string{"none"}, kn...)...), core.DV("out2 id", ids), core.DL("caps", "-", "all"), core.DL("in id", "0x66", "fresh")}, func(v []int, c *core.C) {
		cs := &Case{E: e, Slot: 20, Commit: 17, Rewards: map[int]uint64{}}
		if v[5] == 1 {
			cs.Caps = allCaps()
		}
		var fresh [32]byte
		cs.Add(basic(O, 40000, 0))
		if v[0] > 0 {
			b := byte(0x66)
			if v[6] == 1 {
				b = 0
				fresh = digest32(cs.IDAt(1, 20))
			}
			cs.Add(kinds[v[0]-1](b))
		} else if v[6] == 1 {
			c.Skip()
			return
		}
		put := func(k int, b byte) {
			o := kinds[k](b)
			if v[6] == 1 && b == 0x66 {
				switch x := o.(type) {
				case *iotago.AccountOutput:
					x.AccountID = fresh
				case *iotago.NFTOutput:
					x.NFTID = fresh
				case *iotago.AnchorOutput:
					x.AnchorID = fresh
				case *iotago.DelegationOutput:
					x.DelegationID = fresh
				}
			}
			cs.Outs = append(cs.Outs, o)
		}
		put(v[1], ids[v[2]])
		if v[3] > 0 {
			put(v[3]-1, ids[v[4]])
		} else if v[4] > 0 {
			c.Skip()
			return
		}
		cs.Fill(O, 0)
		cs.Run(c)
	})
}
