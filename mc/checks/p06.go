package checks

import (
	"math"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P06"] = p06 }

func p06(x *core.Ctx) {
	e := gen.NewEnv(ref.Default())
	p06issuer(x, e)
	p06staking(x, e)
	p06identity(x, e)
	p06histories(x, e)
}

// p06issuer: block issuer feature, issuance credit and commitment against every kind of step.
func p06issuer(x *core.Ctx, e *gen.Env) {
	O := gen.Ed(0)
	id := gen.AccID(0xab)
	olds := []string{"none", "c-2", "c-1", "c", "c+1", "past-1", "past", "far", "max"}
	news := []string{"none", "same", "past-1", "past", "past+1", "far", "max", "0"}
	val := func(s string, c uint32) (uint32, bool) {
		p := c + e.P.MaxCA
		switch s {
		case "c-2":
			return c - 2, true
		case "c-1":
			return c - 1, true
		case "c":
			return c, true
		case "c+1":
			return c + 1, true
		case "past-1":
			return p - 1, true
		case "past":
			return p, true
		case "past+1":
			return p + 1, true
		case "far":
			return p + 100, true
		case "max":
			return math.MaxUint32, true
		case "0":
			return 0, true
		}
		return 0, false
	}
	x.Product("issuer", []core.Dim{core.DL("step", "created", "kept", "destroyed"), core.DL("old", olds...), core.DL("new", news...), core.DL("keys", "same", "changed"), core.DL("credit", "absent", "-1", "0", "min", "max", "only of another account"),
		core.DV("commitment", []int{-1, 20, 22}), core.DL("capability", "-", "destroy account", "destroy other kinds")}, func(v []int, c *core.C) {
		if v[0] == 0 && v[1] > 0 || v[0] == 2 && (v[2] > 0 || v[3] > 0) || v[0] != 2 && v[6] > 0 || v[2] == 0 && v[3] > 0 {
			c.Skip()
			return
		}
		cm := []int64{-1, 20, 22}[v[5]]
		base := uint32(20)
		if cm >= 0 {
			base = uint32(cm)
		}
		cs := &Case{E: e, Slot: 24, Commit: cm, Caps: [][]byte{caps(ref.CapBurnMana), caps(ref.CapBurnMana, ref.CapDestroyAccount), caps(ref.CapBurnMana, ref.CapBurnNT, ref.CapDestroyAnchor, ref.CapDestroyFoundry, ref.CapDestroyNFT)}[v[6]]}
		switch v[4] {
		case 0:
		case 5:
			cs.BIC = map[iotago.AccountID]int64{gen.AccID(0xac): 5}
		default:
			cs.BIC = map[iotago.AccountID]int64{id: []int64{0, -1, 0, math.MinInt64, math.MaxInt64}[v[4]]}
		}
		if cm < 0 && len(cs.BIC) > 0 {
			c.Skip() // a credit input needs a commitment input (P21)
			return
		}
		var ob, nb any
		if s, ok := val(olds[v[1]], base); ok {
			ob = fBI(s)
		}
		if news[v[2]] == "same" {
			if s, ok := val(olds[v[1]], base); ok {
				nb = fBI(s)
				if v[3] == 1 {
					nb = fBI(s, 2, 3)
				}
			}
		} else if s, ok := val(news[v[2]], base); ok {
			nb = fBI(s)
			if v[3] == 1 {
				nb = fBI(s, 2, 3)
			}
		}
		cs.Add(basic(O, 20000, 0))
		switch v[0] {
		case 0:
			cs.Outs = append(cs.Outs, account(gen.AccID(0), O, 5000, 0, 0, nb))
		case 1:
			cs.Add(account(id, O, 5000, 0, 0, ob))
			cs.Outs = append(cs.Outs, account(id, O, 5000, 0, 0, nb))
		case 2:
			cs.Add(account(id, O, 5000, 0, 0, ob))
		}
		cs.Fill(O, 0)
		cs.Run(c)
	})
	// a locked account cannot get out by any route in one transaction with other unlocked accounts
	x.Product("locked account among others", []core.Dim{core.DL("credit1", "absent", "-1", "0"), core.DL("credit2", "absent", "-1", "0"), core.DL("issuer1", "none", "live", "expired"), core.DL("issuer2", "none", "live", "expired"), core.DL("step1", "kept", "destroyed", "removes issuer"), core.DL("step2", "kept", "destroyed", "removes issuer"), core.DL("order", "12", "21")}, func(v []int, c *core.C) {
		cs := &Case{E: e, Slot: 24, Commit: 22, Caps: allCaps(), BIC: map[iotago.AccountID]int64{}}
		for k := 0; k < 2; k++ {
			i := k
			if v[6] == 1 {
				i = 1 - k
			}
			id := gen.AccID(byte(0xa1 + i))
			if v[i] > 0 {
				cs.BIC[id] = int64(v[i] - 2)
			}
			b := []any{nil, fBI(60), fBI(21)}[v[2+i]]
			cs.Add(account(id, O, 5000, 0, 0, b))
			switch v[4+i] {
			case 0:
				nb := b
				if v[2+i] == 2 {
					nb = fBI(80)
				}
				cs.Outs = append(cs.Outs, account(id, O, 5000, 0, 0, nb))
			case 2:
				cs.Outs = append(cs.Outs, account(id, O, 5000, 0, 0))
			}
		}
		cs.Add(basic(O, 9000, 0))
		cs.Fill(O, 0)
		cs.Run(c)
	})
}

// p06staking: every pair of staking features around the epoch boundaries of the commitment window.
func p06staking(x *core.Ctx, e *gen.Env) {
	O := gen.Ed(0)
	id := gen.AccID(0xab)
	commits := core.Pick(x, []int64{-1, 20, 22, 23}, []int64{-1, 16, 20, 21, 22, 23, 24, 31})
	x.Product("staking", []core.Dim{core.DL("step", "created", "kept", "destroyed"), core.DV("commitment", commits), core.DL("old end", "none", "fut-1", "fut", "fut+1", "max"),
		core.DL("new", "none", "same", "given"), core.DL("start", "same", "past-1", "past", "past+1"), core.DL("end", "same", "past+u-1", "past+u", "past+u+1", "max"), core.DL("amount", "same", "+1", "-1"), core.DL("cost", "same", "+1"),
		core.DL("reward", "no", "yes"), core.DL("issuer", "live", "expired", "expired removed"), core.DL("credit", "0", "-1")}, func(v []int, c *core.C) {
		skip := v[0] == 0 && (v[2] > 0 || v[3] == 1 || v[4] == 0 || v[8] > 0) || v[0] == 0 && v[9] > 0 || v[0] == 2 && (v[3] > 0 || v[9] == 2) || v[3] != 2 && (v[4] > 0 || v[5] > 0 || v[6] > 0 || v[7] > 0) && v[0] != 0 || v[3] == 1 && v[2] == 0 ||
			v[0] == 0 && (v[3] != 2 || v[5] == 0)
		if x.Tier == "quick" && (v[6] == 2 || v[10] == 1 && (v[6] > 0 || v[7] > 0) || v[9] == 1 && v[10] == 1) {
			skip = true
		}
		if skip {
			c.Skip()
			return
		}
		cm := commits[v[1]]
		base := uint32(20)
		if cm >= 0 {
			base = uint32(cm)
		}
		fut, past := e.P.Epoch(base+e.P.MinCA), e.P.Epoch(base+e.P.MaxCA)
		cs := &Case{E: e, Slot: 36, Commit: cm, Caps: allCaps(), BIC: map[iotago.AccountID]int64{}, Rewards: map[int]uint64{}}
		if cm >= 0 {
			cs.BIC[id] = -int64(v[10])
		} else if v[8] > 0 || v[10] > 0 {
			c.Skip() // needs a commitment input
			return
		}
		ob := fBI(500)
		nb := ob
		if v[9] > 0 {
			ob = fBI(base - 1)
		}
		if v[0] == 2 {
			ob = []any{fBI(base - 1), fBI(500), nil}[v[9]]
		}
		type st struct {
			amt, cost  uint64
			start, end uint32
		}
		o := st{3000, 10, 1, []uint32{0, fut - 1, fut, fut + 1, math.MaxUint32}[v[2]]}
		n := o
		if v[4] > 0 {
			n.start = past + uint32(v[4]) - 2
		}
		if v[5] == 4 {
			n.end = math.MaxUint32
		} else if v[5] > 0 {
			n.end = past + e.P.Unbonding + uint32(v[5]) - 2
		}
		if v[2] == 0 && v[3] == 2 && v[4] == 0 {
			n.start = past
		}
		if v[2] == 0 && v[3] == 2 && v[5] == 0 {
			n.end = past + e.P.Unbonding
		}
		n.amt += []uint64{0, 1, math.MaxUint64}[v[6]]
		n.cost += uint64(v[7])
		var os, ns any
		if v[2] > 0 {
			os = fStake(o.amt, o.cost, o.start, o.end)
		}
		switch v[3] {
		case 1:
			ns = os
		case 2:
			ns = fStake(n.amt, n.cost, n.start, n.end)
		}
		if v[9] == 2 && v[0] == 1 {
			nb = nil
			if ns != nil {
				c.Skip() // staking without issuer is malformed (P20)
				return
			}
		}
		cs.Add(basic(O, 20000, 0))
		if v[0] > 0 {
			cs.Add(account(id, O, 9000, 0, 0, ob, os))
			if v[8] == 1 {
				cs.Rewards[1] = 3
			}
		}
		switch v[0] {
		case 0:
			cs.Outs = append(cs.Outs, account(gen.AccID(0), O, 9000, 0, 0, nb, ns))
		case 1:
			cs.Outs = append(cs.Outs, account(id, O, 9000, 0, 0, nb, ns))
		}
		cs.Fill(O, 0)
		cs.Run(c)
	})
}

// p06identity: counter, immutable features, identity, ownership and the freely changeable parts.
func p06identity(x *core.Ctx, e *gen.Env) {
	id := gen.AccID(0xab)
	O := gen.Ed(0)
	is := func(k int) any {
		return []any{nil, imm{fIssuer(gen.Ed(1))}, imm{fIssuer(gen.Ed(2))}, imm{fIssuer(gen.Ed(0))}}[k]
	}
	md := func(k int) any { return []any{nil, imm{fMeta("a")}, imm{fMeta("b")}}[k] }
	x.Product("identity", []core.Dim{core.DL("issuer", "none", "A", "B", "O"), core.DL("issuer'", "none", "A", "B", "O"), core.DL("meta", "none", "a", "b"), core.DL("meta'", "none", "a", "b"),
		core.DV("counter", []uint32{0, 1, 2}), core.DV("counter'", []uint32{0, 1, 2, 3}), core.DL("foundries created", "none", "one", "two"), core.DL("signed by A too", "no", "yes"),
		core.DL("mutable", "same", "metadata+sender changed", "owner changed", "amount changed")}, func(v []int, c *core.C) {
		if x.Tier == "quick" && v[8] > 0 && (v[4] > 0 || v[5] > 1) {
			c.Skip()
			return
		}
		cs := &Case{E: e, Slot: 24, Commit: -1}
		if v[7] == 1 {
			cs.Add(basic(gen.Ed(1), 1000, 0))
		}
		cin := []uint32{0, 1, 2}[v[4]]
		cs.Add(account(id, O, 9000, 0, cin, is(v[0]), md(v[2]), fMeta("old")))
		n := account(id, O, 9000, 0, uint32(v[5]), is(v[1]), md(v[3]), fMeta("old"))
		switch v[8] {
		case 1:
			n = account(id, O, 9000, 0, uint32(v[5]), is(v[1]), md(v[3]), fMeta("new"), fSender(O))
		case 2:
			n = account(id, gen.Ed(5), 9000, 0, uint32(v[5]), is(v[1]), md(v[3]))
		case 3:
			n.Amount = 8000
		}
		cs.Outs = append(cs.Outs, n)
		cs.Add(basic(O, 20000, 0))
		for i := 0; i < v[6]; i++ {
			cs.Outs = append(cs.Outs, foundry(id, 3000, cin+1+uint32(i), 0, 0, 9))
		}
		cs.Fill(O, 0)
		cs.Run(c)
	})
	// creation: fresh and claimed identifiers, issuers that did or did not sign, counters
	x.Product("creation", []core.Dim{core.DL("id", "zero", "unknown", "of another input account", "derived from the input"), core.DL("issuer", "none", "A", "B", "O"), core.DL("meta", "none", "a"), core.DV("counter", []uint32{0, 1}), core.DL("signed by A too", "no", "yes"), core.DL("issuer feature", "none", "past", "past-1"), core.DL("sender", "none", "O", "A", "B"), core.DL("other account", "absent", "kept", "destroyed")}, func(v []int, c *core.C) {
		cs := &Case{E: e, Slot: 24, Commit: 22, Caps: caps(ref.CapDestroyAccount)}
		cs.Add(basic(O, 20000, 0))
		if v[4] == 1 {
			cs.Add(basic(gen.Ed(1), 1000, 0))
		}
		if v[7] > 0 {
			cs.Add(account(gen.AccID(0xcd), O, 9000, 0, 0))
			if v[7] == 1 {
				cs.Outs = append(cs.Outs, account(gen.AccID(0xcd), O, 9000, 0, 0))
			}
		}
		nid := []iotago.AccountID{{}, gen.AccID(0x77), gen.AccID(0xcd), iotago.AccountID(digest32(cs.IDAt(0, 24)))}[v[0]]
		cs.Outs = append(cs.Outs, account(nid, O, 5000, 0, uint32(v[3]), is(v[1]), md(v[2]), []any{nil, fBI(25), fBI(24)}[v[5]], []any{nil, fSender(O), fSender(gen.Ed(1)), fSender(gen.Ed(2))}[v[6]]))
		cs.Fill(O, 0)
		cs.Run(c)
	})
}

// p06histories explores the life of one account over several transactions on the real machine: the reference
// model decides every step, and the next states are the outputs the machine accepted.
func p06histories(x *core.Ctx, e *gen.Env) {
	O := gen.Ed(0)
	type S struct {
		Out  *iotago.AccountOutput // nil: destroyed
		ID   iotago.AccountID
		Slot uint32 // slot the output was created in
		Now  uint32
		BIC  int64
		N    int
	}
	start := account(gen.AccID(0xab), O, 9000, 0, 0)
	evs := []string{"wait 2", "wait 8", "credit -1", "credit 0", "add issuer", "extend issuer", "remove issuer", "stake", "extend stake", "unstake", "restake", "unstake no reward", "destroy", "keep"}
	core.BFS(x, core.Search[S]{Name: "account life", Init: []S{{Out: start, ID: gen.AccID(0xab), Slot: 10, Now: 12}}, InitName: []string{"plain account"}, Depth: core.Pick(x, 8, 12),
		Events: func(s S) (int, func(int) string) { return len(evs), func(i int) string { return evs[i] } },
		Key: func(s S) string {
			if s.Out == nil {
				return "gone"
			}
			return string(ref.Enc(s.Out)) + lab([]uint64{uint64(s.Now)})[0] + lab([]uint64{uint64(s.BIC + 10)})[0]
		},
		Apply: func(s S, ev int, c *core.C) (S, bool) {
			if s.Out == nil {
				return s, false
			}
			n := s
			n.N++
			switch ev {
			case 0:
				n.Now += 2
				return n, true
			case 1:
				n.Now += 8
				return n, true
			case 2:
				n.BIC = -1
				return n, true
			case 3:
				n.BIC = 0
				return n, true
			}
			cm := s.Now - 2
			past, fut := e.P.Epoch(cm+e.P.MaxCA), e.P.Epoch(cm+e.P.MinCA)
			_ = fut
			cs := &Case{E: e, Slot: s.Now, Commit: int64(cm), Caps: allCaps(), BIC: map[iotago.AccountID]int64{s.ID: s.BIC}, Rewards: map[int]uint64{}}
			cs.AddAt(s.Out, s.Slot)
			cs.Add(basic(O, 5000, 0))
			bi, st := any(nil), any(nil)
			for _, f := range s.Out.Features {
				switch f.(type) {
				case *iotago.BlockIssuerFeature:
					bi = f
				case *iotago.StakingFeature:
					st = f
				}
			}
			obi, ost := bi, st
			switch ev {
			case 4:
				if obi != nil {
					return s, false
				}
				bi = fBI(cm + e.P.MaxCA + 2)
			case 5:
				if obi == nil {
					return s, false
				}
				bi = fBI(cm + e.P.MaxCA + 4)
			case 6:
				if obi == nil || ost != nil {
					return s, false
				}
				bi = nil
			case 7, 10:
				if obi == nil || (ost != nil) != (ev == 10) {
					return s, false
				}
				st = fStake(3000, 1, past, past+e.P.Unbonding)
				if ev == 10 {
					cs.Rewards[0] = 4
				}
			case 8:
				if ost == nil {
					return s, false
				}
				q := *ost.(*iotago.StakingFeature)
				q.EndEpoch = iotago.EpochIndex(past + e.P.Unbonding)
				st = &q
			case 9, 11:
				if ost == nil {
					return s, false
				}
				st = nil
				if ev == 9 {
					cs.Rewards[0] = 4
				}
			case 12:
				if ost != nil {
					cs.Rewards[0] = 4
				}
			}
			if ev != 12 {
				cs.Outs = append(cs.Outs, account(s.ID, O, 9000, 0, 0, bi, st))
			}
			cs.Fill(O, 0)
			vd := cs.Run(c)
			if vd.Stage != "" {
				return s, false
			}
			if ev == 12 {
				n.Out = nil
			} else {
				n.Out = cs.Outs[0].(*iotago.AccountOutput)
				n.Slot = s.Now
			}
			return n, true
		}})
}
