package checks

import (
	"math"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P09"] = p09 }

func p09(x *core.Ctx) {
	e := gen.NewEnv(ref.Default())
	O := gen.Ed(0)
	val := gen.AccAddr(0xcc)
	// commitments over a whole epoch and its neighbours: every phase of the registration slot
	commits := []int{-1}
	for s := 14; s <= core.Pick(x, 26, 34); s++ {
		commits = append(commits, s)
	}
	x.Product("creation", []core.Dim{core.DV("commitment", commits), core.DL("start", "0", "epoch(past)-1", "epoch(past)", "+1", "+2", "+3", "max"), core.DL("end", "0", "1", "start", "max"), core.DL("delegated", "amount", "amount-1", "amount+1", "0"),
		core.DL("id", "zero", "unknown", "derived from input"), core.DL("reward", "none", "claimed by the plain input")}, func(v []int, c *core.C) {
		cm := commits[v[0]]
		base := uint32(20)
		if cm >= 0 {
			base = uint32(cm)
		}
		past := e.P.Epoch(base + e.P.MaxCA)
		cs := &Case{E: e, Slot: base + 2, Commit: int64(cm), Caps: allCaps(), Rewards: map[int]uint64{}}
		start := []uint32{0, past - 1, past, past + 1, past + 2, past + 3, math.MaxUint32}[v[1]]
		end := []uint32{0, 1, start, math.MaxUint32}[v[2]]
		id := []iotago.DelegationID{{}, gen.DelID(7), iotago.DelegationID(digest32(cs.IDAt(0, cs.Slot)))}[v[4]]
		cs.Add(basic(O, 9000, 0))
		if v[5] == 1 {
			if cm < 0 {
				c.Skip()
				return
			}
			cs.Rewards[0] = 4 // resolves to nothing: a plain output has no chain identifier
		}
		cs.Outs = append(cs.Outs, delegation(id, O, 2000, []uint64{2000, 1999, 2001, 0}[v[3]], val, start, end))
		cs.Fill(O, 0)
		cs.Run(c)
	})
	x.Product("transition", []core.Dim{core.DV("commitment", commits), core.DL("stored as", "fresh", "delayed claiming"), core.DL("end'", "0", "epoch(fut)-1", "epoch(fut)", "+1", "+2", "max"), core.DL("terms", "same", "delegated amount", "validator", "start", "amount", "owner"), core.DL("id'", "right", "zero", "unknown"), core.DL("reward", "no", "yes"), core.DL("end", "0", "set")},
		func(v []int, c *core.C) {
			cm := commits[v[0]]
			base := uint32(20)
			if cm >= 0 {
				base = uint32(cm)
			}
			if v[5] == 1 && cm < 0 {
				c.Skip()
				return
			}
			fut := e.P.Epoch(base + e.P.MinCA)
			cs := &Case{E: e, Slot: base + 2, Commit: int64(cm), Caps: allCaps(), Rewards: map[int]uint64{}}
			id := gen.DelID(0xab)
			in := delegation(id, O, 2000, 2000, val, 1, 0)
			if v[6] == 1 {
				in.EndEpoch = 2
			}
			if v[1] == 0 {
				in.DelegationID = iotago.DelegationID{}
				id = iotago.DelegationID(digest32(cs.IDAt(0, cs.Slot)))
			}
			cs.Add(in)
			cs.Add(basic(O, 9000, 0))
			if v[5] == 1 {
				cs.Rewards[0] = 4
			}
			n := delegation([]iotago.DelegationID{id, {}, gen.DelID(7)}[v[4]], O, 2000, 2000, val, 1, []uint32{0, fut - 1, fut, fut + 1, fut + 2, math.MaxUint32}[v[2]])
			switch v[3] {
			case 1:
				n.DelegatedAmount--
			case 2:
				n.ValidatorAddress = gen.AccAddr(0xcd)
			case 3:
				n.StartEpoch++
			case 4:
				n.Amount = 1500
			case 5:
				n.UnlockConditions[0].(*iotago.AddressUnlockCondition).Address = gen.Ed(3)
			}
			cs.Outs = append(cs.Outs, n)
			cs.Fill(O, 0)
			cs.Run(c)
		})
	// rewards: every assignment of reward claims to a set of claimers, and where the mana goes
	kinds := []string{"delegation fresh", "delegation delayed", "account unstaking", "account active staking", "account restaking", "account without staking", "plain", "nft"}
	x.Product("reward claims", []core.Dim{core.DL("claimer1", kinds...), core.DL("claimer2", kinds...), core.DL("claims", "none", "1", "2", "both"), core.DV("reward1", []uint64{0, 1, 1000}), core.DV("reward2", []uint64{0, 7}), core.DL("mana out", "exact rewards", "+1", "double", "0"), core.DL("step", "end", "keep"), core.DL("burn", "no", "yes")}, func(v []int, c *core.C) {
		const cm = 20
		past := e.P.Epoch(cm + e.P.MaxCA)
		cs := &Case{E: e, Slot: 22, Commit: cm, Caps: caps(ref.CapDestroyAccount, ref.CapDestroyNFT), Rewards: map[int]uint64{}, BIC: map[iotago.AccountID]int64{gen.AccID(0xa0): 0, gen.AccID(0xa1): 0}}
		if v[7] == 1 {
			cs.Caps = allCaps()
		}
		total := uint64(0)
		for i := 0; i < 2; i++ {
			acc := gen.AccID(byte(0xa0 + i))
			k := v[i]
			oid := cs.IDAt(len(cs.Ins), cs.Slot)
			if v[2]>>i&1 == 1 {
				r := [][]uint64{{0, 1, 1000}, {0, 7}}[i][v[3+i]]
				cs.Rewards[len(cs.Ins)] = r
				if k < 6 || k == 7 {
					total += r
				}
			} else if v[3+i] > 0 {
				c.Skip()
				return
			}
			switch k {
			case 0, 1:
				in := delegation(gen.DelID(byte(0xd0+i)), O, 2000, 2000, val, 1, 2)
				if k == 0 {
					in = delegation(gen.DelID(0), O, 2000, 2000, val, 1, 0)
				}
				cs.Add(in)
				if v[6] == 1 {
					id := in.DelegationID
					if k == 0 {
						id = iotago.DelegationID(digest32(oid))
					}
					_, before := uint32(0), cm+1 <= 23-int(e.P.Nearing)
					end := e.P.Epoch(cm+1) + 1
					if before {
						end--
					}
					cs.Outs = append(cs.Outs, delegation(id, O, 2000, 2000, val, 1, end))
				}
			case 2, 3, 4:
				end := uint32(1)
				if k == 3 {
					end = 10
				}
				cs.Add(account(acc, O, 5000, 0, 0, fBI(500), fStake(1000, 0, 1, end)))
				switch k {
				case 2:
					cs.Outs = append(cs.Outs, account(acc, O, 5000, 0, 0, fBI(500)))
				case 3:
					cs.Outs = append(cs.Outs, account(acc, O, 5000, 0, 0, fBI(500), fStake(1000, 0, 1, end)))
				case 4:
					cs.Outs = append(cs.Outs, account(acc, O, 5000, 0, 0, fBI(500), fStake(1000, 0, past, past+e.P.Unbonding)))
				}
				if v[6] == 1 && k == 2 { // an expired staking feature may also stay as it is
					cs.Outs[len(cs.Outs)-1] = account(acc, O, 5000, 0, 0, fBI(500), fStake(1000, 0, 1, end))
				}
			case 5:
				cs.Add(account(acc, O, 5000, 0, 0, fBI(500)))
				cs.Outs = append(cs.Outs, account(acc, O, 5000, 0, 0, fBI(500)))
			case 6:
				cs.Add(basic(O, 2000, 0))
			case 7:
				cs.Add(nft(gen.NFTID(byte(0x90+i)), O, 2000, 0))
				if v[6] == 1 {
					cs.Outs = append(cs.Outs, nft(gen.NFTID(byte(0x90+i)), O, 2000, 0))
				}
			}
		}
		m := []uint64{total, total + 1, 2 * total, 0}[v[5]]
		cs.Add(basic(O, 9000, 0))
		cs.Fill(O, m)
		cs.Run(c)
	})
	// the life of a delegation
	type S struct {
		Out  *iotago.DelegationOutput
		ID   iotago.OutputID
		Now  uint32
		Done int
	}
	evs := []string{"wait 1", "wait 3", "delay claim (end=epoch)", "delay claim (end=epoch+1)", "claim and destroy", "destroy without claim", "claim on transition", "keep undelayed"}
	core.BFS(x, core.Search[S]{Name: "delegation life", Init: []S{{Now: 14}}, Depth: core.Pick(x, 9, 13),
		Events: func(S) (int, func(int) string) {
			return len(evs) + 3, func(i int) string {
				if i < len(evs) {
					return evs[i]
				}
				return []string{"create start+0", "create start+1", "create start+2"}[i-len(evs)]
			}
		},
		Key: func(s S) string {
			k := lab([]uint64{uint64(s.Now), uint64(s.Done)})
			if s.Out == nil {
				return "none" + k[0] + k[1]
			}
			return string(ref.Enc(s.Out)) + k[0] + k[1]
		},
		Apply: func(s S, ev int, c *core.C) (S, bool) {
			n := s
			if ev < 2 {
				n.Now += []uint32{1, 3}[ev]
				return n, n.Now < 34
			}
			cm := s.Now - 2
			cs := &Case{E: e, Slot: s.Now, Commit: int64(cm), Caps: caps(ref.CapBurnMana), Rewards: map[int]uint64{}}
			if ev >= len(evs) {
				if s.Out != nil || s.Done > 0 {
					return s, false
				}
				cs.Add(basic(O, 9000, 0))
				d := delegation(gen.DelID(0), O, 2000, 2000, val, e.P.Epoch(cm+e.P.MaxCA)+uint32(ev-len(evs)), 0)
				cs.Outs = append(cs.Outs, d)
				cs.Fill(O, 0)
				if vd := cs.Run(c); vd.Stage != "" {
					return s, false
				}
				n.Out, n.ID = d, gen.OutID(0x55, s.Now, 0)
				return n, true
			}
			if s.Out == nil {
				return s, false
			}
			cs.Ins = append(cs.Ins, In{s.ID, s.Out})
			cs.Add(basic(O, 9000, 0))
			nx := *s.Out
			if nx.DelegationID == (iotago.DelegationID{}) {
				nx.DelegationID = iotago.DelegationID(digest32(s.ID))
			}
			fe := iotago.EpochIndex(e.P.Epoch(cm + e.P.MinCA))
			switch ev {
			case 2, 3:
				nx.EndEpoch = fe + iotago.EpochIndex(ev-2)
			case 4, 6:
				cs.Rewards[0] = 5
				if ev == 6 {
					nx.EndEpoch = fe
				}
			case 7:
			}
			if ev != 4 && ev != 5 {
				cs.Outs = append(cs.Outs, &nx)
			}
			cs.Fill(O, 0)
			if vd := cs.Run(c); vd.Stage != "" {
				return s, false
			}
			if ev == 4 || ev == 5 {
				n.Out = nil
				n.Done++
			} else {
				n.Out, n.ID = &nx, gen.OutID(0x56, s.Now, 0)
			}
			return n, true
		}})
}
