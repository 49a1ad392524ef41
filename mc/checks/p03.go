package checks

import (
	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P03"] = p03 }

func p03(x *core.Ctx) {
	x.Assume("input amounts of a valid ledger sum to at most the token supply")
	big := ref.Default()
	big.Supply = 1<<64 - 1
	eb := gen.NewEnv(big)
	// balance with amounts up to the 64-bit edge
	amts := []uint64{1000, 1001, 1 << 62, 1 << 63, 1<<63 - 1, 1<<64 - 2001, 1<<64 - 1002, 1<<64 - 1001, 1<<64 - 1000, 1<<64 - 1}
	outAmts := []uint64{0, 999, 1000, 1001, 2000, 1 << 62, 1 << 63, 1<<63 - 1, 1<<63 + 1000, 1<<64 - 2001, 1<<64 - 1002, 1<<64 - 1001, 1<<64 - 1000, 1<<64 - 1}
	x.Product("balance", []core.Dim{core.DV("in1", amts), core.DL("in2", append([]string{"none"}, lab(amts)...)...), core.DV("out1", outAmts), core.DV("out2", outAmts), core.DL("rest", "none", "matching remainder", "modular remainder")},
		func(v []int, c *core.C) {
			cs := &Case{E: eb, Slot: 20, Commit: 19}
			tot := amts[v[0]]
			cs.Ins = []In{{gen.OutID(1, 20, 0), basic(gen.Ed(0), amts[v[0]], 0)}}
			if v[1] > 0 {
				a := amts[v[1]-1]
				if tot+a < tot {
					c.Skip()
					return
				}
				tot += a
				cs.Ins = append(cs.Ins, In{gen.OutID(1, 20, 1), basic(gen.Ed(0), a, 0)})
			}
			var so uint64
			wrap := false
			for _, k := range v[2:4] {
				if a := outAmts[k]; a != 0 {
					if so+a < so {
						wrap = true
					}
					so += a
					cs.Outs = append(cs.Outs, basic(gen.Ed(1), a, 0))
				}
			}
			switch v[4] {
			case 1:
				if wrap || so >= tot || so == 0 {
					c.Skip()
					return
				}
				cs.Outs = append(cs.Outs, basic(gen.Ed(0), tot-so, 0))
			case 2:
				if !wrap && so < tot || tot == so {
					c.Skip()
					return
				}
				cs.Outs = append(cs.Outs, basic(gen.Ed(0), tot-so, 0)) // sums match modulo 2^64 only
			}
			if len(cs.Outs) == 0 {
				c.Skip()
				return
			}
			cs.Run(c)
		})
	// all output kinds contribute to the balance
	e := gen.NewEnv(ref.Default())
	x.Product("kinds", []core.Dim{core.DL("kind", "account", "anchor", "nft", "foundry", "delegation"), core.DL("side", "created", "kept", "destroyed"), core.DL("delta", "-1", "0", "+1", "+amount", "-amount")}, func(v []int, c *core.C) {
		mk := func(fresh bool) iotago.Output {
			b := byte(0xaa)
			if fresh {
				b = 0
			}
			switch v[0] {
			case 0:
				return account(gen.AccID(b), gen.Ed(0), 5000, 0, 0)
			case 1:
				return anchor(gen.AncID(b), gen.Ed(0), gen.Ed(0), 5000, 0, 0)
			case 2:
				return nft(gen.NFTID(b), gen.Ed(0), 5000, 0)
			case 3:
				return foundry(gen.AccID(0xbb), 5000, 1, 0, 0, 100)
			default:
				start := uint32(4)
				return delegation(gen.DelID(0), gen.Ed(0), 5000, 5000, gen.AccAddr(0xcc), start, 0)
			}
		}
		cs := &Case{E: e, Slot: 20, Commit: 19, Caps: allCaps(), Rewards: map[int]uint64{}}
		in, out := uint64(10000), uint64(0)
		cs.Ins = []In{{gen.OutID(1, 20, 0), basic(gen.Ed(0), 10000, 0)}}
		accIn, accOut := account(gen.AccID(0xbb), gen.Ed(0), 3000, 0, 0), account(gen.AccID(0xbb), gen.Ed(0), 3000, 0, 0)
		if v[0] == 3 {
			if v[1] == 0 {
				accOut.FoundryCounter = 1
			} else {
				accIn.FoundryCounter, accOut.FoundryCounter = 1, 1
			}
			cs.Ins = append(cs.Ins, In{gen.OutID(1, 20, 1), accIn})
			cs.Outs = append(cs.Outs, accOut)
		}
		if v[1] > 0 {
			cs.Ins = append(cs.Ins, In{gen.OutID(1, 20, 2), mk(false)})
			in += 5000
			if v[0] == 4 && v[1] == 2 {
				cs.Rewards[len(cs.Ins)-1] = 7
			}
		}
		if v[1] < 2 {
			o := mk(v[1] == 0)
			if v[0] == 4 && v[1] == 1 {
				d := o.(*iotago.DelegationOutput)
				d.DelegationID = iotago.DelegationID(digest32(gen.OutID(1, 20, 2)))
				d.EndEpoch = 3
			}
			cs.Outs = append(cs.Outs, o)
			out += 5000
		}
		rest := in - out
		switch v[2] {
		case 0:
			rest--
		case 2:
			rest++
		case 3:
			rest += 5000
		case 4:
			rest -= 5000
		}
		cs.Outs = append(cs.Outs, basic(gen.Ed(0), rest, 0))
		if r := cs.Rewards[len(cs.Ins)-1]; r > 0 {
			cs.Outs[len(cs.Outs)-1].(*iotago.BasicOutput).Mana = iotago.Mana(r)
		}
		vd := cs.Run(c)
		if v[2] == 1 && vd.Stage != "" && !c.Failed() {
			c.Fail("selfcheck", "balanced case unexpectedly rejected: %s", vd)
		}
	})
	p03returns(x, e)
}

func lab(vs []uint64) (out []string) {
	for _, d := range core.DV("", vs).Labels {
		out = append(out, d)
	}
	return
}

func p03returns(x *core.Ctx, e *gen.Env) {
	A, B, O := gen.Ed(1), gen.Ed(2), gen.Ed(0)
	rA := gen.Restricted(A, 0xff)
	// committed slot 20: min age 1, max age 3
	inK := []string{"plain", "SDR A 300", "SDR A 301", "SDR B 300", "SDR self", "SDR rA 300", "SDR A exp A live", "SDR A exp A over", "SDR A exp B over", "SDR B exp A over", "NFT SDR A 300", "SDR chain 300", "SDR A, owner A"}
	mkIn := func(k int, i int) iotago.Output {
		switch k {
		case 0:
			return basic(O, 2000, 0)
		case 1:
			return basic(O, 2000, 0, ucSDR(A, 300))
		case 2:
			return basic(O, 2000, 0, ucSDR(A, 301))
		case 3:
			return basic(O, 2000, 0, ucSDR(B, 300))
		case 4:
			return basic(O, 2000, 0, ucSDR(O, 300))
		case 5:
			return basic(O, 2000, 0, ucSDR(rA, 300))
		case 6:
			return basic(O, 2000, 0, ucSDR(A, 300), ucExp(A, 100))
		case 7:
			return basic(O, 2000, 0, ucSDR(A, 300), ucExp(A, 21))
		case 8:
			return basic(O, 2000, 0, ucSDR(A, 300), ucExp(B, 21))
		case 9:
			return basic(O, 2000, 0, ucSDR(B, 300), ucExp(A, 21))
		case 10:
			return nft(gen.NFTID(byte(0x50+i)), O, 2000, 0, ucSDR(A, 300))
		case 11:
			return basic(O, 2000, 0, ucSDR(gen.AccAddr(0xee), 300))
		default:
			return basic(A, 2000, 0, ucSDR(A, 300))
		}
	}
	type ret struct {
		name string
		mk   func() iotago.Output
	}
	rets := []ret{{"none", nil}}
	for _, a := range []struct {
		n string
		a iotago.Address
	}{{"A", A}, {"B", B}, {"rA", rA}, {"chain", gen.AccAddr(0xee)}} {
		a := a
		for _, amt := range []uint64{299, 300, 301, 600, 601, 602} {
			amt := amt
			if (a.n == "rA" || a.n == "chain") && amt > 301 && amt != 600 {
				continue
			}
			rets = append(rets, ret{a.n + " " + lab([]uint64{amt})[0], func() iotago.Output { return basic(a.a, amt, 0) }})
		}
	}
	rets = append(rets,
		ret{"A 300 tagged", func() iotago.Output { return basic(A, 300, 0, fTag("t")) }},
		ret{"A 300 timelocked", func() iotago.Output { return basic(A, 300, 0, ucTL(25)) }},
		ret{"A 300 expiring", func() iotago.Output { return basic(A, 300, 0, ucExp(O, 25)) }},
		ret{"A 300 with SDR", func() iotago.Output { return basic(A, 300, 0, ucSDR(O, 160)) }},
		ret{"A 300 metadata", func() iotago.Output { return basic(A, 300, 0, fMeta("m")) }},
		ret{"A 300 sender", func() iotago.Output { return basic(A, 300, 0, fSender(O)) }},
		ret{"A 300 as NFT", func() iotago.Output { return nft(gen.NFTID(0), A, 300, 0) }},
		ret{"A 300 as account", func() iotago.Output { return account(gen.AccID(0), A, 300, 0, 0) }},
		ret{"A 300 with mana", func() iotago.Output { return basic(A, 300, 5, nil) }},
		ret{"implicit A 300", func() iotago.Output { return basic(gen.Implicit(1), 300, 5) }},
	)
	names := make([]string, len(rets))
	for i, r := range rets {
		names[i] = r.name
	}
	ths := []string{"none"}
	if x.Thorough() {
		ths = names[:13]
	}
	x.Product("returns", []core.Dim{core.DL("in1", inK...), core.DL("in2", inK...), core.DL("ret1", names...), core.DL("ret2", names...), core.DL("ret3", ths...), core.DL("account", "absent", "consumed")}, func(v []int, c *core.C) {
		if v[2] > v[3] || v[3] > v[4] && len(ths) > 1 {
			c.Skip() // outputs commute
			return
		}
		chain := v[5] == 1
		if chain && v[0] != 11 && v[1] != 11 {
			c.Skip()
			return
		}
		cs := &Case{E: e, Slot: 24, Commit: 20, Caps: allCaps()}
		in := uint64(0)
		for i, k := range v[:2] {
			o := mkIn(k, i)
			in += ref.Amount(o)
			cs.Ins = append(cs.Ins, In{gen.OutID(1, 24, uint16(i)), o})
		}
		if chain {
			a := account(gen.AccID(0xee), O, 2000, 5, 0)
			cs.Ins = append([]In{{gen.OutID(2, 24, 0), a}}, cs.Ins...)
			in += 2000
		} else {
			cs.Ins = append(cs.Ins, In{gen.OutID(1, 24, 9), basic(O, 2000, 5)})
			in += 2000
		}
		out := uint64(0)
		for _, k := range v[2:5] {
			if rets[k].mk == nil {
				continue
			}
			o := rets[k].mk()
			out += ref.Amount(o)
			cs.Outs = append(cs.Outs, o)
		}
		cs.Outs = append(cs.Outs, basic(O, in-out, 0, fTag("rest")))
		cs.Run(c)
	})
	// three deposits owed to one address must be returned in full, whatever the split
	x.Product("sums", []core.Dim{core.D("n", 4), core.D("split", 4), core.DL("delta", "-1", "0", "+1"), core.DL("interleaved", "no", "yes")}, func(v []int, c *core.C) {
		cs := &Case{E: e, Slot: 24, Commit: 20, Caps: allCaps()}
		n := v[0] + 1
		owed := uint64(0)
		in := uint64(0)
		for i := 0; i < n; i++ {
			cs.Ins = append(cs.Ins, In{gen.OutID(1, 24, uint16(2*i)), basic(O, 2000, 0, ucSDR(A, uint64(300+i)))})
			owed += uint64(300 + i)
			in += 2000
			if v[3] == 1 {
				cs.Ins = append(cs.Ins, In{gen.OutID(1, 24, uint16(2*i+1)), basic(O, 2000, 0, ucSDR(B, 300))})
				in += 2000
			}
		}
		outs := v[1] + 1
		left := owed + uint64(v[2]) - 1
		out := uint64(0)
		for i := 0; i < outs; i++ {
			a := left / uint64(outs-i)
			left -= a
			out += a
			cs.Outs = append(cs.Outs, basic(A, a, 0))
		}
		if v[3] == 1 {
			out += uint64(300 * n)
			cs.Outs = append(cs.Outs, basic(B, uint64(300*n), 0))
		}
		cs.Outs = append(cs.Outs, basic(O, in-out, 0))
		cs.Run(c)
	})
}
