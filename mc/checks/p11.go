package checks

import (
	"math"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P11"] = p11; All["P12"] = p12 }

func p11(x *core.Ctx) {
	x.Assume("committed slot plus committable age stays below 2^32")
	ages := [][2]uint32{{1, 3}, {2, 3}, {1, 2}, {3, 10}, {5, 9}}
	var envs []*gen.Env
	for _, a := range ages {
		p := ref.Default()
		p.MinCA, p.MaxCA, p.Nearing, p.EpochExp = a[0], a[1], a[1]+1, 5
		envs = append(envs, gen.NewEnv(p))
	}
	slots := []uint32{0}
	for s := uint32(1); s <= core.Pick(x, uint32(18), uint32(26)); s++ {
		slots = append(slots, s)
	}
	slots = append(slots, math.MaxInt32, math.MaxUint32)
	commits := []int{-1}
	for s := 0; s <= core.Pick(x, 10, 14); s++ {
		commits = append(commits, s)
	}
	O, R := gen.Ed(0), gen.Ed(1)
	x.Product("windows", []core.Dim{core.DV("ages", ages), core.DV("commitment", commits), core.DV("timelock", slots), core.DV("expiration", slots), core.DL("signer", "owner", "return party"), core.DL("kind", "basic", "nft")}, func(v []int, c *core.C) {
		tl, ex := slots[v[2]], slots[v[3]]
		if v[5] == 1 && (tl > 0 && ex > 0) || v[4] == 1 && ex == 0 {
			c.Skip()
			return
		}
		if x.Tier == "quick" && tl > 0 && ex > 0 && (v[0] == 1 || v[0] == 2 || (tl%3 != 1)) {
			c.Skip()
			return
		}
		e := envs[v[0]]
		cs := &Case{E: e, Slot: 30, Commit: int64(commits[v[1]]), SignAs: map[int]int{0: v[4]}, Caps: allCaps()}
		var parts []any
		if tl > 0 {
			parts = append(parts, ucTL(tl))
		}
		if ex > 0 {
			parts = append(parts, ucExp(R, ex))
		}
		if v[5] == 0 {
			cs.Add(basic(O, 3000, 0, parts...))
		} else {
			cs.Add(nft(gen.NFTID(9), O, 3000, 0, parts...))
		}
		cs.Fill(gen.Ed(2), 0)
		cs.Run(c)
	})
	// the end of the slot range, where the bounds lie beyond the last slot
	var last []uint32
	for k := uint32(0); k <= 2*5+2; k++ {
		last = append(last, math.MaxUint32-k)
	}
	x.Product("end of the slot range", []core.Dim{core.DV("ages", ages), core.DV("commitment", last), core.DL("condition", "timelock", "expiration", "account manalock"), core.DV("slot", append([]uint32{1, 5}, last...)), core.DL("signer", "owner", "return party")}, func(v []int, c *core.C) {
		commit, slot := last[v[1]], append([]uint32{1, 5}, last...)[v[3]]
		if v[4] == 1 && v[2] != 1 {
			c.Skip()
			return
		}
		cs := &Case{E: envs[v[0]], Slot: math.MaxUint32, Commit: int64(commit), SignAs: map[int]int{0: v[4]}, Caps: allCaps()}
		switch v[2] {
		case 0:
			cs.AddAt(basic(O, 3000, 0, ucTL(slot)), math.MaxUint32-20)
		case 1:
			cs.AddAt(basic(O, 3000, 0, ucExp(R, slot)), math.MaxUint32-20)
		default:
			id := gen.AccID(3)
			cs.BIC = map[iotago.AccountID]int64{id: 5}
			cs.AddAt(account(id, O, 9000, 500, 0, fBI(math.MaxUint32, 1)), math.MaxUint32-20)
			cs.Outs = append(cs.Outs, account(id, O, 5000, 100, 0, fBI(math.MaxUint32, 1)), basic(gen.AccAddr(3), 3000, 400, ucTL(slot)))
		}
		cs.Fill(gen.Ed(2), 0)
		cs.Run(c)
	})
	// owners and return parties of every address kind, two differently locked inputs, an output that unlocks others
	e := gen.NewEnv(ref.Default())
	addrs := []iotago.Address{O, gen.AccAddr(0xab), gen.NFTAddr(0xac), gen.Multi(1, O, R), gen.Restricted(O, 0xff)}
	an := []string{"key", "account", "nft", "multi", "restricted"}
	x.Product("kinds", []core.Dim{core.DL("owner", an...), core.DL("return", an...), core.DV("expiration", []uint32{20, 21, 22, 23, 24, 25}), core.DL("other input", "none", "timelocked 22", "timelocked 21", "expired to owner", "not yet expired"), core.DL("storage return", "no", "to return party", "to owner"), core.DL("present chains", "both", "none")}, func(v []int, c *core.C) {
		cs := &Case{E: e, Slot: 30, Commit: 20, Caps: allCaps()}
		if v[5] == 0 {
			cs.Add(account(gen.AccID(0xab), O, 3000, 0, 0))
			cs.Add(nft(gen.NFTID(0xac), R, 3000, 0))
		}
		own, ret := addrs[v[0]], addrs[v[1]]
		var parts []any
		switch v[4] {
		case 1:
			parts = append(parts, ucSDR(ret, 400))
		case 2:
			parts = append(parts, ucSDR(own, 400))
		}
		cs.Add(basic(own, 3000, 0, append(parts, ucExp(ret, []uint32{20, 21, 22, 23, 24, 25}[v[2]]))...))
		switch v[3] {
		case 1:
			cs.Add(basic(O, 2000, 0, ucTL(22)))
		case 2:
			cs.Add(basic(O, 2000, 0, ucTL(21)))
		case 3:
			cs.Add(basic(R, 2000, 0, ucExp(own, 21)))
		case 4:
			cs.Add(basic(O, 2000, 0, ucExp(ret, 24)))
		}
		cs.Fill(O, 0)
		cs.Run(c)
	})
	// histories: one locked output, every order of committing slots and spending attempts
	type S struct {
		Commit int
		Spent  string
	}
	for _, lk := range []struct {
		name   string
		tl, ex uint32
	}{{"timelock 6", 6, 0}, {"expiration 8", 0, 8}, {"timelock 5 expiration 9", 5, 9}, {"timelock 9 expiration 5", 9, 5}} {
		lk := lk
		evs := []string{"commit next", "spend as owner", "spend as return party", "spend as stranger"}
		core.BFS(x, core.Search[S]{Name: "lock history " + lk.name, Init: []S{{}}, Depth: 16,
			Events: func(S) (int, func(int) string) { return len(evs), func(i int) string { return evs[i] } },
			Key:    func(s S) string { return s.Spent + core.DV("", []int{s.Commit}).Labels[0] },
			Apply: func(s S, ev int, c *core.C) (S, bool) {
				if s.Spent != "" {
					return s, false
				}
				if ev == 0 {
					s.Commit++
					return s, s.Commit < 14
				}
				cs := &Case{E: e, Slot: 30, Commit: int64(s.Commit), Caps: allCaps(), SignAs: map[int]int{0: ev - 1}}
				var parts []any
				if lk.tl > 0 {
					parts = append(parts, ucTL(lk.tl))
				}
				if lk.ex > 0 {
					parts = append(parts, ucExp(R, lk.ex))
				}
				cs.Add(basic(O, 3000, 0, parts...))
				cs.Fill(gen.Ed(5), 0)
				if vd := cs.Run(c); vd.Stage != "" {
					return s, false
				}
				s.Spent = evs[ev]
				return s, true
			}})
	}
}

// p12: implicit accounts.
func p12(x *core.Ctx) {
	e := gen.NewEnv(ref.Default())
	O := gen.Ed(0)
	p12convert(x, e, O)
	p12shape(x, e)
	p12mana(x, e, O)
}

func p12convert(x *core.Ctx, e *gen.Env, O iotago.Address) {
	x.Product("conversion", []core.Dim{
		core.DL("implicit inputs", "one", "two", "two same key", "one plus account", "none"),
		core.DL("output", "account derived id", "account zero id", "account unknown id", "absent", "nft derived id", "anchor derived id", "delegation derived id", "foundry of derived id", "foundry and account"),
		core.DL("issuer", "past", "past-1", "max", "absent", "two keys"), core.DL("credit", "0", "-1", "absent", "min"), core.DL("commitment", "18", "absent"),
		core.DL("unlock", "signature", "reference to same key", "wrong key", "signature but earlier input has the key", "account unlock", "multi"), core.DL("extras", "-", "native token", "metadata", "issuer O", "staking", "counter 1"),
	}, func(v []int, c *core.C) {
		dev := 0
		for _, k := range []int{0, 1, 2, 3, 4, 5, 6} {
			if v[k] > 0 {
				dev++
			}
		}
		if dev > core.Pick(x, 3, 7) {
			c.Skip()
			return
		}
		cs := &Case{E: e, Slot: 20, Commit: 18, Caps: allCaps(), BIC: map[iotago.AccountID]int64{}, SignAs: map[int]int{}}
		if v[4] == 1 {
			cs.Commit = -1
		}
		var ids []iotago.AccountID
		tok := foundryID(gen.AccID(0xf0), 1)
		if v[5] == 1 || v[5] == 3 {
			cs.Add(basic(O, 3000, 0)) // spent first with the same key
		}
		impl := func(key int) {
			var p []any
			if v[6] == 1 {
				p = append(p, fNT(tok, 5))
			}
			ids = append(ids, iotago.AccountID(digest32(cs.IDAt(len(cs.Ins), 20))))
			cs.Add(basic(gen.Implicit(key), 5000, 0, p...))
		}
		first := len(cs.Ins)
		if v[0] != 4 {
			impl(0)
		} else {
			ids = append(ids, gen.AccID(0x11))
			cs.Add(basic(O, 5000, 0))
		}
		switch v[0] {
		case 1:
			impl(1)
		case 2:
			impl(0)
		case 3:
			cs.Add(account(gen.AccID(0xab), O, 3000, 0, 0, fBI(90)))
			cs.Outs = append(cs.Outs, account(gen.AccID(0xab), O, 3000, 0, 0, fBI(90)))
			if v[4] == 0 {
				cs.BIC[gen.AccID(0xab)] = 0
			}
		}
		if v[4] == 0 && v[3] != 2 {
			for _, id := range ids {
				cs.BIC[id] = []int64{0, -1, 0, math.MinInt64}[v[3]]
			}
		}
		var fs []any
		switch v[2] {
		case 0:
			fs = append(fs, fBI(21))
		case 1:
			fs = append(fs, fBI(20))
		case 2:
			fs = append(fs, fBI(math.MaxUint32))
		case 4:
			fs = append(fs, fBI(21, 0, 1))
		}
		cnt := uint32(0)
		switch v[6] {
		case 2:
			fs = append(fs, fMeta("m"))
		case 3:
			fs = append(fs, imm{fIssuer(O)})
		case 4:
			fs = append(fs, fStake(100, 0, e.P.Epoch(21), e.P.Epoch(21)+e.P.Unbonding))
		case 5:
			cnt = 1
		}
		n := len(ids)
		for i := 0; i < n; i++ {
			id := ids[i]
			switch v[1] {
			case 0:
				cs.Outs = append(cs.Outs, account(id, O, 4000, 0, cnt, fs...))
			case 1:
				cs.Outs = append(cs.Outs, account(iotago.AccountID{}, O, 4000, 0, cnt, fs...))
			case 2:
				cs.Outs = append(cs.Outs, account(gen.AccID(0x77), O, 4000, 0, cnt, fs...))
			case 4:
				cs.Outs = append(cs.Outs, nft(iotago.NFTID(id), O, 4000, 0))
			case 5:
				cs.Outs = append(cs.Outs, anchor(iotago.AnchorID(id), O, O, 4000, 0, 0))
			case 6:
				cs.Outs = append(cs.Outs, delegation(iotago.DelegationID(id), O, 4000, 4000, gen.AccAddr(1), 3, 0))
			case 7:
				cs.Outs = append(cs.Outs, foundry(id, 3000, 1, 0, 0, 5))
			case 8:
				cs.Outs = append(cs.Outs, account(id, O, 2000, 0, 1, fs...), foundry(id, 2000, 1, 0, 0, 5))
			}
		}
		cs.Add(basic(gen.Ed(3), 9000, 0))
		cs.Fill(O, 0)
		if v[5] >= 2 {
			tx := cs.Tx()
			us := cs.Honest(tx, cs.Resolved())
			switch v[5] {
			case 2:
				us[first] = &iotago.SignatureUnlock{Signature: gen.Sign(5, ref.SigMsg(tx))}
			case 3:
				us[first] = &iotago.SignatureUnlock{Signature: gen.Sign(0, ref.SigMsg(tx))}
			case 4:
				us[first] = &iotago.AccountUnlock{Reference: 0}
			case 5:
				us[first] = &iotago.MultiUnlock{Unlocks: []iotago.Unlock{&iotago.SignatureUnlock{Signature: gen.Sign(0, ref.SigMsg(tx))}, &iotago.EmptyUnlock{}}}
			}
			cs.Unlocks = us
		}
		cs.Run(c)
	})
}

// p12shape: implicit account addresses on the output side, in every position an address can take.
func p12shape(x *core.Ctx, e *gen.Env) {
	O := gen.Ed(0)
	I := gen.Implicit(0)
	tok := foundryID(gen.AccID(0xf0), 1)
	outs := map[string]iotago.Output{
		"plain":               basic(I, 4000, 0),
		"plain mana":          basic(I, 4000, 7),
		"native token":        basic(I, 4000, 0, fNT(tok, 5)),
		"metadata":            basic(I, 4000, 0, fMeta("m")),
		"tag":                 basic(I, 4000, 0, fTag("t")),
		"sender":              basic(I, 4000, 0, fSender(O)),
		"token and tag":       basic(I, 4000, 0, fNT(tok, 5), fTag("t")),
		"timelock":            basic(I, 4000, 0, ucTL(5)),
		"expiration":          basic(I, 4000, 0, ucExp(O, 5)),
		"storage return":      basic(I, 4000, 0, ucSDR(O, 400)),
		"expiration to":       basic(O, 4000, 0, ucExp(I, 5)),
		"storage return to":   basic(O, 4000, 0, ucSDR(I, 400)),
		"sender is":           basic(O, 4000, 0, fSender(I)),
		"account owner":       account(iotago.AccountID{}, I, 4000, 0, 0),
		"account issuer":      account(iotago.AccountID{}, O, 4000, 0, 0, imm{fIssuer(I)}),
		"nft owner":           nft(iotago.NFTID{}, I, 4000, 0),
		"nft issuer":          nft(iotago.NFTID{}, O, 4000, 0, imm{fIssuer(I)}),
		"anchor controller":   anchor(iotago.AnchorID{}, I, O, 4000, 0, 0),
		"anchor governor":     anchor(iotago.AnchorID{}, O, I, 4000, 0, 0),
		"delegation owner":    delegation(iotago.DelegationID{}, I, 4000, 4000, gen.AccAddr(1), 4, 0),
		"restricted implicit": basic(gen.Restricted(I, 0xff), 4000, 0),
		"multi of implicit":   basic(gen.Multi(1, I, gen.Ed(1)), 4000, 0),
	}
	var names []string
	for k := range outs {
		names = append(names, k)
	}
	sortStrings(names)
	min := new(uint64)
	{ // smallest amount a plain implicit output may hold
		d := e.P.MinDeposit(basic(I, 4000, 0))
		*min = d.Uint64()
	}
	x.Product("shapes", []core.Dim{core.DL("output", names...), core.DL("amount", "4000", "min", "min-1"), core.DL("input", "plain", "implicit converted")}, func(v []int, c *core.C) {
		o := outs[names[v[0]]].Clone()
		cs := &Case{E: e, Slot: 20, Commit: 18, Caps: allCaps(), BIC: map[iotago.AccountID]int64{}}
		if v[1] > 0 {
			switch x := o.(type) {
			case *iotago.BasicOutput:
				x.Amount = iotago.BaseToken(*min - uint64(v[1]-1))
			default:
				c.Skip()
				return
			}
		}
		cs.Add(basic(O, 9000, 100, fNT(tok, 5)))
		cs.Add(basic(gen.Implicit(1), 3000, 0))
		id := iotago.AccountID(digest32(cs.IDAt(1, 20)))
		cs.BIC[id] = 0
		cs.Outs = append(cs.Outs, account(id, O, 2500, 0, 0, fBI(90)), o)
		if v[2] == 0 {
			cs.Ins[1].Out = basic(O, 3000, 0)
			cs.Outs = cs.Outs[1:]
		}
		cs.Fill(O, 0)
		cs.Run(c)
	})
}

// p12mana: mana bound to the implicit account, including what it generated while waiting.
func p12mana(x *core.Ctx, e *gen.Env, O iotago.Address) {
	x.Product("bound mana", []core.Dim{core.DV("stored", []uint64{0, 100}), core.DV("amount", []uint64{1500, 50000}), core.DV("created", []uint32{20, 12, 3}), core.DV("foreign", []uint64{0, 50}), core.DL("kept on the account", "all", "own only", "all-1", "own-1", "none", "own+1"),
		core.DL("allotted", "-", "self rest", "other 1", "self 1"), core.DL("locked output", "-", "self 5", "other 5", "self early 5"), core.DL("rest", "to key", "burned"), core.DL("tokens", "no", "yes"), core.DL("expired issuer on output", "no", "yes")}, func(v []int, c *core.C) {
		cs := &Case{E: e, Slot: 20, Commit: 18, Caps: caps(), BIC: map[iotago.AccountID]int64{}}
		if v[7] == 1 {
			cs.Caps = caps(ref.CapBurnMana)
		}
		id := iotago.AccountID(digest32(cs.IDAt(0, []uint32{20, 12, 3}[v[2]])))
		cs.BIC[id] = 0
		var p []any
		if v[8] == 1 {
			p = append(p, fNT(foundryID(gen.AccID(0xf0), 1), 3))
		}
		cs.AddAt(basic(gen.Implicit(0), []uint64{1500, 50000}[v[1]], []uint64{0, 100}[v[0]], p...), []uint32{20, 12, 3}[v[2]])
		tx0 := cs.Tx()
		own, bad := e.P.ManaIn(tx0, cs.Resolved())
		if bad != "" {
			c.Skip()
			return
		}
		cs.Add(basic(gen.Ed(1), 9000, []uint64{0, 50}[v[3]]))
		all, _ := e.P.ManaIn(cs.Tx(), cs.Resolved())
		a, o := all.Int64(), own.Int64()
		keep := []int64{a, o, a - 1, o - 1, 0, o + 1}[v[4]]
		if keep < 0 || keep > a {
			c.Skip()
			return
		}
		rest := a - keep
		acc := gen.AccAddr(0)
		*acc = iotago.AccountAddress(id)
		bi := fBI(30)
		if v[9] == 1 {
			bi = fBI(20)
		}
		cs.Outs = append(cs.Outs, account(id, O, 1000, uint64(keep), 0, bi))
		allot := func(to iotago.AccountID, m int64) bool {
			if m > rest || m <= 0 {
				return false
			}
			rest -= m
			cs.Allot = append(cs.Allot, &iotago.Allotment{AccountID: to, Mana: iotago.Mana(m)})
			return true
		}
		ok := true
		switch v[5] {
		case 1:
			ok = allot(id, rest)
		case 2:
			ok = allot(gen.AccID(0x33), 1)
		case 3:
			ok = allot(id, 1)
		}
		if v[6] > 0 {
			m := int64(5)
			if m > rest {
				m = rest
			}
			rest -= m
			to := []iotago.Address{nil, acc, gen.AccAddr(0x33), acc}[v[6]]
			cs.Outs = append(cs.Outs, basic(to, 400, uint64(m), ucTL([]uint32{0, 25, 25, 24}[v[6]])))
		}
		if !ok {
			c.Skip()
			return
		}
		if v[7] == 1 {
			rest = 0
		}
		cs.Fill(gen.Ed(2), uint64(rest), p...)
		cs.Run(c)
	})
}
