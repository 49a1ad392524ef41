package checks

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"sync"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P24"] = p24 }

type workSet struct {
	n string
	w iotago.WorkScoreParameters
}

// factors gives access to the ten factors.
func factors(w *iotago.WorkScoreParameters) []*iotago.WorkScore {
	return []*iotago.WorkScore{&w.DataByte, &w.Block, &w.Input, &w.ContextInput, &w.Output, &w.NativeToken, &w.Staking, &w.BlockIssuer, &w.Allotment, &w.SignatureEd25519}
}

var factorNames = []string{"data byte", "block", "input", "context input", "output", "native token", "staking", "block issuer", "allotment", "signature"}

func workSets() (out []workSet) {
	add := func(n string, f func(fs []*iotago.WorkScore)) {
		s := workSet{n: n}
		f(factors(&s.w))
		out = append(out, s)
	}
	fill := func(vs ...uint32) func(fs []*iotago.WorkScore) {
		return func(fs []*iotago.WorkScore) {
			for i, f := range fs {
				*f = iotago.WorkScore(vs[i%len(vs)])
			}
		}
	}
	add("zero", fill(0))
	add("one", fill(1))
	add("distinct", fill(1, 100, 7, 11, 13, 17, 19, 23, 29, 31))
	add("real network", fill(500, 110_000, 7_500, 40_000, 90_000, 50_000, 40_000, 70_000, 5_000, 15_000))
	add("block only", fill(0, 1, 0, 0, 0, 0, 0, 0, 0, 0))
	add("all maximal", fill(math.MaxUint32))
	add("all half", fill(1<<31))
	for i, n := range factorNames {
		for _, v := range []uint32{1, 1 << 16, 1 << 24, 1 << 31, math.MaxUint32} {
			add(fmt.Sprintf("%s=%d only", n, v), func(fs []*iotago.WorkScore) { *fs[i] = iotago.WorkScore(v) })
		}
		add(n+" maximal, others 1", func(fs []*iotago.WorkScore) { fill(1)(fs); *fs[i] = math.MaxUint32 })
		for j := 0; j < i; j++ {
			add(n+" and "+factorNames[j]+" half", func(fs []*iotago.WorkScore) { *fs[i], *fs[j] = 1<<31, 1<<31 })
		}
	}
	return
}

type worker interface {
	WorkScore(*iotago.WorkScoreParameters) (iotago.WorkScore, error)
}

// judgeWork compares the work score of an object under one parameter set.
func judgeWork(c *core.C, o worker, parts ref.Parts, w iotago.WorkScoreParameters, name string) {
	want := parts.Cost(&w)
	c.Step(1)
	before := w
	got, err := o.WorkScore(&w)
	fits := want.IsUint64() && want.Uint64() <= math.MaxUint32
	if fits {
		c.Check(err == nil && uint64(got) == want.Uint64(), fmt.Sprintf("score:%T", o), "%s: work score of %T is %d (%v), the parts cost %s", name, o, got, err, want)
	} else {
		c.Check(err != nil, fmt.Sprintf("overflow:%T", o), "%s: work score of %T does not fit into 32 bits (%s), got %d without an error", name, o, want, got)
	}
	c.Check(w == before, "parameters", "computing a work score changed the parameters")
}

// tight gives parameter sets for which the work score is exactly the largest one and one more.
func tight(parts ref.Parts, base iotago.WorkScoreParameters) (out []workSet) {
	base.Block = 0
	rest := parts.Cost(&base)
	if parts[1] == 0 || !rest.IsUint64() || rest.Uint64() > math.MaxUint32 {
		return nil
	}
	left := math.MaxUint32 - rest.Uint64()
	base.Block = iotago.WorkScore(left)
	out = append(out, workSet{"exactly the maximum", base})
	if left < math.MaxUint32 {
		base.Block++
		out = append(out, workSet{"one above the maximum", base})
	}
	return
}

func p24(x *core.Ctx) {
	e := gen.NewEnv(ref.Default())
	sets := workSets()

	// every object with a work score
	var objs []Obj
	var names []string
	for _, o := range catalog(e) {
		if _, ok := o.New().(worker); ok {
			objs = append(objs, o)
			names = append(names, o.Kind+" "+o.Name)
		}
	}
	var setNames []string
	for _, s := range sets {
		setNames = append(setNames, s.n)
	}
	x.Product("objects", []core.Dim{core.DL("object", names...)}, func(v []int, c *core.C) {
		o := objs[v[0]].New().(worker)
		raw := ref.Enc(o)
		c.State(raw)
		c.Outcome(objs[v[0]].Kind)
		parts, known := ref.PartsOf(o)
		if !known {
			c.Skip() // an object that is never a part of a block
			return
		}
		for _, s := range sets {
			judgeWork(c, o, parts, s.w, s.n)
		}
		for _, b := range sets[1:4] {
			for _, s := range tight(parts, b.w) {
				judgeWork(c, o, parts, s.w, s.n)
			}
		}
		c.Check(string(ref.Enc(o)) == string(raw), "modified", "computing the work score changed the object")
	})

	// transactions with any number of parts
	acc := gen.AccID(0xbb)
	fid := foundryID(acc, 1)
	outs := []struct {
		n string
		f func(i int) iotago.Output
	}{
		{"none", nil},
		{"basic", func(i int) iotago.Output { return basic(gen.Ed(0), 500, 1) }},
		{"basic with token", func(i int) iotago.Output { return basic(gen.Ed(0), 500, 1, fNT(fid, 3)) }},
		{"basic with all conditions", func(i int) iotago.Output {
			return basic(gen.Ed(0), 500, 1, ucSDR(gen.Ed(1), 300), ucTL(3), ucExp(gen.Ed(1), 4), fSender(gen.Ed(0)), fTag("x"), fMeta("m"))
		}},
		{"account", func(i int) iotago.Output { return account(gen.AccID(byte(i)), gen.Ed(0), 500, 1, 0) }},
		{"issuer account", func(i int) iotago.Output { return account(gen.AccID(byte(i)), gen.Ed(0), 500, 1, 0, fBI(90, 1, 2)) }},
		{"staking account", func(i int) iotago.Output {
			return account(gen.AccID(byte(i)), gen.Ed(0), 500, 1, 0, fBI(90, 1), fStake(1, 1, 3, 9))
		}},
		{"anchor", func(i int) iotago.Output {
			return anchor(gen.AncID(byte(i)), gen.Ed(0), gen.Ed(1), 500, 1, 0, fState("s"))
		}},
		{"foundry", func(i int) iotago.Output { return foundry(acc, 500, uint32(i+1), 5, 0, 9) }},
		{"foundry with token", func(i int) iotago.Output {
			return foundry(acc, 500, uint32(i+1), 5, 0, 9, fNT(foundryID(acc, uint32(i+1)), 5))
		}},
		{"nft", func(i int) iotago.Output { return nft(gen.NFTID(byte(i)), gen.Ed(0), 500, 1, imm{fIssuer(gen.Ed(0))}) }},
		{"delegation", func(i int) iotago.Output {
			return delegation(gen.DelID(byte(i)), gen.Ed(0), 500, 500, gen.AccAddr(3), 1, 2)
		}},
	}
	var on []string
	for _, o := range outs {
		on = append(on, o.n)
	}
	payloads := []iotago.ApplicationPayload{nil, &iotago.TaggedData{}, &iotago.TaggedData{Tag: []byte("tag"), Data: make([]byte, 300)}}
	unlockKinds := []string{"one signature", "all signatures", "multi of two", "multi of ten", "multi with empty and reference", "none", "chain unlocks"}
	mkUnlocks := func(kind, n int) (us iotago.Unlocks) {
		sig := func(i int) *iotago.SignatureUnlock { return &iotago.SignatureUnlock{Signature: sigN(i)} }
		for i := 0; i < n; i++ {
			switch kind {
			case 0:
				if i == 0 {
					us = append(us, sig(0))
				} else {
					us = append(us, &iotago.ReferenceUnlock{Reference: 0})
				}
			case 1:
				us = append(us, sig(i))
			case 2, 3:
				m := &iotago.MultiUnlock{}
				for j := 0; j < []int{2, 10}[kind-2]; j++ {
					m.Unlocks = append(m.Unlocks, sig(i*10+j))
				}
				us = append(us, m)
			case 4:
				us = append(us, &iotago.MultiUnlock{Unlocks: iotago.Unlocks{sig(i), &iotago.EmptyUnlock{}, &iotago.ReferenceUnlock{Reference: 0}, &iotago.EmptyUnlock{}, sig(i + 200)}})
			case 6:
				us = append(us, []iotago.Unlock{&iotago.AccountUnlock{}, &iotago.AnchorUnlock{}, &iotago.NFTUnlock{}}[i%3])
			}
		}
		return
	}
	mkTx := func(ins, ctx, o1, n1, o2, n2, allot, payload, unlock int) *iotago.SignedTransaction {
		t := &iotago.Transaction{API: e.API, TransactionEssence: &iotago.TransactionEssence{NetworkID: iotago.NetworkID(e.P.NetworkID), CreationSlot: 20, Payload: payloads[payload]}}
		for i := 0; i < ins; i++ {
			t.TransactionEssence.Inputs = append(t.TransactionEssence.Inputs, &iotago.UTXOInput{TransactionID: gen.TxIDAt(byte(i), 3), TransactionOutputIndex: uint16(i % 128)})
		}
		switch ctx {
		case 1:
			t.TransactionEssence.ContextInputs = append(t.TransactionEssence.ContextInputs, &iotago.CommitmentInput{CommitmentID: commitID(1, 18)})
		case 2:
			t.TransactionEssence.ContextInputs = append(t.TransactionEssence.ContextInputs, &iotago.CommitmentInput{CommitmentID: commitID(1, 18)}, &iotago.BlockIssuanceCreditInput{AccountID: acc}, &iotago.RewardInput{Index: 0})
		case 3:
			for i := 0; i < 128; i++ {
				t.TransactionEssence.ContextInputs = append(t.TransactionEssence.ContextInputs, &iotago.RewardInput{Index: uint16(i)})
			}
		}
		add := func(k, n int) {
			for i := 0; i < n && outs[k].f != nil; i++ {
				t.Outputs = append(t.Outputs, outs[k].f(len(t.Outputs)))
			}
		}
		add(o1, n1)
		add(o2, n2)
		for i := 0; i < allot; i++ {
			t.TransactionEssence.Allotments = append(t.TransactionEssence.Allotments, &iotago.Allotment{AccountID: gen.AccID(byte(i)), Mana: iotago.Mana(i)})
		}
		return &iotago.SignedTransaction{API: e.API, Transaction: t, Unlocks: mkUnlocks(unlock, ins)}
	}
	inN, allotN := core.Pick(x, []int{1, 2, 128}, []int{1, 2, 3, 10, 128}), core.Pick(x, []int{0, 1, 128}, []int{0, 1, 2, 128})
	used := sets[:7]
	x.Product("transactions", []core.Dim{core.DV("inputs", inN), core.DL("context inputs", "none", "commitment", "one of each", "128 rewards"), core.DL("first output", on...), core.DL("second output", on...), core.DL("outputs of each", "1", "2", "64"), core.DV("allotments", allotN), core.DL("payload", "none", "empty", "tagged"), core.DL("unlocks", unlockKinds...)},
		func(v []int, c *core.C) {
			if x.Tier == "quick" && ((v[0]+v[1]+v[2]+v[3]+v[4]+v[5]+v[6]+v[7])%3 != 0 || v[3] > v[2]) {
				c.Skip()
				return
			}
			n := []int{1, 2, 64}[v[4]]
			stx := mkTx(inN[v[0]], v[1], v[2], n, v[3], n, allotN[v[5]], v[6], v[7])
			b := &iotago.BasicBlockBody{API: e.API, Payload: stx}
			parts, _ := ref.PartsOf(b)
			for _, s := range used {
				judgeWork(c, b, parts, s.w, s.n)
			}
			for _, s := range tight(parts, sets[2].w) {
				judgeWork(c, b, parts, s.w, s.n)
			}
			for i := 0; i < 10; i++ {
				// each factor alone counts its parts
				var w iotago.WorkScoreParameters
				*factors(&w)[i] = 1
				judgeWork(c, b, parts, w, factorNames[i])
			}
			c.Outcomef("unlocked by %s", unlockKinds[v[7]])
			c.StateS(fmt.Sprint(v))
		})

	// the largest blocks that are admissible, against the declared maximum
	type top struct {
		n     string
		parts ref.Parts
	}
	var mu sync.Mutex
	var largest []top
	tryBlock := func(n string, p iotago.ApplicationPayload) bool {
		b := baseBlock(e, 20, false)
		b.Body.(*iotago.BasicBlockBody).Payload = p
		if why := e.P.SyntaxBlock(b); why != "" {
			return false
		}
		parts, _ := ref.PartsOf(b)
		mu.Lock()
		defer mu.Unlock()
		largest = append(largest, top{n, parts})
		return true
	}
	x.Product("largest blocks", []core.Dim{core.DL("shape", append(append([]string{"data"}, on[1:]...), "signatures", "inputs", "context inputs", "allotments")...)}, func(v []int, c *core.C) {
		// descend until the block is admissible
		shape := v[0]
		switch {
		case shape == 0:
			for n := 32768; n > 0; n-- {
				if tryBlock("data", &iotago.TaggedData{Data: make([]byte, n)}) {
					c.Outcomef("%d bytes", n)
					return
				}
			}
		case shape < len(on):
			for n := 128; n > 0; n-- {
				if tryBlock(on[shape], mkTx(1, 1, shape, n, 0, 0, 0, 0, 0)) {
					c.Outcomef("%d x %s", n, on[shape])
					return
				}
			}
		case shape == len(on):
			for n := 128; n > 0; n-- {
				if tryBlock("signatures", mkTx(n, 0, 1, 1, 0, 0, 0, 0, 3)) {
					c.Outcomef("%d signatures", n*10)
					return
				}
			}
		case shape == len(on)+1:
			for n := 128; n > 0; n-- {
				if tryBlock("inputs", mkTx(n, 0, 1, 1, 0, 0, 0, 0, 0)) {
					c.Outcomef("%d inputs", n)
					return
				}
			}
		case shape == len(on)+2:
			stx := mkTx(128, 2, 1, 1, 0, 0, 0, 0, 0)
			for i := 1; i < 126; i++ {
				stx.Transaction.TransactionEssence.ContextInputs = append(stx.Transaction.TransactionEssence.ContextInputs, &iotago.RewardInput{Index: uint16(i)})
			}
			if tryBlock("context inputs", stx) {
				c.Outcome("128 context inputs")
				return
			}
		default:
			for n := 128; n > 0; n-- {
				if tryBlock("allotments", mkTx(1, 1, 1, 1, 0, 0, n, 0, 0)) {
					c.Outcomef("%d allotments", n)
					return
				}
			}
		}
		c.Fail("selfcheck", "no admissible block of this shape")
	})
	sort.Slice(largest, func(i, j int) bool { return largest[i].n < largest[j].n })
	lim := core.Pick(x, []uint32{0, 1, 1000}, []uint32{0, 1, 1000})
	dims := []core.Dim{}
	for _, n := range factorNames {
		dims = append(dims, core.DV(n, lim))
	}
	x.Product("maximum block work", dims, func(v []int, c *core.C) {
		var w iotago.WorkScoreParameters
		sum := uint64(0)
		for i, f := range factors(&w) {
			*f = iotago.WorkScore(lim[v[i]])
			sum += uint64(*f)
		}
		c.Step(1)
		max, err := w.MaxBlockWork()
		// a block has less than 40000 bytes and less than 4000 parts of every kind
		if err != nil {
			c.Check(sum*40000 > math.MaxUint32, "refused", "no maximum block work for parameters with small scores: %v", err)
			c.Outcome("refused")
			return
		}
		c.Outcome("computed")
		c.Step(len(largest))
		for _, l := range largest {
			want := l.parts.Cost(&w)
			c.Check(want.IsUint64() && want.Uint64() <= uint64(max), "above maximum", "a block with %s has work score %s, the maximum block work is %d", l.n, want, max)
		}
	})
	x.Product("maximum block work of large factors", []core.Dim{core.DL("parameters", setNames...)}, func(v []int, c *core.C) {
		w := sets[v[0]].w
		c.Step(1)
		max, err := w.MaxBlockWork()
		for _, l := range largest {
			want := l.parts.Cost(&w)
			if err == nil {
				c.Check(want.IsUint64() && want.Uint64() <= uint64(max), "above maximum", "a block with %s has work score %s, the maximum block work is %d", l.n, want, max)
			}
		}
		c.Outcomef("error %v", err != nil)
	})

	// mana cost of whole blocks
	rmcs := []uint64{0, 1, 2, 3, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 53, math.MaxInt64, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}
	var ps []ref.Params
	var psn []string
	for _, s := range sets[:5] {
		p := ref.Default()
		w := s.w
		f := factors(&w)
		r := reflect.ValueOf(&p.Work).Elem()
		for i := range f {
			r.Field(i).SetUint(uint64(*f[i]))
		}
		ps, psn = append(ps, p), append(psn, s.n)
	}
	var envs []*gen.Env
	for _, p := range ps {
		envs = append(envs, gen.NewEnv(p))
	}
	bodies := []string{"validation", "empty", "data", "announcement", "transaction"}
	x.Product("mana cost", []core.Dim{core.DL("parameters", psn...), core.DL("body", bodies...), core.DV("reference mana cost", rmcs)}, func(v []int, c *core.C) {
		e := envs[v[0]]
		b := baseBlock(e, 20, v[1] == 0)
		switch v[1] {
		case 2:
			b.Body.(*iotago.BasicBlockBody).Payload = &iotago.TaggedData{Tag: []byte("t"), Data: make([]byte, 100)}
		case 3:
			b.Body.(*iotago.BasicBlockBody).Payload = &iotago.CandidacyAnnouncement{}
		case 4:
			b.Body.(*iotago.BasicBlockBody).Payload = mkTx(2, 2, 3, 1, 9, 1, 2, 2, 1)
		}
		w := e.API.ProtocolParameters().WorkScoreParameters()
		parts, _ := ref.PartsOf(b)
		score := parts.Cost(w)
		c.Step(2)
		c.State(ref.Enc(b))
		got, err := b.WorkScore()
		c.Check(err == nil && uint64(got) == score.Uint64(), "block score", "work score of a block with %s body: %d (%v), want %s", bodies[v[1]], got, err, score)
		cost := new(big.Int).Mul(score, new(big.Int).SetUint64(rmcs[v[2]]))
		m, err := b.ManaCost(iotago.Mana(rmcs[v[2]]))
		c.Check((err == nil) == cost.IsUint64() && (err != nil || uint64(m) == cost.Uint64()), "block cost", "mana cost at reference cost %d and work score %s: %d (%v), want %s", rmcs[v[2]], score, m, err, cost)
		c.Outcomef("overflow %v", !cost.IsUint64())
	})
	ws := []uint64{0, 1, 2, 3, 1 << 16, 1<<31 - 1, 1 << 31, math.MaxUint32 - 1, math.MaxUint32}
	x.Product("products", []core.Dim{core.DV("reference mana cost", manaAmounts(8, 8)), core.DV("work score", ws)}, func(v []int, c *core.C) {
		a := manaAmounts(8, 8)[v[0]]
		cost := new(big.Int).Mul(new(big.Int).SetUint64(a), new(big.Int).SetUint64(ws[v[1]]))
		c.Step(1)
		m, err := iotago.ManaCost(iotago.Mana(a), iotago.WorkScore(ws[v[1]]))
		c.Check((err == nil) == cost.IsUint64() && (err != nil || uint64(m) == cost.Uint64()), "cost", "mana cost of %d x %d: %d (%v), want %s", a, ws[v[1]], m, err, cost)
		c.Outcomef("overflow %v", !cost.IsUint64())
	})
}

// sigN is a signature of the i-th key (contents do not matter for work scores, signers have to differ).
func sigN(i int) iotago.Signature {
	s := &iotago.Ed25519Signature{}
	s.PublicKey[0], s.PublicKey[1] = byte(i), byte(i>>8)
	return s
}
