package checks

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/builder"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P29"] = p29 }

// signerOf holds the first n keys.
func signerOf(n int) iotago.AddressSigner {
	var ks []ed25519.PrivateKey
	for i := 0; i < n; i++ {
		ks = append(ks, gen.Key(i))
	}
	return iotago.NewInMemoryAddressSignerFromEd25519PrivateKeys(ks...)
}

// sortedTx puts context inputs and allotments into the order of the protocol.
func sortedTx(tx *iotago.Transaction) *iotago.Transaction {
	ess := tx.TransactionEssence
	sort.SliceStable(ess.ContextInputs, func(i, j int) bool {
		return bytes.Compare(ctxKey(ess.ContextInputs[i]), ctxKey(ess.ContextInputs[j])) < 0
	})
	sort.SliceStable(ess.Allotments, func(i, j int) bool {
		return bytes.Compare(ess.Allotments[i].AccountID[:], ess.Allotments[j].AccountID[:]) < 0
	})
	return tx
}

func ctxKey(i any) []byte {
	switch x := i.(type) {
	case *iotago.CommitmentInput:
		return []byte{0}
	case *iotago.BlockIssuanceCreditInput:
		return append([]byte{1}, x.AccountID[:]...)
	case *iotago.RewardInput:
		return []byte{2, byte(x.Index >> 8), byte(x.Index)}
	}
	return nil
}

// builderFor gives the contents of the case to a new builder.
func builderFor(cs *Case, signer iotago.AddressSigner, targets []iotago.Address) *builder.TransactionBuilder {
	tx := cs.Tx()
	b := builder.NewTransactionBuilder(cs.E.API, signer)
	b.SetCreationSlot(tx.TransactionEssence.CreationSlot)
	for i, in := range cs.Ins {
		b.AddInput(&builder.TxInput{UnlockTarget: targets[i], InputID: in.ID, Input: in.Out})
	}
	for i := len(tx.TransactionEssence.ContextInputs) - 1; i >= 0; i-- {
		switch x := tx.TransactionEssence.ContextInputs[i].(type) {
		case *iotago.CommitmentInput:
			b.AddCommitmentInput(x)
		case *iotago.BlockIssuanceCreditInput:
			b.AddBlockIssuanceCreditInput(x)
		case *iotago.RewardInput:
			b.AddRewardInput(x, iotago.Mana(cs.Rewards[int(x.Index)]))
		}
	}
	for i := len(cs.Allot) - 1; i >= 0; i-- {
		b.IncreaseAllotment(cs.Allot[i].AccountID, cs.Allot[i].Mana)
	}
	for _, o := range cs.Outs {
		b.AddOutput(o)
	}
	if len(cs.Caps) > 0 {
		b.WithTransactionCapabilities(append(iotago.TransactionCapabilitiesBitMask{}, cs.Caps...))
	}
	if td, ok := cs.Payload.(*iotago.TaggedData); ok {
		b.AddTaggedDataPayload(td)
	}
	return b
}

type inKind struct {
	name    string
	out     iotago.Output
	target  iotago.Address // who is to unlock it
	cont    func() iotago.Output
	support bool // directly or chain unlockable with the keys of the signer
	reward  bool
}

func p29(x *core.Ctx) {
	e := gen.NewEnv(ref.Default())
	x.Assume("the unlock target given with an input is the address entitled to unlock it; signer holds 4 Ed25519 keys")
	x.Assume("mana requests: the target slot is the creation slot of the transaction; inputs are 11 slots old")
	p29unlocks(x, e)
	p29mana(x, e)
	p29edges(x, e)
	p29history(x, e)
}

func p29unlocks(x *core.Ctx, e *gen.Env) {
	const slot, commit = 40, 38
	idOf := func(k int) iotago.OutputID { return gen.OutID(byte(0x10+k), slot, uint16(k)) }
	accF, nftF, ancF := func() *iotago.AccountAddress { a := iotago.AccountAddress(digest32(idOf(5))); return &a }(), func() *iotago.NFTAddress { a := iotago.NFTAddress(digest32(idOf(7))); return &a }(), func() *iotago.AnchorAddress { a := iotago.AnchorAddress(digest32(idOf(9))); return &a }()
	const amt = 200000
	A, B := gen.Ed(0), gen.Ed(1)
	val := gen.AccAddr(0x77)
	kinds := []inKind{
		{name: "basic A", out: basic(A, amt, 0), target: A, support: true},
		{name: "basic B", out: basic(B, amt, 0), target: B, support: true},
		{name: "basic restricted A", out: basic(gen.Restricted(A, 0xff), amt, 0), target: gen.Restricted(A, 0xff), support: true},
		{name: "basic implicit A", out: basic(gen.Implicit(0), amt, 0), target: gen.Implicit(0), support: true, cont: func() iotago.Output {
			return account(iotago.AccountID(digest32(idOf(3))), A, amt, 0, 0, fBI(math.MaxUint32))
		}},
		{name: "account at A", out: account(gen.AccID(0xa1), A, amt, 0, 1), target: A, support: true, cont: func() iotago.Output { return account(gen.AccID(0xa1), A, amt, 0, 1) }},
		{name: "fresh account at B", out: account(iotago.AccountID{}, B, amt, 0, 0), target: B, support: true, cont: func() iotago.Output { return account(iotago.AccountID(digest32(idOf(5))), B, amt, 0, 0) }},
		{name: "nft at A", out: nft(gen.NFTID(0xb1), A, amt, 0), target: A, support: true, cont: func() iotago.Output { return nft(gen.NFTID(0xb1), A, amt, 0) }},
		{name: "fresh nft at B", out: nft(iotago.NFTID{}, B, amt, 0), target: B, support: true, cont: func() iotago.Output { return nft(iotago.NFTID(digest32(idOf(7))), B, amt, 0) }},
		{name: "anchor at A", out: anchor(gen.AncID(0xc1), A, B, amt, 0, 3), target: A, support: true, cont: func() iotago.Output { return anchor(gen.AncID(0xc1), A, B, amt, 0, 4) }},
		{name: "fresh anchor at B", out: anchor(iotago.AnchorID{}, B, A, amt, 0, 0), target: B, support: true, cont: func() iotago.Output { return anchor(iotago.AnchorID(digest32(idOf(9))), B, A, amt, 0, 1) }},
		{name: "basic of account", out: basic(gen.AccAddr(0xa1), amt, 0), target: gen.AccAddr(0xa1), support: true},
		{name: "basic of fresh account", out: basic(accF, amt, 0), target: accF, support: true},
		{name: "basic of nft", out: basic(gen.NFTAddr(0xb1), amt, 0), target: gen.NFTAddr(0xb1), support: true},
		{name: "basic of fresh nft", out: basic(nftF, amt, 0), target: nftF, support: true},
		{name: "basic of anchor", out: basic(gen.AncAddr(0xc1), amt, 0), target: gen.AncAddr(0xc1), support: true},
		{name: "basic of fresh anchor", out: basic(ancF, amt, 0), target: ancF, support: true},
		{name: "foundry", out: foundry(gen.AccID(0xa1), amt, 1, 10, 0, 100), target: gen.AccAddr(0xa1), support: true, cont: func() iotago.Output { return foundry(gen.AccID(0xa1), amt, 1, 10, 0, 100) }},
		{name: "delegation with reward", out: delegation(iotago.DelegationID{}, A, amt, amt, val, 1, 0), target: A, support: true, reward: true},
		{name: "basic expired to B", out: basic(A, amt, 0, ucExp(B, 10)), target: B, support: true},
		{name: "nft of account", out: nft(gen.NFTID(0xb2), gen.AccAddr(0xa1), amt, 0), target: gen.AccAddr(0xa1), support: true, cont: func() iotago.Output { return nft(gen.NFTID(0xb2), gen.AccAddr(0xa1), amt, 0) }},
		{name: "basic of nft of account", out: basic(gen.NFTAddr(0xb2), amt, 0), target: gen.NFTAddr(0xb2), support: true},
		{name: "basic of restricted account", out: basic(gen.Restricted(gen.AccAddr(0xa1), 0xff), amt, 0), target: gen.Restricted(gen.AccAddr(0xa1), 0xff), support: true},
		{name: "basic multi", out: basic(gen.Multi(1, A, B), amt, 0), target: gen.Multi(1, A, B)},
		{name: "basic foreign", out: basic(gen.Ed(7), amt, 0), target: gen.Ed(7)},
	}
	names := []string{"-"}
	for _, k := range kinds {
		names = append(names, k.name)
	}
	signer := signerOf(4)
	depth := core.Pick(x, 3, 4)
	var ds []core.Dim
	for i := 0; i < depth; i++ {
		ds = append(ds, core.DL(fmt.Sprintf("input %d", i), names...))
	}
	x.Product("contents and unlocks", ds, func(v []int, c *core.C) {
		seen, ended := map[int]bool{}, false
		cs := &Case{E: e, Slot: slot, Commit: commit, Caps: allCaps(), BIC: map[iotago.AccountID]int64{}, Rewards: map[int]uint64{}}
		var targets []iotago.Address
		support := true
		var rest uint64
		for i, k := range v {
			if k == 0 {
				ended = true
				continue
			}
			k--
			if ended || seen[k] {
				c.Skip()
				return
			}
			seen[k] = true
			in := kinds[k]
			cs.Ins = append(cs.Ins, In{idOf(k), in.out.Clone()})
			targets = append(targets, in.target)
			support = support && in.support
			if in.cont != nil {
				cs.Outs = append(cs.Outs, in.cont())
			} else {
				rest += amt
			}
			if in.reward {
				cs.Rewards[i] = 12
			}
			if k == 3 {
				cs.BIC[iotago.AccountID(digest32(idOf(3)))] = 0
			}
		}
		if len(cs.Ins) == 0 {
			c.Skip()
			return
		}
		if rest > 0 {
			cs.Outs = append(cs.Outs, basic(B, rest, 0, fMeta("rest")))
		}
		if len(v)%2 == 0 {
			cs.Payload = &iotago.TaggedData{Tag: []byte("t"), Data: []byte("data")}
		}
		p29build(c, cs, signer, targets, support)
	})
}

// p29build builds the case and judges the result against the honestly signed transaction with the same contents.
func p29build(c *core.C, cs *Case, signer iotago.AddressSigner, targets []iotago.Address, support bool) {
	e := cs.E
	res := cs.Resolved()
	want := sortedTx(cs.Tx())
	honestTx := &iotago.SignedTransaction{API: e.API, Transaction: want, Unlocks: cs.Honest(want, res)}
	_, unlockable := e.P.Unlock(honestTx, res)
	b := builderFor(cs, signer, targets)
	stx, err := b.Build()
	c.Step(1)
	if err != nil {
		c.Check(!(support && unlockable == ""), "refused", "the builder refuses inputs its signer can unlock (%s): %v", describe(cs), err)
		blk, berr := b.BuildAndSwapToBlockBuilder(nil).Build()
		c.Check(berr != nil && blk == nil, "swap after error", "a block was built from a failed transaction")
		c.Outcome("refused")
		return
	}
	c.Check(support, "unsupported", "the builder built a transaction with an input it has no key for: %s", describe(cs))
	if !c.Check(bytes.Equal(ref.Enc(stx.Transaction), ref.Enc(want)), "contents", "built transaction %x differs from the requested %x", ref.Enc(stx.Transaction), ref.Enc(want)) {
		return
	}
	got := JudgeTx(c, e, stx, res)
	if unlockable == "" && !c.Failed() {
		un, _ := e.P.Unlock(honestTx, res)
		hv := ""
		if hv = e.P.SyntaxSigned(honestTx); hv == "" {
			hv = e.P.Execute(want, res, un)
		}
		if hv == "" {
			c.Check(got.Stage == "", "invalid", "the built transaction is not accepted (%s), a correctly signed one is: %s", got, describe(cs))
			c.Outcome("valid")
		} else {
			c.Check(got.Stage != "unlock", "unlocks", "the built unlocks are wrong: %s", got)
			c.Outcome("invalid contents: " + hv)
		}
	}
	// building again and through the block builder gives the same
	again, err := b.Build()
	c.Check(err == nil && bytes.Equal(ref.Enc(again), ref.Enc(stx)), "again", "building twice gives different transactions (%v)", err)
	called := 0
	blk, err := b.BuildAndSwapToBlockBuilder(func(tx *iotago.SignedTransaction) { called++ }).Build()
	if c.Check(err == nil && called == 1, "swap", "swap to block builder: %v, callback called %d times", err, called) {
		p := blk.Body.(*iotago.BasicBlockBody).Payload
		c.Check(p != nil && bytes.Equal(ref.Enc(p), ref.Enc(stx)), "swap payload", "the block carries another transaction")
	}
}

// ---- mana -------------------------------------------------------------------------------------------------------

type manaLeft struct {
	bound   map[iotago.AccountID]*big.Int
	unbound *big.Int
}

// lockedTo is the account an output's mana stays bound to.
func lockedTo(e *gen.Env, o iotago.Output, slot uint32) (iotago.AccountID, bool) {
	if a, ok := o.(*iotago.AccountOutput); ok {
		return a.AccountID, true
	}
	var tl *iotago.TimelockUnlockCondition
	var ad *iotago.AccountAddress
	for _, u := range ref.UCs(o) {
		switch x := u.(type) {
		case *iotago.TimelockUnlockCondition:
			tl = x
		case *iotago.AddressUnlockCondition:
			ad, _ = x.Address.(*iotago.AccountAddress)
		}
	}
	if tl == nil || ad == nil || uint64(tl.Slot) <= uint64(slot)+2*uint64(e.P.MaxCA) {
		return iotago.AccountID{}, false
	}
	return iotago.AccountID(*ad), true
}

// availableMana is the mana of the inputs: bound to accounts and unbound (with the rewards). nil: undefined or too much.
func availableMana(cs *Case) *manaLeft {
	l := &manaLeft{map[iotago.AccountID]*big.Int{}, new(big.Int)}
	total := new(big.Int)
	for _, in := range cs.Ins {
		from := uint32(ref.SlotOf(in.ID))
		s, ok := cs.E.P.DecaySlots(new(big.Int).SetUint64(uint64(ref.StoredMana(in.Out))), from, cs.Slot)
		g, ok2 := cs.E.P.Potential(in.Out, from, cs.Slot)
		if !ok || !ok2 {
			return nil
		}
		s = new(big.Int).Add(s, g)
		total.Add(total, s)
		var acc iotago.AccountID
		bound := false
		if a, is := in.Out.(*iotago.AccountOutput); is {
			acc, bound = a.AccountID, true
			if acc == (iotago.AccountID{}) {
				acc = iotago.AccountID(digest32(in.ID))
			}
		} else if ref.IsImplicit(in.Out) {
			acc, bound = iotago.AccountID(digest32(in.ID)), true
		}
		if !bound {
			l.unbound.Add(l.unbound, s)
			continue
		}
		if l.bound[acc] == nil {
			l.bound[acc] = new(big.Int)
		}
		l.bound[acc].Add(l.bound[acc], s)
	}
	for _, r := range cs.Rewards {
		l.unbound.Add(l.unbound, new(big.Int).SetUint64(r))
		total.Add(total, new(big.Int).SetUint64(r))
	}
	if total.BitLen() > 64 {
		return nil
	}
	return l
}

// remainingMana is what outputs and allotments leave over, nil if they take more than there is.
func remainingMana(cs *Case) *manaLeft {
	l := availableMana(cs)
	if l == nil {
		return nil
	}
	outs := map[iotago.AccountID]*big.Int{}
	free := new(big.Int)
	for _, o := range cs.Outs {
		m := new(big.Int).SetUint64(uint64(ref.StoredMana(o)))
		if acc, ok := lockedTo(cs.E, o, cs.Slot); ok {
			if outs[acc] == nil {
				outs[acc] = new(big.Int)
			}
			outs[acc].Add(outs[acc], m)
		} else {
			free.Add(free, m)
		}
	}
	for _, a := range cs.Allot {
		if outs[a.AccountID] == nil {
			outs[a.AccountID] = new(big.Int)
		}
		outs[a.AccountID].Add(outs[a.AccountID], new(big.Int).SetUint64(uint64(a.Mana)))
	}
	l.unbound.Sub(l.unbound, free)
	for acc, m := range outs {
		b := l.bound[acc]
		if b == nil {
			l.unbound.Sub(l.unbound, m)
			continue
		}
		b.Sub(b, m)
		if b.Sign() < 0 {
			l.unbound.Add(l.unbound, b)
			b.SetInt64(0)
		}
	}
	if l.unbound.Sign() < 0 {
		return nil
	}
	return l
}

func (cs *Case) allot(acc iotago.AccountID, m *big.Int) bool {
	if m.Sign() == 0 {
		return true
	}
	for _, a := range cs.Allot {
		if a.AccountID == acc {
			s := new(big.Int).Add(m, new(big.Int).SetUint64(uint64(a.Mana)))
			a.Mana = iotago.Mana(s.Uint64())
			return s.BitLen() <= 64
		}
	}
	cs.Allot = append(cs.Allot, &iotago.Allotment{AccountID: acc, Mana: iotago.Mana(m.Uint64())})
	return m.BitLen() <= 64
}

// addMana adds stored mana to an output.
func addMana(o iotago.Output, m *big.Int) bool {
	v := iotago.Mana(m.Uint64())
	switch x := o.(type) {
	case *iotago.BasicOutput:
		x.Mana += v
	case *iotago.AccountOutput:
		x.Mana += v
	case *iotago.AnchorOutput:
		x.Mana += v
	case *iotago.NFTOutput:
		x.Mana += v
	default:
		return false
	}
	return true
}

// manaHelper is one request to distribute mana; model returns false if it must fail.
type manaHelper struct {
	name  string
	call  func(b *builder.TransactionBuilder, at map[string]int)
	model func(cs *Case, at map[string]int) (ok, applies bool)
	full  bool // everything is used up
}

func modelAllotBound(cs *Case, except ...iotago.AccountID) (map[iotago.AccountID]*big.Int, bool) {
	l := remainingMana(cs)
	if l == nil {
		return nil, false
	}
	done := map[iotago.AccountID]*big.Int{}
next:
	for acc, m := range l.bound {
		for _, x := range except {
			if x == acc {
				continue next
			}
		}
		done[acc] = m
		cs.allot(acc, m)
	}
	return done, true
}

func modelStore(cs *Case, i int) bool {
	l := remainingMana(cs)
	if l == nil {
		return false
	}
	m := new(big.Int).Set(l.unbound)
	if acc, ok := lockedTo(cs.E, cs.Outs[i], cs.Slot); ok && l.bound[acc] != nil && acc != (iotago.AccountID{}) {
		m.Add(m, l.bound[acc])
	}
	return addMana(cs.Outs[i], m)
}

// modelRequired is the mana cost of a block with the transaction and an allotment for the issuer.
func modelRequired(cs *Case, rmc uint64, issuer iotago.AccountID) *big.Int {
	cp := *cs
	cp.Allot = append(iotago.Allotments{}, cs.Allot...)
	has := false
	for _, a := range cp.Allot {
		has = has || a.AccountID == issuer
	}
	if !has {
		cp.Allot = append(cp.Allot, &iotago.Allotment{AccountID: issuer, Mana: 1})
	}
	tx := cp.Tx()
	stx := &iotago.SignedTransaction{API: cs.E.API, Transaction: tx, Unlocks: cp.Honest(tx, cp.Resolved())}
	n, _ := ref.PartsOf(stx)
	w := n.Cost(cs.E.API.ProtocolParameters().WorkScoreParameters())
	return w.Mul(w, new(big.Int).SetUint64(rmc))
}

func p29mana(x *core.Ctx, e *gen.Env) {
	const slot, commit, born = 40, 38, 29
	const amt = 120000
	accA, accB, accZ := gen.AccID(0xa1), gen.AccID(0xa2), gen.AccID(0xee)
	idOf := func(k int) iotago.OutputID { return gen.OutID(byte(0x30+k), born, uint16(k)) }
	accF, accI := iotago.AccountID(digest32(idOf(2))), iotago.AccountID(digest32(idOf(5)))
	O := gen.Ed(0)
	val := gen.AccAddr(0x77)
	signer := signerOf(4)
	roles := []string{"U", "A", "F", "B", "N", "I", "D", "T"}
	ids := map[string]iotago.AccountID{"A": accA, "B": accB, "F": accF, "I": accI, "Z": accZ}

	var hs []manaHelper
	hs = append(hs, manaHelper{name: "none", call: func(*builder.TransactionBuilder, map[string]int) {}, model: func(cs *Case, _ map[string]int) (bool, bool) { return true, true }})
	for _, n := range []string{"A", "F", "I", "Z"} {
		for _, min := range []uint64{0, 1, 1 << 40} {
			if min == 1 && n != "Z" {
				continue
			}
			acc, min, n := ids[n], min, n
			hs = append(hs, manaHelper{fmt.Sprintf("allot all to %s, at least %d", n, min), func(b *builder.TransactionBuilder, _ map[string]int) {
				b.AllotAllMana(slot, acc, iotago.Mana(min))
			}, func(cs *Case, at map[string]int) (bool, bool) {
				l := remainingMana(cs)
				if l == nil {
					return false, true
				}
				sum := new(big.Int).Set(l.unbound)
				for a, m := range l.bound {
					if a == acc {
						sum.Add(sum, m)
					}
					cs.allot(a, m)
				}
				cs.allot(acc, l.unbound)
				return sum.Cmp(new(big.Int).SetUint64(min)) >= 0, true
			}, true})
		}
	}
	stores := []string{"rest", "A", "F", "I", "N", "lock", "del"}
	for _, r := range stores {
		r := r
		hs = append(hs, manaHelper{"store in " + r, func(b *builder.TransactionBuilder, at map[string]int) {
			b.StoreRemainingManaInOutputAndAllotRemainingAccountBoundMana(slot, at[r])
		}, func(cs *Case, at map[string]int) (bool, bool) {
			i, has := at[r]
			if !has {
				return false, false
			}
			return modelStoreAll(cs, i), true
		}, true})
	}
	for _, r := range []string{"rest", "A", "N"} {
		for _, is := range []string{"A", "I", "Z"} {
			for _, rmc := range core.Pick(x, []uint64{1, 5000000}, []uint64{0, 1, 10, 5000000, math.MaxUint64}) {
				r, is, acc, rmc := r, is, ids[is], rmc
				hs = append(hs, manaHelper{fmt.Sprintf("allot block cost at %d to %s, store in %s", rmc, is, r), func(b *builder.TransactionBuilder, at map[string]int) {
					b.AllotMinRequiredManaAndStoreRemainingManaInOutput(slot, iotago.Mana(rmc), acc, at[r])
				}, func(cs *Case, at map[string]int) (bool, bool) {
					i, has := at[r]
					if !has {
						return false, false
					}
					if !storable(cs.Outs[i]) {
						return false, true
					}
					keep, _ := lockedTo(cs.E, cs.Outs[i], cs.Slot)
					done, ok := modelAllotBound(cs, keep)
					if !ok {
						return false, true
					}
					need := modelRequired(cs, rmc, acc)
					if need.BitLen() > 64 {
						return false, true
					}
					if d := done[acc]; d != nil {
						need.Sub(need, d)
					}
					if need.Sign() > 0 && !cs.allot(acc, need) {
						return false, true
					}
					return modelStore(cs, i), true
				}, true})
			}
		}
	}
	hs = append(hs, manaHelper{"allot bound except A, then all to Z", func(b *builder.TransactionBuilder, _ map[string]int) {
		b.AllotRemainingAccountBoundMana(slot, nil, accA).AllotAllMana(slot, accZ, 0)
	}, func(cs *Case, _ map[string]int) (bool, bool) {
		if _, ok := modelAllotBound(cs, accA); !ok {
			return false, true
		}
		l := remainingMana(cs)
		if l == nil {
			return false, true
		}
		for a, m := range l.bound {
			cs.allot(a, m)
		}
		cs.allot(accZ, l.unbound)
		return true, true
	}, true})
	hs = append(hs, manaHelper{"allot bound", func(b *builder.TransactionBuilder, _ map[string]int) {
		b.AllotRemainingAccountBoundMana(slot, nil)
	}, func(cs *Case, _ map[string]int) (bool, bool) {
		_, ok := modelAllotBound(cs)
		return ok, true
	}, false})
	var hn []string
	for _, h := range hs {
		hn = append(hn, h.name)
	}

	masks := seq(1 << 7)
	if x.Thorough() {
		masks = seq(1 << 8)
	}
	var mn []string
	for _, m := range masks {
		s := ""
		for i, r := range roles {
			if m>>i&1 == 1 {
				s += r
			}
		}
		mn = append(mn, "inputs "+s)
	}
	asks := []string{"nothing", "some to A", "some to the rest", "too much for A's own", "too much", "B's mana to the rest"}
	locks := []string{"none", "locked", "locked one slot too short"}
	pre := []string{"none", "A", "Z", "A and Z", "F"}
	x.Product("mana distribution", []core.Dim{core.DL("inputs", mn...), core.DL("asked", core.Pick(x, asks[:4], asks)...), core.DL("locked output", locks...), core.DL("allotted before", core.Pick(x, pre[:4], pre)...), core.DL("request", hn...)}, func(v []int, c *core.C) {
		mask, ask, lock, pr, h := masks[v[0]], v[1], v[2], v[3], hs[v[4]]
		if !x.Thorough() && (lock > 0 && pr > 1 || ask > 1 && pr > 0) {
			c.Skip()
			return
		}
		has := func(i int) bool { return mask>>i&1 == 1 }
		if mask == 0 || ask == 1 && !has(1) || ask == 3 && !has(1) {
			c.Skip()
			return
		}
		build := func() (*Case, map[string]int) {
			cs := &Case{E: e, Slot: slot, Commit: commit, BIC: map[iotago.AccountID]int64{}, Rewards: map[int]uint64{}}
			at := map[string]int{}
			in := func(k int, o iotago.Output) { cs.Ins = append(cs.Ins, In{idOf(k), o}) }
			out := func(r string, o iotago.Output) { at[r] = len(cs.Outs); cs.Outs = append(cs.Outs, o) }
			var amana uint64
			if ask == 1 {
				amana = 60
			} else if ask == 3 {
				amana = 30000
			} else if ask == 4 {
				amana = 1 << 50
			}
			rest := uint64(0)
			if has(0) {
				in(0, basic(O, amt, 5000))
				rest += amt
			}
			if has(1) {
				in(1, account(accA, O, amt, 700, 0, fBI(math.MaxUint32)))
				out("A", account(accA, O, amt, amana, 0, fBI(math.MaxUint32)))
				cs.BIC[accA] = 0
			}
			if has(2) {
				in(2, account(iotago.AccountID{}, O, amt, 311, 0, fBI(math.MaxUint32)))
				out("F", account(accF, O, amt, 0, 0, fBI(math.MaxUint32)))
				cs.BIC[accF] = 0
			}
			if has(3) {
				in(3, account(accB, O, amt, 900, 0))
				out("B", account(accB, O, amt, 0, 0))
			}
			if has(4) {
				in(4, nft(gen.NFTID(0xb1), O, amt, 77))
				out("N", nft(gen.NFTID(0xb1), O, amt, 0))
			}
			if has(5) {
				in(5, basic(gen.Implicit(0), amt, 450))
				out("I", account(accI, O, amt, 0, 0, fBI(math.MaxUint32)))
				cs.BIC[accI] = 0
			}
			if has(6) {
				cs.Rewards[len(cs.Ins)] = 3333
				in(6, delegation(gen.DelID(0xd1), O, amt, amt, val, 1, 2))
				rest += amt
			}
			if has(7) {
				in(7, delegation(iotago.DelegationID{}, gen.Ed(1), amt, amt, val, 6, 0))
				out("del", delegation(iotago.DelegationID(digest32(idOf(7))), gen.Ed(1), amt, amt, val, 6, 5))
			}
			if lock > 0 && rest > 0 {
				sl := uint32(slot + 2*e.P.MaxCA + 1)
				if lock == 2 {
					sl--
				}
				out("lock", basic(gen.AccAddr(0xa1), 50000, 40, ucTL(sl)))
				rest -= 50000
			}
			if rest > 0 {
				var m uint64
				switch ask {
				case 2:
					m = 90
				case 5:
					m = 6000
				}
				out("rest", basic(O, rest, m))
			}
			al := func(a iotago.AccountID, m iotago.Mana) {
				cs.Allot = append(cs.Allot, &iotago.Allotment{AccountID: a, Mana: m})
			}
			if pr == 1 || pr == 3 {
				al(accA, 55)
			}
			if pr == 2 || pr == 3 {
				al(accZ, 21)
			}
			if pr == 4 {
				al(accF, 400)
			}
			return cs, at
		}
		cs, at := build()
		want, wat := build()
		if lock > 0 && cs.Outs != nil && at["lock"] == 0 && len(wat) > 0 {
			if _, ok := at["lock"]; !ok {
				c.Skip()
				return
			}
		}
		ok, applies := h.model(want, wat)
		if !applies {
			c.Skip()
			return
		}
		res := cs.Resolved()
		var targets []iotago.Address
		tx0 := cs.Tx()
		for _, in := range cs.Ins {
			a, _ := e.P.Owner(tx0, in.Out, in.ID, res)
			targets = append(targets, a)
		}
		b := builderFor(cs, signer, targets)
		var stx *iotago.SignedTransaction
		var err error
		// the availability report
		if av, err := b.CalculateAvailableManaInputs(slot); c.Check((err == nil) == (availableMana(cs) != nil), "available", "available mana: %v", err) && err == nil {
			p29avail(c, cs, av, availableMana(cs), "available")
			pot, sto := new(big.Int), new(big.Int)
			for _, in := range cs.Ins {
				s, _ := e.P.DecaySlots(new(big.Int).SetUint64(uint64(ref.StoredMana(in.Out))), born, slot)
				g, _ := e.P.Potential(in.Out, born, slot)
				pot.Add(pot, g)
				sto.Add(sto, s)
			}
			c.Check(uint64(av.PotentialMana) == pot.Uint64() && uint64(av.StoredMana) == sto.Uint64(), "available parts", "potential %d stored %d instead of %v and %v", av.PotentialMana, av.StoredMana, pot, sto)
		}
		left := remainingMana(cs)
		av, err := b.CalculateAvailableManaRemaining(slot)
		if c.Check((err == nil) == (left != nil), "remaining", "remaining mana: %v, model: %v", err, left) && err == nil {
			p29avail(c, cs, av, left, "remaining")
		}
		if p := core.Panics(func() { h.call(b, at); stx, err = b.Build() }); p != "" {
			c.Fail("panic", "%s: %s", h.name, p)
			return
		}
		c.Step(1)
		if !c.Check((err == nil) == ok, "request", "%s: model expects success %v, got %v", h.name, ok, err) || err != nil {
			c.Outcome("error")
			return
		}
		wtx := sortedTx(want.Tx())
		if !c.Check(bytes.Equal(ref.Enc(stx.Transaction), ref.Enc(wtx)), "distribution", "%s: mana went elsewhere: %s instead of %s", h.name, manaOf(stx.Transaction), manaOf(wtx)) {
			return
		}
		verdict := JudgeTx(c, e, stx, res)
		if h.full {
			in, why := e.P.ManaIn(wtx, res)
			if c.Check(why == "" && in.Cmp(ref.ManaOut(stx.Transaction)) == 0, "balance", "%s: %v mana in, %v out", h.name, in, ref.ManaOut(stx.Transaction)) && !c.Failed() {
				c.Check(verdict.Stage == "", "not accepted", "%s: the transaction is rejected: %s", h.name, verdict)
			}
		}
		c.Outcome(strings.SplitN(h.name, " ", 2)[0] + " " + verdict.String())
	})
}

func storable(o iotago.Output) bool {
	switch o.(type) {
	case *iotago.BasicOutput, *iotago.AccountOutput, *iotago.AnchorOutput, *iotago.NFTOutput:
		return true
	}
	return false
}

func modelStoreAll(cs *Case, i int) bool {
	if !storable(cs.Outs[i]) {
		return false
	}
	keep, _ := lockedTo(cs.E, cs.Outs[i], cs.Slot)
	if _, ok := modelAllotBound(cs, keep); !ok {
		return false
	}
	return modelStore(cs, i)
}

func p29avail(c *core.C, cs *Case, av *builder.AvailableManaResult, l *manaLeft, what string) {
	c.Check(uint64(av.UnboundMana) == l.unbound.Uint64(), what+" unbound", "%s unbound mana %d instead of %v", what, av.UnboundMana, l.unbound)
	for acc, m := range av.AccountBoundMana {
		w := l.bound[acc]
		if w == nil {
			w = new(big.Int)
		}
		c.Check(uint64(m) == w.Uint64(), what+" bound", "%s mana bound to %x is %d instead of %v", what, acc[:4], m, w)
	}
	for acc, m := range l.bound {
		if m.Sign() > 0 {
			c.Check(uint64(av.AccountBoundMana[acc]) == m.Uint64(), what+" bound", "%s mana bound to %x is %d instead of %v", what, acc[:4], av.AccountBoundMana[acc], m)
		}
	}
}

func manaOf(tx *iotago.Transaction) string {
	var sb strings.Builder
	for i, o := range tx.Outputs {
		fmt.Fprintf(&sb, "out%d=%d ", i, ref.StoredMana(o))
	}
	for _, a := range tx.TransactionEssence.Allotments {
		fmt.Fprintf(&sb, "allot %x=%d ", a.AccountID[:4], a.Mana)
	}
	return sb.String()
}

// p29edges: sums beyond 64 bits, outputs that do not exist, slots before the inputs.
func p29edges(x *core.Ctx, e *gen.Env) {
	const slot = 40
	big63, top := uint64(1)<<63, uint64(math.MaxUint64)
	vals := []uint64{0, 1, big63 - 1, big63, top - 1, top}
	acc := gen.AccID(0xa1)
	reqs := []string{"build only", "allot all", "store in 0", "store in 1", "store in -1", "store in 2", "store in max", "block cost, store in 0", "block cost, store in -1"}
	kinds := []string{"basic", "account", "nft"}
	x.Product("mana sums and missing outputs", []core.Dim{core.DL("first input", lab(vals)...), core.DL("second input", lab(vals)...), core.DL("kind of the second", kinds...), core.DL("reward", lab(vals)...), core.DL("second reward", lab(vals)...), core.DL("request", reqs...), core.DL("created", "same slot", "a later slot")}, func(v []int, c *core.C) {
		if !x.Thorough() && (v[4] > 0 && v[2] > 0 || v[6] > 0 && v[3]+v[4] > 0 || v[4] > 0 && v[0] > 1) {
			c.Skip()
			return
		}
		make := func() *Case {
			cs := &Case{E: e, Slot: slot, Commit: -1, Rewards: map[int]uint64{}}
			in := uint32(slot)
			if v[6] == 1 {
				in++
			}
			cs.AddAt(basic(gen.Ed(0), 10000, vals[v[0]]), in)
			switch v[2] {
			case 0:
				cs.AddAt(basic(gen.Ed(0), 10000, vals[v[1]]), slot)
			case 1:
				cs.AddAt(account(acc, gen.Ed(0), 10000, vals[v[1]], 0), slot)
			case 2:
				cs.AddAt(nft(gen.NFTID(5), gen.Ed(0), 10000, vals[v[1]]), slot)
			}
			cs.Rewards[0], cs.Rewards[1] = vals[v[3]], vals[v[4]]
			cs.Outs = append(cs.Outs, basic(gen.Ed(1), 10000, 0), account(acc, gen.Ed(0), 10000, 0, 0))
			return cs
		}
		cs, want := make(), make()
		b := builderFor(cs, signerOf(1), []iotago.Address{gen.Ed(0), gen.Ed(0)})
		ok := true
		all := func(i int) bool { return i >= 0 && i < 2 && modelStoreAll(want, i) }
		var stx *iotago.SignedTransaction
		var err error
		if p := core.Panics(func() {
			switch v[5] {
			case 1:
				b.AllotAllMana(slot, acc, 0)
				l := remainingMana(want)
				if ok = l != nil; ok {
					for a, m := range l.bound {
						want.allot(a, m)
					}
					want.allot(acc, l.unbound)
				}
			case 2, 3, 4, 5, 6:
				i := []int{0, 1, -1, 2, math.MaxInt}[v[5]-2]
				b.StoreRemainingManaInOutputAndAllotRemainingAccountBoundMana(slot, i)
				ok = all(i)
			case 7, 8:
				i := []int{0, -1}[v[5]-7]
				b.AllotMinRequiredManaAndStoreRemainingManaInOutput(slot, 0, acc, i)
				ok = all(i)
			}
			stx, err = b.Build()
		}); p != "" {
			c.Fail("panic", "%s: %s", reqs[v[5]], p)
			return
		}
		if v[5] == 0 {
			c.Outcome("build only")
			return
		}
		if !c.Check((err == nil) == ok, "sum "+strings.Fields(reqs[v[5]])[0], "%s: model expects success %v, got %v", reqs[v[5]], ok, err) || !ok {
			c.Outcome("error")
			return
		}
		wtx := sortedTx(want.Tx())
		c.Check(bytes.Equal(ref.Enc(stx.Transaction), ref.Enc(wtx)), "sum distribution", "%s: %s instead of %s", reqs[v[5]], manaOf(stx.Transaction), manaOf(wtx))
		c.Outcome("distributed")
	})

	x.Product("allotment sums", []core.Dim{core.DL("first", lab(vals)...), core.DL("second", lab(vals)...), core.DL("third", lab(vals)...), core.DL("third to", "same account", "another")}, func(v []int, c *core.C) {
		cs := &Case{E: e, Slot: slot, Commit: -1}
		cs.Add(basic(gen.Ed(0), 10000, 0))
		cs.Outs = append(cs.Outs, basic(gen.Ed(1), 10000, 0))
		b := builderFor(cs, signerOf(1), []iotago.Address{gen.Ed(0)})
		ok := true
		for i, w := range v[:3] {
			to := acc
			if i == 2 && v[3] == 1 {
				to = gen.AccID(0x02)
			}
			b.IncreaseAllotment(to, iotago.Mana(vals[w]))
			ok = cs.allot(to, new(big.Int).SetUint64(vals[w])) && ok
		}
		stx, err := b.Build()
		c.Step(1)
		if !c.Check((err == nil) == ok, "allotment sum", "allotments %d %d %d: model expects success %v, got %v", vals[v[0]], vals[v[1]], vals[v[2]], ok, err) || !ok {
			c.Outcome("too much")
			return
		}
		c.Check(bytes.Equal(ref.Enc(stx.Transaction), ref.Enc(sortedTx(cs.Tx()))), "allotment", "allotments differ: %s", manaOf(stx.Transaction))
		c.Outcome("fits")
	})
	if _, err := builder.NewTransactionBuilder(e.API, nil).Build(); err == nil {
		x.Violation("no signer", "a transaction was built without a signer", core.Replay{})
	}
}

// p29history: calls, clones and builds in every order; a built transaction never changes again.
func p29history(x *core.Ctx, e *gen.Env) {
	ev := []string{"input", "output", "account output", "allot A", "allot B", "commitment", "credit input", "reward", "slot", "capabilities", "payload", "store remaining", "allot all", "build", "clone", "switch"}
	depth := core.Pick(x, 4, 5)
	var ds []core.Dim
	for i := 0; i < depth; i++ {
		ds = append(ds, core.DL(fmt.Sprintf("call %d", i), ev...))
	}
	type pair struct {
		b    *builder.TransactionBuilder
		cs   *Case
		fail bool
	}
	x.Product("histories of calls, clones and builds", ds, func(v []int, c *core.C) {
		fresh := func() *pair {
			cs := &Case{E: e, Slot: 40, Commit: -1, NoAuto: true, Rewards: map[int]uint64{}}
			return &pair{builderFor(cs, signerOf(1), nil), cs, false}
		}
		cur, other := fresh(), (*pair)(nil)
		// a builder with an input and an output to begin with
		start := func(p *pair) {
			id := p.cs.AddAt(basic(gen.Ed(0), 5000, 900), 40)
			p.b.AddInput(&builder.TxInput{UnlockTarget: gen.Ed(0), InputID: id, Input: basic(gen.Ed(0), 5000, 900)})
			p.b.AddOutput(basic(gen.Ed(1), 5000, 3))
			p.cs.Outs = append(p.cs.Outs, basic(gen.Ed(1), 5000, 3))
		}
		start(cur)
		type built struct {
			stx *iotago.SignedTransaction
			raw []byte
		}
		var done []built
		build := func(p *pair, what string) {
			stx, err := p.b.Build()
			c.Step(1)
			if !c.Check((err == nil) == !p.fail, "history error", "%s: model expects failure %v, got %v", what, p.fail, err) || err != nil {
				return
			}
			want := sortedTx(p.cs.clone().Tx())
			c.Check(bytes.Equal(ref.Enc(stx.Transaction), ref.Enc(want)), "history contents", "%s: built %x instead of %x", what, ref.Enc(stx.Transaction), ref.Enc(want))
			done = append(done, built{stx, ref.Enc(stx)})
		}
		for i, k := range v {
			p := cur
			switch ev[k] {
			case "input":
				o := basic(gen.Ed(0), 5000, uint64(10+i))
				id := p.cs.AddAt(basic(gen.Ed(0), 5000, uint64(10+i)), 40)
				p.b.AddInput(&builder.TxInput{UnlockTarget: gen.Ed(0), InputID: id, Input: o})
			case "output":
				p.b.AddOutput(basic(gen.Ed(2), uint64(5000+i), 1))
				p.cs.Outs = append(p.cs.Outs, basic(gen.Ed(2), uint64(5000+i), 1))
			case "account output":
				p.b.AddOutput(account(iotago.AccountID{}, gen.Ed(2), uint64(5000+i), 0, 0, fBI(77), fMeta("x")))
				p.cs.Outs = append(p.cs.Outs, account(iotago.AccountID{}, gen.Ed(2), uint64(5000+i), 0, 0, fBI(77), fMeta("x")))
			case "allot A", "allot B":
				acc := gen.AccID(byte(0xb0 - k))
				p.b.IncreaseAllotment(acc, iotago.Mana(7+i))
				p.cs.allot(acc, big.NewInt(int64(7+i)))
			case "commitment":
				for _, x := range p.cs.Ctx {
					if _, is := x.(*iotago.CommitmentInput); is {
						c.Skip() // one at most
						return
					}
				}
				ci := func() *iotago.CommitmentInput {
					return &iotago.CommitmentInput{CommitmentID: iotago.CommitmentID(commitID(byte(i), 33))}
				}
				p.b.AddCommitmentInput(ci())
				p.cs.Ctx = append(p.cs.Ctx, ci())
			case "credit input":
				bi := func() *iotago.BlockIssuanceCreditInput {
					return &iotago.BlockIssuanceCreditInput{AccountID: gen.AccID(byte(0xd0 - i))}
				}
				p.b.AddBlockIssuanceCreditInput(bi())
				p.cs.Ctx = append(p.cs.Ctx, bi())
			case "reward":
				p.b.AddRewardInput(&iotago.RewardInput{Index: uint16(9 - i)}, 13)
				p.cs.Ctx = append(p.cs.Ctx, &iotago.RewardInput{Index: uint16(9 - i)})
				p.cs.Rewards[100+i] = 13
			case "slot":
				p.b.SetCreationSlot(iotago.SlotIndex(41 + i))
				p.cs.Slot = uint32(41 + i)
				c.Check(p.b.CreationSlot() == iotago.SlotIndex(41+i), "slot", "creation slot %d", p.b.CreationSlot())
			case "capabilities":
				p.b.WithTransactionCapabilities(iotago.TransactionCapabilitiesBitMask(caps(uint(i))))
				p.cs.Caps = caps(uint(i))
			case "payload":
				p.b.AddTaggedDataPayload(&iotago.TaggedData{Tag: []byte{byte(i)}, Data: []byte{1, 2}})
				p.cs.Payload = &iotago.TaggedData{Tag: []byte{byte(i)}, Data: []byte{1, 2}}
			case "store remaining":
				p.b.StoreRemainingManaInOutputAndAllotRemainingAccountBoundMana(iotago.SlotIndex(p.cs.Slot), 0)
				p.fail = !modelStoreAll(p.cs, 0) || p.fail
			case "allot all":
				p.b.AllotAllMana(iotago.SlotIndex(p.cs.Slot), gen.AccID(0x66), 0)
				if l := remainingMana(p.cs); l == nil {
					p.fail = true
				} else {
					p.cs.allot(gen.AccID(0x66), l.unbound)
				}
			case "build":
				build(p, "build")
			case "clone":
				if p.fail {
					c.Skip()
					return
				}
				other = &pair{p.b.Clone(), p.cs.clone(), p.fail}
			case "switch":
				if other == nil {
					c.Skip()
					return
				}
				cur, other = other, cur
			}
			for j, d := range done {
				if !c.Check(bytes.Equal(ref.Enc(d.stx), d.raw), "built changed "+ev[k], "%q changes the transaction built as number %d: %x became %x", ev[k], j, d.raw, ref.Enc(d.stx)) {
					return
				}
			}
		}
		build(cur, "in the end")
		if other != nil {
			build(other, "the other builder in the end")
		}
		c.Outcome(fmt.Sprintf("%d builds, clone %v", len(done), other != nil))
	})
}

func (cs *Case) clone() *Case {
	cp := *cs
	cp.Ins = append([]In{}, cs.Ins...)
	cp.Outs = nil
	for _, o := range cs.Outs {
		switch x := o.(type) {
		case *iotago.BasicOutput:
			y := *x
			cp.Outs = append(cp.Outs, &y)
		case *iotago.AccountOutput:
			y := *x
			cp.Outs = append(cp.Outs, &y)
		default:
			panic("clone")
		}
	}
	cp.Allot = nil
	for _, a := range cs.Allot {
		b := *a
		cp.Allot = append(cp.Allot, &b)
	}
	cp.Rewards = map[int]uint64{}
	for k, v := range cs.Rewards {
		cp.Rewards[k] = v
	}
	cp.Ctx = append(iotago.TxEssenceContextInputs{}, cs.Ctx...)
	return &cp
}
