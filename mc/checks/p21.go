package checks

import (
	"bytes"
	"sort"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P21"] = p21 }

func commitID(b byte, slot uint32) (cid iotago.CommitmentID) {
	copy(cid[:], ref.Fill(b, 32))
	cid[32], cid[33], cid[34], cid[35] = byte(slot), byte(slot>>8), byte(slot>>16), byte(slot>>24)
	return
}

// synTx is a minimal valid signed transaction to mutate.
func synTx(e *gen.Env) *iotago.SignedTransaction { return outTx(e, true, basic(gen.Ed(0), 9000, 0)) }

func sigs(n int) (us iotago.Unlocks) {
	for i := 0; i < n; i++ {
		if i == 0 {
			us = append(us, &iotago.SignatureUnlock{Signature: gen.Sign(0, []byte("x"))})
		} else {
			us = append(us, &iotago.ReferenceUnlock{Reference: 0})
		}
	}
	return
}

func p21(x *core.Ctx) {
	e := gen.NewEnv(ref.Default())
	bound := uint64(1)<<e.P.Bits - 1
	judge := func(c *core.C, stx *iotago.SignedTransaction) {
		JudgeSyntax(c, e, stx, e.P.SyntaxSigned(stx), true)
	}
	in := func(tx byte, idx uint16) *iotago.UTXOInput {
		return &iotago.UTXOInput{TransactionID: gen.TxIDAt(tx, 19), TransactionOutputIndex: idx}
	}
	// inputs
	alpha := []*iotago.UTXOInput{in(1, 0), in(1, 1), in(2, 0), in(1, 127), in(1, 128), in(2, 65535)}
	il := lists(len(alpha), core.Pick(x, 5, 6))
	x.Product("input lists", []core.Dim{core.DL("list", listNames(il)...)}, func(v []int, c *core.C) {
		stx := synTx(e)
		ins := iotago.TxEssenceInputs{}
		for _, k := range il[v[0]] {
			ins = append(ins, alpha[k])
		}
		stx.Transaction.TransactionEssence.Inputs = ins
		stx.Unlocks = sigs(len(ins))
		if len(ins) == 0 {
			stx.Unlocks = sigs(1)
		}
		judge(c, stx)
	})
	x.Product("input counts", []core.Dim{core.DV("inputs", []int{0, 1, 2, 127, 128, 129, 255, 256}), core.DL("duplicate", "none", "first two", "first and last", "last two"), core.DL("unlocks", "same", "one less", "one more", "none"), core.DL("second input position", "same transaction", "different transactions")},
		func(v []int, c *core.C) {
			n := []int{0, 1, 2, 127, 128, 129, 255, 256}[v[0]]
			stx := synTx(e)
			var ins iotago.TxEssenceInputs
			for i := 0; i < n; i++ {
				u := &iotago.UTXOInput{TransactionID: gen.TxIDAt(1, uint32(i/100+1)), TransactionOutputIndex: uint16(i % 100)}
				if v[3] == 1 {
					u = &iotago.UTXOInput{TransactionID: gen.TxIDAt(byte(i), uint32(i))}
				}
				ins = append(ins, u)
			}
			if v[1] > 0 && n < 2 {
				c.Skip()
				return
			}
			cp := func(a, b int) { d := *ins[a].(*iotago.UTXOInput); ins[b] = &d }
			switch v[1] {
			case 1:
				cp(0, 1)
			case 2:
				cp(0, n-1)
			case 3:
				cp(n-2, n-1)
			}
			stx.Transaction.TransactionEssence.Inputs = ins
			k := []int{n, n - 1, n + 1, 0}[v[2]]
			if k < 0 {
				c.Skip()
				return
			}
			stx.Unlocks = sigs(k)
			judge(c, stx)
		})

	// context inputs
	ctxs := []any{&iotago.CommitmentInput{CommitmentID: commitID(0xc0, 18)}, &iotago.CommitmentInput{CommitmentID: commitID(0xc1, 18)}, &iotago.BlockIssuanceCreditInput{AccountID: gen.AccID(0)}, &iotago.BlockIssuanceCreditInput{AccountID: gen.AccID(1)},
		&iotago.BlockIssuanceCreditInput{AccountID: gen.AccID(0xff)}, &iotago.RewardInput{Index: 0}, &iotago.RewardInput{Index: 1}, &iotago.RewardInput{Index: 2}, &iotago.RewardInput{Index: 65535}}
	cl := lists(len(ctxs), 4)
	x.Product("context input lists", []core.Dim{core.DL("list", listNames(cl)...), core.DV("inputs", []int{1, 2, 3}), core.DL("outputs", core.Pick(x, []string{"plain", "delegation"}, []string{"plain", "delegation", "block issuer", "staking"})...)}, func(v []int, c *core.C) {
		stx := synTx(e)
		es := stx.Transaction.TransactionEssence
		es.Inputs = nil
		for i := 0; i <= v[1]; i++ {
			es.Inputs = append(es.Inputs, in(byte(i), uint16(i)))
		}
		stx.Unlocks = sigs(v[1] + 1)
		es.ContextInputs = nil
		for _, k := range cl[v[0]] {
			es.ContextInputs = append(es.ContextInputs, ctxs[k].(iotago.ContextInput))
		}
		switch v[2] {
		case 1:
			stx.Transaction.Outputs = iotago.TxEssenceOutputs{delegation(iotago.DelegationID{}, gen.Ed(0), 9000, 9000, gen.AccAddr(3), 2, 0)}
		case 2:
			stx.Transaction.Outputs = iotago.TxEssenceOutputs{account(gen.AccID(3), gen.Ed(0), 9000, 0, 0, fBI(40))}
		case 3:
			stx.Transaction.Outputs = iotago.TxEssenceOutputs{account(gen.AccID(3), gen.Ed(0), 9000, 0, 0, fBI(40), fStake(1, 1, 1, 9))}
		}
		judge(c, stx)
	})
	x.Product("commitment needed", []core.Dim{core.DL("context", "none", "commitment", "credit only", "commitment and credit", "reward only"), core.DL("output 0", "plain", "delegation", "delayed delegation", "block issuer", "staking", "bare account"), core.DL("output 1", "plain", "delegation", "block issuer")}, func(v []int, c *core.C) {
		mk := func(k string, id byte) iotago.TxEssenceOutput {
			switch k {
			case "delegation":
				return delegation(iotago.DelegationID{}, gen.Ed(0), 9000, 9000, gen.AccAddr(3), 2, 0)
			case "delayed delegation":
				return delegation(gen.DelID(id), gen.Ed(0), 9000, 9000, gen.AccAddr(3), 2, 7)
			case "block issuer":
				return account(gen.AccID(id), gen.Ed(0), 9000, 0, 0, fBI(40))
			case "staking":
				return account(gen.AccID(id), gen.Ed(0), 9000, 0, 0, fBI(40), fStake(1, 1, 1, 9))
			case "bare account":
				return account(gen.AccID(id), gen.Ed(0), 9000, 0, 0)
			}
			return basic(gen.Ed(0), 9000, 0)
		}
		stx := synTx(e)
		es := stx.Transaction.TransactionEssence
		es.ContextInputs = nil
		for _, k := range [][]int{{}, {0}, {2}, {0, 2}, {5}}[v[0]] {
			es.ContextInputs = append(es.ContextInputs, ctxs[k].(iotago.ContextInput))
		}
		stx.Transaction.Outputs = iotago.TxEssenceOutputs{mk([]string{"plain", "delegation", "delayed delegation", "block issuer", "staking", "bare account"}[v[1]], 1), mk([]string{"plain", "delegation", "block issuer"}[v[2]], 2)}
		judge(c, stx)
	})
	x.Product("context input counts", []core.Dim{core.DV("credits", []int{0, 1, 126, 127, 128, 129}), core.DV("rewards", []int{0, 1, 2, 126, 127, 128}), core.DL("commitment", "yes", "no")}, func(v []int, c *core.C) {
		stx := synTx(e)
		es := stx.Transaction.TransactionEssence
		es.Inputs = nil
		for i := 0; i < 128; i++ {
			es.Inputs = append(es.Inputs, in(1, uint16(i)))
		}
		stx.Unlocks = sigs(128)
		es.ContextInputs = nil
		if v[2] == 0 {
			es.ContextInputs = append(es.ContextInputs, &iotago.CommitmentInput{CommitmentID: commitID(0xc0, 18)})
		}
		for i := 0; i < []int{0, 1, 126, 127, 128, 129}[v[0]]; i++ {
			es.ContextInputs = append(es.ContextInputs, &iotago.BlockIssuanceCreditInput{AccountID: gen.AccID(byte(i))})
		}
		for i := 0; i < []int{0, 1, 2, 126, 127, 128}[v[1]]; i++ {
			es.ContextInputs = append(es.ContextInputs, &iotago.RewardInput{Index: uint16(i)})
		}
		judge(c, stx)
	})
	// order of credits: every pair of first differing byte positions and values
	x.Product("credit order", []core.Dim{core.DV("byte", seq(32)), core.DV("a", []int{0, 1, 127, 128, 255}), core.DV("b", []int{0, 1, 127, 128, 255}), core.DL("tail", "equal", "a bigger", "b bigger")}, func(v []int, c *core.C) {
		vals := []byte{0, 1, 127, 128, 255}
		a, b := gen.AccID(9), gen.AccID(9)
		a[v[0]], b[v[0]] = vals[v[1]], vals[v[2]]
		if v[0] < 31 {
			switch v[3] {
			case 1:
				a[31] = 0xff
			case 2:
				b[31] = 0xff
			}
		} else if v[3] > 0 {
			c.Skip()
			return
		}
		stx := synTx(e)
		es := stx.Transaction.TransactionEssence
		es.ContextInputs = append(es.ContextInputs, &iotago.BlockIssuanceCreditInput{AccountID: a}, &iotago.BlockIssuanceCreditInput{AccountID: b})
		judge(c, stx)
		// the same pair as allotments
		stx = synTx(e)
		stx.Transaction.TransactionEssence.Allotments = iotago.Allotments{{AccountID: a, Mana: 1}, {AccountID: b, Mana: 2}}
		judge(c, stx)
	})
	x.Product("reward order", []core.Dim{core.DV("a", []int{0, 1, 2, 126, 127, 128}), core.DV("b", []int{0, 1, 2, 126, 127, 128}), core.DV("inputs", []int{1, 2, 3, 127, 128})}, func(v []int, c *core.C) {
		iv := []uint16{0, 1, 2, 126, 127, 128}
		n := []int{1, 2, 3, 127, 128}[v[2]]
		stx := synTx(e)
		es := stx.Transaction.TransactionEssence
		es.Inputs = nil
		for i := 0; i < n; i++ {
			es.Inputs = append(es.Inputs, in(1, uint16(i)))
		}
		stx.Unlocks = sigs(n)
		es.ContextInputs = append(es.ContextInputs, &iotago.RewardInput{Index: iv[v[0]]}, &iotago.RewardInput{Index: iv[v[1]]})
		judge(c, stx)
	})

	// allotments
	accs := []byte{0, 1, 2, 0xff}
	al := lists(len(accs), core.Pick(x, 5, 6))
	x.Product("allotment lists", []core.Dim{core.DL("list", listNames(al)...), core.DL("mana", "0", "1", "bound", "bound+1", "wraps to 0")}, func(v []int, c *core.C) {
		stx := synTx(e)
		for i, k := range al[v[0]] {
			m := uint64(1)
			switch v[1] {
			case 0:
				m = 0
			case 2:
				m = 0
				if i == 0 {
					m = bound
				}
			case 3:
				m = bound/uint64(len(al[v[0]])) + 1
			case 4:
				m = 0
				if i < 2 {
					m = 1 << 63
				}
			}
			stx.Transaction.TransactionEssence.Allotments = append(stx.Transaction.TransactionEssence.Allotments, &iotago.Allotment{AccountID: gen.AccID(accs[k]), Mana: iotago.Mana(m)})
		}
		judge(c, stx)
	})
	x.Product("allotment counts", []core.Dim{core.DV("count", []int{0, 1, 2, 127, 128, 129}), core.DL("order", "ascending", "last two swapped", "first two swapped", "descending", "last duplicated"), core.DL("sum", "0", "bound", "bound+1")}, func(v []int, c *core.C) {
		n := []int{0, 1, 2, 127, 128, 129}[v[0]]
		if n < 2 && v[1] > 0 || n == 0 && v[2] > 0 {
			c.Skip()
			return
		}
		var l iotago.Allotments
		for i := 0; i < n; i++ {
			l = append(l, &iotago.Allotment{AccountID: gen.AccID(byte(i))})
		}
		switch v[1] {
		case 1:
			l[n-1], l[n-2] = l[n-2], l[n-1]
		case 2:
			l[0], l[1] = l[1], l[0]
		case 3:
			sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i].AccountID[:], l[j].AccountID[:]) > 0 })
		case 4:
			l[n-1].AccountID = l[n-2].AccountID
		}
		if v[2] > 0 {
			l[n-1].Mana = iotago.Mana(bound)
			if v[2] == 2 {
				l[0].Mana++
			}
		}
		stx := synTx(e)
		stx.Transaction.TransactionEssence.Allotments = l
		judge(c, stx)
	})

	// outputs: counts and sums
	x.Product("output counts", []core.Dim{core.DV("count", []int{0, 1, 2, 127, 128, 129, 200}), core.DL("kind", "basic", "nft new", "nft known")}, func(v []int, c *core.C) {
		n := []int{0, 1, 2, 127, 128, 129, 200}[v[0]]
		stx := synTx(e)
		stx.Transaction.Outputs = iotago.TxEssenceOutputs{}
		for i := 0; i < n; i++ {
			switch v[1] {
			case 0:
				stx.Transaction.Outputs = append(stx.Transaction.Outputs, basic(gen.Ed(0), 1000, 0))
			case 1:
				stx.Transaction.Outputs = append(stx.Transaction.Outputs, nft(iotago.NFTID{}, gen.Ed(0), 1000, 0))
			case 2:
				stx.Transaction.Outputs = append(stx.Transaction.Outputs, nft(gen.NFTID(byte(i+1)), gen.Ed(0), 1000, 0))
			}
		}
		judge(c, stx)
	})
	S := e.P.Supply
	amts := []uint64{0, 1000, S / 2, S - 1000, S - 999, S, S + 1, 1 << 63, ^uint64(0)}
	manas := []uint64{0, 1, bound / 2, bound - 1, bound, bound + 1, ^uint64(0)}
	x.Product("output amount sums", []core.Dim{core.DL("a", lab(amts)...), core.DL("b", lab(amts)...), core.DL("c", lab(amts)...)}, func(v []int, c *core.C) {
		stx := synTx(e)
		stx.Transaction.Outputs = iotago.TxEssenceOutputs{basic(gen.Ed(0), amts[v[0]], 0), basic(gen.Ed(1), amts[v[1]], 0), nft(iotago.NFTID{}, gen.Ed(1), amts[v[2]], 0)}
		judge(c, stx)
	})
	x.Product("stored mana sums", []core.Dim{core.DL("a", lab(manas)...), core.DL("b", lab(manas)...), core.DL("c", lab(manas)...), core.DL("allotted", lab(manas)...)}, func(v []int, c *core.C) {
		stx := synTx(e)
		stx.Transaction.Outputs = iotago.TxEssenceOutputs{basic(gen.Ed(0), 2000, manas[v[0]]), account(gen.AccID(1), gen.Ed(1), 2000, manas[v[1]], 0), nft(iotago.NFTID{}, gen.Ed(1), 2000, manas[v[2]])}
		stx.Transaction.TransactionEssence.Allotments = iotago.Allotments{{AccountID: gen.AccID(4), Mana: iotago.Mana(manas[v[3]])}}
		judge(c, stx)
	})
	// uniqueness of chains: every list over an alphabet of chain outputs
	ch := []func() iotago.TxEssenceOutput{
		func() iotago.TxEssenceOutput { return account(iotago.AccountID{}, gen.Ed(0), 2000, 0, 0) },
		func() iotago.TxEssenceOutput { return account(gen.AccID(1), gen.Ed(0), 2000, 0, 0) },
		func() iotago.TxEssenceOutput { return account(gen.AccID(2), gen.Ed(0), 2000, 0, 0) },
		func() iotago.TxEssenceOutput { return nft(iotago.NFTID{}, gen.Ed(0), 2000, 0) },
		func() iotago.TxEssenceOutput { return nft(gen.NFTID(1), gen.Ed(0), 2000, 0) },
		func() iotago.TxEssenceOutput { return nft(gen.NFTID(2), gen.Ed(0), 2000, 0) },
		func() iotago.TxEssenceOutput { return anchor(iotago.AnchorID{}, gen.Ed(0), gen.Ed(0), 2000, 0, 0) },
		func() iotago.TxEssenceOutput { return anchor(gen.AncID(1), gen.Ed(0), gen.Ed(0), 2000, 0, 0) },
		func() iotago.TxEssenceOutput { return foundry(gen.AccID(1), 2000, 1, 0, 0, 9) },
		func() iotago.TxEssenceOutput { return foundry(gen.AccID(1), 2000, 2, 0, 0, 9) },
		func() iotago.TxEssenceOutput { return foundry(gen.AccID(2), 2000, 1, 0, 0, 9) },
		func() iotago.TxEssenceOutput { return foundry(gen.AccID(1), 3000, 1, 1, 1, 7) },
		func() iotago.TxEssenceOutput {
			return delegation(iotago.DelegationID{}, gen.Ed(0), 2000, 2000, gen.AccAddr(3), 2, 0)
		},
		func() iotago.TxEssenceOutput {
			return delegation(gen.DelID(1), gen.Ed(0), 2000, 2000, gen.AccAddr(3), 2, 5)
		},
	}
	hl := lists(len(ch), core.Pick(x, 4, 5))
	x.Product("chain lists", []core.Dim{core.DL("list", listNames(hl)...)}, func(v []int, c *core.C) {
		stx := synTx(e)
		stx.Transaction.Outputs = iotago.TxEssenceOutputs{}
		for _, k := range hl[v[0]] {
			stx.Transaction.Outputs = append(stx.Transaction.Outputs, ch[k]())
		}
		judge(c, stx)
	})

	// header fields
	x.Product("network and flags", []core.Dim{core.DL("network", "right", "right+1", "right-1", "0", "max", "other version's"), core.DV("flags", seq(256)), core.DL("length", "as is", "none", "and 00", "and 01", "and 00 01"), core.DV("slot", []int{0, 1, 1<<32 - 1})}, func(v []int, c *core.C) {
		stx := synTx(e)
		es := stx.Transaction.TransactionEssence
		n := uint64(es.NetworkID)
		es.NetworkID = iotago.NetworkID([]uint64{n, n + 1, n - 1, 0, ^uint64(0), n ^ 1<<40}[v[0]])
		b := byte(v[1])
		if v[2] == 1 && v[1] > 0 {
			c.Skip()
			return
		}
		es.Capabilities = [][]byte{{b}, {}, {b, 0}, {b, 1}, {b, 0, 1}}[v[2]]
		es.CreationSlot = iotago.SlotIndex([]uint32{0, 1, 1<<32 - 1}[v[3]])
		judge(c, stx)
	})
	sizes := []int{0, 1, 63, 64, 65, 255}
	dsz := []int{0, 1, 8191, 8192, 8193}
	x.Product("payload", []core.Dim{core.DL("payload", "none", "tagged data", "candidacy", "signed transaction"), core.DV("tag", sizes), core.DV("data", dsz)}, func(v []int, c *core.C) {
		stx := synTx(e)
		es := stx.Transaction.TransactionEssence
		if v[0] != 1 && v[1]+v[2] > 0 {
			c.Skip()
			return
		}
		switch v[0] {
		case 0:
			es.Payload = nil
		case 1:
			es.Payload = &iotago.TaggedData{Tag: make([]byte, sizes[v[1]]), Data: make([]byte, dsz[v[2]])}
		case 2:
			es.Payload = &iotago.CandidacyAnnouncement{}
		case 3:
			es.Payload = synTx(e)
		}
		judge(c, stx)
	})
}
