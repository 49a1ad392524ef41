package checks

import (
	"fmt"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P01"] = p01; All["P02"] = p02 }

// unlock alphabet entry: builds an unlock for a message.
type uAlpha struct {
	name string
	mk   func(msg []byte) iotago.Unlock
}

func sigU(k int) uAlpha {
	return uAlpha{fmt.Sprintf("S%d", k), func(m []byte) iotago.Unlock { return &iotago.SignatureUnlock{Signature: gen.Sign(k, m)} }}
}

func refU(i int) uAlpha {
	return uAlpha{fmt.Sprintf("R%d", i), func([]byte) iotago.Unlock { return &iotago.ReferenceUnlock{Reference: uint16(i)} }}
}
func accU(i int) uAlpha {
	return uAlpha{fmt.Sprintf("A%d", i), func([]byte) iotago.Unlock { return &iotago.AccountUnlock{Reference: uint16(i)} }}
}
func ancU(i int) uAlpha {
	return uAlpha{fmt.Sprintf("C%d", i), func([]byte) iotago.Unlock { return &iotago.AnchorUnlock{Reference: uint16(i)} }}
}
func nftU(i int) uAlpha {
	return uAlpha{fmt.Sprintf("N%d", i), func([]byte) iotago.Unlock { return &iotago.NFTUnlock{Reference: uint16(i)} }}
}

var emptyU = uAlpha{"E", func([]byte) iotago.Unlock { return &iotago.EmptyUnlock{} }}

func multiU(us ...uAlpha) uAlpha {
	n := "M("
	for _, u := range us {
		n += u.name
	}
	return uAlpha{n + ")", func(m []byte) iotago.Unlock {
		x := &iotago.MultiUnlock{}
		for _, u := range us {
			x.Unlocks = append(x.Unlocks, u.mk(m))
		}
		return x
	}}
}

func names(us []uAlpha) (out []string) {
	for _, u := range us {
		out = append(out, u.name)
	}
	return
}

// owners of an input: how the output looks, and whether it is itself a chain others may be owned by.
type owner struct {
	name string
	out  func() iotago.Output
	next func() iotago.Output // continuation on the output side (nil: none)
}

func ownerAlphabet() []owner {
	O, B := gen.Ed(0), gen.Ed(1)
	b := func(n string, a iotago.Address, parts ...any) owner {
		return owner{n, func() iotago.Output { return basic(a, 2000, 0, parts...) }, nil}
	}
	return []owner{
		b("key0", O),
		b("key1", B),
		b("multi 1of2(0,1)", gen.Multi(1, O, B)),
		b("multi 2of2(0,1)", gen.Multi(2, O, B)),
		b("of account", gen.AccAddr(0xa1)),
		b("of nft", gen.NFTAddr(0xa2)),
		b("of anchor", gen.AncAddr(0xa3)),
		{"account", func() iotago.Output { return account(gen.AccID(0xa1), O, 2000, 0, 5) }, func() iotago.Output { return account(gen.AccID(0xa1), O, 2000, 0, 5) }},
		{"nft", func() iotago.Output { return nft(gen.NFTID(0xa2), B, 2000, 0) }, nil},
		{"anchor state step", func() iotago.Output { return anchor(gen.AncID(0xa3), O, B, 2000, 0, 1) }, func() iotago.Output { return anchor(gen.AncID(0xa3), O, B, 2000, 0, 2) }},
		{"anchor governance step", func() iotago.Output { return anchor(gen.AncID(0xa3), O, B, 2000, 0, 1) }, func() iotago.Output { return anchor(gen.AncID(0xa3), O, B, 2000, 0, 1) }},
		b("restricted key0", gen.Restricted(O, 0xff)),
		b("restricted of account", gen.Restricted(gen.AccAddr(0xa1), 0xff)),
		b("expired to key1", O, ucExp(B, 18)),
		b("unexpired key0", O, ucExp(B, 90)),
		b("implicit key0", gen.Implicit(0)),
		{"foundry", func() iotago.Output { return foundry(gen.AccID(0xa1), 2000, 5, 0, 0, 9) }, nil},
		{"account of nft", func() iotago.Output { return account(gen.AccID(0xa1), gen.NFTAddr(0xa2), 2000, 0, 5) }, nil},
		{"nft of account", func() iotago.Output { return nft(gen.NFTID(0xa2), gen.AccAddr(0xa1), 2000, 0) }, nil},
		b("multi 2of3(0,account,nft)", gen.Multi(2, O, gen.AccAddr(0xa1), gen.NFTAddr(0xa2))),
		b("multi 2of3(0,0',1)", func() iotago.Address {
			m := gen.Multi(3, O, B)
			m.Addresses[0].Weight = 2
			return m
		}()),
		b("restricted multi", gen.Restricted(gen.Multi(1, O, B), 0xff)),
	}
}

func unlockAlphabet(n int) []uAlpha {
	wrongMsg := uAlpha{"S0 over other tx", func(m []byte) iotago.Unlock {
		m2 := append([]byte{}, m...)
		m2[0] ^= 1
		return &iotago.SignatureUnlock{Signature: gen.Sign(0, m2)}
	}}
	flipped := uAlpha{"S0 bit flipped", func(m []byte) iotago.Unlock {
		s := gen.Sign(0, m)
		s.Signature[40] ^= 0x10
		return &iotago.SignatureUnlock{Signature: s}
	}}
	mixed := uAlpha{"S1 claiming key0", func(m []byte) iotago.Unlock {
		s := gen.Sign(1, m)
		copy(s.PublicKey[:], gen.Pub(0))
		return &iotago.SignatureUnlock{Signature: s}
	}}
	us := []uAlpha{sigU(0), sigU(1), wrongMsg, flipped, mixed, emptyU}
	for i := 0; i < n; i++ {
		us = append(us, refU(i), accU(i), nftU(i), ancU(i))
	}
	S0, S1, E, W := sigU(0), sigU(1), emptyU, wrongMsg
	us = append(us, multiU(S0, E), multiU(E, S1), multiU(S0, S1), multiU(S1, S0), multiU(S1, E), multiU(E, S0), multiU(E, E), multiU(refU(0), E), multiU(E, refU(0)), multiU(refU(0), refU(1)), multiU(S0, W), multiU(S0), multiU(S0, S1, E), multiU(S0, accU(0), E), multiU(S0, accU(0), nftU(1)), multiU(E, accU(0), nftU(1)), multiU(accU(0), refU(0), E), multiU(refU(0), accU(0), E), multiU(S1, accU(0), E), multiU(W, E), multiU(multiU(S0, E), E))
	return us
}

func p01(x *core.Ctx) {
	e := gen.NewEnv(ref.Default())
	ow := ownerAlphabet()
	on := make([]string, len(ow))
	for i := range ow {
		on[i] = ow[i].name
	}
	run := func(os []owner, us []uAlpha, c *core.C) {
		cs := &Case{E: e, Slot: 20, Commit: 18, Caps: allCaps(), BIC: map[iotago.AccountID]int64{}}
		for i, o := range os {
			out := o.out()
			cs.Add(out)
			if ref.IsImplicit(out) {
				id := iotago.AccountID(digest32(cs.IDAt(i, 20)))
				cs.BIC[id] = 0
				cs.Outs = append(cs.Outs, account(id, gen.Ed(0), 1000, 0, 0, fBI(90)))
			}
			if o.next != nil {
				n := o.next()
				dup := false
				if cid, ok := ref.ChainIDOf(n, iotago.OutputID{}); ok {
					for _, q := range cs.Outs {
						if qc, ok := ref.ChainIDOf(q, iotago.OutputID{}); ok && qc == cid {
							dup = true
						}
					}
				}
				if !dup {
					cs.Outs = append(cs.Outs, n)
				}
			}
		}
		cs.Fill(gen.Ed(4), 0)
		tx := cs.Tx()
		msg := ref.SigMsg(tx)
		for _, u := range us {
			cs.Unlocks = append(cs.Unlocks, u.mk(msg))
		}
		cs.Run(c)
	}
	sameChainTwice := func(os []owner) bool {
		seen := map[iotago.ChainID]bool{}
		for _, o := range os {
			if cid, ok := ref.ChainIDOf(o.out(), iotago.OutputID{}); ok {
				if seen[cid] {
					return true
				}
				seen[cid] = true
			}
		}
		return false
	}
	u1 := unlockAlphabet(2)
	x.Product("one input", []core.Dim{core.DL("owner", on...), core.DL("unlock", names(u1)...)}, func(v []int, c *core.C) {
		run([]owner{ow[v[0]]}, []uAlpha{u1[v[1]]}, c)
	})
	x.Product("two inputs", []core.Dim{core.DL("owner1", on...), core.DL("owner2", on...), core.DL("unlock1", names(u1)...), core.DL("unlock2", names(u1)...)}, func(v []int, c *core.C) {
		os := []owner{ow[v[0]], ow[v[1]]}
		if sameChainTwice(os) {
			c.Skip()
			return
		}
		run(os, []uAlpha{u1[v[2]], u1[v[3]]}, c)
	})
	// three inputs over the core alphabet
	pick := func(ns ...string) (out []owner) {
		for _, n := range ns {
			for _, o := range ow {
				if o.name == n {
					out = append(out, o)
				}
			}
		}
		return
	}
	o3 := pick("key0", "multi 1of2(0,1)", "of account", "account", "nft of account", "of nft")
	if x.Thorough() {
		o3 = pick("key0", "key1", "multi 1of2(0,1)", "multi 2of2(0,1)", "of account", "account", "nft of account", "of nft", "anchor state step", "anchor governance step", "of anchor", "multi 2of3(0,account,nft)", "expired to key1")
	}
	o3n := []string{}
	for _, o := range o3 {
		o3n = append(o3n, o.name)
	}
	u3 := []uAlpha{sigU(0), sigU(1), refU(0), refU(1), accU(0), accU(1), nftU(1), nftU(0), multiU(sigU(0), emptyU), multiU(emptyU, sigU(1)), multiU(refU(0), emptyU), multiU(emptyU, refU(0))}
	if x.Thorough() {
		u3 = append(u3, refU(2), accU(2), nftU(2), ancU(0), ancU(1), multiU(sigU(0), sigU(1)), multiU(refU(1), emptyU), multiU(emptyU, accU(0), nftU(1)), multiU(sigU(0), accU(0), emptyU), multiU(accU(0), emptyU))
	}
	x.Product("three inputs", []core.Dim{core.DL("owner1", o3n...), core.DL("owner2", o3n...), core.DL("owner3", o3n...), core.DL("unlock1", names(u3)...), core.DL("unlock2", names(u3)...), core.DL("unlock3", names(u3)...)}, func(v []int, c *core.C) {
		os := []owner{o3[v[0]], o3[v[1]], o3[v[2]]}
		if sameChainTwice(os) {
			c.Skip()
			return
		}
		run(os, []uAlpha{u3[v[3]], u3[v[4]], u3[v[5]]}, c)
	})
	// multi addresses: every weight/threshold combination against every member unlock pattern
	x.Product("multi thresholds", []core.Dim{core.DV("weight1", []int{1, 2, 255}), core.DV("weight2", []int{1, 3, 255}), core.DV("weight3", []int{1, 255}), core.DV("threshold", []int{1, 2, 3, 4, 5, 255, 256, 510, 511, 765}), core.D("unlocked members", 8), core.DL("bad member", "none", "first", "second", "third"), core.DL("inputs", "alone", "after a signature of key0")}, func(v []int, c *core.C) {
		ws := []int{[]int{1, 2, 255}[v[0]], []int{1, 3, 255}[v[1]], []int{1, 255}[v[2]]}
		th := []int{1, 2, 3, 4, 5, 255, 256, 510, 511, 765}[v[3]]
		if th > ws[0]+ws[1]+ws[2] {
			c.Skip()
			return
		}
		m := &iotago.MultiAddress{Threshold: uint16(th)}
		ks := []int{0, 1, 2}
		for i := 0; i < 3; i++ {
			m.Addresses = append(m.Addresses, &iotago.AddressWithWeight{Address: gen.Ed(i), Weight: byte(ws[i])})
		}
		gen.SortMulti(m)
		for i, a := range m.Addresses {
			ks[i] = keyOf[ref.AddrKey(a.Address)]
		}
		cs := &Case{E: e, Slot: 20, Commit: -1, Caps: allCaps()}
		if v[6] == 1 {
			cs.Add(basic(gen.Ed(0), 1000, 0))
		}
		cs.Add(basic(m, 3000, 0))
		cs.Fill(gen.Ed(4), 0)
		tx := cs.Tx()
		msg := ref.SigMsg(tx)
		if v[6] == 1 {
			cs.Unlocks = append(cs.Unlocks, &iotago.SignatureUnlock{Signature: gen.Sign(0, msg)})
		}
		mu := &iotago.MultiUnlock{}
		for i, k := range ks {
			if v[4]>>i&1 == 0 {
				mu.Unlocks = append(mu.Unlocks, &iotago.EmptyUnlock{})
				continue
			}
			s := gen.Sign(k, msg)
			if v[5] == i+1 {
				s.Signature[3] ^= 1
			}
			if k == 0 && v[6] == 1 {
				mu.Unlocks = append(mu.Unlocks, &iotago.ReferenceUnlock{Reference: 0})
				continue
			}
			mu.Unlocks = append(mu.Unlocks, &iotago.SignatureUnlock{Signature: s})
		}
		cs.Unlocks = append(cs.Unlocks, mu)
		cs.Run(c)
	})
	p01binding(x, e)
}

// p01binding: a signature over one transaction never unlocks another that differs in any field.
func p01binding(x *core.Ctx, e *gen.Env) {
	muts := []string{"none", "output amount", "output owner", "output mana", "input id", "creation slot", "capabilities", "allotment", "payload", "context input", "network", "output order", "extra output", "payload data", "public key", "unlock of other input"}
	x.Product("signature binding", []core.Dim{core.DL("change after signing", muts...), core.DL("owner", "key", "multi", "account")}, func(v []int, c *core.C) {
		mk := func(mut int) (*Case, *iotago.Transaction) {
			cs := &Case{E: e, Slot: 20, Commit: 18, Caps: allCaps(), Payload: &iotago.TaggedData{Tag: []byte("t"), Data: []byte("d")}}
			switch v[1] {
			case 0:
				cs.Add(basic(gen.Ed(0), 3000, 0))
			case 1:
				cs.Add(basic(gen.Multi(1, gen.Ed(0), gen.Ed(1)), 3000, 0))
			case 2:
				cs.Add(account(gen.AccID(0xab), gen.Ed(0), 3000, 5, 0))
			}
			cs.Add(basic(gen.Ed(2), 3000, 9))
			cs.Outs = append(cs.Outs, basic(gen.Ed(3), 1000, 0), basic(gen.Ed(4), 1000, 1))
			cs.Fill(gen.Ed(0), 0)
			switch mut {
			case 1:
				cs.Outs[0].(*iotago.BasicOutput).Amount++
				cs.Outs[1].(*iotago.BasicOutput).Amount--
			case 2:
				cs.Outs[0] = basic(gen.Ed(5), 1000, 0)
			case 3:
				cs.Outs[0].(*iotago.BasicOutput).Mana = 2
			case 4:
				cs.Ins[1].ID = gen.OutID(0x44, 20, 3)
			case 5:
				cs.Slot = 21
				for i := range cs.Ins {
					cs.Ins[i].ID = cs.IDAt(i, 20)
				}
			case 6:
				cs.Caps = caps(ref.CapBurnMana, ref.CapDestroyAccount)
			case 7:
				cs.Allot = iotago.Allotments{&iotago.Allotment{AccountID: gen.AccID(3), Mana: 1}}
			case 8:
				cs.Payload = nil
			case 9:
				cs.Commit = 17
			case 10:
				n := e.P.NetworkID + 1
				cs.NetID = &n
			case 11:
				cs.Outs[0], cs.Outs[1] = cs.Outs[1], cs.Outs[0]
			case 12:
				cs.Outs[2].(*iotago.BasicOutput).Amount -= 500
				cs.Outs = append(cs.Outs, basic(gen.Ed(6), 500, 0))
			case 13:
				cs.Payload = &iotago.TaggedData{Tag: []byte("t"), Data: []byte("e")}
			}
			return cs, cs.Tx()
		}
		orig, tx := mk(0)
		us := orig.Honest(tx, orig.Resolved())
		cs, _ := mk(v[0])
		cs.Unlocks = us
		switch v[0] {
		case 14:
			if s, ok := us[1].(*iotago.SignatureUnlock); ok {
				copy(s.Signature.(*iotago.Ed25519Signature).PublicKey[:], gen.Pub(0))
			}
		case 15:
			us[0], us[1] = us[1], us[0]
		}
		vd := cs.Run(c)
		if v[0] == 0 {
			expect(c, vd)
		}
	})
}

// p02: every unlock list over the alphabet up to a length.
func p02(x *core.Ctx) {
	e := gen.NewEnv(ref.Default())
	msg := ref.Fill(7, 32)
	other := func(k int) uAlpha {
		return uAlpha{fmt.Sprintf("S%d'", k), func([]byte) iotago.Unlock { return &iotago.SignatureUnlock{Signature: gen.Sign(k, ref.Fill(8, 32))} }}
	}
	S0, S1, S2, E := sigU(0), sigU(1), sigU(2), emptyU
	alpha := []uAlpha{S0, S1, other(0), refU(0), refU(1), refU(2), refU(3), accU(0), accU(1), accU(2), nftU(0), nftU(1), ancU(0), ancU(2), E,
		multiU(S0, E), multiU(S1, E), multiU(S0, S1), multiU(E, E), multiU(refU(0), S1), multiU(refU(1), E), multiU(accU(0), refU(1)), multiU(S0), multiU(multiU(S0, E), E), multiU(S0, S0), multiU(S2, E), multiU(refU(2), refU(0))}
	if !x.Thorough() {
		alpha = append([]uAlpha{}, alpha...)
	}
	// pre-built unlocks: the verdict depends on the list only, so signatures are made once
	built := make([]iotago.Unlock, len(alpha))
	for i, a := range alpha {
		built[i] = a.mk(msg)
	}
	judge := func(us iotago.Unlocks, c *core.C, ins int) {
		cs := &Case{E: e, Slot: 20, Commit: -1}
		for i := 0; i < ins; i++ {
			cs.Add(basic(gen.Ed(0), 1000, 0))
		}
		cs.Fill(gen.Ed(4), 0)
		cs.Unlocks = us
		stx, _ := cs.Signed()
		want := e.P.SyntaxSigned(stx)
		raw := ref.Enc(stx)
		c.State(raw)
		c.Step(2)
		_, err := e.API.Encode(stx, serix.WithValidation())
		c.Check((err == nil) == (want == ""), "shape:"+why(want), "unlock list judged %q by the rules, encoding says %v", want, err)
		dec := &iotago.SignedTransaction{API: e.API}
		_, err = e.API.Decode(raw, dec, serix.WithValidation())
		c.Check((err == nil) == (want == ""), "shape-decode:"+why(want), "unlock list judged %q by the rules, decoding says %v", want, err)
		c.Outcome(why(want))
	}
	max := core.Pick(x, 3, 4)
	for n := 1; n <= max; n++ {
		var dims []core.Dim
		for i := 0; i < n; i++ {
			dims = append(dims, core.DL(fmt.Sprintf("unlock%d", i), names(alpha)...))
		}
		x.Product(fmt.Sprintf("lists of %d", n), dims, func(v []int, c *core.C) {
			var us iotago.Unlocks
			for _, k := range v {
				us = append(us, built[k])
			}
			judge(us, c, n)
		})
	}
	// longer lists over the core of the alphabet: reference chains
	coreA := []int{}
	for i, a := range alpha {
		switch a.name {
		case "S0", "S1", "R0", "R1", "A0", "A1", "A2", "M(S0E)", "M(R1E)", "M(A0R1)":
			coreA = append(coreA, i)
		}
	}
	n := core.Pick(x, 4, 6)
	var dims []core.Dim
	for i := 0; i < n; i++ {
		l := []string{}
		for _, k := range coreA {
			l = append(l, alpha[k].name)
		}
		dims = append(dims, core.DL(fmt.Sprintf("unlock%d", i), l...))
	}
	x.Product(fmt.Sprintf("core lists of %d", n), dims, func(v []int, c *core.C) {
		var us iotago.Unlocks
		for _, k := range v {
			us = append(us, built[coreA[k]])
		}
		judge(us, c, n)
	})
	// number of unlocks against the number of inputs
	x.Product("counts", []core.Dim{core.DV("inputs", []int{1, 2, 3, 127, 128}), core.DV("unlocks", []int{0, 1, 2, 3, 4, 126, 127, 128, 129, 255, 256})}, func(v []int, c *core.C) {
		ins := []int{1, 2, 3, 127, 128}[v[0]]
		us := iotago.Unlocks{}
		for i := 0; i < []int{0, 1, 2, 3, 4, 126, 127, 128, 129, 255, 256}[v[1]]; i++ {
			if i == 0 {
				us = append(us, built[0])
			} else {
				us = append(us, &iotago.ReferenceUnlock{Reference: 0})
			}
		}
		judge(us, c, ins)
	})
	// sizes of multi unlocks
	x.Product("multi sizes", []core.Dim{core.D("members", 13), core.DL("kind", "empty", "one signature", "distinct signatures"), core.DL("position", "first", "after signature")}, func(v []int, c *core.C) {
		mu := &iotago.MultiUnlock{}
		for i := 0; i < v[0]; i++ {
			switch {
			case v[1] == 2, v[1] == 1 && i == 0:
				mu.Unlocks = append(mu.Unlocks, &iotago.SignatureUnlock{Signature: gen.Sign(20+i, msg)})
			default:
				mu.Unlocks = append(mu.Unlocks, &iotago.EmptyUnlock{})
			}
		}
		us := iotago.Unlocks{mu}
		n := 1
		if v[2] == 1 {
			us = iotago.Unlocks{built[0], mu}
			n = 2
		}
		judge(us, c, n)
	})
}
