package checks

import (
	"math"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P07"] = p07; All["P08"] = p08 }

func p07(x *core.Ctx) {
	e := gen.NewEnv(ref.Default())
	id := gen.AncID(0xab)
	S, G, O := gen.Ed(1), gen.Ed(2), gen.Ed(0)
	sm := []any{nil, fState("a"), fState("b")}
	md := []any{nil, fMeta("a"), fMeta("b")}
	im := []any{nil, imm{fIssuer(O)}, imm{fMeta("a")}, imm{fIssuer(S)}}
	idxs := []uint32{0, 5, math.MaxUint32}
	x.Product("transition", []core.Dim{core.DV("index", idxs), core.DL("index'", "same", "+1", "+2", "-1", "0", "max"), core.DL("amount", "same", "+", "-"), core.DL("mana", "same", "moved out"), core.DL("state metadata", "-", "a", "b"), core.DL("state metadata'", "-", "a", "b"),
		core.DL("metadata", "-", "a"), core.DL("metadata'", "-", "a", "b"), core.DL("controller", "same", "changed", "swapped with governor"), core.DL("governor", "same", "changed"), core.DL("immutable", "same none", "same issuer", "added", "removed", "changed", "metadata to issuer"), core.DL("signer", "controller", "governor", "other")},
		func(v []int, c *core.C) {
			devs := 0
			for _, k := range []int{2, 3, 8, 9} {
				if v[k] > 0 {
					devs++
				}
			}
			if v[10] > 1 {
				devs++
			}
			if v[4] != v[5] {
				devs++
			}
			if v[6] != v[7] {
				devs++
			}
			if devs > core.Pick(x, 2, 7) || x.Tier == "quick" && (v[4] == 2 || v[0] == 2 && devs > 1) {
				c.Skip()
				return
			}
			i0 := idxs[v[0]]
			i1 := []uint32{i0, i0 + 1, i0 + 2, i0 - 1, 0, math.MaxUint32}[v[1]]
			if v[1] == 4 && i0 == 0 || v[1] == 5 && i0 == math.MaxUint32 {
				c.Skip()
				return
			}
			cs := &Case{E: e, Slot: 20, Commit: -1, Caps: caps(ref.CapBurnMana)}
			iA := [][2]int{{0, 0}, {1, 1}, {0, 1}, {1, 0}, {1, 3}, {2, 1}}[v[10]]
			a0 := anchor(id, S, G, 5000, 10, i0, sm[v[4]], md[v[6]], im[iA[0]])
			sc, gov := iotago.Address(S), iotago.Address(G)
			switch v[8] {
			case 1:
				sc = gen.Ed(4)
			case 2:
				sc, gov = G, S
			}
			if v[9] == 1 {
				gov = gen.Ed(5)
			}
			amt := []uint64{5000, 5001, 4999}[v[2]]
			mana := uint64(10)
			if v[3] == 1 {
				mana = 3
			}
			cs.Add(a0)
			cs.Add(basic(O, 9000, 0))
			cs.Outs = append(cs.Outs, anchor(id, sc, gov, amt, mana, i1, sm[v[5]], md[v[7]], im[iA[1]]))
			cs.Fill(O, 10-mana)
			cs.SignAs = map[int]int{0: []int{1, 2, 3}[v[11]]}
			cs.Run(c)
		})
	x.Product("creation", []core.Dim{core.DL("id", "zero", "unknown", "of a consumed anchor", "derived from the input"), core.DV("index", []uint32{0, 1, math.MaxUint32}), core.DL("issuer", "none", "O", "S", "G", "consumed anchor", "consumed account"), core.DL("S signs", "no", "yes"), core.DL("other", "none", "anchor governed", "anchor state moved", "anchor destroyed", "account kept"), core.DL("features", "-", "state+metadata", "sender S", "sender anchor")}, func(v []int, c *core.C) {
		cs := &Case{E: e, Slot: 20, Commit: -1, Caps: caps(ref.CapDestroyAnchor)}
		cs.Add(basic(O, 9000, 0))
		if v[3] == 1 {
			cs.Add(basic(S, 1000, 0))
		}
		switch v[4] {
		case 1, 2, 3:
			cs.Add(anchor(gen.AncID(0xcd), O, O, 3000, 0, 4))
			if v[4] != 3 {
				cs.Outs = append(cs.Outs, anchor(gen.AncID(0xcd), O, O, 3000, 0, uint32(3+v[4])))
			}
		case 4:
			cs.Add(account(gen.AccID(0xcd), O, 3000, 0, 0))
			cs.Outs = append(cs.Outs, account(gen.AccID(0xcd), O, 3000, 0, 0))
		}
		nid := []iotago.AnchorID{{}, gen.AncID(0x77), gen.AncID(0xcd), iotago.AnchorID(digest32(cs.IDAt(0, 20)))}[v[0]]
		var is any
		if v[2] > 0 {
			is = imm{fIssuer([]iotago.Address{nil, O, S, G, gen.AncAddr(0xcd), gen.AccAddr(0xcd)}[v[2]])}
		}
		ft := [][]any{nil, {fState("a"), fMeta("b")}, {fSender(S)}, {fSender(gen.AncAddr(0xcd))}}[v[5]]
		if v[5] >= 2 {
			// anchors carry no sender feature: put it on the rest
			cs.Outs = append(cs.Outs, anchor(nid, S, G, 2000, 0, []uint32{0, 1, math.MaxUint32}[v[1]], is))
			cs.Fill(O, 0, ft...)
		} else {
			cs.Outs = append(cs.Outs, anchor(nid, S, G, 2000, 0, []uint32{0, 1, math.MaxUint32}[v[1]], append(ft, is)...))
			cs.Fill(O, 0)
		}
		cs.Run(c)
	})
	x.Product("destruction", []core.Dim{core.D("caps", 64), core.DL("signer", "controller", "governor", "other"), core.DV("index", idxs), core.DL("immutable", "-", "issuer", "metadata"), core.DL("also", "nothing", "new anchor", "output locked to the anchor spent")}, func(v []int, c *core.C) {
		cs := &Case{E: e, Slot: 20, Commit: -1, SignAs: map[int]int{0: v[1] + 1}}
		if v[0] > 0 {
			cs.Caps = []byte{byte(v[0])}
		}
		cs.Add(anchor(id, S, G, 5000, 0, idxs[v[2]], im[v[3]]))
		cs.Add(basic(O, 9000, 0))
		switch v[4] {
		case 1:
			cs.Outs = append(cs.Outs, anchor(gen.AncID(0), S, G, 2000, 0, 0))
		case 2:
			cs.Add(basic(gen.AncAddr(0xab), 9000, 0))
		}
		cs.Fill(O, 0)
		cs.Run(c)
	})
	// an anchor address is usable exactly on state transitions
	x.Product("anchor as owner", []core.Dim{core.DL("step", "governance", "state", "destroyed", "index+2"), core.DL("use", "spend", "sender", "issuer of new nft", "state controller of a second anchor", "governor of a second anchor"), core.DL("order", "anchor first", "anchor last"), core.DL("signer", "controller", "governor")}, func(v []int, c *core.C) {
		cs := &Case{E: e, Slot: 20, Commit: -1, Caps: allCaps(), SignAs: map[int]int{}}
		aa := gen.AncAddr(0xab)
		addA := func() {
			cs.SignAs[len(cs.Ins)] = v[3] + 1
			cs.Add(anchor(id, S, G, 5000, 0, 7))
		}
		if v[2] == 0 {
			addA()
		}
		var tail []any
		switch v[1] {
		case 0:
			cs.Add(basic(aa, 5000, 0))
		case 1:
			tail = append(tail, fSender(aa))
		case 2:
			cs.Outs = append(cs.Outs, nft(gen.NFTID(0), O, 2000, 0, imm{fIssuer(aa)}))
		case 3:
			cs.Add(anchor(gen.AncID(0xac), aa, O, 5000, 0, 1))
			cs.Outs = append(cs.Outs, anchor(gen.AncID(0xac), aa, O, 5000, 0, 2))
		case 4:
			cs.Add(anchor(gen.AncID(0xac), O, aa, 5000, 0, 1))
			cs.Outs = append(cs.Outs, anchor(gen.AncID(0xac), O, aa, 5000, 0, 1))
		}
		cs.Add(basic(O, 9000, 0))
		if v[2] == 1 {
			addA()
		}
		switch v[0] {
		case 0:
			cs.Outs = append(cs.Outs, anchor(id, S, G, 5000, 0, 7))
		case 1:
			cs.Outs = append(cs.Outs, anchor(id, S, G, 5000, 0, 8))
		case 3:
			cs.Outs = append(cs.Outs, anchor(id, S, G, 5000, 0, 9))
		}
		cs.Fill(O, 0, tail...)
		cs.Run(c)
	})
	// the life of one anchor
	type St struct {
		Out  *iotago.AnchorOutput
		Step uint32
	}
	evs := []string{"state: metadata a", "state: metadata b + amount", "state: change controller", "gov: change controller", "gov: metadata", "gov: amount", "gov: state metadata", "skip index", "destroy by governor", "destroy by controller", "state by governor", "gov by controller", "immutable"}
	core.BFS(x, core.Search[St]{Name: "anchor life", Init: []St{{Out: anchor(id, S, G, 5000, 0, 0, imm{fIssuer(O)})}}, Depth: core.Pick(x, 4, 6),
		Events: func(St) (int, func(int) string) { return len(evs), func(i int) string { return evs[i] } },
		Key: func(s St) string {
			if s.Out == nil {
				return "gone"
			}
			return string(ref.Enc(s.Out))
		},
		Apply: func(s St, ev int, c *core.C) (St, bool) {
			if s.Out == nil {
				return s, false
			}
			cs := &Case{E: e, Slot: 20, Commit: -1, Caps: caps(ref.CapDestroyAnchor)}
			cs.Add(s.Out)
			cs.Add(basic(O, 9000, 0))
			sc, gov := s.Out.UnlockConditions[0].(*iotago.StateControllerAddressUnlockCondition).Address, s.Out.UnlockConditions[1].(*iotago.GovernorAddressUnlockCondition).Address
			var m, st any
			for _, f := range s.Out.Features {
				switch f.(type) {
				case *iotago.MetadataFeature:
					m = f
				case *iotago.StateMetadataFeature:
					st = f
				}
			}
			is := imm{fIssuer(O)}
			amt, idx := uint64(s.Out.Amount), s.Out.StateIndex
			scN := iotago.Address(gen.Ed(3))
			if ref.AddrKey(sc) == ref.AddrKey(scN) {
				scN = S
			}
			switch ev {
			case 0:
				st, idx = fState("a"), idx+1
			case 1:
				st, idx, amt = fState("b"), idx+1, 11000-amt
			case 2:
				sc, idx = scN, idx+1
			case 3:
				sc = scN
			case 4:
				m = fMeta("x")
			case 5:
				amt++
			case 6:
				st = fState("c")
			case 7:
				idx += 2
			case 9:
				cs.SignAs = map[int]int{0: keyOf[ref.AddrKey(sc)]}
			case 10:
				idx++
				cs.SignAs = map[int]int{0: keyOf[ref.AddrKey(gov)]}
			case 11:
				cs.SignAs = map[int]int{0: keyOf[ref.AddrKey(sc)]}
			case 12:
				is = imm{fIssuer(S)}
			}
			if ev != 8 && ev != 9 {
				cs.Outs = append(cs.Outs, anchor(id, sc, gov, amt, 0, idx, m, st, is))
			}
			cs.Fill(O, 0)
			if vd := cs.Run(c); vd.Stage != "" {
				return s, false
			}
			if ev == 8 || ev == 9 {
				return St{nil, s.Step + 1}, true
			}
			return St{cs.Outs[0].(*iotago.AnchorOutput), s.Step + 1}, true
		}})
}

// p08: NFT identity, issuers and senders.
func p08(x *core.Ctx) {
	e := gen.NewEnv(ref.Default())
	O, A, B := gen.Ed(0), gen.Ed(1), gen.Ed(2)
	id := gen.NFTID(0xab)
	im := [][]any{nil, {imm{fIssuer(A)}}, {imm{fIssuer(B)}}, {imm{fMeta("a")}}, {imm{fMeta("b")}}, {imm{fIssuer(A)}, imm{fMeta("a")}}, {imm{fIssuer(A)}, imm{fMeta("b")}}}
	imn := []string{"-", "A", "B", "a", "b", "A a", "A b"}
	x.Product("transition", []core.Dim{core.DL("immutable", imn...), core.DL("immutable'", imn...), core.DL("output", "same id", "zero id", "other id", "absent", "twice"), core.D("caps", 64), core.DL("mutable", "same", "changed"), core.DL("A signs", "no", "yes"), core.DL("stored as", "explicit id", "fresh (zero id)")}, func(v []int, c *core.C) {
		if x.Tier == "quick" && v[3] != 0 && v[3] != 1<<ref.CapDestroyNFT && v[3] != 63 && v[3] != 63&^(1<<ref.CapDestroyNFT) && (v[0] > 2 || v[1] > 0) {
			c.Skip()
			return
		}
		cs := &Case{E: e, Slot: 20, Commit: -1}
		if v[3] > 0 {
			cs.Caps = []byte{byte(v[3])}
		}
		cid := id
		in := nft(id, O, 3000, 0, append(append([]any{}, im[v[0]]...), fMeta("m"))...)
		if v[6] == 1 {
			in.NFTID = iotago.NFTID{}
			cid = iotago.NFTID(digest32(cs.IDAt(0, 20)))
		}
		cs.Add(in)
		cs.Add(basic(O, 9000, 0))
		if v[5] == 1 {
			cs.Add(basic(A, 1000, 0))
		}
		oid := []iotago.NFTID{cid, {}, gen.NFTID(0x77), {}, cid}[v[2]]
		mu := []any{fMeta("m")}
		if v[4] == 1 {
			mu = []any{fMeta("n"), fTag("t"), fSender(O)}
		}
		n := 1
		if v[2] == 3 {
			n = 0
		}
		if v[2] == 4 {
			n = 2
		}
		for i := 0; i < n; i++ {
			own := iotago.Address(O)
			if v[4] == 1 {
				own = gen.Ed(6)
			}
			cs.Outs = append(cs.Outs, nft(oid, own, uint64(3000-i), 0, append(append([]any{}, im[v[1]]...), mu...)...))
		}
		cs.Fill(O, 0)
		cs.Run(c)
	})
	// issuers and senders on every output kind against every kind of unlocked address
	addrs := []iotago.Address{O, A, B, gen.NFTAddr(0xab), gen.NFTAddr(0xac), gen.AccAddr(0xab), gen.AncAddr(0xab), gen.Multi(1, O, B), gen.Multi(2, O, B), gen.Restricted(A, 0xff), gen.Restricted(B), gen.Restricted(gen.NFTAddr(0xab), 1), gen.AccAddr(0xad)}
	an := []string{"O", "A", "B", "nft kept", "nft absent", "account", "anchor", "multi 1of2", "multi 2of2", "restricted A", "restricted B", "restricted nft", "other account"}
	x.Product("issuers and senders", []core.Dim{core.DL("where", "issuer of nft", "issuer of account", "issuer of anchor", "sender on basic", "sender on nft", "sender on account", "issuer on kept nft", "sender on kept nft"), core.DL("address", an...), core.DL("present", "O only", "A", "nft kept", "nft destroyed", "account kept", "account destroyed", "anchor governed", "anchor state", "anchor destroyed", "multi 1of2", "restricted A", "expired: A returns to B", "nft twice chained")}, func(v []int, c *core.C) {
		cs := &Case{E: e, Slot: 20, Commit: 18, Caps: allCaps()}
		a := addrs[v[1]]
		cs.Add(basic(O, 20000, 0))
		switch v[2] {
		case 1:
			cs.Add(basic(A, 1000, 0))
		case 2, 3:
			cs.Add(nft(id, O, 2000, 0))
			if v[2] == 2 {
				cs.Outs = append(cs.Outs, nft(id, O, 2000, 0))
			}
		case 4, 5:
			cs.Add(account(gen.AccID(0xab), O, 2000, 0, 0))
			if v[2] == 4 {
				cs.Outs = append(cs.Outs, account(gen.AccID(0xab), O, 2000, 0, 0))
			}
		case 6, 7, 8:
			cs.Add(anchor(gen.AncID(0xab), O, O, 2000, 0, 3))
			if v[2] < 8 {
				cs.Outs = append(cs.Outs, anchor(gen.AncID(0xab), O, O, 2000, 0, uint32(v[2]-3)))
			}
		case 9:
			cs.Add(basic(gen.Multi(1, O, B), 1000, 0))
		case 10:
			cs.Add(basic(gen.Restricted(A, 0xff), 1000, 0))
		case 11:
			cs.Add(basic(A, 1000, 0, ucExp(B, 18)))
		case 12:
			cs.Add(nft(gen.NFTID(0xac), O, 2000, 0))
			cs.Add(nft(id, gen.NFTAddr(0xac), 2000, 0))
			cs.Outs = append(cs.Outs, nft(gen.NFTID(0xac), O, 2000, 0), nft(id, gen.NFTAddr(0xac), 2000, 0))
		}
		switch v[0] {
		case 0:
			cs.Outs = append(cs.Outs, nft(gen.NFTID(0), O, 2000, 0, imm{fIssuer(a)}))
		case 1:
			cs.Outs = append(cs.Outs, account(gen.AccID(0), O, 2000, 0, 0, imm{fIssuer(a)}))
		case 2:
			cs.Outs = append(cs.Outs, anchor(gen.AncID(0), O, O, 2000, 0, 0, imm{fIssuer(a)}))
		case 3:
			cs.Outs = append(cs.Outs, basic(gen.Ed(6), 2000, 0, fSender(a)))
		case 4:
			cs.Outs = append(cs.Outs, nft(gen.NFTID(0), gen.Ed(6), 2000, 0, fSender(a)))
		case 5:
			cs.Outs = append(cs.Outs, account(gen.AccID(0), gen.Ed(6), 2000, 0, 0, fSender(a)))
		case 6:
			cs.Add(nft(gen.NFTID(0x99), O, 2000, 0, imm{fIssuer(a)}))
			cs.Outs = append(cs.Outs, nft(gen.NFTID(0x99), O, 2000, 0, imm{fIssuer(a)}))
		case 7:
			cs.Add(nft(gen.NFTID(0x99), O, 2000, 0))
			cs.Outs = append(cs.Outs, nft(gen.NFTID(0x99), O, 2000, 0, fSender(a)))
		}
		cs.Fill(O, 0)
		cs.Run(c)
	})
	// several NFTs at once: permutations, merges and swaps of identities
	x.Product("several nfts", []core.Dim{core.DL("in1", "absent", "id1", "id1 issuer A"), core.DL("in2", "absent", "id2", "id2 meta a"), core.DL("out1", "absent", "id1", "id2", "zero", "unknown", "id1 issuer A", "id2 meta a"), core.DL("out2", "absent", "id1", "id2", "zero", "unknown", "id1 issuer A", "id2 meta a"), core.DL("caps", "-", "destroy nft")}, func(v []int, c *core.C) {
		cs := &Case{E: e, Slot: 20, Commit: -1, Caps: [][]byte{nil, caps(ref.CapDestroyNFT)}[v[4]]}
		i1, i2 := gen.NFTID(0xa1), gen.NFTID(0xa2)
		cs.Add(basic(O, 20000, 0))
		switch v[0] {
		case 1:
			cs.Add(nft(i1, O, 2000, 0))
		case 2:
			cs.Add(nft(i1, O, 2000, 0, imm{fIssuer(A)}))
		}
		switch v[1] {
		case 1:
			cs.Add(nft(i2, O, 2000, 0))
		case 2:
			cs.Add(nft(i2, O, 2000, 0, imm{fMeta("a")}))
		}
		for _, k := range v[2:4] {
			switch k {
			case 1:
				cs.Outs = append(cs.Outs, nft(i1, O, 2000, 0))
			case 2:
				cs.Outs = append(cs.Outs, nft(i2, O, 2000, 0))
			case 3:
				cs.Outs = append(cs.Outs, nft(gen.NFTID(0), O, 2000, 0))
			case 4:
				cs.Outs = append(cs.Outs, nft(gen.NFTID(0x77), O, 2000, 0))
			case 5:
				cs.Outs = append(cs.Outs, nft(i1, O, 2000, 0, imm{fIssuer(A)}))
			case 6:
				cs.Outs = append(cs.Outs, nft(i2, O, 2000, 0, imm{fMeta("a")}))
			}
		}
		cs.Fill(O, 0)
		cs.Run(c)
	})
}
