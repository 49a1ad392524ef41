package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P18"] = p18 }

// named is one identifier: what the implementation computed and what the specification says.
type named struct {
	name      string
	got, want []byte
	err       error
}

func slotOf(p *ref.Params, h *iotago.BlockHeader) iotago.SlotIndex {
	t := new(big.Int).Add(new(big.Int).Mul(big.NewInt(h.IssuingTime.Unix()), big.NewInt(1e9)), big.NewInt(int64(h.IssuingTime.Nanosecond())))
	return iotago.SlotIndex(p.SlotAt(t))
}

func u32le(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }
func u16le(v uint16) []byte { return binary.LittleEndian.AppendUint16(nil, v) }

// blockIDOf is the specified block identifier: hash of (header hash, body hash, signature) and the issuing slot.
func blockIDOf(p *ref.Params, h *iotago.BlockHeader, bodyHash []byte, sig iotago.Signature) []byte {
	return ref.SlotID(ref.Blake(ref.Blake(ref.Enc(h)), bodyHash, ref.Enc(sig)), slotOf(p, h))
}

// outChain is the chain identifier of an output created with the output ID.
func outChain(o iotago.Output, id iotago.OutputID) (chain []byte, is bool) {
	or := func(b [32]byte) ([]byte, bool) {
		if b == [32]byte{} {
			return ref.Blake(id[:]), true
		}
		return b[:], true
	}
	switch x := o.(type) {
	case *iotago.AccountOutput:
		return or(x.AccountID)
	case *iotago.AnchorOutput:
		return or(x.AnchorID)
	case *iotago.NFTOutput:
		return or(x.NFTID)
	case *iotago.DelegationOutput:
		return or(x.DelegationID)
	case *iotago.FoundryOutput:
		f := ref.FoundryID(x)
		return f[:], true
	}
	return nil, false
}

func chainBytes(id iotago.ChainID) []byte {
	switch x := id.(type) {
	case iotago.AccountID:
		return x[:]
	case iotago.AnchorID:
		return x[:]
	case iotago.NFTID:
		return x[:]
	case iotago.DelegationID:
		return x[:]
	case iotago.FoundryID:
		return x[:]
	}
	return nil
}

// idsOf computes every identifier of the object with the implementation and with the model.
func idsOf(e *gen.Env, obj any) (out []named) {
	add := func(name string, got []byte, err error, want []byte) {
		out = append(out, named{name, append([]byte{}, got...), append([]byte{}, want...), err})
	}
	switch x := obj.(type) {
	case *iotago.Block:
		want := blockIDOf(e.P, &x.Header, ref.Blake(ref.Enc(x.Body)), x.Signature)
		id, err := x.ID()
		add("Block.ID", id[:], err, want)
		add("slot of Block.ID", u32le(uint32(id.Slot())), nil, u32le(uint32(slotOf(e.P, &x.Header))))
		add("Block.Slot", u32le(uint32(x.Slot())), nil, u32le(uint32(slotOf(e.P, &x.Header))))
		if b := ref.Enc(x); true {
			ident, err := iotago.BlockIdentifierFromBlockBytes(b)
			add("BlockIdentifierFromBlockBytes", ident[:], err, want[:32])
			id := x.IDWithBlockIdentifier(iotago.Identifier(want[:32]))
			add("IDWithBlockIdentifier", id[:], nil, want)
		}
		h, err := x.Header.Hash(e.API)
		add("BlockHeader.Hash", h[:], err, ref.Blake(ref.Enc(&x.Header)))
		h, err = x.Body.Hash()
		add("BlockBody.Hash", h[:], err, ref.Blake(ref.Enc(x.Body)))
		if b, is := x.Body.(*iotago.BasicBlockBody); is {
			if stx, is := b.Payload.(*iotago.SignedTransaction); is {
				out = append(out, idsOf(e, stx)...)
			}
		}
	case *iotago.Attestation:
		id, err := x.BlockID()
		add("Attestation.BlockID", id[:], err, blockIDOf(e.P, &x.Header, x.BodyHash[:], x.Signature))
		add("Attestation.Slot", u32le(uint32(x.Slot())), nil, u32le(uint32(slotOf(e.P, &x.Header))))
	case *iotago.SignedTransaction:
		id, err := x.ID()
		want := ref.SlotID(ref.Blake(ref.Enc(x.Transaction), ref.Enc(x.Unlocks)), x.Transaction.CreationSlot)
		add("SignedTransaction.ID", id[:], err, want)
		add("slot of SignedTransaction.ID", u32le(uint32(id.Slot())), nil, u32le(uint32(x.Transaction.CreationSlot)))
		out = append(out, idsOf(e, x.Transaction)...)
	case *iotago.Transaction:
		wid := ref.TxID(x)
		id, err := x.ID()
		add("Transaction.ID", id[:], err, wid[:])
		add("slot of Transaction.ID", u32le(uint32(id.Slot())), nil, u32le(uint32(x.CreationSlot)))
		tc, err := x.TransactionCommitment()
		add("TransactionCommitment", tc[:], err, ref.TxCommitment(x))
		oc, err := x.OutputCommitment()
		add("OutputCommitment", oc[:], err, ref.OutputsRoot(x))
		sm, err := x.SigningMessage()
		add("SigningMessage", sm, err, ref.SigMsg(x))
		set, err := x.OutputsSet()
		add("size of OutputsSet", u32le(uint32(len(set))), err, u32le(uint32(len(x.Outputs))))
		chains := map[string]bool{}
		for i, o := range x.Outputs {
			oid := ref.OutputIDOf(wid, uint16(i))
			if got, has := set[oid]; has {
				add("OutputsSet", ref.Enc(got), nil, ref.Enc(o))
			} else {
				add("OutputsSet", nil, nil, oid[:])
			}
			if c, is := outChain(o, oid); is {
				chains[string(c)] = true
			}
		}
		var got, want []string
		for id := range x.Outputs.ChainOutputSet(wid) {
			got = append(got, string(chainBytes(id)))
		}
		for id := range chains {
			want = append(want, id)
		}
		sort.Strings(got)
		sort.Strings(want)
		add("ChainOutputSet", []byte(fmt.Sprintf("%x", got)), nil, []byte(fmt.Sprintf("%x", want)))
		for _, in := range x.Inputs() {
			oid, w := in.OutputID(), ref.OutputIDOf(in.TransactionID, in.TransactionOutputIndex)
			add("UTXOInput.OutputID", oid[:], nil, w[:])
		}
	case *iotago.Commitment:
		id, err := x.ID()
		add("Commitment.ID", id[:], err, ref.SlotID(ref.Blake(ref.Enc(x)), x.Slot))
		add("slot of Commitment.ID", u32le(uint32(id.Slot())), nil, u32le(uint32(x.Slot)))
	case *iotago.Roots:
		id := x.ID()
		var vs [][]byte
		for _, r := range [][32]byte{x.TangleRoot, x.StateMutationRoot, x.StateRoot, x.AccountRoot, x.AttestationsRoot, x.CommitteeRoot, x.RewardsRoot, x.ProtocolParametersHash} {
			vs = append(vs, append([]byte{}, r[:]...))
		}
		add("Roots.ID", id[:], nil, ref.MerkleRoot(vs))
	case *iotago.FoundryOutput:
		want := ref.FoundryID(x)
		id, err := x.FoundryID()
		add("FoundryID", id[:], err, want[:])
		nt, err := x.NativeTokenID()
		add("NativeTokenID", nt[:], err, want[:])
		add("Foundry ChainID", chainBytes(x.ChainID()), nil, want[:])
		add("serial of FoundryID", u32le(id.FoundrySerialNumber()), nil, u32le(x.SerialNumber))
		a, err := id.AccountAddress()
		if err == nil {
			add("account of FoundryID", a[:], nil, want[1:33])
		} else {
			add("account of FoundryID", nil, err, want[1:33])
		}
	case iotago.ChainOutput:
		id := x.ChainID()
		w, _ := outChain(x, iotago.OutputID{})
		if id.Empty() {
			add("empty ChainID", chainBytes(id), nil, make([]byte, 32))
		} else {
			add("ChainID", chainBytes(id), nil, w)
		}
	}
	return
}

func judgeIDs(c *core.C, ids []named, what string) (all []byte) {
	c.Step(len(ids))
	for _, n := range ids {
		if c.Check(n.err == nil, "id:"+n.name, "%s: %s failed: %v", what, n.name, n.err) {
			c.Check(bytes.Equal(n.got, n.want), "id:"+n.name, "%s: %s is %x, specified %x", what, n.name, n.got, n.want)
		}
		all = append(all, n.want...)
	}
	return
}

func p18(x *core.Ctx) {
	x.Assume("the hash function is collision free: an identifier that is the specified digest of the encoded content changes with every bit of it; the check compares with the specified digest, computed by independent code, and that the digests differ on every explored change")
	e := gen.NewEnv(ref.Default())
	var objs, small []Obj
	for _, o := range catalog(e) {
		switch o.New().(type) {
		case *iotago.Block, *iotago.Attestation, *iotago.SignedTransaction, *iotago.Transaction, *iotago.Commitment, *iotago.Roots, iotago.ChainOutput:
			objs = append(objs, o)
			if o.small {
				small = append(small, o)
			}
		}
	}
	x.Product("identifiers of catalog objects", []core.Dim{catDims(objs)}, func(v []int, c *core.C) {
		o := objs[v[0]]
		obj := o.New()
		c.Outcome(o.Kind)
		c.State(judgeIDs(c, idsOf(e, obj), "fresh object"))
		judgeIDs(c, idsOf(e, obj), "asked twice")
		ptr, get := o.Targets[len(o.Targets)-1].make()
		if _, err := e.API.Decode(o.Raw(), ptr); c.Check(err == nil, "decode", "decoding: %v", err) {
			judgeIDs(c, idsOf(e, get()), "decoded object")
		}
	})

	type bit struct{ obj, bit int }
	var bits []bit
	first := make([][]byte, len(small))
	for i, o := range small {
		if ids := idsOf(e, o.New()); len(ids) > 0 {
			first[i] = ids[0].got
		}
		if _, foundry := o.New().(*iotago.FoundryOutput); o.Kind == "output" && !foundry {
			continue // the identifier does not depend on the content
		}
		for k := 0; k < len(o.Raw())*8; k++ {
			bits = append(bits, bit{i, k})
		}
	}
	x.Product("every bit of the content", []core.Dim{core.D("object and bit", len(bits))}, func(v []int, c *core.C) {
		b := bits[v[0]]
		o := small[b.obj]
		raw := o.Raw()
		raw[b.bit/8] ^= 1 << (b.bit % 8)
		c.Note("%s %s, bit %d of byte %d", o.Kind, o.Name, b.bit%8, b.bit/8)
		ptr, get := o.Targets[len(o.Targets)-1].make()
		var n int
		var err error
		if p := core.Panics(func() { n, err = e.API.Decode(raw, ptr) }); p != "" || err != nil || n != len(raw) {
			c.Outcome(o.Kind + " refused")
			return
		}
		obj := get()
		if b, is := obj.(*iotago.Block); is && b.Body != nil {
			if r := ref.Enc(obj); !bytes.Equal(r, raw) {
				c.Outcome(o.Kind + " another encoding") // P17 judges what decoders accept
				return
			}
		}
		var ids []named
		if p := core.Panics(func() { ids = idsOf(e, obj) }); p != "" {
			c.Outcome(o.Kind + " incomplete") // identifiers of structurally incomplete outputs (P17, P20)
			return
		}
		c.Outcome(o.Kind + " changed")
		all := judgeIDs(c, ids, "changed bit")
		c.State(all)
		if len(ids) == 0 {
			return
		}
		if bytes.Equal(ref.Enc(obj), raw) && obj2chain(obj) == nil {
			c.Check(!bytes.Equal(ids[0].got, first[b.obj]), "unchanged:"+ids[0].name, "%s is unchanged after changing the content", ids[0].name)
		}
	})

	type spot struct{ obj, at int }
	var spots []spot
	pool := core.Pick(x, small, objs)
	for i, o := range pool {
		if o.Kind == "output" && !o.small {
			continue
		}
		for k := range sites(o.New()) {
			spots = append(spots, spot{i, k})
		}
	}
	x.Product("every field changed in place", []core.Dim{core.D("object and field", len(spots))}, func(v []int, c *core.C) {
		s := spots[v[0]]
		o := pool[s.obj]
		obj := o.New()
		st := sites(obj)[s.at]
		c.Note("%s %s, %s", o.Kind, o.Name, st.path)
		if !st.scalar {
			c.Skip()
			return
		}
		before := judgeIDs(c, idsOf(e, obj), "before")
		raw := ref.Enc(obj)
		undo := st.apply()
		var ids []named
		if p := core.Panics(func() { ids = idsOf(e, obj) }); p != "" {
			c.Fail("panic:"+o.Kind, "%s after changing %s", p, st.path)
			return
		}
		c.Outcome(o.Kind)
		after := judgeIDs(c, ids, "after the change")
		c.State(after)
		if !bytes.Equal(ref.Enc(obj), raw) && obj2chain(obj) == nil {
			c.Check(!bytes.Equal(before, after), "stale:"+o.Kind, "no identifier changed")
		}
		undo()
		again := judgeIDs(c, idsOf(e, obj), "changed back")
		c.Check(bytes.Equal(before, again), "back:"+o.Kind, "identifiers differ after changing back")
	})

	slots := []uint32{0, 1, 255, 256, 65536, 1 << 24, 1 << 31, 1<<32 - 1}
	fills := []byte{0, 1, 0x80, 0xff}
	idxs := []uint16{0, 1, 127, 128, 255, 256, 1 << 15, 65535}
	x.Product("parts of identifiers", []core.Dim{core.DV("digest", fills), core.DV("slot", slots), core.DV("index", idxs)}, func(v []int, c *core.C) {
		d, slot, idx := gen.Fill32(fills[v[0]]), iotago.SlotIndex(slots[v[1]]), idxs[v[2]]
		raw := append(append(append([]byte{}, d[:]...), u32le(uint32(slot))...), u16le(idx)...)
		c.State(raw)
		c.Step(20)
		eq := func(name string, got, want []byte) {
			c.Check(bytes.Equal(got, want), "part:"+name, "%s is %x, want %x", name, got, want)
		}
		eqn := func(name string, got, want uint64) {
			c.Check(got == want, "part:"+name, "%s is %d, want %d", name, got, want)
		}
		data := raw[:7]
		b := iotago.NewBlockID(slot, d)
		eq("NewBlockID", b[:], raw[:36])
		bi := b.Identifier()
		eq("BlockID.Identifier", bi[:], d[:])
		eqn("BlockID.Slot", uint64(b.Slot()), uint64(slot))
		eqn("BlockID.Index", uint64(b.Index()), uint64(slot))
		b = iotago.BlockIDRepresentingData(slot, data)
		eq("BlockIDRepresentingData", b[:], ref.SlotID(ref.Blake(data), slot))
		cm := iotago.NewCommitmentID(slot, d)
		eq("NewCommitmentID", cm[:], raw[:36])
		ci := cm.Identifier()
		eq("CommitmentID.Identifier", ci[:], d[:])
		eqn("CommitmentID.Slot", uint64(cm.Slot()), uint64(slot))
		eqn("CommitmentID.Index", uint64(cm.Index()), uint64(slot))
		cm = iotago.CommitmentIDRepresentingData(slot, data)
		eq("CommitmentIDRepresentingData", cm[:], ref.SlotID(ref.Blake(data), slot))
		t := iotago.NewTransactionID(slot, d)
		eq("NewTransactionID", t[:], raw[:36])
		ti := t.Identifier()
		eq("TransactionID.Identifier", ti[:], d[:])
		eqn("TransactionID.Slot", uint64(t.Slot()), uint64(slot))
		eqn("TransactionID.Index", uint64(t.Index()), uint64(slot))
		tr := iotago.TransactionIDRepresentingData(slot, data)
		eq("TransactionIDRepresentingData", tr[:], ref.SlotID(ref.Blake(data), slot))
		s := iotago.NewSignedTransactionID(slot, d)
		eq("NewSignedTransactionID", s[:], raw[:36])
		si := s.Identifier()
		eq("SignedTransactionID.Identifier", si[:], d[:])
		eqn("SignedTransactionID.Slot", uint64(s.Slot()), uint64(slot))
		eqn("SignedTransactionID.Index", uint64(s.Index()), uint64(slot))
		s = iotago.SignedTransactionIDRepresentingData(slot, data)
		eq("SignedTransactionIDRepresentingData", s[:], ref.SlotID(ref.Blake(data), slot))
		id := iotago.IdentifierFromData(data)
		eq("IdentifierFromData", id[:], ref.Blake(data))
		ac := iotago.AccountIDFromData(data)
		eq("AccountIDFromData", ac[:], ref.Blake(data))
		an := iotago.AnchorIDFromData(data)
		eq("AnchorIDFromData", an[:], ref.Blake(data))
		// output identifiers
		o := iotago.OutputIDFromTransactionIDAndIndex(t, idx)
		eq("OutputIDFromTransactionIDAndIndex", o[:], raw)
		o2 := (&iotago.UTXOInput{TransactionID: t, TransactionOutputIndex: idx}).OutputID()
		eq("UTXOInput.OutputID", o2[:], raw)
		ot := o.TransactionID()
		eq("OutputID.TransactionID", ot[:], raw[:36])
		eqn("OutputID.Index", uint64(o.Index()), uint64(idx))
		eqn("OutputID.CreationSlot", uint64(o.CreationSlot()), uint64(slot))
		eqn("OutputID.Slot", uint64(o.Slot()), uint64(slot))
		in := o.UTXOInput()
		eq("OutputID.UTXOInput", append(append([]byte{}, in.TransactionID[:]...), u16le(in.TransactionOutputIndex)...), raw)
		eqn("UTXOInput.CreationSlot", uint64(in.CreationSlot()), uint64(slot))
		eqn("UTXOInput.Index", uint64(in.Index()), uint64(idx))
		ins := iotago.OutputIDs{o, o}.UTXOInputs()
		if c.Check(len(ins) == 2, "part:UTXOInputs", "UTXOInputs gives %d inputs", len(ins)) {
			for _, i := range ins {
				oid := i.(*iotago.UTXOInput).OutputID()
				eq("UTXOInputs", oid[:], raw)
			}
		}
		eo := iotago.EmptyOutputIDWithCreationSlot(slot)
		eq("EmptyOutputIDWithCreationSlot", eo[:], append(append(make([]byte, 32), u32le(uint32(slot))...), 0, 0))
		xt, xi, err := iotago.OutputIDHex(o.ToHex()).SplitParts()
		if c.Check(err == nil, "part:SplitParts", "SplitParts: %v", err) {
			eq("SplitParts", append(append([]byte{}, xt[:]...), u16le(xi)...), raw)
		}
		ho, err := iotago.HexOutputIDsFromOutputIDs(o, o2).OutputIDs()
		if c.Check(err == nil && len(ho) == 2, "part:HexOutputIDs", "HexOutputIDs: %v", err) {
			eq("HexOutputIDs", ho[1][:], raw)
		}
		// identifiers of chains created by the output
		want := ref.Blake(raw)
		ca := iotago.AccountIDFromOutputID(o)
		eq("AccountIDFromOutputID", ca[:], want)
		cn := iotago.NFTIDFromOutputID(o)
		eq("NFTIDFromOutputID", cn[:], want)
		cA := iotago.AnchorIDFromOutputID(o)
		eq("AnchorIDFromOutputID", cA[:], want)
		cd := iotago.DelegationIDFromOutputID(o)
		eq("DelegationIDFromOutputID", cd[:], want)
		for _, z := range []iotago.UTXOIDChainID{iotago.AccountID{}, iotago.NFTID{}, iotago.AnchorID{}, iotago.DelegationID{}} {
			eq(fmt.Sprintf("%T.FromOutputID", z), chainBytes(z.FromOutputID(o)), want)
		}
		aa := iotago.AccountAddressFromOutputID(o)
		eq("AccountAddressFromOutputID", aa[:], want)
		na := iotago.NFTAddressFromOutputID(o)
		eq("NFTAddressFromOutputID", na[:], want)
		xa := iotago.AnchorAddressFromOutputID(o)
		eq("AnchorAddressFromOutputID", xa[:], want)
		for _, z := range []iotago.ChainID{iotago.AccountID(d), iotago.NFTID(d), iotago.AnchorID(d)} {
			w := map[string]byte{"iotago.AccountID": 8, "iotago.NFTID": 16, "iotago.AnchorID": 24}[fmt.Sprintf("%T", z)]
			eq(fmt.Sprintf("%T.ToAddress", z), ref.Enc(z.ToAddress()), append([]byte{w}, d[:]...))
			eq(fmt.Sprintf("%T.ToAddress().ChainID", z), chainBytes(z.ToAddress().ChainID()), d[:])
			c.Check(z.Empty() == (d == [32]byte{}), "part:Empty", "%T.Empty is %v for %x", z, z.Empty(), d)
		}
		c.Outcome("read back")
	})
	schemes := []byte{0, 1, 0xff}
	serials := []uint32{0, 1, 255, 256, 65536, 1 << 31, 1<<32 - 1}
	x.Product("foundry identifiers", []core.Dim{core.DV("account", fills), core.DV("serial", serials), core.DV("scheme", schemes)}, func(v []int, c *core.C) {
		acc, serial, scheme := gen.AccAddr(fills[v[0]]), serials[v[1]], schemes[v[2]]
		want := append(append(append([]byte{8}, acc[:]...), u32le(serial)...), scheme)
		c.State(want)
		c.Step(3)
		id, err := iotago.FoundryIDFromAddressAndSerialNumberAndTokenScheme(acc, serial, iotago.TokenSchemeType(scheme))
		if !c.Check(err == nil && bytes.Equal(id[:], want), "foundry id", "identifier %x (%v), want %x", id, err, want) {
			return
		}
		c.Check(id.FoundrySerialNumber() == serial, "foundry serial", "serial number reads %d, want %d", id.FoundrySerialNumber(), serial)
		a, err := id.AccountAddress()
		c.Check(err == nil && a != nil && *a == *acc, "foundry account", "account reads %v (%v), want %v", a, err, acc)
		c.Outcome("read back")
	})
	// matching and ordering of identifiers
	type mid struct {
		name string
		id   iotago.ChainID
	}
	var mids []mid
	for _, b := range []byte{0, 1, 2} {
		mids = append(mids, mid{fmt.Sprint("account ", b), gen.AccID(b)}, mid{fmt.Sprint("nft ", b), gen.NFTID(b)}, mid{fmt.Sprint("anchor ", b), gen.AncID(b)}, mid{fmt.Sprint("delegation ", b), gen.DelID(b)})
		mids = append(mids, mid{fmt.Sprint("foundry ", b), foundryID(gen.AccID(1), uint32(b))})
	}
	x.Product("matching of chain identifiers", []core.Dim{core.D("a", len(mids)), core.D("b", len(mids))}, func(v []int, c *core.C) {
		a, b := mids[v[0]], mids[v[1]]
		c.Step(1)
		got := a.id.Matches(b.id)
		c.Check(got == (v[0] == v[1]), "matches", "%s matches %s: %v", a.name, b.name, got)
		c.Outcomef("%v", got)
	})
	var ids [5]iotago.BlockID
	for i := range ids {
		ids[i] = []iotago.BlockID{blockID(0, 0), blockID(1, 0), blockID(1, 1), blockID(1, 256), blockID(0xff, 0)}[i]
	}
	sort.Slice(ids[:], func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
	seqs := lists(5, x0(x, 4, 5))
	x.Product("sorting identifiers", []core.Dim{core.DL("sequence", listNames(seqs)...)}, func(v []int, c *core.C) {
		var bs iotago.BlockIDs
		var ts iotago.TransactionIDs
		var cs iotago.CommitmentIDs
		var os iotago.OutputIDs
		for _, k := range seqs[v[0]] {
			bs, ts, cs = append(bs, ids[k]), append(ts, iotago.TransactionID(ids[k])), append(cs, iotago.CommitmentID(ids[k]))
			os = append(os, ref.OutputIDOf(iotago.TransactionID(ids[k]), 3))
		}
		sorted := append([]int{}, seqs[v[0]]...)
		sort.Ints(sorted)
		var uniq []int
		for i, k := range sorted {
			if i == 0 || sorted[i-1] != k {
				uniq = append(uniq, k)
			}
		}
		c.Step(8)
		same := func(name string, n int, at func(i int) []byte, want []int) {
			ok := n == len(want)
			for i := 0; ok && i < n; i++ {
				ok = bytes.Equal(at(i)[:36], ids[want[i]][:])
			}
			c.Check(ok, "sort:"+name, "%s of %v gives the wrong list", name, seqs[v[0]])
		}
		r1, r2, r3, r4 := bs.RemoveDupsAndSort(), ts.RemoveDupsAndSort(), cs.RemoveDupsAndSort(), os.RemoveDupsAndSort()
		same("BlockIDs.RemoveDupsAndSort", len(r1), func(i int) []byte { return r1[i][:] }, uniq)
		same("TransactionIDs.RemoveDupsAndSort", len(r2), func(i int) []byte { return r2[i][:] }, uniq)
		same("CommitmentIDs.RemoveDupsAndSort", len(r3), func(i int) []byte { return r3[i][:] }, uniq)
		same("OutputIDs.RemoveDupsAndSort", len(r4), func(i int) []byte { return r4[i][:] }, uniq)
		same("BlockIDs unchanged", len(bs), func(i int) []byte { return bs[i][:] }, seqs[v[0]])
		bs.Sort()
		ts.Sort()
		cs.Sort()
		os.Sort()
		same("BlockIDs.Sort", len(bs), func(i int) []byte { return bs[i][:] }, sorted)
		same("TransactionIDs.Sort", len(ts), func(i int) []byte { return ts[i][:] }, sorted)
		same("CommitmentIDs.Sort", len(cs), func(i int) []byte { return cs[i][:] }, sorted)
		same("OutputIDs.Sort", len(os), func(i int) []byte { return os[i][:] }, sorted)
		c.Outcomef("%d distinct", len(uniq))
	})
	sigLen := iotago.BlockHeaderLength + 1 + 32 + 64
	x.Product("short block bytes", []core.Dim{core.D("length", sigLen+3)}, func(v []int, c *core.C) {
		c.Step(1)
		b := ref.Fill(7, v[0])
		var id iotago.Identifier
		var err error
		p := core.Panics(func() { id, err = iotago.BlockIdentifierFromBlockBytes(b) })
		c.Check(p == "", "short panic", "%d bytes: %s", v[0], p)
		if v[0] < sigLen {
			c.Check(err != nil, "short", "%d bytes give %x", v[0], id)
			c.Outcome("refused")
			return
		}
		n := len(b)
		want := ref.Blake(ref.Blake(b[:iotago.BlockHeaderLength]), ref.Blake(b[iotago.BlockHeaderLength:n-97]), b[n-97:])
		c.Check(err == nil && bytes.Equal(id[:], want), "short id", "%d bytes give %x (%v), want %x", v[0], id, err, want)
		c.Outcome("digest")
	})
}

// obj2chain is non-nil for objects whose identifier does not depend on their content (chain outputs).
func obj2chain(o any) iotago.ChainOutput {
	if c, is := o.(iotago.ChainOutput); is {
		return c
	}
	return nil
}
