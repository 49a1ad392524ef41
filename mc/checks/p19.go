package checks

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"sort"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P19"] = p19 }

// blockMsg is the specified message a block issuer signs: header hash followed by body hash.
func blockMsg(h *iotago.BlockHeader, bodyHash []byte) []byte {
	return append(ref.Blake(ref.Enc(h)), bodyHash...)
}

// sigGood says whether the signature was made by the named key over the message. The all-zero key names nobody.
func sigGood(s iotago.Signature, msg []byte) bool {
	ed, is := s.(*iotago.Ed25519Signature)
	if !is || ed.PublicKey == [32]byte{} {
		return false
	}
	return ed25519.Verify(ed.PublicKey[:], msg, ed.Signature[:])
}

// issued is a block signed by key k.
func issued(b *iotago.Block, k int) *iotago.Block {
	b.Signature = gen.Sign(k, blockMsg(&b.Header, ref.Blake(ref.Enc(b.Body))))
	return b
}

// judgeSig compares the verdict of the block and its attestation with the specified one.
func judgeSig(c *core.C, e *gen.Env, b *iotago.Block, what string) bool {
	want := sigGood(b.Signature, blockMsg(&b.Header, ref.Blake(ref.Enc(b.Body))))
	c.Step(4)
	ok, err := b.VerifySignature()
	c.Check((ok && err == nil) == want && !(ok && err != nil), "block verdict", "%s: VerifySignature gives %v (%v), the signature is good: %v", what, ok, err, want)
	a := iotago.NewAttestation(e.API, b)
	ok, err = a.VerifySignature()
	c.Check((ok && err == nil) == want && !(ok && err != nil), "attestation verdict", "%s: the attestation's VerifySignature gives %v (%v), the signature is good: %v", what, ok, err, want)
	id, err := a.BlockID()
	bid, err2 := b.ID()
	c.Check(err == nil && err2 == nil && id == bid, "attestation names", "%s: attestation names %v (%v), the block is %v (%v)", what, id, err, bid, err2)
	c.Check(a.Slot() == slotOf(e.P, &b.Header), "attestation slot", "%s: attestation slot %d, want %d", what, a.Slot(), slotOf(e.P, &b.Header))
	bh := ref.Blake(ref.Enc(b.Body))
	c.Check(bytes.Equal(a.BodyHash[:], bh) && bytes.Equal(ref.Enc(&a.Header), ref.Enc(&b.Header)) && bytes.Equal(ref.Enc(a.Signature), ref.Enc(b.Signature)), "attestation content", "%s: attestation does not carry the block's header, body hash and signature", what)
	return want
}

func p19(x *core.Ctx) {
	x.Assume("Ed25519 signatures are unforgeable; keys outside the explored ones are represented by altered keys")
	e := gen.NewEnv(ref.Default())
	var objs, small []Obj
	for _, o := range catalog(e) {
		if o.Kind == "block" {
			objs = append(objs, o)
			if o.small {
				small = append(small, o)
			}
		}
	}
	blk := func(o Obj) *iotago.Block { return o.New().(*iotago.Block) }
	x.Product("signed blocks", []core.Dim{catDims(objs), core.D("key", 3), core.D("named key", 4)}, func(v []int, c *core.C) {
		b := issued(blk(objs[v[0]]), v[1])
		c.State(ref.Enc(b))
		s := b.Signature.(*iotago.Ed25519Signature)
		switch {
		case v[2] < 3:
			copy(s.PublicKey[:], gen.Pub(v[2]))
		default:
			s.PublicKey = [32]byte{}
		}
		good := judgeSig(c, e, b, "fresh block")
		c.Check(good == (v[1] == v[2]), "model", "the model's verdict is %v", good)
		c.Outcomef("good=%v", good)
		// made with the library's own signer
		sig, err := b.Sign(iotago.NewInMemoryAddressSigner(iotago.AddressKeys{Address: gen.Ed(v[1]), Keys: gen.Key(v[1])}), gen.Ed(v[1]))
		if c.Check(err == nil, "sign", "signing: %v", err) {
			b.Signature = sig
			c.Check(judgeSig(c, e, b, "signed by the library"), "signed", "the library's own signature is not good")
			m, err := b.SigningMessage()
			c.Check(err == nil && bytes.Equal(m, blockMsg(&b.Header, ref.Blake(ref.Enc(b.Body)))), "message", "signing message %x (%v)", m, err)
		}
		// carried over the wire
		raw := ref.Enc(b)
		back, n, err := iotago.BlockFromBytes(iotago.SingleVersionProvider(e.API))(raw)
		if err == nil && c.Check(n == len(raw), "wire length", "read %d of %d bytes", n, len(raw)) {
			judgeSig(c, e, back, "decoded block")
			a := iotago.NewAttestation(e.API, back)
			ab, err := a.Bytes()
			if c.Check(err == nil && bytes.Equal(ab, ref.Enc(a)), "attestation bytes", "attestation bytes %x (%v)", ab, err) {
				a2, n, err := iotago.AttestationFromBytes(iotago.SingleVersionProvider(e.API))(ab)
				if c.Check(err == nil && n == len(ab), "attestation decode", "%v", err) {
					ok, err := a2.VerifySignature()
					id, err2 := a2.BlockID()
					c.Check(ok && err == nil && err2 == nil && id == b.MustID() && a2.Compare(a) == 0, "decoded attestation", "decoded attestation: verifies %v (%v), names %v (%v)", ok, err, id, err2)
				}
			}
		}
	})

	type bit struct{ obj, bit int }
	var bits []bit
	for i, o := range small {
		for k := 0; k < len(o.Raw())*8; k++ {
			bits = append(bits, bit{i, k})
		}
	}
	x.Product("every bit of a signed block", []core.Dim{core.D("block and bit", len(bits))}, func(v []int, c *core.C) {
		bt := bits[v[0]]
		raw := ref.Enc(issued(blk(small[bt.obj]), 1))
		raw[bt.bit/8] ^= 1 << (bt.bit % 8)
		c.Note("%s, bit %d of byte %d of %d", small[bt.obj].Name, bt.bit%8, bt.bit/8, len(raw))
		b := &iotago.Block{API: e.API}
		var n int
		var err error
		if p := core.Panics(func() { n, err = e.API.Decode(raw, b) }); p != "" || err != nil || n != len(raw) || !bytes.Equal(ref.Enc(b), raw) {
			c.Outcome("refused")
			return
		}
		good := judgeSig(c, e, b, "altered block")
		c.Check(!good, "altered", "a signature over other bytes is good in the model")
		c.Outcome("altered")
	})

	type spot struct{ obj, at int }
	var spots []spot
	for i, o := range small {
		for k, s := range sites(blk(o)) {
			if s.scalar {
				spots = append(spots, spot{i, k})
			}
		}
	}
	x.Product("every field of a signed block changed in place", []core.Dim{core.D("block and field", len(spots)), core.DL("verified before", "no", "yes")}, func(v []int, c *core.C) {
		s := spots[v[0]]
		b := issued(blk(small[s.obj]), 1)
		st := sites(b)[s.at]
		c.Note("%s, %s", small[s.obj].Name, st.path)
		var a *iotago.Attestation
		if v[1] == 1 {
			judgeSig(c, e, b, "before")
			a = iotago.NewAttestation(e.API, b)
		}
		undo := st.apply()
		good := judgeSig(c, e, b, "changed "+st.path)
		c.Check(!good, "model", "still good in the model")
		if a != nil && b.Signature != nil {
			// the attestation made before carries its own header and body hash, the signature object may be shared
			want := sigGood(a.Signature, blockMsg(&a.Header, a.BodyHash[:]))
			ok, _ := a.VerifySignature()
			c.Check(ok == want, "earlier attestation", "earlier attestation verifies %v, want %v", ok, want)
		}
		undo()
		c.Check(judgeSig(c, e, b, "changed back"), "model", "not good after changing back")
		c.Outcome("changed")
	})

	// parts swapped between blocks
	x.Product("parts of two signed blocks exchanged", []core.Dim{core.D("a", len(small)), core.D("b", len(small)), core.DL("from b", "header", "body", "signature", "header and body", "header and signature", "body and signature"), core.DL("b is", "other block", "other time", "other issuer", "other commitment", "other parents")}, func(v []int, c *core.C) {
		a, b := issued(blk(small[v[0]]), 1), blk(small[v[1]])
		switch v[3] {
		case 1:
			b.Header.IssuingTime = b.Header.IssuingTime.Add(1)
		case 2:
			b.Header.IssuerID = gen.AccID(0x55)
		case 3:
			b.Header.SlotCommitmentID = commitID(0xc1, 18)
		case 4:
			setParents(b, iotago.BlockIDs{blockID(0x77, 3)}, nil, nil)
		}
		issued(b, 1)
		m := []int{1, 2, 4, 3, 5, 6}[v[2]]
		if m&1 != 0 {
			a.Header = b.Header
		}
		if m&2 != 0 {
			a.Body = b.Body
		}
		if m&4 != 0 {
			a.Signature = b.Signature
		}
		c.State(ref.Enc(a))
		c.Outcomef("good=%v", judgeSig(c, e, a, "mixed block"))
	})

	// attestations altered on their own
	x.Product("parts of attestations", []core.Dim{core.D("block", len(small)), core.DL("altered", "nothing", "body hash", "header hash taken as body hash", "body hash zero", "signature of another key", "all-zero key", "all-zero key and signature", "issuing time", "issuer", "network", "version", "commitment", "finalized slot")}, func(v []int, c *core.C) {
		b := issued(blk(small[v[0]]), 1)
		a := iotago.NewAttestation(e.API, b)
		switch v[1] {
		case 1:
			a.BodyHash[31] ^= 1
		case 2:
			copy(a.BodyHash[:], ref.Blake(ref.Enc(&b.Header)))
		case 3:
			a.BodyHash = iotago.Identifier{}
		case 4:
			a.Signature = gen.Sign(2, blockMsg(&b.Header, a.BodyHash[:]))
			copy(a.Signature.(*iotago.Ed25519Signature).PublicKey[:], gen.Pub(1))
		case 5:
			a.Signature.(*iotago.Ed25519Signature).PublicKey = [32]byte{}
		case 6:
			a.Signature = &iotago.Ed25519Signature{}
		case 7:
			a.Header.IssuingTime = a.Header.IssuingTime.Add(1)
		case 8:
			a.Header.IssuerID[0] ^= 1
		case 9:
			a.Header.NetworkID ^= 1
		case 10:
			a.Header.ProtocolVersion ^= 1
		case 11:
			a.Header.SlotCommitmentID[35] ^= 1
		case 12:
			a.Header.LatestFinalizedSlot ^= 1
		}
		c.State(ref.Enc(a))
		c.Step(2)
		want := sigGood(a.Signature, blockMsg(&a.Header, a.BodyHash[:]))
		c.Check(want == (v[1] == 0), "model", "model says %v", want)
		ok, err := a.VerifySignature()
		c.Check((ok && err == nil) == want, "attestation verdict", "VerifySignature gives %v (%v), want %v", ok, err, want)
		id, err := a.BlockID()
		w := blockIDOf(e.P, &a.Header, a.BodyHash[:], a.Signature)
		c.Check(err == nil && bytes.Equal(id[:], w), "attestation id", "BlockID is %v (%v), want %x", id, err, w)
		c.Outcomef("good=%v", want)
	})

	// keys that name nobody: with the all-zero key some messages would satisfy the signature equation
	x.Product("all-zero key over many blocks", []core.Dim{core.D("time", 256), core.DL("signature", "zero", "R identity, S zero", "R zero point, S zero", "own")}, func(v []int, c *core.C) {
		b := blk(small[0])
		b.Header.IssuingTime = b.Header.IssuingTime.Add(time.Duration(v[0]))
		s := &iotago.Ed25519Signature{}
		switch v[1] {
		case 1:
			s.Signature[0] = 1
		case 2:
			s.Signature[31] = 0x80
		case 3:
			s.Signature = issued(b, 1).Signature.(*iotago.Ed25519Signature).Signature
		}
		b.Signature = s
		c.State(ref.Enc(b))
		c.Outcomef("good=%v", judgeSig(c, e, b, "all-zero key"))
	})

	// issuer keys of an account: histories of adding and removing keys
	keyOfs := func(i int) iotago.BlockIssuerKey { return gen.BIKey(i) }
	ops := []string{"add 0", "add 1", "add 2", "add 3", "remove 0", "remove 1", "remove 2", "remove 3"}
	seqs := lists(len(ops), x0(x, 4, 5))
	x.Product("issuer keys", []core.Dim{core.DL("history", listNames(seqs)...)}, func(v []int, c *core.C) {
		keys := iotago.NewBlockIssuerKeys()
		set := map[int]bool{}
		for _, op := range seqs[v[0]] {
			c.Step(1)
			k := op % 4
			if op < 4 {
				keys.Add(keyOfs(k))
				set[k] = true
			} else {
				keys.Remove(keyOfs(k))
				delete(set, k)
			}
			var want [][]byte
			for i := range set {
				want = append(want, ref.Enc(keyOfs(i)))
			}
			sort.Slice(want, func(i, j int) bool { return bytes.Compare(want[i], want[j]) < 0 })
			var got [][]byte
			for _, g := range keys {
				got = append(got, ref.Enc(g))
			}
			c.Check(bytes.Equal(bytes.Join(got, nil), bytes.Join(want, nil)), "issuer keys", "after %v the keys are %x, want %x", seqs[v[0]], got, want)
			for i := 0; i < 4; i++ {
				c.Check(keys.Has(keyOfs(i)) == set[i], "has", "key %d is listed: %v, want %v", i, keys.Has(keyOfs(i)), set[i])
				pk := iotago.Ed25519PublicKeyHashBlockIssuerKeyFromPublicKey([32]byte(gen.Pub(i)))
				c.Check(keys.Has(pk) == set[i], "has", "key of public key %d is listed: %v, want %v", i, keys.Has(pk), set[i])
				// altered keys are never listed
				pk.PublicKeyHash[31] ^= 1
				c.Check(!keys.Has(pk), "has", "an altered key %d is listed", i)
			}
			c.StateS(fmt.Sprint(set))
		}
		c.Outcomef("%d keys", len(set))
	})
	x.Product("key lists", []core.Dim{core.D("a", 16), core.D("b", 16), core.DL("order", "sorted", "reversed")}, func(v []int, c *core.C) {
		mk := func(m int, rev bool) (l []iotago.BlockIssuerKey) {
			for i := 0; i < 4; i++ {
				k := i
				if rev {
					k = 3 - i
				}
				if m>>k&1 == 1 {
					l = append(l, keyOfs(k))
				}
			}
			return
		}
		a, b := iotago.NewBlockIssuerKeys(mk(v[0], false)...), iotago.NewBlockIssuerKeys(mk(v[1], v[2] == 1)...)
		c.Step(2)
		c.Check(a.Equal(b) == (v[0] == v[1]), "keys equal", "key sets %b and %b Equal: %v", v[0], v[1], a.Equal(b))
		c.Check(sort.SliceIsSorted(b, func(i, j int) bool { return bytes.Compare(ref.Enc(b[i]), ref.Enc(b[j])) < 0 }), "keys sorted", "NewBlockIssuerKeys is not sorted")
		c.Outcomef("%v", v[0] == v[1])
	})

	// the order of attestations: commitment slot, then issuing time, then body hash
	type att struct{ slot, time, hash int }
	var atts []*att
	atts = append(atts, nil)
	for s := 0; s < 4; s++ {
		for t := 0; t < 4; t++ {
			for h := 0; h < 4; h++ {
				atts = append(atts, &att{s, t, h})
			}
		}
	}
	cslots := []uint32{1, 2, 256, 1 << 31}
	times := []int64{0, 1, 1000000000, 2000000001}
	mk := func(a *att, other byte) *iotago.Attestation {
		if a == nil {
			return nil
		}
		r := &iotago.Attestation{API: e.API, Signature: gen.Sign(int(other)%3, []byte("x"))}
		// content that must not matter differs between the two sides
		r.Header = iotago.BlockHeader{ProtocolVersion: iotago.Version(other), NetworkID: iotago.NetworkID(other), SlotCommitmentID: commitID(^other, cslots[a.slot]), IssuingTime: time.Unix(0, times[a.time]).UTC(), LatestFinalizedSlot: iotago.SlotIndex(other), IssuerID: gen.AccID(other)}
		r.BodyHash[0], r.BodyHash[31] = []byte{0, 0, 1, 0xff}[a.hash], []byte{0, 1, 0, 0}[a.hash]
		return r
	}
	cmp := func(a, b *att) int {
		if a == nil || b == nil {
			switch {
			case a == b:
				return 0
			case a == nil:
				return -1
			}
			return 1
		}
		for _, p := range [][2]int{{a.slot, b.slot}, {a.time, b.time}, {a.hash, b.hash}} {
			if p[0] != p[1] {
				if p[0] < p[1] {
					return -1
				}
				return 1
			}
		}
		return 0
	}
	x.Product("order of attestations", []core.Dim{core.D("a", len(atts)), core.D("b", len(atts)), core.DV("other content", []byte{1, 2})}, func(v []int, c *core.C) {
		a, b := atts[v[0]], atts[v[1]]
		c.Step(1)
		got := mk(a, 1).Compare(mk(b, byte(v[2]+1)))
		want := cmp(a, b)
		sign := 0
		if got > 0 {
			sign = 1
		} else if got < 0 {
			sign = -1
		}
		c.Check(sign == want, "order", "Compare of %+v and %+v gives %d, want %d", a, b, got, want)
		c.Outcomef("%d", want)
	})
}
