package checks

import (
	"bytes"
	"context"
	"crypto"
	"encoding/json"
	"fmt"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/merklehasher"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P27"] = p27 }

// blob is a hashable value of arbitrary bytes.
type blob []byte

func (b blob) Bytes() ([]byte, error) { return b, nil }

type (
	mProof = merklehasher.Proof[blob]
	mNode  = merklehasher.Node[blob]
	mLeaf  = merklehasher.LeafHash[blob]
	mValue = merklehasher.ValueHash[blob]
	mAny   = merklehasher.MerkleHashable[blob]
)

func hasherOf[V merklehasher.Value]() *merklehasher.Hasher[V] {
	return merklehasher.NewHasher[V](crypto.BLAKE2b_256)
}

// proves is what a verifier of an inclusion proof decides.
func proves(p *mProof, v blob, root []byte) (ok bool, panicked string) {
	panicked = core.Panics(func() {
		h := hasherOf[blob]()
		has, err := p.ContainsValue(v, h)
		ok = err == nil && has && bytes.Equal(p.Hash(h), root)
	})
	return
}

func raws(vs []blob) (out [][]byte) {
	for _, v := range vs {
		out = append(out, v)
	}
	return
}

// memberValues is an ordered list of n distinct values.
func memberValues(n int) (out []blob) {
	for i := 0; i < n; i++ {
		out = append(out, blob(ref.Blake([]byte{byte(i), byte(i >> 8)})))
	}
	return
}

// bitsOf is the inner structure of an audit path: the specified tree of (sub)lists.
func proofTree(vs []blob, i int) mAny {
	if len(vs) == 1 {
		return &mValue{Hash: ref.Blake([]byte{0}, vs[0])}
	}
	k := 1
	for k*2 < len(vs) {
		k *= 2
	}
	if i < k {
		return &mNode{Left: proofTree(vs[:k], i), Right: &mLeaf{Hash: ref.MerkleRoot(raws(vs[k:]))}}
	}
	return &mNode{Left: &mLeaf{Hash: ref.MerkleRoot(raws(vs[:k]))}, Right: proofTree(vs[k:], i-k)}
}

// expanded are the ways to write the subtree of a list with more than one member without proving anything in it.
func expanded(vs []blob) mAny {
	k := 1
	for k*2 < len(vs) {
		k *= 2
	}
	return &mNode{Left: &mLeaf{Hash: ref.MerkleRoot(raws(vs[:k]))}, Right: &mLeaf{Hash: ref.MerkleRoot(raws(vs[k:]))}}
}

type alteredProof struct {
	name string
	node mAny
}

// alterations lists every structural change of the audit path of member i at every one of its places.
func alterations(vs []blob, i int) (out []alteredProof) {
	other := func(l []blob) (out []alteredProof) {
		h := ref.MerkleRoot(raws(l))
		out = append(out, alteredProof{"sibling as value", &mValue{Hash: h}}, alteredProof{"sibling emptied", &mLeaf{}}, alteredProof{"sibling extended", &mLeaf{Hash: append(append([]byte{}, h...), 0)}},
			alteredProof{"sibling shortened", &mLeaf{Hash: h[:31]}}, alteredProof{"sibling doubled", &mNode{Left: &mLeaf{Hash: h}, Right: &mLeaf{Hash: h}}})
		if len(l) == 1 {
			out = append(out, alteredProof{"sibling replaced by its value", &mLeaf{Hash: l[0]}})
			return
		}
		for j := range l {
			out = append(out, alteredProof{fmt.Sprintf("sibling opened to its member %d", j), proofTree(l, j)})
		}
		x := expanded(l).(*mNode)
		both := append(append([]byte{}, x.Left.(*mLeaf).Hash...), x.Right.(*mLeaf).Hash...)
		for cut := 0; cut <= 64; cut++ {
			out = append(out, alteredProof{fmt.Sprintf("sibling opened at byte %d", cut), &mNode{Left: &mLeaf{Hash: both[:cut]}, Right: &mLeaf{Hash: both[cut:]}}})
			out = append(out, alteredProof{fmt.Sprintf("sibling opened at byte %d as a value", cut), &mNode{Left: &mValue{Hash: both[:cut]}, Right: &mLeaf{Hash: both[cut:]}}})
		}
		return
	}
	if len(vs) == 1 {
		h := ref.Blake([]byte{0}, vs[0])
		return []alteredProof{{"value as sibling", &mLeaf{Hash: h}}, {"value emptied", &mValue{}}, {"value extended", &mValue{Hash: append(append([]byte{}, h...), 0)}}, {"value replaced by its bytes", &mValue{Hash: vs[0]}},
			{"value doubled", &mNode{Left: &mValue{Hash: h}, Right: &mValue{Hash: h}}}, {"value paired with nothing", &mNode{Left: &mValue{Hash: h}, Right: &mLeaf{}}}, {"nothing paired with value", &mNode{Left: &mLeaf{}, Right: &mValue{Hash: h}}}}
	}
	k := 1
	for k*2 < len(vs) {
		k *= 2
	}
	n := proofTree(vs, i).(*mNode)
	out = append(out, alteredProof{"children swapped", &mNode{Left: n.Right, Right: n.Left}}, alteredProof{"left child only", n.Left}, alteredProof{"right child only", n.Right},
		alteredProof{"left child twice", &mNode{Left: n.Left, Right: n.Left}}, alteredProof{"right child twice", &mNode{Left: n.Right, Right: n.Right}},
		alteredProof{"node collapsed", &mLeaf{Hash: ref.MerkleRoot(raws(vs))}}, alteredProof{"node collapsed to a value", &mValue{Hash: ref.MerkleRoot(raws(vs))}})
	if i < k {
		for _, a := range alterations(vs[:k], i) {
			out = append(out, alteredProof{"left: " + a.name, &mNode{Left: a.node, Right: n.Right}})
		}
		for _, a := range other(vs[k:]) {
			out = append(out, alteredProof{"right: " + a.name, &mNode{Left: n.Left, Right: a.node}})
		}
	} else {
		for _, a := range alterations(vs[k:], i-k) {
			out = append(out, alteredProof{"right: " + a.name, &mNode{Left: n.Left, Right: a.node}})
		}
		for _, a := range other(vs[:k]) {
			out = append(out, alteredProof{"left: " + a.name, &mNode{Left: a.node, Right: n.Right}})
		}
	}
	return
}

func encTree(n mAny) []byte {
	switch x := n.(type) {
	case *mValue:
		return append([]byte{2, byte(len(x.Hash))}, x.Hash...)
	case *mLeaf:
		return append([]byte{1, byte(len(x.Hash))}, x.Hash...)
	case *mNode:
		return append(append([]byte{0}, encTree(x.Left)...), encTree(x.Right)...)
	}
	return nil
}

func p27(x *core.Ctx) {
	sizes := seq(core.Pick(x, 34, 132))
	sizes = append(sizes, core.Pick(x, []int{63, 64, 65, 127, 128}, []int{255, 256, 257, 511, 512, 513})...)

	// generated proofs: every list size and position
	x.Product("every size and position", []core.Dim{core.DV("members", sizes)}, func(v []int, c *core.C) {
		n := sizes[v[0]]
		vs, h := memberValues(n), hasherOf[blob]()
		root, err := h.HashValues(vs)
		c.Step(1)
		if !c.Check(err == nil && bytes.Equal(root, ref.MerkleRoot(raws(vs))) && bytes.Equal(root, h.Hash(raws(vs))), "root", "root of %d members: %x (%v), specified %x", n, root, err, ref.MerkleRoot(raws(vs))) {
			return
		}
		c.Check(n > 0 || bytes.Equal(root, h.EmptyRoot()), "empty root", "the empty root differs from the root of the empty list")
		c.Outcomef("path depth %d", len(fmt.Sprintf("%b", n)))
		for i := 0; i < n; i++ {
			p, err := h.ComputeProofForIndex(vs, i)
			p2, err2 := h.ComputeProof(vs, vs[i])
			c.Step(2)
			if !c.Check(err == nil && err2 == nil, "no proof", "member %d of %d: %v, %v", i, n, err, err2) {
				return
			}
			want := ref.MerkleProof(raws(vs), i)
			for _, q := range []*mProof{p, p2} {
				ok, pan := proves(q, vs[i], root)
				c.Check(ok, "honest proof fails", "the proof of member %d of %d does not verify %s", i, n, pan)
				b, err := q.Bytes()
				c.Check(err == nil && bytes.Equal(b, want), "proof form", "member %d of %d: proof %x (%v), specified %x", i, n, b, err, want)
			}
			back, used, err := merklehasher.ProofFromBytes[blob](want)
			if c.Check(err == nil && used == len(want), "proof decoding", "member %d of %d: %v, %d of %d bytes", i, n, err, used, len(want)) {
				ok, pan := proves(back, vs[i], root)
				c.Check(ok, "decoded proof fails", "member %d of %d %s", i, n, pan)
			}
			js, err := p.JSONEncode()
			var viaJS *mProof
			if err == nil {
				viaJS, err = merklehasher.ProofFromJSON[blob](js)
			}
			if c.Check(err == nil, "proof json", "member %d of %d: %v", i, n, err) {
				b, _ := viaJS.Bytes()
				ok, pan := proves(viaJS, vs[i], root)
				c.Check(ok && bytes.Equal(b, want), "json proof fails", "member %d of %d %s", i, n, pan)
			}
			for j := 0; j < n+2; j++ {
				if j == i {
					continue
				}
				w := append(memberValues(n), blob("stranger"), blob{})[j]
				c.Step(1)
				ok, _ := proves(p, w, root)
				c.Check(!ok, "proves another value", "the proof of member %d of %d verifies for value %d", i, n, j)
			}
		}
		// requests for non-members
		for _, i := range []int{-1 << 63, -1, n, n + 1, 1<<63 - 1} {
			var err error
			pan := core.Panics(func() { _, err = h.ComputeProofForIndex(vs, i) })
			c.Step(1)
			c.Check(pan == "" && err != nil, "proof of no member", "proof for index %d of %d: err %v %s", i, n, err, pan)
		}
		for _, w := range []blob{{}, blob("stranger"), root} {
			_, err := h.ComputeProof(vs, w)
			c.Step(1)
			c.Check(err != nil, "proof of a stranger", "a proof for a value outside the list of %d was made", n)
		}
	})

	// all small lists over an adversarial alphabet: roots and proofs are exclusive
	a, b := blob("a"), blob("b")
	la, lb := ref.Blake([]byte{0}, a), ref.Blake([]byte{0}, b)
	ab := append(append([]byte{}, la...), lb...)
	alpha := []blob{a, b, {}, {0}, {1}, la, ab, append(blob{1}, ab...), append(blob{0}, a...), append(append(blob{}, a...), b...)}
	names := []string{"a", "b", "empty", "00", "01", "leaf hash of a", "leaf hashes of a and b", "node preimage of a and b", "leaf preimage of a", "a followed by b"}
	maxLen := core.Pick(x, 3, 4)
	ls := lists(len(alpha), maxLen)
	mk := func(l []int) (out []blob) {
		for _, i := range l {
			out = append(out, alpha[i])
		}
		return
	}
	h := hasherOf[blob]()
	rootOf := map[string]int{}
	for i, l := range ls {
		r := string(h.Hash(raws(mk(l))))
		if j, dup := rootOf[r]; dup {
			x.Violation("roots collide", fmt.Sprintf("lists %v and %v have the same root", ls[i], ls[j]), core.Replay{})
		}
		rootOf[r] = i
	}
	x.Assume("second preimages are searched among values built from the tree's own hashes and preimages; BLAKE2b itself is assumed collision free")
	x.Product("adversarial lists", []core.Dim{core.DL("list", listNames(ls)...)}, func(v []int, c *core.C) {
		vs := mk(ls[v[0]])
		root := h.Hash(raws(vs))
		c.Step(1)
		c.Outcomef("%d members", len(vs))
		c.Check(bytes.Equal(root, ref.MerkleRoot(raws(vs))), "root", "root %x differs from the specified one", root)
		for i := range vs {
			p, err := h.ComputeProofForIndex(vs, i)
			if !c.Check(err == nil, "no proof", "%v", err) {
				return
			}
			first, err := h.ComputeProof(vs, vs[i])
			if !c.Check(err == nil, "no proof", "%v", err) {
				return
			}
			for _, q := range []*mProof{p, first} {
				ok, pan := proves(q, vs[i], root)
				c.Check(ok, "honest proof fails", "member %d %s", i, pan)
				for k, w := range alpha {
					ok, _ := proves(q, w, root)
					c.Step(1)
					c.Check(ok == bytes.Equal(w, vs[i]), "proves another value", "the proof of member %d verifies for %s: %v", i, names[k], ok)
				}
				for r, k := range rootOf {
					if r == string(root) {
						continue
					}
					ok, _ := proves(q, vs[i], []byte(r))
					c.Check(!ok, "proves for another root", "the proof of member %d verifies against the root of %v", i, ls[k])
				}
			}
		}
	})

	ser := serix.NewAPI()
	merklehasher.RegisterSerixRules[blob](ser)
	decode := func(raw []byte) (*mProof, int, error) {
		p := new(mProof)
		used, err := ser.Decode(context.Background(), raw, p)
		return p, used, err
	}
	// alterations of the structure
	alterN := core.Pick(x, 6, 9)
	x.Product("structural alterations", []core.Dim{core.D("members", alterN), core.D("member", alterN)}, func(v []int, c *core.C) {
		n, i := v[0]+1, v[1]
		if i >= n {
			c.Skip()
			return
		}
		vs := memberValues(n)
		root, honest := h.Hash(raws(vs)), encTree(proofTree(vs, i))
		for _, alt := range alterations(vs, i) {
			raw := encTree(alt.node)
			if bytes.Equal(raw, honest) {
				continue
			}
			dec, _, err := decode(raw)
			if err != nil {
				dec = nil
			}
			c.Outcomef("decodes %v", err == nil)
			for form, p := range map[string]*mProof{"built": {MerkleHashable: alt.node}, "decoded": dec} {
				if p == nil {
					continue
				}
				for j, w := range append(append([]blob{}, vs...), blob("stranger"), blob(root)) {
					c.Step(1)
					ok, pan := proves(p, w, root)
					// opening a sibling to one of its members is that member's own proof only when nothing else is proven
					c.Check(!ok, "altered proof verifies", "%s proof of member %d of %d altered (%s) verifies for value %d", form, i, n, alt.name, j)
					c.Check(pan == "", "altered proof crashes", "%s proof of member %d of %d altered (%s): %s", form, i, n, alt.name, pan)
				}
			}
		}
	})
	// alterations of the bytes
	byteN := core.Pick(x, 4, 7)
	x.Product("byte alterations", []core.Dim{core.D("members", byteN), core.D("member", byteN), core.DL("change", "one byte", "truncated", "byte removed", "byte inserted", "json")}, func(v []int, c *core.C) {
		n, i := v[0]+1, v[1]
		if i >= n {
			c.Skip()
			return
		}
		vs := memberValues(n)
		root, honest := h.Hash(raws(vs)), encTree(proofTree(vs, i))
		judge := func(what string, p *mProof, err error) {
			c.Step(1)
			if err != nil {
				c.Outcome("refused")
				return
			}
			c.Outcome("decoded")
			for j, w := range vs {
				ok, pan := proves(p, w, root)
				c.Check(!ok, "altered proof verifies", "proof of member %d of %d with %s verifies for value %d", i, n, what, j)
				c.Check(pan == "", "altered proof crashes", "proof of member %d of %d with %s: %s", i, n, what, pan)
			}
		}
		try := func(what string, raw []byte) {
			var p *mProof
			var err error
			var used int
			pan := core.Panics(func() { p, used, err = decode(raw) })
			if pan != "" {
				c.Fail("decoder crashes", "proof of member %d of %d with %s: %s", i, n, what, pan)
				return
			}
			if err == nil && bytes.Equal(raw[:used], honest) {
				return // the change lies behind the proof
			}
			judge(what, p, err)
		}
		vals := []byte{0, 1, 2, 3, 31, 33, 64, 255}
		switch v[2] {
		case 0:
			for k := range honest {
				for d := 1; d < 256; d++ {
					raw := append([]byte{}, honest...)
					raw[k] += byte(d)
					try(fmt.Sprintf("byte %d set to %d", k, raw[k]), raw)
				}
			}
		case 1:
			for k := range honest {
				try(fmt.Sprintf("only %d bytes", k), honest[:k])
			}
		case 2:
			for k := range honest {
				try(fmt.Sprintf("byte %d removed", k), append(append([]byte{}, honest[:k]...), honest[k+1:]...))
			}
		case 3:
			for k := range honest {
				for _, b := range append(vals, honest[k]) {
					try(fmt.Sprintf("byte %d inserted before byte %d", b, k), append(append(append([]byte{}, honest[:k]...), b), honest[k:]...))
				}
			}
		case 4:
			js, err := (&mProof{MerkleHashable: proofTree(vs, i)}).JSONEncode()
			if !c.Check(err == nil, "proof json", "%v", err) {
				return
			}
			for k := range js {
				for _, ch := range []byte("0123456789abcdefx\"{}[]:, lrhtn-") {
					if js[k] == ch {
						continue
					}
					raw := append([]byte{}, js...)
					raw[k] = ch
					var p *mProof
					var err error
					pan := core.Panics(func() {
						p = new(mProof)
						err = ser.JSONDecode(context.Background(), raw, p)
					})
					if pan != "" {
						c.Fail("decoder crashes", "json %s: %s", raw, pan)
						continue
					}
					if err == nil && p.MerkleHashable != nil {
						if bytes.Equal(encTree(p.MerkleHashable), honest) {
							continue // same proof spelled differently (case, ignored key)
						}
					}
					judge(fmt.Sprintf("json %s", raw), p, err)
				}
			}
		}
	})

	// commitment roots
	x.Product("commitment roots", []core.Dim{core.D("equal fields", 256)}, func(v []int, c *core.C) {
		var f [8]iotago.Identifier
		for i := range f {
			f[i] = gen.Fill32(byte(1 + i))
			if v[0]>>i&1 == 1 {
				f[i] = gen.Fill32(99)
			}
		}
		// order of the specification: tangle, mutation, state, account, attestations, committee, rewards, parameters
		r := iotago.NewRoots(f[0], f[1], f[4], f[2], f[3], f[5], f[6], f[7])
		var vs [][]byte
		for _, x := range f {
			vs = append(vs, append([]byte{}, x[:]...))
		}
		id := r.ID()
		c.Step(1)
		c.Check(bytes.Equal(id[:], ref.MerkleRoot(vs)), "roots id", "root of the commitment roots %x, specified %x", id, ref.MerkleRoot(vs))
		for name, q := range map[string]struct {
			p *merklehasher.Proof[iotago.Identifier]
			i int
		}{"attestations": {r.AttestationsProof(), 4}, "tangle": {r.TangleProof(), 0}, "mutation": {r.MutationProof(), 1}} {
			b, err := q.p.Bytes()
			c.Check(err == nil && bytes.Equal(b, ref.MerkleProof(vs, q.i)), "roots proof", "%s proof %x (%v), specified %x", name, b, err, ref.MerkleProof(vs, q.i))
			c.Check(iotago.VerifyProof(q.p, f[q.i], id), "roots proof fails", "%s proof does not verify", name)
			for i := range f {
				ok := iotago.VerifyProof(q.p, f[i], id)
				c.Step(1)
				c.Outcomef("verifies %v", ok)
				c.Check(ok == (f[i] == f[q.i]), "roots proof of another value", "%s proof verifies for field %d: %v", name, i, ok)
				for bit := 0; bit < 256; bit += 37 {
					bad := id
					bad[bit/8] ^= 1 << (bit % 8)
					c.Check(!iotago.VerifyProof(q.p, f[q.i], bad), "roots proof for another root", "%s proof verifies against another root", name)
					val := f[q.i]
					val[bit/8] ^= 1 << (bit % 8)
					c.Check(!iotago.VerifyProof(q.p, val, id), "roots proof of another value", "%s proof verifies for another value", name)
				}
			}
		}
	})

	outputProofs(x)
}

// outputProofs checks proofs that tie an output to its identifier.
func outputProofs(x *core.Ctx) {
	e := gen.NewEnv(ref.Default())
	mkOuts := func(n int, same bool) (out iotago.TxEssenceOutputs) {
		for i := 0; i < n; i++ {
			k := i
			if same {
				k = 0
			}
			switch k % 6 {
			case 0:
				out = append(out, basic(gen.Ed(0), uint64(1000+k), 0))
			case 1:
				out = append(out, account(gen.AccID(byte(k)), gen.Ed(1), uint64(1000+k), 0, 3))
			case 2:
				out = append(out, nft(gen.NFTID(byte(k)), gen.Ed(0), uint64(1000+k), 0))
			case 3:
				out = append(out, anchor(gen.AncID(byte(k)), gen.Ed(1), gen.Ed(0), uint64(1000+k), 0, 0))
			case 4:
				out = append(out, foundry(gen.AccID(1), uint64(1000+k), uint32(k), 10, 0, 100))
			case 5:
				out = append(out, delegation(gen.DelID(byte(k)), gen.Ed(0), uint64(1000+k), 5, gen.AccAddr(7), 1, 2))
			}
		}
		return
	}
	maxN := core.Pick(x, 10, 40)
	ns := append(seq(maxN), core.Pick(x, []int{127, 128}, []int{63, 64, 65, 100, 127, 128})...)
	slots := []iotago.SlotIndex{0, 1, 255, 256, 1 << 31, 1<<32 - 1}
	x.Product("output proofs", []core.Dim{core.DV("outputs", ns), core.DV("creation slot", slots), core.DL("outputs are", "distinct", "equal")}, func(v []int, c *core.C) {
		n := ns[v[0]]
		tx := synTx(e).Transaction
		tx.TransactionEssence.CreationSlot = slots[v[1]]
		tx.Outputs = mkOuts(n, v[2] == 1)
		if n > 10 && v[1] > 1 {
			c.Skip()
			return
		}
		var leafs [][]byte
		for _, o := range tx.Outputs {
			leafs = append(leafs, ref.Enc(o))
		}
		txc := ref.TxCommitment(tx)
		for _, i := range []int{n, n + 1, 65535} {
			var err error
			pan := core.Panics(func() { _, err = iotago.OutputIDProofFromTransaction(tx, uint16(i)) })
			c.Step(1)
			c.Check(err != nil && pan == "", "proof of no output", "a proof of output %d of %d was made: %v %s", i, n, err, pan)
		}
		for i := 0; i < n; i++ {
			want := outputIDOf(tx, i)
			p, err := iotago.OutputIDProofFromTransaction(tx, uint16(i))
			if !c.Check(err == nil, "no output proof", "output %d of %d: %v", i, n, err) {
				return
			}
			raw, err := p.Bytes()
			c.Check(err == nil && bytes.Equal(raw, ref.OutputIDProof(tx, i)), "output proof form", "output %d of %d: %x (%v)", i, n, raw, err)
			js, err := e.API.JSONEncode(p)
			c.Check(err == nil, "output proof json", "output %d of %d: %v", i, n, err)
			viaBytes, used, err := iotago.OutputIDProofFromBytes(e.API)(ref.OutputIDProof(tx, i))
			c.Check(err == nil && used == len(raw), "output proof decoding", "output %d of %d: %v", i, n, err)
			viaJS := new(iotago.OutputIDProof)
			err = e.API.JSONDecode(js, viaJS)
			if !c.Check(err == nil && viaBytes != nil, "output proof json", "output %d of %d: %v", i, n, err) {
				return
			}
			for form, q := range map[string]*iotago.OutputIDProof{"made": p, "from bytes": viaBytes, "from json": viaJS} {
				for j := 0; j < n; j++ {
					if n > 10 && j != i && j != i^1 && j != n-1 {
						continue
					}
					id, err := q.OutputID(tx.Outputs[j])
					c.Step(1)
					c.Outcomef("verifies %v", err == nil)
					same := bytes.Equal(leafs[i], leafs[j])
					c.Check((err == nil) == same, "output proof of another output", "the proof (%s) of output %d of %d verifies for output %d: %v (%v)", form, i, n, j, err == nil, err)
					c.Check(err != nil || id == want, "output proof identifier", "output %d of %d: identifier %s, specified %s", i, n, id, want)
				}
				for name, change := range map[string]func(*iotago.OutputIDProof){
					"slot":       func(q *iotago.OutputIDProof) { q.Slot ^= 1 },
					"index":      func(q *iotago.OutputIDProof) { q.OutputIndex ^= 1 },
					"commitment": func(q *iotago.OutputIDProof) { q.TransactionCommitment[31] ^= 1 },
					"first byte": func(q *iotago.OutputIDProof) { q.TransactionCommitment[0] ^= 128 },
				} {
					q2 := *q
					change(&q2)
					id, err := q2.OutputID(tx.Outputs[i])
					c.Step(1)
					c.Check(err != nil || id != want, "altered output proof", "the proof (%s) of output %d of %d with another %s still gives its identifier", form, i, n, name)
				}
			}
			_ = txc
		}
	})

	// field changes of the proven output
	x.Product("changed outputs", []core.Dim{core.D("output", 6), core.D("of", 4)}, func(v []int, c *core.C) {
		tx := synTx(e).Transaction
		tx.Outputs = mkOuts(6, false)[v[0]:]
		tx.Outputs = append(mkOuts(6, false)[:v[1]], tx.Outputs[0])
		i := len(tx.Outputs) - 1
		p, err := iotago.OutputIDProofFromTransaction(tx, uint16(i))
		if !c.Check(err == nil, "no output proof", "%v", err) {
			return
		}
		want := outputIDOf(tx, i)
		o := tx.Outputs[i]
		orig := ref.Enc(o)
		for _, s := range sites(o) {
			undo := s.apply()
			var changed bool
			if core.Panics(func() { changed = !bytes.Equal(ref.Enc(o), orig) }) == "" && changed {
				var id iotago.OutputID
				var err error
				pan := core.Panics(func() { id, err = p.OutputID(o) })
				c.Step(1)
				c.Outcomef("refused %v", err != nil || pan != "")
				c.Check(pan != "" || err != nil, "output proof of a changed output", "the proof verifies for its output with %s changed (%s, wanted %s)", s.path, id, want)
			}
			undo()
		}
		id, err := p.OutputID(o)
		c.Check(err == nil && id == want, "output proof identifier", "identifier %s (%v), specified %s", id, err, want)
	})

	// byte and json alterations of the whole proof
	x.Product("altered output proofs", []core.Dim{core.D("outputs", core.Pick(x, 3, 5)), core.D("output", core.Pick(x, 3, 5)), core.DL("form", "byte changed", "byte removed", "truncated", "json")}, func(v []int, c *core.C) {
		n, i := v[0]+1, v[1]
		if i >= n {
			c.Skip()
			return
		}
		tx := synTx(e).Transaction
		tx.Outputs = mkOuts(n, false)
		raw := ref.OutputIDProof(tx, i)
		want := outputIDOf(tx, i)
		judge := func(what string, q *iotago.OutputIDProof, err error, pan string) {
			c.Step(1)
			if pan != "" {
				c.Fail("output proof decoder crashes", "%s: %s", what, pan)
				return
			}
			if err != nil {
				c.Outcome("refused")
				return
			}
			var id iotago.OutputID
			pan = core.Panics(func() {
				if q.OutputCommitmentProof == nil {
					err = fmt.Errorf("no proof")
					return
				}
				id, err = q.OutputID(tx.Outputs[i])
			})
			c.Check(pan == "", "altered output proof crashes", "%s: %s", what, pan)
			c.Outcomef("gives an identifier %v", err == nil)
			c.Check(err != nil || id != want, "altered output proof", "the proof of output %d of %d with %s still gives its identifier", i, n, what)
			for j, o := range tx.Outputs {
				if j == i {
					continue
				}
				core.Panics(func() { _, err = q.OutputID(o) })
				c.Check(err != nil, "altered output proof of another output", "the proof of output %d of %d with %s verifies for output %d", i, n, what, j)
			}
		}
		try := func(what string, b []byte) {
			var q *iotago.OutputIDProof
			var err error
			var used int
			pan := core.Panics(func() { q, used, err = iotago.OutputIDProofFromBytes(e.API)(b) })
			if pan == "" && err == nil && used <= len(b) && bytes.Equal(b[:used], raw) {
				return
			}
			judge(what, q, err, pan)
		}
		switch v[2] {
		case 0:
			for k := range raw {
				for d := 1; d < 256; d++ {
					b := append([]byte{}, raw...)
					b[k] += byte(d)
					try(fmt.Sprintf("byte %d set to %d", k, b[k]), b)
				}
			}
		case 1:
			for k := range raw {
				try(fmt.Sprintf("byte %d removed", k), append(append([]byte{}, raw[:k]...), raw[k+1:]...))
			}
		case 2:
			for k := range raw {
				try(fmt.Sprintf("%d bytes only", k), raw[:k])
			}
		case 3:
			p, err := iotago.OutputIDProofFromTransaction(tx, uint16(i))
			if !c.Check(err == nil, "no output proof", "%v", err) {
				return
			}
			js, err := e.API.JSONEncode(p)
			if !c.Check(err == nil && json.Valid(js), "output proof json", "%v", err) {
				return
			}
			for k := range js {
				for _, ch := range []byte("0123456789abcdef\"{},: n") {
					if js[k] == ch {
						continue
					}
					b := append([]byte{}, js...)
					b[k] = ch
					q := new(iotago.OutputIDProof)
					var err error
					pan := core.Panics(func() { err = e.API.JSONDecode(b, q) })
					if pan == "" && err == nil && q.OutputCommitmentProof != nil {
						if enc, eerr := q.Bytes(); eerr == nil && bytes.Equal(enc, raw) {
							continue
						}
					}
					judge(fmt.Sprintf("json %s", b), q, err, pan)
				}
			}
		}
	})
}

func outputIDOf(tx *iotago.Transaction, i int) iotago.OutputID {
	return ref.OutputIDOf(ref.TxID(tx), uint16(i))
}
