package checks

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/nodeclient"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P33"] = p33 }

// fetched is the result of fetching an output.
type fetched struct {
	out  []byte // nil: none
	meta []byte
	err  error
	pan  string
}

func (f fetched) String() string {
	switch {
	case f.pan != "":
		return "panic " + f.pan
	case f.err != nil && f.out != nil:
		return "output and error"
	case f.err != nil:
		return "error"
	}
	return fmt.Sprintf("output %x", f.out)
}

// fetcher is a client on a wire.
type fetcher struct {
	e  *gen.Env
	cl *nodeclient.Client
	w  *wire
}

func newFetcher(e *gen.Env) *fetcher {
	cl, w := newClient(e)
	return &fetcher{e, cl, w}
}

func (f *fetcher) fetch(withMeta bool, id iotago.OutputID, a answer) (r fetched, reqs []*sent) {
	f.w.drain()
	f.w.reply = func(int, *sent) answer { return a }
	r.pan = core.Panics(func() {
		var o iotago.Output
		var m *api.OutputMetadata
		if withMeta {
			o, m, r.err = f.cl.OutputWithMetadataByID(context.Background(), id)
		} else {
			o, r.err = f.cl.OutputByID(context.Background(), id)
		}
		if o != nil {
			r.out = ref.Enc(o)
		}
		if m != nil {
			r.meta = apiBytes(f.e, m)
		}
	})
	return r, f.w.drain()
}

// proofParts are the parts of an output ID proof.
type proofParts struct {
	slot   uint32
	index  uint16
	commit []byte
	tree   []byte
}

func (p proofParts) bytes() []byte {
	b := binary.LittleEndian.AppendUint32(nil, p.slot)
	b = binary.LittleEndian.AppendUint16(b, p.index)
	return append(append(b, p.commit...), p.tree...)
}

// ledgerTx is a transaction with its outputs in their encoded form.
type ledgerTx struct {
	tx  *iotago.Transaction
	id  iotago.TransactionID
	out [][]byte
}

func newLedgerTx(e *gen.Env, slot iotago.SlotIndex, salt byte, outs ...iotago.TxEssenceOutput) *ledgerTx {
	tx := synTx(e).Transaction
	tx.TransactionEssence.CreationSlot = slot
	tx.TransactionEssence.Inputs = iotago.TxEssenceInputs{&iotago.UTXOInput{TransactionID: gen.TxIDAt(salt, 3), TransactionOutputIndex: uint16(salt)}}
	tx.Outputs = outs
	l := &ledgerTx{tx: tx, id: ref.TxID(tx)}
	for _, o := range outs {
		l.out = append(l.out, ref.Enc(o))
	}
	return l
}

func (l *ledgerTx) oid(i int) iotago.OutputID { return ref.OutputIDOf(l.id, uint16(i)) }
func (l *ledgerTx) parts(i int) proofParts {
	return proofParts{uint32(l.tx.TransactionEssence.CreationSlot), uint16(i), ref.TxCommitment(l.tx), ref.MerkleProof(l.out, i)}
}

// kindsOf are outputs of every kind, each distinct by n.
func kindsOf(n int) []iotago.TxEssenceOutput {
	a := uint64(1000 + n)
	return []iotago.TxEssenceOutput{
		basic(gen.Ed(n), a, uint64(n)), nft(gen.NFTID(byte(n+1)), gen.Ed(n), a, 4, fMeta("m")), account(gen.AccID(byte(n+1)), gen.Ed(n), a, 5, 6),
		foundry(gen.AccID(byte(n+1)), a, uint32(n+1), 7, 0, 9), anchor(gen.AncID(byte(n+1)), gen.Ed(n), gen.Ed(n+1), a, 3, 8), delegation(gen.DelID(byte(n+1)), gen.Ed(n), a, a, gen.AccAddr(1), 3, 0),
	}
}

func p33(x *core.Ctx) {
	e := gen.NewEnv(ref.Default())
	meta := apiBytes(e, func() any {
		for _, m := range apiMsgs(e) {
			if m.name == "api.OutputMetadata" {
				return m.mk()
			}
		}
		panic("no metadata")
	}())
	body := func(withMeta bool, out []byte, p proofParts) []byte {
		b := append(append([]byte{}, out...), p.bytes()...)
		if withMeta {
			b = append(b, meta...)
		}
		return b
	}
	forms := []bool{false, true}
	form := core.DL("call", "OutputByID", "OutputWithMetadataByID")
	// the output of the requested identifier, or an error
	judge := func(c *core.C, key string, r fetched, reqs []*sent, want []byte) {
		c.Step(1)
		switch {
		case r.pan != "":
			c.Fail("panic "+key, "panics: %s", r.pan)
		case r.err != nil:
			c.Outcome("error")
			c.Check(r.out == nil && r.meta == nil, "output with error "+key, "an output comes with the error %v", r.err)
		case r.out == nil:
			c.Fail("nothing "+key, "neither an output nor an error")
		default:
			c.Outcome("output")
			c.Check(bytes.Equal(r.out, want), "wrong output "+key, "hands back %x instead of %x", r.out, want)
		}
		for _, q := range reqs {
			c.Check(q.method == "GET", "method", "sends %s", q.method)
		}
		c.Validated()
	}
	refuse := func(c *core.C, key string, r fetched, reqs []*sent) {
		judge(c, key, r, reqs, nil)
		c.Check(r.err != nil || r.pan != "", "accepted "+key, "hands back %x", r.out)
	}
	txOf := func(n, kind int, slot iotago.SlotIndex, salt byte) *ledgerTx {
		var outs []iotago.TxEssenceOutput
		for i := 0; i < n; i++ {
			outs = append(outs, kindsOf(i)[(kind+i)%6])
		}
		return newLedgerTx(e, slot, salt, outs...)
	}
	// 1. what an honest node sends
	slots := []iotago.SlotIndex{0, 1, 255, 256, 20, 1 << 16, 1<<32 - 1}
	ns := core.Pick(x, seq(9)[1:], seq(33)[1:])
	if !x.Thorough() {
		ns = append(ns, 12, 17, 128)
	} else {
		ns = append(ns, 64, 100, 127, 128)
	}
	x.Product("honest replies", []core.Dim{form, core.DV("outputs", ns), core.DL("first kind", "basic", "nft", "account", "foundry", "anchor", "delegation"), core.DV("slot", slots)}, func(v []int, c *core.C) {
		f := newFetcher(e)
		n := ns[v[1]]
		l := txOf(n, v[2], slots[v[3]], 1)
		for i := 0; i < n; i++ {
			r, reqs := f.fetch(forms[v[0]], l.oid(i), answer{status: 200, body: body(forms[v[0]], l.out[i], l.parts(i))})
			judge(c, "honest", r, reqs, l.out[i])
			c.Check(r.err == nil, "honest refused", "output %d of %d: %v", i, n, r.err)
			c.Check(!forms[v[0]] || bytes.Equal(r.meta, meta), "metadata", "hands back metadata %x instead of %x", r.meta, meta)
			c.Check(len(reqs) == 1, "requests", "%d requests", len(reqs))
			c.StateS(fmt.Sprint(n, i, v[2]))
			if n > 20 && i > 4 && i < n-4 && !x.Thorough() {
				i += 10
			}
		}
	})
	// 2. mix-ups between the outputs of a transaction
	nm := core.Pick(x, seq(6)[1:], seq(9)[1:])
	x.Product("mixed up within a transaction", []core.Dim{form, core.DV("outputs", nm), core.DL("kinds", "all basic", "different"), core.D("requested", 9)}, func(v []int, c *core.C) {
		n, req := nm[v[1]], v[3]
		if req > n {
			c.Skip()
			return
		}
		f := newFetcher(e)
		var l *ledgerTx
		if v[2] == 0 {
			var outs []iotago.TxEssenceOutput
			for i := 0; i < n; i++ {
				outs = append(outs, basic(gen.Ed(i), uint64(500+i), 1))
			}
			l = newLedgerTx(e, 20, 1, outs...)
		} else {
			l = txOf(n, 0, 20, 1)
		}
		for j := 0; j < n; j++ {
			for t := 0; t < n; t++ {
				for q := 0; q <= n; q++ {
					p := l.parts(t)
					p.index = uint16(q)
					r, reqs := f.fetch(forms[v[0]], l.oid(req), answer{status: 200, body: body(forms[v[0]], l.out[j], p)})
					if j == t && q == req && j != req {
						// the index is not authenticated by the proof
						if r.err == nil && r.pan == "" {
							c.Fail("proof with an altered index", "asked for output %d of %d, the client hands back output %d", req, n, j)
						} else {
							judge(c, "altered index", r, reqs, nil)
						}
						continue
					}
					if j == t && q == req {
						judge(c, "mixed", r, reqs, l.out[j])
						continue
					}
					refuse(c, "mixed", r, reqs)
				}
			}
		}
	})
	// 3. mix-ups between transactions: slot, commitment, tree, output and metadata each from either
	x.Product("mixed up between transactions", []core.Dim{form, core.D("from the other", 32), core.D("outputs", 4), core.D("index", 4), core.DL("other", "another slot", "same slot", "same outputs", "one more output", "equal output elsewhere")}, func(v []int, c *core.C) {
		n, i := v[2]+1, v[3]
		if i >= n {
			c.Skip()
			return
		}
		f := newFetcher(e)
		var outs, other []iotago.TxEssenceOutput
		for k := 0; k < n; k++ {
			outs = append(outs, basic(gen.Ed(k), uint64(500+k), 1))
			other = append(other, basic(gen.Ed(k), uint64(600+k), 1))
		}
		slot := iotago.SlotIndex(20)
		switch v[4] {
		case 0:
			slot = 21
		case 2:
			other = outs
		case 3:
			other = append(other, basic(gen.Ed(9), 700, 1))
		case 4:
			other = append(append([]iotago.TxEssenceOutput{}, outs...), basic(gen.Ed(9), 700, 1))
		}
		a, b := newLedgerTx(e, 20, 1, outs...), newLedgerTx(e, slot, 2, other...)
		p, q, out := a.parts(i), b.parts(i), a.out[i]
		m := v[1]
		if m&1 != 0 {
			p.slot = q.slot
		}
		if m&2 != 0 {
			p.commit = q.commit
		}
		if m&4 != 0 {
			p.tree = q.tree
		}
		if m&8 != 0 {
			out = b.out[i]
		}
		want := a
		if m&16 != 0 {
			want = b
		}
		own := want.parts(i)
		same := p.slot == own.slot && bytes.Equal(p.commit, own.commit) && bytes.Equal(p.tree, own.tree) && bytes.Equal(out, want.out[i])
		r, reqs := f.fetch(forms[v[0]], want.oid(i), answer{status: 200, body: body(forms[v[0]], out, p)})
		if same {
			judge(c, "across", r, reqs, want.out[i])
			c.Check(r.err == nil, "honest refused", "%v", r.err)
		} else {
			refuse(c, "across", r, reqs)
		}
	})
	// 4. another identifier than the one of the reply: every bit
	x.Product("another identifier", []core.Dim{form, core.D("bit", 38*8), core.D("outputs", 4)}, func(v []int, c *core.C) {
		f := newFetcher(e)
		l := txOf(v[2]+1, v[2], 20, 1)
		for i := range l.out {
			id := l.oid(i)
			id[v[1]/8] ^= 1 << (v[1] % 8)
			r, reqs := f.fetch(forms[v[0]], id, answer{status: 200, body: body(forms[v[0]], l.out[i], l.parts(i))})
			refuse(c, "identifier", r, reqs)
		}
	})
	// 5. damage to the body
	type subject struct {
		name string
		l    *ledgerTx
		i    int
	}
	var subs []subject
	for k := 0; k < 6; k++ {
		for _, ni := range [][2]int{{1, 0}, {2, 0}, {2, 1}, {3, 1}, {3, 2}, {5, 4}} {
			if !x.Thorough() && ni[0] > 2 && k != 0 {
				continue
			}
			subs = append(subs, subject{fmt.Sprintf("output %d of %d, kinds from %d", ni[1], ni[0], k), txOf(ni[0], k, 20, 1), ni[1]})
		}
	}
	label := make([]string, len(subs))
	for i, s := range subs {
		label[i] = s.name
	}
	sub := core.DL("subject", label...)
	maxLen := 0
	for _, s := range subs {
		maxLen = max(maxLen, len(body(true, s.l.out[s.i], s.l.parts(s.i))))
	}
	// within the part that identifies (output and proof) a changed byte must be an error, unless the same output results
	x.Product("changed bytes", []core.Dim{form, sub, core.D("position", maxLen)}, func(v []int, c *core.C) {
		s := subs[v[1]]
		good := body(forms[v[0]], s.l.out[s.i], s.l.parts(s.i))
		if v[2] >= len(good) {
			c.Skip()
			return
		}
		f := newFetcher(e)
		for d := 1; d < 256; d++ {
			if !x.Thorough() && d&(d-1) != 0 && d != 255 {
				continue
			}
			b := append([]byte{}, good...)
			b[v[2]] ^= byte(d)
			r, reqs := f.fetch(forms[v[0]], s.l.oid(s.i), answer{status: 200, body: b})
			judge(c, "changed", r, reqs, s.l.out[s.i])
			if v[2] < len(s.l.out[s.i])+38 {
				c.Check(r.err != nil || r.pan != "", "accepted changed", "position %d changed by %#x: still accepted", v[2], d)
			}
		}
	})
	x.Product("cut and extended bodies", []core.Dim{form, sub, core.D("length", maxLen+6)}, func(v []int, c *core.C) {
		s := subs[v[1]]
		good := body(forms[v[0]], s.l.out[s.i], s.l.parts(s.i))
		n := v[2]
		if n > len(good)+5 {
			c.Skip()
			return
		}
		f := newFetcher(e)
		if n >= len(good) {
			for _, fill := range []byte{0, 1, 255} {
				b := append(append([]byte{}, good...), bytes.Repeat([]byte{fill}, n-len(good))...)
				r, reqs := f.fetch(forms[v[0]], s.l.oid(s.i), answer{status: 200, body: b})
				judge(c, "extended", r, reqs, s.l.out[s.i])
			}
			return
		}
		r, reqs := f.fetch(forms[v[0]], s.l.oid(s.i), answer{status: 200, body: good[:n]})
		if n < len(s.l.out[s.i])+len(s.l.parts(s.i).bytes()) {
			refuse(c, "cut", r, reqs)
		} else {
			judge(c, "cut", r, reqs, s.l.out[s.i])
			c.Check(r.err != nil || r.pan != "", "accepted cut metadata", "a reply with cut metadata is accepted")
		}
		// the rest shifted forward, and a broken connection
		r, reqs = f.fetch(forms[v[0]], s.l.oid(s.i), answer{status: 200, body: append(append([]byte{}, good[:n]...), good[n+1:]...)})
		judge(c, "missing byte", r, reqs, s.l.out[s.i])
		r, reqs = f.fetch(forms[v[0]], s.l.oid(s.i), answer{status: 200, body: good[:n], cut: true})
		refuse(c, "broken connection", r, reqs)
	})
	// 6. status codes, content types and bodies that are no answer
	var status []int
	for s := 200; s < 600; s++ {
		status = append(status, s)
	}
	kinds := []string{"", rawMIME, jsonMIME, "text/html", "application/octet-stream"}
	x.Product("status codes and content types", []core.Dim{form, core.DV("status", status), core.DV("content type", kinds), core.DL("body", "honest", "another output", "empty", "json error", "json", "html", "null")}, func(v []int, c *core.C) {
		f := newFetcher(e)
		s := subs[2]
		a := answer{status: status[v[1]], header: map[string]string{"Content-Type": kinds[v[2]]}}
		switch v[3] {
		case 0:
			a.body = body(forms[v[0]], s.l.out[s.i], s.l.parts(s.i))
		case 1:
			a.body = body(forms[v[0]], s.l.out[0], s.l.parts(0))
		case 3:
			a.body = []byte(`{"error":{"code":"17","message":"what went wrong"}}`)
		case 4:
			a.body = jsonOf(e, &api.OutputResponse{Output: s.l.tx.Outputs[s.i], OutputIDProof: func() *iotago.OutputIDProof {
				p, _ := iotago.OutputIDProofFromTransaction(s.l.tx, uint16(s.i))
				return p
			}()})
		case 5:
			a.body = []byte("<html>oops</html>")
		case 6:
			a.body = []byte("null")
		}
		r, reqs := f.fetch(forms[v[0]], s.l.oid(s.i), a)
		if v[3] == 0 && (a.status == 200 || a.status == 201) {
			judge(c, "status", r, reqs, s.l.out[s.i])
			c.Check(r.err == nil || v[2] > 1 || a.status != 200, "honest refused", "status %d: %v", a.status, r.err)
			return
		}
		refuse(c, "status", r, reqs)
	})
	// 7. every shape of proof: all trees up to a depth over an alphabet of hashes
	l := newLedgerTx(e, 20, 1, basic(gen.Ed(0), 500, 1), basic(gen.Ed(1), 501, 1), basic(gen.Ed(2), 502, 1))
	leaf := func(b []byte) []byte { return ref.Blake([]byte{0}, b) }
	h := [][]byte{leaf(l.out[0]), leaf(l.out[1]), leaf(l.out[2]), ref.MerkleRoot(l.out[:2]), ref.MerkleRoot(l.out), make([]byte, 32)}
	var atoms [][]byte
	for _, k := range h {
		for t := byte(1); t < 3; t++ {
			atoms = append(atoms, append([]byte{t, 32}, k...))
		}
	}
	atoms = append(atoms, []byte{1, 0}, []byte{2, 0}, []byte{0}, nil)
	var pairs [][]byte
	for _, a := range atoms {
		for _, b := range atoms {
			pairs = append(pairs, append(append([]byte{0}, a...), b...))
		}
	}
	trees := append(append([][]byte{}, atoms...), pairs...)
	for _, p := range pairs {
		for _, a := range atoms {
			trees = append(trees, append(append([]byte{0}, p...), a...), append(append([]byte{0}, a...), p...))
		}
	}
	if x.Thorough() {
		for _, p := range pairs {
			for _, q := range pairs {
				trees = append(trees, append(append([]byte{0}, p...), q...))
			}
		}
	}
	const chunk = 64
	x.Product("shapes of proofs", []core.Dim{core.DL("call", "OutputByID"), core.D("chunk of trees", (len(trees)+chunk-1)/chunk), core.D("served", 3), core.D("requested", 3)}, func(v []int, c *core.C) {
		f := newFetcher(e)
		for t := v[1] * chunk; t < (v[1]+1)*chunk && t < len(trees); t++ {
			p := l.parts(v[3])
			own := p.tree
			p.tree = trees[t]
			if v[2] != v[3] && bytes.Equal(trees[t], l.parts(v[2]).tree) {
				continue // the altered index, see above
			}
			r, reqs := f.fetch(false, l.oid(v[3]), answer{status: 200, body: body(false, l.out[v[2]], p)})
			if bytes.Equal(trees[t], own) && v[2] == v[3] {
				judge(c, "shape", r, reqs, l.out[v[3]])
				c.Check(r.err == nil, "honest refused", "%v", r.err)
				continue
			}
			// a proof that names the served output in its place and hashes to the same root is as good as the node's own
			if v[2] == v[3] {
				judge(c, "shape", r, reqs, l.out[v[3]])
				c.Check(r.err != nil || r.pan != "" || rootOf(trees[t]) == string(h[4]), "accepted shape", "a proof %x with another root is accepted", trees[t])
			} else {
				if r.err == nil && r.pan == "" && rootOf(trees[t]) == string(h[4]) && bytes.Contains(trees[t], append([]byte{2, 32}, h[v[2]]...)) {
					c.Fail("proof with an altered index", "asked for output %d, the client hands back output %d by the proof %x", v[3], v[2], trees[t])
					continue
				}
				refuse(c, "shape", r, reqs)
			}
		}
	})
	// 8. another output served with a proof of the requested: every output of a family against every other
	fam := append(kindsOf(0), kindsOf(1)...)
	x.Product("another output with the requested proof", []core.Dim{form, core.D("requested", len(fam)), core.D("served", len(fam)), core.D("alone or among", 2)}, func(v []int, c *core.C) {
		if v[1] == v[2] {
			c.Skip()
			return
		}
		f := newFetcher(e)
		outs := []iotago.TxEssenceOutput{fam[v[1]]}
		if v[3] == 1 {
			outs = fam
		}
		l := newLedgerTx(e, 20, 1, outs...)
		i := 0
		if v[3] == 1 {
			i = v[1]
		}
		r, reqs := f.fetch(forms[v[0]], l.oid(i), answer{status: 200, body: body(forms[v[0]], ref.Enc(fam[v[2]]), l.parts(i))})
		refuse(c, "other output", r, reqs)
	})
}

// rootOf computes the root a proof hashes to ("" when it is not well-formed).
func rootOf(t []byte) string {
	var walk func() []byte
	walk = func() []byte {
		if len(t) == 0 {
			return nil
		}
		k := t[0]
		t = t[1:]
		if k == 0 {
			a := walk()
			b := walk()
			if a == nil || b == nil {
				return nil
			}
			return ref.Blake([]byte{1}, a, b)
		}
		if len(t) < 33 || t[0] != 32 {
			return nil
		}
		r := t[1:33]
		t = t[33:]
		return r
	}
	r := walk()
	if len(t) != 0 {
		return ""
	}
	return string(r)
}

func apiBytes(e *gen.Env, v any) []byte {
	b, err := e.API.Encode(v)
	if err != nil {
		panic(err)
	}
	return b
}
