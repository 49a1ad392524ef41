package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P15"] = p15; All["P16"] = p16 }

// bytesOf is the model encoding of an object decoded by the implementation.
func bytesOf(v any) []byte {
	if p, ok := v.(*iotago.OutputIDProof); ok {
		b, err := p.Bytes()
		if err != nil {
			panic(err)
		}
		return b
	}
	return ref.Enc(v)
}

// equalBy calls the Equal/Equals method of a on b if there is one.
func equalBy(a, b any) (res, has bool) {
	for _, n := range []string{"Equal", "Equals"} {
		m := reflect.ValueOf(a).MethodByName(n)
		if !m.IsValid() || m.Type().NumIn() != 1 || !reflect.TypeOf(b).AssignableTo(m.Type().In(0)) {
			continue
		}
		return m.Call([]reflect.Value{reflect.ValueOf(b)})[0].Bool(), true
	}
	return false, false
}

func catDims(objs []Obj) core.Dim {
	var n []string
	for _, o := range objs {
		n = append(n, o.Kind+": "+o.Name)
	}
	return core.DL("object", n...)
}

// parsers are the stand-alone byte parsers per kind.
func parsers(e *gen.Env, kind string) map[string]func([]byte) (any, int, error) {
	rd := func(f func(r *bytes.Reader) (any, error)) func([]byte) (any, int, error) {
		return func(b []byte) (any, int, error) {
			r := bytes.NewReader(b)
			v, err := f(r)
			return v, len(b) - r.Len(), err
		}
	}
	prov := iotago.SingleVersionProvider(e.API)
	switch kind {
	case "address":
		return map[string]func([]byte) (any, int, error){
			"AddressFromBytes":  func(b []byte) (any, int, error) { return iotago.AddressFromBytes(b) },
			"AddressFromReader": rd(func(r *bytes.Reader) (any, error) { return iotago.AddressFromReader(r) }),
		}
	case "block":
		return map[string]func([]byte) (any, int, error){"BlockFromBytes": func(b []byte) (any, int, error) { return iotago.BlockFromBytes(prov)(b) }}
	case "attestation":
		return map[string]func([]byte) (any, int, error){"AttestationFromBytes": func(b []byte) (any, int, error) { return iotago.AttestationFromBytes(prov)(b) }}
	case "block issuer key":
		return map[string]func([]byte) (any, int, error){
			"BlockIssuerKeyFromBytes": func(b []byte) (any, int, error) { return iotago.BlockIssuerKeyFromBytes(b) },
			"BlockIssuerKeyFromReader": rd(func(r *bytes.Reader) (any, error) {
				return iotago.BlockIssuerKeyFromReader(r)
			}),
			"Ed25519PublicKeyHashBlockIssuerKeyFromBytes": func(b []byte) (any, int, error) { return iotago.Ed25519PublicKeyHashBlockIssuerKeyFromBytes(b) },
		}
	case "block issuer keys":
		return map[string]func([]byte) (any, int, error){"BlockIssuerKeysFromReader": rd(func(r *bytes.Reader) (any, error) { return iotago.BlockIssuerKeysFromReader(r) })}
	case "output proof":
		return map[string]func([]byte) (any, int, error){"OutputIDProofFromBytes": func(b []byte) (any, int, error) { return iotago.OutputIDProofFromBytes(e.API)(b) }}
	case "protocol parameters":
		return map[string]func([]byte) (any, int, error){"ProtocolParametersFromBytes": func(b []byte) (any, int, error) { return iotago.ProtocolParametersFromBytes(b) }}
	}
	return nil
}

func p15(x *core.Ctx) {
	x.Assume("issuing times lie in the range a 64-bit nanosecond count can represent and time.Time can hold (1970 to 2262)")
	e := gen.NewEnv(ref.Default())
	objs := catalog(e)
	x.Product("catalog objects", []core.Dim{catDims(objs)}, func(v []int, c *core.C) {
		o := objs[v[0]]
		raw := o.Raw()
		c.State(raw)
		c.Outcome(o.Kind)
		obj := o.New()
		for _, opts := range [][]serix.Option{nil, {serix.WithValidation()}} {
			w := "without validation"
			if opts != nil {
				w = "with validation"
			}
			c.Step(1)
			got, err := e.API.Encode(obj, opts...)
			if !c.Check(err == nil, "encode:"+o.Kind, "encoding a valid %s %s: %v", o.Kind, w, err) {
				continue
			}
			c.Check(bytes.Equal(got, raw), "layout:"+o.Kind, "encoding %s differs from the protocol layout\n impl %x\n want %x", w, got, raw)
			for _, t := range o.Targets {
				for _, tail := range [][]byte{nil, {0}, {0xff, 1, 2, 3}} {
					c.Step(1)
					ptr, get := t.make()
					n, err := e.API.Decode(append(append([]byte{}, raw...), tail...), ptr, opts...)
					if !c.Check(err == nil, "decode:"+o.Kind, "decoding into %s %s: %v", t.name, w, err) {
						continue
					}
					c.Check(n == len(raw), "length:"+o.Kind, "decoding into %s consumed %d of %d bytes", t.name, n, len(raw))
					dec := get()
					c.Check(bytes.Equal(bytesOf(dec), raw), "object:"+o.Kind, "decoded object differs (%s): %x, want %x", t.name, bytesOf(dec), raw)
					if tail != nil {
						continue
					}
					again, err := e.API.Encode(dec, opts...)
					c.Check(err == nil && bytes.Equal(again, raw), "again:"+o.Kind, "re-encoding the decoded object: %v %x", err, again)
					for i, p := range [][2]any{{obj, dec}, {dec, obj}} {
						if r, has := equalBy(p[0], p[1]); has {
							c.Check(r, "equal:"+o.Kind, "decoded object is not Equal to the original (direction %d)", i)
						}
					}
					if s, ok := dec.(interface{ Size() int }); ok {
						c.Check(s.Size() == len(raw), "size:"+o.Kind, "Size of the decoded object is %d, encoded %d bytes", s.Size(), len(raw))
					}
				}
			}
		}
		if s, ok := obj.(interface{ Size() int }); ok {
			c.Step(1)
			c.Check(s.Size() == len(raw), "size:"+o.Kind, "Size is %d, encoded %d bytes", s.Size(), len(raw))
		}
		if s, ok := obj.(interface{ Bytes() ([]byte, error) }); ok {
			c.Step(1)
			b, err := s.Bytes()
			c.Check(err == nil && bytes.Equal(b, raw), "bytes:"+o.Kind, "Bytes gives %x (%v), want %x", b, err, raw)
		}
		for name, p := range parsers(e, o.Kind) {
			for _, tail := range [][]byte{nil, {0}, {7, 7, 7}} {
				c.Step(1)
				dec, n, err := p(append(append([]byte{}, raw...), tail...))
				if c.Check(err == nil, "parse:"+name, "%s: %v", name, err) {
					c.Check(n == len(raw) && bytes.Equal(bytesOf(dec), raw), "parse:"+name, "%s read %d of %d bytes to %x, want %x", name, n, len(raw), bytesOf(dec), raw)
				}
			}
		}
		if !bytes.Equal(bytesOf(obj), raw) {
			c.Fail("modified", "encoding changed the object")
		}
	})

	// sets that have one order: all sequences over four elements
	sets := orderedSets(e)
	var names []string
	for _, s := range sets {
		names = append(names, s.name)
	}
	seqs := lists(4, x0(x, 3, 4))
	x.Product("orders and duplicates", []core.Dim{core.DL("set", names...), core.DL("sequence", listNames(seqs)...)}, func(v []int, c *core.C) {
		s, seq := sets[v[0]], seqs[v[1]]
		if len(seq) < s.min || len(seq) > s.max || s.name == "basic unlock conditions" && !has0(seq) {
			c.Skip()
			return
		}
		obj, raw, t := s.make(seq)
		c.State(raw)
		want := true
		for i := 1; i < len(seq); i++ {
			if seq[i-1] >= seq[i] {
				want = false
			}
		}
		c.Outcomef("%s ordered=%v", s.name, want)
		c.Step(2)
		if obj != nil {
			got, err := e.API.Encode(obj, serix.WithValidation())
			c.Check((err == nil) == want, "order encode:"+s.name, "encoding order %v: %v", seq, err)
			if err == nil {
				c.Check(bytes.Equal(got, raw), "order bytes:"+s.name, "encoded %x, want %x", got, raw)
			}
		}
		ptr, get := t.make()
		n, err := e.API.Decode(raw, ptr, serix.WithValidation())
		c.Check((err == nil) == want, "order decode:"+s.name, "decoding order %v: %v", seq, err)
		if err == nil && want {
			c.Check(n == len(raw) && bytes.Equal(ref.Enc(get()), raw), "order object:"+s.name, "decoded another object")
		}
		if t.name == "interface Address" {
			if _, _, err := iotago.AddressFromBytes(raw); (err == nil) != want {
				c.Fail("order parse", "AddressFromBytes of order %v: %v", seq, err)
			}
			if _, err := iotago.AddressFromReader(bytes.NewReader(raw)); (err == nil) != want {
				c.Fail("order read", "AddressFromReader of order %v: %v", seq, err)
			}
		}
	})
	apiLegs(x, e, false)
}

func x0[T any](x *core.Ctx, q, t T) T { return core.Pick(x, q, t) }

type orderedSet struct {
	name     string
	min, max int
	make     func(seq []int) (obj any, raw []byte, t target) // obj nil: a Go map, which has no order
}

func has0(seq []int) bool {
	for _, k := range seq {
		if k == 0 {
			return true
		}
	}
	return false
}

func orderedSets(e *gen.Env) (out []orderedSet) {
	elems := []iotago.Address{gen.AccAddr(0), gen.AccAddr(1), gen.NFTAddr(0), gen.AncAddr(0)}
	edFirst := []iotago.Address{func() iotago.Address { a := iotago.Ed25519Address(gen.Fill32(0xff)); return &a }(), gen.AccAddr(0x10), gen.AccAddr(0x20), gen.NFTAddr(1)}
	for i, el := range [][]iotago.Address{elems, edFirst} {
		out = append(out, orderedSet{fmt.Sprintf("multi address members %d", i), 2, 10, func(seq []int) (any, []byte, target) {
			m := &iotago.MultiAddress{Threshold: 1}
			for i, k := range seq {
				m.Addresses = append(m.Addresses, &iotago.AddressWithWeight{Address: el[k], Weight: byte(200 - i)})
			}
			return m, ref.Enc(m), tAddr
		}})
	}
	out = append(out, orderedSet{"block issuer keys", 1, 128, func(seq []int) (any, []byte, target) {
		f := &iotago.BlockIssuerFeature{ExpirySlot: 1}
		for _, k := range seq {
			f.BlockIssuerKeys = append(f.BlockIssuerKeys, &iotago.Ed25519PublicKeyHashBlockIssuerKey{PublicKeyHash: gen.Fill32(byte(k + 1))})
		}
		return f, ref.Enc(f), intoP[iotago.BlockIssuerFeature]()
	}})
	mk := []string{"A", "a", "aa", "b"} // ascending by length-prefixed bytes: A < a < b < aa
	mk = []string{"A", "a", "b", "aa"}
	mraw := func(ty byte, seq []int) []byte {
		raw := []byte{ty, byte(len(seq))}
		for i, k := range seq {
			raw = append(raw, byte(len(mk[k])))
			raw = append(raw, mk[k]...)
			raw = append(raw, 1, 0, byte(9-i))
		}
		return raw
	}
	out = append(out, orderedSet{"metadata entries", 1, 255, func(seq []int) (any, []byte, target) {
		return nil, mraw(2, seq), intoP[iotago.MetadataFeature]()
	}}, orderedSet{"state metadata entries", 1, 255, func(seq []int) (any, []byte, target) {
		return nil, mraw(3, seq), intoP[iotago.StateMetadataFeature]()
	}})
	out = append(out, orderedSet{"block ids", 0, 9, func(seq []int) (any, []byte, target) {
		l := iotago.BlockIDs{}
		for _, k := range seq {
			l = append(l, blockID(byte(k/2), uint32(k)))
		}
		return l, ref.Enc(l), into[iotago.BlockIDs]()
	}}, orderedSet{"transaction ids", 0, 9, func(seq []int) (any, []byte, target) {
		l := iotago.TransactionIDs{}
		for _, k := range seq {
			l = append(l, gen.TxIDAt(byte(k/2), uint32(k)))
		}
		return l, ref.Enc(l), into[iotago.TransactionIDs]()
	}})
	for _, val := range []bool{false, true} {
		for _, which := range []string{"strong", "weak", "shallow like"} {
			min := 0
			if which == "strong" {
				min = 1
			}
			out = append(out, orderedSet{fmt.Sprintf("%s parents validation=%v", which, val), min, 8, func(seq []int) (any, []byte, target) {
				b := baseBlock(e, 20, val)
				var l iotago.BlockIDs
				for _, k := range seq {
					l = append(l, blockID(byte(k/2+10), uint32(k)))
				}
				s, w, sl := iotago.BlockIDs{blockID(1, 19)}, iotago.BlockIDs(nil), iotago.BlockIDs(nil)
				switch which {
				case "strong":
					s = l
				case "weak":
					w = l
				default:
					sl = l
				}
				setParents(b, s, w, sl)
				return b, ref.Enc(b), intoP[iotago.Block]()
			}})
		}
	}
	signed := func(f func(tx *iotago.SignedTransaction)) (any, []byte, target) {
		stx := synTx(e)
		f(stx)
		return stx, ref.Enc(stx), intoP[iotago.SignedTransaction]()
	}
	out = append(out, orderedSet{"allotments", 0, 128, func(seq []int) (any, []byte, target) {
		return signed(func(stx *iotago.SignedTransaction) {
			stx.Transaction.Allotments = nil
			for _, k := range seq {
				stx.Transaction.Allotments = append(stx.Transaction.Allotments, &iotago.Allotment{AccountID: gen.AccID(byte(k + 1)), Mana: 1})
			}
		})
	}}, orderedSet{"basic unlock conditions", 1, 4, func(seq []int) (any, []byte, target) {
		return signed(func(stx *iotago.SignedTransaction) {
			o := basic(gen.Ed(0), 5000, 0)
			all := []any{&iotago.AddressUnlockCondition{Address: gen.Ed(0)}, ucSDR(gen.Ed(1), 1000), ucTL(4), ucExp(gen.Ed(1), 9)}
			o.UnlockConditions = nil
			for _, k := range seq {
				o.UnlockConditions = append(o.UnlockConditions, all[k].(iotago.UnlockCondition))
			}
			stx.Transaction.Outputs = iotago.TxEssenceOutputs{o}
		})
	}}, orderedSet{"basic features", 0, 4, func(seq []int) (any, []byte, target) {
		return signed(func(stx *iotago.SignedTransaction) {
			o := basic(gen.Ed(0), 5000, 0)
			all := []any{fSender(gen.Ed(0)), fMeta("x"), fTag("t"), fNT(foundryID(gen.AccID(9), 3), 5)}
			for _, k := range seq {
				o.Features = append(o.Features, all[k].(iotago.Feature))
			}
			stx.Transaction.Outputs = iotago.TxEssenceOutputs{o}
		})
	}})
	return
}

// unsafeNumbers lists JSON number tokens beyond what a double holds exactly.
func unsafeNumbers(b []byte) (bad []string) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	for {
		t, err := d.Token()
		if err != nil {
			return
		}
		if n, ok := t.(json.Number); ok {
			i, err := n.Int64()
			if err != nil || i > 1<<53-1 || i < -(1<<53-1) {
				bad = append(bad, n.String())
			}
		}
	}
}

// listKind marks the bare lists, which have no JSON form of their own (they are covered as parts of other objects).
var listKind = map[string]bool{"block issuer keys": true, "attestations": true, "block ids": true, "transaction ids": true}

func p16(x *core.Ctx) {
	x.Assume("issuing times lie in the range a 64-bit nanosecond count can represent and time.Time can hold (1970 to 2262)")
	e := gen.NewEnv(ref.Default())
	objs := catalog(e)
	x.Product("catalog objects", []core.Dim{catDims(objs)}, func(v []int, c *core.C) {
		o := objs[v[0]]
		if listKind[o.Kind] {
			c.Skip()
			return
		}
		raw := o.Raw()
		c.State(raw)
		c.Outcome(o.Kind)
		obj := o.New()
		for _, opts := range [][]serix.Option{nil, {serix.WithValidation()}} {
			c.Step(1)
			js, err := e.API.JSONEncode(obj, opts...)
			if !c.Check(err == nil, "json encode:"+o.Kind, "JSON encoding: %v", err) {
				continue
			}
			c.Check(json.Valid(js), "json:"+o.Kind, "not JSON: %s", js)
			if bad := unsafeNumbers(js); bad != nil {
				c.Fail("number:"+o.Kind, "numbers beyond the safe range rendered as JSON numbers: %v in %s", bad, js)
			}
			for _, t := range o.Targets {
				c.Step(1)
				ptr, get := t.make()
				err := e.API.JSONDecode(js, ptr, opts...)
				if !c.Check(err == nil, "json decode:"+o.Kind, "parsing back into %s: %v from %s", t.name, err, js) {
					continue
				}
				dec := get()
				c.Check(bytes.Equal(bytesOf(dec), raw), "json object:"+o.Kind, "the object read from JSON (%s) is another one: %x, want %x, from %s", t.name, bytesOf(dec), raw, js)
				for i, p := range [][2]any{{obj, dec}, {dec, obj}} {
					if r, has := equalBy(p[0], p[1]); has {
						c.Check(r, "json equal:"+o.Kind, "object read from JSON is not Equal to the original (direction %d)", i)
					}
				}
				js2, err := e.API.JSONEncode(dec, opts...)
				c.Check(err == nil && bytes.Equal(canonJSON(js), canonJSON(js2)), "json again:"+o.Kind, "rendering again gives other JSON: %s", js2)
			}
		}
		if !bytes.Equal(bytesOf(obj), raw) {
			c.Fail("modified", "rendering changed the object")
		}
	})
	apiLegs(x, e, true)

	// the rules of P20 to P22, over their spaces, on the JSON form
	viaJSON = true
	p20(x)
	p21(x)
	p22(x)
}

// viaJSON makes the judges of P20 to P22 look at the JSON form alone.
var viaJSON bool

// judgeJSON renders an object without validation and reads it back with validation: accepted exactly when the model calls
// it valid.
func judgeJSON(c *core.C, e *gen.Env, obj any, want string, fresh func() any) {
	raw := ref.Enc(obj)
	c.State(raw)
	c.Step(1)
	var js []byte
	var err error
	if p := core.Panics(func() { js, err = e.API.JSONEncode(obj) }); p != "" || err != nil {
		if want == "" {
			c.Fail("json render", "rendering a valid object: %v %s", err, p)
		}
		c.Outcome("no JSON form")
		return
	}
	c.Step(1)
	dec := fresh()
	err = e.API.JSONDecode(js, dec, serix.WithValidation())
	if !c.Check((err == nil) == (want == ""), "json verdict:"+why(want), "JSON parsing with validation: model says %q, implementation says %v", want, err) {
		return
	}
	if err == nil {
		c.Check(bytes.Equal(ref.Enc(dec), raw), "json other object", "the object read back from JSON differs: %s", js)
	}
	if want == "" {
		c.Outcome("valid JSON")
	} else {
		c.Outcome("JSON: " + want)
	}
}

// apiLegs round-trips the messages of the node API: every field at every listed value.
func apiLegs(x *core.Ctx, e *gen.Env, js bool) {
	type vt struct {
		m    apiMsg
		l    leaf
		k    int
		base bool
	}
	var cases []vt
	var names []string
	for _, m := range apiMsgs(e) {
		cases, names = append(cases, vt{m: m, base: true}), append(names, m.name)
		var ls []leaf
		leaves(reflect.ValueOf(m.mk()), "", func(r reflect.Value) reflect.Value { return r }, &ls)
		for _, l := range ls {
			for k := range l.set {
				cases, names = append(cases, vt{m: m, l: l, k: k}), append(names, m.name+l.path+" = "+l.name[k])
			}
		}
	}
	x.Product("node API messages", []core.Dim{core.DL("message", names...)}, func(v []int, c *core.C) {
		t := cases[v[0]]
		obj := t.m.mk()
		if !t.base {
			t.l.set[t.k](reflect.ValueOf(obj))
		}
		c.Outcome(t.m.name)
		c.StateS(names[v[0]])
		c.Step(2)
		ptr, get := t.m.into.make()
		if js {
			b, err := e.API.JSONEncode(obj)
			if !c.Check(err == nil, "message encode:"+t.m.name, "JSON encoding %s: %v", names[v[0]], err) {
				return
			}
			if err := e.API.JSONDecode(b, ptr); err != nil {
				c.Fail("message decode:"+t.m.name, "JSON decoding %s: %v from %s", names[v[0]], err, b)
				return
			}
			c.Check(sameDeep(reflect.ValueOf(obj), reflect.ValueOf(get())), "message:"+t.m.name, "the message read back differs: %s", b)
			return
		}
		b, err := e.API.Encode(obj)
		if !c.Check(err == nil, "message encode:"+t.m.name, "encoding %s: %v", names[v[0]], err) {
			return
		}
		n, err := e.API.Decode(b, ptr)
		if !c.Check(err == nil && n == len(b), "message decode:"+t.m.name, "decoding %s: %v, %d of %d bytes", names[v[0]], err, n, len(b)) {
			return
		}
		c.Check(sameDeep(reflect.ValueOf(obj), reflect.ValueOf(get())), "message:"+t.m.name, "the message read back differs: %x", b)
	})
}

func canonJSON(b []byte) []byte {
	var v any
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return b
	}
	out, _ := json.Marshal(v)
	return out
}
