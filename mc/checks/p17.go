package checks

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P17"] = p17 }

// asks walks the layout of payloads, transactions, bodies and blocks up to a tagged data payload and gives the length its
// data prefix announces. The dependency allocates that many bytes, up to 4 GB, before it compares the length with the data:
// the sweeps leave out announcements above 64 kB (one is run on its own).
func asks(kind, dec string, b []byte) (n uint32) {
	defer func() { recover() }() // ran out of bytes: the decoder does too
	skip := func(k int) { b = b[k:] }
	u := func(k int) int {
		v := 0
		for i := k - 1; i >= 0; i-- {
			v = v<<8 | int(b[i])
		}
		skip(k)
		return v
	}
	var payload func()
	tx := func() {
		skip(12)
		for k := u(2); k > 0; k-- {
			skip([]int{37, 33, 3}[b[0]])
		}
		for k := u(2); k > 0; k-- {
			skip(39)
		}
		for k := u(2); k > 0; k-- {
			skip(40)
		}
		skip(u(1))
		if u(4) > 0 {
			payload()
		}
	}
	payload = func() {
		switch u(1) {
		case 0:
			skip(u(1))
			n = uint32(u(4))
		case 1:
			tx()
		}
	}
	basic := func() {
		skip(1)
		for i := 0; i < 3; i++ {
			skip(36 * u(1))
		}
		if u(4) > 0 {
			payload()
		}
	}
	body := func() {
		if b[0] == 0 {
			basic()
		}
	}
	switch {
	case strings.Contains(dec, "*iotago.TaggedData"): // a concrete target checks the type byte after the fields
		skip(1)
		skip(u(1))
		return uint32(u(4))
	case strings.Contains(dec, "*iotago.SignedTransaction"):
		skip(1)
		tx()
		return
	case strings.Contains(dec, "*iotago.BasicBlockBody"):
		basic()
		return
	}
	switch kind {
	case "payload", "signed transaction":
		payload()
	case "transaction":
		tx()
	case "block body":
		body()
	case "block":
		skip(iotago.BlockHeaderLength)
		body()
	}
	return
}

// timeFields lists the offsets of issuing times in the encoding of an object of the kind.
func timeFields(kind string, b []byte) (at []int) {
	switch kind {
	case "block", "block header", "attestation":
		return []int{9}
	case "attestations":
		// u8/u16/u32 prefix varies by type: every offset is a candidate
		for i := 0; i+8 <= len(b); i++ {
			at = append(at, i)
		}
	}
	return
}

// timeOnly says whether a and b differ in an issuing time alone, beyond the signed 64-bit range in a.
func timeOnly(kind string, a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	for _, o := range timeFields(kind, a) {
		if o+8 <= len(a) && binary.LittleEndian.Uint64(a[o:]) > math.MaxInt64 && bytes.Equal(a[:o], b[:o]) && bytes.Equal(a[o+8:], b[o+8:]) {
			return true
		}
	}
	return false
}

type rawDecoder struct {
	name      string
	validates bool
	f         func(b []byte) (any, int, error)
}

func decodersOf(e *gen.Env, kind string, ts []target) (ds []rawDecoder) {
	for _, t := range ts {
		for _, val := range []bool{false, true} {
			var opts []serix.Option
			n := "Decode into " + t.name
			if val {
				opts = append(opts, serix.WithValidation())
				n += " with validation"
			}
			ds = append(ds, rawDecoder{n, val, func(b []byte) (any, int, error) {
				ptr, get := t.make()
				n, err := e.API.Decode(b, ptr, opts...)
				return get(), n, err
			}})
		}
	}
	var names []string
	ps := parsers(e, kind)
	for n := range ps {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		ds = append(ds, rawDecoder{n, true, ps[n]})
	}
	return
}

// tryBytes runs a decoder on b and judges the result.
func tryBytes(c *core.C, e *gen.Env, kind string, d rawDecoder, b []byte, failed map[string]bool, what string) {
	if asks(kind, d.name, b) > 1<<16 {
		c.Outcome("announces more than 64 kB")
		return
	}
	c.Step(1)
	keep := append([]byte{}, b...)
	var v any
	var n int
	var err error
	var p string
	p = core.Panics(func() { v, n, err = d.f(b) })
	fail := func(key, f string, args ...any) {
		if !failed[key] {
			failed[key] = true
			c.Fail(key, "%s: %s; input %x", what, fmt.Sprintf(f, args...), keep)
		}
	}
	if p != "" {
		fail("panic:"+kind, "%s panics: %s", d.name, p)
		return
	}
	if !bytes.Equal(b, keep) {
		fail("input changed:"+kind, "%s changed its input", d.name)
	}
	if err != nil {
		c.Outcome("rejected")
		return
	}
	if n < 0 || n > len(b) {
		fail("over-read:"+kind, "%s reports %d bytes of %d", d.name, n, len(b))
		return
	}
	if !d.validates {
		c.Outcome("decoded")
		return
	}
	c.Outcome("accepted")
	var again []byte
	if p := core.Panics(func() { again = bytesOf(v) }); p != "" {
		fail("model:"+kind, "%s accepted an object the layout cannot express: %s", d.name, p)
		return
	}
	if !bytes.Equal(again, keep[:n]) {
		if timeOnly(kind, keep[:n], again) {
			fail("issuing time beyond the 64-bit range is clamped", "%s accepted bytes which are not the encoding of the object (%x)", d.name, again)
		} else {
			fail("not canonical:"+kind, "%s accepted %x, whose object encodes as %x", d.name, keep[:n], again)
		}
		return
	}
	if strings.HasPrefix(d.name, "Decode") {
		var enc []byte
		var err error
		p := core.Panics(func() { enc, err = e.API.Encode(v, serix.WithValidation()) })
		if p != "" || err != nil || !bytes.Equal(enc, keep[:n]) {
			fail("re-encode:"+kind, "%s accepted %x, re-encoding gives %x (%v %s)", d.name, keep[:n], enc, err, p)
		}
	}
}

func p17(x *core.Ctx) {
	e := gen.NewEnv(ref.Default())
	var objs []Obj
	for _, o := range catalog(e) {
		if o.small {
			objs = append(objs, o)
		}
	}
	type pos struct{ obj, at int }
	var cases []pos
	var names []string
	raws := make([][]byte, len(objs))
	decs := make([][]rawDecoder, len(objs))
	for i, o := range objs {
		raws[i] = o.Raw()
		decs[i] = decodersOf(e, o.Kind, o.Targets)
		for k := 0; k <= len(raws[i]); k++ {
			cases = append(cases, pos{i, k})
			names = append(names, fmt.Sprintf("%s %s @%d", o.Kind, o.Name, k))
		}
	}
	x.Extra("objects", len(objs))
	values := func(old byte, big bool) (vs []byte) {
		if x.Thorough() {
			for v := 0; v < 256; v++ {
				vs = append(vs, byte(v))
			}
			return
		}
		seen := map[byte]bool{}
		if big {
			for _, v := range []byte{0, 1, 2, 4, 64, 255, old + 1, old - 1, old ^ 0x80} {
				if !seen[v] {
					seen[v] = true
					vs = append(vs, v)
				}
			}
			return
		}
		for _, v := range []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 24, 32, 40, 48, 64, 127, 128, 200, 254, 255, old + 1, old - 1, old ^ 0x80, old ^ 1, old ^ 0x10, old ^ 0x20, old << 1, old >> 1} {
			if !seen[v] {
				seen[v] = true
				vs = append(vs, v)
			}
		}
		return
	}
	x.Product("edits of one position", []core.Dim{core.DL("position", names...)}, func(v []int, c *core.C) {
		p := cases[v[0]]
		raw := raws[p.obj]
		kind := objs[p.obj].Kind
		c.StateS(names[v[0]])
		failed := map[string]bool{}
		dec := func(b []byte, what string) {
			for _, d := range decs[p.obj] {
				tryBytes(c, e, kind, d, b, failed, what)
			}
		}
		// truncation; the bytes that were cut off lie behind the slice
		dec(append([]byte{}, raw...)[:p.at], "truncated")
		for _, ins := range []byte{0, 1, 2, 0x7f, 0xff} {
			b := append(append(append([]byte{}, raw[:p.at]...), ins), raw[p.at:]...)
			dec(b, "inserted")
		}
		if p.at == len(raw) {
			return
		}
		dec(append(append([]byte{}, raw[:p.at]...), raw[p.at+1:]...), "deleted")
		for _, val := range values(raw[p.at], len(raw) > 500) {
			if val == raw[p.at] {
				continue
			}
			b := append([]byte{}, raw...)
			b[p.at] = val
			dec(b, "replaced")
		}
	})

	// every short string into every target
	kinds := map[string][]target{}
	var order []string
	for _, o := range catalog(e) {
		if _, has := kinds[o.Kind]; !has {
			order = append(order, o.Kind)
		}
		for _, t := range o.Targets {
			have := false
			for _, u := range kinds[o.Kind] {
				have = have || u.name == t.name
			}
			if !have {
				kinds[o.Kind] = append(kinds[o.Kind], t)
			}
		}
	}
	x.Product("every short string", []core.Dim{core.DL("kind", order...), core.D("first byte", 257)}, func(v []int, c *core.C) {
		kind := order[v[0]]
		failed := map[string]bool{}
		c.StateS(fmt.Sprint(kind, v[1]))
		ds := decodersOf(e, kind, kinds[kind])
		do := func(b []byte) {
			for _, d := range ds {
				tryBytes(c, e, kind, d, b, failed, "short")
			}
		}
		if v[1] == 256 {
			do(nil)
			do([]byte{})
			return
		}
		do([]byte{byte(v[1])})
		for i := 0; i < 256; i++ {
			do([]byte{byte(v[1]), byte(i)})
			if x.Thorough() {
				for j := 0; j < 256; j += 1 + i%3 {
					do([]byte{byte(v[1]), byte(i), byte(j)})
				}
			}
		}
	})

	// heads and tails of two objects of one kind
	type pair struct{ a, b int }
	var pairs []pair
	var pn []string
	for i := range objs {
		for j := range objs {
			if i != j && objs[i].Kind == objs[j].Kind {
				pairs = append(pairs, pair{i, j})
				pn = append(pn, fmt.Sprintf("%s: %s + %s", objs[i].Kind, objs[i].Name, objs[j].Name))
			}
		}
	}
	x.Product("head of one, tail of another", []core.Dim{core.DL("pair", pn...)}, func(v []int, c *core.C) {
		p := pairs[v[0]]
		failed := map[string]bool{}
		c.StateS(pn[v[0]])
		for k := 1; k < len(raws[p.a]) && k < len(raws[p.b]); k++ {
			for _, b := range [][]byte{append(append([]byte{}, raws[p.a][:k]...), raws[p.b][k:]...), append(append([]byte{}, raws[p.a][:k]...), raws[p.b][len(raws[p.b])-k:]...)} {
				for _, d := range decs[p.a] {
					tryBytes(c, e, objs[p.a].Kind, d, b, failed, fmt.Sprintf("cut at %d", k))
				}
			}
		}
	})

	// two edits
	edge := core.Pick(x, []byte{0, 1, 2, 255}, []byte{0, 1, 2, 3, 8, 16, 64, 128, 255})
	limit := core.Pick(x, 60, 90)
	var two []pos
	var tn []string
	for i, o := range objs {
		if len(raws[i]) > limit {
			continue
		}
		for k := range raws[i] {
			two = append(two, pos{i, k})
			tn = append(tn, fmt.Sprintf("%s %s @%d", o.Kind, o.Name, k))
		}
	}
	x.Product("two edits", []core.Dim{core.DL("first position", tn...)}, func(v []int, c *core.C) {
		p := two[v[0]]
		raw := raws[p.obj]
		failed := map[string]bool{}
		c.StateS(tn[v[0]])
		for j := p.at + 1; j < len(raw); j++ {
			for _, a := range edge {
				for _, z := range edge {
					b := append([]byte{}, raw...)
					b[p.at], b[j] = a, z
					for _, d := range decs[p.obj] {
						tryBytes(c, e, objs[p.obj].Kind, d, b, failed, "two edits")
					}
				}
			}
		}
	})

	nested(x, e)

	x.Product("a tagged data payload announcing 4 GB", []core.Dim{core.DL("form", "payload alone", "in a block")}, func(v []int, c *core.C) {
		b := []byte{0, 0, 0xff, 0xff, 0xff, 0xff, 1}
		c.StateS(fmt.Sprint(v))
		c.Step(1)
		var err error
		if v[0] == 0 {
			p := new(iotago.TaggedData)
			_, err = e.API.Decode(b, p, serix.WithValidation())
		} else {
			blk := baseBlock(e, 20, false)
			blk.Body.(*iotago.BasicBlockBody).Payload = &iotago.TaggedData{Tag: []byte("zz"), Data: []byte("data")}
			raw := ref.Enc(blk)
			k := bytes.Index(raw, []byte("zz")) + 2
			copy(raw[k:], []byte{0xff, 0xff, 0xff, 0xff})
			_, _, err = iotago.BlockFromBytes(iotago.SingleVersionProvider(e.API))(raw)
		}
		c.Check(err != nil, "4 GB", "accepted")
		c.Outcome("rejected")
		debug.FreeOSMemory()
	})

	jsonEdits(x, e, objs)
}

// jsonEdits replaces or removes every node of the JSON form of the small objects.
func jsonEdits(x *core.Ctx, e *gen.Env, objs []Obj) {
	type node struct {
		obj  int
		path []any
	}
	var nodes []node
	var names []string
	forms := make([][]byte, len(objs))
	for i, o := range objs {
		if listKind[o.Kind] {
			continue
		}
		js, err := e.API.JSONEncode(o.New())
		if err != nil {
			continue // P16 reports it
		}
		forms[i] = js
		var walk func(v any, path []any)
		walk = func(v any, path []any) {
			nodes = append(nodes, node{i, append([]any{}, path...)})
			names = append(names, fmt.Sprintf("%s %s %v", o.Kind, o.Name, path))
			switch t := v.(type) {
			case map[string]any:
				var ks []string
				for k := range t {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					walk(t[k], append(path, k))
				}
			case []any:
				for k := range t {
					walk(t[k], append(path, k))
				}
			}
		}
		walk(parseJSON(js), nil)
	}
	repl := []any{nil, true, json.Number("0"), json.Number("-1"), json.Number("1.5"), json.Number("256"), json.Number("99999999999999999999"), json.Number("1e300"), "", "0x", "0x0", "0x00", "0xzz", "-1", "1.5", "18446744073709551616", "text", "ü\x00", []any{}, []any{nil}, map[string]any{}, map[string]any{"type": json.Number("0")}, map[string]any{"type": json.Number("99")}, map[string]any{"type": "0"}}
	x.Product("edits of the JSON form", []core.Dim{core.DL("node", names...), core.D("replacement (last: removed)", len(repl)+1)}, func(v []int, c *core.C) {
		n := nodes[v[0]]
		o := objs[n.obj]
		root := parseJSON(forms[n.obj])
		var js []byte
		if v[1] == len(repl) {
			if len(n.path) == 0 {
				c.Skip()
				return
			}
			root = editJSON(root, n.path, nil, true)
		} else {
			root = editJSON(root, n.path, repl[v[1]], false)
		}
		js, err := json.Marshal(root)
		if err != nil {
			panic(err)
		}
		c.StateS(string(js))
		failed := map[string]bool{}
		for _, t := range o.Targets {
			for _, val := range []bool{false, true} {
				c.Step(1)
				var opts []serix.Option
				if val {
					opts = append(opts, serix.WithValidation())
				}
				ptr, get := t.make()
				var err error
				if site, p := panicSite(func() { err = e.API.JSONDecode(js, ptr, opts...) }); site != "" {
					if !failed[site] {
						failed[site] = true
						c.Fail(site, "reading %s into %s (validation %v) panics: %s", js, t.name, val, p)
					}
					continue
				}
				if err != nil {
					c.Outcome("rejected")
					continue
				}
				if !val {
					c.Outcome("decoded")
					continue
				}
				c.Outcome("accepted")
				if g := get(); g != nil && !(reflect.ValueOf(g).Kind() == reflect.Pointer && reflect.ValueOf(g).IsNil()) {
					var err error
					if p := core.Panics(func() { _, err = e.API.Encode(g, serix.WithValidation()) }); p != "" || err != nil {
						c.Fail("json accepts what binary refuses:"+o.Kind, "%s is accepted, encoding the object: %v %s", js, err, p)
						return
					}
				}
			}
		}
	})
}

// panicSite runs fn and names the place a panic comes from: the innermost frame outside the Go runtime and library.
func panicSite(fn func()) (site, what string) {
	defer func() {
		if r := recover(); r != nil {
			site, what = "json panic", fmt.Sprint(r)
			var pcs [64]uintptr
			fs := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs[:])])
			for {
				f, more := fs.Next()
				if strings.Contains(f.Function, "iotaledger/") {
					if strings.Contains(f.Function, "/serix.") {
						// the dependency's file never changes: its function names the site
						site = "json panic in the serix dependency: " + f.Function[strings.LastIndex(f.Function, ".")+1:]
					} else {
						site = "json panic in " + f.Function[strings.LastIndex(f.Function, "/")+1:]
					}
					return
				}
				if !more {
					return
				}
			}
		}
	}()
	fn()
	return
}

func parseJSON(b []byte) any {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		panic(err)
	}
	return v
}

func editJSON(v any, path []any, with any, remove bool) any {
	if len(path) == 0 {
		return with
	}
	switch t := v.(type) {
	case map[string]any:
		k := path[0].(string)
		if len(path) == 1 && remove {
			delete(t, k)
		} else {
			t[k] = editJSON(t[k], path[1:], with, remove)
		}
		return t
	case []any:
		k := path[0].(int)
		if len(path) == 1 && remove {
			return append(t[:k:k], t[k+1:]...)
		}
		t[k] = editJSON(t[k], path[1:], with, remove)
		return t
	}
	panic("path")
}
