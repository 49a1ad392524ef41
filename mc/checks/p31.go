package checks

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P31"] = p31 }

// dump writes everything reachable from v through exported fields; nil and empty lists are the same.
func dump(v any) string {
	var sb strings.Builder
	dumpTo(&sb, reflect.ValueOf(v))
	return sb.String()
}

func dumpTo(sb *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	if v.Type() == apiType {
		if v.IsNil() {
			sb.WriteString("no api")
		} else {
			fmt.Fprintf(sb, "api %p", v.Interface())
		}
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case time.Time:
			fmt.Fprintf(sb, "%d", x.UnixNano())
			return
		case *big.Int:
			if x != nil {
				sb.WriteString(x.Text(16))
				return
			}
		}
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		dumpTo(sb, v.Elem())
	case reflect.Pointer:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteByte('&')
		sb.WriteString(v.Type().Elem().Name())
		dumpTo(sb, v.Elem())
	case reflect.Struct:
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				sb.WriteByte('|')
				dumpTo(sb, v.Field(i))
			}
		}
		sb.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			if v.Kind() == reflect.Slice {
				copy(b, v.Bytes())
			} else if reflect.Copy(reflect.ValueOf(b), v) != len(b) {
				panic("bytes")
			}
			sb.WriteString(hex.EncodeToString(b))
			return
		}
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dumpTo(sb, v.Index(i))
			sb.WriteByte(',')
		}
		sb.WriteByte(']')
	case reflect.Map:
		var ls []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			dumpTo(&e, k)
			e.WriteByte('=')
			dumpTo(&e, v.MapIndex(k))
			ls = append(ls, e.String())
		}
		sort.Strings(ls)
		fmt.Fprintf(sb, "map%q", ls)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		sb.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		sb.WriteString(v.Type().String())
	default:
		fmt.Fprintf(sb, "%v", v)
	}
}

// part is a value reachable from an object that has a Clone or Equal method.
type part struct {
	path string
	v    any
}

func partsOf(v any) (out []part) {
	walkParts(reflect.ValueOf(v), "", &out)
	return
}

func walkParts(v reflect.Value, path string, out *[]part) {
	if !v.IsValid() || v.Type() == apiType || !v.CanInterface() {
		return
	}
	if k := v.Kind(); (k == reflect.Pointer || k == reflect.Slice || k == reflect.Map) && !(k == reflect.Pointer && v.IsNil()) {
		if _, ok := v.Type().MethodByName("Clone"); ok {
			*out = append(*out, part{path, v.Interface()})
		} else if _, ok := v.Type().MethodByName("Equal"); ok {
			*out = append(*out, part{path, v.Interface()})
		}
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if !v.IsNil() {
			if v.Type() == reflect.TypeOf((*big.Int)(nil)) {
				return
			}
			walkParts(v.Elem(), path, out)
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				walkParts(v.Field(i), path+"."+f.Name, out)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len() && v.Type().Elem().Kind() != reflect.Uint8; i++ {
			walkParts(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for _, k := range keys {
			walkParts(v.MapIndex(k), fmt.Sprintf("%s[%v]", path, k), out)
		}
	}
}

// clonable is a distinct value with a Clone or an Equal method and a way to build it again.
type clonable struct {
	name string
	typ  reflect.Type
	mk   func() any
}

func clonables(e *gen.Env) (out []clonable) {
	seen := map[string]bool{}
	add := func(name string, mk func() any) {
		for i, p := range partsOf(mk()) {
			t := reflect.TypeOf(p.v)
			if k := t.String() + dump(p.v); seen[k] {
				continue
			} else {
				seen[k] = true
			}
			i := i
			out = append(out, clonable{fmt.Sprintf("%s %s%s", t, name, p.path), t, func() any { return partsOf(mk())[i].v }})
		}
	}
	objs := catalog(e)
	var outs []Obj
	for _, o := range objs {
		o := o
		add(o.Name, o.New)
		if o.Kind == "output" && o.small {
			outs = append(outs, o)
		}
	}
	for _, n := range []int{0, 1, 3} {
		n := n
		add(fmt.Sprintf("set of %d outputs", n), func() any {
			s := iotago.OutputSet{}
			for i := 0; i < n && i < len(outs); i++ {
				s[gen.OutID(byte(i), 7, uint16(i))] = outs[i*7%len(outs)].New().(iotago.Output)
			}
			return s
		})
		add(fmt.Sprintf("list of %d outputs", n), func() any {
			s := iotago.Outputs[iotago.Output]{}
			for i := 0; i < n && i < len(outs); i++ {
				s = append(s, outs[i*5%len(outs)].New().(iotago.Output))
			}
			return s
		})
		fs := []func() iotago.Feature{
			func() iotago.Feature { return fMeta("v").(iotago.Feature) },
			func() iotago.Feature { return fBI(9, 0, 1).(iotago.Feature) },
			func() iotago.Feature { return fSender(gen.Ed(1)).(iotago.Feature) },
		}
		add(fmt.Sprintf("set of %d features", n), func() any {
			s := iotago.FeatureSet{}
			for _, f := range fs[:n] {
				s[f().Type()] = f()
			}
			return s
		})
	}
	for i := 0; i < 2; i++ {
		i := i
		add("multi address reference", func() any { return &iotago.MultiAddressReference{MultiAddressID: ref.Fill(byte(i+1), 33)} })
	}
	return
}

// cloneOf calls Clone.
func cloneOf(v any) (any, bool) {
	m := reflect.ValueOf(v).MethodByName("Clone")
	if !m.IsValid() || m.Type().NumIn() != 0 || m.Type().NumOut() != 1 {
		return nil, false
	}
	return m.Call(nil)[0].Interface(), true
}

// encoded is the reference encoding with the type of the value, if it has one.
func encoded(v any) (s string, ok bool) {
	defer func() { _ = recover() }()
	return string(ref.Enc(v)), true
}

// equality groups: values comparable with each other.
func eqGroup(v any) string {
	switch v.(type) {
	case iotago.Address:
		return "address"
	case iotago.UnlockCondition:
		return "unlock condition"
	case iotago.Feature:
		return "feature"
	case iotago.TokenScheme:
		return "token scheme"
	case iotago.Output:
		return "output"
	case iotago.BlockIssuerKey:
		return "block issuer key"
	}
	m, ok := reflect.TypeOf(v).MethodByName("Equal")
	if !ok || m.Type.In(1) != reflect.TypeOf(v) {
		return ""
	}
	return reflect.TypeOf(v).String()
}

// encKey is the same for two values exactly when they have the same type and encoding (element by element for bare lists).
func encKey(v any) string {
	r := reflect.ValueOf(v)
	if r.Kind() == reflect.Slice && r.Type().Elem().Kind() != reflect.Uint8 {
		s := fmt.Sprintf("%s %d", r.Type(), r.Len())
		for i := 0; i < r.Len(); i++ {
			s += fmt.Sprintf("|%q", encKey(r.Index(i).Interface()))
		}
		return s
	}
	if enc, ok := encoded(v); ok {
		return r.Type().String() + " " + enc
	}
	return r.Type().String() + "~" + dump(v)
}

// keyed is a value with its key.
type keyed struct {
	name, key string
	v         any
}

func p31(x *core.Ctx) {
	e := gen.NewEnv(ref.Default())
	x.Assume("objects: everything with a Clone or Equal method found anywhere inside the catalog of valid wire objects (addresses, unlock conditions, features, token schemes, outputs, keys, inputs, context inputs, allotments, signatures, unlocks, payloads, essences, transactions, capability masks, and the lists of them), output and feature sets and multi address references")
	if !x.Thorough() {
		x.Assume("quick: in objects with more than 300 changeable locations, the first 12 of each field")
	}
	x.Assume("changes: every scalar, every byte at the ends (and the middle) of byte strings, every pointer, interface slot, map entry, and the words inside big integers; nil and empty lists count as equal")
	all := clonables(e)
	var cl []clonable
	for _, o := range all {
		if _, ok := o.typ.MethodByName("Clone"); ok {
			cl = append(cl, o)
		}
	}
	types := map[string]int{}
	for _, o := range all {
		types[o.typ.String()]++
	}
	x.Extra("clonable types", len(types))

	x.Product("clones are equal and independent", []core.Dim{core.DL("object", clNames(cl)...)}, func(v []int, c *core.C) {
		o := cl[v[0]]
		a := o.mk()
		before := dump(a)
		var b any
		var ok bool
		if p := core.Panics(func() { b, ok = cloneOf(a) }); p != "" {
			c.Fail("clone panic "+o.typ.String(), "Clone of %s: %s", o.name, p)
			return
		}
		if !ok {
			c.Skip()
			return
		}
		c.Outcome("clone of " + o.typ.String())
		c.Check(dump(a) == before, "clone changes "+o.typ.String(), "cloning %s changed it", o.name)
		if !c.Check(b != nil && reflect.TypeOf(b) == reflect.TypeOf(a), "clone type "+o.typ.String(), "the clone of %s is a %T", o.name, b) {
			return
		}
		if !c.Check(dump(b) == before, "clone differs "+o.typ.String(), "the clone of %s is %s instead of %s", o.name, dump(b), before) {
			return
		}
		if ea, ok := encoded(a); ok {
			eb, ok := encoded(b)
			c.Check(ok && ea == eb, "clone encoding "+o.typ.String(), "the clone of %s encodes differently", o.name)
		}
		if res, has := equalBy(a, b); has {
			c.Check(res, "clone unequal "+o.typ.String(), "%s is not Equal to its clone", o.name)
		}
		// every change of one side must be invisible on the other
		for _, leg := range []struct {
			who        string
			from, seen any
		}{{"original", a, b}, {"clone", b, a}} {
			ss := sites(leg.from)
			times := map[string]int{}
			for _, s := range ss {
				if p := pattern(s.path); len(ss) > 300 && !x.Thorough() {
					if times[p]++; times[p] > 12 {
						continue
					}
				}
				undo := s.apply()
				got := dump(leg.seen)
				undo()
				c.Step(1)
				if !c.Check(got == before, "shared "+o.typ.String()+pattern(s.path), "changing %s of the %s of %s changes the other copy", s.path, leg.who, o.name) {
					return
				}
			}
		}
	})

	paramEquality(x, e.API.ProtocolParameters())
	paramEquality(x, iotago.NewV3SnapshotProtocolParameters())

	// equality
	groups := map[string][]clonable{}
	for _, o := range all {
		if g := eqGroup(o.mk()); g != "" {
			groups[g] = append(groups[g], o)
		}
	}
	var names []string
	for g := range groups {
		names = append(names, g)
	}
	sort.Strings(names)
	for _, g := range names {
		g, os := g, groups[g]
		max := core.Pick(x, 1500, 1<<20)
		if len(os) > max {
			x.Assume(fmt.Sprintf("quick: pairs of the first %d of %d %ss", max, len(os), g))
			os = os[:max]
		}
		judge := func(c *core.C, a, b keyed) {
			var res, has bool
			c.Step(1)
			if p := core.Panics(func() { res, has = equalBy(a.v, b.v) }); p != "" {
				c.Fail("equal panic "+g, "Equal(%s, %s): %s", a.name, b.name, p)
				return
			}
			if !has {
				c.Fail("no Equal "+g, "%T cannot be compared with %T", a.v, b.v)
				return
			}
			want := a.key == b.key
			if want {
				c.Outcome("equal")
			}
			if res != want {
				c.Fail(fmt.Sprintf("equal %s %T", g, a.v), "Equal(%s, %s) is %v, encodings equal: %v", a.name, b.name, res, want)
			}
		}
		ks := make([]keyed, len(os))
		for i, o := range os {
			v := o.mk()
			ks[i] = keyed{o.name, encKey(v), v}
		}
		ds := []core.Dim{core.DL("a", clNames(os)...)}
		x.Product("equality of "+g+" pairs", ds, func(v []int, c *core.C) {
			o := os[v[0]]
			w := o.mk()
			a := keyed{o.name, encKey(w), w}
			for _, b := range ks {
				judge(c, a, b)
				judge(c, b, a)
				if c.Failed() {
					return
				}
			}
		})
		x.Product("equality of "+g+" with its variations", ds, func(v []int, c *core.C) {
			o := os[v[0]]
			w := o.mk()
			base := keyed{o.name, encKey(w), w}
			n := len(sites(w))
			var ms []keyed
			for i := 0; i < n; i++ {
				m := o.mk()
				ss := sites(m)
				if i >= len(ss) || !ss[i].scalar || strings.HasSuffix(ss[i].path, " in place") { // shared between catalog objects
					continue
				}
				ss[i].apply()
				ms = append(ms, keyed{o.name + " with another " + ss[i].path, encKey(m), m})
			}
			for i, m := range ms {
				judge(c, base, m)
				judge(c, m, base)
				for j := range ms {
					if (i > j || len(ms) > 60) && !x.Thorough() && (i+j)%7 != 0 {
						continue
					}
					judge(c, m, ms[j])
				}
				if c.Failed() {
					return
				}
			}
		})
	}
}

// pattern strips indices from a path, so that failures group by location.
func pattern(p string) string {
	var sb strings.Builder
	depth := 0
	for _, r := range p {
		switch {
		case r == '[':
			depth++
		case r == ']':
			depth--
		case depth == 0:
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

func clNames(os []clonable) (out []string) {
	for _, o := range os {
		out = append(out, o.name)
	}
	return
}
