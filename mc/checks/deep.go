package checks

import (
	"fmt"
	"math/big"
	"reflect"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
)

// site is one mutable memory location reachable from an object through exported fields.
type site struct {
	path   string
	scalar bool          // changing it keeps the object well formed as a Go value
	apply  func() func() // changes it in place and returns the undo
}

var apiType = reflect.TypeOf((*iotago.API)(nil)).Elem()

// sites lists every mutable location reachable from v (a pointer, slice or map) through exported fields.
func sites(v any) (out []site) {
	deepSites(reflect.ValueOf(v), "", &out)
	return
}

func setSite(v reflect.Value, to func(old reflect.Value) reflect.Value) func() func() {
	return func() func() {
		old := reflect.New(v.Type()).Elem()
		old.Set(v)
		v.Set(to(old))
		return func() { v.Set(old) }
	}
}

func deepSites(v reflect.Value, path string, out *[]site) {
	if !v.IsValid() || v.Type() == apiType {
		return
	}
	add := func(p string, scalar bool, to func(old reflect.Value) reflect.Value) {
		if v.CanSet() {
			*out = append(*out, site{path + p, scalar, setSite(v, to)})
		}
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case time.Time:
			// the next slot as well as the next nanosecond
			add("+1ns", true, func(o reflect.Value) reflect.Value { return reflect.ValueOf(x.Add(1)) })
			add("+10s", true, func(o reflect.Value) reflect.Value { return reflect.ValueOf(x.Add(10 * time.Second)) })
			return
		case *big.Int:
			if x == nil {
				return
			}
			*out = append(*out, site{path + " in place", true, func() func() {
				if w := x.Bits(); len(w) > 0 && w[0] != 1 {
					w[0] ^= 1
					return func() { w[0] ^= 1 }
				}
				old := new(big.Int).Set(x)
				x.Add(x, big.NewInt(2))
				return func() { x.Set(old) }
			}})
			add(" replaced", true, func(o reflect.Value) reflect.Value {
				if x.BitLen() > 255 {
					return reflect.ValueOf(new(big.Int).Sub(x, big.NewInt(1)))
				}
				return reflect.ValueOf(new(big.Int).Add(x, big.NewInt(1)))
			})
			return
		}
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.Elem().Kind() == reflect.Pointer || v.Elem().Kind() == reflect.Slice || v.Elem().Kind() == reflect.Map {
			add(" slot", false, func(reflect.Value) reflect.Value { return reflect.Zero(v.Type()) })
			deepSites(v.Elem(), path, out)
		}
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		add(" slot", false, func(reflect.Value) reflect.Value { return reflect.Zero(v.Type()) })
		deepSites(v.Elem(), path, out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				deepSites(v.Field(i), path+"."+f.Name, out)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if v.Type().Elem().Kind() == reflect.Uint8 && i != 0 && i != v.Len()-1 {
				continue
			}
			deepSites(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if v.Type().Elem().Kind() == reflect.Uint8 && i != 0 && i != v.Len()/2 && i < v.Len()-5 {
				continue
			}
			deepSites(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			val := v.MapIndex(k)
			if val.Kind() == reflect.Slice && val.Len() > 0 {
				deepSites(val, fmt.Sprintf("%s[%v]", path, k), out) // elements of the slice are addressable
			}
			*out = append(*out, site{fmt.Sprintf("%s delete %v", path, k), true, func() func() {
				v.SetMapIndex(k, reflect.Value{})
				return func() { v.SetMapIndex(k, val) }
			}})
		}
		if !v.IsNil() && v.Type().Key().Kind() == reflect.String {
			*out = append(*out, site{path + " insert", true, func() func() {
				k := reflect.ValueOf("zz new").Convert(v.Type().Key())
				v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
				return func() { v.SetMapIndex(k, reflect.Value{}) }
			}})
		}
	case reflect.Bool:
		add("", true, func(o reflect.Value) reflect.Value { return reflect.ValueOf(!o.Bool()).Convert(v.Type()) })
	case reflect.String:
		add("", true, func(o reflect.Value) reflect.Value { return reflect.ValueOf(o.String() + "x").Convert(v.Type()) })
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		add("^1", true, func(o reflect.Value) reflect.Value { return reflect.ValueOf(o.Uint() ^ 1).Convert(v.Type()) })
		bits := v.Type().Bits()
		add("^high", true, func(o reflect.Value) reflect.Value {
			return reflect.ValueOf(o.Uint() ^ 1<<(bits-1)).Convert(v.Type())
		})
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		add("^1", true, func(o reflect.Value) reflect.Value { return reflect.ValueOf(o.Int() ^ 1).Convert(v.Type()) })
	}
}
