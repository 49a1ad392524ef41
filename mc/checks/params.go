package checks

import (
	"fmt"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
)

type paramVariant struct {
	name  string
	bytes string
}

func (v paramVariant) mk() iotago.ProtocolParameters {
	p, _, err := iotago.ProtocolParametersFromBytes([]byte(v.bytes))
	if err != nil {
		panic(err)
	}
	return p
}

// paramVariants are the parameters of base and every set of parameters that differs from it in one byte of its encoding.
func paramVariants(base iotago.ProtocolParameters, masks ...byte) []paramVariant {
	b, err := base.Bytes()
	if err != nil {
		panic(err)
	}
	out := []paramVariant{{"base", string(b)}}
	for i := range b {
		for _, m := range masks {
			n := append([]byte{}, b...)
			n[i] ^= m
			var p iotago.ProtocolParameters
			var err error
			if pan := core.Panics(func() { p, _, err = iotago.ProtocolParametersFromBytes(n) }); pan != "" || err != nil {
				continue
			}
			if e, err := p.Bytes(); err != nil || string(e) != string(n) {
				continue
			}
			out = append(out, paramVariant{fmt.Sprintf("byte %d ^ %#x", i, m), string(n)})
		}
	}
	return out
}

// paramEquality compares all variants with one another.
func paramEquality(x *core.Ctx, base iotago.ProtocolParameters) {
	vs := paramVariants(base, core.Pick(x, []byte{1, 0x80}, []byte{1, 2, 4, 8, 16, 32, 64, 128})...)
	ps := make([]iotago.ProtocolParameters, len(vs))
	for i, v := range vs {
		ps[i] = v.mk()
	}
	x.Product("equality of protocol parameters", []core.Dim{core.D("a", len(vs))}, func(v []int, c *core.C) {
		a := vs[v[0]].mk()
		for j, b := range ps {
			c.Step(1)
			want := v[0] == j
			if got := a.Equals(b); got != want {
				c.Fail("equal parameters", "Equals(%s, %s) is %v, encodings equal: %v", vs[v[0]].name, vs[j].name, got, want)
				return
			}
		}
		c.Outcome("all told apart")
	})
}
