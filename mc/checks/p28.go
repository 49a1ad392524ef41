package checks

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/bech32"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P28"] = p28 }

type textAddr struct {
	name string
	addr iotago.Address
	id   []byte
}

// textAddrs lists addresses of every kind; fill selects their contents.
func textAddrs(fill byte) (out []textAddr) {
	add := func(name string, a iotago.Address) {
		var id []byte
		inner := func(a iotago.Address) []byte {
			_, multi := a.(*iotago.MultiAddress)
			return ref.AddrID(ref.Enc(a), multi)
		}
		if r, ok := a.(*iotago.RestrictedAddress); ok {
			id = append([]byte{48}, inner(r.Address)...)
			id = append(append(id, byte(len(r.AllowedCapabilities))), r.AllowedCapabilities...)
		} else {
			id = inner(a)
		}
		out = append(out, textAddr{name, a, id})
	}
	b32 := gen.Fill32(fill)
	ed, impl := iotago.Ed25519Address(b32), iotago.ImplicitAccountCreationAddress(b32)
	bases := []textAddr{{name: "ed25519", addr: &ed}, {name: "account", addr: gen.AccAddr(fill)}, {name: "nft", addr: gen.NFTAddr(fill)}, {name: "anchor", addr: gen.AncAddr(fill)}}
	for w := 1; w < 3; w++ {
		m := &iotago.MultiAddress{Threshold: uint16(w), Addresses: iotago.AddressesWithWeight{{Address: &ed, Weight: byte(w)}, {Address: gen.NFTAddr(fill), Weight: 255}}}
		bases = append(bases, textAddr{name: fmt.Sprintf("multi %d", w), addr: m})
	}
	for _, b := range bases {
		add(b.name, b.addr)
	}
	add("implicit", &impl)
	for _, b := range bases {
		for _, m := range [][]byte{nil, {1}, {255}, {0, 1}, {255, 1}} {
			add(fmt.Sprintf("restricted %x %s", m, b.name), &iotago.RestrictedAddress{Address: b.addr, AllowedCapabilities: m})
		}
	}
	return
}

// judgeText compares what the parser makes of a string with the specified decoder.
func judgeText(c *core.C, s string) (accepted bool) {
	hrp, data, ok := ref.ParseBech32(s)
	ok = ok && ref.AddrIDOK(data)
	var gotHRP iotago.NetworkPrefix
	var addr iotago.Address
	var err error
	pan := core.Panics(func() { gotHRP, addr, err = iotago.ParseBech32(s) })
	c.Step(1)
	if pan != "" {
		c.Fail("parser crashes", "%q: %s", s, pan)
		return false
	}
	if (err == nil) != ok {
		if ok {
			c.Fail("valid address refused", "%q: %v", s, err)
		} else {
			c.Fail("invalid address accepted", "%q parses to %T %s", s, addr, addr)
		}
		return err == nil
	}
	if err != nil {
		return false
	}
	c.Check(string(gotHRP) == hrp && bytes.Equal(addr.ID(), data), "parsed another address", "%q parses to %s %x, specified %s %x", s, gotHRP, addr.ID(), hrp, data)
	var back string
	pan = core.Panics(func() { back = addr.Bech32(gotHRP) })
	c.Check(pan == "" && back == strings.ToLower(s), "address has two strings", "%q parses to an address that renders as %q %s", s, back, pan)
	return true
}

func p28(x *core.Ctx) {
	hrps := []string{"iota", "smr", "rms", "tst", "atoi", "a", "1", "11", "a1b", "!", "~", "?9", "x-y_z", strings.Repeat("h", 20), strings.Repeat("1", 20)}
	fills := core.Pick(x, []byte{0, 1, 127, 128, 255, 0x5a}, func() (o []byte) {
		for i := 0; i < 256; i++ {
			o = append(o, byte(i))
		}
		return
	}())
	names := make([]string, 0)
	for _, a := range textAddrs(1) {
		names = append(names, a.name)
	}
	x.Product("round trips", []core.Dim{core.DL("address", names...), core.DV("contents", fills), core.DL("prefix", hrps...)}, func(v []int, c *core.C) {
		a := textAddrs(fills[v[1]])[v[0]]
		hrp := hrps[v[2]]
		want := ref.Bech32(hrp, a.id)
		if len(want) > 90 {
			c.Skip()
			return
		}
		s := a.addr.Bech32(iotago.NetworkPrefix(hrp))
		c.Step(1)
		c.Check(s == want, "text form", "%s renders as %q, specified %q", a.name, s, want)
		c.Check(bytes.Equal(a.addr.ID(), a.id) && a.addr.Key() == string(a.id) && a.addr.String() == "0x"+hex.EncodeToString(a.id), "address id", "%s has id %x, key %x, string %s, specified %x", a.name, a.addr.ID(), a.addr.Key(), a.addr.String(), a.id)
		for _, form := range []string{want, strings.ToUpper(want)} {
			if !judgeText(c, form) {
				c.Fail("own text form refused", "%q", form)
				continue
			}
			p, b, err := iotago.ParseBech32(form)
			c.Outcomef("parses to %T", b)
			if !c.Check(err == nil && string(p) == hrp, "prefix", "%q: prefix %q (%v)", form, p, err) {
				continue
			}
			switch y := a.addr.(type) {
			case *iotago.MultiAddress:
				c.Check(b.Equal(iotago.NewMultiAddressReferenceFromMultiAddress(y)), "parses to another address", "%s", a.name)
			case *iotago.RestrictedAddress:
				if m, is := y.Address.(*iotago.MultiAddress); is {
					c.Check(b.Equal(&iotago.RestrictedAddress{Address: iotago.NewMultiAddressReferenceFromMultiAddress(m), AllowedCapabilities: y.AllowedCapabilities}), "parses to another address", "%s", a.name)
					continue
				}
				c.Check(b.Equal(a.addr), "parses to another address", "%s", a.name)
			default:
				c.Check(b.Equal(a.addr), "parses to another address", "%s", a.name)
			}
		}
	})

	// one and two character errors
	var bases []string
	var baseNames []string
	tail := map[byte]int{}
	for f := 1; f < 256; f++ { // one string per kind and, for every kind, one that ends with p
		for i, a := range textAddrs(byte(f)) {
			s := ref.Bech32("rms", a.id)
			k := byte(i)
			if f == 1 {
				bases, baseNames = append(bases, s), append(baseNames, a.name)
			}
			if strings.HasSuffix(s, "p") && tail[k] == 0 {
				tail[k] = f
				bases, baseNames = append(bases, s), append(baseNames, a.name+" ending in p")
			}
		}
	}
	x.Product("one character errors", []core.Dim{core.DL("address", baseNames...), core.D("position", 91)}, func(v []int, c *core.C) {
		s, i := bases[v[0]], v[1]
		if i > len(s) {
			c.Skip()
			return
		}
		n := 0
		try := func(t string) {
			n++
			if t != s && strings.ToLower(t) != s {
				if _, _, err := iotago.ParseBech32(t); err == nil {
					c.Fail("erroneous address accepted", "%q, meant %q", t, s)
				}
			}
			judgeText(c, t)
		}
		for ch := 0; ch < 256; ch++ {
			if i < len(s) {
				try(s[:i] + string([]byte{byte(ch)}) + s[i+1:])
				try(s[:i] + string(rune(ch)) + s[i+1:])
			}
			try(s[:i] + string([]byte{byte(ch)}) + s[i:])
			for _, more := range []string{"", string([]byte{byte(ch)}), "q", "qq", "qqqqqqq"} {
				try(s[:i] + string([]byte{byte(ch)}) + more + s[i:])
			}
		}
		u := strings.ToUpper(s)
		for _, r := range []string{"\u212a", "\u017f", "\u0130", "\u0131", "\uff41", "\u0430", "\u00a0", "\u200b", "\u1e9e", "\u03f4", "\u2126", "\ufffd", "\x00", "\x80", "\xff", " ", "\n", "\u0660", "\u00b9"} {
			for _, t := range []string{s, u} {
				if i < len(t) {
					try(t[:i] + r + t[i+1:])
				}
				try(t[:i] + r + t[i:])
			}
		}
		if i < len(s) {
			try(s[:i])
			try(s[i:])
			try(s[:i] + s[i+1:])
			try(s[:i] + u[i:])
			try(u[:i] + s[i:])
			if i+1 < len(s) {
				try(s[:i] + string(s[i+1]) + string(s[i]) + s[i+2:])
				try(s[:i] + s[i+2:])
			}
			for j := i; j < len(s); j++ {
				try(s[:i] + s[j:])
				try(s[:j] + s[i:j] + s[j:])
			}
		}
		c.Outcomef("%d variants refused", n)
	})

	alphabet := "qpzry9x8gf2tvdw0s3jn54khce6mua7l" + core.Pick(x, "1bioQ~", "1bioQPZRYXGFTVDWSJNKHCEMUAL0!~. ")
	twoOf := core.Pick(x, []int{0, 4, 7, 17}, seq(len(bases)))
	var twoNames []string
	for _, i := range twoOf {
		twoNames = append(twoNames, baseNames[i])
	}
	x.Product("two character errors", []core.Dim{core.DL("address", twoNames...), core.D("first position", 80)}, func(v []int, c *core.C) {
		s, i := bases[twoOf[v[0]]], v[1]
		if i >= len(s)-1 {
			c.Skip()
			return
		}
		b := []byte(s)
		n := 0
		for p := 0; p < len(alphabet); p++ {
			if alphabet[p] == s[i] {
				continue
			}
			b[i] = alphabet[p]
			for j := i + 1; j < len(s); j++ {
				for q := 0; q < len(alphabet); q++ {
					if alphabet[q] == s[j] {
						continue
					}
					b[j] = alphabet[q]
					n++
					if _, _, err := bech32.Decode(string(b)); err == nil {
						if _, _, err := iotago.ParseBech32(string(b)); err == nil {
							c.Fail("erroneous address accepted", "%q, meant %q", b, s)
						}
					}
				}
				b[j] = s[j]
			}
			b[i] = s[i]
		}
		c.Step(n)
		c.Outcomef("%d variants refused", n)
	})

	// payloads with a right checksum
	types := seq(256)
	x.Product("payload kinds and lengths", []core.Dim{core.DV("type", types), core.D("length", 47), core.DL("contents", "zeros", "ones", "mixed")}, func(v []int, c *core.C) {
		d := make([]byte, v[1])
		for i := range d {
			d[i] = []byte{0, 255, byte(37 * i)}[v[2]]
		}
		if len(d) > 0 {
			d[0] = byte(v[0])
		} else if v[0] > 0 {
			c.Skip()
			return
		}
		c.Outcomef("accepted %v", judgeText(c, ref.Bech32("rms", d)))
	})
	inner := []int{0, 1, 8, 16, 24, 32, 40, 48, 56, 255}
	masks := [][]byte{{}, {0}, {1}, {255}, {0, 0}, {1, 0}, {0, 1}, {255, 255}, {0, 0, 0}, {0, 0, 1}, {1, 2, 3}, {1, 2, 3, 4}}
	x.Product("restricted payloads", []core.Dim{core.DV("inner type", inner), core.D("inner length", 40), core.D("mask length byte", 6), core.D("mask", len(masks)), core.D("behind", 3)}, func(v []int, c *core.C) {
		d := append([]byte{48, byte(inner[v[0]])}, bytes.Repeat([]byte{7}, v[1])...)
		d = append(append(d, byte(v[2])), masks[v[3]]...)
		d = append(d, make([]byte, v[4])...)
		if v[1] < 30 && v[1] > 3 {
			c.Skip()
			return
		}
		c.Outcomef("accepted %v", judgeText(c, ref.Bech32("rms", d)))
	})
	// groups: every padding and number of groups, other checksum residues
	x.Product("padding and checksum", []core.Dim{core.DL("address", baseNames...), core.DL("form", "padding", "extra groups", "checksum residue", "prefix")}, func(v []int, c *core.C) {
		_, d, _ := ref.ParseBech32(bases[v[0]])
		g, pad := ref.Groups5(d)
		switch v[1] {
		case 0:
			for p := 0; p < 1<<pad; p++ {
				h := append([]byte{}, g...)
				h[len(h)-1] |= byte(p)
				acc := judgeText(c, ref.Bech32Of5("rms", h, 1))
				c.Outcomef("padding %v accepted %v", p > 0, acc)
			}
		case 1:
			for n := 0; n < 8; n++ {
				for val := 0; val < 32; val++ {
					h := append([]byte{}, g...)
					for k := 0; k < n; k++ {
						h = append(h, 0)
					}
					h[len(h)-1] |= byte(val)
					judgeText(c, ref.Bech32Of5("rms", h, 1))
					judgeText(c, ref.Bech32Of5("rms", g[:max(0, len(g)-n)], 1))
				}
			}
		case 2:
			for bit := 0; bit < 30; bit++ {
				for bit2 := 0; bit2 < 30; bit2++ {
					judgeText(c, ref.Bech32Of5("rms", g, 1^1<<bit^1<<bit2))
				}
				judgeText(c, ref.Bech32Of5("rms", g, 1<<bit))
			}
			judgeText(c, ref.Bech32Of5("rms", g, 0x2bc830a3))
			judgeText(c, ref.Bech32Of5("rms", g, 0))
		case 3:
			for a := 0; a < 256; a++ {
				judgeText(c, ref.Bech32Of5(string([]byte{byte(a)}), g, 1))
				for _, o := range []byte("a1A~") {
					judgeText(c, ref.Bech32Of5(string([]byte{byte(a), o}), g, 1))
					judgeText(c, ref.Bech32Of5(string([]byte{o, byte(a)}), g, 1))
				}
			}
			for n := 0; n < 30; n++ {
				judgeText(c, ref.Bech32Of5(strings.Repeat("k", n), g, 1))
				judgeText(c, strings.ToUpper(ref.Bech32Of5(strings.Repeat("k", n), g, 1)))
			}
		}
	})
	// the codec itself on data of every length
	x.Product("codec", []core.Dim{core.D("length", 60), core.DV("pattern", []byte{0, 255, 1, 128, 0x55, 0xaa, 0x0f}), core.DL("prefix", hrps...)}, func(v []int, c *core.C) {
		d := make([]byte, v[0])
		for i := range d {
			d[i] = []byte{0, 255, byte(i + 1), 128 >> (i % 8), 0x55, byte(i * 151), byte(255 - i*17)}[v[1]]
		}
		hrp := hrps[v[2]]
		want := ref.Bech32(hrp, d)
		s, err := bech32.Encode(hrp, d)
		c.Step(1)
		c.Outcomef("fits %v", len(want) <= 90)
		c.Check((err == nil) == (len(want) <= 90) && (err != nil || s == want), "codec text", "%x with prefix %s: %q (%v), specified %q", d, hrp, s, err, want)
		if u := strings.ToUpper(hrp); u != hrp {
			s, err := bech32.Encode(u, d)
			c.Check((err == nil) == (len(want) <= 90) && (err != nil || s == strings.ToUpper(want)), "codec text", "%x with prefix %s: %q (%v)", d, u, s, err)
		}
		for _, form := range []string{want, strings.ToUpper(want)} {
			h, b, err := bech32.Decode(form)
			rh, rb, ok := ref.ParseBech32(form)
			c.Check((err == nil) == ok && (err != nil || h == rh && bytes.Equal(b, rb)), "codec decoding", "%q: %s %x (%v), specified %s %x %v", form, h, b, err, rh, rb, ok)
		}
		g, _ := ref.Groups5(d)
		for val := 0; val < 32; val++ { // every last group
			t := ref.Bech32Of5(hrp, append(append([]byte{}, g...), byte(val)), 1)
			h, b, err := bech32.Decode(t)
			rh, rb, ok := ref.ParseBech32(t)
			c.Step(1)
			c.Check((err == nil) == ok && (err != nil || h == rh && bytes.Equal(b, rb)), "codec decoding", "%q: %s %x (%v), specified %s %x %v", t, h, b, err, rh, rb, ok)
			if len(g) > 0 {
				k := append([]byte{}, g...)
				k[len(k)-1] = byte(val)
				t := ref.Bech32Of5(hrp, k, 1)
				h, b, err := bech32.Decode(t)
				rh, rb, ok := ref.ParseBech32(t)
				c.Step(1)
				c.Check((err == nil) == ok && (err != nil || h == rh && bytes.Equal(b, rb)), "codec decoding", "%q: %s %x (%v), specified %s %x %v", t, h, b, err, rh, rb, ok)
			}
		}
	})
	short := "q1pA\x7fb"
	n := core.Pick(x, 5, 7)
	x.Product("short strings", []core.Dim{core.D("prefix of length", n+1), core.D("first", len(short)), core.D("second", len(short))}, func(v []int, c *core.C) {
		// all strings over a small alphabet, with checksums that would be right where there is one
		var rec func(s string, left int)
		rec = func(s string, left int) {
			if left == 0 {
				judgeText(c, s)
				judgeText(c, s+"1"+"qqqqqq")
				if s != "" {
					judgeText(c, ref.Bech32Of5(s, nil, 1))
				}
				return
			}
			for i := 0; i < len(short); i++ {
				rec(s+string(short[i]), left-1)
			}
		}
		if v[0] < 2 {
			if v[2] > 0 || v[0] == 0 && v[1] > 0 {
				c.Skip()
				return
			}
			rec(short[v[1] : v[1]+1][:v[0]], 0)
			return
		}
		rec(string(short[v[1]])+string(short[v[2]]), v[0]-2)
	})
}
