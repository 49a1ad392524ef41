package checks

import (
	"bytes"
	"encoding"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/hexutil"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P35"] = p35 }

// textual is what every identifier offers.
type textual interface {
	Bytes() ([]byte, error)
	ToHex() string
	encoding.TextMarshaler
}

// idKind is one kind of fixed-size identifier with all of its parsers.
type idKind struct {
	name  string
	size  int
	bytes func([]byte) (any, int, error)
	hex   func(string) (any, error)
	text  func([]byte) (any, error)
	valid func([]byte) error
	must  func(string) any
	raw   func(any) []byte
}

func idKindOf[T textual](name string, size int, fromBytes func([]byte) (T, int, error), fromHex func(string) (T, error), must func(string) T, valid func([]byte) error, unmarshal func(*T, []byte) error) idKind {
	return idKind{name: name, size: size, valid: valid,
		bytes: func(b []byte) (any, int, error) { v, n, err := fromBytes(b); return v, n, err },
		hex:   func(s string) (any, error) { v, err := fromHex(s); return v, err },
		must:  func(s string) any { return must(s) },
		text:  func(b []byte) (any, error) { var v T; err := unmarshal(&v, b); return v, err },
		raw:   func(v any) []byte { b, _ := v.(T).Bytes(); return b },
	}
}

func idKinds() []idKind {
	return []idKind{
		idKindOf("Identifier", 32, iotago.IdentifierFromBytes, iotago.IdentifierFromHexString, iotago.MustIdentifierFromHexString, iotago.IsValidIdentifier, (*iotago.Identifier).UnmarshalText),
		idKindOf("AccountID", 32, iotago.AccountIDFromBytes, iotago.AccountIDFromHexString, iotago.MustAccountIDFromHexString, iotago.IsValidAccountID, (*iotago.AccountID).UnmarshalText),
		idKindOf("AnchorID", 32, iotago.AnchorIDFromBytes, iotago.AnchorIDFromHexString, iotago.MustAnchorIDFromHexString, iotago.IsValidAnchorID, (*iotago.AnchorID).UnmarshalText),
		idKindOf("BlockID", 36, iotago.BlockIDFromBytes, iotago.BlockIDFromHexString, iotago.MustBlockIDFromHexString, iotago.IsValidBlockID, (*iotago.BlockID).UnmarshalText),
		idKindOf("CommitmentID", 36, iotago.CommitmentIDFromBytes, iotago.CommitmentIDFromHexString, iotago.MustCommitmentIDFromHexString, iotago.IsValidCommitmentID, (*iotago.CommitmentID).UnmarshalText),
		idKindOf("TransactionID", 36, iotago.TransactionIDFromBytes, iotago.TransactionIDFromHexString, iotago.MustTransactionIDFromHexString, iotago.IsValidTransactionID, (*iotago.TransactionID).UnmarshalText),
		idKindOf("SignedTransactionID", 36, iotago.SignedTransactionIDFromBytes, iotago.SignedTransactionIDFromHexString, iotago.MustSignedTransactionIDFromHexString, iotago.IsValidSignedTransactionID, (*iotago.SignedTransactionID).UnmarshalText),
		idKindOf("OutputID", 38, iotago.OutputIDFromBytes, iotago.OutputIDFromHexString, iotago.MustOutputIDFromHexString, iotago.IsValidOutputID, (*iotago.OutputID).UnmarshalText),
	}
}

// idPatterns are contents in which a lost, moved or repeated byte shows.
func idPattern(k, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = []byte{0, 255, byte(i + 1), byte(0x80 >> (i % 8)), byte(i*37 + 11), byte(255 - i)}[k%6]
	}
	if k >= 6 && k-6 < n { // one byte set
		for i := range b {
			b[i] = 0
		}
		b[k-6] = 0xa7
	}
	return b
}

func p35(x *core.Ctx) {
	kinds := idKinds()
	var names []string
	for _, k := range kinds {
		names = append(names, k.name)
	}
	x.Product("identifiers round trip", []core.Dim{core.DL("kind", names...), core.D("contents", 6+38)}, func(v []int, c *core.C) {
		k := kinds[v[0]]
		if v[1] >= 6+k.size {
			c.Skip()
			return
		}
		b := idPattern(v[1], k.size)
		keep := append([]byte{}, b...)
		id, n, err := k.bytes(b)
		c.Step(1)
		if !c.Check(err == nil && n == k.size && bytes.Equal(k.raw(id), keep), "bytes", "%s of %x: %x, %d bytes (%v)", k.name, keep, k.raw(id), n, err) {
			return
		}
		for i := range b {
			b[i] ^= 0xff
		}
		c.Check(bytes.Equal(k.raw(id), keep), "bytes shared", "%s changes with the bytes it was parsed from", k.name)
		t := id.(textual)
		h := "0x" + hex.EncodeToString(keep)
		c.Check(t.ToHex() == h, "hex", "%s of %x prints %s", k.name, keep, t.ToHex())
		c.Check(strings.Contains(fmt.Sprint(id), h), "string", "%s of %x prints %s", k.name, keep, fmt.Sprint(id))
		back, err := k.hex(h)
		c.Check(err == nil && back == id, "hex parse", "%s: %v (%v)", h, back, err)
		back, err = k.hex("0x" + strings.ToUpper(h[2:]))
		c.Check(err != nil || back == id, "hex parse", "%s in capitals: %v", h, back)
		c.Check(k.must(h) == id, "must hex parse", "%s", h)
		txt, err := t.MarshalText()
		c.Check(err == nil, "text", "%v", err)
		back, err = k.text(txt)
		c.Check(err == nil && back == id, "text parse", "%s: %v (%v)", txt, back, err)
		c.Check(k.valid(keep) == nil, "valid", "%x is no valid %s", keep, k.name)
		c.Outcomef("%s", k.name)
		js, err := json.Marshal(id)
		c.Check(err == nil && strings.Contains(string(js), h[2:]), "encoding/json", "%s (%v)", js, err)
		// slot parts
		if k.size >= 36 {
			slot := uint32(keep[32]) | uint32(keep[33])<<8 | uint32(keep[34])<<16 | uint32(keep[35])<<24
			switch y := id.(type) {
			case iotago.BlockID:
				c.Check(uint32(y.Slot()) == slot && y.Index() == y.Slot() && iotago.NewBlockID(y.Slot(), y.Identifier()) == y, "parts", "%s", h)
			case iotago.CommitmentID:
				c.Check(uint32(y.Slot()) == slot && iotago.NewCommitmentID(y.Slot(), y.Identifier()) == y, "parts", "%s", h)
			case iotago.TransactionID:
				c.Check(uint32(y.Slot()) == slot && iotago.NewTransactionID(y.Slot(), y.Identifier()) == y, "parts", "%s", h)
			case iotago.SignedTransactionID:
				c.Check(uint32(y.Slot()) == slot && iotago.NewSignedTransactionID(y.Slot(), y.Identifier()) == y, "parts", "%s", h)
			case iotago.OutputID:
				idx := uint16(keep[36]) | uint16(keep[37])<<8
				tx := y.TransactionID()
				in := y.UTXOInput()
				c.Check(uint32(y.CreationSlot()) == slot && uint32(y.Slot()) == slot && y.Index() == idx && bytes.Equal(tx[:], keep[:36]) && iotago.OutputIDFromTransactionIDAndIndex(tx, idx) == y && in.OutputID() == y && in.Index() == idx && in.TransactionID == tx, "parts", "%s", h)
				tx2, i2, err := iotago.OutputIDHex(h).SplitParts()
				c.Check(err == nil && *tx2 == tx && i2 == idx, "parts of hex", "%s: %v", h, err)
				in2, err := iotago.OutputIDHex(h).AsUTXOInput()
				c.Check(err == nil && in2.OutputID() == y, "parts of hex", "%s: %v", h, err)
				ids, err := iotago.HexOutputIDsFromOutputIDs(y, iotago.EmptyOutputID).OutputIDs()
				c.Check(err == nil && len(ids) == 2 && ids[0] == y && ids[1] == iotago.EmptyOutputID, "hex list", "%s: %v", h, err)
			}
		}
	})

	// bytes, hex and text of every length
	x.Product("identifier lengths", []core.Dim{core.DL("kind", names...), core.D("bytes", 80), core.D("contents", 6)}, func(v []int, c *core.C) {
		k := kinds[v[0]]
		n := v[1]
		b := idPattern(v[2], n)
		c.Outcomef("right length %v", n == k.size)
		c.Step(4)
		var id any
		var used int
		var err error
		pan := core.Panics(func() { id, used, err = k.bytes(b) })
		switch {
		case n < k.size:
			c.Check(pan == "" && err != nil, "short bytes", "%s from %d bytes: %v %s", k.name, n, id, pan)
		default:
			c.Check(pan == "" && (err != nil || used == k.size && bytes.Equal(k.raw(id), b[:k.size])), "bytes", "%s from %d bytes: %x, %d consumed (%v) %s", k.name, n, k.raw(id), used, err, pan)
			c.Check(n > k.size || err == nil, "bytes", "%s from %d bytes: %v", k.name, n, err)
		}
		c.Check((k.valid(b) == nil) == (n == k.size), "validity of length", "%s of %d bytes valid: %v", k.name, n, k.valid(b))
		h := hex.EncodeToString(b)
		for _, s := range []string{"0x" + h, "0x" + strings.ToUpper(h)} {
			pan = core.Panics(func() { id, err = k.hex(s) })
			if n == k.size {
				c.Check(pan == "" && (err == nil && bytes.Equal(k.raw(id), b) || err != nil && s != strings.ToLower(s)), "hex", "%s from %s: %v (%v) %s", k.name, s, id, err, pan)
			} else {
				c.Check(pan == "" && err != nil, "hex of a wrong length", "%s from %d hex digits: %v %s", k.name, 2*n, id, pan)
				pan = core.Panics(func() { k.must(s) })
				c.Check(pan != "", "must hex of a wrong length", "%s from %d hex digits", k.name, 2*n)
			}
		}
		for _, t := range []string{h, h + "0", h + "g"} {
			id = nil
			pan = core.Panics(func() { id, err = k.text([]byte(t)) })
			if n == k.size && t == h {
				c.Check(pan == "" && err == nil && bytes.Equal(k.raw(id), b), "text", "%s from %s: %v (%v) %s", k.name, t, id, err, pan)
			} else {
				c.Check(pan == "" && err != nil, "text of a wrong length", "%s from %d hex digits: %v %s", k.name, len(t), id, pan)
			}
		}
	})
	// one wrong character anywhere
	chars := func() (o []byte) {
		for i := 0; i < 256; i++ {
			o = append(o, byte(i))
		}
		return
	}()
	isHex := func(ch byte) bool {
		return ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'f' || ch >= 'A' && ch <= 'F'
	}
	x.Product("identifier characters", []core.Dim{core.DL("kind", names...), core.D("position", 2+2*38)}, func(v []int, c *core.C) {
		k, pos := kinds[v[0]], v[1]
		if pos >= 2+2*k.size {
			c.Skip()
			return
		}
		b := idPattern(4, k.size)
		h := "0x" + hex.EncodeToString(b)
		for _, ch := range chars {
			s := h[:pos] + string([]byte{ch}) + h[pos+1:]
			want := append([]byte{}, b...)
			ok := s[:2] == "0x" && isHex(s[max(pos, 2)])
			if ok {
				want, _ = hex.DecodeString(s[2:])
			}
			var id any
			var err error
			c.Step(1)
			pan := core.Panics(func() { id, err = k.hex(s) })
			c.Outcomef("accepted %v", err == nil)
			c.Check(pan == "" && ((err == nil) == ok || s[:2] == "0X" || ok && ch >= 'A' && ch <= 'F') && (err != nil || bytes.Equal(k.raw(id), want)), "hex alphabet", "%s from %q: %v (%v) %s", k.name, s, id, err, pan)
			if pos >= 2 {
				pan = core.Panics(func() { id, err = k.text([]byte(s[2:])) })
				c.Check(pan == "" && (err == nil) == ok && (err != nil || bytes.Equal(k.raw(id), want)), "text alphabet", "%s from %q: %v (%v) %s", k.name, s[2:], id, err, pan)
			}
			// one character more or less
			for _, s := range []string{h[:pos] + h[pos+1:], h[:pos] + string([]byte{ch}) + h[pos:], s + "0", s[:len(s)-1]} {
				pan = core.Panics(func() { id, err = k.hex(s) })
				c.Step(1)
				c.Check(pan == "" && err != nil, "hex of a wrong length", "%s from %q: %v %s", k.name, s, id, pan)
			}
		}
		for _, s := range []string{"", "0", "0x", "0x0", h[2:], " " + h, h + " ", h + "\n", "0x" + h, h + h, h + "\x00", "-" + h, "0x-" + h[3:], "0x+" + h[3:]} {
			var err error
			var id any
			pan := core.Panics(func() { id, err = k.hex(s) })
			c.Step(1)
			c.Check(pan == "" && err != nil, "hex form", "%s from %q: %v %s", k.name, s, id, pan)
		}
	})

	// lists of identifiers
	x.Product("identifier lists", []core.Dim{core.D("length", 6), core.D("bad one", 7), core.DL("how", "short", "long", "alphabet", "empty")}, func(v []int, c *core.C) {
		n, bad := v[0], v[1]-1
		if bad >= n || bad < 0 && v[2] > 0 {
			c.Skip()
			return
		}
		mk := func(size int) (out []string, raw [][]byte) {
			for i := 0; i < n; i++ {
				b := idPattern(2, size)
				b[0] = byte(i)
				raw = append(raw, b)
				h := "0x" + hex.EncodeToString(b)
				if i == bad {
					h = []string{h[:len(h)-2], h + "00", h[:len(h)-1] + "g", ""}[v[2]]
				}
				out = append(out, h)
			}
			return
		}
		c.Step(5)
		c.Outcomef("all right %v", bad < 0)
		hs, raw := mk(36)
		blocks, err := iotago.BlockIDsFromHexString(hs)
		c.Check((err == nil) == (bad < 0), "list", "block ids %v: %v", hs, err)
		for i := range blocks {
			c.Check(bytes.Equal(blocks[i][:], raw[i]) && blocks.ToHex()[i] == hs[i], "list member", "block id %d", i)
		}
		coms, err := iotago.CommitmentIDsFromHexString(hs)
		c.Check((err == nil) == (bad < 0), "list", "commitment ids %v: %v", hs, err)
		for i := range coms {
			c.Check(bytes.Equal(coms[i][:], raw[i]) && coms.ToHex()[i] == hs[i], "list member", "commitment id %d", i)
		}
		txs, err := iotago.TransactionIDsFromHexString(hs)
		c.Check((err == nil) == (bad < 0), "list", "transaction ids %v: %v", hs, err)
		for i := range txs {
			c.Check(bytes.Equal(txs[i][:], raw[i]) && txs.ToHex()[i] == hs[i], "list member", "transaction id %d", i)
		}
		stxs, err := iotago.SignedTransactionIDsFromHexString(hs)
		c.Check((err == nil) == (bad < 0), "list", "signed transaction ids %v: %v", hs, err)
		for i := range stxs {
			c.Check(bytes.Equal(stxs[i][:], raw[i]) && stxs.ToHex()[i] == hs[i], "list member", "signed transaction id %d", i)
		}
		hs, raw = mk(38)
		outs, err := iotago.OutputIDsFromHexString(hs)
		c.Check((err == nil) == (bad < 0), "list", "output ids %v: %v", hs, err)
		for i := range outs {
			c.Check(bytes.Equal(outs[i][:], raw[i]) && outs.ToHex()[i] == hs[i], "list member", "output id %d", i)
		}
		var hids iotago.HexOutputIDs
		for _, h := range hs {
			hids = append(hids, iotago.HexOutputID(h))
		}
		outs, err = hids.OutputIDs()
		c.Check((err == nil) == (bad < 0), "list", "hex output ids %v: %v", hs, err)
		for i := range outs {
			c.Check(bytes.Equal(outs[i][:], raw[i]), "list member", "hex output id %d", i)
		}
	})

	// addresses and hashes in hex
	x.Product("implicit account creation address", []core.Dim{core.D("bytes", 70), core.D("contents", 6)}, func(v []int, c *core.C) {
		b := idPattern(v[1], v[0])
		var a *iotago.ImplicitAccountCreationAddress
		var err error
		pan := core.Panics(func() { a, err = iotago.ParseImplicitAccountCreationAddressFromHexString("0x" + hex.EncodeToString(b)) })
		c.Step(1)
		c.Outcomef("accepted %v", err == nil)
		c.Check(pan == "" && (err == nil) == (len(b) == 32) && (err != nil || bytes.Equal(a[:], b)), "address hex", "%d bytes: %v (%v) %s", len(b), a, err, pan)
		pan = core.Panics(func() {
			iotago.MustParseImplicitAccountCreationAddressFromHexString("0x" + hex.EncodeToString(b))
		})
		c.Check((pan == "") == (len(b) == 32), "address hex", "%d bytes: must form %s", len(b), pan)
	})

	// indices and one-byte values
	x.Product("indices", []core.Dim{core.DL("kind", "slot", "epoch", "version", "transaction state", "failure reason"), core.D("bytes", 9), core.D("contents", 256)}, func(v []int, c *core.C) {
		b := make([]byte, v[1])
		for i := range b {
			b[i] = byte(v[2] * (2*i + 1))
		}
		size := []int{4, 4, 1, 1, 1}[v[0]]
		var got uint64
		var used int
		var err error
		var back []byte
		var str string
		pan := core.Panics(func() {
			switch v[0] {
			case 0:
				i, n, e := iotago.SlotIndexFromBytes(b)
				got, used, err = uint64(i), n, e
				back, _ = i.Bytes()
				str = i.String()
			case 1:
				i, n, e := iotago.EpochIndexFromBytes(b)
				got, used, err = uint64(i), n, e
				back, _ = i.Bytes()
				str = i.String()
			case 2:
				i, n, e := iotago.VersionFromBytes(b)
				got, used, err = uint64(i), n, e
				back, _ = i.Bytes()
			case 3:
				i, n, e := api.TransactionStateFromBytes(b)
				got, used, err = uint64(i), n, e
				back, _ = i.Bytes()
				if e == nil {
					str = i.String()
				}
			case 4:
				i, n, e := api.TransactionFailureReasonFromBytes(b)
				got, used, err = uint64(i), n, e
				back, _ = i.Bytes()
			}
		})
		c.Step(1)
		if !c.Check(pan == "", "index crashes", "kind %d from %x: %s", v[0], b, pan) {
			return
		}
		ok := len(b) >= size && !(v[0] == 3 && b[0] > 5)
		c.Outcomef("accepted %v", err == nil)
		if !c.Check((err == nil) == ok, "index", "kind %d from %x: %d (%v)", v[0], b, got, err) || err != nil {
			return
		}
		var want uint64
		for i := size - 1; i >= 0; i-- {
			want = want<<8 | uint64(b[i])
		}
		c.Check(got == want && used == size && bytes.Equal(back, b[:size]), "index", "kind %d from %x: %d, %d consumed, encodes to %x", v[0], b, got, used, back)
		c.Check(v[0] > 1 || strings.Contains(str, strconv.FormatUint(want, 10)), "index string", "%s", str)
	})
	// states in JSON
	words := []string{"unknown", "pending", "accepted", "confirmed", "finalized", "dropped", "orphaned", "committed", "failed", "", "Pending", "pending ", "0", "none", "rejected"}
	x.Product("states", []core.Dim{core.D("value", 256)}, func(v []int, c *core.C) {
		for i, tab := range [][]string{words[:7], {"unknown", "pending", "accepted", "committed", "finalized", "failed"}} {
			var js any
			var err error
			pan := core.Panics(func() {
				if i == 0 {
					js, err = api.BlockState(v[0]).EncodeJSON()
				} else {
					js, err = api.TransactionState(v[0]).EncodeJSON()
				}
			})
			c.Step(1)
			c.Outcomef("valid %v", err == nil)
			c.Check(pan == "" && (err == nil) == (v[0] < len(tab)) && (err != nil || js == tab[v[0]]), "state json", "%d: %v (%v) %s", v[0], js, err, pan)
		}
	})
	x.Product("state words", []core.Dim{core.DL("word", words...)}, func(v []int, c *core.C) {
		w := words[v[0]]
		for i, tab := range [][]string{words[:7], {"unknown", "pending", "accepted", "committed", "finalized", "failed"}} {
			want := -1
			for j, t := range tab {
				if t == w {
					want = j
				}
			}
			var b api.BlockState
			var t api.TransactionState
			for _, val := range []any{w, any(nil), 1, 1.0, []byte(w), true} {
				var err error
				got := 0
				if i == 0 {
					err = b.DecodeJSON(val)
					got = int(b)
				} else {
					err = t.DecodeJSON(val)
					got = int(t)
				}
				c.Step(1)
				c.Outcomef("valid %v", err == nil)
				c.Check((err == nil) == (val == any(w) && want >= 0) && (err != nil || got == want), "state word", "%v: %d (%v)", val, got, err)
			}
		}
	})

	// hexutil: bytes, 64-bit and 256-bit numbers
	x.Product("hex bytes", []core.Dim{core.D("length", 40), core.D("contents", 6)}, func(v []int, c *core.C) {
		b := idPattern(v[1], v[0])
		s := hexutil.EncodeHex(b)
		want := "0x" + hex.EncodeToString(b)
		if len(b) == 0 {
			want = ""
		}
		c.Step(1)
		c.Outcomef("%d bytes", len(b))
		c.Check(s == want, "hex", "%x prints %q", b, s)
		back, err := hexutil.DecodeHex(s)
		c.Check(err == nil && bytes.Equal(back, b), "hex parse", "%q: %x (%v)", s, back, err)
		for pos := 0; pos < len(s); pos++ {
			for _, ch := range chars {
				t := s[:pos] + string([]byte{ch}) + s[pos+1:]
				var got []byte
				var err error
				pan := core.Panics(func() { got, err = hexutil.DecodeHex(t) })
				ok := t[:2] == "0x" && (pos < 2 || isHex(ch))
				c.Step(1)
				c.Check(pan == "" && ((err == nil) == ok || t[:2] == "0X") && (err != nil || strings.EqualFold(hexutil.EncodeHex(got), t)), "hex parse", "%q: %x (%v) %s", t, got, err, pan)
			}
			for _, t := range []string{s[:pos] + s[pos+1:], s[:pos] + "0" + s[pos:]} {
				if t == "0x" || t == "" {
					continue
				}
				_, err := hexutil.DecodeHex(t)
				c.Step(1)
				c.Check(err != nil, "hex of odd length", "%q accepted", t)
			}
		}
	})
	x.Product("decimal numbers", []core.Dim{core.DV("value", bounds64(true)), core.DL("form", "plain", "changed")}, func(v []int, c *core.C) {
		n := bounds64(true)[v[0]]
		s := hexutil.EncodeUint64(n)
		c.Step(1)
		c.Check(s == new(big.Int).SetUint64(n).String(), "decimal", "%d prints %s", n, s)
		got, err := hexutil.DecodeUint64(s)
		c.Check(err == nil && got == n, "decimal parse", "%s: %d (%v)", s, got, err)
		judge := func(t string) {
			var got uint64
			var err error
			pan := core.Panics(func() { got, err = hexutil.DecodeUint64(t) })
			digits := t != ""
			for i := range t {
				digits = digits && t[i] >= '0' && t[i] <= '9'
			}
			want, _ := new(big.Int).SetString(t, 10)
			ok := digits && want.Cmp(pow2(64, 0)) < 0
			c.Step(1)
			c.Outcomef("accepted %v", err == nil)
			c.Check(pan == "" && ((err == nil) == ok || ok && t[0] == '0') && (err != nil || got == want.Uint64()), "decimal parse", "%q: %d (%v) %s", t, got, err, pan)
		}
		if v[1] == 1 {
			for pos := 0; pos <= len(s); pos++ {
				for _, ch := range chars {
					judge(s[:pos] + string([]byte{ch}) + s[pos:])
					if pos < len(s) {
						judge(s[:pos] + string([]byte{ch}) + s[pos+1:])
					}
				}
			}
			for _, t := range []string{"", "0x1", "-1", "+1", " 1", "1 ", "1_0", "1e3", "1.0", "00", "18446744073709551616", "99999999999999999999999999", "\u0661"} {
				judge(t)
			}
		}
	})
	var bigs []*big.Int
	for _, k := range []uint{0, 1, 3, 4, 8, 32, 63, 64, 65, 127, 128, 192, 252, 255, 256, 257, 300} {
		for d := int64(-1); d <= 1; d++ {
			bigs = append(bigs, pow2(k, d))
		}
	}
	bigs = append(bigs, big.NewInt(-1), big.NewInt(-256))
	var bigNames []string
	for _, b := range bigs {
		bigNames = append(bigNames, b.String())
	}
	x.Product("256-bit numbers", []core.Dim{core.DL("value", bigNames...)}, func(v []int, c *core.C) {
		n := bigs[v[0]]
		keep := new(big.Int).Set(n)
		s := hexutil.EncodeUint256(n)
		c.Step(1)
		in := n.Sign() >= 0 && n.BitLen() <= 256
		c.Check(n.Cmp(keep) == 0, "number changed", "encoding changes %s", keep)
		got, err := hexutil.DecodeUint256(s)
		c.Outcomef("in range %v", in)
		c.Check((err == nil) == in && (err != nil || got.Cmp(n) == 0), "256-bit number", "%s prints %s, parses to %v (%v)", n, s, got, err)
		c.Check(!in || s == "0x"+n.Text(16), "256-bit number", "%s prints %s", n, s)
		for pos := 0; pos <= len(s); pos++ {
			for _, ch := range chars {
				for _, t := range []string{s[:pos] + string([]byte{ch}) + s[pos:], s[:pos] + string([]byte{ch}) + s[min(pos+1, len(s)):]} {
					var got *big.Int
					var err error
					pan := core.Panics(func() { got, err = hexutil.DecodeUint256(t) })
					c.Step(1)
					if !c.Check(pan == "", "256-bit number crashes", "%q: %s", t, pan) || err != nil {
						continue
					}
					okForm := len(t) > 2 && (t[:2] == "0x" || t[:2] == "0X")
					for i := 2; okForm && i < len(t); i++ {
						okForm = isHex(t[i])
					}
					if !c.Check(okForm, "256-bit number", "%q parses to %s", t, got) {
						continue
					}
					want, _ := new(big.Int).SetString(t[2:], 16)
					c.Check(got.Cmp(want) == 0 && got.BitLen() <= 256, "256-bit number", "%q parses to %s", t, got)
				}
			}
		}
	})

	// identifiers, indices and numbers inside JSON objects
	e := gen.NewEnv(ref.Default())
	p35json(x, e)
}

// p35json judges identifiers and numbers in the JSON forms of objects.
func p35json(x *core.Ctx, e *gen.Env) {
	type field struct {
		name string
		mk   func(v string) (js string, dst any, get func() string)
		size int // bytes of a hex field, 0: decimal string
	}
	in := &iotago.UTXOInput{TransactionID: gen.TxIDAt(1, 2), TransactionOutputIndex: 3}
	inJS, err := e.API.JSONEncode(in)
	if err != nil {
		panic(err)
	}
	out := basic(gen.Ed(0), 12345678, 77)
	outJS, err := e.API.JSONEncode(out)
	if err != nil {
		panic(err)
	}
	if !strings.Contains(string(inJS), in.TransactionID.ToHex()) || !strings.Contains(string(outJS), `"12345678"`) || !strings.Contains(string(outJS), `"77"`) {
		x.Violation("json form", fmt.Sprintf("objects do not show identifiers in hex and amounts in decimal: %s %s", inJS, outJS), core.Replay{})
		return
	}
	fields := []field{
		{"transaction id", func(v string) (string, any, func() string) {
			d := new(iotago.UTXOInput)
			return strings.Replace(string(inJS), in.TransactionID.ToHex(), v, 1), d, func() string { return d.TransactionID.ToHex() }
		}, 36},
		{"amount", func(v string) (string, any, func() string) {
			d := new(iotago.BasicOutput)
			return strings.Replace(string(outJS), "12345678", v, 1), d, func() string { return fmt.Sprint(uint64(d.Amount)) }
		}, 0},
		{"mana", func(v string) (string, any, func() string) {
			d := new(iotago.BasicOutput)
			return strings.Replace(string(outJS), `"77"`, `"`+v+`"`, 1), d, func() string { return fmt.Sprint(uint64(d.Mana)) }
		}, 0},
	}
	var names []string
	for _, f := range fields {
		names = append(names, f.name)
	}
	texts := []string{"", "0", "1", "18446744073709551615", "18446744073709551616", "99999999999999999999", "-1", "+1", " 1", "1 ", "0x", "0x1", "1.0", "1e3", "\u0661", "abc", "0x" + strings.Repeat("ab", 36), "0x" + strings.Repeat("ab", 35) + "ag", strings.Repeat("ab", 36), "0x" + strings.Repeat("a", 71), "0x" + strings.Repeat("a", 73)}
	for n := 0; n < 40; n++ {
		if n != 36 {
			texts = append(texts, "0x"+strings.Repeat("cd", n))
		}
	}
	x.Product("fields of JSON objects", []core.Dim{core.DL("field", names...), core.DL("text", texts...)}, func(v []int, c *core.C) {
		f, t := fields[v[0]], texts[v[1]]
		js, dst, get := f.mk(t)
		var err error
		pan := core.Panics(func() { err = e.API.JSONDecode([]byte(js), dst) })
		c.Step(1)
		c.Outcomef("accepted %v", err == nil)
		ok := false
		if f.size > 0 {
			b, herr := hex.DecodeString(strings.TrimPrefix(t, "0x"))
			ok = strings.HasPrefix(t, "0x") && herr == nil && len(b) == f.size
		} else {
			n, isN := new(big.Int).SetString(t, 10)
			ok = isN && n.Sign() >= 0 && n.Cmp(pow2(64, 0)) < 0 && !strings.HasPrefix(t, "+")
		}
		key := "json " + f.name
		if f.size > 0 && (t == "" || strings.HasPrefix(t, "0x") && strings.Trim(t[2:], "cd") == "") {
			key = "json identifier of a wrong length"
		}
		c.Check(pan == "" && (err == nil) == ok && (err != nil || get() == t), key, "%s %q: accepted %v as %s (%v) %s", f.name, t, err == nil, get(), err, pan)
	})
}
