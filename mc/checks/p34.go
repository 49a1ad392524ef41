package checks

import (
	"bytes"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"strings"
	"sync"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/wallet"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P34"] = p34 }

func hmac512(key []byte, data ...[]byte) []byte {
	h := hmac.New(sha512.New, key)
	for _, d := range data {
		h.Write(d)
	}
	return h.Sum(nil)
}

// slip10 derives the Ed25519 key of a path of hardened indices.
func slip10(seed []byte, path []uint32) ed25519.PrivateKey {
	i := hmac512([]byte("ed25519 seed"), seed)
	for _, n := range path {
		i = hmac512(i[32:], []byte{0}, i[:32], binary.BigEndian.AppendUint32(nil, n|1<<31))
	}
	return ed25519.NewKeyFromSeed(i[:32])
}

// mnemonicSeed is the BIP-39 seed of a mnemonic without passphrase.
func mnemonicSeed(words string) []byte {
	u := hmac512([]byte(words), []byte("mnemonic"), []byte{0, 0, 0, 1})
	t := append([]byte{}, u...)
	for i := 1; i < 2048; i++ {
		u = hmac512([]byte(words), u)
		for k := range t {
			t[k] ^= u[k]
		}
	}
	return t
}

func pathText(p []uint32, mark string) string {
	s := "m"
	for _, n := range p {
		s += fmt.Sprintf("/%d%s", n, mark)
	}
	return s
}

func pubOf(k ed25519.PrivateKey) ed25519.PublicKey { return k.Public().(ed25519.PublicKey) }

// edOf and implicitOf are the addresses of a key.
func edOf(k ed25519.PrivateKey) *iotago.Ed25519Address {
	a := &iotago.Ed25519Address{}
	copy(a[:], ref.Blake(pubOf(k)))
	return a
}
func implicitOf(k ed25519.PrivateKey) *iotago.ImplicitAccountCreationAddress {
	a := &iotago.ImplicitAccountCreationAddress{}
	copy(a[:], ref.Blake(pubOf(k)))
	return a
}

// sameKeys compares everything a manager derives for an index with the reference key.
func sameKeys(c *core.C, km *wallet.KeyManager, want ed25519.PrivateKey, index ...uint32) {
	priv, pub := km.KeyPair(index...)
	c.Check(bytes.Equal(priv, want) && bytes.Equal(pub, pubOf(want)), "key pair", "index %v: key %x %x instead of %x", index, priv, pub, want)
	a, b := km.Address(iotago.AddressEd25519, index...), km.Address(iotago.AddressImplicitAccountCreation, index...)
	ea, ok := a.(*iotago.Ed25519Address)
	c.Check(ok && *ea == *edOf(want), "ed25519 address", "index %v: address %v", index, a)
	ia, ok := b.(*iotago.ImplicitAccountCreationAddress)
	c.Check(ok && *ia == *implicitOf(want), "implicit address", "index %v: address %v", index, b)
	msg := []byte("msg")
	for _, s := range []iotago.AddressSigner{km.AddressSigner(index...)} {
		for _, addr := range []iotago.Address{edOf(want), implicitOf(want)} {
			sig, err := s.Sign(addr, msg)
			es, ok := sig.(*iotago.Ed25519Signature)
			c.Check(err == nil && ok && bytes.Equal(es.PublicKey[:], pubOf(want)) && bytes.Equal(es.Signature[:], ed25519.Sign(want, msg)), "manager's signer", "index %v: signature %v, error %v", index, sig, err)
		}
	}
	c.Step(1)
	c.Validated()
}

func p34(x *core.Ctx) {
	const top = uint32(1)<<31 - 1
	numbers := []uint32{0, 1, 2, 255, 256, 65535, 1 << 16, 1<<24 + 3, top - 1, top}
	// 1. derivation against SLIP-10
	var seeds [][]byte
	for _, n := range core.Pick(x, []int{0, 1, 16, 31, 32, 33, 64, 128, 129}, seq(130)) {
		seeds = append(seeds, bytes.Repeat([]byte{0}, n), bytes.Repeat([]byte{255}, n), ramp(n))
	}
	paths := [][]uint32{{}, {44}, {44, 4218}, {44, 4218, 0, 0}, {44, 4218, 0, 0, 0}, {44, 4219, 0, 0, 0}, {44, 1, 0, 0, 0}, {44, 4218, 1, 0, 0}, {44, 4218, 0, 1, 0}, {44, 4218, 1, 1, 7}, {44, 4218, 0, 0, 0, 0}, {44, 4218, 0, 0, 0, 5, 6}, {0, 0, 0, 0, top}, {top, top, top, top, top}}
	pl := make([]string, len(paths))
	for i, p := range paths {
		pl[i] = pathText(p, "'")
	}
	x.Product("derivation", []core.Dim{core.D("seed", len(seeds)), core.DL("path", pl...), core.DL("notation", "'", "H"), core.DL("index", append([]string{"none"}, labels(numbers)...)...)}, func(v []int, c *core.C) {
		p := paths[v[1]]
		km, err := wallet.NewKeyManager(seeds[v[0]], pathText(p, []string{"'", "H"}[v[2]]))
		if !c.Check(err == nil, "path refused", "path %v: %v", pl[v[1]], err) {
			return
		}
		var index []uint32
		want := append([]uint32{}, p...)
		if v[3] > 0 {
			index = []uint32{numbers[v[3]-1]}
			if len(p) < 5 {
				c.Check(core.Panics(func() { km.KeyPair(index...) }) != "", "short path", "an index on a path of %d parts is ignored", len(p))
				c.Outcome("no index in the path")
				return
			}
			want[4] = index[0]
		}
		c.Outcome("derived")
		key := slip10(seeds[v[0]], want)
		sameKeys(c, km, key, index...)
		var got []uint32
		for _, n := range km.Path(index...) {
			got = append(got, n&^(1<<31))
			c.Check(n>>31 == 1, "path", "path %v", km.Path(index...))
		}
		c.Check(fmt.Sprint(got) == fmt.Sprint(want) || len(got)+len(want) == 0, "path", "path %v instead of %v", got, want)
		other, _ := wallet.NewKeyManager(append([]byte{}, seeds[v[0]]...), pl[v[1]])
		sameKeys(c, other, key, index...)
		c.State(key)
	})
	// 2. all keys of a family are different
	var mu sync.Mutex
	seen := map[string]string{}
	x.Product("distinct keys", []core.Dim{core.D("seed", 8), core.DL("coin", "4218", "4219", "1"), core.DV("account", numbers), core.DV("change", []uint32{0, 1, 2, top}), core.D("first index", 8)}, func(v []int, c *core.C) {
		seed := ramp(32)
		seed[v[0]*4] ^= 1 << v[0]
		coin := []uint32{4218, 4219, 1}[v[1]]
		km, err := wallet.NewKeyManager(seed, pathText([]uint32{44, coin, numbers[v[2]], []uint32{0, 1, 2, top}[v[3]], 0}, "'"))
		if !c.Check(err == nil, "path refused", "%v", err) {
			return
		}
		for _, i := range []uint32{0, 1, 2, 3, 1 << 15, 1 << 30} {
			idx := uint32(v[4]*4) ^ i
			if idx > top || (i > 3 && v[4] > 0) {
				continue
			}
			priv, _ := km.KeyPair(idx)
			id := fmt.Sprint(v[0], coin, v[2], v[3], idx)
			mu.Lock()
			o, dup := seen[string(priv)]
			seen[string(priv)] = id
			mu.Unlock()
			c.Check(!dup || o == id, "same key", "%s and %s have the same key", o, id)
			c.Step(1)
			c.Validated()
			c.State(priv)
		}
	})
	// 3. a manager is not changed by its use, nor by what its users do with their arguments and results
	uses := []struct {
		name string
		do   func(km *wallet.KeyManager, seed []byte)
	}{
		{"KeyPair()", func(km *wallet.KeyManager, _ []byte) { km.KeyPair() }},
		{"KeyPair(1)", func(km *wallet.KeyManager, _ []byte) { km.KeyPair(1) }},
		{"Address(5)", func(km *wallet.KeyManager, _ []byte) { km.Address(iotago.AddressEd25519, 5) }},
		{"AddressSigner(2,3)", func(km *wallet.KeyManager, _ []byte) { km.AddressSigner(2, 3) }},
		{"Path(7)", func(km *wallet.KeyManager, _ []byte) { km.Path(7) }},
		{"change the result of Path()", func(km *wallet.KeyManager, _ []byte) {
			for p, i := km.Path(), 0; i < len(p); i++ {
				p[i] ^= 1
			}
		}},
		{"change the result of Path(0)", func(km *wallet.KeyManager, _ []byte) {
			for p, i := km.Path(0), 0; i < len(p); i++ {
				p[i] ^= 1
			}
		}},
		{"wipe the key", func(km *wallet.KeyManager, _ []byte) { k, p := km.KeyPair(); clear(k); clear(p) }},
		{"wipe the seed", func(km *wallet.KeyManager, s []byte) { clear(s) }},
		{"Mnemonic()", func(km *wallet.KeyManager, _ []byte) {
			m := km.Mnemonic()
			for i := range m {
				m[i] = "zoo"
			}
		}},
	}
	ul := lists(len(uses), core.Pick(x, 2, 3))
	sources := []string{"seed", "mnemonic"}
	words := strings.Fields(strings.Repeat("abandon ", 23) + "art")
	wordSeed := mnemonicSeed(strings.Join(words, " "))
	var listed []string
	for _, l := range ul {
		s := ""
		for _, u := range l {
			s += uses[u].name + "; "
		}
		listed = append(listed, s)
	}
	x.Product("uses of a manager", []core.Dim{core.DL("from", sources...), core.DL("uses", listed...)}, func(v []int, c *core.C) {
		seed := ramp(32)
		given := append([]byte{}, seed...)
		km, err := wallet.NewKeyManager(given, wallet.DefaultIOTAPath)
		if v[0] == 1 {
			seed = wordSeed
			km, err = wallet.NewKeyManagerFromMnemonic(strings.Join(words, " "), wallet.DefaultIOTAPath)
		}
		if !c.Check(err == nil, "manager refused", "%v", err) {
			return
		}
		for _, u := range ul[v[1]] {
			p := core.Panics(func() { uses[u].do(km, given) })
			c.Check(p == "", "panic "+uses[u].name, "panics: %s", p)
			sameKeys(c, km, slip10(seed, []uint32{44, 4218, 0, 0, 0}))
			sameKeys(c, km, slip10(seed, []uint32{44, 4218, 0, 0, 9}), 9)
			p = core.Panics(func() {
				got := km.Mnemonic().String()
				if v[0] == 1 {
					c.Check(got == strings.Join(words, " "), "mnemonic changed", "the mnemonic is %q", got)
				}
			})
			c.Check(p == "", "panic Mnemonic()", "panics: %s", p)
		}
	})
	// 4. mnemonics
	var entropies [][]byte
	for i := 0; i < core.Pick(x, 64, 256); i++ {
		b := make([]byte, 32)
		switch i {
		case 1:
			b = bytes.Repeat([]byte{255}, 32)
		case 2:
			b = bytes.Repeat([]byte{127}, 32)
		case 3:
			b = bytes.Repeat([]byte{128}, 32)
		case 4:
			b = ramp(32)
		default:
			if i > 4 {
				b[i%32] = byte(1 << (i / 32 % 8))
			}
		}
		entropies = append(entropies, b)
	}
	vectors := map[int]string{0: strings.Repeat("abandon ", 23) + "art", 1: strings.Repeat("zoo ", 23) + "vote",
		2: "legal winner thank year wave sausage worth useful legal winner thank year wave sausage worth useful legal winner thank year wave sausage worth title",
		3: "letter advice cage absurd amount doctor acoustic avoid letter advice cage absurd amount doctor acoustic avoid letter advice cage absurd amount doctor acoustic bless"}
	x.Product("mnemonics", []core.Dim{core.D("entropy", len(entropies)), core.DL("path", wallet.DefaultIOTAPath, wallet.DefaultShimmerPath), core.DL("spaces", "one", "many", "tabs and newlines")}, func(v []int, c *core.C) {
		raw, err := wallet.NewKeyManager(entropies[v[0]], "m")
		if !c.Check(err == nil, "manager refused", "%v", err) {
			return
		}
		text := raw.Mnemonic().String()
		if w, ok := vectors[v[0]]; ok {
			c.Check(text == w, "mnemonic of an entropy", "mnemonic %q instead of %q", text, w)
		}
		given := strings.ReplaceAll(text, " ", []string{" ", "   ", "\t\n"}[v[2]])
		path := []string{wallet.DefaultIOTAPath, wallet.DefaultShimmerPath}[v[1]]
		km, err := wallet.NewKeyManagerFromMnemonic(given, path)
		key := "mnemonic refused"
		if entropies[v[0]][0] == 0 && err != nil && strings.Contains(err.Error(), "invalid checksum") {
			key = "mnemonic of an entropy with a leading zero byte"
		}
		if !c.Check(err == nil, key, "%q: %v", given, err) {
			return
		}
		want := []uint32{44, uint32(4218 + v[1]), 0, 0, 0}
		sameKeys(c, km, slip10(mnemonicSeed(text), want))
		want[4] = 1
		sameKeys(c, km, slip10(mnemonicSeed(text), want), 1)
		p := core.Panics(func() {
			c.Check(km.Mnemonic().String() == text, "mnemonic changed", "made from %q, reports %q", text, km.Mnemonic())
		})
		c.Check(p == "", "panic Mnemonic()", "panics: %s", p)
		c.StateS(text)
	})
	bad := map[string]string{"empty": "", "12 words": strings.Repeat("abandon ", 11) + "about", "23 words": strings.Repeat("abandon ", 23), "25 words": strings.Repeat("abandon ", 23) + "art art", "48 words": strings.Repeat(strings.Repeat("abandon ", 23)+"art ", 2), "unknown word": strings.Repeat("abandon ", 22) + "iota art", "truncated word": strings.Repeat("abandon ", 22) + "abando art"}
	for i := 0; i < 24; i++ {
		w := append([]string{}, words...)
		w[i] = "zebra"
		bad[fmt.Sprintf("word %d changed", i+1)] = strings.Join(w, " ")
	}
	var badNames []string
	for n := range bad {
		badNames = append(badNames, n)
	}
	x.Product("bad mnemonics and paths", []core.Dim{core.DL("mnemonic", append(badNames, "good")...), core.DL("path", "m/44'/4218'/0'/0'/0'", "m/44'/4218'/0'/0'/x", "m//0", "m/2147483648'", "/44'", "m/-1'", "m/44''")}, func(v []int, c *core.C) {
		text := strings.Join(words, " ")
		if v[0] < len(badNames) {
			text = bad[badNames[v[0]]]
		}
		path := []string{"m/44'/4218'/0'/0'/0'", "m/44'/4218'/0'/0'/x", "m//0", "m/2147483648'", "/44'", "m/-1'", "m/44''"}[v[1]]
		km, err := wallet.NewKeyManagerFromMnemonic(text, path)
		ok := v[0] == len(badNames) && v[1] == 0
		c.Check((err == nil) == ok && (km != nil) == ok, "judgement of a mnemonic", "mnemonic %q path %q: %v", text, path, err)
		c.Step(1)
		c.Validated()
		_, err = wallet.NewKeyManager([]byte{1}, path)
		c.Check((err == nil) == (v[1] == 0), "judgement of a path", "path %q: %v", path, err)
	})
	x.Product("managers from random entropy", []core.Dim{core.D("run", core.Pick(x, 32, 256))}, func(v []int, c *core.C) {
		km, err := wallet.NewKeyManagerFromRandom(wallet.DefaultIOTAPath)
		km2, err2 := wallet.NewKeyManagerFromRandom(wallet.DefaultIOTAPath)
		if !c.Check(err == nil && err2 == nil, "random manager", "%v %v", err, err2) {
			return
		}
		a, _ := km.KeyPair()
		b, _ := km2.KeyPair()
		c.Check(!bytes.Equal(a, b), "equal random managers", "two managers have the same key")
		back, err := wallet.NewKeyManagerFromMnemonic(km.Mnemonic().String(), wallet.DefaultIOTAPath)
		if c.Check(err == nil, "mnemonic refused", "%v", err) {
			k, _ := back.KeyPair()
			c.Check(bytes.Equal(a, k), "mnemonic restores other keys", "a manager from the reported mnemonic has another key")
		}
		c.Step(1)
		c.Validated()
	})
	p34signers(x)
	p34accounts(x)
}

// holding is one way of giving a key to a signer.
type holding struct {
	name string
	addr func(k ed25519.PrivateKey) []iotago.Address // the addresses it is mapped to
	keys func(k ed25519.PrivateKey) []iotago.AddressKeys
}

func p34signers(x *core.Ctx) {
	caps := []iotago.AddressCapabilitiesBitMask{{}, {1}, {255, 1}}
	restricted := func(k ed25519.PrivateKey, i int) *iotago.RestrictedAddress {
		return &iotago.RestrictedAddress{Address: edOf(k), AllowedCapabilities: caps[i]}
	}
	holdings := []holding{
		{"nothing", func(ed25519.PrivateKey) []iotago.Address { return nil }, func(ed25519.PrivateKey) []iotago.AddressKeys { return nil }},
		{"ed25519", func(k ed25519.PrivateKey) []iotago.Address { return []iotago.Address{edOf(k)} }, func(k ed25519.PrivateKey) []iotago.AddressKeys {
			return []iotago.AddressKeys{iotago.NewAddressKeysForEd25519Address(edOf(k), k)}
		}},
		{"implicit", func(k ed25519.PrivateKey) []iotago.Address { return []iotago.Address{implicitOf(k)} }, func(k ed25519.PrivateKey) []iotago.AddressKeys {
			return []iotago.AddressKeys{iotago.NewAddressKeysForImplicitAccountCreationAddress(implicitOf(k), k)}
		}},
		{"restricted", func(k ed25519.PrivateKey) []iotago.Address { return []iotago.Address{restricted(k, 1)} }, func(k ed25519.PrivateKey) []iotago.AddressKeys {
			a, err := iotago.NewAddressKeysForRestrictedEd25519Address(restricted(k, 1), k)
			if err != nil {
				panic(err)
			}
			return []iotago.AddressKeys{a}
		}},
		{"ed25519 and implicit", func(k ed25519.PrivateKey) []iotago.Address { return []iotago.Address{edOf(k), implicitOf(k)} }, nil},
	}
	var names []string
	for _, h := range holdings {
		names = append(names, h.name)
	}
	msgs := [][]byte{nil, {}, {0}, []byte("message"), ramp(32), bytes.Repeat([]byte{7}, 1000)}
	const keys = 3
	kinds := []string{"ed25519", "implicit", "restricted {}", "restricted {1}", "restricted {255,1}"}
	addrOf := func(kind int, k ed25519.PrivateKey) iotago.Address {
		switch kind {
		case 0:
			return edOf(k)
		case 1:
			return implicitOf(k)
		}
		return restricted(k, kind-2)
	}
	dims := []core.Dim{}
	for i := 0; i < keys; i++ {
		dims = append(dims, core.DL(fmt.Sprintf("key %d as", i), names...))
	}
	dims = append(dims, core.D("asked for key", keys+1), core.DL("asked as", kinds...), core.D("order", 2))
	x.Product("signers", dims, func(v []int, c *core.C) {
		var ks []iotago.AddressKeys
		var privs []ed25519.PrivateKey
		held := map[string]bool{}
		pure := true
		for i := 0; i < keys; i++ {
			k := gen.Key(i)
			h := holdings[v[i]]
			for _, a := range h.addr(k) {
				held[fmt.Sprintf("%x", ref.Enc(a))] = true
			}
			if v[i] == 4 {
				privs = append(privs, k)
				ks = append(ks, holdings[1].keys(k)...)
				ks = append(ks, holdings[2].keys(k)...)
			} else {
				pure = pure && v[i] == 0
				ks = append(ks, h.keys(k)...)
			}
		}
		if v[keys+2] == 1 {
			for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
		signers := []iotago.AddressSigner{iotago.NewInMemoryAddressSigner(ks...)}
		if pure {
			signers = append(signers, iotago.NewInMemoryAddressSignerFromEd25519PrivateKeys(privs...))
		}
		key := gen.Key(v[keys])
		addr := addrOf(v[keys+1], key)
		want := held[fmt.Sprintf("%x", ref.Enc(addr))]
		if v[keys+1] >= 2 {
			want = want || held[fmt.Sprintf("%x", ref.Enc(edOf(key)))]
		}
		c.Outcomef("holds %v", want)
		for _, s := range signers {
			uid, uerr := s.SignerUIDForAddress(addr)
			c.Check((uerr == nil) == want, "signer UID", "address %s: error %v, holds its key: %v", kinds[v[keys+1]], uerr, want)
			if uerr == nil {
				c.Check(bytes.Equal(uid[:], ref.Blake(pubOf(key))), "signer UID value", "%x", uid)
			}
			es, err := s.EmptySignatureForAddress(addr)
			e2, ok := es.(*iotago.Ed25519Signature)
			c.Check(err == nil && ok && *e2 == iotago.Ed25519Signature{}, "empty signature", "%v %v", es, err)
			for _, m := range msgs {
				before := append([]byte{}, m...)
				sig, err := s.Sign(addr, m)
				c.Step(1)
				c.Validated()
				if !c.Check((err == nil) == want, "signs", "address %s: error %v, holds its key: %v", kinds[v[keys+1]], err, want) {
					continue
				}
				c.Check(bytes.Equal(before, m), "message changed", "%x", m)
				if err != nil {
					c.Check(sig == nil && errors.Is(err, iotago.ErrAddressKeysNotMapped), "refusal", "%v %v", sig, err)
					continue
				}
				es, ok := sig.(*iotago.Ed25519Signature)
				if !c.Check(ok && bytes.Equal(es.PublicKey[:], pubOf(key)) && bytes.Equal(es.Signature[:], ed25519.Sign(key, m)), "signature", "%v", sig) {
					continue
				}
				c.Check(bytes.Equal(uid[:], uidOf(es)), "UID of the signature", "%x", uid)
			}
		}
	})
}

func uidOf(s *iotago.Ed25519Signature) []byte { u := s.SignerUID(); return u[:] }

func ramp(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + 3)
	}
	return b
}

func p34accounts(x *core.Ctx) {
	// addresses that are not backed by a key
	var ks []ed25519.PrivateKey
	for i := 0; i < 3; i++ {
		ks = append(ks, gen.Key(i))
	}
	s := iotago.NewInMemoryAddressSignerFromEd25519PrivateKeys(ks...)
	same := func(b []byte) (a [32]byte) { copy(a[:], b); return }
	h := same(ref.Blake(gen.Pub(0)))
	foreign := []struct {
		name string
		a    iotago.Address
	}{{"account", iotago.AccountID(h).ToAddress()}, {"nft", iotago.NFTID(h).ToAddress()}, {"anchor", iotago.AnchorID(h).ToAddress()}, {"multi", gen.Multi(1, gen.Ed(0), gen.Ed(1))},
		{"restricted account", gen.Restricted(iotago.AccountID(h).ToAddress(), 1)}, {"restricted multi", gen.Restricted(gen.Multi(1, gen.Ed(0), gen.Ed(1)), 1)}, {"restricted nft", gen.Restricted(iotago.NFTID(h).ToAddress())}}
	var fn []string
	for _, f := range foreign {
		fn = append(fn, f.name)
	}
	x.Product("addresses without a key", []core.Dim{core.DL("address", fn...)}, func(v []int, c *core.C) {
		a := foreign[v[0]].a
		for i, f := range []func() error{
			func() error { _, err := s.Sign(a, []byte("m")); return err },
			func() error { _, err := s.SignerUIDForAddress(a); return err },
			func() error { _, err := s.EmptySignatureForAddress(a); return err },
		} {
			var err error
			p := core.Panics(func() { err = f() })
			c.Check(err != nil || p != "", "signs for a foreign address", "call %d succeeds for the address of a %s", i, foreign[v[0]].name)
			c.Step(1)
			c.Validated()
		}
	})
	// what a signature is valid for
	msgs := [][]byte{{}, {0}, []byte("message"), ramp(32)}
	kinds := []string{"ed25519", "implicit", "account", "nft", "restricted", "multi"}
	x.Product("signatures against addresses and messages", []core.Dim{core.D("key", 4), core.D("message", len(msgs)), core.D("address of key", 4), core.DL("kind", kinds...), core.D("judged for message", len(msgs))}, func(v []int, c *core.C) {
		ki := gen.Key(v[0])
		sig, err := iotago.NewInMemoryAddressSignerFromEd25519PrivateKeys(ki).Sign(edOf(ki), msgs[v[1]])
		if !c.Check(err == nil, "signs", "%v", err) {
			return
		}
		kj := gen.Key(v[2])
		hj := same(ref.Blake(pubOf(kj)))
		var a iotago.Address
		switch v[3] {
		case 0:
			a = edOf(kj)
		case 1:
			a = implicitOf(kj)
		case 2:
			a = iotago.AccountID(hj).ToAddress()
		case 3:
			a = iotago.NFTID(hj).ToAddress()
		case 4:
			a = gen.Restricted(edOf(kj), 1)
		case 5:
			a = gen.Multi(1, gen.Ed(v[2]), gen.Ed(7))
		}
		es := sig.(*iotago.Ed25519Signature)
		own := v[0] == v[2]
		c.Check(es.MatchesAddress(a) == (own && v[3] < 2), "matches address", "signature of key %d, %s address of key %d: %v", v[0], kinds[v[3]], v[2], es.MatchesAddress(a))
		valid := own && v[1] == v[4]
		if v[3] == 0 {
			c.Check((es.Valid(msgs[v[4]], edOf(kj)) == nil) == valid, "valid", "signature of key %d over message %d judged for key %d and message %d", v[0], v[1], v[2], v[4])
		}
		if d, ok := a.(iotago.DirectUnlockableAddress); ok {
			c.Check((d.Unlock(msgs[v[4]], sig) == nil) == (valid && v[3] < 2), "unlocks", "signature of key %d over message %d unlocks the %s address of key %d for message %d", v[0], v[1], kinds[v[3]], v[2], v[4])
		}
		c.Outcomef("valid %v", valid)
		c.Step(1)
		c.Validated()
	})
	x.Product("every bit of signature, key, message and address", []core.Dim{core.D("key", 4), core.DL("part", "public key", "signature", "message", "address"), core.D("bit", 64*8)}, func(v []int, c *core.C) {
		k := gen.Key(v[0])
		msg := ramp(32)
		sig, err := iotago.NewInMemoryAddressSignerFromEd25519PrivateKeys(k).Sign(edOf(k), msg)
		if !c.Check(err == nil, "signs", "%v", err) {
			return
		}
		es := sig.(*iotago.Ed25519Signature)
		a := edOf(k)
		by, bit := v[2]/8, byte(1)<<(v[2]%8)
		if v[1] != 1 && by >= 32 {
			c.Skip()
			return
		}
		switch v[1] {
		case 0:
			es.PublicKey[by] ^= bit
		case 1:
			es.Signature[by] ^= bit
		case 2:
			msg[by] ^= bit
		case 3:
			a[by] ^= bit
		}
		c.Check(es.Valid(msg, a) != nil && a.Unlock(msg, es) != nil, "altered signature valid", "with one bit of part %d changed the signature is still valid", v[1])
		c.Check(es.MatchesAddress(a) == (v[1] == 1 || v[1] == 2), "altered match", "matches: %v", es.MatchesAddress(a))
		c.Step(1)
		c.Validated()
	})
	// accounts
	ids := []iotago.AccountID{{}, gen.AccID(1), gen.AccID(255), iotago.AccountID(h)}
	x.Product("accounts", []core.Dim{core.D("id", len(ids)), core.D("key", 8)}, func(v []int, c *core.C) {
		id, k := ids[v[0]], gen.Key(v[1])
		judge := func(a wallet.Account) {
			c.Check(a.ID() == id, "account ID", "%v", a.ID())
			c.Check(a.Address() != nil && *a.Address() == iotago.AccountAddress(id), "account address", "%v", a.Address())
			o, ok := a.OwnerAddress().(*iotago.Ed25519Address)
			c.Check(ok && *o == *edOf(k), "owner address", "%v", a.OwnerAddress())
			c.Check(bytes.Equal(a.PrivateKey(), k), "account key", "%x", a.PrivateKey())
			c.Step(1)
			c.Validated()
		}
		judge(wallet.NewEd25519Account(id, k))
		hexID, hexKey := "0x"+hex.EncodeToString(id[:]), hex.EncodeToString(k)
		a, err := wallet.AccountFromParams(hexID, hexKey)
		if c.Check(err == nil, "account refused", "%v", err) {
			judge(a)
		}
		for n := 0; n <= len(hexID); n++ {
			for _, t := range []string{hexID[:n], hexID[:n] + "0" + hexID[n:], hexID[:n] + "g" + hexID[min(n+1, len(hexID)):]} {
				if t == hexID {
					continue
				}
				_, err := wallet.AccountFromParams(t, hexKey)
				c.Check(err != nil, "malformed account", "account %q is accepted", t)
				c.Step(1)
			}
		}
		for n := 0; n <= len(hexKey); n++ {
			for _, t := range []string{hexKey[:n], hexKey[:n] + "0" + hexKey[n:], hexKey[:n] + "g" + hexKey[min(n+1, len(hexKey)):]} {
				if t == hexKey {
					continue
				}
				_, err := wallet.AccountFromParams(hexID, t)
				c.Check(err != nil, "malformed key", "key %q is accepted", t)
				c.Step(1)
			}
		}
	})
	// the indices of a manager's signer: exactly those
	il := lists(4, core.Pick(x, 3, 4))
	x.Product("signers of a manager", []core.Dim{core.DL("indices", listNames(il)...), core.D("asked for", 6), core.DL("as", "ed25519", "implicit", "restricted")}, func(v []int, c *core.C) {
		seed := ramp(32)
		km, err := wallet.NewKeyManager(seed, "m/44'/4218'/0'/0'/2'")
		if !c.Check(err == nil, "manager refused", "%v", err) {
			return
		}
		var index []uint32
		want := len(il[v[0]]) == 0 && v[1] == 2
		for _, i := range il[v[0]] {
			index = append(index, uint32(i))
			want = want || i == v[1]
		}
		k := slip10(seed, []uint32{44, 4218, 0, 0, uint32(v[1])})
		var a iotago.Address = edOf(k)
		if v[2] == 1 {
			a = implicitOf(k)
		} else if v[2] == 2 {
			a = gen.Restricted(a, 3)
		}
		sig, err := km.AddressSigner(index...).Sign(a, []byte("m"))
		c.Check((err == nil) == want, "manager's signer", "indices %v, asked for %d: %v", index, v[1], err)
		if err == nil {
			es := sig.(*iotago.Ed25519Signature)
			c.Check(bytes.Equal(es.PublicKey[:], pubOf(k)) && bytes.Equal(es.Signature[:], ed25519.Sign(k, []byte("m"))), "manager's signer", "signature %v", sig)
		}
		c.Outcomef("holds %v", want)
		c.Step(1)
		c.Validated()
	})
}
