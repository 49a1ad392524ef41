package checks

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

// target is a variable an object can be decoded into.
type target struct {
	name string
	make func() (ptr any, get func() any)
}

// Obj is a valid protocol object of the catalog.
type Obj struct {
	Kind, Name string
	New        func() any // a fresh copy each time
	Raw        func() []byte
	Targets    []target
	Valid      bool // passes encoding/decoding with validation on its own
	small      bool // member of the small catalog (byte mutation, interference)
}

func into[T any]() target {
	return target{fmt.Sprintf("%T", *new(T)), func() (any, func() any) { v := new(T); return v, func() any { return any(*v) } }}
}

func intoP[T any]() target {
	return target{fmt.Sprintf("*%T", *new(T)), func() (any, func() any) { v := new(T); return v, func() any { return any(v) } }}
}

func iface[I any](name string) target {
	return target{"interface " + name, func() (any, func() any) { v := new(I); return v, func() any { return any(*v) } }}
}

var (
	tAddr    = iface[iotago.Address]("Address")
	tOutput  = iface[iotago.TxEssenceOutput]("TxEssenceOutput")
	tUnlock  = iface[iotago.Unlock]("Unlock")
	tSig     = iface[iotago.Signature]("Signature")
	tPayload = iface[iotago.ApplicationPayload]("ApplicationPayload")
	tBody    = iface[iotago.BlockBody]("BlockBody")
	tScheme  = iface[iotago.TokenScheme]("TokenScheme")
	tKey     = iface[iotago.BlockIssuerKey]("BlockIssuerKey")
	tParams  = iface[iotago.ProtocolParameters]("ProtocolParameters")
)

// catalog lists valid objects of every wire type. full adds the larger combinations.
func catalog(e *gen.Env) (out []Obj) {
	add := func(kind, name string, small bool, f func() any, ts ...target) {
		out = append(out, Obj{Kind: kind, Name: name, New: f, Raw: func() []byte { return ref.Enc(f()) }, Targets: ts, Valid: true, small: small})
	}
	// addresses
	type namedAddr struct {
		name string
		f    func() iotago.Address
		t    target
	}
	var addrs []namedAddr
	for _, b := range []byte{0x00, 0x01, 0x7f, 0xff} {
		addrs = append(addrs,
			namedAddr{fmt.Sprintf("ed25519 %02x", b), func() iotago.Address { a := iotago.Ed25519Address(gen.Fill32(b)); return &a }, intoP[iotago.Ed25519Address]()},
			namedAddr{fmt.Sprintf("account %02x", b), func() iotago.Address { return gen.AccAddr(b) }, intoP[iotago.AccountAddress]()},
			namedAddr{fmt.Sprintf("nft %02x", b), func() iotago.Address { return gen.NFTAddr(b) }, intoP[iotago.NFTAddress]()},
			namedAddr{fmt.Sprintf("anchor %02x", b), func() iotago.Address { return gen.AncAddr(b) }, intoP[iotago.AnchorAddress]()},
			namedAddr{fmt.Sprintf("implicit %02x", b), func() iotago.Address {
				a := iotago.ImplicitAccountCreationAddress(gen.Fill32(b))
				return &a
			}, intoP[iotago.ImplicitAccountCreationAddress]()})
	}
	kindAt := func(i int, b byte) iotago.Address {
		switch i % 4 {
		case 0:
			a := iotago.Ed25519Address(gen.Fill32(b))
			return &a
		case 1:
			return gen.AccAddr(b)
		case 2:
			return gen.NFTAddr(b)
		}
		return gen.AncAddr(b)
	}
	mkMulti := func(n, mix, wi, th int) *iotago.MultiAddress {
		m := &iotago.MultiAddress{}
		sum := 0
		for i := 0; i < n; i++ {
			var a iotago.Address
			if mix == 0 {
				a = kindAt(0, byte(i+1))
			} else {
				a = kindAt(i, byte(100-i))
			}
			w := []byte{1, 255, byte(i*25 + 1)}[wi]
			sum += int(w)
			m.Addresses = append(m.Addresses, &iotago.AddressWithWeight{Address: a, Weight: w})
		}
		m.Threshold = uint16([]int{1, sum, (sum + 1) / 2}[th])
		gen.SortMulti(m)
		return m
	}
	for n := 2; n <= 10; n++ {
		for mix := 0; mix < 2; mix++ {
			for wi := 0; wi < 3; wi++ {
				for th := 0; th < 3; th++ {
					addrs = append(addrs, namedAddr{fmt.Sprintf("multi n%d mix%d w%d t%d", n, mix, wi, th), func() iotago.Address { return mkMulti(n, mix, wi, th) }, intoP[iotago.MultiAddress]()})
				}
			}
		}
	}
	for ci, cp := range [][]byte{nil, {1}, {0x80}, {0xff}, {0, 1}, {0xff, 1}, {0xff, 0xff}} {
		for k := 0; k < 5; k++ {
			addrs = append(addrs, namedAddr{fmt.Sprintf("restricted caps%d under%d", ci, k), func() iotago.Address {
				var a iotago.Address
				if k == 4 {
					a = mkMulti(3, 1, 2, 2)
				} else {
					a = kindAt(k, 0x33)
				}
				return &iotago.RestrictedAddress{Address: a, AllowedCapabilities: append([]byte{}, cp...)}
			}, intoP[iotago.RestrictedAddress]()})
		}
	}
	for _, a := range addrs {
		small := strings.HasSuffix(a.name, " 01") || a.name == "multi n2 mix1 w2 t2" || a.name == "multi n3 mix0 w1 t1" || strings.HasPrefix(a.name, "restricted caps5") || a.name == "restricted caps0 under0"
		add("address", a.name, small, func() any { return a.f() }, tAddr, a.t)
	}
	// the addresses used inside other objects
	pick := map[string]bool{"ed25519 01": true, "account 7f": true, "nft ff": true, "anchor 00": true, "implicit 01": true, "multi n2 mix1 w2 t2": true, "multi n10 mix1 w1 t1": true, "restricted caps0 under0": true, "restricted caps5 under4": true}
	var inner []namedAddr
	for _, a := range addrs {
		if pick[a.name] {
			inner = append(inner, a)
		}
	}
	strict := func(a namedAddr) bool { return !strings.HasPrefix(a.name, "implicit") }
	u64s := []uint64{0, 1, 1 << 53, 1<<53 + 1, 1 << 63, math.MaxUint64}
	u32s := []uint32{0, 1, 1 << 31, math.MaxUint32}
	// unlock conditions
	for i, a := range inner {
		add("unlock condition", "address "+a.name, i < 2, func() any { return &iotago.AddressUnlockCondition{Address: a.f()} }, intoP[iotago.AddressUnlockCondition]())
		if !strict(a) {
			continue
		}
		add("unlock condition", "state controller "+a.name, i < 1, func() any { return &iotago.StateControllerAddressUnlockCondition{Address: a.f()} }, intoP[iotago.StateControllerAddressUnlockCondition]())
		add("unlock condition", "governor "+a.name, i < 1, func() any { return &iotago.GovernorAddressUnlockCondition{Address: a.f()} }, intoP[iotago.GovernorAddressUnlockCondition]())
		for _, u := range u64s {
			add("unlock condition", fmt.Sprintf("storage return %s %d", a.name, u), i < 1 && u == 1, func() any { return ucSDR(a.f(), u) }, intoP[iotago.StorageDepositReturnUnlockCondition]())
		}
		for _, u := range u32s {
			add("unlock condition", fmt.Sprintf("expiration %s %d", a.name, u), i < 1 && u == 1, func() any { return ucExp(a.f(), u) }, intoP[iotago.ExpirationUnlockCondition]())
		}
	}
	for _, u := range u32s {
		add("unlock condition", fmt.Sprintf("timelock %d", u), u == 1, func() any { return ucTL(u) }, intoP[iotago.TimelockUnlockCondition]())
	}
	add("unlock condition", "immutable account", true, func() any { return &iotago.ImmutableAccountUnlockCondition{Address: gen.AccAddr(5)} }, intoP[iotago.ImmutableAccountUnlockCondition]())
	// features
	for i, a := range inner {
		add("feature", "sender "+a.name, i < 1, func() any { return fSender(a.f()) }, intoP[iotago.SenderFeature]())
		add("feature", "issuer "+a.name, i < 1, func() any { return fIssuer(a.f()) }, intoP[iotago.IssuerFeature]())
	}
	metas := []map[string]string{{"k": "v"}, {"k": ""}, {"": "x"}, {"a": "1", "b": "2", "aa": "3", "B": "4", "~": strings.Repeat("z", 300)}, {strings.Repeat("k", 255): "x"}, {"k": strings.Repeat("y", 8000)}}
	for i, m := range metas {
		add("feature", fmt.Sprintf("metadata %d", i), i == 0 || i == 3, func() any {
			f := &iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{}}
			for k, v := range m {
				f.Entries[iotago.MetadataFeatureEntriesKey(k)] = []byte(v)
			}
			return f
		}, intoP[iotago.MetadataFeature]())
		add("feature", fmt.Sprintf("state metadata %d", i), i == 0, func() any {
			f := &iotago.StateMetadataFeature{Entries: iotago.StateMetadataFeatureEntries{}}
			for k, v := range m {
				f.Entries[iotago.StateMetadataFeatureEntriesKey(k)] = []byte(v)
			}
			return f
		}, intoP[iotago.StateMetadataFeature]())
	}
	for _, n := range []int{1, 2, 63, 64} {
		add("feature", fmt.Sprintf("tag %d", n), n < 3, func() any { return &iotago.TagFeature{Tag: ref.Fill(0xf0, n)} }, intoP[iotago.TagFeature]())
	}
	bigs := []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).Lsh(big.NewInt(1), 255), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)), big.NewInt(0x0102030405)}
	for i, b := range bigs {
		add("feature", fmt.Sprintf("native token %x", b), i == 5, func() any { return fNTb(foundryID(gen.AccID(9), 7), new(big.Int).Set(b)) }, intoP[iotago.NativeTokenFeature]())
	}
	keys := func(n int) (l []int) {
		for i := 0; i < n; i++ {
			l = append(l, i)
		}
		return
	}
	for _, n := range []int{1, 2, 3, 128} {
		for _, u := range u32s {
			add("feature", fmt.Sprintf("block issuer keys%d expiry%d", n, u), n == 2 && u == 1, func() any { return fBI(u, keys(n)...) }, intoP[iotago.BlockIssuerFeature]())
		}
		add("block issuer keys", fmt.Sprint(n), n == 2, func() any { return fBI(0, keys(n)...).(*iotago.BlockIssuerFeature).BlockIssuerKeys }, into[iotago.BlockIssuerKeys]())
	}
	for _, a := range u64s {
		for _, b := range u32s {
			add("feature", fmt.Sprintf("staking %d %d", a, b), a == 1 && b == 1, func() any { return fStake(a, ^a, b, ^b) }, intoP[iotago.StakingFeature]())
		}
	}
	add("block issuer key", "public key hash", true, func() any { return gen.BIKey(3) }, tKey, intoP[iotago.Ed25519PublicKeyHashBlockIssuerKey]())
	for i, m := range bigs {
		for j, n := range bigs {
			add("token scheme", fmt.Sprintf("%d %d", i, j), i == 1 && j == 2, func() any {
				return &iotago.SimpleTokenScheme{MintedTokens: new(big.Int).Set(m), MeltedTokens: new(big.Int).Set(n), MaximumSupply: new(big.Int).Set(bigs[(i+j)%len(bigs)])}
			}, tScheme, intoP[iotago.SimpleTokenScheme]())
		}
	}
	// outputs
	outs := func(kind string, opt []func() any, mk func(parts []any, hi bool) iotago.Output, t target) {
		for m := 0; m < 1<<len(opt); m++ {
			for _, hi := range []bool{false, true} {
				add("output", fmt.Sprintf("%s %0*b hi=%v", kind, len(opt), m, hi), m == 0 && hi || m == 1<<len(opt)-1 && !hi || m == 5, func() any {
					var parts []any
					for i, f := range opt {
						if m>>i&1 == 1 {
							parts = append(parts, f())
						}
					}
					return mk(parts, hi)
				}, tOutput, t)
			}
		}
	}
	amt := func(hi bool) uint64 {
		if hi {
			return math.MaxUint64
		}
		return 1000
	}
	w32 := func(hi bool) uint32 {
		if hi {
			return math.MaxUint32
		}
		return 3
	}
	m5 := func() iotago.Address { return mkMulti(3, 1, 2, 2) }
	ra := func() iotago.Address { return gen.Restricted(gen.Ed(1), 0xff, 1) }
	sdr, tl, exp := func() any { return ucSDR(m5(), 77) }, func() any { return ucTL(9) }, func() any { return ucExp(gen.NFTAddr(3), 10) }
	snd, iss := func() any { return fSender(gen.AccAddr(8)) }, func() any { return imm{fIssuer(gen.AncAddr(4))} }
	meta, imeta, smeta, tag := func() any { return fMeta("vv") }, func() any { return imm{fMeta("")} }, func() any { return fState("s") }, func() any { return fTag("t") }
	nt := func() any { return fNT(foundryID(gen.AccID(9), 3), 5) }
	outs("basic", []func() any{sdr, tl, exp, snd, meta, tag, nt}, func(p []any, hi bool) iotago.Output {
		a := iotago.Address(gen.Ed(0))
		if hi {
			a = ra()
		}
		return basic(a, amt(hi), ^amt(hi), p...)
	}, intoP[iotago.BasicOutput]())
	outs("account", []func() any{snd, meta, func() any { return fBI(5, 0, 1) }, func() any { return fStake(5, 6, 7, 8) }, iss, imeta}, func(p []any, hi bool) iotago.Output {
		return account(gen.AccID(byte(w32(hi))), m5(), amt(hi), ^amt(hi), w32(hi), p...)
	}, intoP[iotago.AccountOutput]())
	outs("anchor", []func() any{meta, smeta, iss, imeta}, func(p []any, hi bool) iotago.Output {
		return anchor(gen.AncID(byte(w32(hi))), m5(), ra(), amt(hi), ^amt(hi), w32(hi), p...)
	}, intoP[iotago.AnchorOutput]())
	outs("nft", []func() any{sdr, tl, exp, snd, meta, tag, iss, imeta}, func(p []any, hi bool) iotago.Output {
		return nft(gen.NFTID(byte(w32(hi))), gen.AncAddr(1), amt(hi), ^amt(hi), p...)
	}, intoP[iotago.NFTOutput]())
	outs("foundry", []func() any{meta, func() any { return fNT(foundryID(gen.AccID(9), 3), 5) }, imeta}, func(p []any, hi bool) iotago.Output {
		if hi {
			return foundryB(gen.AccID(9), amt(hi), 3, bigs[4], bigs[3], bigs[4], p...)
		}
		return foundry(gen.AccID(9), amt(hi), 3, 9, 2, 100, p...)
	}, intoP[iotago.FoundryOutput]())
	outs("delegation", nil, func(p []any, hi bool) iotago.Output {
		return delegation(gen.DelID(byte(w32(hi))), ra(), amt(hi), ^amt(hi), gen.AccAddr(6), w32(hi), ^w32(hi))
	}, intoP[iotago.DelegationOutput]())
	// inputs, context inputs, allotments
	for _, b := range []byte{0, 1, 0xff} {
		for _, i := range []uint16{0, 1, 127, 128, 256, 65535} {
			add("input", fmt.Sprintf("utxo %02x %d", b, i), b == 1 && i == 1, func() any {
				return &iotago.UTXOInput{TransactionID: gen.TxIDAt(b, uint32(b)<<24), TransactionOutputIndex: i}
			}, intoP[iotago.UTXOInput]())
			add("context input", fmt.Sprintf("reward %02x %d", b, i), b == 1 && i == 1, func() any { return &iotago.RewardInput{Index: i} }, intoP[iotago.RewardInput]())
		}
		add("context input", fmt.Sprintf("bic %02x", b), b == 1, func() any { return &iotago.BlockIssuanceCreditInput{AccountID: gen.AccID(b)} }, intoP[iotago.BlockIssuanceCreditInput]())
		add("context input", fmt.Sprintf("commitment %02x", b), b == 1, func() any { return &iotago.CommitmentInput{CommitmentID: commitID(b, uint32(b)<<24|1)} }, intoP[iotago.CommitmentInput]())
		for _, u := range u64s {
			add("allotment", fmt.Sprintf("%02x %d", b, u), b == 1 && u == 1, func() any { return &iotago.Allotment{AccountID: gen.AccID(b), Mana: iotago.Mana(u)} }, intoP[iotago.Allotment]())
		}
	}
	// signatures and unlocks
	for k := 0; k < 3; k++ {
		add("signature", fmt.Sprint(k), k == 1, func() any { return gen.Sign(k, []byte("m")) }, tSig, intoP[iotago.Ed25519Signature]())
		add("unlock", fmt.Sprint("signature ", k), k == 1, func() any { return &iotago.SignatureUnlock{Signature: gen.Sign(k, []byte("m"))} }, tUnlock, intoP[iotago.SignatureUnlock]())
	}
	for _, i := range []uint16{0, 1, 127, 256, 65535} {
		add("unlock", fmt.Sprint("reference ", i), i == 1, func() any { return &iotago.ReferenceUnlock{Reference: i} }, tUnlock, intoP[iotago.ReferenceUnlock]())
		add("unlock", fmt.Sprint("account ", i), i == 1, func() any { return &iotago.AccountUnlock{Reference: i} }, tUnlock, intoP[iotago.AccountUnlock]())
		add("unlock", fmt.Sprint("anchor ", i), i == 1, func() any { return &iotago.AnchorUnlock{Reference: i} }, tUnlock, intoP[iotago.AnchorUnlock]())
		add("unlock", fmt.Sprint("nft ", i), i == 1, func() any { return &iotago.NFTUnlock{Reference: i} }, tUnlock, intoP[iotago.NFTUnlock]())
	}
	add("unlock", "empty", true, func() any { return &iotago.EmptyUnlock{} }, tUnlock, intoP[iotago.EmptyUnlock]())
	for n := 2; n <= 10; n++ {
		add("unlock", fmt.Sprint("multi ", n), n == 3, func() any {
			u := &iotago.MultiUnlock{}
			for i := 0; i < n; i++ {
				u.Unlocks = append(u.Unlocks, []iotago.Unlock{&iotago.EmptyUnlock{}, &iotago.ReferenceUnlock{Reference: 3}, &iotago.SignatureUnlock{Signature: gen.Sign(i, []byte("q"))}, &iotago.NFTUnlock{Reference: 1}}[i%4])
			}
			return u
		}, tUnlock, intoP[iotago.MultiUnlock]())
	}
	// payloads
	for _, tg := range []int{0, 1, 64} {
		for _, dl := range []int{0, 1, 200, 8192} {
			add("payload", fmt.Sprintf("tagged data tag%d data%d", tg, dl), tg < 2 && dl < 2, func() any { return &iotago.TaggedData{Tag: ref.Fill(7, tg), Data: ref.Fill(0xee, dl)} }, tPayload, intoP[iotago.TaggedData]())
		}
	}
	add("payload", "candidacy", true, func() any { return &iotago.CandidacyAnnouncement{} }, tPayload, intoP[iotago.CandidacyAnnouncement]())
	// transactions
	type txShape struct{ ctx, ins, outs, allots, caps, payload int }
	var shapes []txShape
	for ctx := 0; ctx < 5; ctx++ {
		for _, ins := range []int{1, 2, 128} {
			for outs := 1; outs <= 3; outs++ {
				for al := 0; al < 3; al++ {
					for cp := 0; cp < 3; cp++ {
						for pl := 0; pl < 3; pl++ {
							if ins == 128 && (outs > 1 || pl > 1) {
								continue
							}
							shapes = append(shapes, txShape{ctx, ins, outs, al, cp, pl})
						}
					}
				}
			}
		}
	}
	mkTx := func(s txShape) *iotago.Transaction {
		cs := &Case{E: e, Slot: 20, Commit: -1, NoAuto: true}
		for i := 0; i < s.ins; i++ {
			cs.AddAt(basic(gen.Ed(0), 2000, 0), uint32(i%3+1))
		}
		cs.Caps = [][]byte{nil, {1}, {0xff & 0x1f}}[s.caps]
		switch s.payload {
		case 1:
			cs.Payload = &iotago.TaggedData{}
		case 2:
			cs.Payload = &iotago.TaggedData{Tag: []byte("tag"), Data: ref.Fill(3, 40)}
		}
		com := &iotago.CommitmentInput{CommitmentID: commitID(0xc0, 18)}
		bic := func(b byte) *iotago.BlockIssuanceCreditInput {
			return &iotago.BlockIssuanceCreditInput{AccountID: gen.AccID(b)}
		}
		switch s.ctx {
		case 1:
			cs.Ctx = iotago.TxEssenceContextInputs{com}
		case 2:
			cs.Ctx = iotago.TxEssenceContextInputs{com, bic(1), bic(2)}
		case 3:
			cs.Ctx = iotago.TxEssenceContextInputs{com, &iotago.RewardInput{Index: 0}}
		case 4:
			cs.Ctx = iotago.TxEssenceContextInputs{com, bic(3), &iotago.RewardInput{Index: 0}}
		}
		for i := 0; i < s.allots; i++ {
			cs.Allot = append(cs.Allot, &iotago.Allotment{AccountID: gen.AccID(byte(i + 1)), Mana: iotago.Mana([]uint64{0, 1 << 60}[i])})
		}
		for i := 0; i < s.outs; i++ {
			var bi any = fBI(40, 1)
			if s.ctx == 0 {
				bi = nil // needs a commitment
			}
			cs.Outs = append(cs.Outs, []iotago.Output{basic(gen.Ed(0), 2000, 1<<54), nft(iotago.NFTID{}, ra(), 9000, 1, fMeta("x")), account(gen.AccID(0), gen.Ed(1), 9000, 0, 0, bi)}[i])
		}
		return cs.Tx()
	}
	mkSigned := func(s txShape) *iotago.SignedTransaction {
		stx := &iotago.SignedTransaction{API: e.API, Transaction: mkTx(s)}
		for i := 0; i < s.ins; i++ {
			if i == 0 {
				stx.Unlocks = append(stx.Unlocks, &iotago.SignatureUnlock{Signature: gen.Sign(0, []byte("tx"))})
			} else {
				stx.Unlocks = append(stx.Unlocks, &iotago.ReferenceUnlock{})
			}
		}
		return stx
	}
	for _, s := range shapes {
		small := s == txShape{0, 1, 1, 0, 0, 0} || s == txShape{4, 2, 1, 2, 2, 1} || s == txShape{1, 1, 2, 1, 1, 2}
		n := fmt.Sprintf("%v", s)
		add("transaction", n, small, func() any { return mkTx(s) }, intoP[iotago.Transaction]())
		add("signed transaction", n, small, func() any { return mkSigned(s) }, tPayload, intoP[iotago.SignedTransaction]())
	}
	// blocks, bodies, attestations
	lens := func(validation bool) []int {
		if validation {
			return []int{0, 1, 2, 50}
		}
		return []int{0, 1, 2, 8}
	}
	mkBlock := func(validation bool, s, w, l, pl int) *iotago.Block {
		b := baseBlock(e, 21, validation)
		ids := func(n int, b byte) (l iotago.BlockIDs) {
			for i := 0; i < n; i++ {
				l = append(l, blockID(b, uint32(i+1)))
			}
			return
		}
		setParents(b, ids(s, 1), ids(w, 2), ids(l, 3))
		if bb, ok := b.Body.(*iotago.BasicBlockBody); ok {
			bb.MaxBurnedMana = math.MaxUint64
			switch pl {
			case 1:
				bb.Payload = &iotago.TaggedData{Tag: []byte("hello"), Data: []byte("world")}
			case 2:
				bb.Payload = &iotago.CandidacyAnnouncement{}
			case 3:
				bb.Payload = mkSigned(txShape{4, 2, 1, 2, 2, 1})
			case 4:
				bb.Payload = &iotago.TaggedData{}
			}
		} else {
			b.Body.(*iotago.ValidationBlockBody).ProtocolParametersHash = iotago.Identifier(gen.Fill32(0x99))
		}
		return b
	}
	for _, val := range []bool{false, true} {
		for _, s := range lens(val)[1:] {
			for _, w := range lens(val) {
				for _, l := range lens(val) {
					for pl := 0; pl < 5; pl++ {
						if val && pl > 0 {
							continue
						}
						small := s == 1 && w == 0 && l == 0 && pl != 3 || s == 2 && w == 1 && l == 1 && pl < 2 || s == 1 && w == 1 && l == 1 && pl == 3
						n := fmt.Sprintf("validation=%v parents %d %d %d payload %d", val, s, w, l, pl)
						add("block", n, small, func() any { return mkBlock(val, s, w, l, pl) }, intoP[iotago.Block]())
						if l == 0 {
							if val {
								add("block body", n, small, func() any { return mkBlock(val, s, w, l, pl).Body }, tBody, intoP[iotago.ValidationBlockBody]())
							} else {
								add("block body", n, small, func() any { return mkBlock(val, s, w, l, pl).Body }, tBody, intoP[iotago.BasicBlockBody]())
							}
						}
					}
				}
			}
		}
	}
	mkAtt := func(i int) *iotago.Attestation {
		b := mkBlock(i%2 == 1, 1, 0, 0, i%3)
		b.Header.IssuingTime = timeIn(e.P, 22+uint32(i), int64(i))
		return &iotago.Attestation{API: e.API, Header: b.Header, BodyHash: iotago.Identifier(gen.Fill32(byte(i))), Signature: gen.Sign(i%3, []byte("att"))}
	}
	for i := 0; i < 4; i++ {
		add("attestation", fmt.Sprint(i), i == 1, func() any { return mkAtt(i) }, intoP[iotago.Attestation]())
	}
	for _, n := range []int{0, 1, 2, 5} {
		add("attestations", fmt.Sprint(n), n == 2, func() any {
			l := iotago.Attestations{}
			for i := 0; i < n; i++ {
				l = append(l, mkAtt(i))
			}
			return l
		}, into[iotago.Attestations]())
	}
	times := []time.Time{time.Unix(0, 0).UTC(), time.Unix(0, 1).UTC(), time.Unix(1, 999999999).UTC(), time.Unix(0, 1<<53+1).UTC(), time.Unix(0, math.MaxInt64-1).UTC()}
	for i, t := range times {
		for _, u := range u32s {
			add("block header", fmt.Sprintf("time%d %d", i, u), i == 2 && u == 1, func() any {
				return &iotago.BlockHeader{ProtocolVersion: iotago.Version(u), NetworkID: iotago.NetworkID(u64s[i]), IssuingTime: t, SlotCommitmentID: commitID(byte(i), u), LatestFinalizedSlot: iotago.SlotIndex(^u), IssuerID: gen.AccID(byte(u))}
			}, intoP[iotago.BlockHeader]())
		}
	}
	// commitments, roots
	for _, a := range u64s {
		for _, b := range u32s {
			add("commitment", fmt.Sprintf("%d %d", a, b), a == 1 && b == 1, func() any {
				return &iotago.Commitment{ProtocolVersion: iotago.Version(b), Slot: iotago.SlotIndex(b), PreviousCommitmentID: commitID(byte(b), ^b), RootsID: iotago.Identifier(gen.Fill32(byte(a))), CumulativeWeight: a, ReferenceManaCost: iotago.Mana(^a)}
			}, intoP[iotago.Commitment]())
		}
	}
	add("roots", "distinct", true, func() any {
		id := func(b byte) iotago.Identifier { return iotago.Identifier(gen.Fill32(b)) }
		return &iotago.Roots{TangleRoot: id(1), StateMutationRoot: id(2), StateRoot: id(3), AccountRoot: id(4), AttestationsRoot: id(5), CommitteeRoot: id(6), RewardsRoot: id(7), ProtocolParametersHash: id(8)}
	}, intoP[iotago.Roots]())
	// identifier lists
	for _, n := range []int{0, 1, 2, 300} {
		add("block ids", fmt.Sprint(n), n == 2, func() any {
			l := iotago.BlockIDs{}
			for i := 0; i < n; i++ {
				l = append(l, blockID(byte(i>>8), uint32(i)<<24))
			}
			return l
		}, into[iotago.BlockIDs]())
		add("transaction ids", fmt.Sprint(n), n == 2, func() any {
			l := iotago.TransactionIDs{}
			for i := 0; i < n; i++ {
				l = append(l, gen.TxIDAt(byte(i>>8), uint32(i)<<24))
			}
			return l
		}, into[iotago.TransactionIDs]())
	}
	// output proofs
	for n := 1; n <= 5; n++ {
		for i := 0; i < n; i++ {
			mk := func() *iotago.Transaction {
				tx := mkTx(txShape{1, 1, 1, 0, 0, 0})
				tx.Outputs = nil
				for j := 0; j < n; j++ {
					tx.Outputs = append(tx.Outputs, basic(gen.Ed(j%3), uint64(1000+j), 0))
				}
				return tx
			}
			out = append(out, Obj{Kind: "output proof", Name: fmt.Sprintf("%d of %d", i, n), Valid: true, small: i == 1 && n == 3 || n == 1, Targets: []target{intoP[iotago.OutputIDProof]()},
				Raw: func() []byte { return ref.OutputIDProof(mk(), i) },
				New: func() any {
					p, err := iotago.OutputIDProofFromTransaction(mk(), uint16(i))
					if err != nil {
						panic(err)
					}
					return p
				}})
		}
	}
	// protocol parameters
	p1 := ref.Default()
	p2 := ref.Default()
	p2.Name, p2.HRP, p2.Version = strings.Repeat("n", 255), "r", 255
	p2.GenesisSlot, p2.GenesisUnix, p2.MinRMC, p2.RMCInc, p2.RMCDec = math.MaxUint32, 1<<61, math.MaxUint64, 1<<53+1, 1<<63
	p2.IncThr, p2.DecThr, p2.SchedRate, p2.MaxBuf, p2.MaxValBuf = 4000000000, 3999999999, 400000000, 4000000003, 4000000004
	p2.Unbonding, p2.Punish, p2.ValBlocks, p2.Signal, p2.Committee, p2.Switch = 5, 6, 7, [3]uint8{8, 9, 10}, 11, 12
	p2.Profit, p2.Pool, p2.Ratio, p2.Retention = 13, 14, 2, 60000
	p2.DecayFactors = []uint32{0, 1, math.MaxUint32}
	p2.DecaySum = 3
	for i, p := range []ref.Params{p1, p2} {
		add("protocol parameters", fmt.Sprint(i), true, func() any { q := p; return gen.ProtoParams(&q) }, tParams, intoP[iotago.V3ProtocolParameters]())
	}
	return out
}
