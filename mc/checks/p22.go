package checks

import (
	"bytes"
	"fmt"
	"time"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P22"] = p22 }

// blockID is a recognisable block identifier.
func blockID(b byte, slot uint32) (id iotago.BlockID) {
	copy(id[:], ref.Fill(b, 32))
	id[32], id[33], id[34], id[35] = byte(slot), byte(slot>>8), byte(slot>>16), byte(slot>>24)
	return
}

// timeIn is a moment in a slot: off nanoseconds after its start (slot > genesis).
func timeIn(p *ref.Params, slot uint32, off int64) time.Time {
	return time.Unix(p.GenesisUnix+int64(slot-p.GenesisSlot-1)*int64(p.SlotDur), off).UTC()
}

// baseBlock is a valid block of the given body kind in the slot.
func baseBlock(e *gen.Env, slot uint32, validation bool) *iotago.Block {
	com := uint32(e.P.GenesisSlot)
	if slot > e.P.GenesisSlot+e.P.MinCA {
		com = slot - e.P.MinCA
	}
	b := &iotago.Block{API: e.API, Header: iotago.BlockHeader{ProtocolVersion: iotago.Version(e.P.Version), NetworkID: iotago.NetworkID(e.P.NetworkID), IssuingTime: timeIn(e.P, slot, 1),
		SlotCommitmentID: commitID(0xc0, com), LatestFinalizedSlot: iotago.SlotIndex(com), IssuerID: gen.AccID(7)}}
	if validation {
		b.Body = &iotago.ValidationBlockBody{API: e.API, StrongParents: iotago.BlockIDs{blockID(1, slot-1)}, HighestSupportedVersion: iotago.Version(e.P.Version)}
	} else {
		b.Body = &iotago.BasicBlockBody{API: e.API, StrongParents: iotago.BlockIDs{blockID(1, slot-1)}, MaxBurnedMana: 5}
	}
	b.Signature = gen.Sign(0, []byte("block"))
	return b
}

func setParents(b *iotago.Block, s, w, l iotago.BlockIDs) {
	switch x := b.Body.(type) {
	case *iotago.BasicBlockBody:
		x.StrongParents, x.WeakParents, x.ShallowLikeParents = s, w, l
	case *iotago.ValidationBlockBody:
		x.StrongParents, x.WeakParents, x.ShallowLikeParents = s, w, l
	}
}

// judgeBlock compares the validity verdicts of both directions with the model's.
func judgeBlock(c *core.C, e *gen.Env, b *iotago.Block) string {
	want := e.P.SyntaxBlock(b)
	if pure {
		pureBlock(c, e, b)
		return want
	}
	if viaJSON {
		judgeJSON(c, e, b, want, func() any { return &iotago.Block{API: e.API} })
		return want
	}
	raw := ref.Enc(b)
	c.State(raw)
	c.Step(3)
	got, err := e.API.Encode(b, serix.WithValidation())
	c.Check((err == nil) == (want == ""), "encode:"+why(want), "encoding with validation: model says %q, implementation says %v", want, err)
	if err == nil {
		c.Check(bytes.Equal(got, raw), "bytes", "encoded bytes differ from the protocol layout:\n impl %x\n want %x", got, raw)
	}
	c.Check(bytes.Equal(ref.Enc(b), raw), "modified", "validation changed the block")
	dec := &iotago.Block{}
	n, err := e.API.Decode(raw, dec, serix.WithValidation())
	c.Check((err == nil) == (want == ""), "decode:"+why(want), "decoding with validation: model says %q, implementation says %v", want, err)
	if err == nil {
		c.Check(n == len(raw) && bytes.Equal(ref.Enc(dec), raw), "decoded", "decoded block differs (%d of %d bytes)", n, len(raw))
	}
	d2, n, err := iotago.BlockFromBytes(iotago.SingleVersionProvider(e.API))(raw)
	c.Check((err == nil) == (want == ""), "frombytes:"+why(want), "BlockFromBytes: model says %q, implementation says %v", want, err)
	if err == nil {
		c.Check(n == len(raw) && bytes.Equal(ref.Enc(d2), raw), "decoded", "BlockFromBytes returned another block (%d of %d bytes)", n, len(raw))
	}
	if want == "" {
		c.Outcome("valid")
	} else {
		c.Outcome(want)
	}
	return want
}

func p22(x *core.Ctx) {
	x.Assume("issuing times lie between 1970 and 2262 (the 64-bit nanosecond wire range that time.Time can represent)")
	e0 := gen.NewEnv(ref.Default())
	p7 := ref.Default()
	p7.GenesisSlot, p7.MinCA, p7.MaxCA, p7.SlotDur, p7.LiveUpper, p7.LiveLower = 7, 2, 4, 7, 13, 3
	e7 := gen.NewEnv(p7)
	envs := []*gen.Env{e0, e7}
	envDim := core.DL("parameters", "genesis slot 0", "genesis slot 7")
	kinds := core.DL("body", "basic", "validation")

	versions := []byte{0, 1, 2, 3, 4, 128, 255}
	x.Product("version and network", []core.Dim{envDim, kinds, core.DV("version", versions), core.DL("network", "right", "off by one", "zero", "byte-swapped", "other network"), core.DV("supported version", versions)}, func(v []int, c *core.C) {
		e := envs[v[0]]
		b := baseBlock(e, 20, v[1] == 1)
		b.Header.ProtocolVersion = iotago.Version(versions[v[2]])
		id := e.P.NetworkID
		var sw uint64
		for i := 0; i < 8; i++ {
			sw = sw<<8 | (id >> (8 * i) & 0xff)
		}
		b.Header.NetworkID = iotago.NetworkID([]uint64{id, id + 1, 0, sw, iotago.NetworkIDFromString("other")}[v[3]])
		if vb, ok := b.Body.(*iotago.ValidationBlockBody); ok {
			vb.HighestSupportedVersion = iotago.Version(versions[v[4]])
		} else if v[4] > 0 {
			c.Skip()
			return
		}
		judgeBlock(c, e, b)
	})

	// commitment window
	n := core.Pick(x, 30, 60)
	coms := make([]uint32, 0, n+12)
	for i := 0; i < n; i++ {
		coms = append(coms, uint32(i))
	}
	for i := 0; i < 12; i++ {
		coms = append(coms, uint32(0xffffffff)-uint32(i))
	}
	for _, k := range []uint32{1 << 31, 1<<31 - 1, 1 << 30} {
		coms = append(coms, k)
	}
	comL := core.DV("commitment slot", coms)
	offs := []string{"first ns", "second ns", "middle", "last ns"}
	offNS := func(p *ref.Params, k int) int64 {
		d := int64(p.SlotDur) * 1e9
		return []int64{0, 1, d / 2, d - 1}[k]
	}
	x.Product("commitment window", []core.Dim{envDim, kinds, core.DV("slots after genesis", seq(n)), core.DL("moment", offs...), comL}, func(v []int, c *core.C) {
		e := envs[v[0]]
		b := baseBlock(e, 20, v[1] == 1)
		if v[2] == 0 {
			// before and at genesis
			b.Header.IssuingTime = time.Unix(e.P.GenesisUnix, []int64{-1, -1e9, -1e15, 0}[v[3]]).UTC()
		} else {
			b.Header.IssuingTime = timeIn(e.P, e.P.GenesisSlot+uint32(v[2]), offNS(e.P, v[3]))
		}
		b.Header.SlotCommitmentID = commitID(0xc0, coms[v[4]])
		judgeBlock(c, e, b)
	})
	ext := []time.Time{time.Unix(0, 0), time.Unix(0, 1), time.Unix(1<<31-1, 999999999), time.Unix(1<<32, 0), time.Unix(9223372036, 854775807)}
	x.Product("extreme times", []core.Dim{envDim, kinds, core.DV("time", ext), core.DL("commitment", "genesis", "same slot", "one before", "two before", "four before", "five before", "last slot")}, func(v []int, c *core.C) {
		e := envs[v[0]]
		b := baseBlock(e, 20, v[1] == 1)
		b.Header.IssuingTime = ext[v[2]].UTC()
		s := b.Header.IssuingTime.Unix() - e.P.GenesisUnix
		slot := uint32(e.P.GenesisSlot)
		if s >= 0 {
			slot += uint32(s/int64(e.P.SlotDur)) + 1
		}
		cs := []uint32{e.P.GenesisSlot, slot, slot - 1, slot - 2, slot - 4, slot - 5, 0xffffffff}[v[3]]
		b.Header.SlotCommitmentID = commitID(0xc0, cs)
		judgeBlock(c, e, b)
	})

	// parents
	pids := iotago.BlockIDs{blockID(1, 19), blockID(1, 20), blockID(2, 18)}
	pl := lists(3, 3)
	mk := func(k []int, spare int) iotago.BlockIDs {
		if len(k) == 0 && spare == 0 {
			return nil
		}
		back := make(iotago.BlockIDs, len(k)+spare)
		for i, j := range k {
			back[i] = pids[j]
		}
		for i := len(k); i < len(back); i++ {
			back[i] = blockID(0xee, uint32(i))
		}
		return back[:len(k)]
	}
	x.Product("parent lists", []core.Dim{kinds, core.DL("strong", listNames(pl)...), core.DL("weak", listNames(pl)...), core.DL("shallow", listNames(pl)...)}, func(v []int, c *core.C) {
		b := baseBlock(e0, 20, v[0] == 1)
		var ls [3]iotago.BlockIDs
		for i := range ls {
			ls[i] = mk(pl[v[i+1]], 5)
		}
		setParents(b, ls[0], ls[1], ls[2])
		judgeBlock(c, e0, b)
		for i := range ls {
			full := ls[i][:cap(ls[i])]
			for j, id := range full {
				w := blockID(0xee, uint32(j))
				if j < len(ls[i]) {
					w = pids[pl[v[i+1]][j]]
				}
				c.Check(id == w, "parents modified", "validating the block changed element %d of the slice behind parent list %d", j, i)
			}
		}
	})
	counts := []int{0, 1, 2, 7, 8, 9, 49, 50, 51, 255}
	x.Product("parent counts", []core.Dim{kinds, core.DV("strong", counts), core.DV("weak", counts), core.DV("shallow", counts), core.DL("arrangement", "sorted", "shallow equal strong", "last weak is last strong", "last weak is last shallow", "last two swapped in strong", "last two equal in weak", "last two equal in shallow", "last two swapped in shallow")}, func(v []int, c *core.C) {
		b := baseBlock(e0, 20, v[0] == 1)
		var ls [3]iotago.BlockIDs
		for i := range ls {
			for k := 0; k < counts[v[i+1]]; k++ {
				var id iotago.BlockID
				id[0], id[31], id[32] = byte(k), byte(i), 20
				ls[i] = append(ls[i], id)
			}
		}
		last := func(i int) int { return len(ls[i]) - 1 }
		need := func(i, k int) bool {
			if len(ls[i]) < k {
				c.Skip()
				return false
			}
			return true
		}
		switch v[4] {
		case 1:
			if len(ls[0]) != len(ls[2]) {
				c.Skip()
				return
			}
			ls[2] = append(iotago.BlockIDs{}, ls[0]...)
		case 2, 3:
			from := []int{0, 2}[v[4]-2]
			if !need(1, 1) || !need(from, 1) {
				return
			}
			ls[1][last(1)] = ls[from][last(from)]
			if last(1) > last(from) {
				// keep it sorted: drop the rest
				ls[1] = ls[1][:last(from)+1]
				ls[1][last(1)] = ls[from][last(from)]
			}
		case 4, 7:
			i := []int{0, 2}[(v[4]-4)/3]
			if !need(i, 2) {
				return
			}
			k := last(i)
			ls[i][k], ls[i][k-1] = ls[i][k-1], ls[i][k]
		case 5, 6:
			i := v[4] - 4
			if !need(i, 2) {
				return
			}
			ls[i][last(i)] = ls[i][last(i)-1]
		}
		setParents(b, ls[0], ls[1], ls[2])
		judgeBlock(c, e0, b)
	})

	// payloads
	pays := []string{"none", "tagged", "tagged full", "tagged too much", "tag too long", "announcement", "transaction", "invalid transaction"}
	x.Product("payload kinds", []core.Dim{envDim, core.DL("payload", pays...), core.DV("burned mana", []uint64{0, 1, 1 << 63, ^uint64(0)}), core.DL("parents", "one", "eight")}, func(v []int, c *core.C) {
		e := envs[v[0]]
		b := baseBlock(e, 20, false)
		bb := b.Body.(*iotago.BasicBlockBody)
		bb.MaxBurnedMana = iotago.Mana([]uint64{0, 1, 1 << 63, ^uint64(0)}[v[2]])
		switch v[1] {
		case 1:
			bb.Payload = &iotago.TaggedData{Tag: []byte("t"), Data: []byte("d")}
		case 2, 3:
			bb.Payload = &iotago.TaggedData{Tag: ref.Fill('t', 64), Data: ref.Fill('d', 8192+v[1]-2)}
		case 4:
			bb.Payload = &iotago.TaggedData{Tag: ref.Fill('t', 65)}
		case 5:
			bb.Payload = &iotago.CandidacyAnnouncement{}
		case 6, 7:
			stx := synTx(e)
			if v[1] == 7 {
				stx.Transaction.TransactionEssence.NetworkID++
			}
			bb.Payload = stx
		}
		if v[3] == 1 {
			bb.StrongParents = nil
			for i := 0; i < 8; i++ {
				bb.StrongParents = append(bb.StrongParents, blockID(byte(i), 4))
			}
		}
		judgeBlock(c, e, b)
	})
	var commsT []uint32
	for s := 0; s < core.Pick(x, 14, 20); s++ {
		commsT = append(commsT, uint32(s))
	}
	commsT = append(commsT, 0xffffffff, 0xfffffffe, 0xfffffffd, 0xfffffffc, 0xfffffffb)
	slots := seq(core.Pick(x, 14, 20))
	crea := []string{"0", "block-1", "block", "block+1", "last slot"}
	x.Product("transaction slots", []core.Dim{envDim, core.DV("slots after genesis", slots), core.DL("creation slot", crea...), core.DL("commitment input", append([]string{"none"}, labels(commsT)...)...), core.DL("block commitment", "block-min", "block-min-1", "block-max", "same as input", "one less than input", "genesis")}, func(v []int, c *core.C) {
		e := envs[v[0]]
		if v[1] == 0 {
			c.Skip()
			return
		}
		slot := e.P.GenesisSlot + uint32(v[1])
		b := baseBlock(e, slot, false)
		bb := b.Body.(*iotago.BasicBlockBody)
		stx := synTx(e)
		es := stx.Transaction.TransactionEssence
		es.CreationSlot = iotago.SlotIndex([]uint32{0, slot - 1, slot, slot + 1, 0xffffffff}[v[2]])
		es.ContextInputs = nil
		in := uint32(0)
		if v[3] > 0 {
			in = commsT[v[3]-1]
			es.ContextInputs = iotago.TxEssenceContextInputs{&iotago.CommitmentInput{CommitmentID: commitID(0xc5, in)}}
		} else if v[4] == 3 || v[4] == 4 {
			c.Skip()
			return
		}
		bc := []uint32{slot - e.P.MinCA, slot - e.P.MinCA - 1, slot - e.P.MaxCA, in, in - 1, e.P.GenesisSlot}[v[4]]
		b.Header.SlotCommitmentID = commitID(0xc0, bc)
		bb.Payload = stx
		judgeBlock(c, e, b)
	})

	// maximum size
	x.Product("maximum size", []core.Dim{envDim, core.DV("size", []int{-3, -2, -1, 0, 1, 2, 3, 100}), core.DL("strong parents", "1", "8"), core.DL("other parents", "none", "8 weak", "8 shallow", "8 and 8"), core.DL("inputs", "1", "128")}, func(v []int, c *core.C) {
		e := envs[v[0]]
		b := baseBlock(e, 20, false)
		ids := func(k byte, n int) (l iotago.BlockIDs) {
			for i := 0; i < n; i++ {
				l = append(l, blockID(byte(i)*3+k, 20))
			}
			return
		}
		var w, l iotago.BlockIDs
		if v[3]&1 == 1 {
			w = ids(1, 8)
		}
		if v[3]&2 == 2 {
			l = ids(2, 8)
		}
		setParents(b, ids(0, []int{1, 8}[v[2]]), w, l)
		bb := b.Body.(*iotago.BasicBlockBody)
		stx := synTx(e)
		tx := stx.Transaction
		if v[4] == 1 {
			tx.TransactionEssence.Inputs = nil
			for i := 0; i < 128; i++ {
				tx.TransactionEssence.Inputs = append(tx.TransactionEssence.Inputs, &iotago.UTXOInput{TransactionID: gen.TxIDAt(9, 3), TransactionOutputIndex: uint16(i)})
			}
			stx.Unlocks = sigs(128)
		}
		tx.Outputs = nil
		for i := 0; i < 3; i++ {
			tx.Outputs = append(tx.Outputs, basic(gen.Ed(0), 9000, 0, &iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{"a": ref.Fill('m', 7000)}}))
		}
		pay := &iotago.TaggedData{Tag: []byte("x")}
		tx.TransactionEssence.Payload = pay
		bb.Payload = stx
		missing := ref.MaxBlockBytes + []int{-3, -2, -1, 0, 1, 2, 3, 100}[v[1]] - ref.Size(b)
		add := min(missing, 8000)
		pay.Data = ref.Fill('d', add)
		missing -= add
		if missing > 0 {
			o := basic(gen.Ed(0), 9000, 0, &iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{"a": {}}})
			tx.Outputs = append(tx.Outputs, o)
			missing -= ref.Size(o)
			if missing < 0 {
				pay.Data = pay.Data[:len(pay.Data)+missing]
				missing = 0
			}
			o.Features[0].(*iotago.MetadataFeature).Entries["a"] = ref.Fill('n', missing)
		}
		if got, w := ref.Size(b), ref.MaxBlockBytes+[]int{-3, -2, -1, 0, 1, 2, 3, 100}[v[1]]; got != w {
			c.Fail("fixture", "block has %d bytes, wanted %d", got, w)
			return
		}
		c.Note(fmt.Sprintf("%d bytes", ref.Size(b)))
		judgeBlock(c, e, b)
	})
}

func labels[T any](l []T) (out []string) {
	for _, e := range l {
		out = append(out, fmt.Sprint(e))
	}
	return
}
