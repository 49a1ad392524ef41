// Package checks holds one exploration per property.
package checks

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
	"github.com/iotaledger/iota.go/v4/vm/nova"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

// All maps property identifiers to their exploration.
var All = map[string]func(*core.Ctx){}

// In is one consumed output.
type In struct {
	ID  iotago.OutputID
	Out iotago.Output
}

// Case is one transaction together with the ledger state it runs against.
type Case struct {
	E       *gen.Env
	Ins     []In
	Outs    []iotago.Output
	Slot    uint32
	Commit  int64 // slot of the commitment input, -1: none
	BIC     map[iotago.AccountID]int64
	Rewards map[int]uint64 // by input index
	Caps    []byte
	Allot   iotago.Allotments
	Payload iotago.TxEssencePayload
	Ctx     iotago.TxEssenceContextInputs // nil: derived from the resolved inputs
	NoAuto  bool                          // keep Ctx even if nil
	Unlocks iotago.Unlocks                // nil: the honest unlock list
	NetID   *uint64
	SignAs  map[int]int // input index -> key signing for it whoever is entitled
}

const nKeys = 8

func caps(bits ...uint) []byte {
	var b byte
	for _, x := range bits {
		b |= 1 << x
	}
	if b == 0 {
		return nil
	}
	return []byte{b}
}

func allCaps() []byte { return []byte{0x3f} }

// Tx builds the transaction.
func (cs *Case) Tx() *iotago.Transaction {
	api := cs.E.API
	e := &iotago.TransactionEssence{NetworkID: iotago.NetworkID(cs.E.P.NetworkID), CreationSlot: iotago.SlotIndex(cs.Slot), Allotments: cs.Allot, Payload: cs.Payload, Capabilities: append([]byte{}, cs.Caps...)}
	if cs.NetID != nil {
		e.NetworkID = iotago.NetworkID(*cs.NetID)
	}
	for _, in := range cs.Ins {
		u := &iotago.UTXOInput{}
		copy(u.TransactionID[:], in.ID[:36])
		u.TransactionOutputIndex = uint16(in.ID[36]) | uint16(in.ID[37])<<8
		e.Inputs = append(e.Inputs, u)
	}
	if cs.Ctx != nil || cs.NoAuto {
		e.ContextInputs = cs.Ctx
	} else {
		if cs.Commit >= 0 {
			var cid iotago.CommitmentID
			copy(cid[:], ref.Fill(0xc0, 32))
			s := uint32(cs.Commit)
			cid[32], cid[33], cid[34], cid[35] = byte(s), byte(s>>8), byte(s>>16), byte(s>>24)
			e.ContextInputs = append(e.ContextInputs, &iotago.CommitmentInput{CommitmentID: cid})
		}
		var ids []iotago.AccountID
		for id := range cs.BIC {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
		for _, id := range ids {
			e.ContextInputs = append(e.ContextInputs, &iotago.BlockIssuanceCreditInput{AccountID: id})
		}
		var rs []int
		for i := range cs.Rewards {
			rs = append(rs, i)
		}
		sort.Ints(rs)
		for _, i := range rs {
			e.ContextInputs = append(e.ContextInputs, &iotago.RewardInput{Index: uint16(i)})
		}
	}
	tx := &iotago.Transaction{API: api, TransactionEssence: e}
	for _, o := range cs.Outs {
		tx.Outputs = append(tx.Outputs, o.(iotago.TxEssenceOutput))
	}
	return tx
}

// Resolved builds the resolved inputs.
func (cs *Case) Resolved() vm.ResolvedInputs {
	r := vm.ResolvedInputs{InputSet: vm.InputSet{}, BlockIssuanceCreditInputSet: vm.BlockIssuanceCreditInputSet{}, RewardsInputSet: vm.RewardsInputSet{}}
	for i, in := range cs.Ins {
		r.InputSet[in.ID] = in.Out
		if v, ok := cs.Rewards[i]; ok {
			if cid, ok := ref.ChainIDOf(in.Out, in.ID); ok {
				r.RewardsInputSet[cid] = iotago.Mana(v)
			}
		}
	}
	if cs.Commit >= 0 {
		r.CommitmentInput = gen.Commitment(uint32(cs.Commit))
	}
	for id, v := range cs.BIC {
		r.BlockIssuanceCreditInputSet[id] = iotago.BlockIssuanceCredits(v)
	}
	return r
}

var keyOf = func() map[string]int {
	m := map[string]int{}
	for i := 0; i < nKeys; i++ {
		m[ref.AddrKey(gen.Ed(i))] = i
		m[ref.AddrKey(gen.Implicit(i))] = i
	}
	return m
}()

// Honest builds the honest unlock list of a transaction.
func (cs *Case) Honest(tx *iotago.Transaction, res vm.ResolvedInputs) iotago.Unlocks {
	msg := ref.SigMsg(tx)
	at := map[string]int{} // address (or key index) -> input index unlocking it
	var us iotago.Unlocks
	chainAt := map[string]int{}
	for i, in := range cs.Ins {
		a, _ := cs.E.P.Owner(tx, in.Out, in.ID, res)
		if a == nil {
			a = gen.Ed(0)
		}
		a = ref.Underlying(a)
		if k, ok := cs.SignAs[i]; ok {
			a = gen.Ed(k)
		}
		us = append(us, honest(a, i, at, chainAt, msg))
		if cid, ok := ref.ChainIDOf(in.Out, in.ID); ok {
			if k := chainKey(cid); k != "" {
				if _, ok := chainAt[k]; !ok {
					chainAt[k] = i
				}
			}
		}
	}
	return us
}

func chainKey(cid iotago.ChainID) string {
	switch x := cid.(type) {
	case iotago.AccountID:
		return string(append([]byte{8}, x[:]...))
	case iotago.NFTID:
		return string(append([]byte{16}, x[:]...))
	case iotago.AnchorID:
		return string(append([]byte{24}, x[:]...))
	}
	return ""
}

func honest(a iotago.Address, i int, at, chainAt map[string]int, msg []byte) iotago.Unlock {
	k := ref.AddrKey(a)
	switch x := a.(type) {
	case *iotago.AccountAddress:
		return &iotago.AccountUnlock{Reference: uint16(chainAt[k])}
	case *iotago.NFTAddress:
		return &iotago.NFTUnlock{Reference: uint16(chainAt[k])}
	case *iotago.AnchorAddress:
		return &iotago.AnchorUnlock{Reference: uint16(chainAt[k])}
	case *iotago.MultiAddress:
		if j, ok := at[k]; ok {
			return &iotago.ReferenceUnlock{Reference: uint16(j)}
		}
		at[k] = i
		mu := &iotago.MultiUnlock{}
		w := 0
		for _, m := range x.Addresses {
			mk := ref.AddrKey(m.Address)
			_, direct := keyOf[mk]
			_, chain := chainAt[mk]
			if w >= int(x.Threshold) || (!direct && !chain) {
				mu.Unlocks = append(mu.Unlocks, &iotago.EmptyUnlock{})
				continue
			}
			w += int(m.Weight)
			sub := map[string]int{}
			for q, v := range at {
				sub[q] = v
			}
			mu.Unlocks = append(mu.Unlocks, honest(m.Address, i, sub, chainAt, msg))
		}
		return mu
	default:
		ki, ok := keyOf[k]
		if !ok {
			ki = 0
		}
		pk := fmt.Sprintf("key%d", ki)
		if j, ok := at[pk]; ok {
			return &iotago.ReferenceUnlock{Reference: uint16(j)}
		}
		at[pk] = i
		return &iotago.SignatureUnlock{Signature: gen.Sign(ki, msg)}
	}
}

// Signed builds the signed transaction.
func (cs *Case) Signed() (*iotago.SignedTransaction, vm.ResolvedInputs) {
	tx := cs.Tx()
	res := cs.Resolved()
	us := cs.Unlocks
	if us == nil {
		us = cs.Honest(tx, res)
	}
	return &iotago.SignedTransaction{API: cs.E.API, Transaction: tx, Unlocks: us}, res
}

// Verdict of one transaction: stage and reason of the model, "" stage if accepted.
type Verdict struct{ Stage, Why string }

func (v Verdict) String() string {
	if v.Stage == "" {
		return "accepted"
	}
	return v.Stage + ": " + v.Why
}

// Run judges the case with the model and the implementation and reports any difference.
func (cs *Case) Run(c *core.C) Verdict {
	stx, res := cs.Signed()
	return JudgeTx(c, cs.E, stx, res)
}

// JudgeTx runs one signed transaction through encoding, decoding, unlock validation and execution and
// compares every verdict with the reference model.
func JudgeTx(c *core.C, e *gen.Env, stx *iotago.SignedTransaction, res vm.ResolvedInputs) Verdict {
	if pure {
		return pureTx(c, e, stx, res)
	}
	want := e.P.SyntaxSigned(stx)
	raw := ref.Enc(stx)
	st := append([]byte{}, raw...)
	for _, id := range ref.InputIDs(stx.Transaction) {
		if o := res.InputSet[id]; o != nil {
			st = append(st, ref.Enc(o)...)
		}
	}
	st = fmt.Appendf(st, "%v%v%v", res.BlockIssuanceCreditInputSet, len(res.RewardsInputSet), res.CommitmentInput)
	c.State(st)
	// encoding leg
	c.Step(1)
	got, err := e.API.Encode(stx, serix.WithValidation())
	if !c.Check((err == nil) == (want == ""), "syntax:"+why(want), "encoding with validation: model says %q, implementation says %v", want, err) {
		return Verdict{"diff", want}
	}
	if err == nil && !bytes.Equal(got, raw) {
		c.Fail("bytes", "encoded bytes differ from the protocol layout:\n impl %x\n want %x", got, raw)
	}
	// decoding leg, from independently produced bytes
	dec := &iotago.SignedTransaction{API: e.API}
	c.Step(1)
	n, err := e.API.Decode(raw, dec, serix.WithValidation())
	if !c.Check((err == nil) == (want == ""), "syntax-decode:"+why(want), "decoding with validation: model says %q, implementation says %v", want, err) {
		return Verdict{"diff", want}
	}
	if want != "" {
		c.Outcome("syntax: " + want)
		return Verdict{"syntax", want}
	}
	if n != len(raw) {
		c.Fail("short read", "decoding consumed %d of %d bytes", n, len(raw))
	}
	// verdicts of the machine on the decoded object
	un, want := e.P.Unlock(stx, res)
	c.Step(1)
	machine := nova.NewVirtualMachine()
	addrs, err := machine.ValidateUnlocks(dec, res)
	if !c.Check((err == nil) == (want == ""), "unlock:"+why(want), "unlock validation: model says %q, implementation says %v", want, err) {
		return Verdict{"diff", want}
	}
	if want != "" {
		c.Outcome("unlock: " + want)
		return Verdict{"unlock", want}
	}
	want = e.P.Execute(stx.Transaction, res, un)
	c.Step(1)
	outs, err := machine.Execute(dec.Transaction, res, addrs)
	if want == ref.Unspecified {
		c.Outcome("open")
		return Verdict{"exec", want}
	}
	if !c.Check((err == nil) == (want == ""), "exec:"+why(want), "execution: model says %q, implementation says %v", want, err) {
		return Verdict{"diff", want}
	}
	if want != "" {
		c.Outcome("exec: " + want)
		return Verdict{"exec", want}
	}
	c.Check(len(outs) == len(stx.Transaction.Outputs), "created", "execution returned %d outputs instead of %d", len(outs), len(stx.Transaction.Outputs))
	for i := range outs {
		if i < len(stx.Transaction.Outputs) && !bytes.Equal(ref.Enc(outs[i]), ref.Enc(stx.Transaction.Outputs[i])) {
			c.Fail("created", "execution changed output %d", i)
		}
	}
	c.Outcome("accepted")
	return Verdict{}
}

func why(s string) string {
	if s == "" {
		return "valid"
	}
	return s
}

func describe(cs *Case) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "slot=%d commit=%d ins=", cs.Slot, cs.Commit)
	for _, in := range cs.Ins {
		fmt.Fprintf(&sb, "[%T]", in.Out)
	}
	sb.WriteString(" outs=")
	for _, o := range cs.Outs {
		fmt.Fprintf(&sb, "[%T]", o)
	}
	return sb.String()
}

// Fill appends a plain output holding the remaining base tokens and the given mana.
func (cs *Case) Fill(a iotago.Address, mana uint64, parts ...any) {
	var in, out uint64
	for _, i := range cs.Ins {
		in += ref.Amount(i.Out)
	}
	for _, o := range cs.Outs {
		out += ref.Amount(o)
	}
	cs.Outs = append(cs.Outs, basic(a, in-out, mana, parts...))
}

// Add appends an input created in the transaction's own slot.
func (cs *Case) Add(o iotago.Output) iotago.OutputID {
	id := gen.OutID(byte(0x10+len(cs.Ins)), cs.Slot, uint16(len(cs.Ins)))
	cs.Ins = append(cs.Ins, In{id, o})
	return id
}

// AddAt appends an input created at the given slot.
func (cs *Case) AddAt(o iotago.Output, slot uint32) iotago.OutputID {
	id := gen.OutID(byte(0x10+len(cs.Ins)), slot, uint16(len(cs.Ins)))
	cs.Ins = append(cs.Ins, In{id, o})
	return id
}

// IDAt is the identifier Add gives to the input at index i.
func (cs *Case) IDAt(i int, slot uint32) iotago.OutputID {
	return gen.OutID(byte(0x10+i), slot, uint16(i))
}

// expect fails the check if a case written to be accepted is not (guards against vacuous spaces).
func expect(c *core.C, v Verdict) {
	if v.Stage != "" && !c.Failed() {
		c.Fail("selfcheck", "honest case unexpectedly rejected by the model: %s", v)
	}
}
