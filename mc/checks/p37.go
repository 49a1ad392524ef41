package checks

import (
	"bytes"
	"context"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
	"github.com/iotaledger/iota.go/v4/vm/nova"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P37"] = p37 }

// pure makes the judges of the other properties look for side effects and changing answers alone.
var pure bool

// op is something that can be asked of an object.
type op struct {
	name string
	do   func() string
}

func guarded(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic"
		}
	}()
	return f()
}

func answerOf[T any](v T, err error) string {
	if err != nil {
		return "error"
	}
	return dump(v)
}

// runOps asks everything in order, twice, and in the reverse order, and compares the answers; check is called after each round
// with the name of the round.
func runOps(c *core.C, what string, ops []op, check func(after string) bool) []string {
	first := make([]string, len(ops))
	for i, o := range ops {
		first[i] = guarded(o.do)
	}
	c.Step(len(ops))
	if !check("the first round") {
		return first
	}
	for round := 0; round < 2; round++ {
		for k := range ops {
			i := k
			if round == 1 {
				i = len(ops) - 1 - k
			}
			if s := guarded(ops[i].do); s != first[i] {
				c.Fail("pure answer "+what+" "+ops[i].name, "%s answers %s first and %s later", ops[i].name, clip(first[i]), clip(s))
				return first
			}
		}
		c.Step(len(ops))
		c.Validated()
	}
	check("all rounds")
	return first
}

// jsonAnswer is the JSON form up to the order of the keys of an object.
func jsonAnswer(e *gen.Env, v any) string {
	js, err := e.API.JSONEncode(v)
	if err != nil {
		return "error"
	}
	return string(canonJSON(js))
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func unchanged(c *core.C, what string, objs ...any) func(string) bool {
	before := make([]string, len(objs))
	for i, o := range objs {
		before[i] = dump(o)
	}
	return func(after string) bool {
		for i, o := range objs {
			if d := dump(o); d != before[i] {
				c.Fail("pure modified "+what, "%T changed by %s: %s became %s", o, after, clip(before[i]), clip(d))
				return false
			}
		}
		c.Validated()
		return true
	}
}

func txOps(e *gen.Env, stx *iotago.SignedTransaction) []op {
	tx := stx.Transaction
	w := e.API.ProtocolParameters().WorkScoreParameters()
	return []op{
		{"Encode", func() string { return answerOf(e.API.Encode(stx)) }},
		{"Encode with validation", func() string { return answerOf(e.API.Encode(stx, serix.WithValidation())) }},
		{"JSONEncode", func() string { return jsonAnswer(e, stx) }},
		{"SignedTransaction.ID", func() string { return answerOf(stx.ID()) }},
		{"SignedTransaction.Size", func() string { return fmt.Sprint(stx.Size()) }},
		{"SignedTransaction.WorkScore", func() string { return answerOf(stx.WorkScore(w)) }},
		{"Transaction.ID", func() string { return answerOf(tx.ID()) }},
		{"Transaction.TransactionCommitment", func() string { return answerOf(tx.TransactionCommitment()) }},
		{"Transaction.OutputCommitment", func() string { return answerOf(tx.OutputCommitment()) }},
		{"Transaction.SigningMessage", func() string { return answerOf(tx.SigningMessage()) }},
		{"Transaction.Size", func() string { return fmt.Sprint(tx.Size()) }},
		{"Transaction.WorkScore", func() string { return answerOf(tx.WorkScore(w)) }},
		{"Transaction.SyntacticallyValidate", func() string { return answerOf(0, tx.SyntacticallyValidate(e.API)) }},
		{"Transaction.OutputsSet", func() string { return answerOf(tx.OutputsSet()) }},
		{"Transaction.Inputs", func() string { return dump(tx.Inputs()) }},
		{"Transaction.ContextInputs", func() string { return dump(tx.ContextInputs()) }},
		{"Transaction.Clone", func() string { return dump(tx.Clone()) }},
		{"SignedTransaction.Clone", func() string { return dump(stx.Clone()) }},
	}
}

// pureTx asks everything of a transaction, its validation against a ledger state included.
func pureTx(c *core.C, e *gen.Env, stx *iotago.SignedTransaction, res vm.ResolvedInputs) Verdict {
	c.State(ref.Enc(stx))
	// one machine for everything: it must not remember
	machine := nova.NewVirtualMachine()
	inputs := dump(stx) + dump(res)
	var addrs vm.UnlockedAddresses
	var addrsDump string
	ops := []op{
		{"Encode with validation", func() string { return answerOf(e.API.Encode(stx, serix.WithValidation())) }},
		{"ValidateUnlocks", func() string {
			a, err := machine.ValidateUnlocks(stx, res)
			if err != nil {
				return "error"
			}
			if addrs == nil {
				addrs, addrsDump = a, dump(a)
				return addrsDump
			}
			return dump(a)
		}},
		{"Execute", func() string {
			if addrs == nil {
				return "locked"
			}
			o, err := machine.Execute(stx.Transaction, res, addrs)
			return answerOf(o, err)
		}},
		{"Execute on another machine", func() string {
			if addrs == nil {
				return "locked"
			}
			o, err := nova.NewVirtualMachine().Execute(stx.Transaction, res, addrs)
			return answerOf(o, err)
		}},
		{"Transaction.ID", func() string { return answerOf(stx.Transaction.ID()) }},
	}
	var first [5]string
	for i, o := range ops {
		first[i] = guarded(o.do)
	}
	for i := len(ops) - 1; i >= 0; i-- {
		if s := guarded(ops[i].do); s != first[i] {
			c.Fail("pure answer transaction "+ops[i].name, "%s answers %s first and %s later", ops[i].name, clip(first[i]), clip(s))
		}
	}
	if addrs != nil && dump(addrs) != addrsDump {
		c.Fail("pure modified unlocked addresses", "execution changed the unlocked addresses it was given from %s to %s", clip(addrsDump), clip(dump(addrs)))
	}
	if d := dump(stx) + dump(res); d != inputs {
		c.Fail("pure modified transaction or its inputs", "validation changed %s to %s", clip(inputs), clip(d))
	}
	c.Step(2 * len(ops))
	c.Validated()
	c.Check(first[2] == first[3], "pure answer another machine", "two machines disagree: %s and %s", clip(first[2]), clip(first[3]))
	if first[2] != "error" && first[2] != "locked" && first[2] != "panic" && first[0] != "error" {
		c.Outcome("accepted")
		return Verdict{}
	}
	c.Outcome("refused")
	return Verdict{Stage: "refused"}
}

func pureSyntax(c *core.C, e *gen.Env, stx *iotago.SignedTransaction) {
	ops := txOps(e, stx)
	runOps(c, "transaction", []op{ops[1], ops[2], ops[3], ops[5], ops[12]}, unchanged(c, "transaction", stx))
	c.StateS(dump(stx))
}

func pureBlock(c *core.C, e *gen.Env, b *iotago.Block) {
	ops := []op{
		{"Encode", func() string { return answerOf(e.API.Encode(b)) }},
		{"Encode with validation", func() string { return answerOf(e.API.Encode(b, serix.WithValidation())) }},
		{"JSONEncode", func() string { return jsonAnswer(e, b) }},
		{"ID", func() string { return answerOf(b.ID()) }},
		{"SigningMessage", func() string { return answerOf(b.SigningMessage()) }},
		{"VerifySignature", func() string { return answerOf(b.VerifySignature()) }},
		{"Parents", func() string { return dump(b.Parents()) }},
		{"ParentsWithType", func() string { return dump(b.ParentsWithType()) }},
		{"WorkScore", func() string { return answerOf(b.WorkScore()) }},
		{"Size", func() string { return fmt.Sprint(b.Size()) }},
		{"ManaCost", func() string { return answerOf(b.ManaCost(3)) }},
		{"Slot", func() string { return fmt.Sprint(b.Slot()) }},
	}
	runOps(c, "block", ops, unchanged(c, "block", b))
	c.StateS(dump(b))
}

// mutators are the methods whose purpose is to change their receiver or process-wide state.
func mutator(name string) bool {
	for _, p := range []string{"Sort", "Set", "Upsert", "Remove", "Add", "Decode", "Unmarshal", "Register", "Unregister", "Alias", "Push", "Delete", "Sign", "ToDeserialize", "FromDeserialize"} {
		if strings.HasPrefix(name, p) && name != "SignerUID" && name != "SigningMessage" && name != "Set" {
			return true
		}
	}
	return false
}

var (
	errType = reflect.TypeOf((*error)(nil)).Elem()
	ctxType = reflect.TypeOf((*context.Context)(nil)).Elem()
)

// methodOps are all methods of v and its parts that can be called with arguments known here.
func methodOps(e *gen.Env, root any) (ops []op) {
	pp := e.API.ProtocolParameters()
	known := func(t reflect.Type) (reflect.Value, bool) {
		switch t {
		case apiType:
			return reflect.ValueOf(e.API), true
		case ctxType:
			return reflect.ValueOf(context.Background()), true
		case reflect.TypeOf((*iotago.WorkScoreParameters)(nil)):
			return reflect.ValueOf(pp.WorkScoreParameters()), true
		case reflect.TypeOf((*iotago.StorageScoreStructure)(nil)):
			return reflect.ValueOf(e.API.StorageScoreStructure()), true
		case reflect.TypeOf(iotago.NetworkPrefix("")):
			return reflect.ValueOf(iotago.PrefixTestnet), true
		case reflect.TypeOf(iotago.SlotIndex(0)):
			return reflect.ValueOf(iotago.SlotIndex(33)), true
		case reflect.TypeOf(iotago.Mana(0)):
			return reflect.ValueOf(iotago.Mana(5)), true
		case reflect.TypeOf((*iotago.Address)(nil)).Elem():
			return reflect.ValueOf(iotago.Address(gen.Ed(1))), true
		case reflect.TypeOf(iotago.OutputID{}):
			return reflect.ValueOf(gen.OutID(3, 4, 5)), true
		case reflect.TypeOf([]byte{}):
			return reflect.ValueOf([]byte("data")), true
		case reflect.TypeOf(uint16(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(int(0)):
			return reflect.Zero(t), true
		}
		return reflect.Value{}, false
	}
	for _, p := range append([]part{{"", root}}, partsOf(root)...) {
		v := reflect.ValueOf(p.v)
		if v.Kind() != reflect.Pointer && v.CanInterface() {
			// methods of the pointer belong to the value as well
			n := reflect.New(v.Type())
			n.Elem().Set(v)
			v = n
		}
		for m := 0; m < v.NumMethod(); m++ {
			mt := v.Type().Method(m)
			if mutator(mt.Name) {
				continue
			}
			ft := v.Method(m).Type()
			n := ft.NumIn()
			if ft.IsVariadic() {
				n--
			}
			var args []reflect.Value
			for a := 0; a < n; a++ {
				if k, ok := known(ft.In(a)); ok {
					args = append(args, k)
				}
			}
			if len(args) != n {
				continue
			}
			name := p.path + "." + v.Type().Elem().Name() + "." + mt.Name
			fn := v.Method(m)
			ops = append(ops, op{name, func() string {
				var sb strings.Builder
				for _, r := range fn.Call(args) {
					if r.Type() == errType {
						fmt.Fprint(&sb, "error ", !r.IsNil())
						continue
					}
					dumpTo(&sb, r)
					sb.WriteByte(';')
				}
				return sb.String()
			}})
		}
	}
	for _, w := range []bool{false, true} {
		ops = append(ops, op{fmt.Sprintf("Encode, validation %v", w), func() string {
			var opts []serix.Option
			if w {
				opts = append(opts, serix.WithValidation())
			}
			return answerOf(e.API.Encode(root, opts...))
		}}, op{fmt.Sprintf("JSONEncode, validation %v", w), func() string {
			var opts []serix.Option
			if w {
				opts = append(opts, serix.WithValidation())
			}
			js, err := e.API.JSONEncode(root, opts...)
			if err != nil {
				return "error"
			}
			return string(canonJSON(js))
		}})
	}
	return
}

// shared are the process-wide values all objects use.
func shared(e *gen.Env) string {
	a := e.API
	return dump(a.ProtocolParameters()) + fmt.Sprintf("%x", ref.Enc(a.ProtocolParameters())) + dump(a.StorageScoreStructure()) + dump(a.TimeProvider()) + dump(a.ManaDecayProvider()) + fmt.Sprint(a.MaxBlockWork(), a.Version())
}

func p37(x *core.Ctx) {
	x.Assume("answers are compared by value; of an error only its presence is an answer")
	e := gen.NewEnv(ref.Default())
	objs := catalog(e)
	if !x.Thorough() {
		var l []Obj
		for i, o := range objs {
			if o.small || i%4 == 0 {
				l = append(l, o)
			}
		}
		objs = l
	}
	names := make([]string, len(objs))
	for i, o := range objs {
		names[i] = o.Kind + " " + o.Name
	}
	before := shared(e)
	x.Product("methods of objects", []core.Dim{core.DL("object", names...)}, func(v []int, c *core.C) {
		o := objs[v[0]]
		a, b := o.New(), o.New()
		opsA, opsB := methodOps(e, a), methodOps(e, b)
		first := runOps(c, o.Kind, opsA, unchanged(c, o.Kind, a))
		// another copy asked in the reverse order from the start
		for i := len(opsB) - 1; i >= 0 && len(opsA) == len(opsB); i-- {
			if s := guarded(opsB[i].do); s != first[i] && !strings.Contains(opsB[i].name, "String") {
				c.Fail("pure answer "+o.Kind+" "+opsB[i].name, "%s answers %s, and %s for an equal object asked in the reverse order", opsB[i].name, clip(first[i]), clip(s))
			}
		}
		c.Check(len(opsA) == len(opsB), "pure ops", "equal objects differ in their parts")
		c.Outcome(o.Kind)
		c.Step(len(opsB))
		c.StateS(dump(a))
	})
	// decoding does not change the bytes, and an object does not live on the bytes it was decoded from
	x.Product("decoding", []core.Dim{core.DL("object", names...)}, func(v []int, c *core.C) {
		o := objs[v[0]]
		raw := o.Raw()
		keep := append([]byte{}, raw...)
		for _, t := range o.Targets {
			p, get := t.make()
			opts := []serix.Option{}
			if o.Valid {
				opts = append(opts, serix.WithValidation())
			}
			if _, err := e.API.Decode(raw, p, opts...); err != nil {
				c.Outcome("not decoded")
				continue
			}
			c.Check(bytes.Equal(raw, keep), "pure modified bytes", "decoding %s changed its input", o.Kind)
			d := dump(get())
			for i := range raw {
				raw[i] ^= 0xff
			}
			c.Check(dump(get()) == d, "pure aliased bytes", "%s changes with the bytes it was decoded from", o.Kind)
			copy(raw, keep)
			c.Step(1)
			c.Validated()
			c.Outcome("decoded")
		}
	})
	// the spaces of the ledger and syntax properties
	pure = true
	x.Only = "pure"
	x.Stride = core.Pick(x, uint64(7), uint64(3))
	for _, p := range []string{"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P20", "P21", "P22"} {
		if x.Stopped() || x.Expired() {
			break
		}
		All[p](x)
	}
	pure = false
	x.Only, x.Stride = "", 0
	x.Product("shared values", []core.Dim{core.D("once", 1)}, func(v []int, c *core.C) {
		c.Check(shared(e) == before, "pure shared", "the protocol parameters or the structures derived from them changed")
	})
	if !x.Stopped() {
		racePass(x, "readers")
	}
}

func clip3(s string) string {
	if len(s) > 3000 {
		return s[:3000]
	}
	return s
}

// Readers is the body of the race pass (run in a binary built with the race detector).
func Readers(tier string) int {
	e := gen.NewEnv(ref.Default())
	n, asked := 0, 0
	bad := ""
	ask := func(name string, mk func() []op) {
		want := mk()
		first := make([]string, len(want))
		for i, o := range want {
			first[i] = guarded(o.do)
		}
		ops := mk() // a fresh object, so that the readers are the first to ask
		if len(ops) != len(want) {
			return
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		start := make(chan struct{})
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := range ops {
					i := (k + g*len(ops)/4) % len(ops)
					if g%2 == 1 {
						i = len(ops) - 1 - i
					}
					if s := guarded(ops[i].do); s != first[i] && !strings.Contains(ops[i].name, "String") {
						mu.Lock()
						if bad == "" {
							bad = fmt.Sprintf("%s of %s answers %s to a concurrent reader instead of %s", ops[i].name, name, clip(s), clip(first[i]))
						}
						mu.Unlock()
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		n++
		asked += 4 * len(ops)
	}
	limit := time.Now().Add(60 * time.Second)
	if tier == "thorough" {
		limit = time.Now().Add(250 * time.Second)
	}
	for _, s := range readerCases(e) {
		ask("transaction", s)
	}
	skipped := 0
	last := map[string]int{}
	for _, o := range catalog(e) {
		if !o.small || time.Now().After(limit) {
			skipped++
			continue
		}
		last[o.Kind]++
		ask(o.Kind+" "+o.Name, func() []op { return methodOps(e, o.New()) })
	}
	if bad != "" {
		fmt.Println(bad)
		return 1
	}
	fmt.Printf("%d objects, %d calls by 4 concurrent readers each, no data race reported; %d objects left out", n, asked, skipped)
	return 0
}

// readerCases are transactions validated by several machines at the same time.
func readerCases(e *gen.Env) (out []func() []op) {
	mk := func(build func() *Case) {
		out = append(out, func() []op {
			cs := build()
			stx, res := cs.Signed()
			machine := nova.NewVirtualMachine()
			addrs, err := machine.ValidateUnlocks(stx, res)
			ops := txOps(e, stx)
			ops = append(ops, op{"ValidateUnlocks", func() string { return answerOf(machine.ValidateUnlocks(stx, res)) }})
			if err == nil {
				ops = append(ops, op{"Execute", func() string { return answerOf(machine.Execute(stx.Transaction, res, addrs)) }})
			}
			return ops
		})
	}
	mk(func() *Case {
		cs := &Case{E: e, Slot: 20, Commit: -1}
		cs.AddAt(basic(gen.Ed(0), 5000, 10), 3)
		cs.AddAt(basic(gen.Ed(0), 5000, 10), 4)
		cs.Fill(gen.Ed(1), 5)
		return cs
	})
	mk(func() *Case {
		cs := &Case{E: e, Slot: 20, Commit: -1, Caps: allCaps()}
		acc := gen.AccID(7)
		cs.AddAt(account(acc, gen.Ed(0), 5000, 10, 1), 3)
		cs.AddAt(foundry(acc, 4000, 1, 10, 0, 100), 3)
		fid := foundryID(acc, 1)
		cs.AddAt(basic(gen.Ed(0), 5000, 3, fNT(fid, 10)), 5)
		cs.Outs = []iotago.Output{account(acc, gen.Ed(0), 5000, 4, 1), foundry(acc, 4000, 1, 15, 0, 100)}
		cs.Fill(gen.Ed(2), 0, fNT(fid, 15))
		return cs
	})
	mk(func() *Case {
		cs := &Case{E: e, Slot: 20, Commit: -1, Caps: allCaps()}
		cs.AddAt(nft(gen.NFTID(3), gen.Ed(0), 5000, 10), 3)
		cs.AddAt(basic(gen.NFTAddr(3), 5000, 10), 3)
		cs.AddAt(basic(gen.Multi(1, gen.Ed(0), gen.Ed(1)), 5000, 10), 3)
		cs.Outs = []iotago.Output{nft(gen.NFTID(3), gen.Ed(1), 5000, 10)}
		cs.Fill(gen.Ed(2), 0)
		return cs
	})
	return
}
