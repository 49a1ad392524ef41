package checks

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm/nova"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P36"] = p36 }

// ledger is a set of unspent outputs with the ghost state the invariants need.
type ledger struct {
	utx    []In
	slot   uint32
	born   []string          // identifiers (kind byte + id) in the order the chains came to exist
	supply map[string]*money // per foundry: what its output last said and what was burned
	paid   map[string]bool   // delegations whose reward was claimed
	menu   *menu36
	once   sync.Once
	evs    []event36
}

type money struct {
	minted, melted, max *big.Int
	burned              *big.Int
	live                bool
}

// menu36 says what the transactions of a universe may do.
type menu36 struct {
	pair    bool     // consume two outputs besides the funds
	create  []string // creations
	deviate []string
	waits   []uint32
}

type event36 struct {
	wait   uint32
	in     []int // indices into utx
	ops    []string
	create string
	arg    int
	dev    string
	caps   bool
}

func (v event36) String() string {
	if v.wait > 0 {
		return fmt.Sprintf("wait %d", v.wait)
	}
	var sb strings.Builder
	for i, x := range v.in {
		fmt.Fprintf(&sb, "#%d %s, ", x, v.ops[i])
	}
	if v.create != "" {
		fmt.Fprintf(&sb, "create %s(%d), ", v.create, v.arg)
	}
	if v.dev != "" {
		fmt.Fprintf(&sb, "but %s, ", v.dev)
	}
	fmt.Fprintf(&sb, "caps=%v", v.caps)
	return sb.String()
}

var ops36 = map[string][]string{
	"basic":      {"spend"},
	"implicit":   {"spend", "convert", "convert twice", "destroy", "keep"},
	"account":    {"keep", "destroy", "twice", "counter+1", "counter-1"},
	"nft":        {"keep", "destroy", "twice"},
	"anchor":     {"state", "govern", "destroy", "twice"},
	"foundry":    {"keep", "mint", "mint silently", "mint too much", "melt", "melt silently", "rewind", "raise max", "destroy", "twice"},
	"delegation": {"keep", "claim", "destroy", "delay", "claim and delay", "twice", "restart"},
}

func kind36(o iotago.Output) string {
	switch o.(type) {
	case *iotago.BasicOutput:
		if ref.IsImplicit(o) {
			return "implicit"
		}
		return "basic"
	case *iotago.AccountOutput:
		return "account"
	case *iotago.NFTOutput:
		return "nft"
	case *iotago.AnchorOutput:
		return "anchor"
	case *iotago.FoundryOutput:
		return "foundry"
	}
	return "delegation"
}

// chain36 is the identity an output carries: kind byte and identifier.
func chain36(o iotago.Output, id iotago.OutputID) string {
	if ref.IsImplicit(o) {
		d := digest32(id)
		return string([]byte{8}) + string(d[:])
	}
	cid, ok := ref.ChainIDOf(o, id)
	if !ok {
		return ""
	}
	switch x := cid.(type) {
	case iotago.AccountID:
		return string([]byte{8}) + string(x[:])
	case iotago.NFTID:
		return string([]byte{16}) + string(x[:])
	case iotago.AnchorID:
		return string([]byte{24}) + string(x[:])
	case iotago.FoundryID:
		return string([]byte{5}) + string(x[:])
	case iotago.DelegationID:
		return string([]byte{9}) + string(x[:])
	}
	return ""
}

func nt36(os []iotago.Output) map[string]*big.Int {
	m := map[string]*big.Int{}
	for _, o := range os {
		for _, f := range ref.MutFeats(o) {
			if t, ok := f.(*iotago.NativeTokenFeature); ok {
				k := string(t.ID[:])
				if m[k] == nil {
					m[k] = new(big.Int)
				}
				m[k].Add(m[k], t.Amount)
			}
		}
	}
	return m
}

func (l *ledger) events() []event36 {
	l.once.Do(func() {
		for _, w := range l.menu.waits {
			l.evs = append(l.evs, event36{wait: w})
		}
		funds := -1
		for i, in := range l.utx {
			if kind36(in.Out) == "basic" && len(ref.MutFeats(in.Out)) == 0 && ref.Amount(in.Out) >= 8000 {
				funds = i
				break
			}
		}
		var sets [][]int
		var grow func(set []int, from int)
		grow = func(set []int, from int) {
			if len(set) > 0 && l.related(set) {
				sets = append(sets, append([]int{}, set...))
				if funds >= 0 {
					sets = append(sets, append(append([]int{}, set...), funds))
				}
			}
			if len(set) == 3 {
				return
			}
			for j := from; j < len(l.utx); j++ {
				if j != funds {
					grow(append(append([]int{}, set...), j), j+1)
				}
			}
		}
		grow(nil, 0)
		if funds >= 0 {
			sets = append(sets, []int{funds})
		}
		for _, set := range sets {
			lists := [][]string{{}}
			for _, i := range set {
				var nl [][]string
				for _, p := range lists {
					for _, op := range ops36[kind36(l.utx[i].Out)] {
						nl = append(nl, append(append([]string{}, p...), op))
					}
				}
				lists = nl
			}
			for _, ops := range lists {
				odd := 0 // operations other than the plain one
				for q, i := range set {
					if ops[q] != ops36[kind36(l.utx[i].Out)][0] {
						odd++
					}
				}
				if odd > 2 {
					continue
				}
				for _, cp := range []bool{true, false} {
					l.evs = append(l.evs, event36{in: set, ops: ops, caps: cp})
					if odd > 1 {
						continue
					}
					for _, d := range l.menu.deviate {
						l.evs = append(l.evs, event36{in: set, ops: ops, caps: cp, dev: d})
					}
				}
				if odd > 1 {
					continue
				}
				for _, cr := range l.menu.create {
					switch cr {
					case "again":
						for a := 0; a < len(l.born) && a < 4; a++ {
							l.evs = append(l.evs, event36{in: set, ops: ops, caps: true, create: cr, arg: a})
						}
					case "foundry":
						for a := 0; a < 4; a++ {
							l.evs = append(l.evs, event36{in: set, ops: ops, caps: true, create: cr, arg: a})
						}
					default:
						l.evs = append(l.evs, event36{in: set, ops: ops, caps: true, create: cr})
					}
				}
			}
		}
	})
	return l.evs
}

// related says whether a set of outputs is worth consuming together: single outputs, pairs if the menu
// asks for them, and an account with its foundries and their tokens.
func (l *ledger) related(set []int) bool {
	if len(set) == 1 || (len(set) == 2 && l.menu.pair) {
		return true
	}
	accs, tied := 0, 0
	for _, i := range set {
		switch kind36(l.utx[i].Out) {
		case "account":
			accs++
		case "foundry":
			tied++
		case "basic":
			if len(ref.MutFeats(l.utx[i].Out)) > 0 {
				tied++
			}
		}
	}
	return accs == 1 && tied == len(set)-1 || (len(set) == 2 && tied == 2)
}

const rewarded = 5

// build assembles the transaction of an event; ok=false if it cannot be formed.
func (l *ledger) build(e *gen.Env, v event36) (cs *Case, ok bool) {
	O := gen.Ed(0)
	cs = &Case{E: e, Slot: l.slot, Commit: int64(l.slot) - 2, BIC: map[iotago.AccountID]int64{}, Rewards: map[int]uint64{}}
	if v.caps {
		cs.Caps = allCaps()
	}
	for _, i := range v.in {
		cs.Ins = append(cs.Ins, l.utx[i])
	}
	var base int64
	tokens := nt36(nil)
	for _, in := range cs.Ins {
		base += int64(ref.Amount(in.Out))
		for k, a := range nt36([]iotago.Output{in.Out}) {
			if tokens[k] == nil {
				tokens[k] = new(big.Int)
			}
			tokens[k].Add(tokens[k], a)
		}
	}
	add := func(o iotago.Output) {
		base -= int64(ref.Amount(o))
		cs.Outs = append(cs.Outs, o)
	}
	past := l.slot - 2 + e.P.MaxCA
	claimEpoch := iotago.EpochIndex(e.P.Epoch(l.slot - 2 + e.P.MinCA))
	var acc *iotago.AccountOutput // the last continued account
	var accID iotago.AccountID
	for q, i := range v.in {
		in := l.utx[i]
		op := v.ops[q]
		switch o := in.Out.(type) {
		case *iotago.BasicOutput:
			if kind36(o) == "implicit" {
				id := iotago.AccountID(digest32(in.ID))
				cs.BIC[id] = 0
				switch op {
				case "spend":
				case "convert", "convert twice":
					n := account(id, O, uint64(o.Amount), 0, 0, fBI(past+100, 0))
					add(n)
					acc, accID = n, id
					if op == "convert twice" {
						add(account(id, O, 2000, 0, 0, fBI(past+100, 0)))
					}
				case "destroy":
					delete(cs.BIC, id)
				case "keep":
					add(o)
				}
			}
		case *iotago.AccountOutput:
			n := *o
			n.Mana = 0
			if n.AccountID == (iotago.AccountID{}) {
				n.AccountID = iotago.AccountID(digest32(in.ID))
			}
			accID = n.AccountID
			if len(o.Features) > 0 {
				cs.BIC[accID] = 0
			}
			switch op {
			case "counter+1":
				n.FoundryCounter++
			case "counter-1":
				if n.FoundryCounter == 0 {
					return nil, false
				}
				n.FoundryCounter--
			}
			if op != "destroy" {
				add(&n)
				acc = &n
			}
			if op == "twice" {
				m := n
				add(&m)
			}
		case *iotago.NFTOutput:
			n := *o
			n.Mana = 0
			if n.NFTID == (iotago.NFTID{}) {
				n.NFTID = iotago.NFTID(digest32(in.ID))
			}
			if op != "destroy" {
				add(&n)
			}
			if op == "twice" {
				m := n
				add(&m)
			}
		case *iotago.AnchorOutput:
			n := *o
			n.Mana = 0
			if n.AnchorID == (iotago.AnchorID{}) {
				n.AnchorID = iotago.AnchorID(digest32(in.ID))
			}
			if op == "state" || op == "twice" {
				n.StateIndex++
			}
			if op != "destroy" {
				add(&n)
			}
			if op == "twice" {
				m := n
				add(&m)
			}
		case *iotago.FoundryOutput:
			n := *o
			s := *o.TokenScheme.(*iotago.SimpleTokenScheme)
			n.TokenScheme = &s
			fid := ref.FoundryID(o)
			k := string(fid[:])
			if tokens[k] == nil {
				tokens[k] = new(big.Int)
			}
			switch op {
			case "mint":
				s.MintedTokens = new(big.Int).Add(s.MintedTokens, big.NewInt(4))
				tokens[k].Add(tokens[k], big.NewInt(4))
			case "mint silently":
				s.MintedTokens = new(big.Int).Add(s.MintedTokens, big.NewInt(4))
			case "mint too much":
				d := new(big.Int).Sub(s.MaximumSupply, new(big.Int).Sub(s.MintedTokens, s.MeltedTokens))
				d.Add(d, big.NewInt(1))
				s.MintedTokens = new(big.Int).Add(s.MintedTokens, d)
				tokens[k].Add(tokens[k], d)
			case "melt":
				s.MeltedTokens = new(big.Int).Add(s.MeltedTokens, big.NewInt(3))
				tokens[k].Sub(tokens[k], big.NewInt(3))
			case "melt silently":
				s.MeltedTokens = new(big.Int).Add(s.MeltedTokens, big.NewInt(3))
			case "rewind":
				if s.MintedTokens.Sign() == 0 || s.MeltedTokens.Sign() == 0 {
					return nil, false
				}
				s.MintedTokens = new(big.Int).Sub(s.MintedTokens, big.NewInt(1))
				s.MeltedTokens = new(big.Int).Sub(s.MeltedTokens, big.NewInt(1))
			case "raise max":
				s.MaximumSupply = new(big.Int).Add(s.MaximumSupply, big.NewInt(1))
			}
			if op != "destroy" {
				add(&n)
			}
			if op == "twice" {
				m := n
				add(&m)
			}
		case *iotago.DelegationOutput:
			n := *o
			if n.DelegationID == (iotago.DelegationID{}) {
				n.DelegationID = iotago.DelegationID(digest32(in.ID))
			}
			if strings.HasPrefix(op, "claim") {
				cs.Rewards[q] = rewarded
			}
			switch op {
			case "delay", "claim and delay", "twice":
				n.EndEpoch = claimEpoch
			case "restart":
				n.EndEpoch = 0
				n.StartEpoch++
			}
			if op != "claim" && op != "destroy" {
				add(&n)
			}
			if op == "twice" {
				m := n
				add(&m)
			}
		}
	}
	switch v.create {
	case "account":
		add(account(iotago.AccountID{}, O, 2000, 0, 0))
	case "issuer":
		add(account(iotago.AccountID{}, O, 2000, 0, 0, fBI(past+100, 0)))
	case "implicit":
		add(basic(gen.Implicit(0), 2000, 0))
	case "nft":
		add(nft(iotago.NFTID{}, O, 2000, 0))
	case "anchor":
		add(anchor(iotago.AnchorID{}, O, O, 2000, 0, 0))
	case "split":
		add(basic(O, 2000, 0))
	case "delegation":
		ep := e.P.Epoch(past)
		if past <= uint32(e.P.EpochStart(ep+1))-1-e.P.Nearing {
			ep++
		} else {
			ep += 2
		}
		add(delegation(iotago.DelegationID{}, O, 2000, 2000, gen.AccAddr(0xe1), ep, 0))
	case "foundry":
		// 0: next serial with tokens, 1: next serial, 2: serial already used, 3: next serial and the one after
		if acc == nil {
			return nil, false
		}
		serial := acc.FoundryCounter + 1
		if v.arg == 2 {
			serial = acc.FoundryCounter
			if serial == 0 {
				return nil, false
			}
		} else {
			acc.FoundryCounter++
		}
		minted := int64(0)
		if v.arg == 0 || v.arg == 3 {
			minted = 6
		}
		mk := func(s uint32) {
			add(foundry(accID, 2000, s, minted, 0, 12))
			id := foundryID(accID, s)
			if minted > 0 {
				tokens[string(id[:])] = big.NewInt(minted)
			}
		}
		mk(serial)
		if v.arg == 3 {
			acc.FoundryCounter++
			mk(serial + 1)
		}
	case "again":
		k := l.born[v.arg]
		id := []byte(k[1:])
		switch k[0] {
		case 8:
			add(account(iotago.AccountID(id), O, 2000, 0, 0))
		case 16:
			add(nft(iotago.NFTID(id), O, 2000, 0))
		case 24:
			add(anchor(iotago.AnchorID(id), O, O, 2000, 0, 0))
		case 9:
			add(delegation(iotago.DelegationID(id), O, 2000, 2000, gen.AccAddr(0xe1), e.P.Epoch(past)+1, 0))
		case 5:
			var a iotago.AccountID
			copy(a[:], id[1:33])
			s := uint32(id[33]) | uint32(id[34])<<8
			add(foundry(a, 2000, s, 0, 0, 12))
		}
	}
	// deviations on the books
	var manaDev int64
	switch v.dev {
	case "base+1":
		base++
	case "base-1":
		base--
	case "mana+1":
		manaDev = 1
	case "mana-1":
		manaDev = -1
	case "token+1", "token-1", "tokens gone":
		hit := false
		for _, k := range keys36(tokens) {
			if tokens[k].Sign() <= 0 {
				continue
			}
			switch v.dev {
			case "token+1":
				tokens[k] = new(big.Int).Add(tokens[k], big.NewInt(1))
			case "token-1":
				tokens[k] = new(big.Int).Sub(tokens[k], big.NewInt(1))
			default:
				tokens[k] = new(big.Int)
			}
			hit = true
			break
		}
		if !hit {
			return nil, false
		}
	case "foreign token":
		var id iotago.FoundryID
		id[0], id[1] = 8, 0x77
		tokens[string(id[:])] = big.NewInt(1)
	case "dead token":
		hit := false
		for k, m := range l.supply {
			if !m.live && tokens[k] == nil {
				tokens[k] = big.NewInt(1)
				hit = true
			}
		}
		if !hit {
			return nil, false
		}
	}
	for _, k := range keys36(tokens) {
		if tokens[k].Sign() < 0 {
			return nil, false
		}
		if tokens[k].Sign() == 0 {
			continue
		}
		add(basic(O, 1500, 0, fNTb(iotago.FoundryID([]byte(k)), tokens[k])))
	}
	if base < 0 {
		return nil, false
	}
	stx, res := cs.Tx(), cs.Resolved()
	mana, why := e.P.ManaIn(stx, res)
	if why != "" {
		return nil, false
	}
	mana.Add(mana, big.NewInt(manaDev))
	if mana.Sign() < 0 || (base == 0 && len(cs.Outs) == 0) {
		return nil, false
	}
	if v.dev == "allot" {
		if accID == (iotago.AccountID{}) || mana.Cmp(big.NewInt(2)) < 0 {
			return nil, false
		}
		mana.Sub(mana, big.NewInt(2))
		cs.Allot = iotago.Allotments{{AccountID: accID, Mana: 2}}
	}
	if v.dev == "allot from nothing" {
		cs.Allot = iotago.Allotments{{AccountID: gen.AccID(0x31), Mana: 2}}
	}
	if base > 0 {
		cs.Outs = append(cs.Outs, basic(O, uint64(base), mana.Uint64()))
	}
	return cs, true
}

func keys36(m map[string]*big.Int) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

// accepted36 runs the real pipeline only: no rule model takes part in the verdict.
func accepted36(c *core.C, cs *Case) (stx *iotago.SignedTransaction, where string) {
	stx, res := cs.Signed()
	api := cs.E.API
	c.Step(1)
	if _, err := api.Encode(stx, serix.WithValidation()); err != nil {
		return stx, "syntax"
	}
	dec := &iotago.SignedTransaction{API: api}
	c.Step(1)
	if _, err := api.Decode(ref.Enc(stx), dec, serix.WithValidation()); err != nil {
		return stx, "decoding"
	}
	c.Step(2)
	m := nova.NewVirtualMachine()
	addrs, err := m.ValidateUnlocks(dec, res)
	if err != nil {
		return stx, "unlock"
	}
	if _, err := m.Execute(dec.Transaction, res, addrs); err != nil {
		return stx, "execution"
	}
	return stx, ""
}

// apply36 applies an accepted transaction to the ledger and checks the invariants on the result.
func (l *ledger) apply36(c *core.C, e *gen.Env, cs *Case, stx *iotago.SignedTransaction) *ledger {
	n := &ledger{slot: l.slot, menu: l.menu, born: append([]string{}, l.born...), supply: map[string]*money{}, paid: map[string]bool{}}
	spent := map[iotago.OutputID]bool{}
	var ins, outs []iotago.Output
	for _, in := range cs.Ins {
		c.Check(!spent[in.ID], "double spend", "output %s consumed twice by one transaction", in.ID)
		spent[in.ID] = true
		ins = append(ins, in.Out)
	}
	for _, in := range l.utx {
		if !spent[in.ID] {
			n.utx = append(n.utx, in)
		}
	}
	id := ref.TxID(stx.Transaction)
	for i, o := range stx.Transaction.Outputs {
		n.utx = append(n.utx, In{ref.OutputIDOf(id, uint16(i)), o})
		outs = append(outs, o)
	}
	// base tokens
	total := func(us []In) *big.Int {
		s := new(big.Int)
		for _, u := range us {
			s.Add(s, new(big.Int).SetUint64(ref.Amount(u.Out)))
		}
		return s
	}
	b0, b1 := total(l.utx), total(n.utx)
	c.Check(b0.Cmp(b1) == 0, "base tokens", "total base tokens went from %s to %s", b0, b1)
	for _, o := range outs {
		c.Check(e.P.MinDeposit(o).Cmp(new(big.Int).SetUint64(ref.Amount(o))) <= 0, "deposit", "a %T entered the ledger below its storage deposit", o)
	}
	// identities
	seen := map[string]int{}
	known := map[string]bool{}
	before := map[string]bool{}
	for _, k := range l.born {
		known[k] = true
	}
	for _, u := range l.utx {
		before[chain36(u.Out, u.ID)] = true
	}
	for i, u := range n.utx {
		k := chain36(u.Out, u.ID)
		if k == "" {
			continue
		}
		if j, dup := seen[k]; dup {
			c.Fail("identity", "%T %s lives in two unspent outputs (#%d and #%d)", u.Out, hex.EncodeToString([]byte(k[1:])), j, i)
		}
		seen[k] = i
		if known[k] && !before[k] {
			c.Fail("resurrected", "%T %s was gone and lives again", u.Out, hex.EncodeToString([]byte(k[1:])))
		}
		if !known[k] {
			n.born = append(n.born, k)
			known[k] = true
			if i >= len(n.utx)-len(outs) && k[0] != 5 {
				// a new identity must come from the output's own ID
				d := digest32(u.ID)
				c.Check(k[1:] == string(d[:]), "claimed identity", "%T appears with identifier %s, which its output ID does not give", u.Out, hex.EncodeToString([]byte(k[1:])))
			}
		}
	}
	// tokens
	all := func(us []In) (os []iotago.Output) {
		for _, u := range us {
			os = append(os, u.Out)
		}
		return
	}
	c0, c1 := nt36(all(l.utx)), nt36(all(n.utx))
	scheme := map[string]*iotago.SimpleTokenScheme{}
	for _, u := range n.utx {
		if f, ok := u.Out.(*iotago.FoundryOutput); ok {
			fid := ref.FoundryID(f)
			scheme[string(fid[:])] = f.TokenScheme.(*iotago.SimpleTokenScheme)
		}
	}
	zero := func(b *big.Int) *big.Int {
		if b == nil {
			return new(big.Int)
		}
		return b
	}
	for k, m := range l.supply {
		q := *m
		q.live = false
		n.supply[k] = &q
	}
	for k, s := range scheme {
		m := n.supply[k]
		if m == nil {
			m = &money{minted: new(big.Int), melted: new(big.Int), max: s.MaximumSupply, burned: new(big.Int)}
			n.supply[k] = m
		}
		c.Check(s.MintedTokens.Cmp(m.minted) >= 0, "minted shrinks", "minted tokens went from %s to %s", m.minted, s.MintedTokens)
		c.Check(s.MeltedTokens.Cmp(m.melted) >= 0, "melted shrinks", "melted tokens went from %s to %s", m.melted, s.MeltedTokens)
		c.Check(s.MaximumSupply.Cmp(m.max) == 0, "maximum supply", "maximum supply went from %s to %s", m.max, s.MaximumSupply)
		n.supply[k] = &money{minted: s.MintedTokens, melted: s.MeltedTokens, max: m.max, burned: m.burned, live: true}
		d := new(big.Int).Sub(s.MintedTokens, s.MeltedTokens)
		c.Check(d.Sign() >= 0 && d.Cmp(s.MaximumSupply) <= 0, "supply range", "circulating supply %s outside 0..%s", d, s.MaximumSupply)
	}
	ks := map[string]bool{}
	for k := range c0 {
		ks[k] = true
	}
	for k := range c1 {
		ks[k] = true
	}
	for k := range n.supply {
		ks[k] = true
	}
	burnCap := len(stx.Transaction.Capabilities) > 0 && stx.Transaction.Capabilities[0]&(1<<ref.CapBurnNT) != 0
	for k := range ks {
		m := n.supply[k]
		if m == nil {
			c.Fail("unknown token", "token %x circulates without a foundry ever having existed", k)
			continue
		}
		net := new(big.Int).Sub(m.minted, m.melted)
		net.Sub(net, zero(c1[k]))
		burn := new(big.Int).Sub(net, m.burned) // burned by this transaction
		c.Check(burn.Sign() >= 0, "tokens appear", "token %x: circulation %s, minted %s, melted %s, burned before %s", k, zero(c1[k]), m.minted, m.melted, m.burned)
		c.Check(burn.Sign() == 0 || burnCap, "tokens vanish", "token %x: %s tokens lost by a transaction that may not burn", k, burn)
		q := *m
		q.burned = net
		n.supply[k] = &q
	}
	// mana
	in, _ := e.P.ManaIn(stx.Transaction, cs.Resolved())
	out := new(big.Int)
	for _, o := range outs {
		out.Add(out, new(big.Int).SetUint64(ref.StoredMana(o)))
	}
	for _, a := range stx.Transaction.Allotments {
		out.Add(out, new(big.Int).SetUint64(uint64(a.Mana)))
	}
	// the bound is computed output by output, not with the balance rule of the machine
	bound := new(big.Int)
	rewards := map[string]bool{}
	for k := range l.paid {
		n.paid[k] = true
	}
	for i, x := range cs.Ins {
		if k := chain36(x.Out, x.ID); kind36(x.Out) == "delegation" && cs.Rewards[i] > 0 {
			_, lives := seen[k]
			c.Check(!n.paid[k] && !lives, "reward", "a delegation was paid its reward and lives on, or was paid before")
			n.paid[k] = true
		}
		st, _ := e.P.DecaySlots(new(big.Int).SetUint64(ref.StoredMana(x.Out)), uint32(ref.SlotOf(x.ID)), cs.Slot)
		bound.Add(bound, st)
		if g, ok := e.P.Potential(x.Out, uint32(ref.SlotOf(x.ID)), cs.Slot); ok && g != nil {
			bound.Add(bound, g)
		}
		if r, ok := cs.Rewards[i]; ok && !rewards[chain36(x.Out, x.ID)] {
			rewards[chain36(x.Out, x.ID)] = true
			bound.Add(bound, new(big.Int).SetUint64(r))
		}
	}
	c.Check(out.Cmp(bound) <= 0, "mana", "transaction turns %s mana into %s", bound, out)
	_ = in
	return n
}

// key36 canonicalises a ledger: identifiers are replaced by the order in which they came to exist.
func key36(l *ledger) string {
	var lines []string
	rel := func(b []byte) []byte {
		for i, k := range l.born {
			if k[0] == 5 {
				continue
			}
			b = bytes.ReplaceAll(b, []byte(k[1:]), fmt.Appendf(nil, "<%d>", i))
		}
		return b
	}
	for _, u := range l.utx {
		k := chain36(u.Out, u.ID)
		pos := -1
		for i, b := range l.born {
			if b == k {
				pos = i
			}
		}
		lines = append(lines, fmt.Sprintf("%d|%d|%x", pos, uint32(ref.SlotOf(u.ID)), rel(ref.Enc(u.Out))))
	}
	sort.Strings(lines)
	var sup []string
	for k, m := range l.supply {
		sup = append(sup, fmt.Sprintf("%x:%s/%s/%s/%v", rel([]byte(k)), m.minted, m.melted, m.burned, m.live))
	}
	sort.Strings(sup)
	var kinds []byte
	for _, k := range l.born {
		kinds = append(kinds, k[0])
	}
	return fmt.Sprintf("%d %x %s %s", l.slot, kinds, strings.Join(lines, ";"), strings.Join(sup, ";"))
}

func p36(x *core.Ctx) {
	e := gen.NewEnv(ref.Default())
	O := gen.Ed(0)
	x.Assume("every output belongs to one key and is unlocked honestly (who may unlock is P01); the verdict on a transaction is the implementation's alone, the invariants are checked on the ledger it produces")
	x.Assume("tokens of one kind stay below 2^64 here; 256-bit extremes are part of P04 and P26")
	start := func(m *menu36, slot uint32, outs ...iotago.Output) *ledger {
		l := &ledger{slot: slot, menu: m, supply: map[string]*money{}}
		for i, o := range outs {
			l.utx = append(l.utx, In{gen.OutID(byte(0x10+i), slot-3, uint16(i)), o})
			if k := chain36(o, l.utx[i].ID); k != "" {
				l.born = append(l.born, k)
			}
			if f, ok := o.(*iotago.FoundryOutput); ok {
				id := ref.FoundryID(f)
				s := f.TokenScheme.(*iotago.SimpleTokenScheme)
				l.supply[string(id[:])] = &money{minted: s.MintedTokens, melted: s.MeltedTokens, max: s.MaximumSupply, burned: new(big.Int), live: true}
			}
		}
		return l
	}
	acc := gen.AccID(0xaa)
	fid := foundryID(acc, 1)
	books := []string{"base+1", "base-1", "mana+1", "mana-1"}
	type uni struct {
		name    string
		depth   int
		initial []*ledger
		names   []string
	}
	tok := &menu36{create: []string{"foundry", "again", "split"}, deviate: []string{"base+1", "token+1", "token-1", "tokens gone", "foreign token", "dead token"}}
	deep := &menu36{create: []string{"foundry"}, deviate: []string{"tokens gone", "dead token"}}
	ids := &menu36{create: []string{"account", "nft", "anchor", "again"}, deviate: []string{"base+1", "base-1", "mana+1"}}
	del := &menu36{create: []string{"delegation", "again"}, deviate: []string{"mana+1", "mana-1", "base+1"}, waits: []uint32{1, 9}}
	mana := &menu36{create: []string{"split", "implicit", "issuer"}, deviate: append([]string{"allot", "allot from nothing"}, books...), waits: []uint32{1, 8}}
	mix := &menu36{pair: true, create: []string{"account", "nft", "anchor", "foundry", "delegation", "implicit", "again", "split"}, deviate: append([]string{"token+1", "token-1", "tokens gone", "foreign token", "allot"}, books...), waits: []uint32{8}}
	live := func(m *menu36) *ledger {
		return start(m, 20, account(acc, O, 3000, 0, 1), foundry(acc, 3000, 1, 10, 2, 12), basic(O, 3000, 0, fNT(fid, 8)), basic(O, 30000, 20))
	}
	us := []uni{
		{"tokens", core.Pick(x, 2, 3), []*ledger{live(tok), start(tok, 20, account(acc, O, 3000, 0, 0), basic(O, 30000, 20))}, []string{"live foundry", "plain account"}},
		{"tokens deep", core.Pick(x, 3, 4), []*ledger{start(deep, 20, account(acc, O, 3000, 0, 0), basic(O, 30000, 20))}, []string{"plain account"}},
		{"identities", core.Pick(x, 4, 5), []*ledger{start(ids, 20, basic(O, 30000, 20))}, []string{"funds"}},
		{"delegations", core.Pick(x, 5, 7), []*ledger{start(del, 20, basic(O, 30000, 20))}, []string{"funds"}},
		{"mana", core.Pick(x, 4, 5), []*ledger{start(mana, 20, basic(O, 30000, 20), account(acc, O, 3000, 5, 0))}, []string{"funds and account"}},
		{"mixed", core.Pick(x, 1, 2), []*ledger{
			start(mix, 20, account(acc, O, 3000, 0, 1), foundry(acc, 3000, 1, 10, 2, 12), basic(O, 3000, 0, fNT(fid, 8)), basic(O, 30000, 20),
				nft(gen.NFTID(0x91), O, 3000, 3), anchor(gen.AncID(0x92), O, O, 3000, 0, 4), delegation(gen.DelID(0x93), O, 2000, 2000, gen.AccAddr(0xe1), 2, 0), basic(gen.Implicit(0), 3000, 0)),
		}, []string{"one of each"}},
	}
	for _, u := range us {
		core.BFS(x, core.Search[*ledger]{Name: "ledger: " + u.name, Init: u.initial, InitName: u.names, Depth: u.depth,
			Events: func(l *ledger) (int, func(int) string) {
				ev := l.events()
				return len(ev), func(i int) string { return ev[i].String() }
			},
			Key: key36,
			Apply: func(l *ledger, i int, c *core.C) (*ledger, bool) {
				v := l.events()[i]
				if v.wait > 0 {
					n := &ledger{utx: l.utx, slot: l.slot + v.wait, born: l.born, supply: l.supply, paid: l.paid, menu: l.menu}
					return n, n.slot < 60
				}
				cs, ok := l.build(e, v)
				if !ok {
					c.Skip()
					return l, false
				}
				stx, where := accepted36(c, cs)
				if where != "" {
					c.Outcome("refused: " + where)
					return l, false
				}
				c.Validated()
				c.Outcome("accepted")
				c.Note("%s", v)
				return l.apply36(c, e, cs, stx), true
			},
		})
	}
}
