package ref

import (
	"bytes"
	"crypto/ed25519"
	"math/big"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
)

// Unlocked is one unlocked address.
type Unlocked struct {
	At   int
	Refs map[int]bool
}

// UnlockState is the result of the unlock rules.
type UnlockState struct {
	ByAddr map[string]*Unlocked
	sigs   map[int]*iotago.Ed25519Signature
	signed map[int]*Unlocked // the address whose signature was given at an index
}

// Has tells whether the address (restrictions stripped) is unlocked.
func (u *UnlockState) Has(a iotago.Address) bool {
	_, ok := u.ByAddr[AddrKey(Underlying(a))]
	return ok
}

func (u *UnlockState) unlockedBy(i int, a iotago.Address) bool {
	x, ok := u.ByAddr[AddrKey(a)]
	return ok && (x.At == i || x.Refs[i])
}

// InputIDs of a transaction.
func InputIDs(tx *iotago.Transaction) []iotago.OutputID {
	out := make([]iotago.OutputID, len(tx.TransactionEssence.Inputs))
	for i, in := range tx.TransactionEssence.Inputs {
		u := in.(*iotago.UTXOInput)
		out[i] = OutputIDOf(u.TransactionID, u.TransactionOutputIndex)
	}
	return out
}

// ChainIDOf returns the typed chain identifier of a chain output carrying output ID oid, ok=false for non chain outputs.
func ChainIDOf(o iotago.Output, oid iotago.OutputID) (iotago.ChainID, bool) {
	d := Blake(oid[:])
	switch x := o.(type) {
	case *iotago.AccountOutput:
		if x.AccountID == (iotago.AccountID{}) {
			return iotago.AccountID(d), true
		}
		return x.AccountID, true
	case *iotago.AnchorOutput:
		if x.AnchorID == (iotago.AnchorID{}) {
			return iotago.AnchorID(d), true
		}
		return x.AnchorID, true
	case *iotago.NFTOutput:
		if x.NFTID == (iotago.NFTID{}) {
			return iotago.NFTID(d), true
		}
		return x.NFTID, true
	case *iotago.DelegationOutput:
		if x.DelegationID == (iotago.DelegationID{}) {
			return iotago.DelegationID(d), true
		}
		return x.DelegationID, true
	case *iotago.FoundryOutput:
		return FoundryID(x), true
	}
	return nil, false
}

func outChains(tx *iotago.Transaction) map[iotago.ChainID]iotago.Output {
	id := TxID(tx)
	m := map[iotago.ChainID]iotago.Output{}
	for i, o := range tx.Outputs {
		if c, ok := ChainIDOf(o, OutputIDOf(id, uint16(i))); ok {
			m[c] = o
		}
	}
	return m
}

func pkh(pub []byte) []byte { return Blake(pub) }

func sigMatches(s *iotago.Ed25519Signature, a iotago.Address) bool {
	h := pkh(s.PublicKey[:])
	switch x := a.(type) {
	case *iotago.Ed25519Address:
		return bytes.Equal(h, x[:])
	case *iotago.ImplicitAccountCreationAddress:
		return bytes.Equal(h, x[:])
	}
	return false
}

// Unlock runs the unlock rules. The reason is empty iff all inputs are unlocked by the entitled party.
func (p *Params) Unlock(stx *iotago.SignedTransaction, res vm.ResolvedInputs) (*UnlockState, string) {
	tx := stx.Transaction
	st := &UnlockState{ByAddr: map[string]*Unlocked{}, sigs: map[int]*iotago.Ed25519Signature{}, signed: map[int]*Unlocked{}}
	msg := SigMsg(tx)
	outs := outChains(tx)
	for i, oid := range InputIDs(tx) {
		in := res.InputSet[oid]
		owner, why := p.entitled(in, oid, outs, res)
		if why != "" {
			return nil, why
		}
		if why := st.unlock(Underlying(owner), stx.Unlocks[i], i, msg, false); why != "" {
			return nil, why
		}
		if cid, ok := ChainIDOf(in, oid); ok {
			var a iotago.Address
			switch id := cid.(type) {
			case iotago.AccountID:
				x := iotago.AccountAddress(id)
				a = &x
			case iotago.NFTID:
				x := iotago.NFTAddress(id)
				a = &x
			case iotago.AnchorID:
				cur := in.(*iotago.AnchorOutput)
				nx, ok := outs[cid].(*iotago.AnchorOutput)
				if ok && uint64(nx.StateIndex) == uint64(cur.StateIndex)+1 {
					x := iotago.AnchorAddress(id)
					a = &x
				}
			}
			if a != nil {
				st.ByAddr[AddrKey(a)] = &Unlocked{At: i, Refs: map[int]bool{}}
			}
		}
	}
	return st, ""
}

// entitled resolves who must unlock an input.
func (p *Params) entitled(in iotago.Output, oid iotago.OutputID, outs map[iotago.ChainID]iotago.Output, res vm.ResolvedInputs) (iotago.Address, string) {
	var owner iotago.Address
	switch x := in.(type) {
	case *iotago.FoundryOutput:
		owner = pickUC[*iotago.ImmutableAccountUnlockCondition](x).Address
	case *iotago.AnchorOutput:
		cid, _ := ChainIDOf(x, oid)
		nx := outs[cid]
		gov := pickUC[*iotago.GovernorAddressUnlockCondition](x).Address
		if nx == nil {
			owner = gov
		} else {
			n, ok := nx.(*iotago.AnchorOutput)
			if !ok {
				return nil, "anchor next of other kind"
			}
			switch {
			case n.StateIndex == x.StateIndex:
				owner = gov
			case uint64(n.StateIndex) == uint64(x.StateIndex)+1:
				owner = pickUC[*iotago.StateControllerAddressUnlockCondition](x).Address
			default:
				return nil, "anchor state index"
			}
		}
	default:
		owner = pickUC[*iotago.AddressUnlockCondition](in).Address
	}
	if e := pickUC[*iotago.ExpirationUnlockCondition](in); e != nil {
		if res.CommitmentInput == nil {
			return nil, "expiration without commitment"
		}
		c := uint64(res.CommitmentInput.Slot)
		switch {
		case c+uint64(p.MinCA) >= uint64(e.Slot):
			owner = e.ReturnAddress
		case c+uint64(p.MaxCA) < uint64(e.Slot):
		default:
			return nil, "expiration undecided"
		}
	}
	return owner, ""
}

func (st *UnlockState) unlock(owner iotago.Address, u iotago.Unlock, i int, msg []byte, checkOnly bool) string {
	key := AddrKey(owner)
	chain := func(ref uint16) string {
		x, ok := st.ByAddr[key]
		if !ok || x.At != int(ref) {
			return "chain not unlocked there"
		}
		if !checkOnly {
			x.Refs[i] = true
		}
		return ""
	}
	switch o := owner.(type) {
	case *iotago.AccountAddress:
		if x, ok := u.(*iotago.AccountUnlock); ok {
			return chain(x.Reference)
		}
		return "account address needs account unlock"
	case *iotago.AnchorAddress:
		if x, ok := u.(*iotago.AnchorUnlock); ok {
			return chain(x.Reference)
		}
		return "anchor address needs anchor unlock"
	case *iotago.NFTAddress:
		if x, ok := u.(*iotago.NFTUnlock); ok {
			return chain(x.Reference)
		}
		return "nft address needs nft unlock"
	case *iotago.Ed25519Address, *iotago.ImplicitAccountCreationAddress:
		switch x := u.(type) {
		case *iotago.SignatureUnlock:
			if _, ok := st.ByAddr[key]; ok {
				return "already unlocked"
			}
			s := x.Signature.(*iotago.Ed25519Signature)
			if !sigMatches(s, o) || !ed25519.Verify(s.PublicKey[:], msg, s.Signature[:]) {
				return "bad signature"
			}
			if !checkOnly {
				st.sigs[i] = s
				st.signed[i] = &Unlocked{At: i, Refs: map[int]bool{}}
				st.ByAddr[key] = st.signed[i]
			}
			return ""
		case *iotago.ReferenceUnlock:
			s, ok := st.sigs[int(x.Reference)]
			if !ok {
				return "reference to non signature"
			}
			if !sigMatches(s, o) {
				return "reference to other key"
			}
			if !checkOnly {
				// the address that was signed for at the referenced index is referenced by this input
				st.signed[int(x.Reference)].Refs[i] = true
				if _, ok := st.ByAddr[key]; !ok {
					st.ByAddr[key] = &Unlocked{At: i, Refs: map[int]bool{}}
				}
			}
			return ""
		}
		return "direct address needs signature or reference"
	case *iotago.MultiAddress:
		switch x := u.(type) {
		case *iotago.ReferenceUnlock:
			return chain(x.Reference)
		case *iotago.MultiUnlock:
			if _, ok := st.ByAddr[key]; ok {
				return "already unlocked"
			}
			if len(x.Unlocks) != len(o.Addresses) {
				return "multi length"
			}
			w := 0
			for k, su := range x.Unlocks {
				switch su.(type) {
				case *iotago.EmptyUnlock:
					continue
				case *iotago.MultiUnlock:
					return "nested multi"
				}
				if why := st.unlock(o.Addresses[k].Address, su, i, msg, true); why != "" {
					return "multi member: " + why
				}
				w += int(o.Addresses[k].Weight)
			}
			if w < int(o.Threshold) {
				return "multi threshold"
			}
			st.ByAddr[key] = &Unlocked{At: i, Refs: map[int]bool{}}
			return ""
		}
		return "multi address needs multi unlock or reference"
	}
	return "unknown owner"
}

// ---- execution ------------------------------------------------------------

type chainIn struct {
	id  iotago.ChainID
	oid iotago.OutputID
	out iotago.Output
	imp bool // implicit account
}

// Unspecified marks verdicts the specification leaves open.
const Unspecified = "?"

func capSet(tx *iotago.Transaction, bit uint) bool {
	b := tx.TransactionEssence.Capabilities
	return len(b) > int(bit/8) && b[bit/8]>>(bit%8)&1 == 1
}

// capability bits of a transaction.
const (
	CapBurnNT = iota
	CapBurnMana
	CapDestroyAccount
	CapDestroyAnchor
	CapDestroyFoundry
	CapDestroyNFT
)

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

type exec struct {
	p       *Params
	tx      *iotago.Transaction
	res     vm.ResolvedInputs
	un      *UnlockState
	ids     []iotago.OutputID
	in      map[iotago.ChainID]*chainIn
	out     map[iotago.ChainID]iotago.Output
	outList []iotago.ChainID // parallel to tx.Outputs, nil for non-chains
	manaIn  *big.Int
	manaOut *big.Int
	inNT    map[iotago.FoundryID]*big.Int
	outNT   map[iotago.FoundryID]*big.Int
}

// IsImplicit tells whether an output is an implicit account.
func IsImplicit(o iotago.Output) bool {
	b, ok := o.(*iotago.BasicOutput)
	if !ok {
		return false
	}
	a := pickUC[*iotago.AddressUnlockCondition](b)
	if a == nil {
		return false
	}
	_, ok = a.Address.(*iotago.ImplicitAccountCreationAddress)
	return ok
}

// ManaIn is the total mana available on the input side (nil if undefined or beyond 64 bits).
func (p *Params) ManaIn(tx *iotago.Transaction, res vm.ResolvedInputs) (*big.Int, string) {
	t := new(big.Int)
	to := uint32(tx.TransactionEssence.CreationSlot)
	for _, oid := range InputIDs(tx) {
		o := res.InputSet[oid]
		from := uint32(SlotOf(oid))
		s, ok := p.DecaySlots(bu(StoredMana(o)), from, to)
		if !ok || from > to {
			return nil, "input created after the transaction"
		}
		t.Add(t, s)
		g, ok := p.Potential(o, from, to)
		if !ok {
			return nil, "potential mana undefined"
		}
		t.Add(t, g)
	}
	for _, r := range res.RewardsInputSet {
		t.Add(t, bu(uint64(r)))
	}
	if t.Cmp(two64) >= 0 {
		return nil, "mana in overflow"
	}
	return t, ""
}

// ManaOut is stored plus allotted mana.
func ManaOut(tx *iotago.Transaction) *big.Int {
	t := new(big.Int)
	for _, o := range tx.Outputs {
		t.Add(t, bu(StoredMana(o)))
	}
	for _, a := range tx.TransactionEssence.Allotments {
		t.Add(t, bu(uint64(a.Mana)))
	}
	return t
}

func ntSum(os []iotago.Output) (map[iotago.FoundryID]*big.Int, bool) {
	m := map[iotago.FoundryID]*big.Int{}
	for _, o := range os {
		if f := pickF[*iotago.NativeTokenFeature](MutFeats(o)); f != nil {
			if m[f.ID] == nil {
				m[f.ID] = new(big.Int)
			}
			m[f.ID].Add(m[f.ID], f.Amount)
			if m[f.ID].BitLen() > 256 {
				return nil, false
			}
		}
	}
	return m, true
}

func z(b *big.Int) *big.Int {
	if b == nil {
		return new(big.Int)
	}
	return b
}

// Execute runs the execution rules; empty reason iff the transaction is accepted.
func (p *Params) Execute(tx *iotago.Transaction, res vm.ResolvedInputs, un *UnlockState) string {
	e := &exec{p: p, tx: tx, res: res, un: un, ids: InputIDs(tx), in: map[iotago.ChainID]*chainIn{}, out: map[iotago.ChainID]iotago.Output{}}
	id := TxID(tx)
	for i, o := range tx.Outputs {
		c, ok := ChainIDOf(o, OutputIDOf(id, uint16(i)))
		e.outList = append(e.outList, c)
		if ok {
			e.out[c] = o
		}
	}
	var insO, outsO []iotago.Output
	implicit := 0
	for _, oid := range e.ids {
		o := res.InputSet[oid]
		insO = append(insO, o)
		if IsImplicit(o) {
			implicit++
			c := iotago.AccountID(Blake(oid[:]))
			e.in[c] = &chainIn{c, oid, o, true}
		} else if c, ok := ChainIDOf(o, oid); ok {
			e.in[c] = &chainIn{c, oid, o, false}
		}
	}
	for _, o := range tx.Outputs {
		outsO = append(outsO, o)
	}
	var why string
	if e.manaIn, why = p.ManaIn(tx, res); why != "" {
		return why
	}
	e.manaOut = ManaOut(tx)
	if e.manaOut.Cmp(two64) >= 0 {
		return "mana out overflow"
	}
	open := false
	for _, f := range []func() string{
		e.timelocks, e.senders, e.baseTokens,
		func() string {
			var ok bool
			if e.inNT, ok = ntSum(insO); !ok {
				return "token sum overflow"
			}
			if e.outNT, ok = ntSum(outsO); !ok {
				return "token sum overflow"
			}
			return e.nativeTokens()
		},
		e.chains,
		func() string {
			switch e.manaIn.Cmp(e.manaOut) {
			case -1:
				return "mana created"
			case 1:
				if !capSet(tx, CapBurnMana) {
					return "mana burned without capability"
				}
			}
			return ""
		},
		func() string {
			if implicit > 1 {
				return "more than one implicit account"
			}
			return ""
		},
	} {
		w := f()
		if w == Unspecified {
			open = true
		} else if w != "" {
			return w
		}
	}
	if open {
		return Unspecified
	}
	return ""
}

func (e *exec) commitment() (uint64, bool) {
	if e.res.CommitmentInput == nil {
		return 0, false
	}
	return uint64(e.res.CommitmentInput.Slot), true
}

func (e *exec) past() uint64   { c, _ := e.commitment(); return c + uint64(e.p.MaxCA) }
func (e *exec) future() uint64 { c, _ := e.commitment(); return c + uint64(e.p.MinCA) }

func (e *exec) timelocks() string {
	for _, oid := range e.ids {
		if t := pickUC[*iotago.TimelockUnlockCondition](e.res.InputSet[oid]); t != nil {
			if _, ok := e.commitment(); !ok {
				return "timelock without commitment"
			}
			if e.future() < uint64(t.Slot) {
				return "timelocked"
			}
		}
	}
	return ""
}

func (e *exec) senders() string {
	for _, o := range e.tx.Outputs {
		if s := pickF[*iotago.SenderFeature](MutFeats(o)); s != nil && !e.un.Has(s.Address) {
			return "sender not unlocked"
		}
	}
	return ""
}

func (e *exec) baseTokens() string {
	in, out := new(big.Int), new(big.Int)
	owed := map[string]*big.Int{}
	lenient := map[string]*big.Int{} // amounts that may or may not be owed (restricted return address that unlocked the input itself)
	for i, oid := range e.ids {
		o := e.res.InputSet[oid]
		in.Add(in, bu(Amount(o)))
		r := pickUC[*iotago.StorageDepositReturnUnlockCondition](o)
		if r == nil || e.un.unlockedBy(i, r.ReturnAddress) {
			continue
		}
		k := AddrKey(r.ReturnAddress)
		if _, isR := r.ReturnAddress.(*iotago.RestrictedAddress); isR && e.un.unlockedBy(i, Underlying(r.ReturnAddress)) {
			lenient[k] = sum(z(lenient[k]), bu(uint64(r.Amount)))
			continue
		}
		owed[k] = sum(z(owed[k]), bu(uint64(r.Amount)))
	}
	paid := map[string]*big.Int{}
	for _, o := range e.tx.Outputs {
		out.Add(out, bu(Amount(o)))
		if b, ok := o.(*iotago.BasicOutput); ok && len(b.Features) == 0 && len(b.UnlockConditions) == 1 {
			if a, ok := b.UnlockConditions[0].(*iotago.AddressUnlockCondition); ok {
				paid[AddrKey(a.Address)] = sum(z(paid[AddrKey(a.Address)]), bu(uint64(b.Amount)))
			}
		}
	}
	if in.Cmp(out) != 0 {
		return "base tokens unbalanced"
	}
	for k, v := range owed {
		if z(paid[k]).Cmp(v) < 0 {
			return "storage deposit not returned"
		}
	}
	for k, v := range lenient {
		if z(paid[k]).Cmp(sum(v, z(owed[k]))) < 0 {
			return Unspecified
		}
	}
	return ""
}

func (e *exec) nativeTokens() string {
	for id, in := range e.inNT {
		if _, ok := e.out[id]; ok {
			continue
		}
		c := in.Cmp(z(e.outNT[id]))
		if c < 0 {
			return "tokens created without foundry"
		}
		if c > 0 && !capSet(e.tx, CapBurnNT) {
			return "tokens burned without capability"
		}
	}
	for id := range e.outNT {
		if _, ok := e.out[id]; ok {
			continue
		}
		if e.inNT[id] == nil {
			return "tokens appear without foundry"
		}
	}
	return ""
}

func (e *exec) chains() string {
	for id, c := range e.in {
		if w := e.chain(c, id, e.out[id]); w != "" {
			return w
		}
	}
	for i, id := range e.outList {
		if id == nil {
			continue
		}
		if _, ok := e.in[id]; ok {
			continue
		}
		if w := e.genesis(i, id, e.tx.Outputs[i]); w != "" {
			return w
		}
	}
	return ""
}

func (e *exec) issuer(o iotago.Output) string {
	if f := pickF[*iotago.IssuerFeature](ImmFeats(o)); f != nil && !e.un.Has(f.Address) {
		return "issuer not unlocked"
	}
	return ""
}

func (e *exec) stakingGenesis(s *iotago.StakingFeature) string {
	if _, ok := e.commitment(); !ok {
		return "staking without commitment"
	}
	ep := e.p.epoch64(e.past())
	if uint64(s.StartEpoch) != ep {
		return "staking start epoch"
	}
	if uint64(s.EndEpoch) < ep+uint64(e.p.Unbonding) {
		return "staking end epoch"
	}
	return ""
}

func (p *Params) epoch64(slot uint64) uint64 {
	if slot <= uint64(p.GenesisSlot) {
		return 0
	}
	return (slot - uint64(p.GenesisSlot)) >> p.EpochExp
}

func (e *exec) accountCreated(a *iotago.AccountOutput) string {
	if b := pickF[*iotago.BlockIssuerFeature](MutFeats(a)); b != nil {
		if _, ok := e.commitment(); !ok {
			return "block issuer without commitment"
		}
		if uint64(b.ExpirySlot) < e.past() {
			return "block issuer expiry too early"
		}
	}
	if s := pickF[*iotago.StakingFeature](MutFeats(a)); s != nil {
		if w := e.stakingGenesis(s); w != "" {
			return w
		}
	}
	return e.issuer(a)
}

// startEpoch is the first epoch a delegation created now can count for.
func (e *exec) registered(slot uint64) (epoch uint64, beforeRegistration bool) {
	ep := e.p.epoch64(slot)
	end := uint64(e.p.GenesisSlot) + (ep+1)<<e.p.EpochExp - 1
	return ep, slot <= end-uint64(e.p.Nearing)
}

func (e *exec) genesis(idx int, id iotago.ChainID, o iotago.Output) string {
	switch x := o.(type) {
	case *iotago.AccountOutput:
		if x.AccountID != (iotago.AccountID{}) {
			return "unknown account"
		}
		return e.accountCreated(x)
	case *iotago.AnchorOutput:
		if x.AnchorID != (iotago.AnchorID{}) {
			return "unknown anchor"
		}
		return e.issuer(x)
	case *iotago.NFTOutput:
		if x.NFTID != (iotago.NFTID{}) {
			return "unknown nft"
		}
		return e.issuer(x)
	case *iotago.DelegationOutput:
		if x.DelegationID != (iotago.DelegationID{}) {
			return "unknown delegation"
		}
		if _, ok := e.commitment(); !ok {
			return "delegation without commitment"
		}
		ep, before := e.registered(e.past())
		want := ep + 2
		if before {
			want = ep + 1
		}
		if uint64(x.StartEpoch) != want {
			return "delegation start epoch"
		}
		if x.DelegatedAmount != x.Amount {
			return "delegated amount"
		}
		if x.EndEpoch != 0 {
			return "delegation end epoch"
		}
		return ""
	case *iotago.FoundryOutput:
		ts := x.TokenScheme.(*iotago.SimpleTokenScheme)
		fid := id.(iotago.FoundryID)
		if ts.MeltedTokens.Sign() != 0 {
			return "foundry melted at genesis"
		}
		if ts.MintedTokens.Cmp(z(e.outNT[fid])) != 0 {
			return "foundry minted at genesis"
		}
		accID := iotago.AccountID(*pickUC[*iotago.ImmutableAccountUnlockCondition](x).Address)
		ai := e.in[accID]
		if ai == nil || ai.imp {
			return "foundry without input account"
		}
		ao, ok := e.out[accID].(*iotago.AccountOutput)
		if !ok {
			return "foundry without output account"
		}
		if x.SerialNumber <= ai.out.(*iotago.AccountOutput).FoundryCounter || x.SerialNumber > ao.FoundryCounter {
			return "foundry serial out of range"
		}
		for j := 0; j < idx; j++ {
			y, ok := e.tx.Outputs[j].(*iotago.FoundryOutput)
			if !ok || *pickUC[*iotago.ImmutableAccountUnlockCondition](y).Address != *pickUC[*iotago.ImmutableAccountUnlockCondition](x).Address {
				continue
			}
			if _, old := e.in[FoundryID(y)]; old {
				continue
			}
			if y.SerialNumber >= x.SerialNumber {
				return "foundry serial order"
			}
		}
		return ""
	}
	return ""
}

func sameFeats(a, b []iotago.Feature) bool { return bytes.Equal(list8(a), list8(b)) }

func encF(f iotago.Feature) string {
	if f == nil {
		return ""
	}
	return string(Enc(f))
}

func (e *exec) reward(id iotago.ChainID) bool {
	_, ok := e.res.RewardsInputSet[id]
	return ok
}

func (e *exec) chain(c *chainIn, id iotago.ChainID, next iotago.Output) string {
	if c.imp {
		if next == nil {
			return "implicit account destroyed"
		}
		n, ok := next.(*iotago.AccountOutput)
		if !ok {
			return "implicit account to other kind"
		}
		if w := e.bic(id); w != "" {
			return w
		}
		if w := e.blockIssuer(c, id, &iotago.BlockIssuerFeature{ExpirySlot: 1<<32 - 1}, n); w != "" {
			return w
		}
		if n.FoundryCounter != 0 {
			return "implicit account with foundry counter"
		}
		return e.accountCreated(n)
	}
	switch cur := c.out.(type) {
	case *iotago.AccountOutput:
		removing := false
		if next == nil {
			if w := e.destroyAccount(c, id, cur, &removing); w != "" {
				return w
			}
		} else {
			n, ok := next.(*iotago.AccountOutput)
			if !ok {
				return "account to other kind"
			}
			if w := e.account(c, id, cur, n, &removing); w != "" {
				return w
			}
		}
		if e.reward(id) != removing {
			return "staking reward claim mismatch"
		}
		return ""
	case *iotago.AnchorOutput:
		if next == nil {
			if !capSet(e.tx, CapDestroyAnchor) {
				return "anchor destruction capability"
			}
			return ""
		}
		n, ok := next.(*iotago.AnchorOutput)
		if !ok {
			return "anchor to other kind"
		}
		if !sameFeats(ImmFeats(cur), ImmFeats(n)) {
			return "immutable features changed"
		}
		if cur.StateIndex == n.StateIndex {
			if cur.Amount != n.Amount {
				return "governance transition changes amount"
			}
			if enc0(pickF[*iotago.StateMetadataFeature](MutFeats(cur))) != enc0(pickF[*iotago.StateMetadataFeature](MutFeats(n))) {
				return "governance transition changes state metadata"
			}
			return ""
		}
		if AddrKey(pickUC[*iotago.StateControllerAddressUnlockCondition](cur).Address) != AddrKey(pickUC[*iotago.StateControllerAddressUnlockCondition](n).Address) ||
			AddrKey(pickUC[*iotago.GovernorAddressUnlockCondition](cur).Address) != AddrKey(pickUC[*iotago.GovernorAddressUnlockCondition](n).Address) {
			return "state transition changes controllers"
		}
		if uint64(cur.StateIndex)+1 != uint64(n.StateIndex) {
			return "state index"
		}
		if enc0(pickF[*iotago.MetadataFeature](MutFeats(cur))) != enc0(pickF[*iotago.MetadataFeature](MutFeats(n))) {
			return "state transition changes metadata"
		}
		return ""
	case *iotago.NFTOutput:
		if next == nil {
			if !capSet(e.tx, CapDestroyNFT) {
				return "nft destruction capability"
			}
			return ""
		}
		n, ok := next.(*iotago.NFTOutput)
		if !ok {
			return "nft to other kind"
		}
		if !sameFeats(ImmFeats(cur), ImmFeats(n)) {
			return "immutable features changed"
		}
		return ""
	case *iotago.FoundryOutput:
		fid := id.(iotago.FoundryID)
		in, out := z(e.inNT[fid]), z(e.outNT[fid])
		s := cur.TokenScheme.(*iotago.SimpleTokenScheme)
		if next == nil {
			if !capSet(e.tx, CapDestroyFoundry) {
				return "foundry destruction capability"
			}
			// minted + out - in == melted
			if sum(s.MintedTokens, out).Cmp(sum(s.MeltedTokens, in)) != 0 {
				return "foundry destroyed with circulation"
			}
			return ""
		}
		n := next.(*iotago.FoundryOutput)
		if !sameFeats(ImmFeats(cur), ImmFeats(n)) {
			return "immutable features changed"
		}
		t := n.TokenScheme.(*iotago.SimpleTokenScheme)
		if s.MaximumSupply.Cmp(t.MaximumSupply) != 0 {
			return "maximum supply changed"
		}
		dm, dl := new(big.Int).Sub(t.MintedTokens, s.MintedTokens), new(big.Int).Sub(t.MeltedTokens, s.MeltedTokens)
		if dm.Sign() < 0 || dl.Sign() < 0 {
			return "minted/melted decreased"
		}
		d := new(big.Int).Sub(out, in)
		wantM, wantL := new(big.Int), new(big.Int)
		if d.Sign() > 0 {
			wantM = d
		} else {
			wantL.Neg(d)
		}
		if dm.Cmp(wantM) != 0 || dl.Cmp(wantL) != 0 {
			return "minted/melted not matching the token change"
		}
		return ""
	case *iotago.DelegationOutput:
		if next == nil {
			if !e.reward(id) {
				return "delegation destroyed without reward claim"
			}
			return ""
		}
		n, ok := next.(*iotago.DelegationOutput)
		if !ok {
			return "delegation to other kind"
		}
		if e.reward(id) {
			return "reward claimed on transition"
		}
		if cur.DelegationID != (iotago.DelegationID{}) {
			return "delegation transitioned twice"
		}
		if cur.DelegatedAmount != n.DelegatedAmount || *cur.ValidatorAddress != *n.ValidatorAddress || cur.StartEpoch != n.StartEpoch {
			return "delegation modified"
		}
		if _, ok := e.commitment(); !ok {
			return "delegation without commitment"
		}
		ep, before := e.registered(e.future())
		want := ep + 1
		if before {
			want = ep
		}
		if uint64(n.EndEpoch) != want {
			return "delegation end epoch"
		}
		return ""
	}
	return "unknown chain"
}

func enc0[T any](f *T) string {
	if f == nil {
		return ""
	}
	return string(Enc(any(f)))
}

func (e *exec) bic(id iotago.ChainID) string {
	acc, ok := id.(iotago.AccountID)
	if !ok {
		return "credit missing"
	}
	b, ok := e.res.BlockIssuanceCreditInputSet[acc]
	if !ok {
		return "credit missing"
	}
	if b < 0 {
		return "account locked"
	}
	return ""
}

func (e *exec) destroyAccount(c *chainIn, id iotago.ChainID, cur *iotago.AccountOutput, removing *bool) string {
	if !capSet(e.tx, CapDestroyAccount) {
		return "account destruction capability"
	}
	if b := pickF[*iotago.BlockIssuerFeature](MutFeats(cur)); b != nil {
		cs, ok := e.commitment()
		if !ok {
			return "block issuer without commitment"
		}
		if uint64(b.ExpirySlot) >= cs {
			return "block issuer not expired"
		}
		if w := e.bic(id); w != "" {
			return w
		}
	}
	if s := pickF[*iotago.StakingFeature](MutFeats(cur)); s != nil {
		if _, ok := e.commitment(); !ok {
			return "staking without commitment"
		}
		if e.p.epoch64(e.future()) <= uint64(s.EndEpoch) {
			return "staking not expired"
		}
		*removing = true
	}
	return ""
}

func (e *exec) account(c *chainIn, id iotago.ChainID, cur, n *iotago.AccountOutput, removing *bool) string {
	if !sameFeats(ImmFeats(cur), ImmFeats(n)) {
		return "immutable features changed"
	}
	cb := pickF[*iotago.BlockIssuerFeature](MutFeats(cur))
	if cb != nil {
		if w := e.bic(id); w != "" {
			return w
		}
	}
	cs, ns := pickF[*iotago.StakingFeature](MutFeats(cur)), pickF[*iotago.StakingFeature](MutFeats(n))
	if cs != nil {
		if _, ok := e.commitment(); !ok {
			return "staking without commitment"
		}
		if e.p.epoch64(e.future()) <= uint64(cs.EndEpoch) {
			if ns == nil {
				return "staking removed too early"
			}
			if cs.StakedAmount != ns.StakedAmount || cs.FixedCost != ns.FixedCost || cs.StartEpoch != ns.StartEpoch {
				return "staking modified"
			}
			if cs.EndEpoch != ns.EndEpoch && uint64(ns.EndEpoch) < e.p.epoch64(e.past())+uint64(e.p.Unbonding) {
				return "staking end epoch"
			}
		} else if ns == nil {
			*removing = true
		} else if *cs != *ns {
			if w := e.stakingGenesis(ns); w != "" {
				return w
			}
			*removing = true
		}
	} else if ns != nil {
		if w := e.stakingGenesis(ns); w != "" {
			return w
		}
	}
	if n.FoundryCounter < cur.FoundryCounter {
		return "foundry counter decreased"
	}
	fresh := uint32(0)
	for i, fid := range e.outList {
		f, ok := e.tx.Outputs[i].(*iotago.FoundryOutput)
		if !ok {
			continue
		}
		if _, old := e.in[fid]; old {
			continue
		}
		if iotago.AccountID(*pickUC[*iotago.ImmutableAccountUnlockCondition](f).Address) == id.(iotago.AccountID) {
			fresh++
		}
	}
	if n.FoundryCounter-cur.FoundryCounter != fresh {
		return "foundry counter"
	}
	return e.blockIssuer(c, id, cb, n)
}

func (e *exec) blockIssuer(c *chainIn, id iotago.ChainID, cb *iotago.BlockIssuerFeature, n *iotago.AccountOutput) string {
	nb := pickF[*iotago.BlockIssuerFeature](MutFeats(n))
	if cb == nil && nb == nil {
		return ""
	}
	cs, ok := e.commitment()
	if !ok {
		return "block issuer without commitment"
	}
	if cb != nil && uint64(cb.ExpirySlot) >= cs {
		if nb == nil {
			return "block issuer not expired"
		}
		if nb.ExpirySlot != cb.ExpirySlot && uint64(nb.ExpirySlot) < e.past() {
			return "block issuer expiry too early"
		}
	} else if nb != nil && uint64(nb.ExpirySlot) < e.past() {
		return "block issuer expiry too early"
	}
	// mana bound to the account must stay bound
	from, to := uint32(SlotOf(c.oid)), uint32(e.tx.TransactionEssence.CreationSlot)
	own, ok := e.p.DecaySlots(bu(StoredMana(c.out)), from, to)
	if !ok {
		return "mana undefined"
	}
	pot, ok := e.p.Potential(c.out, from, to)
	if !ok {
		return "mana undefined"
	}
	foreignIn := new(big.Int).Sub(e.manaIn, sum(own, pot))
	bound := bu(uint64(n.Mana))
	for _, a := range e.tx.TransactionEssence.Allotments {
		if a.AccountID == n.AccountID {
			bound.Add(bound, bu(uint64(a.Mana)))
		}
	}
	for _, o := range e.tx.Outputs {
		t := pickUC[*iotago.TimelockUnlockCondition](o)
		a := pickUC[*iotago.AddressUnlockCondition](o)
		if t == nil || a == nil || uint64(t.Slot) <= e.past()+uint64(e.p.MaxCA) {
			continue
		}
		if x, ok := a.Address.(*iotago.AccountAddress); ok && iotago.AccountID(*x) == n.AccountID {
			bound.Add(bound, bu(StoredMana(o)))
		}
	}
	if foreignIn.Cmp(new(big.Int).Sub(e.manaOut, bound)) < 0 {
		return "mana moved off the account"
	}
	return ""
}

// Owner is the address that must unlock an input (restrictions kept), "" reason if decided.
func (p *Params) Owner(tx *iotago.Transaction, in iotago.Output, oid iotago.OutputID, res vm.ResolvedInputs) (iotago.Address, string) {
	return p.entitled(in, oid, outChains(tx), res)
}
