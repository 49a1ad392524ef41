package ref

import (
	"bytes"
	"crypto/ed25519"
	"math/big"

	iotago "github.com/iotaledger/iota.go/v4"
)

var _ = ed25519.PublicKeySize

// ---- structural (encoding level) rules --------------------------------------------------------

// Limits of the wire format.
const (
	MaxBlockBytes  = 32768
	MaxMetadata    = 8192
	MaxTag         = 64
	MaxTaggedData  = 8192
	MaxListEntries = 128
	MaxBIKeys      = 128
)

func bitmaskOK(b []byte, max int) string {
	if len(b) > max {
		return "bitmask too long"
	}
	if len(b) > 0 && b[len(b)-1] == 0 {
		return "bitmask trailing zero"
	}
	return ""
}

// SyntaxAddr is the well-formedness of an address.
func SyntaxAddr(a iotago.Address) string {
	switch x := a.(type) {
	case *iotago.MultiAddress:
		if len(x.Addresses) < 2 || len(x.Addresses) > 10 {
			return "multi address count"
		}
		w := 0
		for i, m := range x.Addresses {
			switch m.Address.(type) {
			case *iotago.Ed25519Address, *iotago.AccountAddress, *iotago.NFTAddress, *iotago.AnchorAddress:
			default:
				return "multi address member kind"
			}
			if m.Weight == 0 {
				return "multi address weight"
			}
			w += int(m.Weight)
			if i > 0 && AddrKey(x.Addresses[i-1].Address) >= AddrKey(m.Address) {
				return "multi address order"
			}
		}
		if int(x.Threshold) > w || x.Threshold < 1 {
			return "multi address threshold"
		}
	case *iotago.RestrictedAddress:
		if w := bitmaskOK(x.AllowedCapabilities, 2); w != "" {
			return w
		}
		switch x.Address.(type) {
		case *iotago.Ed25519Address, *iotago.AccountAddress, *iotago.NFTAddress, *iotago.AnchorAddress, *iotago.MultiAddress:
			return SyntaxAddr(x.Address)
		}
		return "restricted address nesting"
	}
	return ""
}

func isImplicitAddr(a iotago.Address) bool {
	_, ok := a.(*iotago.ImplicitAccountCreationAddress)
	return ok
}

func tyUC(u iotago.UnlockCondition) int { return int(Enc(u)[0]) }
func tyF(f iotago.Feature) int          { return int(Enc(f)[0]) }

func ascending[T any](l []T, ty func(T) int) bool {
	for i := 1; i < len(l); i++ {
		if ty(l[i-1]) >= ty(l[i]) {
			return false
		}
	}
	return true
}

func metaOK(keys []string, n int, size int) string {
	if n < 1 || n > 255 {
		return "metadata entry count"
	}
	for _, k := range keys {
		if len(k) > 255 {
			return "metadata key length"
		}
		for _, c := range []byte(k) {
			if c < 0x21 || c > 0x7e {
				return "metadata key charset"
			}
		}
	}
	if size > MaxMetadata {
		return "metadata size"
	}
	return ""
}

func featOK(f iotago.Feature) string {
	switch x := f.(type) {
	case *iotago.SenderFeature:
		return SyntaxAddr(x.Address)
	case *iotago.IssuerFeature:
		return SyntaxAddr(x.Address)
	case *iotago.MetadataFeature:
		var ks []string
		size := 1
		for k, v := range x.Entries {
			ks = append(ks, string(k))
			if len(v) > 65535 {
				return "metadata value length"
			}
			size += 3 + len(k) + len(v)
		}
		return metaOK(ks, len(ks), size)
	case *iotago.StateMetadataFeature:
		var ks []string
		size := 1
		for k, v := range x.Entries {
			ks = append(ks, string(k))
			if len(v) > 65535 {
				return "metadata value length"
			}
			size += 3 + len(k) + len(v)
		}
		return metaOK(ks, len(ks), size)
	case *iotago.TagFeature:
		if len(x.Tag) < 1 || len(x.Tag) > MaxTag {
			return "tag length"
		}
	case *iotago.NativeTokenFeature:
		if x.Amount.Sign() <= 0 || x.Amount.BitLen() > 256 {
			return "token amount"
		}
	case *iotago.BlockIssuerFeature:
		if len(x.BlockIssuerKeys) < 1 || len(x.BlockIssuerKeys) > MaxBIKeys {
			return "issuer key count"
		}
		for i := 1; i < len(x.BlockIssuerKeys); i++ {
			if bytes.Compare(Enc(x.BlockIssuerKeys[i-1]), Enc(x.BlockIssuerKeys[i])) >= 0 {
				return "issuer key order"
			}
		}
	}
	return ""
}

func only(set []int, allowed ...int) bool {
	for _, t := range set {
		ok := false
		for _, a := range allowed {
			ok = ok || a == t
		}
		if !ok {
			return false
		}
	}
	return true
}

func has(set []int, t int) bool {
	for _, x := range set {
		if x == t {
			return true
		}
	}
	return false
}

func ucTypes(o iotago.Output) (t []int) {
	for _, u := range UCs(o) {
		t = append(t, tyUC(u))
	}
	return
}

func fTypes(fs []iotago.Feature) (t []int) {
	for _, u := range fs {
		t = append(t, tyF(u))
	}
	return
}

// allowed kinds per output (unlock conditions, features, immutable features)
func kindsOK(o iotago.Output) string {
	uc, mf, im := ucTypes(o), fTypes(MutFeats(o)), fTypes(ImmFeats(o))
	ok := false
	switch o.(type) {
	case *iotago.BasicOutput:
		ok = has(uc, 0) && only(uc, 0, 1, 2, 3) && only(mf, 0, 2, 4, 5)
	case *iotago.AccountOutput:
		ok = has(uc, 0) && only(uc, 0) && only(mf, 0, 2, 6, 7) && only(im, 1, 2)
	case *iotago.AnchorOutput:
		ok = has(uc, 4) && has(uc, 5) && only(uc, 4, 5) && only(mf, 2, 3) && only(im, 1, 2)
	case *iotago.FoundryOutput:
		ok = has(uc, 6) && only(uc, 6) && only(mf, 2, 5) && only(im, 2)
	case *iotago.NFTOutput:
		ok = has(uc, 0) && only(uc, 0, 1, 2, 3) && only(mf, 0, 2, 4) && only(im, 1, 2)
	case *iotago.DelegationOutput:
		ok = has(uc, 0) && only(uc, 0)
	}
	if !ok {
		return "kinds of conditions or features"
	}
	for _, l := range [][]int{uc, mf, im} {
		if !ascending(l, func(i int) int { return i }) {
			return "order of conditions or features"
		}
	}
	return ""
}

const (
	capNT = iota
	capMana
	capTimelock
	capExpiration
	capSDR
	capAccount
	capAnchor
	capNFT
	capDelegation
)

// canReceive tells whether an address may own (or otherwise be named by a controlling condition of) the output.
func canReceive(a iotago.Address, o iotago.Output) bool {
	var can func(bit uint) bool
	switch x := a.(type) {
	case *iotago.RestrictedAddress:
		can = func(bit uint) bool {
			return int(bit/8) < len(x.AllowedCapabilities) && x.AllowedCapabilities[bit/8]>>(bit%8)&1 == 1
		}
	case *iotago.ImplicitAccountCreationAddress:
		can = func(bit uint) bool { return bit == capNT || bit == capMana }
	default:
		return true
	}
	uc := ucTypes(o)
	if pickF[*iotago.NativeTokenFeature](MutFeats(o)) != nil && !can(capNT) {
		return false
	}
	if StoredMana(o) != 0 && !can(capMana) {
		return false
	}
	if has(uc, 2) && !can(capTimelock) || has(uc, 3) && !can(capExpiration) || has(uc, 1) && !can(capSDR) {
		return false
	}
	switch o.(type) {
	case *iotago.AccountOutput:
		return can(capAccount)
	case *iotago.AnchorOutput:
		return can(capAnchor)
	case *iotago.NFTOutput:
		return can(capNFT)
	case *iotago.DelegationOutput:
		return can(capDelegation)
	}
	return true
}

// SyntaxOutput is the syntactic validity of a single output (sums over several outputs excluded).
func (p *Params) SyntaxOutput(o iotago.Output, hasCommitment bool) string {
	if w := kindsOK(o); w != "" {
		return w
	}
	for _, a := range addressesIn(o) {
		if w := SyntaxAddr(a); w != "" {
			return w
		}
	}
	for _, f := range Feats(o) {
		if w := featOK(f); w != "" {
			return w
		}
	}
	amt := Amount(o)
	if amt == 0 {
		return "zero amount"
	}
	if bu(amt).Cmp(p.MinDeposit(o)) < 0 {
		return "min deposit"
	}
	if r := pickUC[*iotago.StorageDepositReturnUnlockCondition](o); r != nil {
		if isImplicitAddr(r.ReturnAddress) {
			return "implicit return address"
		}
		min := p.MinDeposit(&iotago.BasicOutput{UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: r.ReturnAddress}}})
		if bu(uint64(r.Amount)).Cmp(min) < 0 {
			return "return amount too small"
		}
		if uint64(r.Amount) > amt {
			return "return amount too big"
		}
	}
	if e := pickUC[*iotago.ExpirationUnlockCondition](o); e != nil {
		if e.Slot == 0 {
			return "zero expiration"
		}
		if isImplicitAddr(e.ReturnAddress) {
			return "implicit return address"
		}
		if !canReceive(e.ReturnAddress, o) {
			return "restricted address"
		}
	}
	if t := pickUC[*iotago.TimelockUnlockCondition](o); t != nil && t.Slot == 0 {
		return "zero timelock"
	}
	if a := pickUC[*iotago.AddressUnlockCondition](o); a != nil {
		if !canReceive(a.Address, o) {
			return "restricted address"
		}
		if isImplicitAddr(a.Address) {
			if _, ok := o.(*iotago.BasicOutput); !ok {
				return "implicit address owner"
			}
		}
	}
	if a := pickUC[*iotago.StateControllerAddressUnlockCondition](o); a != nil && (!canReceive(a.Address, o) || isImplicitAddr(a.Address)) {
		return "controller address"
	}
	if a := pickUC[*iotago.GovernorAddressUnlockCondition](o); a != nil && (!canReceive(a.Address, o) || isImplicitAddr(a.Address)) {
		return "controller address"
	}
	if (pickF[*iotago.StakingFeature](MutFeats(o)) != nil || pickF[*iotago.BlockIssuerFeature](MutFeats(o)) != nil) && !hasCommitment {
		return "commitment input missing"
	}
	switch x := o.(type) {
	case *iotago.AccountOutput:
		if x.AccountID == (iotago.AccountID{}) && x.FoundryCounter != 0 {
			return "new account state"
		}
		if a, ok := pickUC[*iotago.AddressUnlockCondition](o).Address.(*iotago.AccountAddress); ok && iotago.AccountID(*a) == x.AccountID {
			return "cyclic owner"
		}
		if s := pickF[*iotago.StakingFeature](MutFeats(o)); s != nil {
			if uint64(s.StakedAmount) > amt {
				return "staked amount"
			}
			if pickF[*iotago.BlockIssuerFeature](MutFeats(o)) == nil {
				return "staking without block issuer"
			}
		}
	case *iotago.AnchorOutput:
		if x.AnchorID == (iotago.AnchorID{}) {
			if x.StateIndex != 0 {
				return "new anchor state"
			}
			break
		}
		for _, c := range []iotago.Address{pickUC[*iotago.StateControllerAddressUnlockCondition](o).Address, pickUC[*iotago.GovernorAddressUnlockCondition](o).Address} {
			if a, ok := c.(*iotago.AnchorAddress); ok && iotago.AnchorID(*a) == x.AnchorID {
				return "cyclic owner"
			}
		}
	case *iotago.NFTOutput:
		if x.NFTID != (iotago.NFTID{}) {
			if a, ok := pickUC[*iotago.AddressUnlockCondition](o).Address.(*iotago.NFTAddress); ok && iotago.NFTID(*a) == x.NFTID {
				return "cyclic owner"
			}
		}
	case *iotago.DelegationOutput:
		if *x.ValidatorAddress == (iotago.AccountAddress{}) {
			return "empty validator"
		}
		if !hasCommitment {
			return "commitment input missing"
		}
	case *iotago.FoundryOutput:
		s := x.TokenScheme.(*iotago.SimpleTokenScheme)
		for _, v := range []*big.Int{s.MaximumSupply, s.MintedTokens, s.MeltedTokens} {
			if v.Sign() < 0 || v.BitLen() > 256 {
				return "token scheme range"
			}
		}
		if s.MaximumSupply.Sign() <= 0 {
			return "maximum supply"
		}
		c := new(big.Int).Sub(s.MintedTokens, s.MeltedTokens)
		if c.Sign() < 0 || c.Cmp(s.MaximumSupply) > 0 {
			return "circulating supply"
		}
		if n := pickF[*iotago.NativeTokenFeature](MutFeats(o)); n != nil && n.ID != FoundryID(x) {
			return "foreign token in foundry"
		}
	}
	return ""
}

// SyntaxTx is the syntactic validity of a transaction.
func (p *Params) SyntaxTx(tx *iotago.Transaction) string {
	e := tx.TransactionEssence
	if w := bitmaskOK(e.Capabilities, 1); w != "" {
		return w
	}
	if uint64(e.NetworkID) != p.NetworkID {
		return "network"
	}
	if len(e.Inputs) < 1 || len(e.Inputs) > MaxListEntries {
		return "input count"
	}
	seen := map[string]bool{}
	for _, in := range e.Inputs {
		u := in.(*iotago.UTXOInput)
		k := string(Enc(u))
		if seen[k] {
			return "duplicate input"
		}
		seen[k] = true
		if u.TransactionOutputIndex > MaxListEntries-1 {
			return "input index"
		}
	}
	if len(e.ContextInputs) > MaxListEntries {
		return "context input count"
	}
	commit := false
	key := func(ci any) []byte {
		switch x := ci.(type) {
		case *iotago.CommitmentInput:
			return []byte{0}
		case *iotago.BlockIssuanceCreditInput:
			return cat([]byte{1}, x.AccountID[:])
		case *iotago.RewardInput:
			return []byte{2, byte(x.Index >> 8), byte(x.Index)}
		}
		return nil
	}
	for i, ci := range e.ContextInputs {
		if i > 0 && bytes.Compare(key(e.ContextInputs[i-1]), key(ci)) >= 0 {
			return "context input order"
		}
		switch x := ci.(type) {
		case *iotago.CommitmentInput:
			commit = true
		case *iotago.BlockIssuanceCreditInput:
			if !commit {
				return "context input needs commitment"
			}
		case *iotago.RewardInput:
			if !commit {
				return "context input needs commitment"
			}
			if int(x.Index) >= len(e.Inputs) {
				return "reward index"
			}
		}
	}
	if len(e.Allotments) > MaxListEntries {
		return "allotment count"
	}
	maxMana := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(p.Bits)), big.NewInt(1))
	all := new(big.Int)
	for i, a := range e.Allotments {
		if i > 0 && bytes.Compare(e.Allotments[i-1].AccountID[:], a.AccountID[:]) >= 0 {
			return "allotment order"
		}
		all.Add(all, bu(uint64(a.Mana)))
	}
	if all.Cmp(maxMana) > 0 {
		return "allotted mana"
	}
	if e.Payload != nil {
		t, ok := e.Payload.(*iotago.TaggedData)
		if !ok {
			return "payload kind"
		}
		if w := SyntaxTagged(t); w != "" {
			return w
		}
	}
	if len(tx.Outputs) < 1 || len(tx.Outputs) > MaxListEntries {
		return "output count"
	}
	tokens, mana := new(big.Int), new(big.Int)
	chains := map[iotago.ChainID]bool{}
	for _, o := range tx.Outputs {
		if w := p.SyntaxOutput(o, commit); w != "" {
			return w
		}
		tokens.Add(tokens, bu(Amount(o)))
		mana.Add(mana, bu(StoredMana(o)))
		var id iotago.ChainID
		switch x := o.(type) {
		case *iotago.AccountOutput:
			if x.AccountID != (iotago.AccountID{}) {
				id = x.AccountID
			}
		case *iotago.AnchorOutput:
			if x.AnchorID != (iotago.AnchorID{}) {
				id = x.AnchorID
			}
		case *iotago.NFTOutput:
			if x.NFTID != (iotago.NFTID{}) {
				id = x.NFTID
			}
		case *iotago.DelegationOutput:
			if x.DelegationID != (iotago.DelegationID{}) {
				id = x.DelegationID
			}
		case *iotago.FoundryOutput:
			id = FoundryID(x)
		}
		if id != nil {
			if chains[id] {
				return "duplicate chain"
			}
			chains[id] = true
		}
	}
	if tokens.Cmp(bu(p.Supply)) > 0 {
		return "token supply"
	}
	if mana.Cmp(maxMana) > 0 {
		return "stored mana"
	}
	return ""
}

// SyntaxTagged is the validity of a tagged data payload.
func SyntaxTagged(t *iotago.TaggedData) string {
	if len(t.Tag) > MaxTag || len(t.Data) > MaxTaggedData {
		return "tagged data size"
	}
	return ""
}

// SyntaxUnlocks is the shape rule of unlock lists.
func SyntaxUnlocks(us iotago.Unlocks) string {
	const (
		none = iota
		sig
		multi
		ref
	)
	kind := make([]int, len(us))
	signer := map[string]bool{}  // top level signers so far
	inMulti := map[string]bool{} // signers inside earlier multi unlocks
	multis := map[string]bool{}  // encodings of earlier multi unlocks
	refOf := func(u iotago.Unlock) (idx int, chainable, ok bool) {
		switch x := u.(type) {
		case *iotago.ReferenceUnlock:
			return int(x.Reference), false, true
		case *iotago.AccountUnlock:
			return int(x.Reference), true, true
		case *iotago.AnchorUnlock:
			return int(x.Reference), true, true
		case *iotago.NFTUnlock:
			return int(x.Reference), true, true
		}
		return 0, false, false
	}
	at := func(i, idx int) int {
		if idx >= i {
			return none
		}
		return kind[idx]
	}
	key := func(s iotago.Signature) string { return string(s.(*iotago.Ed25519Signature).PublicKey[:]) }
	for i, u := range us {
		if idx, chainable, ok := refOf(u); ok {
			switch at(i, idx) {
			case ref:
				if !chainable {
					return "reference to a reference"
				}
			case sig, multi:
			default:
				return "dangling reference"
			}
			kind[i] = ref
			continue
		}
		switch x := u.(type) {
		case *iotago.SignatureUnlock:
			k := key(x.Signature)
			if signer[k] || inMulti[k] {
				return "duplicate signer"
			}
			signer[k] = true
			kind[i] = sig
		case *iotago.MultiUnlock:
			if len(x.Unlocks) < 2 || len(x.Unlocks) > 10 {
				return "multi unlock count"
			}
			e := string(Enc(x))
			if multis[e] {
				return "duplicate multi unlock"
			}
			for _, s := range x.Unlocks {
				if idx, chainable, ok := refOf(s); ok {
					switch at(i, idx) {
					case ref:
						if !chainable {
							return "reference to a reference"
						}
					case sig:
					default:
						return "dangling reference"
					}
					continue
				}
				switch y := s.(type) {
				case *iotago.SignatureUnlock:
					k := key(y.Signature)
					if signer[k] {
						return "duplicate signer"
					}
					inMulti[k] = true
				case *iotago.EmptyUnlock:
				default:
					return "nested multi unlock"
				}
			}
			multis[e] = true
			kind[i] = multi
		default:
			return "empty unlock"
		}
	}
	return ""
}

// SyntaxSigned is the validity of a signed transaction.
func (p *Params) SyntaxSigned(stx *iotago.SignedTransaction) string {
	if len(stx.Unlocks) < 1 || len(stx.Unlocks) > MaxListEntries || len(stx.Unlocks) != len(stx.Transaction.TransactionEssence.Inputs) {
		return "unlock count"
	}
	if w := p.SyntaxTx(stx.Transaction); w != "" {
		return w
	}
	return SyntaxUnlocks(stx.Unlocks)
}

// SlotAt is the slot of a time (seconds resolution of the slot grid).
func (p *Params) SlotAt(unixNano *big.Int) uint64 {
	d := new(big.Int).Sub(unixNano, new(big.Int).Mul(big.NewInt(p.GenesisUnix), big.NewInt(1e9)))
	if d.Sign() < 0 {
		return uint64(p.GenesisSlot)
	}
	d.Div(d, new(big.Int).Mul(big.NewInt(int64(p.SlotDur)), big.NewInt(1e9)))
	return uint64(p.GenesisSlot) + d.Uint64() + 1
}

func cidSlot(c iotago.CommitmentID) uint64 {
	return uint64(c[32]) | uint64(c[33])<<8 | uint64(c[34])<<16 | uint64(c[35])<<24
}

func idsOK(ids []iotago.BlockID, min, max int) string {
	if len(ids) < min || len(ids) > max {
		return "parent count"
	}
	for i := 1; i < len(ids); i++ {
		if bytes.Compare(ids[i-1][:], ids[i][:]) >= 0 {
			return "parent order"
		}
	}
	return ""
}

// SyntaxBlock is the syntactic validity of a block.
func (p *Params) SyntaxBlock(b *iotago.Block) string {
	if Size(b) > MaxBlockBytes {
		return "block size"
	}
	if byte(b.Header.ProtocolVersion) != p.Version {
		return "version"
	}
	if uint64(b.Header.NetworkID) != p.NetworkID {
		return "network"
	}
	var s, w, l []iotago.BlockID
	max := 8
	switch x := b.Body.(type) {
	case *iotago.BasicBlockBody:
		s, w, l = x.StrongParents, x.WeakParents, x.ShallowLikeParents
	case *iotago.ValidationBlockBody:
		s, w, l = x.StrongParents, x.WeakParents, x.ShallowLikeParents
		max = 50
	}
	for i, ids := range [][]iotago.BlockID{s, w, l} {
		min := 0
		if i == 0 {
			min = 1
		}
		if why := idsOK(ids, min, max); why != "" {
			return why
		}
	}
	for _, a := range w {
		for _, b := range append(append([]iotago.BlockID{}, s...), l...) {
			if a == b {
				return "weak parent not disjoint"
			}
		}
	}
	t := new(big.Int).Add(new(big.Int).Mul(big.NewInt(b.Header.IssuingTime.Unix()), big.NewInt(1e9)), big.NewInt(int64(b.Header.IssuingTime.Nanosecond())))
	slot := p.SlotAt(t)
	c := cidSlot(b.Header.SlotCommitmentID)
	if c > uint64(p.GenesisSlot) && slot < c+uint64(p.MinCA) {
		return "commitment too recent"
	}
	if slot > c+uint64(p.MaxCA) {
		return "commitment too old"
	}
	switch x := b.Body.(type) {
	case *iotago.ValidationBlockBody:
		if byte(x.HighestSupportedVersion) < byte(b.Header.ProtocolVersion) {
			return "supported version"
		}
	case *iotago.BasicBlockBody:
		switch pl := x.Payload.(type) {
		case nil, *iotago.CandidacyAnnouncement:
		case *iotago.TaggedData:
			if why := SyntaxTagged(pl); why != "" {
				return why
			}
		case *iotago.SignedTransaction:
			if why := p.SyntaxSigned(pl); why != "" {
				return why
			}
			if slot < uint64(pl.Transaction.TransactionEssence.CreationSlot) {
				return "transaction from the future"
			}
			for _, ci := range pl.Transaction.TransactionEssence.ContextInputs {
				if com, ok := any(ci).(*iotago.CommitmentInput); ok {
					cs := cidSlot(com.CommitmentID)
					if cs > uint64(p.GenesisSlot) && slot < cs+uint64(p.MinCA) {
						return "commitment input too recent"
					}
					if slot > cs+uint64(p.MaxCA) {
						return "commitment input too old"
					}
					if cs > c {
						return "commitment input newer than commitment"
					}
				}
			}
		default:
			return "payload kind"
		}
	}
	return ""
}
