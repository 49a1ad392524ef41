package ref

import (
	"math/big"

	iotago "github.com/iotaledger/iota.go/v4"
)

// Parts counts what a block or a part of one is charged for, in the order of the work score parameters: data bytes,
// blocks, inputs, context inputs, outputs, native tokens, staking features, block issuer features, allotments, signatures.
type Parts [10]uint64

// Cost of the parts under the parameters, not truncated.
func (n Parts) Cost(w *iotago.WorkScoreParameters) *big.Int {
	t := new(big.Int)
	for i, v := range []iotago.WorkScore{w.DataByte, w.Block, w.Input, w.ContextInput, w.Output, w.NativeToken, w.Staking, w.BlockIssuer, w.Allotment, w.SignatureEd25519} {
		t.Add(t, new(big.Int).Mul(bu(n[i]), bu(uint64(v))))
	}
	return t
}

// PartsOf an object; false for objects without a rule. The bytes of a payload are charged once, a payload includes
// the charge for its block.
func PartsOf(x any) (n Parts, ok bool) {
	add := func(x any) {
		m, is := PartsOf(x)
		ok = ok && is
		for i := range n {
			n[i] += m[i]
		}
	}
	ok = true
	switch x := x.(type) {
	case *iotago.Block:
		add(x.Body)
	case *iotago.ValidationBlockBody:
	case *iotago.BasicBlockBody:
		if x.Payload == nil {
			n[1] = 1
		} else {
			add(x.Payload)
		}
	case *iotago.TaggedData, *iotago.CandidacyAnnouncement:
		n[0], n[1] = uint64(Size(x)), 1
	case *iotago.SignedTransaction:
		n[0], n[1] = uint64(Size(x)), 1
		add(x.Transaction)
		for _, u := range x.Unlocks {
			add(u)
		}
	case *iotago.Transaction:
		n[2], n[3], n[8] = uint64(len(x.TransactionEssence.Inputs)), uint64(len(x.TransactionEssence.ContextInputs)), uint64(len(x.TransactionEssence.Allotments))
		for _, o := range x.Outputs {
			add(o)
		}
	case iotago.Output:
		n[4] = 1
		for _, f := range Feats(x) {
			add(f)
		}
		if f, is := x.(*iotago.FoundryOutput); is {
			add(f.TokenScheme)
		}
	case *iotago.NativeTokenFeature, *iotago.SimpleTokenScheme:
		n[5] = 1
	case *iotago.StakingFeature:
		n[6] = 1
	case *iotago.BlockIssuerFeature:
		n[7] = 1
	case iotago.Feature, iotago.UnlockCondition:
	case *iotago.UTXOInput:
		n[2] = 1
	case *iotago.CommitmentInput, *iotago.BlockIssuanceCreditInput, *iotago.RewardInput:
		n[3] = 1
	case iotago.Signature, *iotago.SignatureUnlock:
		n[9] = 1
	case *iotago.MultiUnlock:
		for _, u := range x.Unlocks {
			add(u)
		}
	case iotago.Unlock:
	default:
		ok = false
	}
	return
}
