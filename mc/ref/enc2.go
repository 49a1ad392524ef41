package ref

import (
	"fmt"

	iotago "github.com/iotaledger/iota.go/v4"
)

func str8(s string) []byte { return bytes8([]byte(s)) }

// encMore encodes the less common objects.
func encMore(v any) []byte {
	switch x := v.(type) {
	case *iotago.AddressWithWeight:
		return cat(Enc(x.Address), []byte{x.Weight})
	case *iotago.Roots:
		return cat(x.TangleRoot[:], x.StateMutationRoot[:], x.StateRoot[:], x.AccountRoot[:], x.AttestationsRoot[:], x.CommitteeRoot[:], x.RewardsRoot[:], x.ProtocolParametersHash[:])
	case *iotago.V3ProtocolParameters:
		return encParams(x)
	case iotago.BlockIDs:
		out := u32(uint32(len(x)))
		for _, id := range x {
			out = append(out, id[:]...)
		}
		return out
	case iotago.TransactionIDs:
		out := u32(uint32(len(x)))
		for _, id := range x {
			out = append(out, id[:]...)
		}
		return out
	case iotago.BlockIssuerKeys:
		return list8(x)
	case []*iotago.Attestation:
		return list8(x)
	case iotago.Unlocks:
		return list16(x)
	case iotago.OutputID:
		return x[:]
	case iotago.BlockID:
		return x[:]
	case iotago.TransactionID:
		return x[:]
	case iotago.CommitmentID:
		return x[:]
	case iotago.Identifier:
		return x[:]
	case iotago.FoundryID:
		return x[:]
	}
	panic(fmt.Sprintf("ref.Enc: unsupported type %T", v))
}

func encParams(x *iotago.V3ProtocolParameters) []byte {
	s, w, m, c, vs, r := x.StorageScoreParameters(), x.WorkScoreParameters(), x.ManaParameters(), x.CongestionControlParameters(), x.VersionSignalingParameters(), x.RewardsParameters()
	out := cat([]byte{0, byte(x.Version())}, str8(x.NetworkName()), str8(string(x.Bech32HRP())))
	out = cat(out, u64(uint64(s.StorageCost)), []byte{byte(s.FactorData)}, u64(uint64(s.OffsetOutputOverhead)), u64(uint64(s.OffsetEd25519BlockIssuerKey)), u64(uint64(s.OffsetStakingFeature)), u64(uint64(s.OffsetDelegation)))
	for _, v := range []iotago.WorkScore{w.DataByte, w.Block, w.Input, w.ContextInput, w.Output, w.NativeToken, w.Staking, w.BlockIssuer, w.Allotment, w.SignatureEd25519} {
		out = append(out, u32(uint32(v))...)
	}
	out = cat(out, []byte{m.BitsCount, m.GenerationRate, m.GenerationRateExponent}, u16(uint16(len(m.DecayFactors))))
	for _, f := range m.DecayFactors {
		out = append(out, u32(f)...)
	}
	out = cat(out, []byte{m.DecayFactorsExponent}, u32(m.DecayFactorEpochsSum), []byte{m.DecayFactorEpochsSumExponent, m.AnnualDecayFactorPercentage})
	out = cat(out, u64(uint64(x.TokenSupply())), u32(uint32(x.GenesisSlot())), u64(uint64(x.GenesisUnixTimestamp())), []byte{x.SlotDurationInSeconds(), x.SlotsPerEpochExponent()})
	out = cat(out, u32(uint32(x.StakingUnbondingPeriod())), []byte{x.ValidationBlocksPerSlot()}, u32(uint32(x.PunishmentEpochs())))
	out = cat(out, u16(uint16(x.LivenessThresholdLowerBound().Seconds())), u16(uint16(x.LivenessThresholdUpperBound().Seconds())))
	out = cat(out, u32(uint32(x.MinCommittableAge())), u32(uint32(x.MaxCommittableAge())), u32(uint32(x.EpochNearingThreshold())))
	out = cat(out, u64(uint64(c.MinReferenceManaCost)), u64(uint64(c.Increase)), u64(uint64(c.Decrease)), u32(uint32(c.IncreaseThreshold)), u32(uint32(c.DecreaseThreshold)), u32(uint32(c.SchedulerRate)), u32(c.MaxBufferSize), u32(c.MaxValidationBufferSize))
	out = cat(out, []byte{vs.WindowSize, vs.WindowTargetRatio, vs.ActivationOffset})
	out = cat(out, []byte{r.ProfitMarginExponent}, u32(uint32(r.BootstrappingDuration)), []byte{r.RewardToGenerationRatio}, u64(uint64(r.InitialTargetRewardsRate)), u64(uint64(r.FinalTargetRewardsRate)), []byte{r.PoolCoefficientExponent}, u16(r.RetentionPeriod))
	return cat(out, []byte{x.TargetCommitteeSize(), x.ChainSwitchingThreshold()})
}

// MerkleProof encodes the audit path of member i: inner nodes (0 left right), hashes of the other subtrees (1 len hash) and
// the hash of the proven value (2 len hash).
func MerkleProof(vs [][]byte, i int) []byte {
	if len(vs) == 1 {
		return cat([]byte{2, 32}, Blake([]byte{0}, vs[0]))
	}
	k := 1
	for k*2 < len(vs) {
		k *= 2
	}
	other := func(l [][]byte) []byte { return cat([]byte{1, 32}, MerkleRoot(l)) }
	if i < k {
		return cat([]byte{0}, MerkleProof(vs[:k], i), other(vs[k:]))
	}
	return cat([]byte{0}, other(vs[:k]), MerkleProof(vs[k:], i-k))
}

// OutputIDProof encodes the proof of output i of a transaction.
func OutputIDProof(tx *iotago.Transaction, i int) []byte {
	var vs [][]byte
	for _, o := range tx.Outputs {
		vs = append(vs, Enc(o))
	}
	return cat(u32(uint32(tx.TransactionEssence.CreationSlot)), u16(uint16(i)), TxCommitment(tx), MerkleProof(vs, i))
}
