bug("vm-multi-ref", "P01", [("vm/vm.go", "	if !referencedAddrWithSignature.Signature.MatchesAddress(owner) {\n", "	if !checkUnlockOnly && !referencedAddrWithSignature.Signature.MatchesAddress(owner) {\n")],
 "an input owned by a multi address, unlocked with a multi unlock whose member is a reference unlock to an earlier input's signature made by a key that is not that member",
 "a member of a multi address counts as unlocked by a reference to anybody's signature, so the threshold can be reached without the members' keys",
 HDR + '''func TestZZDemo(t *testing.T) {
	multi := iotago.NewMultiAddress(iotago.AddressesWithWeight{{Address: zzEd(1), Weight: 1}, {Address: zzEd(2), Weight: 1}}, 1)
	for owner := 0; owner < 2; owner++ {
		for i := range multi.Addresses {
			z := &zz{slot: 100}
			z.add(zzBasic(zzEd(owner), 1000000, 0), 100)
			z.add(zzBasic(multi, 1000000, 0), 100)
			z.outs = iotago.TxEssenceOutputs{zzBasic(zzEd(0), 2000000, 0)}
			z.unlocks = func(sig func(int) iotago.Unlock) iotago.Unlocks {
				m := []iotago.Unlock{&iotago.EmptyUnlock{}, &iotago.EmptyUnlock{}}
				m[i] = &iotago.ReferenceUnlock{Reference: 0}
				return iotago.Unlocks{sig(owner), &iotago.MultiUnlock{Unlocks: m}}
			}
			if multi.Addresses[i].Address.Equal(zzEd(owner)) {
				zzAccept(t, "reference by the member", z.run(t))
			} else {
				zzReject(t, "reference to a stranger's signature", z.run(t))
			}
		}
	}
}
''')
bug("vm-return-elsewhere", "P03", [("vm/vm.go", "			if vmParams.WorkingSet.UnlockedAddrs.UnlockedBy(vmParams.WorkingSet.InputIDToInputIndex[inputID], returnAddr) {\n", "			if _, unlocked := vmParams.WorkingSet.UnlockedAddrs[returnAddr]; unlocked && int(vmParams.WorkingSet.InputIDToInputIndex[inputID]) < len(vmParams.WorkingSet.UTXOInputs) {\n")],
 "a transaction that spends an output with a storage deposit return together with another input of the return address (two cooperating signers)",
 "the storage deposit need not be returned when the return party unlocks some other input of the transaction",
 HDR + '''func TestZZDemo(t *testing.T) {
	for refund := 0; refund < 2; refund++ {
		z := &zz{slot: 100}
		z.add(zzBasic(zzEd(0), 1000000, 0, &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: zzEd(1), Amount: 500000}), 100)
		z.add(zzBasic(zzEd(1), 1000000, 0), 100)
		z.unlocks = func(sig func(int) iotago.Unlock) iotago.Unlocks { return iotago.Unlocks{sig(0), sig(1)} }
		if refund == 1 {
			z.outs = iotago.TxEssenceOutputs{zzBasic(zzEd(0), 500000, 0), zzBasic(zzEd(1), 1500000, 0)}
			zzAccept(t, "refunded", z.run(t))
		} else {
			z.outs = iotago.TxEssenceOutputs{zzBasic(zzEd(0), 2000000, 0)}
			zzReject(t, "not refunded", z.run(t))
		}
	}
}
''')
bug("vm-staking-restart", "P06", [("vm/nova/vm.go", "		if futureBoundedEpoch <= currentStakingFeat.EndEpoch {\n", "		if futureBoundedEpoch <= currentStakingFeat.EndEpoch && pastBoundedEpoch <= currentStakingFeat.EndEpoch {\n")],
 "transitioning a staking account with a commitment in the last slots of its end epoch, so that the past bounded slot is already in the next epoch and the future bounded slot is not",
 "a staking feature can be removed, and its rewards claimed, before its end epoch is over",
 HDR + '''func TestZZDemo(t *testing.T) {
	pp := testAPI.ProtocolParameters()
	tp := testAPI.TimeProvider()
	end := iotago.EpochIndex(5)
	for _, commit := range []iotago.SlotIndex{tp.EpochEnd(end) - pp.MaxCommittableAge(), tp.EpochEnd(end) - pp.MaxCommittableAge() + 1, tp.EpochEnd(end) - pp.MinCommittableAge(), tp.EpochEnd(end) - pp.MinCommittableAge() + 1} {
		id := iotago.AccountID{7}
		acc := func(feats ...iotago.AccountOutputFeature) *iotago.AccountOutput {
			o := &iotago.AccountOutput{Amount: 1000000, AccountID: id, UnlockConditions: iotago.AccountOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: zzEd(0)}}}
			for _, f := range feats {
				o.Features.Upsert(f)
			}
			o.Features.Sort()
			return o
		}
		bi := &iotago.BlockIssuerFeature{ExpirySlot: iotago.MaxSlotIndex, BlockIssuerKeys: iotago.NewBlockIssuerKeys(iotago.Ed25519PublicKeyHashBlockIssuerKeyFromPublicKey([32]byte{1}))}
		z := &zz{slot: commit + pp.MaxCommittableAge(), commit: commit, caps: zzAllCaps(), bic: vm.BlockIssuanceCreditInputSet{id: 0}, rewards: map[int]iotago.Mana{0: 0}}
		z.add(acc(bi, &iotago.StakingFeature{StakedAmount: 1000, StartEpoch: 2, EndEpoch: end}), 100)
		z.outs = iotago.TxEssenceOutputs{acc(bi)}
		if commit > tp.EpochEnd(end)-pp.MinCommittableAge() {
			zzAccept(t, "expired", z.run(t))
		} else {
			zzReject(t, "not expired", z.run(t))
		}
	}
}
''')
bug("vm-delegation-edge", "P09", [("vm/nova/vm.go", "	if futureBoundedSlot <= registrationSlot {\n", "	if futureBoundedSlot < registrationSlot {\n")],
 "moving a delegation to delayed claiming with a commitment whose future bounded slot is exactly the epoch's registration slot",
 "the end epoch demanded at the registration slot is one too high, so the delegator earns an epoch more than entitled and the right transition is refused",
 HDR + '''func TestZZDemo(t *testing.T) {
	pp := testAPI.ProtocolParameters()
	tp := testAPI.TimeProvider()
	reg := tp.EpochEnd(5) - pp.EpochNearingThreshold()
	for d := -1; d <= 1; d++ {
		commit := reg - pp.MinCommittableAge() + iotago.SlotIndex(d+1) - 1
		want := iotago.EpochIndex(5)
		if d > 0 {
			want = 6
		}
		for end := iotago.EpochIndex(4); end < 8; end++ {
			z := &zz{slot: commit + pp.MinCommittableAge(), commit: commit}
			val := iotago.AccountAddress{9}
			del := func(id iotago.DelegationID, end iotago.EpochIndex) *iotago.DelegationOutput {
				return &iotago.DelegationOutput{Amount: 1000000, DelegatedAmount: 1000000, DelegationID: id, ValidatorAddress: &val, StartEpoch: 2, EndEpoch: end,
					UnlockConditions: iotago.DelegationOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: zzEd(0)}}}
			}
			z.caps = zzAllCaps()
			z.add(del(iotago.DelegationID{}, 0), 100)
			z.outs = iotago.TxEssenceOutputs{del(iotago.DelegationIDFromOutputID(z.id(0)), end)}
			if end == want {
				zzAccept(t, "right end epoch", z.run(t))
			} else {
				zzReject(t, "wrong end epoch", z.run(t))
			}
		}
	}
}
''')
