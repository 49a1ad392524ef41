bug("pow-results-cap", "P38", [("blockissuer/pow/worker.go", "results = make(chan uint64, w.numWorkers)", "results = make(chan uint64, 1)")],
 "two workers that find a nonce before either sees that the other is done",
 "the second worker blocks on the full result channel for ever and Mine never returns",
 '''package pow_test

import (
	"context"
	"testing"
	"time"

	"github.com/iotaledger/iota.go/v4/blockissuer/pow"
)

func TestZZDemo(t *testing.T) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < 3000; i++ {
			if _, err := pow.New(16).Mine(context.Background(), []byte{byte(i), byte(i >> 8)}, 0); err != nil {
				t.Error(err)
			}
		}
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("Mine does not return")
	}
}
''', pkg="blockissuer/pow", common=None)
bug("wallet-path-alias", "P34", [("wallet/keymanager.go", "	newPath := lo.CopySlice(k.path)\n", "	newPath := k.path\n")],
 "asking one key manager for the key of an explicit index and then for the key of its own path",
 "the explicit index overwrites the manager's path, so that the same request gives another key (and address) afterwards",
 '''package wallet_test

import (
	"bytes"
	"testing"

	"github.com/iotaledger/iota.go/v4/wallet"
)

func TestZZDemo(t *testing.T) {
	m, err := wallet.NewKeyManager(bytes.Repeat([]byte{7}, 32), wallet.DefaultIOTAPath)
	if err != nil {
		t.Fatal(err)
	}
	_, before := m.KeyPair()
	_, five := m.KeyPair(5)
	_, after := m.KeyPair()
	if !bytes.Equal(before, after) || bytes.Equal(before, five) {
		t.Fatal("the key of the manager's path changed")
	}
}
''', pkg="wallet", common=None)
bug("provider-unlocked-latest", "P25", [("api_epoch_based_provider.go", "func (e *EpochBasedProvider) LatestAPI() API {\n	e.mutex.RLock()\n	defer e.mutex.RUnlock()\n\n", "func (e *EpochBasedProvider) LatestAPI() API {\n")],
 "a caller of LatestAPI concurrent with one that adds the parameters of a newer version",
 "the two-word interface value is read without synchronisation: a torn or stale API can be returned",
 '''package iotago_test

import (
	"sync"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
)

func TestZZDemo(t *testing.T) {
	p := iotago.NewEpochBasedProvider(iotago.WithAPIForMissingVersionCallback(func(pp iotago.ProtocolParameters) (iotago.API, error) {
		return iotago.V3API(pp), nil
	}))
	p.AddProtocolParametersAtEpoch(iotago.NewV3SnapshotProtocolParameters(), 0)
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				if g == 0 {
					p.AddProtocolParametersAtEpoch(iotago.NewV3SnapshotProtocolParameters(iotago.WithVersion(iotago.Version(4+i))), iotago.EpochIndex(2+i))
				} else {
					for k := 0; k < 1000; k++ {
						_ = p.LatestAPI()
					}
				}
			}
		}()
	}
	wg.Wait()
}
''', pkg=".", common=None, flags="-race")
bug("attestation-seconds", "P19", [("attestation.go", "	case a.Header.IssuingTime.After(other.Header.IssuingTime):\n", "	case a.Header.IssuingTime.Unix() > other.Header.IssuingTime.Unix():\n"), ("attestation.go", "	case a.Header.IssuingTime.Before(other.Header.IssuingTime):\n", "	case a.Header.IssuingTime.Unix() < other.Header.IssuingTime.Unix():\n")],
 "two attestations of one slot whose issuing times differ by less than a second and whose body hashes are in the other order",
 "the earlier of the two attestations counts as the later one",
 '''package iotago_test

import (
	"testing"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
)

func TestZZDemo(t *testing.T) {
	at := func(ns int64, body byte) *iotago.Attestation {
		return &iotago.Attestation{Header: iotago.BlockHeader{IssuingTime: time.Unix(1700000000, ns)}, BodyHash: iotago.Identifier{body}}
	}
	for _, ns := range []int64{1, 999999999} {
		if a, b := at(ns, 1), at(0, 2); a.Compare(b) != 1 || b.Compare(a) != -1 {
			t.Fatal("a later attestation does not win")
		}
	}
}
''', pkg=".", common=None)
bug("builder-bound-twice", "P29", [("builder/transaction_builder.go", "				availableManaInputs.AccountBoundMana[accountID] = 0\n", "")],
 "an account output that stores more mana than the account's inputs hold, with the rest taken from unbound mana, followed by a call that allots what remains",
 "the account's mana is counted as still available after it has been used up, so the builder allots it a second time and the transaction creates mana",
 '''package builder_test

import (
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/builder"
)

func TestZZDemo(t *testing.T) {
	api := iotago.V3API(iotago.NewV3SnapshotProtocolParameters())
	addr := &iotago.Ed25519Address{1}
	acc := func(mana iotago.Mana) *iotago.AccountOutput {
		return &iotago.AccountOutput{Amount: 1, Mana: mana, AccountID: iotago.AccountID{9}, UnlockConditions: iotago.AccountOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: addr}}}
	}
	for _, stored := range []iotago.Mana{40, 100, 101, 150, 200} {
		b := builder.NewTransactionBuilder(api, nil)
		b.SetCreationSlot(10)
		b.AddInput(&builder.TxInput{UnlockTarget: addr, InputID: iotago.OutputIDFromTransactionIDAndIndex(iotago.NewTransactionID(10, iotago.Identifier{1}), 0), Input: acc(100)})
		b.AddInput(&builder.TxInput{UnlockTarget: addr, InputID: iotago.OutputIDFromTransactionIDAndIndex(iotago.NewTransactionID(10, iotago.Identifier{2}), 0), Input: &iotago.BasicOutput{Amount: 1, Mana: 100, UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: addr}}}})
		b.AddOutput(acc(stored))
		rest, err := b.CalculateAvailableManaRemaining(10)
		if err != nil {
			t.Fatal(err)
		}
		if rest.UnboundMana+rest.AccountBoundMana[iotago.AccountID{9}] != 200-stored {
			t.Fatalf("%d of 200 mana stored, but %d unbound and %d bound mana are left", stored, rest.UnboundMana, rest.AccountBoundMana[iotago.AccountID{9}])
		}
	}
}
''', pkg="builder", common=None)
bug("clone-native-amount", "P31", [("feat_native_token.go", "	cpy.Amount = new(big.Int).Set(n.Amount)\n", "	cpy.Amount = n.Amount\n")],
 "changing the native token amount of an output in place after the output has been cloned",
 "clone and original share one big integer, so that a change of the one is a change of the other",
 '''package iotago_test

import (
	"math/big"
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
)

func TestZZDemo(t *testing.T) {
	o := &iotago.BasicOutput{Amount: 5, Features: iotago.BasicOutputFeatures{&iotago.NativeTokenFeature{ID: iotago.NativeTokenID{1}, Amount: big.NewInt(100)}}}
	c := o.Clone()
	c.FeatureSet().NativeToken().Amount.Add(big.NewInt(1), big.NewInt(1))
	if o.FeatureSet().NativeToken().Amount.Int64() != 100 {
		t.Fatal("the change of the clone changed the original")
	}
}
''', pkg=".", common=None)
