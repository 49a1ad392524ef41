package checks

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"

	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

// apiMsg is one message of the node API with a distinct value in every field.
type apiMsg struct {
	name string
	mk   func() any
	into target
}

func msg[T any](f func() *T) apiMsg {
	t := intoP[T]()
	return apiMsg{strings.TrimPrefix(t.name, "*"), func() any { return f() }, t}
}

func apiMsgs(e *gen.Env) []apiMsg {
	tx := func() *iotago.Transaction { return synTx(e).Transaction }
	proof := func() *iotago.OutputIDProof {
		p, err := iotago.OutputIDProofFromTransaction(tx(), 0)
		if err != nil {
			panic(err)
		}
		return p
	}
	com := func() *iotago.Commitment {
		return &iotago.Commitment{ProtocolVersion: 3, Slot: 5, PreviousCommitmentID: commitID(7, 4), RootsID: iotago.Identifier(gen.Fill32(3)), CumulativeWeight: 6, ReferenceManaCost: 8}
	}
	o := func() iotago.TxEssenceOutput { return nft(iotago.NFTID{}, gen.Ed(1), 900, 4, fMeta("m")) }
	t := func(n int64) time.Time { return time.Unix(n, n).UTC() }
	oid := func(b byte) iotago.OutputID { return gen.OutID(b, uint32(b)+3, uint16(b)) }
	meta := func() *api.OutputMetadata {
		return &api.OutputMetadata{OutputID: oid(1), BlockID: blockID(2, 9), Included: &api.OutputInclusionMetadata{Slot: 3, TransactionID: gen.TxIDAt(4, 5), CommitmentID: commitID(6, 7)},
			Spent: &api.OutputConsumptionMetadata{Slot: 8, TransactionID: gen.TxIDAt(9, 10), CommitmentID: commitID(11, 12)}, LatestCommitmentID: commitID(13, 14)}
	}
	val := func() *api.ValidatorResponse {
		return &api.ValidatorResponse{AddressBech32: "rms1xyz", StakingEndEpoch: 1, PoolStake: 2, ValidatorStake: 3, FixedCost: 4, Active: true, LatestSupportedProtocolVersion: 5, LatestSupportedProtocolHash: iotago.Identifier(gen.Fill32(6))}
	}
	com2 := func() *api.CommitteeMemberResponse {
		return &api.CommitteeMemberResponse{AddressBech32: "rms1abc", PoolStake: 1, ValidatorStake: 2, FixedCost: 3}
	}
	peer := func() *api.PeerInfo {
		return &api.PeerInfo{ID: "id", MultiAddresses: []iotago.PrefixedStringUint8{"a", "b"}, Alias: "al", Relation: "manual", Connected: true, GossipMetrics: &api.PeerGossipMetrics{PacketsReceived: 1, PacketsSent: 2}}
	}
	return []apiMsg{
		msg(func() *api.InfoResponse {
			return &api.InfoResponse{Name: "hornet", Version: "4.0", Status: &api.InfoResNodeStatus{IsHealthy: true, IsNetworkHealthy: true, AcceptedTangleTime: t(1), RelativeAcceptedTangleTime: t(2), ConfirmedTangleTime: t(3), RelativeConfirmedTangleTime: t(4), LatestCommitmentID: commitID(1, 2), LatestFinalizedSlot: 3, LatestAcceptedBlockSlot: 4, LatestConfirmedBlockSlot: 5, PruningEpoch: 6},
				ProtocolParameters: []*api.InfoResProtocolParameters{{StartEpoch: 1, Parameters: gen.ProtoParams(func() *ref.Params { p := ref.Default(); return &p }())}},
				BaseToken:          &api.InfoResBaseToken{Name: "iota", TickerSymbol: "IOTA", Unit: "u", Subunit: "s", Decimals: 6}}
		}),
		msg(func() *api.NetworkHealthResponse { return &api.NetworkHealthResponse{IsNetworkHealthy: true} }),
		msg(func() *api.NetworkMetricsResponse {
			return &api.NetworkMetricsResponse{BlocksPerSecond: 1.5, ConfirmedBlocksPerSecond: 2.25, ConfirmationRate: 0.125}
		}),
		msg(func() *api.IssuanceBlockHeaderResponse {
			return &api.IssuanceBlockHeaderResponse{StrongParents: iotago.BlockIDs{blockID(1, 2)}, WeakParents: iotago.BlockIDs{blockID(3, 4), blockID(5, 6)}, ShallowLikeParents: iotago.BlockIDs{blockID(7, 8)}, LatestParentBlockIssuingTime: t(9), LatestFinalizedSlot: 10, LatestCommitment: com()}
		}),
		msg(func() *api.BlockCreatedResponse { return &api.BlockCreatedResponse{BlockID: blockID(1, 2)} }),
		msg(func() *api.BlockMetadataResponse {
			return &api.BlockMetadataResponse{BlockID: blockID(1, 2), BlockState: api.BlockStateFinalized}
		}),
		msg(func() *api.BlockWithMetadataResponse {
			return &api.BlockWithMetadataResponse{Block: baseBlock(e, 20, false), Metadata: &api.BlockMetadataResponse{BlockID: blockID(1, 2), BlockState: api.BlockStateDropped}}
		}),
		msg(func() *api.TransactionMetadataResponse {
			return &api.TransactionMetadataResponse{TransactionID: gen.TxIDAt(1, 2), TransactionState: api.TransactionStateFailed, EarliestAttachmentSlot: 3, TransactionFailureReason: api.TxFailureManaOverflow, TransactionFailureDetails: "x"}
		}),
		msg(func() *api.OutputResponse { return &api.OutputResponse{Output: o(), OutputIDProof: proof()} }),
		msg(func() *api.OutputWithID { return &api.OutputWithID{OutputID: oid(1), Output: o()} }),
		msg(func() *api.OutputMetadata { return meta() }),
		msg(func() *api.OutputWithMetadataResponse {
			return &api.OutputWithMetadataResponse{Output: o(), OutputIDProof: proof(), Metadata: meta()}
		}),
		msg(func() *api.UTXOChangesResponse {
			return &api.UTXOChangesResponse{CommitmentID: commitID(1, 2), CreatedOutputs: iotago.OutputIDs{oid(3), oid(4)}, ConsumedOutputs: iotago.OutputIDs{oid(5), oid(6)}}
		}),
		msg(func() *api.UTXOChangesFullResponse {
			return &api.UTXOChangesFullResponse{CommitmentID: commitID(1, 2), CreatedOutputs: []*api.OutputWithID{{OutputID: oid(3), Output: o()}, {OutputID: oid(4), Output: o()}}, ConsumedOutputs: []*api.OutputWithID{{OutputID: oid(5), Output: o()}}}
		}),
		msg(func() *api.CongestionResponse {
			return &api.CongestionResponse{Slot: 1, Ready: true, ReferenceManaCost: 2, BlockIssuanceCredits: -3}
		}),
		msg(val),
		msg(func() *api.ValidatorsResponse {
			return &api.ValidatorsResponse{Validators: []*api.ValidatorResponse{val(), val()}, PageSize: 3, Cursor: "c"}
		}),
		msg(func() *api.ManaRewardsResponse {
			return &api.ManaRewardsResponse{StartEpoch: 1, EndEpoch: 2, Rewards: 3, LatestCommittedEpochPoolRewards: 4}
		}),
		msg(com2),
		msg(func() *api.CommitteeResponse {
			return &api.CommitteeResponse{Committee: []*api.CommitteeMemberResponse{com2(), com2()}, TotalStake: 4, TotalValidatorStake: 5, Epoch: 6}
		}),
		msg(func() *api.AddPeerRequest { return &api.AddPeerRequest{MultiAddress: "/ip4", Alias: "a"} }),
		msg(peer),
		msg(func() *api.PeersResponse { return &api.PeersResponse{Peers: []*api.PeerInfo{peer(), peer()}} }),
		msg(func() *api.PruneDatabaseRequest {
			return &api.PruneDatabaseRequest{Epoch: 1, Depth: 2, TargetDatabaseSize: "3GB"}
		}),
		msg(func() *api.PruneDatabaseResponse { return &api.PruneDatabaseResponse{Epoch: 1} }),
		msg(func() *api.HealthResponse { return &api.HealthResponse{IsHealthy: true} }),
		msg(func() *api.RoutesResponse {
			return &api.RoutesResponse{Routes: []iotago.PrefixedStringUint8{"core/v3", "b"}}
		}),
		msg(func() *api.IndexerResponse {
			return &api.IndexerResponse{CommittedSlot: 1, PageSize: 2, Items: iotago.HexOutputIDs{iotago.HexOutputID(oid(3).ToHex()), iotago.HexOutputID(oid(4).ToHex())}, Cursor: "c"}
		}),
		msg(func() *api.BlockIssuerInfo {
			return &api.BlockIssuerInfo{BlockIssuerAddress: "rms1q", PowTargetTrailingZeros: 7}
		}),
	}
}

// leaf is one settable field of a message with its alternative values.
type leaf struct {
	path string
	set  []func(root reflect.Value)
	name []string
}

// leaves lists the fields of messages (not of the protocol objects inside, which the catalog covers).
func leaves(v reflect.Value, path string, at func(root reflect.Value) reflect.Value, out *[]leaf) {
	alt := func(vals ...any) {
		l := leaf{path: path}
		for _, val := range vals {
			rv := reflect.ValueOf(val).Convert(v.Type())
			l.set = append(l.set, func(root reflect.Value) { at(root).Set(rv) })
			l.name = append(l.name, fmt.Sprintf("%.20v", val))
		}
		*out = append(*out, l)
	}
	switch x := v.Interface().(type) {
	case time.Time:
		l := leaf{path: path}
		for _, n := range []int64{0, 1, 1<<53 + 1, math.MaxInt64 - 1} {
			l.set = append(l.set, func(root reflect.Value) { at(root).Set(reflect.ValueOf(time.Unix(0, n).UTC())) })
			l.name = append(l.name, fmt.Sprint(n))
		}
		*out = append(*out, l)
		return
	case api.BlockState:
		alt(api.BlockState(0), api.BlockState(1), api.BlockState(2), api.BlockState(3), api.BlockState(4), api.BlockState(5), api.BlockState(6))
		return
	case api.TransactionState:
		alt(api.TransactionState(0), api.TransactionState(1), api.TransactionState(2), api.TransactionState(3), api.TransactionState(4), api.TransactionState(5))
		return
	default:
		_ = x
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || strings.HasSuffix(v.Type().Elem().PkgPath(), "/v4") {
			return
		}
		if path != "" && v.Type() == reflect.TypeOf((*api.OutputConsumptionMetadata)(nil)) {
			z := reflect.Zero(v.Type())
			*out = append(*out, leaf{path: path, set: []func(reflect.Value){func(root reflect.Value) { at(root).Set(z) }}, name: []string{"absent"}})
		}
		leaves(v.Elem(), path, func(r reflect.Value) reflect.Value { return at(r).Elem() }, out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			leaves(v.Field(i), path+"."+v.Type().Field(i).Name, func(r reflect.Value) reflect.Value { return at(r).Field(i) }, out)
		}
	case reflect.Slice:
		n := v.Len()
		l := leaf{path: path}
		for k := 0; k <= n; k++ {
			l.set = append(l.set, func(root reflect.Value) { s := at(root); s.Set(s.Slice(0, k)) })
			l.name = append(l.name, fmt.Sprintf("first %d", k))
		}
		*out = append(*out, l)
		if n > 0 && !strings.HasSuffix(v.Type().Elem().PkgPath(), "/v4") {
			leaves(v.Index(n-1), fmt.Sprintf("%s[%d]", path, n-1), func(r reflect.Value) reflect.Value { return at(r).Index(n - 1) }, out)
		}
	case reflect.Array:
		alt2 := func(b byte) reflect.Value {
			a := reflect.New(v.Type()).Elem()
			for i := 0; i < a.Len(); i++ {
				a.Index(i).SetUint(uint64(b))
			}
			return a
		}
		l := leaf{path: path}
		for _, b := range []byte{0, 1, 0xff} {
			l.set = append(l.set, func(root reflect.Value) { at(root).Set(alt2(b)) })
			l.name = append(l.name, fmt.Sprintf("all %02x", b))
		}
		*out = append(*out, l)
	case reflect.Bool:
		alt(false, true)
	case reflect.String:
		alt("", "x", "ü€\"\\\n<&>", strings.Repeat("s", 255))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		bits := v.Type().Bits()
		alt(uint64(0), uint64(1), uint64(1)<<(bits-1), ^uint64(0)>>(64-bits))
		if bits == 64 {
			alt(uint64(1)<<53, uint64(1)<<53+1)
		}
	case reflect.Int64, reflect.Int:
		alt(int64(0), int64(-1), int64(math.MinInt64), int64(math.MaxInt64), int64(1)<<53+1)
	case reflect.Float64:
		alt(0.0, 1e-300, 1e300, 0.1)
	}
}

// sameDeep compares two values by their exported content; empty and absent lists are the same.
func sameDeep(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	if a.CanInterface() {
		switch x := a.Interface().(type) {
		case time.Time:
			return x.Equal(b.Interface().(time.Time))
		case *big.Int:
			y := b.Interface().(*big.Int)
			if x == nil || y == nil {
				return x == y
			}
			return x.Cmp(y) == 0
		case iotago.API:
			return true
		case iotago.ProtocolParameters:
			return string(ref.Enc(x)) == string(ref.Enc(b.Interface()))
		case *iotago.OutputIDProof:
			y := b.Interface().(*iotago.OutputIDProof)
			p, _ := x.Bytes()
			q, _ := y.Bytes()
			return string(p) == string(q)
		}
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return sameDeep(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.IsExported() && f.Name != "API" && !sameDeep(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !sameDeep(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() || !sameDeep(a.MapIndex(k), y) {
				return false
			}
		}
		return true
	}
	return a.Interface() == b.Interface()
}
