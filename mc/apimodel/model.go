// Package apimodel specifies the version provider as a sequential object and drives the real one.
package apimodel

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"time"

	"golang.org/x/crypto/blake2b"

	iotago "github.com/iotaledger/iota.go/v4"
)

// Op is one call.
type Op struct {
	Kind string
	V    int    // version or index into Kit.Params
	N    uint32 // epoch or slot
}

func (o Op) String() string { return fmt.Sprintf("%s(%d,%d)", o.Kind, o.V, o.N) }

// params are protocol parameters that remember their hash.
type params struct {
	*iotago.V3ProtocolParameters
	h iotago.Identifier
}

func (p *params) Hash() (iotago.Identifier, error) { return p.h, nil }
func (p *params) Equals(o iotago.ProtocolParameters) bool {
	q, ok := o.(*params)
	return ok && q.h == p.h
}

// Param is one set of protocol parameters.
type Param struct {
	Name string
	V    int
	Obj  iotago.ProtocolParameters
	Hash [32]byte
}

// Kit holds the objects the calls use.
type Kit struct {
	Params []Param
	base   iotago.API
	byPtr  map[iotago.ProtocolParameters]string
}

const (
	genesisTime = 1_600_000_000
	slotDur     = 10
	perEpoch    = 8
)

// api is an API of a later protocol version.
type api struct {
	iotago.API
	p iotago.ProtocolParameters
}

func (a *api) Version() iotago.Version                       { return a.p.Version() }
func (a *api) ProtocolParameters() iotago.ProtocolParameters { return a.p }

// NewKit makes two variants of the parameters of each version.
func NewKit(versions ...int) *Kit {
	k := &Kit{byPtr: map[iotago.ProtocolParameters]string{}}
	for _, v := range versions {
		for i, va := range []string{"a", "b"} {
			p := iotago.NewV3SnapshotProtocolParameters(iotago.WithVersion(iotago.Version(v)), iotago.WithTimeProviderOptions(0, genesisTime, slotDur, 3),
				iotago.WithLivenessOptions(5, 9, 1, 3, 5), iotago.WithSupplyOptions(1000, 63, 1, 11, 32, 1, 70), iotago.WithNetworkOptions("net"+va, "tst"), iotago.WithTargetCommitteeSize(uint8(3+i)))
			h, err := p.Hash()
			if err != nil {
				panic(err)
			}
			pa := Param{fmt.Sprintf("%d%s", v, va), v, &params{p, h}, h}
			if v == 3 {
				pa.Obj = p
			}
			if k.base == nil {
				k.base = iotago.V3API(p)
			}
			k.Params = append(k.Params, pa)
			k.byPtr[pa.Obj] = pa.Name
		}
	}
	return k
}

// Provider makes an empty provider which knows how to build APIs of the later versions.
func (k *Kit) Provider() *iotago.EpochBasedProvider {
	return iotago.NewEpochBasedProvider(iotago.WithAPIForMissingVersionCallback(func(p iotago.ProtocolParameters) (iotago.API, error) {
		return &api{k.base, p}, nil
	}))
}

func (k *Kit) name(p iotago.ProtocolParameters) string {
	if p == nil {
		return "nil"
	}
	if n, ok := k.byPtr[p]; ok {
		return n
	}
	return fmt.Sprintf("unknown parameters %T", p)
}

func (k *Kit) apiName(a iotago.API) string {
	if a == nil {
		return "nil"
	}
	if int(a.Version()) != int(a.ProtocolParameters().Version()) {
		return fmt.Sprintf("api of version %d with parameters of version %d", a.Version(), a.ProtocolParameters().Version())
	}
	return "api " + k.name(a.ProtocolParameters())
}

func hash(v int) (h iotago.Identifier) {
	for i := range h {
		h[i] = byte(0xf0 + v)
	}
	return
}

// Do performs a call on the real provider.
func (k *Kit) Do(p *iotago.EpochBasedProvider, o Op) (res string) {
	defer func() {
		if recover() != nil {
			res = "panic"
		}
	}()
	switch o.Kind {
	case "AddParams":
		p.AddProtocolParameters(k.Params[o.V].Obj)
	case "AddVersion":
		p.AddVersion(iotago.Version(o.V), iotago.EpochIndex(o.N))
	case "AddFuture":
		p.AddFutureVersion(iotago.Version(o.V), hash(o.V), iotago.EpochIndex(o.N))
	case "AddAtEpoch":
		p.AddProtocolParametersAtEpoch(k.Params[o.V].Obj, iotago.EpochIndex(o.N))
	case "SetSlot":
		p.SetCommittedSlot(iotago.SlotIndex(o.N))
	case "ForVersion":
		a, err := p.APIForVersion(iotago.Version(o.V))
		if err != nil {
			if a != nil {
				return "error and an API"
			}
			return "error"
		}
		return k.apiName(a)
	case "ForTime":
		return k.apiName(p.APIForTime(time.Unix(int64(genesisTime)+int64(o.N), 999_999_999)))
	case "ForSlot":
		return k.apiName(p.APIForSlot(iotago.SlotIndex(o.N)))
	case "ForEpoch":
		return k.apiName(p.APIForEpoch(iotago.EpochIndex(o.N)))
	case "Latest":
		return k.apiName(p.LatestAPI())
	case "Committed":
		return k.apiName(p.CommittedAPI())
	case "Hash":
		h, err := p.VersionsAndProtocolParametersHash()
		if err != nil {
			return "error"
		}
		return fmt.Sprintf("%x", h[:8])
	case "Params":
		return k.name(p.ProtocolParameters(iotago.Version(o.V)))
	case "ParamsHash":
		h := p.ProtocolParametersHash(iotago.Version(o.V))
		return fmt.Sprintf("%x", h[:8])
	case "Versions":
		var s []string
		for _, v := range p.ProtocolEpochVersions() {
			s = append(s, fmt.Sprintf("%d@%d", v.Version, v.StartEpoch))
		}
		return strings.Join(s, " ")
	case "EpochFor":
		e, ok := p.EpochForVersion(iotago.Version(o.V))
		if !ok {
			return "none"
		}
		return fmt.Sprint(uint32(e))
	case "VersionFor":
		return fmt.Sprint(uint8(p.VersionForSlot(iotago.SlotIndex(o.N))))
	default:
		return "?"
	}
	return "ok"
}

// Model is the specification.
type Model struct {
	k         *Kit
	params    map[int]int // version -> index into Kit.Params
	future    map[int]bool
	sched     map[int]uint32
	slot      uint32
	committed int // index into Kit.Params, -1 none
}

// NewModel is the empty provider.
func (k *Kit) NewModel() *Model {
	return &Model{k: k, params: map[int]int{}, future: map[int]bool{}, sched: map[int]uint32{}, committed: -1}
}

// Clone copies the model.
func (m *Model) Clone() *Model {
	n := m.k.NewModel()
	for a, b := range m.params {
		n.params[a] = b
	}
	for a, b := range m.future {
		n.future[a] = b
	}
	for a, b := range m.sched {
		n.sched[a] = b
	}
	n.slot, n.committed = m.slot, m.committed
	return n
}

// Key identifies the state.
func (m *Model) Key() string { return fmt.Sprint(m.params, m.future, m.sched, m.slot, m.committed) }

// Slot is the committed slot.
func (m *Model) Slot() uint32 { return m.slot }

// Scheduled says whether a version has a start epoch.
func (m *Model) Scheduled(v int) bool { _, ok := m.sched[v]; return ok }

// Known says whether the parameters of a version are there.
func (m *Model) Known(v int) bool { _, ok := m.params[v]; return ok }

func epochOf(slot uint32) uint32 { return slot / perEpoch }

// inForce is the version scheduled for an epoch.
func (m *Model) inForce(epoch uint32) (v int, ok bool) {
	for x, s := range m.sched {
		if s <= epoch && (!ok || x > v) {
			v, ok = x, true
		}
	}
	return
}

func (m *Model) api(epoch uint32) string {
	v, ok := m.inForce(epoch)
	if !ok {
		return "panic"
	}
	i, ok := m.params[v]
	if !ok {
		return "panic"
	}
	return "api " + m.k.Params[i].Name
}

// commit applies the schedule to the committed slot; false if the version in force there is not known.
func (m *Model) commit() bool {
	v, ok := m.inForce(epochOf(m.slot))
	if !ok {
		return false
	}
	i, ok := m.params[v]
	if !ok {
		return false
	}
	m.committed = i
	return true
}

// Do performs a call.
func (m *Model) Do(o Op) string {
	outcome := func(ok bool) string {
		if ok || len(m.params) == 0 {
			return "ok"
		}
		return "panic"
	}
	switch o.Kind {
	case "AddParams":
		m.params[m.k.Params[o.V].V] = o.V
		delete(m.future, m.k.Params[o.V].V)
		if m.committed >= 0 && m.k.Params[m.committed].V == m.k.Params[o.V].V {
			m.committed = o.V
		}
		m.commit()
		return "ok"
	case "AddVersion":
		if _, ok := m.sched[o.V]; !ok {
			m.sched[o.V] = o.N
		}
		return outcome(m.commit())
	case "AddFuture":
		if _, ok := m.sched[o.V]; !ok {
			m.sched[o.V] = o.N
		}
		m.future[o.V] = true
		return "ok"
	case "AddAtEpoch":
		m.Do(Op{Kind: "AddParams", V: o.V})
		return m.Do(Op{Kind: "AddVersion", V: m.k.Params[o.V].V, N: o.N})
	case "SetSlot":
		m.slot = o.N
		return outcome(m.commit())
	case "ForVersion":
		if i, ok := m.params[o.V]; ok {
			return "api " + m.k.Params[i].Name
		}
		return "error"
	case "ForTime", "ForSlot":
		if len(m.params) == 0 {
			return "panic"
		}
		s := o.N
		if o.Kind == "ForTime" {
			s = 1 + o.N/slotDur
		}
		return m.api(epochOf(s))
	case "ForEpoch":
		return m.api(o.N)
	case "Latest":
		best := -1
		for v := range m.params {
			if v > best {
				best = v
			}
		}
		if best < 0 {
			return "nil"
		}
		return "api " + m.k.Params[m.params[best]].Name
	case "Committed":
		if m.committed < 0 {
			return "nil"
		}
		return "api " + m.k.Params[m.committed].Name
	case "Hash":
		var b []byte
		for _, v := range m.versions() {
			b = append(b, byte(v))
			b = binary.LittleEndian.AppendUint32(b, m.sched[v])
			if i, ok := m.params[v]; ok {
				b = append(b, m.k.Params[i].Hash[:]...)
			} else if m.future[v] {
				h := hash(v)
				b = append(b, h[:]...)
			} else {
				return "error"
			}
		}
		h := blake2b.Sum256(b)
		return fmt.Sprintf("%x", h[:8])
	case "Params":
		if i, ok := m.params[o.V]; ok {
			return m.k.Params[i].Name
		}
		return "nil"
	case "ParamsHash":
		var h [32]byte
		if i, ok := m.params[o.V]; ok {
			h = m.k.Params[i].Hash
		} else if m.future[o.V] {
			h = hash(o.V)
		}
		return fmt.Sprintf("%x", h[:8])
	case "Versions":
		var s []string
		for _, v := range m.versions() {
			s = append(s, fmt.Sprintf("%d@%d", v, m.sched[v]))
		}
		return strings.Join(s, " ")
	case "EpochFor":
		if e, ok := m.sched[o.V]; ok {
			return fmt.Sprint(e)
		}
		return "none"
	case "VersionFor":
		if len(m.params) == 0 {
			return "panic"
		}
		v, ok := m.inForce(epochOf(o.N))
		if !ok {
			return "panic"
		}
		return fmt.Sprint(v)
	}
	return "?"
}

func (m *Model) versions() (vs []int) {
	for v := range m.sched {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	return
}

// Getters are all questions worth asking about small versions and epochs.
func Getters(versions []int, slots []uint32) (os []Op) {
	os = append(os, Op{Kind: "Latest"}, Op{Kind: "Committed"}, Op{Kind: "Hash"}, Op{Kind: "Versions"})
	for _, v := range versions {
		for _, k := range []string{"ForVersion", "Params", "ParamsHash", "EpochFor"} {
			os = append(os, Op{Kind: k, V: v})
		}
	}
	for _, s := range slots {
		os = append(os, Op{Kind: "ForSlot", N: s}, Op{Kind: "VersionFor", N: s}, Op{Kind: "ForEpoch", N: s / perEpoch})
		if s > 0 {
			os = append(os, Op{Kind: "ForTime", N: (s - 1) * slotDur}, Op{Kind: "ForTime", N: (s-1)*slotDur + slotDur - 1})
		}
	}
	return
}
