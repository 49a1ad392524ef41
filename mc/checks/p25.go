package checks

import (
	"fmt"

	iotago "github.com/iotaledger/iota.go/v4"

	"verif.local/mc/apimodel"
	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

func init() { All["P25"] = p25 }

func p25(x *core.Ctx) {
	x.Assume("all versions share the genesis time, slot duration and epoch length; the committed slot only moves forward; AddFutureVersion names versions whose parameters are not there yet")
	x.Assume("a query that needs a version which is not scheduled or whose parameters are missing panics or returns an error, depending on the method's signature")
	type S struct {
		hist []apimodel.Op
		m    *apimodel.Model
	}
	search := func(name string, merge bool, versions []int, variants int, epochs, slots []uint32, depth int) {
		k := apimodel.NewKit(versions...)
		var menu []apimodel.Op
		for i := range k.Params {
			if i%2 >= variants {
				continue
			}
			menu = append(menu, apimodel.Op{Kind: "AddParams", V: i})
			for _, e := range epochs {
				menu = append(menu, apimodel.Op{Kind: "AddAtEpoch", V: i, N: e})
			}
		}
		for _, v := range versions {
			for _, e := range epochs {
				menu = append(menu, apimodel.Op{Kind: "AddVersion", V: v, N: e}, apimodel.Op{Kind: "AddFuture", V: v, N: e})
			}
		}
		for _, s := range slots {
			menu = append(menu, apimodel.Op{Kind: "SetSlot", N: s})
		}
		gets := apimodel.Getters(append([]int{1, 9}, versions...), []uint32{0, 1, 7, 8, 15, 16, 17, 23, 24, 1 << 20, 1<<29 - 1})
		core.BFS(x, core.Search[S]{Name: name, Init: []S{{nil, k.NewModel()}}, Depth: depth,
			Events: func(S) (int, func(int) string) { return len(menu), func(i int) string { return menu[i].String() } },
			Key: func(s S) string {
				if !merge {
					return fmt.Sprint(s.hist)
				}
				return s.m.Key()
			},
			Apply: func(s S, ev int, c *core.C) (S, bool) {
				op := menu[ev]
				if op.Kind == "SetSlot" && op.N <= s.m.Slot() {
					c.Skip()
					return s, false
				}
				if op.Kind == "AddFuture" && s.m.Known(op.V) {
					c.Skip()
					return s, false
				}
				p := k.Provider()
				for _, o := range s.hist {
					k.Do(p, o)
				}
				n := S{append(append([]apimodel.Op{}, s.hist...), op), s.m.Clone()}
				want := n.m.Do(op)
				got := k.Do(p, op)
				c.Step(1)
				c.Note("%v", n.hist)
				if !c.Check(got == want, op.Kind, "%v after %v: got %q, want %q", op, s.hist, got, want) {
					return n, false
				}
				c.Outcome(op.Kind + " " + want)
				for _, g := range gets {
					c.Step(1)
					want, got := n.m.Do(g), k.Do(p, g)
					if !c.Check(got == want, g.Kind, "%v after %v: got %q, want %q", g, n.hist, got, want) {
						return n, false
					}
				}
				c.Validated()
				return n, true
			}})
	}
	search("histories of later versions", true, []int{4, 5, 6}, 1, []uint32{0, 2, 3}, []uint32{8, 16, 23, 24, 100}, core.Pick(x, 5, 6))
	search("histories with replaced parameters", true, []int{4, 5}, 2, []uint32{0, 2}, []uint32{15, 16}, core.Pick(x, 4, 6))
	search("histories with version 3", true, []int{3, 4}, 2, []uint32{0, 2}, []uint32{15, 16}, core.Pick(x, 2, 3))
	search("every history of two versions", false, []int{4, 5}, 1, []uint32{0, 2}, []uint32{16}, core.Pick(x, 4, 5))
	search("every history of replaced parameters", false, []int{4}, 2, []uint32{0, 2}, []uint32{15, 16}, core.Pick(x, 5, 6))
	search("two versions, long histories", true, []int{4, 5}, 1, []uint32{0, 2}, []uint32{15, 16, 17}, core.Pick(x, 6, 9))

	// the epoch table on its own, and the provider of a single version
	x.Product("epoch table", []core.Dim{core.D("v1", 4), core.D("e1", 4), core.D("v2", 4), core.D("e2", 4), core.D("v3", 4), core.D("e3", 4)}, func(v []int, c *core.C) {
		t := iotago.NewProtocolEpochVersions()
		sched := map[int]int{}
		for i := 0; i < 6; i += 2 {
			t.Add(iotago.Version(v[i]+3), iotago.EpochIndex(v[i+1]))
			if _, ok := sched[v[i]]; !ok {
				sched[v[i]] = v[i+1]
			}
		}
		c.State([]byte(fmt.Sprint(sched)))
		for e := 0; e < 6; e++ {
			want := -1
			for a, s := range sched {
				if s <= e && a > want {
					want = a
				}
			}
			var got iotago.Version
			pan := core.Panics(func() { got = t.VersionForEpoch(iotago.EpochIndex(e)) })
			c.Step(1)
			if want < 0 {
				c.Check(pan != "", "table", "epoch %d has no version, got %d", e, got)
			} else {
				c.Check(pan == "" && int(got) == want+3, "table", "version for epoch %d: %d %s, want %d", e, got, pan, want+3)
			}
		}
		for a := 0; a < 4; a++ {
			e, ok := t.EpochForVersion(iotago.Version(a + 3))
			we, wok := sched[a]
			c.Check(ok == wok && (!ok || int(e) == we), "table epoch", "epoch for version %d: %d %v, want %d %v", a+3, e, ok, we, wok)
		}
		var want []byte
		n := 0
		for a := 0; a < 4; a++ {
			if e, ok := sched[a]; ok {
				want = append(want, byte(a+3), byte(e), 0, 0, 0)
				n++
			}
		}
		c.Check(string(t.Bytes()) == string(want), "table bytes", "bytes %x, want %x", t.Bytes(), want)
		sl := t.Slice()
		c.Check(len(sl) == n, "table slice", "%d entries, want %d", len(sl), n)
		if n > 0 {
			sl[0].StartEpoch = 77
			c.Check(t.Slice()[0].StartEpoch != 77, "table shared", "changing the returned entries changes the table")
		}
		c.Outcomef("%d versions", n)
	})
	e := gen.NewEnv(ref.Default())
	x.Product("single version", []core.Dim{core.D("n", 300)}, func(v []int, c *core.C) {
		p := iotago.SingleVersionProvider(e.API)
		a, err := p.APIForVersion(iotago.Version(v[0]))
		c.Step(3)
		c.Check(err == nil && a == e.API && p.APIForSlot(iotago.SlotIndex(v[0])) == e.API && p.APIForEpoch(iotago.EpochIndex(v[0])) == e.API && p.LatestAPI() == e.API && p.CommittedAPI() == e.API, "single", "another API for %d", v[0])
		c.Outcome("same")
	})
	// parameters added again replace the earlier ones, whatever differs
	base := iotago.NewV3SnapshotProtocolParameters()
	var vars []paramVariant
	for _, v := range paramVariants(base, 1, 0x80) {
		if core.Panics(func() { iotago.V3API(v.mk()) }) == "" {
			vars = append(vars, v)
		}
	}
	x.Product("replacing parameters", []core.Dim{core.D("from", 2), core.DL("version", "3", "9"), core.D("to", len(vars))}, func(v []int, c *core.C) {
		p := iotago.NewEpochBasedProvider(iotago.WithAPIForMissingVersionCallback(func(pp iotago.ProtocolParameters) (iotago.API, error) { return &otherAPI{e.API, pp}, nil }))
		first, second := vars[0].mk(), vars[v[2]].mk()
		if v[0] == 1 {
			first, second = second, first
		}
		n := iotago.Version(3)
		if v[1] == 1 {
			n, first, second = 9, &otherVersion{first}, &otherVersion{second}
		}
		if first.Version() != n || second.Version() != n {
			c.Skip()
			return
		}
		pan := core.Panics(func() {
			p.AddProtocolParametersAtEpoch(first, 0)
			p.AddProtocolParameters(second)
		})
		if !c.Check(pan == "", "replace panic", "replacing by %s: %s", vars[v[2]].name, pan) {
			return
		}
		want, _ := second.Bytes()
		hash, _ := second.Hash()
		same := func(what string, got iotago.ProtocolParameters) {
			b, err := got.Bytes()
			c.Check(err == nil && string(b) == string(want), "replace "+what, "%s of the replaced parameters (%s)", what, vars[v[2]].name)
		}
		same("parameters", p.ProtocolParameters(n))
		same("latest", p.LatestAPI().ProtocolParameters())
		same("committed", p.CommittedAPI().ProtocolParameters())
		a, err := p.APIForVersion(n)
		if c.Check(err == nil, "replace version", "no API for version %d: %v", n, err) {
			same("for version", a.ProtocolParameters())
		}
		c.Check(p.ProtocolParametersHash(n) == hash, "replace hash", "hash of the replaced parameters (%s)", vars[v[2]].name)
		c.Step(6)
		c.Outcome("replaced")
	})
	schedule(x, "api")
	racePass(x, "provider-pairs")
}

type otherVersion struct{ iotago.ProtocolParameters }

func (o *otherVersion) Version() iotago.Version { return 9 }
func (o *otherVersion) Equals(p iotago.ProtocolParameters) bool {
	q, ok := p.(*otherVersion)
	return ok && o.ProtocolParameters.Equals(q.ProtocolParameters)
}

type otherAPI struct {
	iotago.API
	p iotago.ProtocolParameters
}

func (a *otherAPI) Version() iotago.Version                       { return a.p.Version() }
func (a *otherAPI) ProtocolParameters() iotago.ProtocolParameters { return a.p }
