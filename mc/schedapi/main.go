// Command schedapi explores every schedule of concurrent calls on the version provider (built with a rewritten copy of it).
package main

import (
	"fmt"
	"os"
	"strings"

	"verif.local/mc/apimodel"
	"verif.local/mc/schedout"
	"verif.local/mc/vsched"
)

type call struct {
	op       apimodel.Op
	res      string
	from, to int
}

// linear says whether the calls can be put in one order that the specification explains.
func linear(m *apimodel.Model, ths [][]*call, finals []*call) bool {
	idx := make([]int, len(ths))
	var rec func(m *apimodel.Model) bool
	rec = func(m *apimodel.Model) bool {
		left := false
		for t := range ths {
			if idx[t] == len(ths[t]) {
				continue
			}
			left = true
			c := ths[t][idx[t]]
			// no other pending call may have ended before this one began
			early := true
			for u := range ths {
				if u != t && idx[u] < len(ths[u]) && ths[u][idx[u]].to < c.from {
					early = false
				}
			}
			if !early {
				continue
			}
			n := m.Clone()
			if n.Do(c.op) != c.res {
				continue
			}
			idx[t]++
			if rec(n) {
				return true
			}
			idx[t]--
		}
		if left {
			return false
		}
		for _, f := range finals {
			if m.Clone().Do(f.op) != f.res {
				return false
			}
		}
		return true
	}
	return rec(m)
}

func main() {
	thorough := len(os.Args) > 1 && os.Args[1] == "thorough"
	k := apimodel.NewKit(4, 5, 6)
	op := func(kind string, v int, n uint32) apimodel.Op { return apimodel.Op{Kind: kind, V: v, N: n} }
	type start struct {
		name string
		ops  []apimodel.Op
		wr   []apimodel.Op // calls that change something and make sense from here
	}
	starts := []start{
		{"version 4", []apimodel.Op{op("AddAtEpoch", 0, 0)}, []apimodel.Op{op("AddAtEpoch", 2, 2), op("AddParams", 2, 0), op("AddFuture", 5, 2), op("SetSlot", 0, 16), op("AddParams", 1, 0)}},
		{"version 5 scheduled with its parameters", []apimodel.Op{op("AddAtEpoch", 0, 0), op("AddAtEpoch", 2, 2)}, []apimodel.Op{op("SetSlot", 0, 16), op("AddParams", 3, 0), op("AddAtEpoch", 4, 2), op("AddFuture", 6, 3)}},
		{"version 5 announced", []apimodel.Op{op("AddAtEpoch", 0, 0), op("AddFuture", 5, 2)}, []apimodel.Op{op("SetSlot", 0, 16), op("AddParams", 2, 0), op("AddAtEpoch", 2, 2), op("AddAtEpoch", 4, 3)}},
		{"version 5 known, not scheduled", []apimodel.Op{op("AddAtEpoch", 0, 0), op("AddParams", 2, 0)}, []apimodel.Op{op("AddVersion", 5, 2), op("SetSlot", 0, 16), op("AddAtEpoch", 2, 2), op("AddParams", 3, 0)}},
		{"empty", nil, []apimodel.Op{op("AddAtEpoch", 0, 0), op("AddVersion", 4, 0), op("AddParams", 0, 0)}},
	}
	reads := []apimodel.Op{op("Latest", 0, 0), op("Committed", 0, 0), op("Hash", 0, 0), op("Versions", 0, 0), op("ForVersion", 5, 0), op("ForVersion", 4, 0), op("Params", 5, 0), op("ParamsHash", 5, 0),
		op("EpochFor", 5, 0), op("VersionFor", 0, 16), op("ForSlot", 0, 16), op("ForSlot", 0, 0), op("ForEpoch", 0, 2), op("ForTime", 0, 150)}
	finals := []apimodel.Op{op("Latest", 0, 0), op("Committed", 0, 0), op("Hash", 0, 0), op("Versions", 0, 0), op("ForVersion", 4, 0), op("ForVersion", 5, 0), op("ForSlot", 0, 16), op("ForSlot", 0, 24)}
	var scs []schedout.Scenario
	add := func(st start, bound int, ths ...[]apimodel.Op) {
		var nm []string
		for _, t := range ths {
			nm = append(nm, fmt.Sprint(t))
		}
		name := fmt.Sprintf("%s: %s preemptions=%d", st.name, strings.Join(nm, " || "), bound)
		scs = append(scs, schedout.Scenario{Name: name, Opt: vsched.Options{Bound: bound, Streak: 1 << 30, Steps: 20000}, Body: func() (func(), func(*vsched.Run) (string, string)) {
			p := k.Provider()
			m := k.NewModel()
			for _, o := range st.ops {
				k.Do(p, o)
				m.Do(o)
			}
			calls := make([][]*call, len(ths))
			var fin []*call
			return func() {
					left := len(ths)
					for i, t := range ths {
						vsched.GoNamed(fmt.Sprintf("T%d", i+1), func() {
							for _, o := range t {
								c := &call{op: o, from: vsched.Steps()}
								c.res = k.Do(p, o)
								c.to = vsched.Steps()
								calls[i] = append(calls[i], c)
							}
							left--
						})
					}
					vsched.Op(func() bool { return left == 0 }, "wait for the callers")
					for _, o := range finals {
						fin = append(fin, &call{op: o, res: k.Do(p, o)})
					}
				}, func(*vsched.Run) (string, string) {
					var obs []string
					for _, t := range calls {
						for _, c := range t {
							obs = append(obs, c.op.Kind)
							if strings.HasPrefix(c.res, "panic") {
								obs = append(obs, "panics")
							}
						}
					}
					if !linear(m, calls, fin) {
						var s []string
						for i, t := range calls {
							for _, c := range t {
								s = append(s, fmt.Sprintf("T%d %v [%d,%d] -> %s", i+1, c.op, c.from, c.to, c.res))
							}
						}
						for _, c := range fin {
							s = append(s, fmt.Sprintf("then %v -> %s", c.op, c.res))
						}
						return "not linearizable: " + strings.Join(s, "; "), ""
					}
					return "", strings.Join(obs, " ")
				}
		}})
	}
	writes := func(o apimodel.Op) bool { return o.Kind == "SetSlot" || strings.HasPrefix(o.Kind, "Add") }
	b2, b3 := 2, 1
	if thorough {
		b2, b3 = 3, 2
	}
	for _, st := range starts {
		for i, w := range st.wr {
			for a, r := range reads {
				add(st, b3, []apimodel.Op{w}, []apimodel.Op{r}, []apimodel.Op{reads[(a+3)%len(reads)]})
				for _, q := range reads {
					add(st, b2, []apimodel.Op{w}, []apimodel.Op{r, q})
				}
				for j, w2 := range st.wr {
					if j != i && writes(w2) {
						add(st, b2, []apimodel.Op{w, r}, []apimodel.Op{w2})
						if j > i {
							add(st, b3, []apimodel.Op{w}, []apimodel.Op{w2}, []apimodel.Op{r})
						}
					}
				}
			}
			for j, w2 := range st.wr {
				for l, w3 := range st.wr {
					if i < j && j < l {
						add(st, b3, []apimodel.Op{w}, []apimodel.Op{w2}, []apimodel.Op{w3})
					}
				}
			}
		}
		for a, r := range reads {
			for b, q := range reads {
				if a <= b {
					add(st, 1, []apimodel.Op{r}, []apimodel.Op{q})
				}
			}
		}
	}
	schedout.Main("provider schedules", scs)
}
