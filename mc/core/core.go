// Package core is the explicit-state exploration engine used by all checks:
// exhaustive products of finite dimensions, breadth-first search over histories,
// counters, distinct-outcome histograms, violation confirmation, replay files,
// known findings and the evidence file.
package core

import (
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Dim is one finite dimension of a product space.
type Dim struct {
	Name   string
	N      int
	Labels []string
}

// D declares a dimension of n unlabelled values.
func D(name string, n int) Dim { return Dim{Name: name, N: n} }

// DL declares a dimension with labelled values.
func DL(name string, labels ...string) Dim { return Dim{Name: name, N: len(labels), Labels: labels} }

// DV declares a dimension whose labels are the printed values of vals.
func DV[T any](name string, vals []T) Dim {
	l := make([]string, len(vals))
	for i, v := range vals {
		l[i] = fmt.Sprintf("%v", v)
	}
	return Dim{Name: name, N: len(vals), Labels: l}
}

func (d Dim) label(i int) string {
	if d.Labels != nil {
		return d.Labels[i]
	}
	return strconv.Itoa(i)
}

// C is the context of the evaluation of one case (one state of a product space or one transition of a search).
type C struct {
	x         *Ctx
	steps     uint64
	validated uint64
	outcome   string
	outcomes  []string
	states    []uint64
	fails     []failure
	skip      bool
	note      string
}

type failure struct{ key, msg string }

// Step counts n executed implementation operations (transitions).
func (c *C) Step(n int) { c.steps += uint64(n) }

// Validated counts one comparison of a model verdict/value with the implementation.
func (c *C) Validated() { c.validated++ }

// Outcome records the observed outcome class of the case.
func (c *C) Outcome(s string) { c.outcomes = append(c.outcomes, s) }

// Outcomef records the observed outcome class of the case.
func (c *C) Outcomef(f string, a ...any) { c.Outcome(fmt.Sprintf(f, a...)) }

// State records a visited state, identified by its canonical bytes.
func (c *C) State(b []byte) { c.states = append(c.states, maphash.Bytes(seed, b)) }

// StateS records a visited state identified by its canonical string.
func (c *C) StateS(s string) { c.states = append(c.states, maphash.String(seed, s)) }

// Skip marks the case as outside the space (e.g. unbuildable combination).
func (c *C) Skip() { c.skip = true }

// Note attaches a description of the case, printed in samples and replays.
func (c *C) Note(f string, a ...any) { c.note = fmt.Sprintf(f, a...) }

// Fail reports a property violation; key identifies it semantically for the known-findings file.
func (c *C) Fail(key, f string, a ...any) {
	if c.x != nil && c.x.Only != "" && !strings.HasPrefix(key, c.x.Only) {
		return
	}
	c.fails = append(c.fails, failure{key, fmt.Sprintf(f, a...)})
}

// Failed tells whether a failure was recorded.
func (c *C) Failed() bool { return len(c.fails) > 0 }

// Check fails with key/msg unless ok; counts a validation.
func (c *C) Check(ok bool, key, f string, a ...any) bool {
	c.validated++
	if !ok {
		c.Fail(key, f, a...)
	}
	return ok
}

// Panics runs fn and returns the panic value text, or "".
func Panics(fn func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v at %s", r, panicSite())
		}
	}()
	fn()
	return ""
}

func panicSite() string {
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "/repo/") {
			return l
		}
	}
	return "?"
}

var seed = maphash.MakeSeed()

const shards = 64

type stateSet struct {
	mu [shards]sync.Mutex
	m  [shards]map[uint64]struct{}
}

func newStateSet() *stateSet {
	s := &stateSet{}
	for i := range s.m {
		s.m[i] = map[uint64]struct{}{}
	}
	return s
}

func (s *stateSet) addAll(hs []uint64) {
	for _, h := range hs {
		i := h % shards
		s.mu[i].Lock()
		s.m[i][h] = struct{}{}
		s.mu[i].Unlock()
	}
}

func (s *stateSet) len() (n uint64) {
	for i := range s.m {
		s.mu[i].Lock()
		n += uint64(len(s.m[i]))
		s.mu[i].Unlock()
	}
	return
}

// Known is one entry of known_findings.json.
type Known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

// KnownFile is the content of known_findings.json.
type KnownFile struct {
	Known []Known  `json:"known"`
	Fixed []string `json:"fixed"`
}

// Replay is the artefact written for a violation.
type Replay struct {
	Property string            `json:"property"`
	Tier     string            `json:"tier"`
	Space    string            `json:"space"`
	Kind     string            `json:"kind"`
	Index    uint64            `json:"index,omitempty"`
	History  []int             `json:"history,omitempty"`
	Coords   map[string]string `json:"coords,omitempty"`
	Events   []string          `json:"events,omitempty"`
	Note     string            `json:"note,omitempty"`
	Key      string            `json:"key"`
	Message  string            `json:"message"`
	Repeats  string            `json:"repeats"`
	Extra    any               `json:"extra,omitempty"`
}

// Ctx is the context of one check run.
type Ctx struct {
	// Only, when set, drops the failures whose key does not start with it: spaces of other properties judged in another way.
	Only string
	// Stride, when above 1, visits every Stride-th case of the products with more than 20000 cases.
	Stride   uint64
	Prop     string
	Tier     string
	Seed     int64
	Dir      string // /verif
	deadline time.Time
	start    time.Time

	known     []Known
	mu        sync.Mutex
	knownHit  map[string]string
	set       *stateSet
	trans     atomic.Uint64
	validated atomic.Uint64
	cases     atomic.Uint64
	outcomes  map[string]uint64
	samples   []any
	spaces    []map[string]any
	viol      []Replay
	complete  bool
	assume    []string
	extra     map[string]any
	stop      atomic.Bool

	replay *Replay // replay mode
}

// New creates a check context.
func New(dir, prop, tier string, seed int64, budget time.Duration) *Ctx {
	x := &Ctx{Prop: prop, Tier: tier, Seed: seed, Dir: dir, start: time.Now(), deadline: time.Now().Add(budget),
		knownHit: map[string]string{}, set: newStateSet(), outcomes: map[string]uint64{}, complete: true, extra: map[string]any{}}
	if b, err := os.ReadFile(filepath.Join(dir, "known_findings.json")); err == nil {
		var kf KnownFile
		if err := json.Unmarshal(b, &kf); err == nil {
			for _, k := range kf.Known {
				if k.Property == prop {
					x.known = append(x.known, k)
				}
			}
		}
	}
	return x
}

// SetReplay switches to replay mode.
func (x *Ctx) SetReplay(r *Replay) { x.replay = r }

// Thorough tells whether the thorough tier runs.
func (x *Ctx) Thorough() bool { return x.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func Pick[T any](x *Ctx, q, t T) T {
	if x.Thorough() {
		return t
	}
	return q
}

// Assume records an assumption of the check for the evidence.
func (x *Ctx) Assume(s string) { x.assume = append(x.assume, s) }

// Extra records an additional coverage entry.
func (x *Ctx) Extra(k string, v any) { x.mu.Lock(); x.extra[k] = v; x.mu.Unlock() }

// Incomplete marks the exploration as not exhaustive.
func (x *Ctx) Incomplete(why string) {
	x.mu.Lock()
	x.complete = false
	x.extra["incomplete"] = why
	x.mu.Unlock()
}

// Expired tells whether the internal deadline passed.
func (x *Ctx) Expired() bool { return time.Now().After(x.deadline) }

// Stopped tells whether enough violations were seen.
func (x *Ctx) Stopped() bool { return x.stop.Load() }

func (x *Ctx) isKnown(key string) (Known, bool) {
	for _, k := range x.known {
		if k.Key == key {
			return k, true
		}
	}
	return Known{}, false
}

func protect(fn func(*C), c *C) {
	defer func() {
		if r := recover(); r != nil {
			c.Fail("panic", "unexpected panic: %v at %s\n%s", r, panicSite(), trimStack())
		}
	}()
	fn(c)
}

func trimStack() string {
	ls := strings.Split(string(debug.Stack()), "\n")
	if len(ls) > 40 {
		ls = ls[:40]
	}
	return strings.Join(ls, "\n")
}

func (x *Ctx) absorb(c *C) {
	x.trans.Add(c.steps)
	x.validated.Add(c.validated)
	x.set.addAll(c.states)
}

// Product enumerates every point of the product of dims and evaluates fn on it.
func (x *Ctx) Product(name string, dims []Dim, fn func(v []int, c *C)) {
	total := uint64(1)
	for _, d := range dims {
		total *= uint64(d.N)
	}
	decode := func(i uint64, v []int) {
		for k := len(dims) - 1; k >= 0; k-- {
			v[k] = int(i % uint64(dims[k].N))
			i /= uint64(dims[k].N)
		}
	}
	coords := func(v []int) map[string]string {
		m := map[string]string{}
		for k, d := range dims {
			m[d.Name] = d.label(v[k])
		}
		return m
	}
	eval := func(i uint64) (*C, []int) {
		c := &C{x: x}
		v := make([]int, len(dims))
		decode(i, v)
		protect(func(c *C) { fn(v, c) }, c)
		if c.steps == 0 {
			c.steps = 1
		}
		if len(c.states) == 0 {
			c.StateS(name + "#" + strconv.FormatUint(i, 10))
		}
		return c, v
	}
	if x.replay != nil {
		if x.replay.Space != name || x.replay.Kind != "product" {
			return
		}
		// coordinates identify the case even if the space grew
		idx := x.replay.Index
		c, v := eval(idx)
		fmt.Printf("replay %s/%s index=%d coords=%v\n note=%s\n outcomes=%v\n", x.Prop, name, idx, coords(v), c.note, c.outcomes)
		for _, f := range c.fails {
			fmt.Printf(" FAIL key=%s %s\n", f.key, f.msg)
			x.viol = append(x.viol, Replay{Key: f.key, Message: f.msg})
		}
		return
	}
	if x.Stopped() {
		return
	}
	t0 := time.Now()
	stride, due := uint64(1), total
	if x.Stride > 1 && total > 20000 {
		stride = x.Stride
		due = (total + stride - 1) / stride
	}
	var next, done, skipped atomic.Uint64
	const chunk = 16
	var wg sync.WaitGroup
	var smp sync.Once
	spaceOut := map[string]uint64{}
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			local := map[string]uint64{}
			defer func() {
				x.mu.Lock()
				for k, n := range local {
					x.outcomes[name+": "+k] += n
					spaceOut[k] += n
				}
				x.mu.Unlock()
			}()
			for {
				lo := next.Add(chunk) - chunk
				if lo >= total || x.Stopped() || x.Expired() {
					return
				}
				for i := lo; i < lo+chunk && i < total; i++ {
					if stride > 1 && i%stride != 0 {
						continue
					}
					c, v := eval(i)
					done.Add(1)
					if c.skip && len(c.fails) == 0 {
						skipped.Add(1)
						continue
					}
					x.absorb(c)
					x.cases.Add(1)
					for _, o := range c.outcomes {
						local[o]++
					}
					if i == total/2 || len(c.fails) > 0 {
						smp.Do(func() {
							x.mu.Lock()
							x.samples = append(x.samples, map[string]any{"space": name, "index": i, "coords": coords(v), "outcomes": c.outcomes, "note": c.note})
							x.mu.Unlock()
						})
					}
					for _, f := range c.fails {
						x.report(f, Replay{Space: name, Kind: "product", Index: i, Coords: coords(v), Note: c.note},
							func() []failure { c2, _ := eval(i); return c2.fails })
					}
				}
			}
		}()
	}
	wg.Wait()
	full := done.Load() == due
	if !full && !x.Stopped() {
		x.Incomplete(fmt.Sprintf("deadline reached in space %s after %d of %d cases", name, done.Load(), total))
	}
	x.mu.Lock()
	x.spaces = append(x.spaces, map[string]any{"space": name, "kind": "product", "size": total, "evaluated": done.Load(), "infeasible_skipped": skipped.Load(),
		"distinct_outcomes": len(spaceOut), "complete": full, "every_nth": stride, "seconds": round(time.Since(t0))})
	x.mu.Unlock()
	fmt.Printf("space %-34s cases=%d/%d skipped=%d distinct_outcomes=%d %.1fs\n", name, done.Load(), total, skipped.Load(), len(spaceOut), time.Since(t0).Seconds())
}

func round(d time.Duration) float64 { return float64(int(d.Seconds()*100)) / 100 }

func (x *Ctx) report(f failure, r Replay, rerun func() []failure) {
	if k, ok := x.isKnown(f.key); ok {
		x.mu.Lock()
		if _, seen := x.knownHit[f.key]; !seen {
			x.knownHit[f.key] = k.What
		}
		x.mu.Unlock()
		return
	}
	// confirm: the same case is re-executed; it must fail again (map iteration order may make a real
	// violation intermittent, so up to 40 repeats are allowed)
	hit, n := 0, 0
	for n < 5 || (hit == 0 && n < 40) {
		n++
		if rerun == nil {
			hit++
			continue
		}
		for _, g := range rerun() {
			if g.key == f.key {
				hit++
				break
			}
		}
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	if hit == 0 {
		x.extra["unreproducible"] = f.msg
		return
	}
	if len(x.viol) >= 5 {
		x.stop.Store(true)
		return
	}
	for _, o := range x.viol {
		if o.Key == f.key && o.Space == r.Space {
			return
		}
	}
	r.Property, r.Tier, r.Key, r.Message, r.Repeats = x.Prop, x.Tier, f.key, f.msg, fmt.Sprintf("%d/%d", hit, n)
	x.viol = append(x.viol, r)
	if len(x.viol) >= 3 {
		x.stop.Store(true)
	}
}

// Search is a breadth-first search over histories.
type Search[S any] struct {
	Name     string
	Init     []S
	InitName []string
	Depth    int
	// Events returns the number of enabled events of a state and a labeller.
	Events func(s S) (n int, label func(int) string)
	// Apply performs event e on s; ok=false if the event is rejected (no successor).
	Apply func(s S, e int, c *C) (next S, ok bool)
	// Key canonicalises a state.
	Key func(s S) string
	// MaxStates caps the number of states (0: none).
	MaxStates int
}

// BFS explores all states reachable from the initial ones within Depth events.
func BFS[S any](x *Ctx, sr Search[S]) {
	type node struct {
		s    S
		hist []int // first element: initial state index
	}
	labels := func(hist []int) []string {
		s := sr.Init[hist[0]]
		nm := "init"
		if sr.InitName != nil {
			nm = sr.InitName[hist[0]]
		}
		out := []string{nm}
		for _, e := range hist[1:] {
			_, lab := sr.Events(s)
			out = append(out, lab(e))
			c := &C{x: x}
			ns, ok := sr.Apply(s, e, c)
			if !ok {
				break
			}
			s = ns
		}
		return out
	}
	if x.replay != nil {
		if x.replay.Space != sr.Name || x.replay.Kind != "bfs" {
			return
		}
		s := sr.Init[x.replay.History[0]]
		for _, e := range x.replay.History[1:] {
			_, lab := sr.Events(s)
			c := &C{x: x}
			var ns S
			var ok bool
			protect(func(c *C) { ns, ok = sr.Apply(s, e, c) }, c)
			fmt.Printf(" event %s -> ok=%v %s outcomes=%v\n", lab(e), ok, c.note, c.outcomes)
			for _, f := range c.fails {
				fmt.Printf(" FAIL key=%s %s\n", f.key, f.msg)
				x.viol = append(x.viol, Replay{Key: f.key, Message: f.msg})
			}
			if !ok {
				break
			}
			s = ns
		}
		return
	}
	if x.Stopped() {
		return
	}
	t0 := time.Now()
	seen := map[string]struct{}{}
	var frontier []node
	for i, s := range sr.Init {
		k := sr.Key(s)
		if _, dup := seen[k]; dup {
			continue
		}
		seen[k] = struct{}{}
		frontier = append(frontier, node{s, []int{i}})
	}
	var smu sync.Mutex
	spaceOut := map[string]uint64{}
	var trans, accepted atomic.Uint64
	depth := 0
	complete := true
	capped := false
	var sample any
	for depth = 0; depth < sr.Depth && len(frontier) > 0 && !x.Stopped(); depth++ {
		var nextF []node
		var idx atomic.Int64
		var wg sync.WaitGroup
		for w := 0; w < runtime.NumCPU(); w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				local := map[string]uint64{}
				for {
					i := int(idx.Add(1) - 1)
					if i >= len(frontier) || x.Stopped() {
						break
					}
					if x.Expired() {
						smu.Lock()
						complete = false
						smu.Unlock()
						break
					}
					nd := frontier[i]
					n, lab := sr.Events(nd.s)
					for e := 0; e < n; e++ {
						c := &C{x: x}
						var ns S
						var ok bool
						protect(func(c *C) { ns, ok = sr.Apply(nd.s, e, c) }, c)
						if c.skip {
							continue
						}
						if c.steps == 0 {
							c.steps = 1
						}
						trans.Add(1)
						x.absorb(c)
						x.cases.Add(1)
						for _, o := range c.outcomes {
							local[o]++
						}
						for _, f := range c.fails {
							h := append(append([]int{}, nd.hist...), e)
							rr := Replay{Space: sr.Name, Kind: "bfs", History: h, Note: c.note}
							rr.Events = append(labels(nd.hist), lab(e))
							x.report(f, rr, func() []failure {
								c2 := &C{x: x}
								protect(func(c *C) { sr.Apply(nd.s, e, c) }, c2)
								return c2.fails
							})
						}
						if !ok || len(c.fails) > 0 {
							continue
						}
						accepted.Add(1)
						k := sr.Key(ns)
						smu.Lock()
						if _, dup := seen[k]; !dup {
							if sr.MaxStates > 0 && len(seen) >= sr.MaxStates {
								capped = true
							} else {
								seen[k] = struct{}{}
								nextF = append(nextF, node{ns, append(append([]int{}, nd.hist...), e)})
							}
						}
						smu.Unlock()
					}
				}
				smu.Lock()
				for k, n := range local {
					spaceOut[k] += n
				}
				smu.Unlock()
			}()
		}
		wg.Wait()
		if len(nextF) > 0 {
			sort.Slice(nextF, func(i, j int) bool { return lessInts(nextF[i].hist, nextF[j].hist) })
			sample = labels(nextF[len(nextF)/2].hist)
		}
		frontier = nextF
		if !complete {
			break
		}
	}
	for k := range seen {
		x.set.addAll([]uint64{maphash.String(seed, sr.Name+k)})
	}
	if !complete || capped {
		x.Incomplete(fmt.Sprintf("search %s stopped at depth %d (states=%d, capped=%v)", sr.Name, depth, len(seen), capped))
	}
	x.mu.Lock()
	for k, n := range spaceOut {
		x.outcomes[sr.Name+": "+k] += n
	}
	x.spaces = append(x.spaces, map[string]any{"space": sr.Name, "kind": "bfs", "states": len(seen), "transitions": trans.Load(), "accepted_transitions": accepted.Load(), "depth": depth,
		"distinct_outcomes": len(spaceOut), "complete": complete && !capped, "frontier_left": len(frontier), "seconds": round(time.Since(t0))})
	if sample != nil {
		x.samples = append(x.samples, map[string]any{"space": sr.Name, "history": sample})
	}
	x.mu.Unlock()
	fmt.Printf("search %-33s states=%d transitions=%d depth=%d frontier=%d distinct_outcomes=%d %.1fs\n", sr.Name, len(seen), trans.Load(), depth, len(frontier), len(spaceOut), time.Since(t0).Seconds())
}

func lessInts(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// AddSpace records an exploration performed by other machinery (e.g. the interleaving explorer).
func (x *Ctx) AddSpace(m map[string]any) {
	x.mu.Lock()
	x.spaces = append(x.spaces, m)
	x.mu.Unlock()
}

// Count adds externally counted work.
func (x *Ctx) Count(trans, validated int, outcomes map[string]uint64, states []string) {
	x.trans.Add(uint64(trans))
	x.validated.Add(uint64(validated))
	x.mu.Lock()
	for k, n := range outcomes {
		x.outcomes[k] += n
	}
	x.mu.Unlock()
	for _, s := range states {
		x.set.addAll([]uint64{maphash.String(seed, s)})
	}
}

// Sample records a sample.
func (x *Ctx) Sample(s any) { x.mu.Lock(); x.samples = append(x.samples, s); x.mu.Unlock() }

// Violation reports a violation found by external machinery.
func (x *Ctx) Violation(key, msg string, r Replay) {
	x.report(failure{key, msg}, r, nil)
}

// Violations says how many violations have been reported so far.
func (x *Ctx) Violations() int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return len(x.viol)
}

// Finish writes the evidence, prints the verdict lines and returns the exit code.
func (x *Ctx) Finish() int {
	if x.replay != nil {
		if len(x.viol) > 0 {
			fmt.Printf("replay: violation reproduced\n")
			return 1
		}
		fmt.Println("replay: no violation")
		return 0
	}
	keys := make([]string, 0, len(x.outcomes))
	for k := range x.outcomes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	outs := map[string]uint64{}
	for i, k := range keys {
		if i < 400 {
			kk := k
			if len(kk) > 90 {
				kk = kk[:90]
			}
			outs[kk] += x.outcomes[k]
		}
	}
	samples := x.samples
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if len(samples) == 0 {
		samples = []any{"none"}
	}
	cov := map[string]any{
		"states":                        x.set.len(),
		"transitions":                   x.trans.Load(),
		"traces_validated_against_impl": x.validated.Load(),
		"cases":                         x.cases.Load(),
		"samples":                       samples,
		"exhaustive":                    x.complete && len(x.viol) == 0,
		"spaces":                        x.spaces,
		"distinct_outcomes":             len(x.outcomes),
		"outcomes":                      outs,
	}
	for k, v := range x.extra {
		cov[k] = v
	}
	kf := []string{}
	for k, w := range x.knownHit {
		kf = append(kf, k+": "+w)
	}
	sort.Strings(kf)
	cov["known_findings_hit"] = kf
	ev := map[string]any{
		"property": x.Prop, "tier": x.Tier, "seed": x.Seed, "level": "model_checking",
		"coverage": cov, "wall_s": round(time.Since(x.start)), "assumptions": x.assume, "violations": len(x.viol),
	}
	if x.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil && len(b) > 60000 {
		delete(cov, "outcomes")
		cov["samples"] = samples[:1]
		b, _ = json.MarshalIndent(ev, "", " ")
	}
	_ = os.MkdirAll(filepath.Join(x.Dir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(x.Dir, "evidence", x.Prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 2
	}
	for i, k := range keys {
		if i >= 60 {
			fmt.Printf("  ... %d more outcome classes\n", len(keys)-60)
			break
		}
		fmt.Printf("  outcome %-70s %d\n", k, x.outcomes[k])
	}
	fmt.Printf("property=%s tier=%s states=%d transitions=%d validated=%d cases=%d exhaustive=%v wall=%.1fs\n", x.Prop, x.Tier, x.set.len(), x.trans.Load(), x.validated.Load(), x.cases.Load(), x.complete, time.Since(x.start).Seconds())
	for _, k := range kf {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", x.Prop, k)
	}
	if len(x.viol) == 0 {
		return 0
	}
	dir := filepath.Join(x.Dir, "replays")
	_ = os.MkdirAll(dir, 0o755)
	for i, r := range x.viol {
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", x.Prop, i))
		rb, _ := json.MarshalIndent(r, "", " ")
		_ = os.WriteFile(p, rb, 0o644)
		fmt.Printf("-- %s: %s\n   coords=%v events=%v\n   %s\n", r.Space, r.Key, r.Coords, r.Events, r.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", x.Prop, p)
	}
	return 1
}

// Replaying returns the replay request if it is of the given kind.
func (x *Ctx) Replaying(kind string) *Replay {
	if x.replay != nil && x.replay.Kind == kind {
		return x.replay
	}
	return nil
}

// InReplay tells whether a single recorded violation is being replayed.
func (x *Ctx) InReplay() bool { return x.replay != nil }
