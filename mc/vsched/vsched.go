// Package vsched runs goroutines one at a time under a controlled scheduler, so that every interleaving of
// their visible operations can be enumerated. Code is rewritten at check time to use it (see checks/instr.go):
// go statements, channel operations, sync, sync/atomic and context, plus a Point before every statement that
// touches data other goroutines may see.
package vsched

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"
)

type thread struct {
	id      int
	name    string
	wake    chan struct{}
	enabled func() bool // nil: always
	what    string
	done    bool
	yielded bool
}

// Run is one controlled execution.
type Run struct {
	threads []*thread
	cur     *thread
	prefix  []int
	Trace   []Choice
	steps   int
	streak  int
	over    chan struct{}
	dead    bool
	Err     string // panic, deadlock, leak, endless
	Kind    string
	log     []string
	opt     Options
	mainEnd bool
	preempt int
}

// Choice is one scheduling decision.
type Choice struct {
	N      int  // alternatives
	Pick   int  // the one taken
	Paid   bool // alternatives other than 0 are preemptions
	Before int  // preemptions before this point
	State  uint64
}

// Options bound an execution.
type Options struct {
	Bound  int // preemptions
	Streak int // steps a thread may make without the others moving
	Steps  int // total steps
	Log    bool
}

var (
	active *Run
	chans  map[uintptr]*chanState
	mu     sync.Mutex // only for Register of channels outside a run
)

// Active reports whether a controlled execution is going on.
func Active() bool { return active != nil && !active.dead }

// Steps is the logical time.
func Steps() int {
	if active == nil {
		return 0
	}
	return active.steps
}

func (r *Run) enabledThreads() (out []*thread) {
	for _, t := range r.threads {
		if !t.done && (t.enabled == nil || t.enabled()) {
			out = append(out, t)
		}
	}
	return
}

// pick chooses the next thread; nil if none can run.
func (r *Run) pick() *thread {
	en := r.enabledThreads()
	if len(en) == 0 {
		return nil
	}
	curIdx := -1
	for i, t := range en {
		if t == r.cur {
			curIdx = i
		}
	}
	r.steps++
	if curIdx >= 0 && len(en) > 1 && (r.streak >= r.opt.Streak || r.cur.yielded) {
		// fairness: the others move
		r.streak = 0
		r.cur.yielded = false
		for _, t := range en {
			if t.id > r.cur.id {
				return t
			}
		}
		return en[0]
	}
	if len(en) == 1 {
		if en[0] != r.cur {
			r.streak = 0
		}
		r.streak++
		return en[0]
	}
	// current thread first, then the others in order
	order := en
	if curIdx > 0 {
		order = append([]*thread{en[curIdx]}, append(append([]*thread{}, en[:curIdx]...), en[curIdx+1:]...)...)
	}
	c := Choice{N: len(order), Paid: curIdx >= 0, Before: r.preempt}
	if c.Paid && r.preempt >= r.opt.Bound {
		r.streak++
		return order[0]
	}
	if k := len(r.Trace); k < len(r.prefix) {
		c.Pick = r.prefix[k]
		if c.Pick >= c.N {
			r.Kind, r.Err = "nondeterminism", fmt.Sprintf("replay diverged: choice %d of %d", c.Pick, c.N)
			c.Pick = 0
		}
	}
	r.Trace = append(r.Trace, c)
	if c.Paid && c.Pick > 0 {
		r.preempt++
	}
	t := order[c.Pick]
	if t == r.cur {
		r.streak++
	} else {
		r.streak = 0
	}
	return t
}

func (r *Run) finish(kind, msg string) {
	if r.dead {
		return
	}
	if r.Err == "" {
		r.Kind, r.Err = kind, msg
	}
	r.dead = true
	close(r.over)
}

// yield gives the token away until the scheduler hands it back.
func (r *Run) yield(enabled func() bool, what string) {
	if r.dead {
		select {} // the execution is over: park for good
	}
	me := r.cur
	me.enabled, me.what = enabled, what
	if r.steps >= r.opt.Steps {
		r.finish("endless", fmt.Sprintf("still running after %d steps: %s", r.steps, r.where()))
		select {}
	}
	t := r.pick()
	if t == nil {
		r.finish("deadlock", "no goroutine can go on: "+r.where())
		select {}
	}
	if r.opt.Log {
		r.log = append(r.log, fmt.Sprintf("%s:%s", t.name, t.what))
	}
	if t != me {
		r.cur = t
		t.wake <- struct{}{}
		<-me.wake
		if r.dead {
			select {}
		}
	}
	me.enabled, me.what = nil, ""
}

func (r *Run) where() string {
	var s []string
	for _, t := range r.threads {
		if !t.done {
			s = append(s, t.name+" at "+t.what)
		}
	}
	return strings.Join(s, ", ")
}

// Point is a visible operation that is always possible.
func Point() { Op(nil, "step") }

// Gosched lets the others move.
func Gosched() {
	if Active() {
		active.cur.yielded = true
		Op(nil, "yield")
	}
}

// Op is a visible operation possible once enabled says so. Outside a controlled execution it must be possible at once.
func Op(enabled func() bool, what string) {
	r := active
	if r == nil {
		if enabled != nil && !enabled() {
			panic("vsched: " + what + " would block outside a controlled execution")
		}
		return
	}
	r.yield(enabled, what)
}

// Go starts a goroutine.
func Go(f func()) { GoNamed("", f) }

// GoNamed starts a named goroutine.
func GoNamed(name string, f func()) {
	r := active
	if r == nil {
		panic("vsched: go statement outside a controlled execution")
	}
	t := &thread{id: len(r.threads), name: name, wake: make(chan struct{}), what: "start"}
	if name == "" {
		t.name = fmt.Sprintf("g%d", t.id)
	}
	r.threads = append(r.threads, t)
	go r.body(t, f)
	r.yield(nil, "go "+t.name)
}

func (r *Run) body(t *thread, f func()) {
	<-t.wake
	if r.dead {
		return
	}
	defer func() {
		if e := recover(); e != nil {
			r.finish("panic", fmt.Sprintf("%s: panic: %v\n%s", t.name, e, short(string(debug.Stack()))))
			return
		}
		if r.dead {
			return
		}
		t.done = true
		nx := r.pick()
		if nx == nil {
			for _, o := range r.threads {
				if !o.done {
					k := "deadlock"
					if r.mainEnd {
						k = "leak"
					}
					r.finish(k, "no goroutine can go on: "+r.where())
					return
				}
			}
			r.finish("", "")
			return
		}
		if r.opt.Log {
			r.log = append(r.log, fmt.Sprintf("%s:%s", nx.name, nx.what))
		}
		r.cur = nx
		nx.wake <- struct{}{}
	}()
	t.enabled, t.what = nil, ""
	f()
	if t.id == 0 {
		r.mainEnd = true
	}
}

func short(s string) string {
	ls := strings.Split(s, "\n")
	var out []string
	for _, l := range ls {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "overlay") || strings.Contains(l, "iota.go") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 4 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// Execute runs main as the first goroutine under the given choices.
func Execute(opt Options, prefix []int, main func()) *Run {
	r := &Run{prefix: prefix, over: make(chan struct{}), opt: opt}
	chans = map[uintptr]*chanState{}
	active = r
	t := &thread{name: "main", wake: make(chan struct{})}
	r.threads = []*thread{t}
	r.cur = t
	go r.body(t, main)
	t.wake <- struct{}{}
	<-r.over
	r.dead = true
	active = nil
	return r
}

// Log is the sequence of steps, if asked for.
func (r *Run) Log() []string { return r.log }

// Total is the number of steps made.
func (r *Run) Total() int { return r.steps }

// Preemptions made.
func (r *Run) Preemptions() int { return r.preempt }

// Explore enumerates every execution of body within the bound. It stops when visit returns false.
func Explore(opt Options, body func() (main func(), judge func(*Run) string), visit func(r *Run, verdict string) bool) (runs, steps int) {
	prefix := []int{}
	for {
		main, judge := body()
		r := Execute(opt, prefix, main)
		runs++
		steps += r.steps
		verdict := ""
		if r.Err != "" {
			verdict = r.Kind + ": " + r.Err
		} else {
			verdict = judge(r)
		}
		if !visit(r, verdict) {
			return
		}
		// next: deepest choice with an alternative left within the bound
		i := len(r.Trace) - 1
		for ; i >= 0; i-- {
			c := r.Trace[i]
			if c.Pick+1 < c.N && (!c.Paid || c.Before < opt.Bound) {
				break
			}
		}
		if i < 0 {
			return
		}
		np := make([]int, i+1)
		for j := 0; j < i; j++ {
			np[j] = r.Trace[j].Pick
		}
		np[i] = r.Trace[i].Pick + 1
		prefix = np
	}
}

// ---- channels -----------------------------------------------------------------

type chanState struct {
	keep   any
	cap    int
	buf    []any
	closed bool
	send   []*waiter // parked senders of an unbuffered or full channel
	recv   []*waiter
}

type waiter struct {
	val   any
	ok    bool
	ready bool
	group *waitGroup
	idx   int
}

// waitGroup ties the cases of one select together.
type waitGroup struct {
	fired int // -1: none yet
}

func state(ch any) *chanState {
	v := reflect.ValueOf(ch)
	if v.IsNil() {
		return nil
	}
	p := v.Pointer()
	if chans == nil {
		chans = map[uintptr]*chanState{}
	}
	s := chans[p]
	if s == nil {
		s = &chanState{keep: ch, cap: v.Cap()}
		chans[p] = s
	}
	return s
}

// Case is one communication of a select.
type Case interface {
	st() *chanState
	sends() (any, bool)
	set(v any, ok bool)
}

// RecvCase receives.
type RecvCase[T any] struct {
	s  *chanState
	v  T
	ok bool
}

// CaseRecv makes a receiving case.
func CaseRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{s: state(ch)} }

// Get returns the received value.
func (c *RecvCase[T]) Get() (T, bool) { return c.v, c.ok }

// Val returns the received value.
func (c *RecvCase[T]) Val() T { return c.v }

func (c *RecvCase[T]) st() *chanState     { return c.s }
func (c *RecvCase[T]) sends() (any, bool) { return nil, false }
func (c *RecvCase[T]) set(v any, ok bool) {
	c.ok = ok
	if v != nil {
		c.v = v.(T)
	}
}

// SendCase sends.
type SendCase[T any] struct {
	s *chanState
	v T
}

// CaseSend makes a sending case.
func CaseSend[T any](ch chan<- T, v T) *SendCase[T] { return &SendCase[T]{state(ch), v} }

func (c *SendCase[T]) st() *chanState     { return c.s }
func (c *SendCase[T]) sends() (any, bool) { return c.v, true }
func (c *SendCase[T]) set(any, bool)      {}

func live(q []*waiter) (out []*waiter) {
	for _, w := range q {
		if w.group.fired < 0 {
			out = append(out, w)
		}
	}
	return
}

// possible says whether a case can go through now.
func possible(c Case) bool {
	s := c.st()
	if s == nil {
		return false
	}
	if _, snd := c.sends(); snd {
		s.recv = live(s.recv)
		return s.closed || len(s.buf) < s.cap || len(s.recv) > 0
	}
	s.send = live(s.send)
	return s.closed || len(s.buf) > 0 || len(s.send) > 0
}

// do performs a possible case.
func do(c Case) {
	s := c.st()
	if v, snd := c.sends(); snd {
		if s.closed {
			panic("send on closed channel")
		}
		s.recv = live(s.recv)
		if len(s.recv) > 0 {
			w := s.recv[0]
			s.recv = s.recv[1:]
			w.val, w.ok, w.ready = v, true, true
			w.group.fired = w.idx
			return
		}
		s.buf = append(s.buf, v)
		return
	}
	if len(s.buf) > 0 {
		v := s.buf[0]
		s.buf = s.buf[1:]
		s.send = live(s.send)
		if len(s.send) > 0 { // a parked sender moves up
			w := s.send[0]
			s.send = s.send[1:]
			s.buf = append(s.buf, w.val)
			w.ready = true
			w.group.fired = w.idx
		}
		c.set(v, true)
		return
	}
	s.send = live(s.send)
	if len(s.send) > 0 {
		w := s.send[0]
		s.send = s.send[1:]
		w.ready = true
		w.group.fired = w.idx
		c.set(w.val, true)
		return
	}
	c.set(nil, false) // closed
}

// Select performs one of the cases: the index of the case, -1 for the default.
func Select(hasDefault bool, cases ...Case) int {
	Op(nil, "select")
	var can []int
	for i, c := range cases {
		if possible(c) {
			can = append(can, i)
		}
	}
	if len(can) > 0 {
		i := can[Choose(len(can))]
		do(cases[i])
		return i
	}
	if hasDefault {
		return -1
	}
	// park on all of them
	g := &waitGroup{fired: -1}
	ws := make([]*waiter, len(cases))
	for i, c := range cases {
		s := c.st()
		if s == nil {
			continue
		}
		w := &waiter{group: g, idx: i}
		ws[i] = w
		if v, snd := c.sends(); snd {
			w.val = v
			s.send = append(s.send, w)
		} else {
			s.recv = append(s.recv, w)
		}
	}
	what := "select"
	if len(cases) == 1 {
		what = "receive"
		if _, snd := cases[0].sends(); snd {
			what = "send"
		}
	}
	closedOne := func() int {
		for i, c := range cases {
			if s := c.st(); s != nil && s.closed {
				return i
			}
		}
		return -1
	}
	Op(func() bool { return g.fired >= 0 || closedOne() >= 0 }, what)
	if g.fired < 0 {
		i := closedOne()
		g.fired = i // withdraw the others
		do(cases[i])
		return i
	}
	w := ws[g.fired]
	if _, snd := cases[g.fired].sends(); !snd {
		cases[g.fired].set(w.val, w.ok)
	}
	return g.fired
}

// Choose is a free nondeterministic choice.
func Choose(n int) int {
	r := active
	if n < 2 || r == nil {
		return 0
	}
	c := Choice{N: n, Before: r.preempt}
	if k := len(r.Trace); k < len(r.prefix) {
		c.Pick = r.prefix[k]
	}
	r.Trace = append(r.Trace, c)
	return c.Pick
}

// Send is ch <- v.
func Send[T any](ch chan<- T, v T) { Select(false, CaseSend(ch, v)) }

// SendTo is ch <- v with the element type taken from the channel alone.
func SendTo[T any](ch chan<- T) func(T) { return func(v T) { Send(ch, v) } }

// CaseSendTo makes a sending case with the element type taken from the channel alone.
func CaseSendTo[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return CaseSend(ch, v) }
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T { c := CaseRecv(ch); Select(false, c); return c.v }

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) { c := CaseRecv(ch); Select(false, c); return c.v, c.ok }

// Close closes a channel.
func Close[T any](ch chan<- T) {
	Op(nil, "close")
	s := state(ch)
	if s == nil {
		panic("close of nil channel")
	}
	if s.closed {
		panic("close of closed channel")
	}
	s.closed = true
}

// Closed says whether a channel was closed.
func Closed[T any](ch <-chan T) bool { s := state(ch); return s != nil && s.closed }

// Len is len(ch).
func Len[T any](ch <-chan T) int { Op(nil, "len"); return len(state(ch).buf) }

// All ranges over a channel.
func All[T any](ch <-chan T) func(func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}
