package checks

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"syscall"
	"time"

	"verif.local/mc/core"
	"verif.local/mc/gen"
	"verif.local/mc/ref"
)

// The decoders run in a process of their own here: exhausted memory and an overflown stack end a Go process.

type nesting struct {
	name string
	unit []byte
}

func nestings() []nesting {
	leaf := func(t byte) []byte { return append([]byte{0, t, 32}, make([]byte, 32)...) }
	member := append(append([]byte{40, 2, 0}, make([]byte, 32)...), 1)
	return []nesting{
		{"restricted", []byte{48}}, {"multi of 1", []byte{40, 1}}, {"multi of 2", []byte{40, 2}}, {"multi of 10", []byte{40, 10}},
		{"restricted multi", []byte{48, 40, 2}}, {"multi restricted", []byte{40, 2, 48}}, {"second of a multi", member},
		{"multi unlock of 1", []byte{5, 1}}, {"multi unlock of 2", []byte{5, 2}}, {"multi unlock of 10", []byte{5, 10}}, {"second of a multi unlock", []byte{5, 2, 6}}, {"after a reference", []byte{5, 2, 1, 0, 0}},
		{"node left", []byte{0}}, {"node right of leaf", []byte{0, 1, 0}}, {"node right of value", []byte{0, 2, 0}}, {"node right of a leaf hash", leaf(1)}, {"node right of a value hash", leaf(2)},
	}
}

func smallObjs(e *gen.Env) (objs []Obj) {
	for _, o := range catalog(e) {
		if o.small {
			objs = append(objs, o)
		}
	}
	return
}

const nestedBytes = 32000 // the size of a block

// Nested is the body of the process: nesting number n spliced into object number o at every offset.
func Nested(args []string) {
	// the address space of the process
	lim := uint64(2500 << 20)
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	e := gen.NewEnv(ref.Default())
	o, _ := strconv.Atoi(args[0])
	obj := smallObjs(e)[o]
	raw := obj.Raw()
	w := bufio.NewWriter(os.Stdout)
	count, tails := 0, 1
	if len(args) > 1 {
		tails = 2
	}
	for _, n := range nestings() {
		blob := bytes.Repeat(n.unit, nestedBytes/len(n.unit))
		for _, tail := range []bool{true, false}[:tails] {
			for k := 0; k <= len(raw); k++ {
				b := append(append([]byte{}, raw[:k]...), blob...)
				if tail {
					b = append(b, raw[k:]...)
				}
				for _, d := range decodersOf(e, obj.Kind, obj.Targets) {
					if asksSafe(obj.Kind, d.name, b) {
						continue
					}
					fmt.Fprintf(w, "%s: %s at %d (tail %v)\n", d.name, n.name, k, tail)
					_ = w.Flush()
					_ = core.Panics(func() { _, _, _ = d.f(b) })
					count++
				}
			}
		}
	}
	fmt.Fprintf(w, "done %d\n", count)
	_ = w.Flush()
}

func asksSafe(kind, dec string, b []byte) bool { return asks(kind, dec, b) > 1<<16 }

// nested runs one process for every small object.
func nested(x *core.Ctx, e *gen.Env) {
	objs := smallObjs(e)
	var names []string
	for _, o := range objs {
		names = append(names, o.Kind+" "+o.Name)
	}
	x.Product("deep nesting at every position", []core.Dim{core.DL("object", names...)}, func(v []int, c *core.C) {
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
		defer cancel()
		args := []string{"nested", strconv.Itoa(v[0])}
		if x.Thorough() {
			args = append(args, "both")
		}
		cmd := exec.CommandContext(ctx, os.Args[0], args...)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=none")
		out, err := cmd.Output()
		lines := bytes.Split(bytes.TrimSpace(out), []byte("\n"))
		last := string(lines[len(lines)-1])
		c.StateS(names[v[0]])
		var n int
		if _, e := fmt.Sscanf(last, "done %d", &n); e == nil && err == nil {
			c.Step(n)
			c.Validated()
			c.Outcome("survived")
			return
		}
		var exit *exec.ExitError
		if ctx.Err() != nil || !errors.As(err, &exit) || len(lines) < 2 {
			x.Incomplete(fmt.Sprintf("nested %s: %v", names[v[0]], err))
			c.Skip()
			return
		}
		c.Fail("deep nesting: "+objs[v[0]].Kind, "the process dies (%v, 2.5 GB of address space) decoding %d bytes made of the object %s with a nesting spliced in; %s", err, nestedBytes, names[v[0]], last)
	})
}
