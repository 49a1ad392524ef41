package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif.local/mc/apimodel"
	"verif.local/mc/core"
)

// racePass builds this program with the race detector and runs one of its passes.
func racePass(x *core.Ctx, pass string) {
	if x.InReplay() || x.Stopped() {
		return
	}
	dir, err := os.MkdirTemp("", "mcrace")
	if err != nil {
		x.Incomplete("race pass: " + err.Error())
		return
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "mc")
	ctx, cancel := context.WithTimeout(context.Background(), 330*time.Second)
	defer cancel()
	b := exec.CommandContext(ctx, "go", "build", "-race", "-o", bin, ".")
	b.Dir = filepath.Join(x.Dir, "mc")
	if _, err := os.Stat(b.Dir); err != nil {
		b.Dir = "/verif/mc"
	}
	b.Env = append(os.Environ(), "CGO_ENABLED=1")
	if out, err := b.CombinedOutput(); err != nil {
		x.Incomplete(fmt.Sprintf("race pass not built: %v %s", err, clip(string(out))))
		return
	}
	cmd := exec.CommandContext(ctx, bin, pass, x.Tier)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	var ee *exec.ExitError
	text := out.String()
	switch {
	case err == nil:
		x.Extra(strings.ReplaceAll(pass, "-", "_"), strings.TrimSpace(text))
		fmt.Printf("race pass %s: %s\n", pass, strings.TrimSpace(text))
	case errors.As(err, &ee) && ee.ExitCode() == 66:
		x.Violation("data race", "concurrent calls race:\n"+clip3(text), core.Replay{})
	case errors.As(err, &ee) && ee.ExitCode() == 1:
		x.Violation("concurrent answer", "concurrent calls get other answers:\n"+clip3(text), core.Replay{})
	default:
		x.Incomplete(fmt.Sprintf("race pass: %v %s", err, clip(text)))
	}
}

// inOrder runs f and then g in two goroutines. Nothing but the calls themselves orders them for the race detector, so
// it reports every pair of conflicting accesses the calls do not synchronise.
func inOrder(f, g func()) {
	done := make(chan struct{}, 1)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		f()
		unseen(func() { done <- struct{}{} })
	}()
	go func() {
		defer wg.Done()
		unseen(func() { <-done })
		g()
	}()
	wg.Wait()
}

// ProviderPairs runs every ordered pair of provider calls from every start.
func ProviderPairs(string) int {
	op := func(kind string, v int, n uint32) apimodel.Op { return apimodel.Op{Kind: kind, V: v, N: n} }
	n, all := 0, 0
	pairs := func(k *apimodel.Kit, starts [][]apimodel.Op, calls []apimodel.Op) {
		for _, st := range starts {
			all++
			for _, a := range calls {
				for _, b := range calls {
					p := k.Provider()
					for _, o := range st {
						k.Do(p, o)
					}
					inOrder(func() { k.Do(p, a) }, func() { k.Do(p, b) })
					n++
				}
			}
		}
	}
	pairs(apimodel.NewKit(4, 5, 6), [][]apimodel.Op{
		{op("AddAtEpoch", 0, 0)},
		{op("AddAtEpoch", 0, 0), op("AddAtEpoch", 2, 2)},
		{op("AddAtEpoch", 0, 0), op("AddFuture", 5, 2)},
		{op("AddAtEpoch", 0, 0), op("AddParams", 2, 0), op("SetSlot", 0, 9)},
		{op("AddAtEpoch", 0, 0), op("AddAtEpoch", 2, 1), op("SetSlot", 0, 9), op("AddFuture", 6, 2)},
	}, append(apimodel.Getters([]int{4, 5, 6, 9}, []uint32{0, 8, 16, 24}),
		op("AddAtEpoch", 2, 2), op("AddAtEpoch", 4, 3), op("AddParams", 1, 0), op("AddParams", 2, 0), op("AddParams", 3, 0), op("AddVersion", 5, 2), op("AddVersion", 6, 3), op("AddFuture", 6, 3), op("SetSlot", 0, 16), op("SetSlot", 0, 24)))
	// the APIs of version 3 are built by the library itself, which takes longer
	pairs(apimodel.NewKit(3, 4), [][]apimodel.Op{{op("AddAtEpoch", 0, 0), op("AddAtEpoch", 2, 2), op("SetSlot", 0, 16)}},
		[]apimodel.Op{op("ForVersion", 3, 0), op("ForSlot", 0, 0), op("Hash", 0, 0), op("ParamsHash", 3, 0), op("AddParams", 1, 0), op("Committed", 0, 0)})
	fmt.Printf("%d starts, %d ordered pairs of calls, no data race", all, n)
	return 0
}
