package checks

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif.local/mc/core"
	"verif.local/mc/instr"
	"verif.local/mc/schedout"
)

var schedTargets = map[string][]instr.Target{
	"pow": {{Path: "github.com/iotaledger/iota.go/v4/blockissuer/pow"}},
	"api": {{Path: "github.com/iotaledger/iota.go/v4", Types: []string{"EpochBasedProvider", "ProtocolEpochVersions"}}},
}

// schedule builds the scheduler-controlled binary from a rewritten copy of the code under test and explores all
// schedules of its scenarios.
func schedule(x *core.Ctx, what string) {
	replay := x.Replaying("schedule")
	if x.Stopped() || x.InReplay() && replay == nil {
		return
	}
	dir, err := os.MkdirTemp("", "mcsched")
	if err != nil {
		x.Incomplete("schedules: " + err.Error())
		return
	}
	defer os.RemoveAll(dir)
	mod := filepath.Join(x.Dir, "mc")
	if _, err := os.Stat(mod); err != nil {
		mod = "/verif/mc"
	}
	ov, err := instr.Overlay(mod, dir, schedTargets[what]...)
	if err != nil {
		x.Incomplete("schedules not explored, the code could not be rewritten: " + clip(err.Error()))
		return
	}
	bin := filepath.Join(dir, "sched")
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	b := exec.CommandContext(ctx, "go", "build", "-overlay", ov, "-o", bin, "./sched"+what)
	b.Dir = mod
	if out, err := b.CombinedOutput(); err != nil {
		x.Incomplete(fmt.Sprintf("schedules not explored, the rewritten code does not build: %v %s", err, clip(string(out))))
		return
	}
	if replay != nil {
		cmd := exec.Command(bin, x.Tier, "replay", replay.Events[0], strings.Join(replay.Events[1:], ","))
		out, _ := cmd.CombinedOutput()
		fmt.Println(string(out))
		var l schedout.Line
		if json.Unmarshal(bytes.TrimSpace(out), &l) == nil && l.Msg != "" {
			x.Violation(l.Key, l.Msg, core.Replay{})
		}
		return
	}
	secs := core.Pick(x, 240, 3000)
	shards := runtime.NumCPU()
	t0 := time.Now()
	var mu sync.Mutex
	runs, steps, scen, deepest := 0, 0, 0, 0
	cut := 0
	outcomes := map[string]uint64{}
	var sample any
	var states []string
	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c2, cancel := context.WithTimeout(context.Background(), time.Duration(secs+60)*time.Second)
			defer cancel()
			cmd := exec.CommandContext(c2, bin, x.Tier, fmt.Sprint(s), fmt.Sprint(shards), fmt.Sprint(secs))
			var eb bytes.Buffer
			cmd.Stderr = &eb
			out, err := cmd.StdoutPipe()
			if err != nil || cmd.Start() != nil {
				x.Incomplete("schedules: could not start")
				return
			}
			sc := bufio.NewScanner(out)
			sc.Buffer(nil, 1<<24)
			for sc.Scan() {
				var l schedout.Line
				if json.Unmarshal(sc.Bytes(), &l) != nil {
					continue
				}
				mu.Lock()
				runs += l.Runs
				steps += l.Steps
				scen++
				if l.Max > deepest {
					deepest = l.Max
				}
				if l.Cut {
					cut++
				}
				for o, n := range l.Outcomes {
					if strings.HasPrefix(o, "not reproducible") {
						cut++
					}
					outcomes[what+" schedules: "+o] += n
					states = append(states, l.Name+o)
				}
				if l.Runs > 100 && sample == nil {
					sample = map[string]any{"scenario": l.Name, "executions": l.Runs, "outcomes": l.Outcomes}
				}
				mu.Unlock()
				if l.Msg != "" {
					ev := []string{l.Name}
					for _, c := range l.Choices {
						ev = append(ev, fmt.Sprint(c))
					}
					x.Violation("schedule "+l.Key, fmt.Sprintf("%s\n scenario: %s\n schedule: %s", l.Msg, l.Name, strings.Join(l.Log, " ")), core.Replay{Kind: "schedule", Space: what, Events: ev})
				}
			}
			if err := cmd.Wait(); err != nil {
				// a stuck or crashed explorer decides nothing
				x.Incomplete(fmt.Sprintf("schedules: explorer ended with %v %s", err, clip(eb.String())))
			}
		}()
	}
	wg.Wait()
	if cut > 0 {
		x.Incomplete(fmt.Sprintf("%d of %d schedule scenarios not finished", cut, scen))
	}
	x.Count(steps, runs, outcomes, states)
	x.AddSpace(map[string]any{"space": what + " schedules", "kind": "interleavings", "scenarios": scen, "schedules": runs, "transitions": steps, "longest_choice_sequence": deepest, "complete": cut == 0, "seconds": time.Since(t0).Seconds()})
	if sample != nil {
		x.Sample(sample)
	}
	fmt.Printf("schedules %-30s scenarios=%d executions=%d steps=%d cut=%d %.1fs\n", what, scen, runs, steps, cut, time.Since(t0).Seconds())
}
