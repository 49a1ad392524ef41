// Command mc runs one property's model-checking harness against the iota.go tree in /repo.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"time"

	"verif.local/mc/checks"
	"verif.local/mc/core"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "nested" {
		checks.Nested(os.Args[2:])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "readers" {
		os.Exit(checks.Readers(os.Args[2]))
	}
	if len(os.Args) > 2 && os.Args[1] == "provider-pairs" {
		os.Exit(checks.ProviderPairs(os.Args[2]))
	}
	if len(os.Args) < 3 {
		fmt.Println("usage: mc check PROP | mc replay FILE | mc list x")
		os.Exit(2)
	}
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	sd, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	budget := 400 * time.Second
	if tier == "thorough" {
		budget = 90 * time.Minute
	}
	switch os.Args[1] {
	case "check":
		p := os.Args[2]
		fn, ok := checks.All[p]
		if !ok {
			fmt.Println("unknown property", p)
			os.Exit(2)
		}
		if f := os.Getenv("VERIF_PROFILE"); f != "" {
			if w, err := os.Create(f); err == nil {
				_ = pprof.StartCPUProfile(w)
			}
		}
		x := core.New(dir, p, tier, sd, budget)
		fn(x)
		pprof.StopCPUProfile()
		os.Exit(x.Finish())
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var r core.Replay
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		x := core.New(dir, r.Property, r.Tier, sd, budget)
		x.SetReplay(&r)
		checks.All[r.Property](x)
		os.Exit(x.Finish())
	case "list":
		var ks []string
		for k := range checks.All {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(ks)
	}
}
