// Package schedout runs the scenarios of a scheduler-controlled binary and reports them as JSON lines.
package schedout

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"verif.local/mc/vsched"
)

// Scenario is one set of threads.
type Scenario struct {
	Name string
	Opt  vsched.Options
	// Body prepares one execution: the main goroutine and the judge of its end; outcome names what was seen.
	Body func() (main func(), judge func(*vsched.Run) (verdict, outcome string))
}

// Line is one report.
type Line struct {
	Space    string            `json:"space"`
	Name     string            `json:"name"`
	Runs     int               `json:"runs"`
	Steps    int               `json:"steps"`
	Max      int               `json:"max_choices"`
	Outcomes map[string]uint64 `json:"outcomes"`
	Key      string            `json:"key,omitempty"`
	Msg      string            `json:"msg,omitempty"`
	Choices  []int             `json:"choices,omitempty"`
	Log      []string          `json:"log,omitempty"`
	Cut      bool              `json:"cut,omitempty"`
}

// Main explores the scenarios of one shard: args are SHARD SHARDS SECONDS, or "replay" NAME CHOICES.
func Main(space string, scs []Scenario) {
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	emit := func(l Line) { b, _ := json.Marshal(l); w.Write(append(b, '\n')); w.Flush() }
	if len(os.Args) > 3 && os.Args[2] == "replay" {
		for _, s := range scs {
			if s.Name == os.Args[3] {
				var pre []int
				if len(os.Args) > 4 {
					for _, f := range strings.Split(os.Args[4], ",") {
						if n, err := strconv.Atoi(f); err == nil {
							pre = append(pre, n)
						}
					}
				}
				emit(one(space, s, pre))
			}
		}
		return
	}
	shard, _ := strconv.Atoi(os.Args[2])
	shards, _ := strconv.Atoi(os.Args[3])
	secs, _ := strconv.Atoi(os.Args[4])
	end := time.Now().Add(time.Duration(secs) * time.Second)
	for i, s := range scs {
		if i%shards != shard {
			continue
		}
		l := Line{Space: space, Name: s.Name, Outcomes: map[string]uint64{}}
		if time.Now().After(end) {
			l.Cut = true
			emit(l)
			continue
		}
		var outcome string
		var judge func(*vsched.Run) (string, string)
		l.Runs, l.Steps = vsched.Explore(s.Opt, func() (func(), func(*vsched.Run) string) {
			m, j := s.Body()
			judge = j
			return m, func(r *vsched.Run) (v string) { v, outcome = judge(r); return }
		}, func(r *vsched.Run, verdict string) bool {
			if len(r.Trace) > l.Max {
				l.Max = len(r.Trace)
			}
			if verdict != "" {
				var cs []int
				for _, c := range r.Trace {
					cs = append(cs, c.Pick)
				}
				// believe only what happens again
				again := one(space, s, cs)
				if again.Msg == "" {
					l.Outcomes["not reproducible: "+verdict]++
					return true
				}
				l.Key, l.Msg, l.Choices, l.Log = again.Key, again.Msg, cs, again.Log
				return false
			}
			l.Outcomes[outcome]++
			if l.Runs&63 == 0 && time.Now().After(end) {
				l.Cut = true
				return false
			}
			return true
		})
		emit(l)
	}
}

func one(space string, s Scenario, pre []int) Line {
	l := Line{Space: space, Name: s.Name, Choices: pre}
	main, judge := s.Body()
	o := s.Opt
	o.Log = true
	r := vsched.Execute(o, pre, main)
	if r.Err != "" {
		l.Key, l.Msg = r.Kind, r.Kind+": "+r.Err
	} else if v, _ := judge(r); v != "" {
		l.Key, _, _ = strings.Cut(v, ":")
		l.Msg = v
	}
	l.Log = r.Log()
	if len(l.Log) > 200 {
		l.Log = append(l.Log[:200], fmt.Sprintf("... %d more", len(l.Log)-200))
	}
	return l
}
