// Command schedpow explores every schedule of the proof-of-work miner (built with a rewritten copy of it).
package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/bits"
	"os"

	"golang.org/x/crypto/blake2b"

	"github.com/iotaledger/iota.go/v4/blockissuer/pow"

	"verif.local/mc/schedout"
	"verif.local/mc/vsched"
	"verif.local/mc/vsched/vcontext"
)

func zeros(data []byte, nonce uint64) int {
	d := blake2b.Sum256(data)
	h := blake2b.Sum256(binary.LittleEndian.AppendUint64(d[:], nonce))
	return bits.TrailingZeros64(binary.LittleEndian.Uint64(h[24:]))
}

func main() {
	thorough := len(os.Args) > 1 && os.Args[1] == "thorough"
	var scs []schedout.Scenario
	add := func(workers int, data string, target int, cancel string, bound int) {
		name := fmt.Sprintf("workers=%d data=%q target=%d cancel=%s preemptions=%d", workers, data, target, cancel, bound)
		scs = append(scs, schedout.Scenario{Name: name, Opt: vsched.Options{Bound: bound, Streak: 16, Steps: 3000}, Body: func() (func(), func(*vsched.Run) (string, string)) {
			var nonce uint64
			var err error
			began, ended := -1, -1
			ctx := vcontext.New(context.Background())
			return func() {
					switch cancel {
					case "before":
						began = vsched.Steps()
						ctx.Cancel(context.Canceled)
					case "during":
						vsched.GoNamed("canceller", func() { began = vsched.Steps(); ctx.Cancel(context.Canceled) })
					}
					nonce, err = pow.New(workers).Mine(ctx, []byte(data), target)
					ended = vsched.Steps()
				}, func(r *vsched.Run) (string, string) {
					cancelled := began >= 0 && began <= ended
					if target > 64 {
						if err == nil || nonce != 0 || errors.Is(err, pow.ErrCanceled) && !cancelled {
							return fmt.Sprintf("impossible target: nonce %d, error %v", nonce, err), ""
						}
						return "", "refused"
					}
					if err == nil {
						if z := zeros([]byte(data), nonce); z < target {
							return fmt.Sprintf("bad nonce: %d has %d trailing zeros, wanted %d (cancelled %v)", nonce, z, target, cancelled), ""
						}
						return "", fmt.Sprintf("nonce found, cancelled=%v", cancelled)
					}
					if nonce != 0 {
						return fmt.Sprintf("nonce and error: %d and %v", nonce, err), ""
					}
					if !errors.Is(err, pow.ErrCanceled) {
						return fmt.Sprintf("error: %v", err), ""
					}
					if !cancelled {
						return "cancellation error: nobody cancelled", ""
					}
					return "", "cancelled"
				}
		}})
	}
	bound := 2
	if thorough {
		bound = 3
	}
	for _, cancel := range []string{"never", "before", "during"} {
		for workers := 1; workers <= 3; workers++ {
			b := bound
			if workers == 3 && cancel == "during" {
				b--
			}
			for _, data := range []string{"", "a", "block"} {
				for target := 0; target <= 3; target++ {
					add(workers, data, target, cancel, b)
				}
			}
			add(workers, "x", 65, cancel, b)
			if cancel != "never" {
				add(workers, "x", 64, cancel, b)
				add(workers, "x", 40, cancel, b)
			}
		}
		add(4, "a", 0, cancel, bound-1)
		add(4, "a", 2, cancel, bound-1)
	}
	schedout.Main("pow schedules", scs)
}
