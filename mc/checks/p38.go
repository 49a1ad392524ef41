package checks

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/bits"
	"runtime"
	"strings"
	"time"

	"golang.org/x/crypto/blake2b"

	"github.com/iotaledger/iota.go/v4/blockissuer/pow"

	"verif.local/mc/core"
)

func init() { All["P38"] = p38 }

func refZeros(data []byte, nonce uint64) int {
	h := blake2b.Sum256(binary.LittleEndian.AppendUint64(append([]byte{}, data...), nonce))
	return bits.TrailingZeros64(binary.LittleEndian.Uint64(h[24:]))
}

func p38(x *core.Ctx) {
	x.Assume("blake2b is the pow digest; the search for targets above the enumerated ones only takes longer")
	schedule(x, "pow")
	if x.Violations() > 0 {
		return // what follows runs without control and may not come back
	}
	// the difficulty of every nonce
	nonces := []uint64{}
	for i := 0; i < 64; i++ {
		nonces = append(nonces, 1<<i-1, 1<<i, 1<<i+1)
	}
	nonces = append(nonces, math.MaxUint64, math.MaxUint64/2, math.MaxUint64/3, math.MaxUint64-1)
	x.Product("difficulty of a nonce", []core.Dim{core.D("length", 130), core.DV("nonce", nonces)}, func(v []int, c *core.C) {
		msg := make([]byte, v[0])
		for i := range msg {
			msg[i] = byte(3*i + v[0])
		}
		keep := append([]byte{}, msg...)
		c.Step(1)
		got, want := pow.TrailingZeros(msg, nonces[v[1]]), refZeros(keep, nonces[v[1]])
		c.Check(got == want, "difficulty", "message of %d bytes, nonce %d: %d trailing zeros, want %d", v[0], nonces[v[1]], got, want)
		c.Check(string(msg) == string(keep), "difficulty writes", "the message was changed")
		c.State(binary.LittleEndian.AppendUint64(msg, nonces[v[1]]))
		c.Outcomef("%d zeros", want)
	})
	small := core.Pick(x, 1<<14, 1<<18)
	x.Product("difficulty of small nonces", []core.Dim{core.D("nonce", small)}, func(v []int, c *core.C) {
		d := blake2b.Sum256([]byte("digest"))
		c.Step(1)
		got, want := pow.TrailingZeros(d[:], uint64(v[0])), refZeros(d[:], uint64(v[0]))
		c.Check(got == want, "difficulty", "nonce %d: %d trailing zeros, want %d", v[0], got, want)
		c.Outcomef("%d zeros", want)
	})
	// mining without any scheduler control: every target, data and number of workers
	lens := []int{0, 1, 31, 32, 33, 64, 127, 128, 129, 200, 1000, 32768}
	x.Product("mining", []core.Dim{core.D("target", core.Pick(x, 12, 16)), core.DV("length", lens), core.DL("workers", "default", "0", "-1", "1", "2", "3", "7", "32")}, func(v []int, c *core.C) {
		data := make([]byte, lens[v[1]])
		for i := range data {
			data[i] = byte(i * (v[0] + 1))
		}
		c.Step(1)
		digest := blake2b.Sum256(data)
		nonce, err, ended := mineFor(miner(v[2]), data, v[0])
		if !ended {
			c.Fail("endless", "target %d, %d bytes: still mining after a minute", v[0], lens[v[1]])
			return
		}
		c.Check(err == nil, "mine", "target %d, %d bytes: %v", v[0], lens[v[1]], err)
		z := refZeros(digest[:], nonce)
		c.Check(err != nil || z >= v[0], "bad nonce", "target %d, %d bytes, nonce %d has %d trailing zeros", v[0], lens[v[1]], nonce, z)
		c.State(binary.LittleEndian.AppendUint64(nil, nonce))
		c.Outcome("found")
	})
	bad := []int{65, 66, 100, 128, 256, 320, 65535, math.MaxInt32, math.MaxInt32 + 1, math.MaxInt64}
	x.Product("impossible targets", []core.Dim{core.DV("target", bad), core.DL("workers", "default", "0", "-1", "1", "2", "3", "7", "32"), core.DL("context", "open", "cancelled")}, func(v []int, c *core.C) {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if v[2] == 1 {
			cancel()
		}
		type out struct {
			n   uint64
			err error
		}
		ch := make(chan out, 1)
		go func() { n, err := miner(v[1]).Mine(ctx, []byte("data"), bad[v[0]]); ch <- out{n, err} }()
		c.Step(1)
		select {
		case o := <-ch:
			c.Check(o.err != nil && o.n == 0, "impossible", "target %d: nonce %d, error %v", bad[v[0]], o.n, o.err)
			c.Check(v[2] == 1 || !errors.Is(o.err, pow.ErrCanceled), "impossible cancelled", "target %d: reported as cancelled though nobody cancelled", bad[v[0]])
			c.Outcome("refused")
		case <-time.After(20 * time.Second):
			c.Fail("impossible endless", "target %d: still mining after 20 s", bad[v[0]])
		}
	})
	// cancelling a search that would not end by itself, and leaks
	if !x.InReplay() && !x.Stopped() {
		base := runtime.NumGoroutine()
		n := 0
		for _, w := range []int{1, 2, 3, 8} {
			for _, when := range []time.Duration{-1, 0, time.Millisecond, 10 * time.Millisecond} {
				ctx, cancel := context.WithCancel(context.Background())
				if when < 0 {
					cancel()
				} else {
					time.AfterFunc(when, cancel)
				}
				type out struct {
					n   uint64
					err error
				}
				ch := make(chan out, 1)
				go func() { n, err := pow.New(w).Mine(ctx, []byte("data"), 64); ch <- out{n, err} }()
				select {
				case o := <-ch:
					if o.err == nil && refZeros(digestOf("data"), o.n) < 64 || o.err != nil && (!errors.Is(o.err, pow.ErrCanceled) || o.n != 0) {
						x.Violation("cancel", fmt.Sprintf("%d workers cancelled after %v: nonce %d, error %v", w, when, o.n, o.err), core.Replay{})
					}
				case <-time.After(20 * time.Second):
					x.Violation("cancel ignored", fmt.Sprintf("%d workers cancelled after %v still mine after 20 s", w, when), core.Replay{})
					return
				}
				cancel()
				n++
			}
			for i := 0; i < 50; i++ {
				if _, err, ended := mineFor(pow.New(w), []byte{byte(i)}, 3); err != nil || !ended {
					x.Violation("mine", fmt.Sprintf("mining failed: %v (ended %v)", err, ended), core.Replay{})
					return
				}
				n++
			}
		}
		for i := 0; i < 200 && mining() > 0; i++ {
			time.Sleep(20 * time.Millisecond)
		}
		if k := mining(); k > 0 {
			x.Violation("leak", fmt.Sprintf("%d goroutines of the miner are still there after every call has returned (%d goroutines at first)", k, base), core.Replay{})
		}
		x.Count(n, n, map[string]uint64{"free running: ended": uint64(n)}, nil)
	}
}

// mineFor mines with a time limit far above what the search needs.
func mineFor(w *pow.Worker, data []byte, target int) (uint64, error, bool) {
	type out struct {
		n   uint64
		err error
	}
	ch := make(chan out, 1)
	go func() { n, err := w.Mine(context.Background(), data, target); ch <- out{n, err} }()
	select {
	case o := <-ch:
		return o.n, o.err, true
	case <-time.After(time.Minute):
		return 0, nil, false
	}
}

func digestOf(s string) []byte { d := blake2b.Sum256([]byte(s)); return d[:] }

// mining counts the goroutines inside package pow.
func mining() (n int) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "blockissuer/pow.") {
			n++
		}
	}
	return
}

func miner(i int) *pow.Worker {
	ns := []int{0, 0, -1, 1, 2, 3, 7, 32}
	if i == 0 {
		return pow.New()
	}
	return pow.New(ns[i])
}
