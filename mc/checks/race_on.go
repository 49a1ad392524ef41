//go:build race

package checks

import "runtime"

// unseen runs f without letting the race detector see what f synchronises.
func unseen(f func()) {
	runtime.RaceDisable()
	f()
	runtime.RaceEnable()
}
