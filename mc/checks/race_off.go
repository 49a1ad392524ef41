//go:build !race

package checks

func unseen(f func()) { f() }
