//go:build !race

package sched

// Races is the number of race reports so far.
func Races() int { return 0 }
