//go:build race

package sched

import "runtime"

// Races is the number of race reports so far.
func Races() int { return runtime.RaceErrors() }
