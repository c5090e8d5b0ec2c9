// Package sched runs a few goroutines under a controlled schedule: at every Yield the schedule decides who goes on.
// Its hand-over makes no happens-before edges the race detector would see, so races stay visible in every schedule.
// It requires GOMAXPROCS(1).
package sched

import (
	"runtime"
	"time"
)

const (
	maxThreads = 8
	maxSteps   = 1 << 16
)

const (
	fresh = iota
	running
	waiting
	blocked
	done
)

type thread struct {
	g     uintptr
	state int
}

var (
	on       bool
	n        int
	th       [maxThreads]thread
	turn     int
	progress uint64
	steps    int
	enabled  [maxSteps]uint8 // number of choices at a step
	forced   [maxSteps]bool  // the step is no preemption
	dev      [maxSteps]uint8 // the schedule: choice per step
	stuck    bool
	late     int // threads found blocked
)

func getg() uintptr

//go:norace
func self() int {
	g := getg()
	for i := 0; i < n; i++ {
		if th[i].g == g {
			return i
		}
	}
	return -1
}

// Current is the number of the calling thread, -1 if it is none.
//
//go:norace
func Current() int {
	if !on {
		return -1
	}
	return self()
}

// choose picks the thread to go on; me is the thread at the point, if it can go on itself.
//
//go:norace
func choose(me int) int {
	var c [maxThreads]int
	k := 0
	if me >= 0 {
		c[0] = me
		k = 1
	}
	for i := 0; i < n; i++ {
		if i != me && th[i].state == waiting {
			c[k] = i
			k++
		}
	}
	if k == 0 {
		return -1
	}
	if k == 1 {
		return c[0]
	}
	if steps >= maxSteps {
		return c[0]
	}
	v := int(dev[steps])
	enabled[steps] = uint8(k)
	forced[steps] = me < 0
	steps++
	if v >= k {
		v = 0
	}
	return c[v]
}

// Yield is a point at which another thread may go on.
//
//go:norace
func Yield() {
	if !on {
		return
	}
	i := self()
	if i < 0 {
		return
	}
	progress++
	if turn == i {
		t := choose(i)
		if t == i {
			return
		}
		th[i].state = waiting
		turn = t
	} else {
		th[i].state = waiting
		if turn == -1 {
			turn = i
		}
	}
	for turn != i {
		runtime.Gosched()
	}
	th[i].state = running
	progress++
}

//go:norace
func begin(i int) {
	th[i].g = getg()
	th[i].state = waiting
	progress++
	for turn != i {
		runtime.Gosched()
	}
	th[i].state = running
}

//go:norace
func end(i int) {
	th[i].state = done
	th[i].g = 0
	progress++
	if turn == i {
		turn = choose(-1)
	}
}

// Lock acquires a lock of the code under test without stopping the schedule.
func Lock(try func() bool) {
	for !try() {
		stepAside()
	}
}

//go:norace
func stepAside() {
	i := -1
	if on {
		i = self()
	}
	if i < 0 || turn != i {
		runtime.Gosched()
		return
	}
	for k := 1; k < n; k++ {
		if j := (i + k) % n; th[j].state == waiting {
			th[i].state = waiting
			turn = j
			for turn != i {
				runtime.Gosched()
			}
			th[i].state = running
			return
		}
	}
	runtime.Gosched()
}

// Go starts a goroutine of the code under test as a thread of its own, if called by one.
func Go(f func()) {
	i := spawn()
	if i < 0 {
		go f()
		return
	}
	go func() {
		begin(i)
		defer end(i)
		f()
	}()
	waitFor(i)
}

//go:norace
func spawn() int {
	if !on || self() < 0 || n >= maxThreads {
		return -1
	}
	th[n] = thread{}
	n++
	return n - 1
}

//go:norace
func waitFor(i int) {
	for th[i].state == fresh {
		runtime.Gosched()
	}
}

//go:norace
func setup(k int, schedule []Dev) {
	for i := 0; i < steps; i++ {
		dev[i] = 0
	}
	for _, d := range schedule {
		dev[d.Step] = uint8(d.Choice)
	}
	n = k
	for i := 0; i < maxThreads; i++ {
		th[i] = thread{}
	}
	turn = -2
	steps = 0
	stuck = false
	progress = 0
	on = true
}

//go:norace
func clearDevs(schedule []Dev) {
	for _, d := range schedule {
		dev[d.Step] = 0
	}
}

//go:norace
func allReady() bool {
	for i := 0; i < n; i++ {
		if th[i].state == fresh {
			return false
		}
	}
	return true
}

//go:norace
func allDone() bool {
	for i := 0; i < n; i++ {
		if th[i].state != done {
			return false
		}
	}
	return true
}

//go:norace
func supervise() {
	for !allReady() {
		runtime.Gosched()
	}
	turn = choose(-1)
	last, idle, since := progress, 0, time.Now()
	for !allDone() {
		runtime.Gosched()
		if progress != last {
			last, idle, since = progress, 0, time.Now()
			continue
		}
		idle++
		if idle < 2000 {
			continue
		}
		d := time.Since(since)
		if d > 10*time.Second {
			stuck = true
			return
		}
		if d < 30*time.Millisecond {
			continue
		}
		// whoever has the turn waits for something outside the schedule
		if i := turn; i >= 0 && th[i].state == running {
			if t := choose(-1); t >= 0 {
				th[i].state = blocked
				late++
				turn = t
			}
		}
	}
}

// Dev is a deviation from the schedule that always continues the running thread.
type Dev struct{ Step, Choice int }

// Trace is what an execution met: the number of choices per step and whether it was forced.
type Trace struct {
	N      []uint8
	Forced []bool
	Stuck  bool
}

//go:norace
func harvest() (t Trace) {
	t.N = make([]uint8, steps)
	t.Forced = make([]bool, steps)
	for i := 0; i < steps; i++ {
		t.N[i] = enabled[i]
		t.Forced[i] = forced[i]
	}
	t.Stuck = stuck
	on = false
	return
}

// Run executes the bodies under a schedule.
func Run(schedule []Dev, bodies ...func()) Trace {
	setup(len(bodies), schedule)
	fin := make(chan int, len(bodies))
	for i, b := range bodies {
		go func() {
			begin(i)
			b()
			end(i)
			fin <- i
		}()
	}
	supervise()
	t := harvest()
	clearDevs(schedule)
	if !t.Stuck {
		for range bodies {
			<-fin
		}
	}
	return t
}
