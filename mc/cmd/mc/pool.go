package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"time"
)

// explorer runs enumerated cases on all cores and collects what they report.
type explorer struct {
	e        *Env
	mu       sync.Mutex
	res      *Result
	wg       sync.WaitGroup
	more     *sync.Cond // on mu: queue or closed changed
	queue    []func()
	closed   bool
	deadline time.Time
	perKey   map[string]int
	states   map[string]bool
	skipped  int
	failures int
	broken   []string
}

func newExplorer(e *Env, workers int) *explorer {
	x := &explorer{e: e, res: &Result{Exhaustive: true, Notes: map[string]any{}}, perKey: map[string]int{}, states: map[string]bool{}}
	x.deadline = time.Now().Add(time.Duration(e.secs()) * time.Second)
	x.more = sync.NewCond(&x.mu)
	for i := 0; i < workers; i++ {
		go func() {
			for {
				x.mu.Lock()
				for len(x.queue) == 0 && !x.closed {
					x.more.Wait()
				}
				if len(x.queue) == 0 {
					x.mu.Unlock()
					return
				}
				f := x.queue[len(x.queue)-1]
				x.queue = x.queue[:len(x.queue)-1]
				x.mu.Unlock()
				x.more.Broadcast()
				x.one(f)
				x.wg.Done()
			}
		}()
	}
	return x
}

func (x *explorer) one(f func()) {
	defer func() {
		if p := recover(); p != nil {
			x.mu.Lock()
			defer x.mu.Unlock()
			if f, ok := p.(failure); ok {
				x.violate(f.key, f.msg, nil)
				return
			}
			x.broken = append(x.broken, fmt.Sprint(p))
		}
	}()
	f()
}

// add queues one case, once there is room; not for use within a case.
func (x *explorer) add(f func()) { x.put(f, 16) }

// later queues a case from within another.
func (x *explorer) later(f func()) { x.put(f, 1<<30) }

func (x *explorer) put(f func(), room int) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for len(x.queue) >= room {
		x.more.Wait()
	}
	if time.Now().After(x.deadline) || x.failures > 200 && os.Getenv("VMC_ALL") == "" {
		x.res.Exhaustive = false
		x.skipped++
		return
	}
	x.wg.Add(1)
	x.queue = append(x.queue, f)
	x.more.Broadcast()
}

func (x *explorer) state(name string, transitions int) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if !x.states[name] {
		x.states[name] = true
		x.res.States++
	}
	x.res.Transitions += transitions
	x.res.Traces++
	if len(x.res.Samples) < 12 && x.res.States%7 == 1 {
		x.res.Samples = append(x.res.Samples, name)
	}
}

func (x *explorer) note(k string, n int) {
	x.mu.Lock()
	defer x.mu.Unlock()
	v, _ := x.res.Notes[k].(int)
	x.res.Notes[k] = v + n
}

func (x *explorer) fail(key, msg string, replay any) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.violate(key, msg, replay)
}

func (x *explorer) violate(key, msg string, replay any) {
	if key[0] != '@' { // known findings begin thus
		x.failures++
	}
	x.perKey[key]++
	if os.Getenv("VMC_ALL") != "" {
		fmt.Fprintln(os.Stderr, "- "+key+": "+clip(msg, 600))
	}
	if x.perKey[key] <= 3 {
		x.res.Violations = append(x.res.Violations, Violation{key, msg, replay})
	}
}

func (x *explorer) wait() { x.wg.Wait() }

func (x *explorer) finish() *Result {
	x.wait()
	x.mu.Lock()
	x.closed = true
	x.mu.Unlock()
	x.more.Broadcast()
	if len(x.broken) > 0 {
		panic(fmt.Sprintf("the check itself failed %d times: %s", len(x.broken), x.broken[0]))
	}
	if x.skipped > 0 {
		x.res.Notes["not_explored"] = x.skipped
	}
	sort.SliceStable(x.res.Violations, func(i, j int) bool { return x.res.Violations[i].Key < x.res.Violations[j].Key })
	return x.res
}
