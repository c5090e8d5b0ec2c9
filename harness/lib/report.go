// Package lib holds what the drivers share: exploration, value alphabets, wire transport, reporting.
package lib

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

type Violation struct {
	Key    string `json:"key"`
	Msg    string `json:"msg"`
	Replay any    `json:"replay,omitempty"`
}

type Result struct {
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Traces      int            `json:"traces"`
	Exhaustive  bool           `json:"exhaustive"`
	Samples     []any          `json:"samples"`
	Notes       map[string]any `json:"notes"`
	Violations  []Violation    `json:"violations"`
	Flaky       []string       `json:"flaky,omitempty"`
}

// Run is one driver run: counters, violations, watchdog, deadline.
type Run struct {
	Tier     string
	Thorough bool
	Only     string // replay filter: only cases whose name has this prefix
	mu       sync.Mutex
	res      Result
	states   map[string]struct{}
	outcomes map[string]struct{}
	perKey   map[string]int
	out      string
	deadline time.Time
	beat     time.Time
	cur      string
	done     bool
}

var TheRun *Run

// Start parses the flags of a driver.
func Start() *Run {
	r := &Run{}
	var secs int
	flag.StringVar(&r.Tier, "tier", "quick", "")
	flag.StringVar(&r.out, "out", "", "")
	flag.StringVar(&r.Only, "only", "", "")
	flag.IntVar(&secs, "secs", 300, "")
	flag.Parse()
	r.Thorough = r.Tier == "thorough"
	r.deadline = time.Now().Add(time.Duration(secs) * time.Second)
	r.res.Exhaustive = true
	r.res.Notes = map[string]any{}
	r.states = map[string]struct{}{}
	r.outcomes = map[string]struct{}{}
	r.perKey = map[string]int{}
	r.beat = time.Now()
	TheRun = r
	go r.watch()
	return r
}

func (r *Run) watch() {
	for {
		time.Sleep(time.Second)
		r.mu.Lock()
		if r.done {
			r.mu.Unlock()
			return
		}
		stuck := time.Since(r.beat) > 120*time.Second
		cur := r.cur
		r.mu.Unlock()
		if stuck {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			r.Violate("hang", "no progress for 120 s in case "+cur, map[string]any{"case": cur, "stacks": string(buf[:n])})
			r.mu.Lock()
			r.res.Exhaustive = false
			r.mu.Unlock()
			r.Finish()
		}
	}
}

// Case announces the case being executed (also the watchdog's heartbeat).
func (r *Run) Case(name string) {
	r.mu.Lock()
	r.cur = name
	r.beat = time.Now()
	r.res.Transitions++
	r.mu.Unlock()
}

// Beat is a heartbeat without a transition.
func (r *Run) Beat() { r.mu.Lock(); r.beat = time.Now(); r.mu.Unlock() }

func (r *Run) Cur() string { r.mu.Lock(); defer r.mu.Unlock(); return r.cur }

func (r *Run) Transition(n int) { r.mu.Lock(); r.res.Transitions += n; r.mu.Unlock() }
func (r *Run) Trace(n int)      { r.mu.Lock(); r.res.Traces += n; r.mu.Unlock() }

// State counts a distinct state (canonical form).
func (r *Run) State(key string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.states[key]; ok {
		return false
	}
	r.states[key] = struct{}{}
	return true
}

func (r *Run) Outcome(key string) {
	r.mu.Lock()
	r.outcomes[key] = struct{}{}
	r.mu.Unlock()
}

func (r *Run) Sample(v any) {
	r.mu.Lock()
	if len(r.res.Samples) < 12 {
		r.res.Samples = append(r.res.Samples, v)
	}
	r.mu.Unlock()
}

func (r *Run) Note(k string, v any) { r.mu.Lock(); r.res.Notes[k] = v; r.mu.Unlock() }

func (r *Run) Truncated(why string) {
	r.mu.Lock()
	r.res.Exhaustive = false
	r.res.Notes["truncated"] = why
	r.mu.Unlock()
}

// Expired reports that the internal deadline has passed; the run then ends as non-exhaustive.
func (r *Run) Expired() bool {
	if time.Now().After(r.deadline) {
		r.Truncated("internal deadline")
		return true
	}
	return false
}

// Violate records a violation; at most 3 per key are kept.
func (r *Run) Violate(key, msg string, replay any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.perKey[key]++
	if r.perKey[key] > 3 || len(r.res.Violations) > 200 {
		return
	}
	if len(msg) > 4000 {
		msg = msg[:4000] + "..."
	}
	r.res.Violations = append(r.res.Violations, Violation{key, msg, replay})
}

// Check executes one case and, when it fails, four more times: only a failure that repeats every time is a violation.
func (r *Run) Check(name, key string, replay any, f func() error) bool {
	if r.Only != "" && !strings.HasPrefix(name, r.Only) {
		return true
	}
	r.Case(name)
	err := safely(f)
	if err == nil {
		return true
	}
	r.mu.Lock()
	n := r.perKey[key]
	r.mu.Unlock()
	if n > 20 { // enough of this kind; do not spend the budget on confirmations
		r.Violate(key, "", nil)
		return false
	}
	for i := 0; i < 4; i++ {
		if err2 := safely(f); err2 == nil {
			r.mu.Lock()
			r.res.Flaky = append(r.res.Flaky, name+": "+err.Error())
			r.mu.Unlock()
			return true
		}
	}
	r.Violate(key, name+": "+err.Error(), replay)
	return false
}

func safely(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 8192)
			n := runtime.Stack(buf, false)
			err = fmt.Errorf("panic: %v\n%s", p, buf[:n])
		}
	}()
	return f()
}

// Finish writes the result file and ends the process.
func (r *Run) Finish() {
	r.mu.Lock()
	r.done = true
	r.res.States = len(r.states)
	r.res.Notes["distinct_outcomes"] = len(r.outcomes)
	if len(r.outcomes) > 0 && len(r.outcomes) <= 40 {
		var os []string
		for k := range r.outcomes {
			os = append(os, k)
		}
		sort.Strings(os)
		r.res.Notes["outcomes"] = os
	}
	b, err := json.MarshalIndent(r.res, "", " ")
	if err != nil {
		// samples/replays must be encodable; fall back to their text
		for i := range r.res.Samples {
			r.res.Samples[i] = fmt.Sprint(r.res.Samples[i])
		}
		for i := range r.res.Violations {
			r.res.Violations[i].Replay = fmt.Sprint(r.res.Violations[i].Replay)
		}
		b, err = json.MarshalIndent(r.res, "", " ")
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if r.out == "" {
		os.Stdout.Write(append(b, '\n'))
	} else if err := os.WriteFile(r.out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}
