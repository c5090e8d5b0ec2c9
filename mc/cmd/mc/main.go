// Command mc runs one property's check: mc <ID>.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

const (
	repo  = "/repo"
	verif = "/verif"
)

type Violation struct {
	Key    string `json:"key"`
	Msg    string `json:"msg"`
	Replay any    `json:"replay,omitempty"`
}

// Result is what a check reports.
type Result struct {
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Traces      int            `json:"traces"`
	Exhaustive  bool           `json:"exhaustive"`
	Samples     []any          `json:"samples"`
	Notes       map[string]any `json:"notes"`
	Violations  []Violation    `json:"violations"`
	Flaky       []string       `json:"flaky,omitempty"`
}

type Check struct {
	ID          string
	Level       string
	Assumptions []string
	Run         func(e *Env) *Result
}

type Finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

type findingsFile struct {
	Findings []Finding `json:"findings"`
	Fixed    []string  `json:"fixed"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc <ID>")
		os.Exit(2)
	}
	id := os.Args[1]
	c, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	e := newEnv(id, tier)
	res := func() (res *Result) {
		defer func() {
			if p := recover(); p != nil {
				if f, ok := p.(failure); ok {
					res = &Result{Violations: []Violation{{Key: f.key, Msg: f.msg, Replay: map[string]any{"step": f.key, "output": f.msg}}}}
					return
				}
				e.cleanup()
				panic(p)
			}
		}()
		return c.Run(e)
	}()
	e.cleanup()
	wall := time.Since(start).Seconds()
	code := report(c, tier, seed, res, wall)
	os.Exit(code)
}

func report(c *Check, tier string, seed int, res *Result, wall float64) int {
	var ff findingsFile
	if b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.json")); err == nil {
		if err := json.Unmarshal(b, &ff); err != nil {
			fmt.Fprintln(os.Stderr, "KNOWN_FINDINGS.json:", err)
			os.Exit(2)
		}
	}
	known := map[string]Finding{}
	for _, f := range ff.Findings {
		if f.Property == c.ID {
			known[f.Key] = f
		}
	}
	seen := map[string]int{}
	var fresh []Violation
	for _, v := range res.Violations {
		if _, ok := known[v.Key]; ok {
			seen[v.Key]++
			continue
		}
		fresh = append(fresh, v)
	}
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if seen[k] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s [%s] %s\n", c.ID, k, known[k].What)
		} else {
			fmt.Printf("note: known finding %s of %s did not show on this tree\n", k, c.ID)
		}
	}
	repDir := filepath.Join(verif, "evidence", "replays")
	_ = os.MkdirAll(repDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(repDir, c.ID+"-*.json"))
	for _, f := range old {
		_ = os.Remove(f)
	}
	byKey := map[string]bool{}
	n := 0
	for _, v := range fresh {
		if byKey[v.Key] {
			continue
		}
		byKey[v.Key] = true
		n++
		if n > 12 {
			break
		}
		p := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", c.ID, n))
		b, _ := json.MarshalIndent(map[string]any{"property": c.ID, "key": v.Key, "what": v.Msg, "case": v.Replay}, "", " ")
		_ = os.WriteFile(p, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
		fmt.Printf("  key=%s\n  %s\n", v.Key, strings.ReplaceAll(clip(v.Msg, 1500), "\n", "\n  "))
	}
	cov := map[string]any{}
	for k, v := range res.Notes {
		cov[k] = v
	}
	if len(res.Samples) == 0 {
		res.Samples = []any{}
	}
	if c.Level == "model_checking" {
		cov["states"] = res.States
		cov["transitions"] = res.Transitions
		cov["traces_validated_against_impl"] = res.Traces
	} else {
		cov["evaluations"] = res.Transitions
		cov["distinct_nontrivial"] = res.States
		if _, ok := cov["rule"]; !ok {
			cov["rule"] = "see DESIGN.md"
		}
	}
	cov["samples"] = res.Samples
	cov["exhaustive"] = res.Exhaustive
	if len(res.Flaky) > 0 {
		cov["unrepeatable_failures_not_reported"] = res.Flaky
	}
	var listed []string
	for k := range seen {
		listed = append(listed, k)
	}
	sort.Strings(listed)
	if len(listed) > 0 {
		cov["known_findings_observed"] = listed
	}
	ev := map[string]any{"property": c.ID, "tier": tier, "seed": seed, "level": c.Level, "coverage": cov,
		"assumptions": append([]string{}, c.Assumptions...), "wall_s": wall, "violations": len(fresh)}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d exhaustive=%v violations=%d wall=%.1fs\n", c.ID, tier, res.States, res.Transitions, res.Traces, res.Exhaustive, len(fresh), wall)
	if len(fresh) > 0 {
		return 1
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
