package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

type failure struct{ key, msg string }

// Env is the scratch area of one run.
type Env struct {
	ID, Tier string
	Thorough bool
	Dir      string // scratch root
	VH       string // scratch module
	Gen      string // generator binary
	mapSites int    // ranges over maps under control
	start    time.Time
}

func newEnv(id, tier string) *Env {
	d, err := os.MkdirTemp("/tmp", "vmc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return &Env{ID: id, Tier: tier, Thorough: tier == "thorough", Dir: d, VH: filepath.Join(d, "vh"), start: time.Now()}
}

func (e *Env) cleanup() {
	if os.Getenv("VMC_KEEP") != "" {
		fmt.Fprintln(os.Stderr, "kept", e.Dir)
		return
	}
	if strings.HasPrefix(e.Dir, "/tmp/vmc-") {
		_ = os.RemoveAll(e.Dir)
	}
}

func (e *Env) fail(key, format string, a ...any) {
	panic(failure{key, fmt.Sprintf(format, a...)})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

type procResult struct {
	Out     string // stdout+stderr
	Code    int
	Timeout bool
}

func run(dir string, timeout time.Duration, env []string, name string, args ...string) procResult {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	cmd.WaitDelay = 5 * time.Second
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	r := procResult{Out: b.String()}
	if ctx.Err() != nil {
		r.Timeout = true
	}
	if err != nil {
		r.Code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			r.Code = ee.ExitCode()
		} else {
			r.Out += "\n" + err.Error()
		}
	}
	return r
}

// runStdin runs a program on some input and returns its standard output.
func runStdin(dir, in, name string, args ...string) string {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(in)
	out, err := cmd.Output()
	must(err)
	return string(out)
}

// buildGen builds the generator CLI from /repo's working tree.
func (e *Env) buildGen(extra ...string) {
	e.Gen = filepath.Join(e.Dir, "gotsrpc")
	args := append([]string{"build", "-mod=readonly"}, extra...)
	args = append(args, "-o", e.Gen, "./cmd/gotsrpc")
	r := run(repo, 10*time.Minute, nil, "go", args...)
	if r.Code != 0 {
		e.fail("build", "the generator does not build:\n%s", r.Out)
	}
}

// module creates the scratch module from harness/ (only the given subtrees).
func (e *Env) module(subtrees ...string) {
	must(os.MkdirAll(e.VH, 0o755))
	for _, s := range subtrees {
		must(copyTree(filepath.Join(verif, "harness", s), filepath.Join(e.VH, s)))
	}
	e.writeGoMod(e.VH, "example.com/vh")
}

func (e *Env) writeGoMod(dir, name string) {
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	must(err)
	lines := strings.Split(string(mod), "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "module ") {
			lines[i] = "module " + name
		}
	}
	s := strings.Join(lines, "\n") + "\nrequire github.com/foomo/gotsrpc/v2 v2.0.0\n\nreplace github.com/foomo/gotsrpc/v2 => " + repo + "\n"
	must(os.WriteFile(filepath.Join(dir, "go.mod"), []byte(s), 0o644))
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	must(err)
	must(os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644))
}

// generate runs the freshly built generator on a configuration of the scratch module.
func (e *Env) generate(cfg string) {
	p := filepath.Join(e.VH, cfg)
	r := run(filepath.Dir(p), 3*time.Minute, nil, e.Gen, filepath.Base(p))
	if r.Timeout {
		e.fail("generate-hang", "the generator did not finish on %s:\n%s", cfg, clip(r.Out, 3000))
	}
	if r.Code != 0 {
		e.fail("generate", "the generator failed (exit %d) on %s:\n%s", r.Code, cfg, clip(r.Out, 3000))
	}
}

// build builds a driver of the scratch module.
func (e *Env) build(pkg string, extra ...string) string {
	bin := filepath.Join(e.Dir, filepath.Base(pkg)+".bin")
	args := append([]string{"build"}, extra...)
	args = append(args, "-o", bin, pkg)
	r := run(e.VH, 10*time.Minute, nil, "go", args...)
	if r.Code != 0 {
		e.fail("compile", "the generated code (or its use against the service's own types) does not compile:\n%s", clip(r.Out, 4000))
	}
	return bin
}

func (e *Env) secs() int {
	total := 400
	if e.Thorough {
		total = 3000
	}
	left := total - int(time.Since(e.start).Seconds())
	if left < 30 {
		left = 30
	}
	return left
}

// drive runs a driver binary and reads its result.
func (e *Env) drive(bin string, args ...string) *Result {
	out := filepath.Join(e.Dir, filepath.Base(bin)+".json")
	_ = os.Remove(out)
	args = append([]string{"-tier", e.Tier, "-out", out, "-secs", fmt.Sprint(e.secs())}, args...)
	r := run(e.VH, time.Duration(e.secs()+200)*time.Second, nil, bin, args...)
	if os.Getenv("VMC_VERBOSE") != "" {
		fmt.Fprintln(os.Stderr, clip(r.Out, 20000))
	}
	b, err := os.ReadFile(out)
	if err != nil {
		if r.Timeout {
			e.fail("driver-hang", "the driver made no end:\n%s", tail(r.Out, 4000))
		}
		e.fail("crash", "the process under test ended with exit %d:\n%s", r.Code, crashText(r.Out))
	}
	var res Result
	must(json.Unmarshal(b, &res))
	return &res
}

func crashText(s string) string {
	for _, m := range []string{"panic:", "fatal error:", "WARNING: DATA RACE"} {
		if i := strings.Index(s, m); i >= 0 {
			return clip(s[i:], 4000)
		}
	}
	return tail(s, 4000)
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		t := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(t, 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		_ = os.MkdirAll(filepath.Dir(t), 0o755)
		return os.WriteFile(t, b, 0o644)
	})
}

func (r *Result) merge(o *Result) {
	r.States += o.States
	r.Transitions += o.Transitions
	r.Traces += o.Traces
	r.Exhaustive = r.Exhaustive && o.Exhaustive
	for _, s := range o.Samples {
		if len(r.Samples) < 16 {
			r.Samples = append(r.Samples, s)
		}
	}
	if r.Notes == nil {
		r.Notes = map[string]any{}
	}
	for k, v := range o.Notes {
		if _, ok := r.Notes[k]; ok {
			k += "_2"
		}
		r.Notes[k] = v
	}
	r.Violations = append(r.Violations, o.Violations...)
	r.Flaky = append(r.Flaky, o.Flaky...)
}
