package main

import (
	"encoding/json"
	"fmt"
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
)

func init() {
	register(&Check{ID: "C22", Level: "model_checking", Assumptions: []string{
		"one fault at a time; file operations go through package syscall (all of os does)",
		"whether a configuration or source can be satisfied is decided by go/types and yaml.v2, whether TypeScript is complete by the TypeScript compiler",
	}, Run: runC22})
}

type c22Target struct {
	Package         string
	Services        map[string]string
	Out             string
	GoRPC, TSRPC    []string
	SkipTSRPCClient bool
}

type c22Mapping struct {
	Out              string
	Structs, Scalars []string
}

type c22Conf struct {
	Error    string
	Module   struct{ Name, Path string }
	Targets  map[string]*c22Target
	Mappings map[string]*c22Mapping
}

type c22Case struct {
	what  string
	files map[string]string
	dirs  []string // outputs or inputs that are directories instead
	env   []string
}

// c22Tokens are the places of a source where something can be missing: identifiers, import paths and operators.
func c22Tokens(src string) (out [][2]int) {
	fs := token.NewFileSet()
	f := fs.AddFile("x.go", -1, len(src))
	var s scanner.Scanner
	s.Init(f, []byte(src), nil, 0)
	for {
		pos, tok, lit := s.Scan()
		if tok == token.EOF {
			return
		}
		if lit == "\n" {
			continue
		}
		if lit == "" {
			lit = tok.String()
		}
		o := f.Offset(pos)
		out = append(out, [2]int{o, o + len(lit)})
	}
}

// c22Faults are the outcomes an operation can have besides success.
func c22Faults(o genOp, thorough bool) (out []string) {
	switch o.op {
	case "write":
		out = []string{"errno:5", "short:0", fmt.Sprintf("short:%d", o.size/2)}
		if o.size > 1 {
			out = append(out, fmt.Sprintf("short:%d", o.size-1))
		}
	case "create", "mkdir":
		out = []string{"errno:13", "errno:28"}
	case "close":
		out = []string{"errno:28", "errno:5"}
	case "unlink", "rename", "rename-to", "truncate", "sync", "chmod":
		out = []string{"errno:13", "errno:5"}
	case "open":
		out = []string{"errno:13"}
	default: // stat, read, readdir
		out = []string{"errno:5"}
	}
	if thorough && o.op != "write" {
		have := map[string]bool{}
		for _, f := range out {
			have[f] = true
		}
		for _, n := range []int{5, 12, 13, 23, 24, 28, 30, 40, 122} { // EIO ENOMEM EACCES ENFILE EMFILE ENOSPC EROFS ELOOP EDQUOT
			if f := fmt.Sprintf("errno:%d", n); !have[f] {
				out = append(out, f)
			}
		}
	}
	return
}

func runC22(e *Env) *Result {
	e.buildGenMC()
	e.module("cmd/yamlconf")
	yamlconf := e.build("./cmd/yamlconf")
	model := newGoModel()
	nodes := newNodePool(e, "check.js", 6)
	defer nodes.close()
	x := newExplorer(e, 8)
	root := filepath.Join(e.Dir, "c22")
	var n atomic.Int64

	readConf := func(file string) (c c22Conf) {
		r := runStdin("", file+"\n", yamlconf)
		must(json.Unmarshal([]byte(r), &c))
		return
	}
	exec := func(c c22Case) (tree map[string]string, ops []genOp, conf c22Conf, r procResult) {
		dir := filepath.Join(root, fmt.Sprint(n.Add(1)))
		defer os.RemoveAll(dir)
		writeTree(dir, c.files)
		for _, d := range c.dirs {
			must(os.MkdirAll(filepath.Join(dir, d), 0o755))
			must(os.WriteFile(filepath.Join(dir, d, "file"), []byte("mine\n"), 0o644))
		}
		log := dir + ".ops"
		defer os.Remove(log)
		r = e.gen(dir, "gotsrpc.yml", append([]string{"VMC_ROOT=" + dir, "VMC_LOG=" + log}, c.env...)...)
		return c21Snapshot(dir), genOps(log), readConf(filepath.Join(dir, "gotsrpc.yml")), r
	}
	says := func(name string, r procResult, replay any) {
		out := strings.TrimSpace(r.Out)
		switch {
		case r.Timeout:
			x.fail("hang", fmt.Sprintf("%s: the generator does not end: %s", name, tail(out, 300)), replay)
		case out == "":
			x.fail("silent", fmt.Sprintf("%s: the generator exits with %d and says nothing", name, r.Code), replay)
		case strings.Contains(out, "goroutine ") && strings.Contains(out, "panic: "):
			x.fail("panic", fmt.Sprintf("%s: the generator panics: %s", name, clip(out[strings.Index(out, "panic: "):], 700)), replay)
		}
	}
	// unsatisfiable says what a configuration or its sources lack, if anything
	unsatisfiable := func(files map[string]string, conf c22Conf) string {
		if conf.Error != "" {
			return "configuration: " + conf.Error
		}
		t := model.load(files, "example.com/gp")
		ts := false
		for name, tg := range conf.Targets {
			if tg == nil || len(tg.Services) == 0 {
				return "target " + name + " is empty"
			}
			var services []string
			known := map[string]bool{}
			for _, s := range tg.Services {
				services = append(services, s)
				known[s] = true
			}
			sort.Strings(services)
			for _, s := range append(append([]string{}, tg.GoRPC...), tg.TSRPC...) {
				if !known[s] {
					return "target " + name + " has no service " + s
				}
			}
			if s := t.unresolved(tg.Package, services); s != "" {
				return s
			}
			ts = ts || tg.Out != ""
		}
		for p, m := range conf.Mappings {
			if m == nil {
				return "mapping " + p + " is empty"
			}
			if ts {
				for _, s := range append(append([]string{}, m.Structs...), m.Scalars...) {
					if !t.hasType(s) {
						return "no type " + s
					}
				}
			}
		}
		return ""
	}
	// complete tells what is missing of the output, if anything
	complete := func(files, tree map[string]string, conf c22Conf) string {
		for name, tg := range conf.Targets {
			dir := strings.TrimPrefix(strings.TrimPrefix(tg.Package, "example.com/gp"), "/")
			var want []string
			if tg.Out != "" {
				want = append(want, filepath.Clean(tg.Out))
			}
			if len(tg.TSRPC) > 0 {
				want = append(want, dir+"/gotsrpc_gen.go")
				if !tg.SkipTSRPCClient {
					want = append(want, dir+"/gotsrpcclient_gen.go")
				}
			}
			if len(tg.GoRPC) > 0 {
				want = append(want, dir+"/gorpc_gen.go", dir+"/gorpcclient_gen.go")
			}
			for _, f := range want {
				c, ok := tree[f]
				if !ok {
					return f + " of target " + name + " is missing"
				}
				if strings.HasSuffix(f, ".ts") {
					for _, s := range tg.Services {
						is := len(tg.TSRPC) == 0
						for _, l := range tg.TSRPC {
							is = is || l == s
						}
						if is && !strings.Contains(c, "class "+s+"Client ") {
							return f + " has no client for " + s
						}
					}
				}
				var list []string
				switch filepath.Base(f) {
				case "gotsrpc_gen.go", "gotsrpcclient_gen.go":
					list = tg.TSRPC
				case "gorpc_gen.go", "gorpcclient_gen.go":
					list = tg.GoRPC
				}
				for _, s := range list {
					if !strings.Contains(c, "type "+s) && !strings.Contains(c, s+"GoTSRPC") && !strings.Contains(c, s+"GoRPC") {
						return f + " has nothing for " + s
					}
				}
			}
		}
		odd := false // TypeScript has no say about files that are not called so
		for _, tg := range conf.Targets {
			odd = odd || tg.Out != "" && !strings.HasSuffix(tg.Out, ".ts")
		}
		for _, m := range conf.Mappings {
			odd = odd || m.Out != "" && !strings.HasSuffix(m.Out, ".ts")
		}
		for _, d := range nodes.tsCheck(tree, false).Diags {
			if d.Code == 2310 { // a struct that embeds itself, which TypeScript has no type for
				continue
			}
			if !odd {
				return "TypeScript: " + d.String()
			}
		}
		if before := model.load(files, "example.com/gp").all(); len(before) == 0 {
			if after := model.load(tree, "example.com/gp").all(); len(after) > 0 {
				return "Go: " + after[0]
			}
		}
		return ""
	}

	conf := gprojConfig()
	base := mergeTrees(gprojFiles, map[string]string{"gotsrpc.yml": conf.String()})
	ref, ops, _, r := exec(c22Case{files: base})
	if r.Code != 0 {
		e.fail("exit", "gp: the generator fails with %d: %s", r.Code, tail(r.Out, 800))
	}

	// faults of file operations
	fault := func(name string, files map[string]string, want map[string]string, ops []genOp, env ...string) {
		for _, o := range ops {
			for _, f := range c22Faults(o, e.Thorough) {
				x.add(func() {
					what := fmt.Sprintf("%s: %s at %s", name, f, o.key)
					x.state(what, 1)
					at := o.key
					if o.mut != "" && strings.HasPrefix(o.path, "/") {
						at = o.mut
					}
					got, _, _, r := exec(c22Case{files: files, env: append([]string{"VMC_AT=" + at, "VMC_DO=" + f}, env...)})
					replay := map[string]any{"case": what}
					if r.Code != 0 {
						x.note("reported_faults", 1)
						says(what, r, replay)
						return
					}
					if d := treeDiff(want, got); d != "" {
						x.fail("fault", fmt.Sprintf("%s: the generator reports success, but %s", what, d), replay)
					}
				})
			}
		}
	}
	fault("no outputs", base, ref, ops)
	_, ops, _, _ = exec(c22Case{files: ref})
	fault("complete outputs", ref, ref, ops)
	stale := map[string]string{}
	for f, c := range ref {
		if _, ok := base[f]; !ok {
			if strings.HasSuffix(f, ".go") {
				c = "package " + filepath.Dir(f) + "\n\ntype Local struct{ Stale int }\n"
			} else {
				c = c[:len(c)/2]
			}
			stale[f] = c
		}
	}
	// what the other configuration left
	stale["b/gotsrpcclient_gen.go"] = "package b\n\ntype Gamma struct{}\n"
	staleTree := mergeTrees(ref, stale)
	_, ops, _, _ = exec(c22Case{files: staleTree})
	fault("stale outputs", staleTree, ref, ops)

	// missing and broken inputs
	try := func(c c22Case) {
		x.add(func() {
			x.state(c.what, 1)
			replay := map[string]any{"case": c.what}
			tree, _, conf, r := exec(c)
			lacks := unsatisfiable(c.files, conf)
			if r.Code != 0 {
				x.note("refused_inputs", 1)
				says(c.what, r, replay)
				return
			}
			if lacks != "" {
				x.fail("input", fmt.Sprintf("%s: the generator reports success, but %s", c.what, lacks), replay)
				return
			}
			if d := complete(c.files, tree, conf); d != "" {
				x.fail("incomplete", fmt.Sprintf("%s: the generator reports success, but %s", c.what, d), replay)
			}
			x.note("accepted_inputs", 1)
		})
	}
	with := func(f, c string) map[string]string { return mergeTrees(base, map[string]string{f: c}) }
	try(c22Case{what: "nothing wrong", files: base})
	var names []string
	for f := range base {
		names = append(names, f)
	}
	sort.Strings(names)
	for _, f := range names {
		c := base[f]
		less := with(f, c)
		delete(less, f)
		try(c22Case{what: f + " is not there", files: less})
		try(c22Case{what: f + " is a directory", files: less, dirs: []string{f}})
		try(c22Case{what: f + " is empty", files: with(f, "")})
		lines := strings.SplitAfter(c, "\n")
		for i, l := range lines {
			if strings.TrimSpace(l) == "" {
				continue
			}
			try(c22Case{what: fmt.Sprintf("%s ends before line %d", f, i+1), files: with(f, strings.Join(lines[:i], ""))})
			try(c22Case{what: fmt.Sprintf("%s without line %d: %s", f, i+1, strings.TrimSpace(l)), files: with(f, strings.Join(lines[:i], "")+strings.Join(lines[i+1:], ""))})
		}
		if strings.HasSuffix(f, ".go") {
			try(c22Case{what: f + " is excluded by a constraint", files: with(f, "//go:build never\n\n"+c)})
			for _, t := range c22Tokens(c) {
				old := c[t[0]:t[1]]
				what := fmt.Sprintf("%s:%d", f, 1+strings.Count(c[:t[0]], "\n"))
				if e.Thorough || token.IsIdentifier(old) {
					try(c22Case{what: what + " without " + old, files: with(f, c[:t[0]]+c[t[1]:])})
				}
				switch {
				case token.IsIdentifier(old):
					try(c22Case{what: what + " " + old + " misspelled", files: with(f, c[:t[0]]+old+"x"+c[t[1]:])})
				case old[0] == '"':
					try(c22Case{what: what + " " + old + " misspelled", files: with(f, c[:t[0]]+old[:len(old)-1]+"x\""+c[t[1]:])})
				}
			}
		}
		if f == "gotsrpc.yml" || f == "go.mod" {
			// every word misspelled or left out
			for i := 0; i < len(c); {
				j := i
				for j < len(c) && !strings.ContainsRune(" \n[],:", rune(c[j])) {
					j++
				}
				if j > i && c[i:j] != "-" {
					what := fmt.Sprintf("%s:%d %q", f, 1+strings.Count(c[:i], "\n"), c[i:j])
					try(c22Case{what: what + " misspelled", files: with(f, c[:j]+"x"+c[j:])})
					try(c22Case{what: what + " left out", files: with(f, c[:i]+c[j:])})
					if e.Thorough {
						try(c22Case{what: what + " cut short", files: with(f, c[:j-1]+c[j:])})
						try(c22Case{what: what + " repeated", files: with(f, c[:j]+" "+c[i:j]+c[j:])})
					}
				}
				i = j + 1
			}
		}
	}
	// outputs that would overwrite each other
	collide := func(what string, edit func(c *gprojConf)) {
		c := gprojConfig()
		edit(&c)
		try(c22Case{what: "one output twice: " + what, files: with("gotsrpc.yml", c.String())})
	}
	tsOuts := []string{"./ts/a.ts", "./ts/b/gamma.ts", "./ts/b/delta.ts", "./ts/vo.ts", "./ts/vo2.ts", "./ts/sub/a-vo.ts", "./ts/time.ts", "./ts/c-vo.ts"}
	spelled := []func(string) string{
		func(f string) string { return f },
		func(f string) string { return strings.TrimPrefix(f, "./") },
		func(f string) string { return "ts/../" + f },
		func(f string) string { return "." + f[1:2] + f[1:] },
	}
	for i, f := range tsOuts {
		for j, g := range tsOuts {
			if i == j {
				continue
			}
			for k, as := range spelled {
				if k > 0 && !e.Thorough && (i+j)%3 != 0 {
					continue
				}
				collide(fmt.Sprintf("%s and %s", as(f), g), func(c *gprojConf) {
					for n := range c.targets {
						c.targets[n] = strings.Replace(c.targets[n], " out: "+f+"\n", " out: "+as(g)+"\n", 1)
					}
					for n := range c.mappings {
						c.mappings[n] = strings.Replace(c.mappings[n], " out: "+f+"\n", " out: "+as(g)+"\n", 1)
					}
				})
			}
		}
	}
	kinds := []string{"    tsrpc: [%s]\n", "    tsrpc: [%s]\n    skipTSRPCClient: true\n", "    gorpc: [%s]\n", "    tsrpc: [%s]\n    gorpc: [%[1]s]\n", ""}
	for i, f := range kinds {
		for j, g := range kinds {
			collide(fmt.Sprintf("a package of two targets, %d and %d", i, j), func(c *gprojConf) {
				target := func(name, service, kind string) string {
					t := "  " + name + ":\n    package: example.com/gp/a\n    services:\n      /" + strings.ToLower(service) + ": " + service + "\n    out: ./ts/" + name + ".ts\n"
					if kind != "" {
						t += fmt.Sprintf(kind, service)
					}
					return t
				}
				c.targets[0] = target("one", "Alpha", f) + target("other", "Beta", g)
			})
		}
	}
	// outputs that cannot be written
	for _, f := range gprojOutputs {
		try(c22Case{what: "output " + f + " is a directory", files: base, dirs: []string{f}})
		if d := filepath.Dir(f); strings.HasPrefix(d, "ts") {
			less := map[string]string{}
			for g, c := range base {
				if !strings.HasPrefix(g, d+"/") {
					less[g] = c
				}
			}
			less[d] = "a file\n"
			try(c22Case{what: "output directory " + d + " is a file", files: less})
		}
	}
	return x.finish()
}
