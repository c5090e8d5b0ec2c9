package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

func init() {
	register(&Check{ID: "C15", Level: "model_checking", Assumptions: []string{
		"the order of map ranges in gotsrpc, config, the command, go/ast and maps is explored; the other packages (goimports, yaml) are taken as they are",
		"configurations with two writers of one output are refused (C22)",
	}, Run: runC15})
}

type c15Range struct {
	site string
	n    int
}

func c15Ranges(log string) (out []c15Range) {
	b, _ := os.ReadFile(log)
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		var r c15Range
		var i int
		if _, err := fmt.Sscan(l, &i, &r.site, &r.n); err == nil {
			out = append(out, r)
		}
	}
	return
}

func permutations(n int) (out [][]int) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
	return
}

// c15Orders are the orders tried for one range over n elements.
func c15Orders(n int, thorough bool) (out []string) {
	if n <= 3 {
		for _, p := range permutations(n)[1:] {
			out = append(out, "p"+strings.Trim(strings.ReplaceAll(fmt.Sprint(p), " ", ","), "[]"))
		}
		return
	}
	out = []string{"r", fmt.Sprintf("f%d", n-1), "l0"}
	if thorough {
		for i := 1; i < n; i++ {
			out = append(out, fmt.Sprintf("f%d", i), fmt.Sprintf("l%d", n-1-i))
		}
	}
	return
}

func runC15(e *Env) *Result {
	e.buildGenMC()
	x := newExplorer(e, 8)
	root := filepath.Join(e.Dir, "c15")
	var n atomic.Int64
	type project struct {
		name, dir string // dir is where the generator runs, relative to the tree
		files     map[string]string
		ref       map[string]string
		ranges    []c15Range
		stdout    string
	}
	// one run on a fresh copy of a tree
	runOn := func(p *project, files map[string]string, twice bool, env ...string) (map[string]string, procResult) {
		dir := filepath.Join(root, fmt.Sprint(n.Add(1)))
		defer os.RemoveAll(dir)
		writeTree(dir, files)
		r := e.gen(filepath.Join(dir, p.dir), "gotsrpc.yml", env...)
		if r.Code == 0 && twice {
			log := filepath.Join(dir, "..", filepath.Base(dir)+".ops")
			defer os.Remove(log)
			before := c21Snapshot(dir)
			old := time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC)
			for f := range before {
				_ = os.Chtimes(filepath.Join(dir, f), old, old)
			}
			if r := e.gen(filepath.Join(dir, p.dir), "gotsrpc.yml", append(env, "VMC_ROOT="+dir, "VMC_LOG="+log)...); r.Code != 0 {
				return nil, r
			}
			if d := treeDiff(before, c21Snapshot(dir)); d != "" {
				x.fail("second run", fmt.Sprintf("%s %v: a second run changes the files: %s", p.name, env, d), nil)
			}
			b, _ := os.ReadFile(log)
			for _, l := range strings.Split(string(b), "\n") {
				if f := strings.Split(l, "\t"); len(f) == 3 && f[0] != "" && strings.Contains(f[1], ".ts#") {
					x.fail("rewritten", fmt.Sprintf("%s %v: a second run touches an unchanged TypeScript file: %s", p.name, env, f[1]), nil)
				}
			}
			for f := range before {
				if fi, err := os.Stat(filepath.Join(dir, f)); err == nil && strings.HasSuffix(f, ".ts") && !fi.ModTime().Equal(old) {
					x.fail("rewritten", fmt.Sprintf("%s %v: a second run touches the unchanged TypeScript file %s", p.name, env, f), nil)
				}
			}
		}
		return c21Snapshot(dir), r
	}
	check := func(p *project, what, key string, files map[string]string, want map[string]string, twice bool, env ...string) {
		x.add(func() {
			got, r := runOn(p, files, twice, env...)
			name := p.name + ": " + what
			x.state(name, 1)
			replay := map[string]any{"project": p.name, "what": what, "env": env}
			if r.Code != 0 {
				x.fail(key, fmt.Sprintf("%s: the generator fails with %d: %s", name, r.Code, tail(r.Out, 600)), replay)
				return
			}
			if d := treeDiff(want, got); d != "" {
				x.fail(key, fmt.Sprintf("%s: other output: %s", name, d), replay)
			}
		})
	}
	prepare := func(p *project) bool {
		log := filepath.Join(e.Dir, "ranges-"+marker(p.name))
		got, r := runOn(p, p.files, false, "VMC_ORDLOG="+log)
		if r.Code != 0 {
			x.fail("exit", fmt.Sprintf("%s: the generator fails with %d: %s", p.name, r.Code, tail(r.Out, 800)), nil)
			return false
		}
		p.ref = got
		p.ranges = c15Ranges(log)
		x.note("ranges_over_maps", len(p.ranges))
		return true
	}
	orders := func(p *project, pairs bool) {
		for _, g := range []string{"r", "f1", "l0"} {
			for _, nw := range [][]string{nil, {"VMC_NEW=1"}} {
				check(p, fmt.Sprintf("all ranges %s %v", g, nw), "order", p.files, p.ref, true, append([]string{"VMC_ORD=*=" + g}, nw...)...)
			}
		}
		for i, r := range p.ranges {
			for _, o := range c15Orders(r.n, e.Thorough) {
				check(p, fmt.Sprintf("range %d at %s over %d in order %s", i, r.site, r.n, o), "order", p.files, p.ref, false, fmt.Sprintf("VMC_ORD=#%d=%s", i, o))
			}
		}
		sites := map[string]bool{}
		for _, r := range p.ranges {
			sites[r.site] = true
		}
		var ss []string
		for s := range sites {
			ss = append(ss, s)
		}
		sort.Strings(ss)
		x.note("sites", len(ss))
		for i, s := range ss {
			for _, o := range []string{"r", "f1"} {
				check(p, "all ranges at "+s+" "+o, "order", p.files, p.ref, false, "VMC_ORD="+s+"="+o, "VMC_NEW=1")
				check(p, "all ranges reversed but at "+s, "order", p.files, p.ref, false, "VMC_ORD=*=r;"+s+"=s")
			}
			if !pairs {
				continue
			}
			for _, t := range ss[i+1:] {
				check(p, "ranges reversed at "+s+" and "+t, "order", p.files, p.ref, false, "VMC_ORD="+s+"=r;"+t+"=r")
			}
		}
		if pairs && e.Thorough {
			for i := range p.ranges {
				for j := i + 1; j < len(p.ranges); j++ {
					check(p, fmt.Sprintf("ranges %d and %d reversed", i, j), "order", p.files, p.ref, false, fmt.Sprintf("VMC_ORD=#%d=r;#%d=r", i, j))
				}
			}
		}
	}
	// the project
	conf := gprojConfig()
	p := &project{name: "gp", files: mergeTrees(gprojFiles, map[string]string{"gotsrpc.yml": conf.String()})}
	if !prepare(p) {
		return x.finish()
	}
	for _, f := range gprojOutputs {
		if _, ok := p.ref[f]; !ok {
			x.fail("missing", "gp: "+f+" is not written", nil)
		}
	}
	orders(p, true)

	// what earlier runs left behind: of this configuration, of another one, or torn
	other := gprojOther()
	op := &project{name: "other configuration", files: mergeTrees(gprojFiles, map[string]string{"gotsrpc.yml": other.String()})}
	if !prepare(op) {
		return x.finish()
	}
	outputs := append(append([]string{}, gprojOutputs...), "b/gotsrpcclient_gen.go")
	states := func(f string) map[string]string {
		out := map[string]string{}
		if c, ok := p.ref[f]; ok {
			out["complete"] = c
			out["cut in half"] = c[:len(c)/2]
			out["all but the last byte"] = c[:len(c)-1]
			out["longer"] = c + "\n// more\n"
			out["one byte changed"] = strings.Replace(c, "o", "0", 1)
			out["one letter's case changed"] = c[:len(c)/2] + strings.ToUpper(c[len(c)/2:])
			out["white space only differs"] = strings.ReplaceAll(c, "\t", "  ")
			out["trailing space"] = c + "\n"
			out["CRLF"] = strings.ReplaceAll(c, "\n", "\r\n")
		}
		out["empty"] = ""
		if c, ok := op.ref[f]; ok {
			out["of another configuration"] = c
		}
		if strings.HasSuffix(f, ".go") {
			pk := filepath.Dir(f)
			out["other declarations"] = "package " + pk + "\n\nimport vo \"example.com/gp/c\"\n\ntype Local struct{ Stale vo.Thing }\n\nfunc (s *Beta) Stale() {}\n\nconst LevelStale = 1\n"
			out["broken"] = "package " + pk + "\n\nfunc {"
			out["other package"] = "package stale\n"
		} else {
			out["text"] = "// mine\n"
		}
		return out
	}
	byKind := map[string]map[string]string{}
	var single []map[string]string
	var names []string
	for _, f := range outputs {
		st := states(f)
		var ks []string
		for k := range st {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if byKind[k] == nil {
				byKind[k] = map[string]string{}
			}
			byKind[k][f] = st[k]
			single = append(single, map[string]string{f: st[k]})
			names = append(names, f+" "+k)
		}
	}
	for i, s := range single {
		check(p, "left behind: "+names[i], "left behind", mergeTrees(p.files, s), p.ref, false)
		check(p, "left behind: "+names[i]+", the others complete", "left behind", mergeTrees(p.ref, s), p.ref, false)
		if e.Thorough {
			for j := i + 1; j < len(single); j++ {
				check(p, "left behind: "+names[i]+" and "+names[j], "left behind", mergeTrees(mergeTrees(p.files, s), single[j]), p.ref, false)
			}
		}
	}
	for k, s := range byKind {
		check(p, "left behind: all "+k, "left behind", mergeTrees(p.files, s), p.ref, true)
		check(p, "left behind: all "+k+", reversed", "left behind", mergeTrees(p.files, s), p.ref, true, "VMC_ORD=*=r")
	}
	// the Go files of the other configuration that this one does not have are gone
	after := func(before, now *project) map[string]string {
		m := mergeTrees(before.ref, now.ref)
		for _, f := range outputs {
			if _, ok := now.ref[f]; !ok && strings.HasSuffix(f, ".go") {
				delete(m, f)
			}
		}
		return m
	}
	check(p, "after the other configuration", "left behind", mergeTrees(op.ref, p.files), after(op, p), true)
	check(op, "after this configuration", "left behind", mergeTrees(p.ref, op.files), after(p, op), true)

	// the order within the configuration file
	yaml := func(c gprojConf) map[string]string {
		return mergeTrees(gprojFiles, map[string]string{"gotsrpc.yml": c.String()})
	}
	for i, tp := range permutations(len(conf.targets)) {
		for j, mp := range permutations(len(conf.mappings)) {
			if i > 0 && j > 0 && (i+j)%7 != 0 && (!e.Thorough || (i+j)%7 != 1) {
				continue
			}
			var c gprojConf
			for _, k := range tp {
				c.targets = append(c.targets, conf.targets[k])
			}
			for _, k := range mp {
				c.mappings = append(c.mappings, conf.mappings[k])
			}
			files := yaml(c)
			check(p, fmt.Sprintf("configuration order %v %v", tp, mp), "configuration order", files, mergeTrees(p.ref, map[string]string{"gotsrpc.yml": files["gotsrpc.yml"]}), false)
		}
	}
	swapLines := func(s, a, b string) string {
		return strings.Replace(s, a+b, b+a, 1)
	}
	for _, sw := range [][2]string{
		{"      /alpha: Alpha\n", "      /beta: Beta\n"},
		{"      - example.com/gp/vo.Listed\n", "      - example.com/gp/vo.Listed2\n"},
		{"      - example.com/gp/c.Mode\n", "      - example.com/gp/c.Flag\n"},
	} {
		c := swapLines(conf.String(), sw[0], sw[1])
		if c == conf.String() {
			panic("no such lines")
		}
		for _, o := range []string{"s", "r"} {
			check(p, "configuration order of"+sw[0]+" "+o, "configuration order", mergeTrees(gprojFiles, map[string]string{"gotsrpc.yml": c}), mergeTrees(p.ref, map[string]string{"gotsrpc.yml": c}), false, "VMC_ORD=*="+o)
		}
	}
	for _, l := range [][2]string{{"tsrpc: [Alpha, Beta]", "tsrpc: [Beta, Alpha]"}, {"gorpc: [Beta, Alpha]", "gorpc: [Alpha, Beta]"}} {
		c := strings.Replace(conf.String(), l[0], l[1], 1)
		check(p, "configuration order "+l[1], "configuration order", mergeTrees(gprojFiles, map[string]string{"gotsrpc.yml": c}), mergeTrees(p.ref, map[string]string{"gotsrpc.yml": c}), false)
	}
	// the names of targets do not matter either, whatever order they sort in
	for i, np := range permutations(len(conf.targets)) {
		c := conf
		c.targets = nil
		for k, t := range conf.targets {
			c.targets = append(c.targets, "  t"+fmt.Sprint(np[k])+t[strings.Index(t, ":"):])
		}
		files := yaml(c)
		for _, o := range []string{"s", "r"} {
			check(p, fmt.Sprintf("target names %d %s", i, o), "configuration order", files, mergeTrees(p.ref, map[string]string{"gotsrpc.yml": files["gotsrpc.yml"]}), false, "VMC_ORD=*="+o)
		}
	}

	// the examples, with any order of the ranges
	for _, ex := range genExamples() {
		p := &project{name: ex.name, dir: ex.dir, files: ex.files}
		if prepare(p) {
			orders(p, e.Thorough)
		}
	}
	return x.finish()
}
