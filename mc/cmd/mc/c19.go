package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
)

func init() {
	register(&Check{ID: "C19", Level: "model_checking", Assumptions: []string{
		"the generator is stopped between system calls or within a write; what it wrote before stays",
		"file operations go through package syscall (all of os does); subprocesses are not stopped",
	}, Run: runC19})
}

type genOp struct {
	mut, op, path, key string
	size               int
}

// genOps reads the log of a run's file operations.
func genOps(log string) (out []genOp) {
	b, _ := os.ReadFile(log)
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Split(l, "\t")
		if len(f) != 3 {
			continue
		}
		o := genOp{mut: f[0], key: f[1]}
		o.size, _ = strconv.Atoi(f[2])
		var rest string
		o.op, rest, _ = strings.Cut(f[1], " ")
		o.path = rest[:strings.LastIndex(rest, "#")]
		out = append(out, o)
	}
	return
}

func treeHash(t map[string]string) string {
	var fs []string
	for f := range t {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	h := sha256.New()
	for _, f := range fs {
		fmt.Fprintf(h, "%q %d\n%s", f, len(t[f]), t[f])
	}
	return hex.EncodeToString(h.Sum(nil)[:16])
}

// genProject is a tree the generator is run on.
type genProject struct {
	name, dir string // dir is where the generator runs, relative to the tree
	files     map[string]string
	ref       map[string]string // the tree after a run
	outputs   map[string]bool
}

// genExamples are the project's own examples without what is generated for them.
func genExamples() (out []*genProject) {
	dirs, _ := filepath.Glob(filepath.Join(repo, "example", "*", "gotsrpc.yml"))
	sort.Strings(dirs)
	for _, y := range dirs {
		files := map[string]string{}
		for _, f := range []string{"go.mod", "go.sum"} {
			b, err := os.ReadFile(filepath.Join(repo, f))
			must(err)
			files[f] = string(b)
		}
		must(filepath.Walk(filepath.Dir(y), func(f string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() && fi.Name() == "node_modules" {
				return filepath.SkipDir
			}
			if fi.Mode().IsRegular() && !strings.HasSuffix(f, "_gen.go") {
				b, err := os.ReadFile(f)
				must(err)
				rel, _ := filepath.Rel(repo, f)
				files[rel] = string(b)
			}
			return nil
		}))
		ex := filepath.Base(filepath.Dir(y))
		out = append(out, &genProject{name: "example " + ex, dir: "example/" + ex, files: files})
	}
	return
}

func runC19(e *Env) *Result {
	e.buildGenMC()
	x := newExplorer(e, 8)
	root := filepath.Join(e.Dir, "c19")
	var n atomic.Int64
	fresh := func(files map[string]string) string {
		dir := filepath.Join(root, fmt.Sprint(n.Add(1)))
		writeTree(dir, files)
		return dir
	}
	once := func(p *genProject, files map[string]string, env ...string) (map[string]string, []genOp, procResult) {
		dir := fresh(files)
		defer os.RemoveAll(dir)
		log := dir + ".ops"
		defer os.Remove(log)
		r := e.gen(filepath.Join(dir, p.dir), "gotsrpc.yml", append([]string{"VMC_ROOT=" + dir, "VMC_LOG=" + log}, env...)...)
		return c21Snapshot(dir), genOps(log), r
	}

	type tree struct {
		files map[string]string
		depth int
		via   []string
	}
	var mu sync.Mutex
	seen := map[string]bool{}
	var explore func(p *genProject, t tree, depth int, order string)
	// touched reports what a run changed besides its outputs
	touched := func(p *genProject, before map[string]string, ops []genOp, via []string) {
		for _, o := range ops {
			if o.mut == "" || o.op == "mkdir" || p.outputs[o.path] {
				continue
			}
			_, own := before[o.path]
			if !own && strings.HasPrefix(o.path, "/") {
				_, err := os.Stat(o.path)
				own = err == nil
			}
			if own {
				x.fail("touched", fmt.Sprintf("%s %v: the generator does %q, which is no output", p.name, via, o.key), nil)
			}
		}
	}
	explore = func(p *genProject, t tree, depth int, order string) {
		h := p.name + order + treeHash(t.files)
		mu.Lock()
		old := seen[h]
		seen[h] = true
		mu.Unlock()
		if old {
			return
		}
		x.later(func() {
			var env []string
			if order != "" {
				env = []string{"VMC_ORD=*=" + order, "VMC_NEW=1"}
			}
			replay := map[string]any{"project": p.name, "order": order, "history": t.via}
			name := fmt.Sprintf("%s %s %v", p.name, order, t.via)
			// running to the end repairs it
			got, ops, r := once(p, t.files, env...)
			x.state(name, 1)
			touched(p, t.files, ops, t.via)
			if r.Code != 0 {
				x.fail("exit", fmt.Sprintf("%s: running again fails with %d: %s", name, r.Code, tail(r.Out, 600)), replay)
				return
			}
			if d := treeDiff(p.ref, got); d != "" {
				x.fail("not repaired", fmt.Sprintf("%s: after running again, %s", name, d), replay)
				return
			}
			if t.depth == depth {
				return
			}
			// being stopped again gives new trees
			for _, o := range ops {
				if o.mut == "" {
					continue
				}
				cuts := []int{-1}
				if o.op == "write" {
					for _, c := range []int{1, o.size / 2, o.size - 1, o.size} {
						if c > 0 && (t.depth == 0 || c == o.size/2) {
							cuts = append(cuts, c)
						}
					}
					if e.Thorough && t.depth == 0 {
						for c := o.size / 16; c > 0 && c < o.size; c += o.size / 16 {
							cuts = append(cuts, c)
						}
					}
				}
				for _, c := range cuts {
					do := "crash"
					if c >= 0 {
						do = fmt.Sprintf("crash:%d", c)
					}
					x.later(func() {
						got, ops, r := once(p, t.files, append(append([]string{}, env...), "VMC_AT="+o.mut, "VMC_DO="+do)...)
						if r.Code != 86 {
							x.fail("crash", fmt.Sprintf("%s: the run was not stopped at %s (%s): %d", name, o.key, o.mut, r.Code), replay)
							return
						}
						via := append(append([]string{}, t.via...), fmt.Sprintf("%s %s (%s)", do, o.key, o.mut))
						x.note("stopped_runs", 1)
						touched(p, t.files, ops, via)
						for f, c := range t.files {
							if g, ok := got[f]; !p.outputs[f] && (!ok || g != c) {
								x.fail("touched", fmt.Sprintf("%s %v: %s was changed", p.name, via, f), replay)
							}
						}
						explore(p, tree{files: got, depth: t.depth + 1, via: via}, depth, order)
					})
				}
			}
		})
	}
	reference := func(p *genProject) bool {
		got, _, r := once(p, p.files)
		if r.Code != 0 {
			x.fail("exit", fmt.Sprintf("%s: the generator fails with %d: %s", p.name, r.Code, tail(r.Out, 800)), nil)
			return false
		}
		p.ref = got
		if p.outputs == nil {
			p.outputs = map[string]bool{}
			for f := range got {
				if c, ok := p.files[f]; !ok || c != got[f] || strings.HasSuffix(f, ".ts") && strings.Contains(c, "gotsrpc") {
					p.outputs[f] = true
				}
			}
		}
		return true
	}

	conf := gprojConfig()
	p := &genProject{name: "gp", files: mergeTrees(gprojFiles, map[string]string{"gotsrpc.yml": conf.String()}), outputs: map[string]bool{"b/gotsrpcclient_gen.go": true}}
	for _, f := range gprojOutputs {
		p.outputs[f] = true
	}
	conf2 := gprojOther()
	op := &genProject{name: "gp, other configuration", files: mergeTrees(gprojFiles, map[string]string{"gotsrpc.yml": conf2.String()}), outputs: p.outputs}
	if !reference(p) || !reference(op) {
		return x.finish()
	}
	for f := range p.ref {
		if _, ok := p.files[f]; !ok && !p.outputs[f] {
			x.fail("touched", "gp: "+f+" is written but not declared", nil)
		}
	}
	stale := map[string]string{}
	for f := range p.outputs {
		if strings.HasSuffix(f, ".go") {
			stale[f] = "package " + filepath.Dir(f) + "\n\nimport vo \"example.com/gp/c\"\n\ntype Local struct{ Stale vo.Thing }\n"
		} else {
			stale[f] = "export const stale = 1;\n"
		}
	}
	depth := 2
	if e.Thorough {
		depth = 3
	}
	for _, order := range []string{"", "r"} {
		d := depth
		if order != "" {
			d--
		}
		explore(p, tree{files: p.files, via: []string{"no outputs"}}, d, order)
		explore(p, tree{files: p.ref, via: []string{"complete outputs"}}, d, order)
		explore(p, tree{files: mergeTrees(p.files, stale), via: []string{"stale outputs"}}, d-1, order)
		explore(p, tree{files: mergeTrees(op.ref, p.files), via: []string{"outputs of another configuration"}}, d-1, order)
	}
	x.wait()
	for _, ex := range genExamples() {
		if !reference(ex) {
			continue
		}
		d := 1
		if e.Thorough {
			d = 2
		}
		explore(ex, tree{files: ex.files, via: []string{"no Go outputs"}}, d, "")
		explore(ex, tree{files: ex.ref, via: []string{"complete outputs"}}, d, "")
		none := map[string]string{}
		for f, c := range ex.files {
			if !ex.outputs[f] {
				none[f] = c
			}
		}
		explore(ex, tree{files: none, via: []string{"no outputs"}}, d, "")
	}
	return x.finish()
}
