package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

// ---- the world packages are resolved in

type c20Module struct {
	path string
	pkgs []string // directories within the module
}

var c20Modules = []c20Module{
	{"example.com/apple", []string{"", "x"}},
	{"example.com/app/nested", []string{"", "x"}},
	{"example.com/lib", []string{"", "x", "deep/only"}},
	{"example.com/lib/v2", []string{"", "x"}},
	{"example.com/library", []string{"", "x"}},
	{"example.com/lib/deep", []string{"", "x"}},
	{"example.com/Upper", []string{"", "Sub"}},
}

var c20Sources = []string{
	"require v1.0.0",
	"absent",
	"require v1.1.0",
	"replace ../local",
	"replace ./third",
	"replace abs",
	"replace fork",
	"replace other version",
	"replace matching version",
	"replace unrequired version",
	"replace any and matching version",
	"replace fork and unrequired version",
}

func c20Name(dir string) string { // package name: not the last element for .../v2
	b := filepath.Base(dir)
	if b == "v2" {
		b = filepath.Base(filepath.Dir(dir))
	}
	return strings.ToLower(strings.NewReplacer(".", "", "-", "").Replace(b))
}

// c20Package returns the files of a package directory; marker tells which directory it is.
func c20Package(importPath, marker string) map[string]string {
	n := c20Name(importPath)
	return map[string]string{
		"p.go":          "package " + n + "\n\ntype T struct {\n\tFrom_" + marker + " int\n}\n",
		"p_windows.go":  "package " + n + "\n\ntype T struct {\n\tFrom_WINDOWS int\n}\n",
		"tag.go":        "//go:build some_tag\n\npackage " + n + "\n\ntype T struct {\n\tFrom_TAGGED int\n}\n",
		"_draft.go":     "package " + n + "\n\ntype T struct {\n\tFrom_DRAFT int\n}\n",
		"tool.go":       "//go:build ignore\n\npackage main\n\ntype T struct {\n\tFrom_TOOL int\n}\n\nfunc main() {}\n",
		"p_test.go":     "package " + n + "\n\ntype T struct {\n\tFrom_TEST int\n}\n",
		"p_ext_test.go": "package " + n + "_test\n\ntype T struct {\n\tFrom_EXTTEST int\n}\n",
	}
}

func writeFiles(dir string, files map[string]string) {
	must(os.MkdirAll(dir, 0o755))
	for n, c := range files {
		must(os.WriteFile(filepath.Join(dir, n), []byte(c), 0o644))
	}
}

func marker(s string) string {
	return regexp.MustCompile(`[^A-Za-z0-9]`).ReplaceAllString(s, "_")
}

func writeModule(dir, declared string, m c20Module, mark string) {
	writeFiles(dir, map[string]string{"go.mod": "module " + declared + "\n\ngo 1.23.0\n"})
	for _, p := range m.pkgs {
		writeFiles(filepath.Join(dir, p), c20Package(filepath.Join(m.path, p), mark+"_"+marker(p)))
	}
}

// c20Proxy writes a module proxy with every version of every module and has go download them all.
func c20Cache(e *Env, root string) string {
	proxy, gopath := filepath.Join(root, "proxy"), filepath.Join(root, "gopath")
	esc := func(p string) string { return strings.ReplaceAll(p, "Upper", "!upper") }
	var dl []string
	put := func(path, version, declared string, m c20Module, mark string) {
		src := filepath.Join(root, "src", mark)
		writeModule(src, declared, m, mark)
		v := filepath.Join(proxy, esc(path), "@v")
		must(os.MkdirAll(v, 0o755))
		b, err := os.ReadFile(filepath.Join(src, "go.mod"))
		must(err)
		must(os.WriteFile(filepath.Join(v, version+".mod"), b, 0o644))
		must(os.WriteFile(filepath.Join(v, version+".info"), []byte(`{"Version":"`+version+`","Time":"2020-01-01T00:00:00Z"}`), 0o644))
		var z bytes.Buffer
		w := zip.NewWriter(&z)
		must(filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() {
				return err
			}
			rel, _ := filepath.Rel(src, p)
			f, err := w.Create(path + "@" + version + "/" + rel)
			if err != nil {
				return err
			}
			b, err := os.ReadFile(p)
			if err == nil {
				_, err = f.Write(b)
			}
			return err
		}))
		must(w.Close())
		must(os.WriteFile(filepath.Join(v, version+".zip"), z.Bytes(), 0o644))
		dl = append(dl, path+"@"+version)
	}
	for _, m := range c20Modules {
		vs := []string{"v1.0.0", "v1.1.0"}
		if strings.HasSuffix(m.path, "/v2") {
			vs = []string{"v2.0.0", "v2.1.0"}
		}
		for _, v := range vs {
			put(m.path, v, m.path, m, marker("cache "+m.path+" "+v))
		}
		f := "example.com/fork-" + strings.ReplaceAll(strings.TrimPrefix(m.path, "example.com/"), "/", "-")
		put(f, "v1.2.0", m.path, m, marker("fork "+m.path))
	}
	args := append([]string{"mod", "download", "-modcacherw"}, dl...)
	must(os.MkdirAll(filepath.Join(root, "dl"), 0o755))
	must(os.WriteFile(filepath.Join(root, "dl", "go.mod"), []byte("module example.com/dl\n\ngo 1.23.0\n"), 0o644))
	if r := run(filepath.Join(root, "dl"), 2*time.Minute, c20GoEnv(root, gopath), "go", args...); r.Code != 0 {
		panic("go mod download: " + r.Out)
	}
	return gopath
}

func c20GoEnv(root, gopath string) []string {
	return []string{"GOPATH=" + gopath, "GOMODCACHE=" + gopath + "/pkg/mod", "GOPROXY=file://" + root + "/proxy", "GOSUMDB=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod", "GO111MODULE=on"}
}

type c20Case struct {
	sources  []int // per module
	reversed bool
	path     string // how the module path is written in the configuration
}

func (c c20Case) String() string {
	s := ""
	for i, m := range c20Modules {
		if c.sources[i] != 0 {
			s += fmt.Sprintf("%s: %s; ", m.path, c20Sources[c.sources[i]])
		}
	}
	return fmt.Sprintf("%spath %s, go.mod lines reversed %v", s, c.path, c.reversed)
}

// c20GoMod renders the go.mod lines of one layout.
func c20GoMod(c c20Case, root, app string) string {
	var lines []string
	for i, m := range c20Modules {
		v, v2 := "v1.0.0", "v1.1.0"
		if strings.HasSuffix(m.path, "/v2") {
			v, v2 = "v2.0.0", "v2.1.0"
		}
		local := strings.ReplaceAll(strings.TrimPrefix(m.path, "example.com/"), "/", "-")
		fork := "example.com/fork-" + local + " v1.2.0"
		rep := func(old, new string) { lines = append(lines, "replace "+old+" => "+new) }
		src := c20Sources[c.sources[i]]
		if src == "absent" {
			continue
		}
		if src == "require v1.1.0" {
			v = v2
		}
		lines = append(lines, "require "+m.path+" "+v)
		switch src {
		case "replace ../local":
			rep(m.path, "../local/"+local)
		case "replace ./third":
			rep(m.path, "./third/"+local)
		case "replace abs":
			rep(m.path, root+"/abs/"+local)
		case "replace fork":
			rep(m.path, fork)
		case "replace other version":
			rep(m.path, m.path+" "+v2)
		case "replace matching version":
			rep(m.path+" "+v, "../local/"+local)
		case "replace unrequired version":
			rep(m.path+" "+v2, "../local/"+local)
		case "replace any and matching version":
			rep(m.path, fork)
			rep(m.path+" "+v, "../local/"+local)
		case "replace fork and unrequired version":
			rep(m.path+" "+v2, "../local/"+local)
			rep(m.path, fork)
		}
	}
	if c.reversed {
		for i, j := 0, len(lines)-1; i < j; i, j = i+1, j-1 {
			lines[i], lines[j] = lines[j], lines[i]
		}
	}
	return "module example.com/app\n\ngo 1.23.0\n\n" + strings.Join(lines, "\n") + "\n"
}

// c20Service returns a service that takes the type T of each package.
func c20Service(pkgs []string) string {
	s := "package svc\n\nimport (\n"
	for i, p := range pkgs {
		s += fmt.Sprintf("\tp%d %q\n", i, p)
	}
	s += ")\n\ntype Svc interface {\n"
	for i := range pkgs {
		t := map[string]string{"net/url": "URL", "go/token": "Position"}[pkgs[i]]
		if t == "" {
			t = "T"
		}
		s += fmt.Sprintf("\tM%d(a p%d.%s)\n", i, i, t)
	}
	return s + "}\n"
}

func c20Config(module string, service string, pkgs []string, out string) string {
	s := module + "targets:\n  t:\n    package: " + service + "\n    services:\n      /svc: Svc\n    out: " + out + "/svc.ts\n    tsrpc: [Svc]\nmappings:\n"
	for i, p := range pkgs {
		s += fmt.Sprintf("  %s:\n    out: %s/p%d.ts\n", p, out, i)
	}
	return s
}

var fromRe = regexp.MustCompile(`From_([A-Za-z0-9_]+)`)

func c20Marker(file string) string {
	b, err := os.ReadFile(file)
	if err != nil {
		return "(nothing)"
	}
	m := fromRe.FindAllStringSubmatch(string(b), -1)
	if len(m) != 1 {
		return fmt.Sprintf("(%d markers)", len(m))
	}
	return m[0][1]
}

func init() {
	register(&Check{ID: "C20", Level: "model_checking", Assumptions: []string{
		"what Go itself cannot resolve is not stated; the module cache is at its place in GOPATH; GOPATH names one directory",
		"oracle: go list of the same tool chain",
	}, Run: runC20})
}

func runC20(e *Env) *Result {
	e.buildGen()
	root := filepath.Join(e.Dir, "c20")
	must(os.MkdirAll(root, 0o755))
	gopath := c20Cache(e, root)
	for _, m := range c20Modules {
		local := strings.ReplaceAll(strings.TrimPrefix(m.path, "example.com/"), "/", "-")
		writeModule(filepath.Join(root, "abs", local), m.path, m, marker("abs "+m.path))
	}
	x := newExplorer(e, 8)
	var own = []string{"example.com/app", "example.com/app/sub", "example.com/app/lib", "example.com/app/deep/er"}
	var all []string
	all = append(all, own...)
	for _, m := range c20Modules {
		for _, p := range m.pkgs {
			all = append(all, filepath.Join(m.path, p))
		}
	}
	std := []string{"net/url", "go/token"}
	// tree of one worker's module
	mk := func(dir string) {
		app := filepath.Join(dir, "app")
		for _, p := range own {
			writeFiles(filepath.Join(app, strings.TrimPrefix(p, "example.com/app")), c20Package(p, marker("main "+p)))
		}
		for _, m := range c20Modules {
			local := strings.ReplaceAll(strings.TrimPrefix(m.path, "example.com/"), "/", "-")
			writeModule(filepath.Join(dir, "local", local), m.path, m, marker("local "+m.path))
			writeModule(filepath.Join(app, "third", local), m.path, m, marker("third "+m.path))
		}
		// decoys where a naive lookup would end up
		writeFiles(filepath.Join(dir, "apple"), c20Package("apple", "DECOY"))
		writeFiles(filepath.Join(dir, "apple", "x"), c20Package("x", "DECOY"))
		writeModule(filepath.Join(app, "nested"), "example.com/app/nested", c20Modules[1], "DECOY_NESTED")
	}
	dirs := make(chan string, 8)
	for i := 0; i < 8; i++ {
		d := filepath.Join(root, fmt.Sprint("w", i))
		mk(d)
		dirs <- d
	}
	type answer struct {
		pkgs, marks []string
	}
	ask := func(dir, gomod string) answer {
		app := filepath.Join(dir, "app")
		alt := filepath.Join(dir, "alt.mod")
		must(os.WriteFile(alt, []byte(gomod), 0o644))
		_ = os.Remove(filepath.Join(dir, "alt.sum"))
		must(os.WriteFile(filepath.Join(app, "go.mod"), []byte(gomod), 0o644))
		args := append([]string{"list", "-e", "-find", "-modfile=" + alt, "-f", "{{.ImportPath}}|{{.Dir}}|{{if .Error}}E{{end}}"}, all...)
		r := run(app, time.Minute, c20GoEnv(root, gopath), "go", args...)
		if r.Timeout {
			panic("go list: " + r.Out)
		}
		var a answer
		for _, l := range strings.Split(r.Out, "\n") {
			f := strings.Split(l, "|")
			if len(f) == 3 && f[1] != "" && f[2] == "" {
				b, err := os.ReadFile(filepath.Join(f[1], "p.go"))
				if err != nil {
					continue
				}
				a.pkgs = append(a.pkgs, f[0])
				a.marks = append(a.marks, fromRe.FindStringSubmatch(string(b))[1])
			}
		}
		return a
	}
	generate := func(dir string, c c20Case, a answer, only int) (procResult, []string) {
		app := filepath.Join(dir, "app")
		pkgs := a.pkgs
		if only >= 0 {
			pkgs = pkgs[only : only+1]
		}
		svc := filepath.Join(app, "svc")
		_ = os.RemoveAll(svc)
		writeFiles(svc, map[string]string{"svc.go": c20Service(append(append([]string{}, pkgs...), std...))})
		out := filepath.Join(dir, "out")
		_ = os.RemoveAll(out)
		must(os.MkdirAll(out, 0o755))
		cfgDir, p := app, c.path
		switch c.path {
		case "below":
			cfgDir, p = dir, "./app"
		case "above":
			cfgDir, p = filepath.Join(app, "sub"), ".."
		case "abs":
			p = app
		case "abs/":
			p = app + "/"
		}
		cfg := filepath.Join(cfgDir, "gotsrpc.yml")
		must(os.WriteFile(cfg, []byte(c20Config("module:\n  name: example.com/app\n  path: "+p+"\n", "example.com/app/svc", append(append([]string{}, pkgs...), std...), out)), 0o644))
		defer os.Remove(cfg)
		cwd := cfgDir
		if c.path == "abs/" {
			cwd = root
		}
		r := run(cwd, time.Minute, []string{"GOPATH=" + gopath}, e.Gen, cfg)
		var marks []string
		for i := range pkgs {
			marks = append(marks, c20Marker(filepath.Join(out, fmt.Sprintf("p%d.ts", i))))
		}
		return r, marks
	}
	kindOf := func(c c20Case, pkg string) string {
		best, k := "", "main module"
		for i, m := range c20Modules {
			if (pkg == m.path || strings.HasPrefix(pkg, m.path+"/")) && len(m.path) > len(best) && c20Sources[c.sources[i]] != "absent" {
				best, k = m.path, c20Sources[c.sources[i]]
			}
		}
		return k
	}
	check := func(c c20Case, dir string, a answer) {
		r, marks := generate(dir, c, a, -1)
		bad := func(i int, r procResult, got string) {
			x.fail("resolve:"+kindOf(c, a.pkgs[i]), fmt.Sprintf("%s: %s is read from %s, go reads %s (generator exit %d: %s)", c, a.pkgs[i], got, a.marks[i], r.Code, tail(r.Out, 600)), map[string]any{"layout": c.String(), "go.mod": c20GoMod(c, root, ""), "package": a.pkgs[i], "want": a.marks[i], "got": got})
		}
		if r.Code == 0 {
			for i := range a.pkgs {
				if marks[i] != a.marks[i] {
					bad(i, r, marks[i])
				}
			}
		} else {
			n := 0
			for i := range a.pkgs {
				if r, marks := generate(dir, c, a, i); r.Code != 0 || marks[0] != a.marks[i] {
					n++
					bad(i, r, marks[0])
				}
			}
			if n == 0 {
				x.fail("together", fmt.Sprintf("%s: the packages resolve one by one but not together: %s", c, tail(r.Out, 800)), map[string]any{"layout": c.String()})
			}
		}
		x.state(c.String(), len(a.pkgs))
		x.note("packages_resolved", len(a.pkgs))
	}
	layout := func(sources []int, paths []string) {
		x.add(func() {
			dir := <-dirs
			defer func() { dirs <- dir }()
			var first answer
			for rev := 0; rev < 2; rev++ {
				c := c20Case{sources: sources, reversed: rev == 1}
				gomod := c20GoMod(c, root, "")
				if rev == 0 {
					first = ask(dir, gomod)
				} else {
					must(os.WriteFile(filepath.Join(dir, "app", "go.mod"), []byte(gomod), 0o644))
				}
				for _, p := range paths {
					c.path = p
					check(c, dir, first)
				}
			}
		})
	}
	// every assignment of sources that deviates from plain requirements in at most n modules
	n, paths1, paths2 := 2, []string{".", "below", "above", "abs", "abs/"}, []string{"."}
	if e.Thorough {
		n, paths2 = 3, []string{".", "abs"}
	}
	src := make([]int, len(c20Modules))
	var walk func(at, left int)
	walk = func(at, left int) {
		if at == len(src) {
			p := paths2
			if left >= n-1 {
				p = paths1
			}
			layout(append([]int{}, src...), p)
			return
		}
		walk(at+1, left)
		if left > 0 {
			for s := 1; s < len(c20Sources); s++ {
				src[at] = s
				walk(at+1, left-1)
			}
			src[at] = 0
		}
	}
	walk(0, n)
	x.wait()
	c20Gopath(e, x, root)
	return x.finish()
}

// c20Gopath covers resolution without modules: GOPATH, vendor directory and standard library.
func c20Gopath(e *Env, x *explorer, root string) {
	pkgs := []string{"example.com/lib", "example.com/lib/x", "example.com/app/sub", "example.com/Upper/Sub"}
	places := []string{"gopath", "vendor", "both"}
	var pick []int
	var walk func()
	id := 0
	walk = func() {
		if len(pick) == len(pkgs) {
			ps := append([]int{}, pick...)
			id++
			n := id
			for _, module := range []string{"", "module:\n  name: example.com/other\n  path: %s/other\n"} {
				x.add(func() {
					d := filepath.Join(root, fmt.Sprint("gp", n, len(module)))
					defer os.RemoveAll(d)
					app := filepath.Join(d, "src/example.com/app")
					var names []string
					for i, p := range pkgs {
						own := strings.HasPrefix(p, "example.com/app/")
						if places[ps[i]] != "vendor" || own {
							writeFiles(filepath.Join(d, "src", p), c20Package(p, marker("gopath "+p)))
						}
						if places[ps[i]] != "gopath" && !own {
							writeFiles(filepath.Join(app, "vendor", p), c20Package(p, marker("vendor "+p)))
						}
						names = append(names, places[ps[i]])
					}
					if module != "" {
						must(os.MkdirAll(filepath.Join(d, "other"), 0o755))
						writeFiles(filepath.Join(d, "other"), map[string]string{"go.mod": "module example.com/other\n\ngo 1.23.0\n"})
						module = fmt.Sprintf(module, d)
					}
					writeFiles(filepath.Join(app, "svc"), map[string]string{"svc.go": c20Service(pkgs)})
					out := filepath.Join(d, "out")
					writeFiles(app, map[string]string{"gotsrpc.yml": c20Config(module, "example.com/app/svc", pkgs, out)})
					r := run(app, time.Minute, []string{"GOPATH=" + d, "GO111MODULE=off", "GOFLAGS="}, "go", "list", "-deps", "-f", "{{.ImportPath}}|{{.Dir}}", "./svc")
					want := map[string]string{}
					for _, l := range strings.Split(r.Out, "\n") {
						if f := strings.Split(l, "|"); len(f) == 2 {
							if b, err := os.ReadFile(filepath.Join(f[1], "p.go")); err == nil {
								want[strings.TrimPrefix(f[0], "example.com/app/vendor/")] = fromRe.FindStringSubmatch(string(b))[1]
							}
						}
					}
					if len(want) != len(pkgs) {
						panic(fmt.Sprintf("go list in GOPATH mode: %v\n%s", want, r.Out))
					}
					name := fmt.Sprintf("no modules: %v, configured module %q", names, module != "")
					r = run(app, time.Minute, []string{"GOPATH=" + d, "GO111MODULE=off", "GOFLAGS="}, e.Gen, "gotsrpc.yml")
					for i, p := range pkgs {
						if got := c20Marker(filepath.Join(out, fmt.Sprintf("p%d.ts", i))); got != want[p] {
							x.fail("gopath:"+names[i], fmt.Sprintf("%s: %s is read from %s, go reads %s (exit %d: %s)", name, p, got, want[p], r.Code, tail(r.Out, 600)), map[string]any{"layout": name, "package": p})
						}
					}
					x.state(name, len(pkgs))
				})
			}
			return
		}
		for i := range places {
			pick = append(pick, i)
			walk()
			pick = pick[:len(pick)-1]
		}
	}
	walk()
	// a vendored copy of a required module, which is not in the module cache
	for _, path := range []string{".", "abs"} {
		x.add(func() {
			d := filepath.Join(root, "vd"+path)
			defer os.RemoveAll(d)
			app := filepath.Join(d, "app")
			writeFiles(app, map[string]string{"go.mod": "module example.com/app\n\ngo 1.23.0\n\nrequire example.com/lib v1.0.0\n"})
			writeFiles(filepath.Join(app, "vendor"), map[string]string{"modules.txt": "# example.com/lib v1.0.0\n## explicit; go 1.23.0\nexample.com/lib\nexample.com/lib/x\n"})
			ps := []string{"example.com/lib", "example.com/lib/x"}
			for _, p := range ps {
				writeFiles(filepath.Join(app, "vendor", p), c20Package(p, marker("vendor "+p)))
			}
			writeFiles(filepath.Join(app, "svc"), map[string]string{"svc.go": c20Service(ps)})
			out, p := filepath.Join(d, "out"), path
			if p == "abs" {
				p = app
			}
			writeFiles(app, map[string]string{"gotsrpc.yml": c20Config("module:\n  name: example.com/app\n  path: "+p+"\n", "example.com/app/svc", ps, out)})
			r := run(app, time.Minute, []string{"GOPATH=" + d + "/gopath", "GOMODCACHE=" + d + "/gopath/pkg/mod", "GOFLAGS="}, "go", "list", "-mod=vendor", "-e", "-f", "{{.Dir}}", "example.com/lib/x")
			if strings.TrimSpace(r.Out) != filepath.Join(app, "vendor/example.com/lib/x") {
				panic("go list -mod=vendor: " + r.Out)
			}
			r = run(app, time.Minute, []string{"GOPATH=" + d + "/gopath"}, e.Gen, "gotsrpc.yml")
			for i, p := range ps {
				if got := c20Marker(filepath.Join(out, fmt.Sprintf("p%d.ts", i))); got != marker("vendor "+p) {
					x.fail("vendor", fmt.Sprintf("vendored module, path %s: %s is read from %s (exit %d: %s)", path, p, got, r.Code, tail(r.Out, 600)), map[string]any{"package": p})
				}
			}
			x.state("vendored module, path "+path, len(ps))
		})
	}
	x.wait()
	_ = sort.Strings
}
