package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---- the project

var c21Files = map[string]string{
	"app/go.mod": "module example.com/c21\n\ngo 1.23.0\n",
	"app/a/a.go": `package a

import (
	"net/http"

	"example.com/c21/vo"
)

type Local struct{ N int }

type Alpha interface {
	One(a vo.Shared, b Local) vo.TypeOne
	Raw(w http.ResponseWriter, r *http.Request)
}

// AlphaTwo begins like Alpha, XGamma ends like Gamma, OMEGA differs from Omega by its case only
type AlphaTwo struct{}

func (s *AlphaTwo) Two(a []vo.Shared) (map[string]vo.TypeTwo, error) { return nil, nil }

// Zeta is not configured anywhere
type Zeta interface{ Z() vo.TypeZ }
`,
	"app/b/b.go": `package b

import "example.com/c21/vo"

type Deep struct{ S string }

type Gamma interface {
	Three(a *vo.TypeThree, k vo.Kind) Deep
}

type XGamma interface {
	Four(s string) (n int, s2 vo.Shared)
}
`,
	"gopath/src/example.com/c21x/c/c.go": `package c

type Local struct{ B bool }

type Omega interface {
	Five(f Local) Local
}

type OMEGA interface {
	Six() string
}
`,
	"app/vo/vo.go": `package vo

type Kind string

const (
	KindA Kind = "a"
	KindB Kind = "b"
)

type Shared struct {
	K Kind
	D Deep
}

type Deep struct{ X int }

type TypeOne struct{ X int }

type TypeTwo struct{ X []Deep }

type TypeThree struct{ X int }

type TypeZ struct{ X int }

type Listed struct{ L Inner }

type Inner struct{ I int }
`,
	"app/consts/consts.go": "package consts\n\ntype Mode int\n\nconst (\n\tModeOn Mode = 1\n\tModeOff Mode = 2\n)\n\ntype Other int\n\nconst OtherOne Other = 1\n",
}

const c21vo, c21a, c21b, c21c = "example.com/c21/vo.", "example.com/c21/a.", "example.com/c21/b.", "example.com/c21x/c."

var c21Reach = map[string][]string{
	"Alpha":    {c21vo + "Shared", c21vo + "Kind", c21vo + "Deep", c21a + "Local", c21vo + "TypeOne"},
	"AlphaTwo": {c21vo + "Shared", c21vo + "Kind", c21vo + "Deep", c21vo + "TypeTwo"},
	"Gamma":    {c21vo + "TypeThree", c21vo + "Kind", c21b + "Deep"},
	"XGamma":   {c21vo + "Shared", c21vo + "Kind", c21vo + "Deep"},
	"Omega":    {c21c + "Local"},
	"OMEGA":    {},
}

var c21Services = map[string][]string{"example.com/c21/a": {"Alpha", "AlphaTwo"}, "example.com/c21/b": {"Gamma", "XGamma"}, "example.com/c21x/c": {"Omega", "OMEGA"}}

var c21Dirs = map[string]string{"example.com/c21/a": "app/a", "example.com/c21/b": "app/b", "example.com/c21x/c": "gopath/src/example.com/c21x/c"}

var c21VO = map[string]string{"example.com/c21/vo": "ts/vo.ts", "example.com/c21/a": "ts/a-vo.ts", "example.com/c21/b": "ts/b-vo.ts", "example.com/c21x/c": "ts/deep/c-vo.ts", "example.com/c21/consts": "ts/consts.ts"}

type c21Target struct {
	pkg                    string
	services, tsrpc, gorpc []string
	skip                   bool
	out                    string // "", rel, abs, home
	name                   string
}

func (t c21Target) String() string {
	return fmt.Sprintf("%s{%s services=%v tsrpc=%v gorpc=%v skipClient=%v out=%q}", t.name, t.pkg, t.services, t.tsrpc, t.gorpc, t.skip, t.out)
}

// outFile is where the TypeScript client goes, relative to the case's directory.
func (t c21Target) outFile() string {
	f := "-client.ts"
	switch t.out {
	case "rel":
		return "app/ts/" + t.name + f
	case "abs":
		return "elsewhere/" + t.name + f
	case "home":
		return "home/ts/" + t.name + f
	}
	return ""
}

func (t c21Target) goFiles() (out map[string][]string) { // file -> services
	out = map[string][]string{}
	d := c21Dirs[t.pkg]
	if len(t.tsrpc) > 0 {
		out[d+"/gotsrpc_gen.go"] = t.tsrpc
		if !t.skip {
			out[d+"/gotsrpcclient_gen.go"] = t.tsrpc
		}
	}
	if len(t.gorpc) > 0 {
		out[d+"/gorpc_gen.go"] = t.gorpc
		out[d+"/gorpcclient_gen.go"] = t.gorpc
	}
	return
}

func (t c21Target) tsServices() []string {
	if len(t.tsrpc) > 0 {
		return t.tsrpc
	}
	return t.services
}

type c21Extras struct{ structs, scalars bool }

func c21Config(ts []c21Target, x c21Extras, dir string, reverse bool) string {
	var parts []string
	for _, t := range ts {
		s := "  " + t.name + ":\n    package: " + t.pkg + "\n    services:\n"
		for _, n := range t.services {
			s += "      /x" + n + ": " + n + "\n"
		}
		if len(t.tsrpc) > 0 {
			s += "    tsrpc: [" + strings.Join(t.tsrpc, ", ") + "]\n"
		}
		if len(t.gorpc) > 0 {
			s += "    gorpc: [" + strings.Join(t.gorpc, ", ") + "]\n"
		}
		if t.skip {
			s += "    skipTSRPCClient: true\n"
		}
		switch t.out {
		case "rel":
			s += "    out: ./" + strings.TrimPrefix(t.outFile(), "app/") + "\n"
		case "abs":
			s += "    out: " + dir + "/" + t.outFile() + "\n"
		case "home":
			s += "    out: ~/" + strings.TrimPrefix(t.outFile(), "home/") + "\n"
		}
		parts = append(parts, s)
	}
	if reverse {
		for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
			parts[i], parts[j] = parts[j], parts[i]
		}
	}
	s := "module:\n  name: example.com/c21\n  path: .\ntargets:\n" + strings.Join(parts, "") + "mappings:\n"
	var pkgs []string
	for p := range c21VO {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	for _, p := range pkgs {
		s += "  " + p + ":\n    out: " + c21Place(ts, dir, c21VO[p]) + "\n"
		if p == "example.com/c21/vo" && x.structs {
			s += "    structs:\n      - " + c21vo + "Listed\n"
		}
		if p == "example.com/c21/consts" && x.scalars {
			s += "    scalars:\n      - example.com/c21/consts.Mode\n"
		}
	}
	return s
}

// c21Style is how the outputs of a configuration are written: all alike.
func c21Style(ts []c21Target) string {
	for _, t := range ts {
		if t.out != "" {
			return t.out
		}
	}
	return "rel"
}

func c21Place(ts []c21Target, dir, f string) string {
	switch c21Style(ts) {
	case "abs":
		return dir + "/elsewhere/" + f
	case "home":
		return "~/" + f
	}
	return "./" + f
}

func c21VOFile(ts []c21Target, pkg string) string {
	return map[string]string{"abs": "elsewhere/", "home": "home/", "rel": "app/"}[c21Style(ts)] + c21VO[pkg]
}

func c21Snapshot(dir string) map[string]string {
	out := map[string]string{}
	must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		b, err := os.ReadFile(p)
		rel, _ := filepath.Rel(dir, p)
		if !strings.HasPrefix(rel, "home/.") { // telemetry and the like of the go command
			out[rel] = string(b)
		}
		return err
	}))
	return out
}

var c21Block = regexp.MustCompile(`(?m)^\s*// ((?:example\.com)/\S+)$`)

// c21Blocks splits a mapping's file into the types it has.
func c21Blocks(s string) map[string]string {
	out := map[string]string{}
	at := c21Block.FindAllStringSubmatchIndex(s, -1)
	for i, m := range at {
		end := len(s)
		if i+1 < len(at) {
			end = at[i+1][0]
		}
		body := strings.TrimSpace(strings.Split(s[m[0]:end], "// end of common js")[0])
		out[s[m[2]:m[3]]] = body
	}
	return out
}

var c21Defs = map[string]*regexp.Regexp{
	"gotsrpc_gen.go":       regexp.MustCompile(`type (\w+)GoTSRPCProxy struct`),
	"gotsrpcclient_gen.go": regexp.MustCompile(`type HTTP(\w+)GoTSRPCClient struct`),
	"gorpc_gen.go":         regexp.MustCompile(`(?m)^\s*(?:type )?(\w+)GoRPCProxy struct`),
	"gorpcclient_gen.go":   regexp.MustCompile(`type (\w+)GoRPCClient struct`),
	".ts":                  regexp.MustCompile(`export class (\w+)Client`),
}

var c21Mention = regexp.MustCompile(`AlphaTwo|Alpha|XGamma|Gamma|Omega|OMEGA|Zeta`)

func sortedSet(xs []string) []string {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func init() {
	register(&Check{ID: "C21", Level: "model_checking", Assumptions: []string{
		"two writers of one output, and selectors naming services the target does not list, are refused (C22)",
		"types of services that are configured but not selected for TypeScript may or may not be in the mapping's file",
	}, Run: runC21})
}

func runC21(e *Env) *Result {
	e.buildGen()
	x := newExplorer(e, 8)
	root := filepath.Join(e.Dir, "c21")
	n := 0
	var mu sync.Mutex
	generate := func(ts []c21Target, ex c21Extras, reverse, stale bool) (string, map[string]string, map[string]string, procResult) {
		mu.Lock()
		n++
		dir := filepath.Join(root, fmt.Sprint(n))
		mu.Unlock()
		defer os.RemoveAll(dir)
		for f, c := range c21Files {
			writeFiles(filepath.Join(dir, filepath.Dir(f)), map[string]string{filepath.Base(f): c})
		}
		for p, d := range c21Dirs {
			pk := filepath.Base(p)
			writeFiles(filepath.Join(dir, d), map[string]string{"own_gen.go": "package " + pk + "\n", "gotsrpc_gen_notes.txt": "mine"})
			if stale {
				for f := range c21Defs {
					if f != ".ts" {
						writeFiles(filepath.Join(dir, d), map[string]string{f: "package " + pk + "\n\n// left over\n"})
					}
				}
			}
		}
		must(os.MkdirAll(filepath.Join(dir, "home"), 0o755))
		writeFiles(filepath.Join(dir, "app"), map[string]string{"gotsrpc.yml": c21Config(ts, ex, dir, reverse)})
		before := c21Snapshot(dir)
		r := run(filepath.Join(dir, "app"), time.Minute, []string{"GOPATH=" + dir + "/gopath", "HOME=" + dir + "/home"}, e.Gen, "gotsrpc.yml")
		return dir, before, c21Snapshot(dir), r
	}
	type alone struct {
		once  sync.Once
		files map[string]string
	}
	var aloneMu sync.Mutex
	cache := map[string]*alone{}
	single := func(t c21Target, ex c21Extras) map[string]string {
		k := fmt.Sprint(t, ex)
		aloneMu.Lock()
		a := cache[k]
		if a == nil {
			a = &alone{}
			cache[k] = a
		}
		aloneMu.Unlock()
		a.once.Do(func() {
			_, _, a.files, _ = generate([]c21Target{t}, ex, false, false)
		})
		return a.files
	}
	check := func(ts []c21Target, ex c21Extras, reverse, stale bool) {
		name := fmt.Sprintf("%v %+v reversed=%v stale=%v", ts, ex, reverse, stale)
		bad := func(key, format string, a ...any) {
			x.fail(key, name+": "+fmt.Sprintf(format, a...), map[string]any{"targets": fmt.Sprint(ts), "config": c21Config(ts, ex, "/DIR", reverse)})
		}
		_, before, after, r := generate(ts, ex, reverse, stale)
		defer x.state(name, len(ts))
		if r.Code != 0 {
			bad("exit", "the generator fails with %d: %s", r.Code, tail(r.Out, 800))
			return
		}
		want := map[string][]string{}
		writers := map[string]c21Target{}
		required, allowed := map[string]bool{}, map[string]bool{}
		anyOut := false
		owned := map[string]bool{} // Go outputs of the targets' packages
		for _, t := range ts {
			for f := range c21Defs {
				if f != ".ts" {
					owned[c21Dirs[t.pkg]+"/"+f] = true
				}
			}
			for f, s := range t.goFiles() {
				want[f] = s
				writers[f] = t
			}
			if f := t.outFile(); f != "" {
				anyOut = true
				want[f] = t.tsServices()
				writers[f] = t
				for _, s := range t.tsServices() {
					for _, n := range c21Reach[s] {
						required[n] = true
					}
				}
				for _, s := range t.services {
					for _, n := range c21Reach[s] {
						allowed[n] = true
					}
				}
			}
		}
		if anyOut && ex.structs {
			required[c21vo+"Listed"], required[c21vo+"Inner"] = true, true
		}
		if anyOut && ex.scalars {
			required["example.com/c21/consts.Mode"] = true
		}
		vo := map[string]map[string]bool{}
		for n := range required {
			allowed[n] = true
		}
		for n := range allowed {
			p := n[:strings.LastIndex(n, ".")]
			f := c21VOFile(ts, p)
			if vo[f] == nil {
				vo[f] = map[string]bool{}
			}
			if required[n] {
				vo[f][n] = true
			}
		}
		for f := range want {
			if _, ok := after[f]; !ok {
				bad("missing file", "%s is not written (%s)", f, tail(r.Out, 400))
			}
		}
		for f, req := range vo {
			if _, ok := after[f]; !ok && len(req) > 0 {
				bad("missing file", "%s is not written", f)
			}
		}
		for f, c := range after {
			_, w := want[f]
			_, v := vo[f]
			switch b, old := before[f]; {
			case w || v:
			case owned[f]:
				bad("unwanted file", "%s exists", f)
			case !old:
				bad("unwanted file", "%s is written", f)
			case b != c:
				bad("foreign file", "%s is changed", f)
			}
		}
		for f := range before {
			if _, ok := after[f]; !ok && !owned[f] {
				bad("foreign file", "%s is removed", f)
			}
		}
		for f, services := range want {
			re := c21Defs[filepath.Base(f)]
			if re == nil {
				re = c21Defs[".ts"]
			}
			var got []string
			for _, m := range re.FindAllStringSubmatch(after[f], -1) {
				got = append(got, m[1])
			}
			g, w := sortedSet(got), sortedSet(services)
			if fmt.Sprint(g) != fmt.Sprint(w) || len(got) != len(services) {
				bad("services", "%s has services %v, want %v", f, got, w)
			}
			if g := sortedSet(c21Mention.FindAllString(after[f], -1)); fmt.Sprint(g) != fmt.Sprint(w) {
				bad("services", "%s mentions services %v, want %v", f, g, w)
			}
			if a := single(writers[f], ex)[f]; len(ts) > 1 && a != after[f] {
				bad("influence", "%s differs from the one its target yields alone: %q", f, firstDiff(a, after[f]))
			}
		}
		for f, req := range vo {
			got := c21Blocks(after[f])
			for n := range req {
				if got[n] == "" {
					bad("types", "%s lacks %s", f, n)
				}
			}
			for n, text := range got {
				if !allowed[n] {
					bad("types", "%s has %s", f, n)
				}
				for _, t := range ts {
					if len(ts) == 1 {
						break
					}
					if a := c21Blocks(single(t, ex)[f])[n]; a != "" && a != text {
						bad("influence", "%s: %s differs from the one %s yields alone: %q", f, n, t, firstDiff(a, text))
					}
				}
			}
		}
		x.note("files_checked", len(want)+len(vo))
	}
	subsets := func(xs []string) (out [][]string) {
		for m := 0; m < 1<<len(xs); m++ {
			var s []string
			for i := range xs {
				if m>>i&1 == 1 {
					s = append(s, xs[i])
				}
			}
			out = append(out, s)
		}
		return
	}
	specs := func(pkg string, outs []string, skips []bool) (out []c21Target) {
		for _, sv := range subsets(c21Services[pkg]) {
			if len(sv) == 0 {
				continue
			}
			for _, ts := range subsets(sv) {
				for _, g := range subsets(sv) {
					for _, sk := range skips {
						for _, o := range outs {
							out = append(out, c21Target{pkg: pkg, services: sv, tsrpc: ts, gorpc: g, skip: sk, out: o})
						}
					}
				}
			}
		}
		return
	}
	extras := []c21Extras{{}, {true, false}, {false, true}, {true, true}}
	// one target: every selection
	for _, pkg := range []string{"example.com/c21/a", "example.com/c21/b", "example.com/c21x/c"} {
		for _, t := range specs(pkg, []string{"", "rel", "abs", "home"}, []bool{false, true}) {
			t.name = "t"
			for _, ex := range extras {
				if !e.Thorough && pkg != "example.com/c21/a" && ex != extras[3] {
					continue
				}
				for _, stale := range []bool{false, true} {
					if !e.Thorough && stale != (ex == extras[3]) {
						continue
					}
					x.add(func() { check([]c21Target{t}, ex, false, stale) })
				}
			}
		}
	}
	// two targets of different packages, and of one package where they write different files
	disjoint := func(a, b c21Target) bool {
		fa := a.goFiles()
		for f := range b.goFiles() {
			if _, ok := fa[f]; ok {
				return false
			}
		}
		return true
	}
	ps := map[string][]c21Target{}
	for pkg := range c21Dirs {
		for _, t := range specs(pkg, []string{"", "rel"}, []bool{false}) {
			if strings.Join(t.services, "") == "OMEGA" || !e.Thorough && len(t.services) == 2 && pkg == "example.com/c21x/c" {
				continue
			}
			if !e.Thorough && len(t.services) == 1 && pkg != "example.com/c21x/c" && len(c21Services[pkg]) > 1 && t.services[0] == c21Services[pkg][0] {
				continue
			}
			ps[pkg] = append(ps[pkg], t)
		}
	}
	pair := func(a, b c21Target, i int) {
		for _, names := range [][2]string{{"t1", "t2"}, {"t2", "t1"}} {
			a, b := a, b
			a.name, b.name = names[0], names[1]
			ex := extras[i%4]
			x.add(func() { check([]c21Target{a, b}, ex, i%2 == 1, false) })
		}
	}
	i := 0
	for _, a := range ps["example.com/c21/a"] {
		for _, b := range ps["example.com/c21/b"] {
			i++
			if !e.Thorough && (len(a.gorpc)+len(b.gorpc) > 2 || len(a.tsrpc) == 2 && len(b.tsrpc) == 2) {
				continue
			}
			pair(a, b, i)
		}
		for _, b := range ps["example.com/c21x/c"] {
			i++
			pair(a, b, i)
		}
		for _, b := range ps["example.com/c21/a"] {
			i++
			if disjoint(a, b) {
				pair(a, b, i)
			}
		}
	}
	// what one target says has no effect on another: every setting of each, in every order
	settings := func(pkg string) (out []c21Target) {
		all := c21Services[pkg]
		for _, ts := range [][]string{nil, all} {
			for _, g := range [][]string{nil, all} {
				for _, sk := range []bool{false, true} {
					for _, o := range []string{"", "rel"} {
						out = append(out, c21Target{pkg: pkg, services: all, tsrpc: ts, gorpc: g, skip: sk, out: o})
					}
				}
			}
		}
		return
	}
	sa, sb, sc := settings("example.com/c21/a"), settings("example.com/c21/b"), settings("example.com/c21x/c")
	for _, p := range [][2][]c21Target{{sa, sb}, {sa, sc}, {sb, sc}} {
		for _, a := range p[0] {
			for _, b := range p[1] {
				i++
				if !e.Thorough && a.skip == b.skip {
					continue
				}
				pair(a, b, i)
			}
		}
	}
	// three targets
	k := 0
	for _, a := range ps["example.com/c21/a"] {
		for _, b := range ps["example.com/c21/b"] {
			for _, c := range ps["example.com/c21x/c"] {
				k++
				if !e.Thorough && (a.out == b.out && b.out == c.out || len(a.gorpc) != len(a.tsrpc) || len(b.gorpc) > 1 || len(c.gorpc) > 0) {
					continue
				}
				a, b, c := a, b, c
				a.name, b.name, c.name = []string{"t1", "t2", "t3"}[k%3], []string{"t2", "t3", "t1"}[k%3], []string{"t3", "t1", "t2"}[k%3]
				j := k
				x.add(func() { check([]c21Target{a, b, c}, extras[j%4], j%2 == 1, j%2 == 0) })
			}
		}
	}
	if e.Thorough {
		orders := [][3]string{{"t1", "t2", "t3"}, {"t1", "t3", "t2"}, {"t2", "t1", "t3"}, {"t2", "t3", "t1"}, {"t3", "t1", "t2"}, {"t3", "t2", "t1"}}
		for _, a := range sa {
			for _, b := range sb {
				for _, c := range sc {
					if a.out == "" && b.out == "" && c.out == "" {
						continue
					}
					for _, o := range orders {
						k++
						a, b, c, j := a, b, c, k
						a.name, b.name, c.name = o[0], o[1], o[2]
						x.add(func() { check([]c21Target{a, b, c}, extras[j%4], j%2 == 1, false) })
					}
				}
			}
		}
	}
	return x.finish()
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		var x, y string
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: %s | %s", i+1, strings.TrimSpace(x), strings.TrimSpace(y))
		}
	}
	return ""
}
