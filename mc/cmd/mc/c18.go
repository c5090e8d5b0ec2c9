package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

func init() {
	register(&Check{ID: "C18", Level: "model_checking", Assumptions: []string{
		"the transport posts the JSON of the arguments to endpoint and name, as that of the examples does",
		"methods are named like the Go methods with a lower first letter; names of unnamed results are ret, ret_1, ..",
	}, Run: runC18})
}

// a type arguments and results have: Go, TypeScript, documents
type c18Type struct {
	name, ts string
	docs     []string
}

var c18Types = []c18Type{
	{"string", "string", []string{`"a \"b\" ä"`, `""`}},
	{"int", "number", []string{`7`, `-1`}},
	{"bool", "boolean", []string{`true`, `false`}},
	{"float64", "number", []string{`1.5`, `0`}},
	{"Item", "VO.Item", []string{`{"A":"x","b":[1,2]}`, `{"A":"","b":null}`}},
	{"*Item", "VO.Item|null", []string{`{"A":"y","b":[]}`, `null`}},
	{"[]string", "Array<string>|null", []string{`["p","q"]`, `null`}},
	{"[]Item", "Array<VO.Item>|null", []string{`[{"A":"z","b":[3]}]`, `[]`}},
	{"map[string]int", "Record<string,number>|null", []string{`{"k":1}`, `null`}},
	{"Kind", "VO.Kind", []string{`"one"`, `"two"`}},
	{"Level", "VO.Level", []string{`3`, `0`}},
}

type c18Method struct {
	name               string
	web                bool
	argTypes, retTypes []int
	argNames, retNames []string // nil: unnamed; groups are joined when they have one type
	grouped            bool
}

func (m c18Method) list(names []string, ts []int) string {
	var out []string
	for i := 0; i < len(ts); i++ {
		t := c18Types[ts[i]].name
		if names == nil {
			out = append(out, t)
			continue
		}
		n := names[i]
		for m.grouped && i+1 < len(ts) && ts[i+1] == ts[i] {
			i++
			n += ", " + names[i]
		}
		out = append(out, n+" "+t)
	}
	return strings.Join(out, ", ")
}

// c18Source is the method and what it does.
func (m c18Method) source(svc string, iface bool) (decl, impl string) {
	args := m.list(m.argNames, m.argTypes)
	if m.web {
		w := "w http.ResponseWriter, r *http.Request"
		if m.argNames == nil {
			w = "http.ResponseWriter, *http.Request"
		}
		args = strings.TrimSuffix(w+", "+args, ", ")
	}
	rets := m.list(m.retNames, m.retTypes)
	if rets != "" {
		rets = " (" + rets + ")"
	}
	decl = m.name + "(" + args + ")" + rets
	// the implementation has names of its own
	var ps, pass, rs, back []string
	web := "false"
	if m.web {
		ps = append(ps, "hw http.ResponseWriter", "hr *http.Request")
		web = "hw != nil && hr != nil"
	}
	for i, t := range m.argTypes {
		ps = append(ps, fmt.Sprintf("a%d %s", i, c18Types[t].name))
		pass = append(pass, fmt.Sprintf(", a%d", i))
	}
	for i, t := range m.retTypes {
		rs = append(rs, c18Types[t].name)
		back = append(back, fmt.Sprintf("tscall.Ret[%s](%d)", c18Types[t].name, i))
	}
	body := fmt.Sprintf("\ttscall.Called(%q, %s%s)\n", svc+"."+m.name, web, strings.Join(pass, ""))
	if len(back) > 0 {
		body += "\treturn " + strings.Join(back, ", ") + "\n"
	}
	if iface {
		return decl, fmt.Sprintf("func (*%sImpl) %s(%s) (%s) {\n%s}\n\n", svc, m.name, strings.Join(ps, ", "), strings.Join(rs, ", "), body)
	}
	// the method of a struct has the declared signature
	call := strings.Join(m.argNames, ", ")
	if m.web {
		call = strings.TrimSuffix("w, r, "+call, ", ")
	}
	ret := ""
	if len(back) > 0 {
		ret = "return "
	}
	return decl, fmt.Sprintf("func (*%s) %s {\n\t%simpl%s%s(%s)\n}\n\nfunc impl%s%s(%s) (%s) {\n%s}\n\n", svc, decl, ret, svc, m.name, call, svc, m.name, strings.Join(ps, ", "), strings.Join(rs, ", "), body)
}

// needsInterface tells whether a struct's method could not see its arguments.
func (m c18Method) needsInterface() bool {
	if m.argNames == nil {
		return m.web || len(m.argTypes) > 0
	}
	for _, n := range m.argNames {
		if n == "_" {
			return true
		}
	}
	return false
}

type c18Service struct {
	name, endpoint string
	methods        []c18Method
}

func c18Methods(e *Env) (out []c18Method) {
	seen := map[string]bool{}
	add := func(m c18Method) {
		k := fmt.Sprint(m)
		if m.name == "" {
			m.name = fmt.Sprintf("M%d", len(out))
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, m)
		}
	}
	n := len(c18Types)
	// 1. kinds of signatures: arity, naming, http
	names := func(kind, n int, p string) []string {
		switch kind {
		case 0:
			return nil
		case 3:
			return []string{"_", "_", "_", "_"}[:n]
		case 4:
			return []string{p + "A", "_", p + "B", "_"}[:n]
		}
		out := []string{}
		for i := 0; i < n; i++ {
			out = append(out, fmt.Sprintf("%s%c", p, "zmac"[i]))
		}
		return out
	}
	maxN := 3
	rots := 1
	if e.Thorough {
		maxN, rots = 4, 4
	}
	rot := 0
	for na := 0; na <= maxN; na++ {
		for nr := 0; nr <= maxN; nr++ {
			for ak := 0; ak < 5; ak++ {
				for rk := 0; rk < 5; rk++ {
					for web := 0; web < 2; web++ {
						for q := 0; q < rots; q++ {
							m := c18Method{web: web == 1, argNames: names(ak, na, "in"), retNames: names(rk, nr, "out"), grouped: ak == 2 || rk == 2}
							if na == 0 && ak > 0 && !(ak == 1 && web == 1) || nr == 0 && rk > 0 {
								continue
							}
							if na == 0 && ak == 1 {
								m.argNames = []string{}
							}
							same := ak == 2 || rk == 2
							for i := 0; i < na; i++ {
								if same {
									m.argTypes = append(m.argTypes, rot%n)
								} else {
									m.argTypes = append(m.argTypes, (rot+i*3)%n)
								}
							}
							for i := 0; i < nr; i++ {
								if same {
									m.retTypes = append(m.retTypes, (rot+5)%n)
								} else {
									m.retTypes = append(m.retTypes, (rot*2+i*4)%n)
								}
							}
							rot++
							add(m)
						}
					}
				}
			}
		}
	}
	// 2. every type and pair of types
	for a := 0; a < n; a++ {
		add(c18Method{argNames: []string{"v"}, argTypes: []int{a}, retTypes: []int{a}})
		for b := 0; b < n; b++ {
			add(c18Method{argNames: []string{"v", "w"}, argTypes: []int{a, b}, retNames: []string{"x", "y"}, retTypes: []int{b, a}, web: (a+b)%3 == 0 && a != b && false})
			if e.Thorough {
				for c := 0; c < n; c++ {
					add(c18Method{argNames: []string{"v", "w", "u"}, argTypes: []int{a, b, c}, retNames: []string{"x", "y", "a"}, retTypes: []int{c, a, b}})
				}
			}
		}
	}
	// many arguments and results
	for _, k := range []int{5, 9, 10, 11, 12, 27} {
		var ts, us []int
		var an, rn []string
		for i := 0; i < k; i++ {
			ts, us = append(ts, i%4), append(us, (i+1)%4)
			an, rn = append(an, fmt.Sprintf("v%d", i)), append(rn, fmt.Sprintf("r%d", i))
		}
		add(c18Method{argNames: an, argTypes: ts})
		add(c18Method{argNames: an, argTypes: ts, web: true, retTypes: us[:1]})
		add(c18Method{argTypes: ts, retTypes: us})
		add(c18Method{retTypes: us})
		add(c18Method{argNames: an, argTypes: ts, retNames: rn, retTypes: us, grouped: true})
	}
	// 3. names of arguments and results
	for i, s := range c18Names {
		o := c18Names[(i+1)%len(c18Names)]
		add(c18Method{name: fmt.Sprintf("N%dA", i), argNames: []string{s}, argTypes: []int{i % n}, retTypes: []int{(i + 1) % n}})
		add(c18Method{name: fmt.Sprintf("N%dB", i), argNames: []string{s, o}, argTypes: []int{0, 1}, retNames: []string{"k", "l"}, retTypes: []int{1, 0}})
		add(c18Method{name: fmt.Sprintf("N%dC", i), argNames: []string{"k"}, argTypes: []int{i % n}, retNames: []string{s}, retTypes: []int{(i + 1) % n}})
		add(c18Method{name: fmt.Sprintf("N%dD", i), argNames: []string{"k"}, argTypes: []int{0}, retNames: []string{s, o}, retTypes: []int{1, 0}})
		add(c18Method{name: fmt.Sprintf("N%dE", i), web: true, argNames: []string{s}, argTypes: []int{0}, retNames: []string{o, "k"}, retTypes: []int{4, 5}})
	}
	// 4. names of methods
	for _, s := range []string{"Constructor", "Transport", "Delete", "New", "Then", "ToString", "Default", "HTTPGet", "X", "URL", "Über", "A_b", "DefaultEndpoint", "Prototype", "Name", "Length", "Function", "Static", "Async", "ServeHTTP", "Close", "String"} {
		add(c18Method{name: s, argNames: []string{"v"}, argTypes: []int{4}, retTypes: []int{0}})
	}
	return
}

var c18Names = []string{
	"arguments", "await", "async", "break_", "catch", "class", "const_", "delete", "enum", "eval", "export", "extends", "finally", "function", "implements", "in", "instanceof", "let", "new", "null", "private", "protected", "public",
	"static", "super", "this", "throw", "try", "typeof", "void", "while", "with", "yield", "undefined", "NaN", "Infinity", "response", "transport", "method", "data", "args", "constructor", "of", "get", "set", "string", "number", "any", "never", "object",
	"Promise", "Array", "Object", "debugger", "true", "false", "as", "is", "declare", "module", "namespace", "require", "exports", "globalThis", "ret", "ret_1", "arg_0", "response_", "ä", "日本", "x_1", "toString", "valueOf", "hasOwnProperty",
	"err", "error", "id", "ID", "ctx", "reply", "do", "name", "length", "clientErr", "executionStart", "callStats", "time", "http",
}

func c18Services(e *Env) (out []c18Service) {
	ms := c18Methods(e)
	endpoints := []string{"/s%d", "/service/s%d", "/s%d/s%d/deep", "/service/s%d-x_y.z~1", "/s%d/Übergröße", "/s%d/", "/s%d//x", "/s%d/x//"}
	per := 60
	sort.SliceStable(ms, func(i, j int) bool { return !ms[i].needsInterface() && ms[j].needsInterface() })
	for from := 0; from < len(ms); from += per {
		i := len(out)
		ep := strings.ReplaceAll(endpoints[i%len(endpoints)], "%d", fmt.Sprint(i))
		out = append(out, c18Service{fmt.Sprintf("Svc%d", i), ep, ms[from:min(from+per, len(ms))]})
	}
	// endpoints and names that are beginnings of others
	out = append(out, c18Service{"Two", "/s0/s", []c18Method{{name: "M1", argNames: []string{"v"}, argTypes: []int{0}, retTypes: []int{1}}}},
		c18Service{"TwoTwo", "/s0/s/s", []c18Method{{name: "M1", argNames: []string{"v"}, argTypes: []int{1}, retTypes: []int{0}}, {name: "M", argNames: []string{"v"}, argTypes: []int{1}, retTypes: []int{0}}, {name: "M11"}}})
	return
}

func c18TSName(s string) string {
	r := []rune(s)
	n := strings.ToLower(string(r[:1])) + string(r[1:])
	if n == "constructor" || n == "transport" {
		n += "_" // what a class has already
	}
	return n
}

// c18Project puts the services into packages and targets.
type c18Placed struct {
	c18Service
	pkg, out string
	iface    bool
}

const c18VO = `
type Item struct {
	A string
	B []int ` + "`json:\"b\"`" + `
}

type Kind string

const (
	One Kind = "one"
	Two_ Kind = "two"
)

type Level int
`

func c18Project(svcs []c18Service) (files map[string]string, cfg string, placed []c18Placed) {
	files = map[string]string{}
	var targets, maps, mains, imports strings.Builder
	perPkg := 6
	for from := 0; from < len(svcs); from += perPkg {
		p := from / perPkg
		pkg := fmt.Sprintf("p%d", p)
		fmt.Fprintf(&targets, "  t%d:\n    package: example.com/vh/gen/%s\n    out: ./ts/%s/client.ts\n    skipTSRPCClient: true\n    services:\n", p, pkg, pkg)
		fmt.Fprintf(&maps, "  example.com/vh/gen/%s:\n    out: ./ts/%s/vo.ts\n    scalars:\n      - example.com/vh/gen/%s.Level\n", pkg, pkg, pkg)
		fmt.Fprintf(&imports, "\t\"example.com/vh/gen/%s\"\n", pkg)
		files["gen/"+pkg+"/vo.go"] = "package " + pkg + "\n" + c18VO
		tsrpc := ""
		for i, s := range svcs[from:min(from+perPkg, len(svcs))] {
			fmt.Fprintf(&targets, "      %s: %s\n", s.endpoint, s.name)
			tsrpc += "      - " + s.name + "\n"
			pl := c18Placed{s, pkg, fmt.Sprintf("ts/%s/client.ts", pkg), i%2 == 0}
			for _, m := range s.methods {
				pl.iface = pl.iface || m.needsInterface()
			}
			placed = append(placed, pl)
			var decls, impls strings.Builder
			web := ""
			for _, m := range s.methods {
				d, im := m.source(s.name, pl.iface)
				if m.web {
					web = "\t\"net/http\"\n\n"
				}
				if pl.iface {
					fmt.Fprintf(&decls, "\t%s\n", d)
					impls.WriteString(im)
				} else {
					impls.WriteString(im)
				}
			}
			src := "package " + pkg + "\n\nimport (\n" + web + "\t\"example.com/vh/tscall\"\n)\n\n"
			if pl.iface {
				src += "type " + s.name + " interface {\n" + decls.String() + "}\n\ntype " + s.name + "Impl struct{}\n\n" + impls.String()
				fmt.Fprintf(&mains, "\t\t%q: %s.NewDefault%sGoTSRPCProxy(&%s.%sImpl{}),\n", s.endpoint, pkg, s.name, pkg, s.name)
			} else {
				src += "type " + s.name + " struct{}\n\n" + impls.String()
				fmt.Fprintf(&mains, "\t\t%q: %s.NewDefault%sGoTSRPCProxy(&%s.%s{}),\n", s.endpoint, pkg, s.name, pkg, s.name)
			}
			files["gen/"+pkg+"/"+strings.ToLower(s.name)+".go"] = src
		}
		targets.WriteString("    tsrpc:\n" + tsrpc)
	}
	files["cmd/c18/main.go"] = "package main\n\nimport (\n\t\"net/http\"\n\n" + imports.String() + "\t\"example.com/vh/tscall\"\n)\n\nfunc main() {\n\ttscall.Serve(map[string]http.Handler{\n" + mains.String() + "\t})\n}\n"
	cfg = "module:\n  name: example.com/vh\n  path: .\ntargets:\n" + targets.String() + "mappings:\n" + maps.String()
	return
}

type c18Vector struct {
	Args []json.RawMessage `json:"args"`
	Rets []json.RawMessage `json:"rets"`
}

type c18Call struct {
	Module   string      `json:"module"`
	Cls      string      `json:"cls"`
	Endpoint string      `json:"endpoint"`
	Service  string      `json:"service"`
	Func     string      `json:"func"`
	Method   string      `json:"method"`
	Methods  []string    `json:"methods"`
	Web      bool        `json:"web"`
	Keys     []string    `json:"keys"`
	Vectors  []c18Vector `json:"vectors"`
}

// c18Docs is every combination of documents.
func c18Docs(ts []int) (out [][]json.RawMessage) {
	if len(ts) > 4 { // all with their first, all with their second
		for j := 0; j < 2; j++ {
			var o []json.RawMessage
			for _, t := range ts {
				o = append(o, json.RawMessage(c18Types[t].docs[j]))
			}
			out = append(out, o)
		}
		return
	}
	out = [][]json.RawMessage{{}}
	for _, t := range ts {
		var next [][]json.RawMessage
		for _, o := range out {
			for _, d := range c18Types[t].docs {
				next = append(next, append(append([]json.RawMessage{}, o...), json.RawMessage(d)))
			}
		}
		out = next
	}
	return
}

func c18Keys(m c18Method) []string {
	keys := []string{}
	for i := range m.retTypes {
		switch {
		case m.retNames == nil && i == 0:
			keys = append(keys, "ret")
		case m.retNames == nil:
			keys = append(keys, fmt.Sprintf("ret_%d", i))
		case m.retNames[i] == "_":
			keys = append(keys, "")
		default:
			keys = append(keys, m.retNames[i])
		}
	}
	return keys
}

// c18Types says what the client's methods must look like to TypeScript.
func c18TypeTest(s c18Placed) string {
	var b strings.Builder
	fmt.Fprintf(&b, "import * as VO from './vo';\nimport { %sClient } from './client';\ntype C = %sClient;\n", s.name, s.name)
	for i, m := range s.methods {
		var ps []string
		for _, t := range m.argTypes {
			ps = append(ps, c18Types[t].ts)
		}
		n := c18TSName(m.name)
		fmt.Fprintf(&b, "type P%d = [%s]; const p%d = (a: P%d): Parameters<C['%s']> => a; const q%d = (a: Parameters<C['%s']>): P%d => a;\n", i, strings.Join(ps, ", "), i, i, n, i, n, i)
		r := "void"
		keys := c18Keys(m)
		switch len(m.retTypes) {
		case 0:
		case 1:
			r = c18Types[m.retTypes[0]].ts
		default:
			var fs []string
			for j, k := range keys {
				if k != "" {
					fs = append(fs, fmt.Sprintf("%q: %s", k, c18Types[m.retTypes[j]].ts))
				}
			}
			r = "{" + strings.Join(fs, "; ") + "}"
		}
		fmt.Fprintf(&b, "type R%d = %s; const s%d = (a: Awaited<ReturnType<C['%s']>>): R%d => a;", i, r, i, n, i)
		if !strings.Contains(strings.Join(m.retNames, " "), "_") {
			fmt.Fprintf(&b, " const t%d = (a: R%d): Awaited<ReturnType<C['%s']>> => a;", i, i, n)
		}
		b.WriteString("\n")
	}
	return b.String()
}

func runC18(e *Env) *Result {
	e.buildGen()
	e.module("tscall")
	svcs := c18Services(e)
	files, cfg, placed := c18Project(svcs)
	files["gotsrpc.yml"] = cfg
	writeTree(e.VH, files)
	e.generate("gotsrpc.yml")
	bin := e.build("./cmd/c18")
	const workers = 4
	x := newExplorer(e, workers)
	nodes := newNodePool(e, "call.js", workers)
	defer nodes.close()
	bases := make(chan string, workers)
	for i := 0; i < workers; i++ {
		cmd := exec.Command(bin)
		out, err := cmd.StdoutPipe()
		must(err)
		must(cmd.Start())
		defer func() {
			_ = cmd.Process.Kill()
			_ = cmd.Wait()
		}()
		addr, err := bufio.NewReader(out).ReadString('\n')
		must(err)
		bases <- "http://" + strings.TrimSpace(addr)
	}
	for _, s := range placed {
		x.add(func() {
			read := func(f string) string {
				b, err := os.ReadFile(filepath.Join(e.VH, "ts", s.pkg, f))
				if err != nil {
					e.fail("no-client", "%v", err)
				}
				return string(b)
			}
			tree := map[string]string{"client.ts": read("client.ts"), "vo.ts": read("vo.ts"), "test.ts": c18TypeTest(s)}
			var calls []c18Call
			var all []string
			for _, m := range s.methods {
				all = append(all, c18TSName(m.name))
			}
			sort.Strings(all)
			for _, m := range s.methods {
				c := c18Call{Module: "client.ts", Cls: s.name + "Client", Endpoint: s.endpoint, Service: s.name, Func: m.name, Method: c18TSName(m.name), Methods: all, Web: m.web, Keys: c18Keys(m)}
				as, rs := c18Docs(m.argTypes), c18Docs(m.retTypes)
				for i, a := range as {
					for j, r := range rs {
						if !e.Thorough && i != j && i > 0 && j > 0 && len(as)*len(rs) > 16 {
							continue
						}
						c.Vectors = append(c.Vectors, c18Vector{a, r})
					}
				}
				calls = append(calls, c)
			}
			base := <-bases
			var a struct {
				Diags []tsDiag
				Fails []struct{ Key, Name, Msg string }
				N     int
			}
			nodes.ask(map[string]any{"files": tree, "base": base, "calls": calls}, &a)
			bases <- base
			for _, d := range a.Diags {
				x.fail("types", s.name+": "+d.String()+"\n"+line(tree[d.File], d.Line), map[string]any{"service": s.name})
			}
			for _, f := range a.Fails {
				x.fail(f.Key, f.Name+" "+f.Msg, map[string]any{"service": s.name, "method": f.Name})
			}
			for _, m := range s.methods {
				x.state(s.name+"."+m.name, 1)
			}
			x.note("calls", a.N)
		})
	}
	return x.finish()
}

func line(text string, n int) string {
	ls := strings.Split(text, "\n")
	if n < 1 || n > len(ls) {
		return ""
	}
	return ls[n-1]
}
