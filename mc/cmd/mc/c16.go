package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
)

func init() {
	register(&Check{ID: "C16", Level: "model_checking", Assumptions: []string{
		"that generated code compiles is decided by go/types, and by the compiler for all cases together",
		"names the generated types use themselves (URL, EndPoint, Client, Start, Stop) are no method names, and the names of two gorpc services and their methods make no two messages of one name",
	}, Run: runC16})
}

const c16Mod = "example.com/g"

// packages the services take types from
var c16VO = map[string]string{
	"vo/vo.go": `package vo

type Item struct {
	ID   string
	Next *Item
	Tags map[Kind][]Pair
}

type Pair struct{ L, R float64 }

type Kind string

type Level int

const (
	KindA Kind  = "a"
	Low   Level = 1
)

type List []Item

type Index map[Kind]*Item

type Any interface{}

type Oops struct{ Why string }

func (o *Oops) Error() string { return o.Why }

type Choice struct {
	A *Item ` + "`gotsrpc:\"union\"`" + `
	B *Pair ` + "`gotsrpc:\"union\"`" + `
}
`,
	"other/vo/vo.go":           "package vo\n\ntype Item struct{ X int }\n\ntype Kind int\n\ntype Extra struct{ K Kind }\n",
	"dash-ed/thing.go":         "package dashed\n\ntype Item struct{ X int }\n",
	"dash_ed/dash.go":          "package dash_ed\n\ntype Item struct{ Y int }\n",
	"dash/ed/ed.go":            "package ed\n\ntype Item struct{ Z int }\n",
	"dot.ted/ted.go":           "package ted\n\ntype Item struct{ Z int }\n",
	"lib/v2/lib.go":            "package lib\n\ntype Item struct{ Z int }\n",
	"gopkg.in/conf.v3/conf.go": "package conf\n\ntype Item struct{ Z int }\n",
	"go-kit/kit.go":            "package kit\n\ntype Item struct{ Z int }\n",
	"svc/sub/sub.go":           "package sub\n\ntype Item struct{ Z int }\n",
	"svcx/svcx.go":             "package svcx\n\ntype Item struct{ Z int }\n",
	"sv/sv.go":                 "package sv\n\ntype Item struct{ Z int }\n",
	"other/svc/svc.go":         "package svc\n\ntype Item struct{ Z int }\n",
	"api/v1/api.go":            "package v1\n\ntype Item struct{ Z int }\n",
	"core/v1/api.go":           "package v1\n\ntype Item struct{ Z int }\n",
	"time/time.go":             "package time\n\ntype Time struct{ Z int }\n",
	"http/http.go":             "package http\n\ntype Request struct{ Z int }\n\ntype ResponseWriter struct{ Z int }\n",
	"io/io.go":                 "package io\n\ntype Reader struct{ Z int }\n",
	"gotsrpc/gotsrpc.go":       "package gotsrpc\n\ntype Error struct{ Z int }\n",
}

// types the service package itself declares
const c16Local = `
type Local struct {
	A int
	B []string
}

type LocalKind string

const LocalKindA LocalKind = "a"

type LocalList []Local

type LocalIndex map[string]Local

type LocalAny interface{}

type LocalOops struct{ Why string }

func (o *LocalOops) Error() string { return o.Why }
`

type c16Param struct{ name, typ string }

type c16Method struct {
	name       string
	http       bool
	args, rets []c16Param // names may be shared: "a, b"; "" for unnamed results
}

func (m c16Method) signature() string {
	list := func(ps []c16Param) string {
		var out []string
		for _, p := range ps {
			out = append(out, strings.TrimSpace(p.name+" "+p.typ))
		}
		return strings.Join(out, ", ")
	}
	args := list(m.args)
	if m.http {
		args = strings.TrimSuffix("w http.ResponseWriter, r *http.Request, "+args, ", ")
	}
	s := "(" + args + ")"
	switch {
	case len(m.rets) == 0:
	case len(m.rets) == 1 && m.rets[0].name == "":
		s += " " + m.rets[0].typ
	default:
		s += " (" + list(m.rets) + ")"
	}
	return s
}

type c16Service struct {
	name    string
	methods []c16Method
}

type c16Case struct {
	name     string
	pkg      string // directory of the service package below the module
	files    map[string]string
	services []string
	only     string // tsrpc or gorpc, if not both
}

func (c *c16Case) config() string {
	var b strings.Builder
	fmt.Fprintf(&b, "module:\n  name: %s\n  path: .\ntargets:\n  t:\n    package: %s/%s\n    services:\n", c16Mod, c16Mod, c.pkg)
	for _, s := range c.services {
		fmt.Fprintf(&b, "      /%s: %s\n", s, s)
	}
	for _, k := range []string{"tsrpc", "gorpc"} {
		if c.only == "" || c.only == k {
			fmt.Fprintf(&b, "    %s: [%s]\n", k, strings.Join(c.services, ", "))
		}
	}
	return b.String()
}

const (
	c16Interface = iota
	c16Struct
	c16Spread // struct with its methods in several files
	c16Kinds
)

// c16Source renders a service in one of the ways to declare one.
func c16Source(pkg, imports string, kind int, s c16Service) map[string]string {
	head := func(ms []c16Method, body string) string {
		im := imports
		for _, m := range ms {
			if m.http {
				im = "\t\"net/http\"\n" + im
				break
			}
		}
		if im != "" {
			im = "import (\n" + im + ")\n\n"
		}
		return "package " + pkg + "\n\n" + im + body
	}
	if kind == c16Interface {
		var b strings.Builder
		fmt.Fprintf(&b, "type %s interface {\n", s.name)
		for _, m := range s.methods {
			fmt.Fprintf(&b, "\t%s%s\n", m.name, m.signature())
		}
		b.WriteString("}\n")
		return map[string]string{s.name + ".go": head(s.methods, b.String())}
	}
	method := func(m c16Method) string {
		return fmt.Sprintf("func (*%s) %s%s { panic(0) }\n\n", s.name, m.name, m.signature())
	}
	decl := "type " + s.name + " struct{ hidden int }\n\nfunc (s *" + s.name + ") unexported(x int) {}\n\nfunc Plain" + s.name + "() {}\n\n"
	out := map[string]string{}
	if kind == c16Struct {
		var b strings.Builder
		for _, m := range s.methods {
			b.WriteString(method(m))
		}
		out[s.name+".go"] = head(s.methods, b.String()+decl)
		return out
	}
	out["z_"+s.name+".go"] = "package " + pkg + "\n\n" + decl
	for i, m := range s.methods {
		out[fmt.Sprintf("%c_%s%d.go", 'a'+i%26, s.name, i)] = head([]c16Method{m}, method(m))
	}
	return out
}

func inDir(dir string, files map[string]string) map[string]string {
	out := map[string]string{}
	for f, c := range files {
		out[dir+"/"+f] = c
	}
	return out
}

// c16Types is the grammar of types up to a depth of constructors, by the imports they need.
func c16Types(depth int) (out []string) {
	base := []string{
		"bool", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64",
		"byte", "interface{}", "any", "time.Time", "time.Duration",
		"Local", "LocalKind", "LocalList", "LocalIndex", "LocalAny", "LocalOops",
		"vo.Item", "vo.Kind", "vo.Level", "vo.List", "vo.Index", "vo.Any", "vo.Oops", "vo.Choice", "al.Item", "al.Kind",
	}
	keys := []string{"string", "int", "uint64", "LocalKind", "vo.Kind", "vo.Level", "al.Kind"}
	level := base
	out = append(out, base...)
	for d := 0; d < depth; d++ {
		var next []string
		for i, t := range level {
			if !strings.HasPrefix(t, "*") {
				next = append(next, "*"+t)
			}
			next = append(next, "[]"+t)
			if d == 0 {
				for _, k := range keys {
					next = append(next, "map["+k+"]"+t)
				}
			} else {
				next = append(next, "map["+keys[i%len(keys)]+"]"+t)
			}
		}
		out = append(out, next...)
		level = next
	}
	return
}

// imports for the types used
func c16Imports(uses string) string {
	s := ""
	for _, im := range [][2]string{{"time.", "\t\"time\"\n"}, {"vo.", "\t\"" + c16Mod + "/vo\"\n"}, {"al.", "\tal \"" + c16Mod + "/other/vo\"\n"}} {
		for i := 0; ; {
			j := strings.Index(uses[i:], im[0])
			if j < 0 {
				break
			}
			j += i
			if j == 0 || strings.ContainsRune("*[] ]({,", rune(uses[j-1])) {
				s += im[1]
				break
			}
			i = j + 1
		}
	}
	return s
}

func c16Uses(ms []c16Method) string {
	var b strings.Builder
	for _, m := range ms {
		b.WriteString(m.signature() + " ")
	}
	return b.String()
}

// c16CheckClient compares generated code with the service it was generated for.
func c16CheckClient(t *goTree, pkg string, c *c16Case, tree map[string]string) string {
	p, err := t.Import(pkg)
	if err != nil {
		return err.Error()
	}
	errType := types.Universe.Lookup("error").Type()
	isHTTP := func(sig *types.Signature) bool {
		return sig.Params().Len() >= 2 && sig.Params().At(0).Type().String() == "net/http.ResponseWriter" && sig.Params().At(1).Type().String() == "*net/http.Request"
	}
	methodsOf := func(n *types.Named) map[string]*types.Signature {
		out := map[string]*types.Signature{}
		if it, ok := n.Underlying().(*types.Interface); ok {
			// those declared on a service itself count, those it embeds do not
			for i := 0; i < it.NumExplicitMethods(); i++ {
				if f := it.ExplicitMethod(i); f.Exported() {
					out[f.Name()] = f.Type().(*types.Signature)
				}
			}
			return out
		}
		for i := 0; i < n.NumMethods(); i++ {
			if f := n.Method(i); f.Exported() {
				out[f.Name()] = f.Type().(*types.Signature)
			}
		}
		return out
	}
	for _, s := range c.services {
		svc, ok := p.Scope().Lookup(s).(*types.TypeName)
		if !ok {
			return "no service " + s
		}
		want := methodsOf(svc.Type().(*types.Named))
		// clients
		for _, cl := range []struct {
			kind, name string
			ctx        bool
			infra      []string
		}{{"tsrpc", s + "GoTSRPCClient", true, nil}, {"tsrpc", "HTTP" + s + "GoTSRPCClient", true, nil}, {"gorpc", s + "GoRPCClient", false, []string{"Start", "Stop"}}} {
			if c.only != "" && c.only != cl.kind {
				continue
			}
			o, ok := p.Scope().Lookup(cl.name).(*types.TypeName)
			if !ok {
				return "no client " + cl.name
			}
			got := methodsOf(o.Type().(*types.Named))
			for _, f := range cl.infra {
				delete(got, f)
			}
			for m, sig := range want {
				g, ok := got[m]
				if !ok {
					return cl.name + " lacks " + m
				}
				delete(got, m)
				var ps, rs []types.Type
				if cl.ctx {
					if g.Params().Len() == 0 || g.Params().At(0).Type().String() != "context.Context" {
						return cl.name + "." + m + " takes no context"
					}
				}
				for i := 0; i < g.Params().Len(); i++ {
					if i > 0 || !cl.ctx {
						ps = append(ps, g.Params().At(i).Type())
					}
				}
				for i := 0; i < g.Results().Len(); i++ {
					rs = append(rs, g.Results().At(i).Type())
				}
				skip := 0
				if isHTTP(sig) {
					skip = 2
				}
				if len(ps) != sig.Params().Len()-skip || len(rs) != sig.Results().Len()+1 || !types.Identical(rs[len(rs)-1], errType) {
					return fmt.Sprintf("%s.%s is %s for %s", cl.name, m, g, sig)
				}
				for i, t := range ps {
					if !types.Identical(t, sig.Params().At(i+skip).Type()) {
						return fmt.Sprintf("%s.%s is %s for %s", cl.name, m, g, sig)
					}
				}
				for i, t := range rs[:len(rs)-1] {
					if !types.Identical(t, sig.Results().At(i).Type()) {
						return fmt.Sprintf("%s.%s is %s for %s", cl.name, m, g, sig)
					}
				}
			}
			for m := range got {
				return cl.name + " has " + m + ", which is no method of " + s
			}
		}
		// proxies: the calls of the service
		for kind, file := range map[string]string{"tsrpc": "gotsrpc_gen.go", "gorpc": "gorpc_gen.go"} {
			if c.only != "" && c.only != kind {
				continue
			}
			called := map[string]bool{}
			bad := ""
			for call, tv := range t.calls {
				if t.fset.Position(call.Pos()).Filename != c.pkg+"/"+file {
					continue
				}
				sel := call.Fun.(*ast.SelectorExpr)
				sn := tv.sel
				recv := sn.Recv()
				if ptr, ok := recv.(*types.Pointer); ok {
					recv = ptr.Elem()
				}
				if !types.Identical(recv, svc.Type()) {
					continue
				}
				sig, ok := want[sel.Sel.Name]
				if !ok {
					bad = file + " calls " + sel.Sel.Name + " of " + s
					continue
				}
				called[sel.Sel.Name] = true
				for i, a := range tv.args {
					if isHTTP(sig) && i < 2 {
						continue
					}
					if !types.Identical(a, sig.Params().At(i).Type()) {
						bad = fmt.Sprintf("%s calls %s.%s with %s for %s", file, s, sel.Sel.Name, a, sig.Params().At(i).Type())
					}
				}
			}
			if bad != "" {
				return bad
			}
			for m := range want {
				if !called[m] {
					return file + " never calls " + s + "." + m
				}
			}
		}
	}
	return ""
}

func c16Cases(e *Env) (out []*c16Case) {
	add := func(name, pkg string, services []string, files ...map[string]string) *c16Case {
		c := &c16Case{name: name, pkg: pkg, services: services, files: map[string]string{}}
		for _, fs := range files {
			for f, t := range inDir(pkg, fs) {
				c.files[f] = t
			}
		}
		out = append(out, c)
		return c
	}
	local := func(pkg string) map[string]string {
		return map[string]string{"local.go": "package " + pkg + "\n" + c16Local}
	}

	// 1. every type as argument, unnamed and named result
	depth := 2
	if e.Thorough {
		depth = 3
	}
	ts := c16Types(depth)
	for from := 0; from < len(ts); from += 24 {
		to := min(from+24, len(ts))
		for kind := 0; kind < c16Kinds; kind++ {
			if kind == c16Spread && (from/24)%4 != 0 {
				continue
			}
			var ms []c16Method
			for i, t := range ts[from:to] {
				ms = append(ms, c16Method{name: fmt.Sprintf("Arg%d", i), args: []c16Param{{"v", t}}},
					c16Method{name: fmt.Sprintf("Ret%d", i), rets: []c16Param{{"", t}}},
					c16Method{name: fmt.Sprintf("Both%d", i), http: i%2 == 0, args: []c16Param{{"x", "string"}, {"v", t}}, rets: []c16Param{{"res", t}, {"err", "error"}}})
			}
			var files map[string]string
			if kind == c16Spread {
				files = map[string]string{}
				for f, c := range c16Source("svc", "\x00", kind, c16Service{"Service", ms}) {
					files[f] = c
				}
				for f, c := range files {
					im := c16Imports(c)
					c = strings.Replace(c, "\x00", im, 1)
					files[f] = strings.Replace(c, "import (\n)\n", "", 1)
				}
			} else {
				files = c16Source("svc", c16Imports(c16Uses(ms)), kind, c16Service{"Service", ms})
			}
			add(fmt.Sprintf("types %d-%d declared as %d", from, to-1, kind), "svc", []string{"Service"}, files, local("svc"))
		}
	}

	// 2. every shape of a method
	argShapes := [][]c16Param{nil, {{"a", "string"}}, {{"a", "string"}, {"b", "int"}}, {{"a, b", "string"}}, {{"a, b", "vo.Item"}, {"c", "[]time.Time"}}, {{"a", "int"}, {"b, c, d", "*vo.Item"}},
		{{"", "string"}}, {{"", "string"}, {"", "vo.Item"}}, {{"_", "string"}}, {{"_", "string"}, {"_", "int"}, {"x", "vo.Kind"}}, {{"_, _", "string"}}}
	retShapes := [][]c16Param{nil, {{"", "string"}}, {{"", "error"}}, {{"x", "vo.Item"}}, {{"", "string"}, {"", "error"}}, {{"x", "string"}, {"err", "error"}}, {{"x, y", "int"}}, {{"x, y", "[]vo.Item"}, {"z", "time.Duration"}},
		{{"", "int"}, {"", "int"}, {"", "*vo.Item"}}, {{"_", "int"}, {"err", "error"}}, {{"_", "int"}, {"_", "error"}}, {{"_, x", "int"}}, {{"", "*vo.Oops"}}, {{"oops", "*vo.Oops"}}}
	for kind := 0; kind < c16Kinds; kind++ {
		for hi := 0; hi < 2; hi++ {
			var all []c16Method
			for ai, a := range argShapes {
				for ri, r := range retShapes {
					if hi == 1 && len(a) > 0 && a[0].name == "" {
						continue // mixing named and unnamed is no Go
					}
					if len(a) == 3 && a[2].name == "x" && len(r) > 0 && strings.Contains(r[0].name, "x") {
						continue // twice the same name
					}
					all = append(all, c16Method{name: fmt.Sprintf("M%dx%d", ai, ri), http: hi == 1, args: a, rets: r})
				}
			}
			for from := 0; from < len(all); from += 20 {
				ms := all[from:min(from+20, len(all))]
				var files map[string]string
				if kind == c16Spread {
					files = c16Source("svc", "\x00", kind, c16Service{"Service", ms})
					for f, c := range files {
						c = strings.Replace(c, "\x00", c16Imports(c), 1)
						files[f] = strings.Replace(c, "import (\n)\n", "", 1)
					}
				} else {
					files = c16Source("svc", c16Imports(c16Uses(ms)), kind, c16Service{"Service", ms})
				}
				add(fmt.Sprintf("shapes %s-%s http %d declared as %d", ms[0].name, ms[len(ms)-1].name, hi, kind), "svc", []string{"Service"}, files)
			}
		}
	}

	// 3. names of arguments and results
	names := []string{"ctx", "tsc", "args", "reply", "clientErr", "req", "response", "request", "rpcCallRes", "rpcCallErr", "p", "w", "r", "rw", "rets", "err", "funcName", "callStats",
		"start", "executionStart", "clientAddr", "reqType", "funcNameParts", "service", "server", "client", "url", "endpoint", "addr", "tlsConfig", "proxy", "http", "time", "io", "gotsrpc", "fmt", "strings", "reflect", "gob", "tls",
		"gorpc", "go_context", "go_net_http", "pkg_errors", "context", "errors", "vo", "example_com_g_vo", "string", "error", "int", "byte", "len", "append", "new", "make", "any", "x1", "x_y", "_x", "ID", "ä", "über", "Über", "日本", "arg_", "arg_0", "ret", "ret_1", "class", "function", "in", "this"}
	for _, n := range names {
		rt := "string"
		ms := []c16Method{
			{name: "Arg", args: []c16Param{{n, "vo.Item"}, {"z", "int"}}, rets: []c16Param{{"", "string"}}},
			{name: "OnlyArg", args: []c16Param{{n, "string"}}},
			{name: "Res", args: []c16Param{{"z", "int"}}, rets: []c16Param{{n, "*vo.Item"}, {"e", "error"}}},
			{name: "OnlyRes", rets: []c16Param{{n, rt}}},
		}
		if n != "w" && n != "r" && n != "http" {
			ms = append(ms, c16Method{name: "Web", http: true, args: []c16Param{{n, "string"}}, rets: []c16Param{{"z", "vo.Kind"}}})
			ms = append(ms, c16Method{name: "WebRes", http: true, args: []c16Param{{"z", "string"}}, rets: []c16Param{{n, "vo.Kind"}}})
		}
		for kind := 0; kind < 2; kind++ {
			add(fmt.Sprintf("name %s declared as %d", n, kind), "svc", []string{"Service"}, c16Source("svc", c16Imports(c16Uses(ms)), kind, c16Service{"Service", ms}))
		}
	}
	for i, n := range names {
		m := names[(i+1)%len(names)]
		if n == "Über" || m == "Über" {
			continue
		}
		for kind := 0; kind < 2; kind++ {
			ms := []c16Method{{name: "Two", args: []c16Param{{n + ", " + m, "string"}}, rets: []c16Param{{n + "x", "error"}, {m + "x", "*vo.Item"}}},
				{name: "Four", args: []c16Param{{"k", "string"}}, rets: []c16Param{{n + ", " + m, "string"}}}}
			add(fmt.Sprintf("names %s and %s declared as %d", n, m, kind), "svc", []string{"Service"}, c16Source("svc", c16Imports(c16Uses(ms)), kind, c16Service{"Service", ms}))
		}
	}

	// 4. imports: which packages, under which names, where
	type im struct{ name, path, typ string }
	ims := []im{{"vo", "vo", "Item"}, {"vo", "other/vo", "Item"}, {"vo", "other/vo", "Kind"}, {"dashed", "dash-ed", "Item"}, {"dash_ed", "dash_ed", "Item"}, {"ed", "dash/ed", "Item"}, {"ted", "dot.ted", "Item"}, {"lib", "lib/v2", "Item"},
		{"conf", "gopkg.in/conf.v3", "Item"}, {"kit", "go-kit", "Item"}, {"v1", "api/v1", "Item"}, {"v1", "core/v1", "Item"}, {"sub", "svc/sub", "Item"}, {"svcx", "svcx", "Item"}, {"sv", "sv", "Item"}, {"svc", "other/svc", "Item"},
		{"time", "time", "Time"}, {"http", "http", "Request"}, {"http", "http", "ResponseWriter"}, {"io", "io", "Reader"}, {"gotsrpc", "gotsrpc", "Error"}}
	places := []string{"%s", "*%s", "[]%s", "map[string]%s", "map[string][]*%s", "[][]%s"}
	for i, a := range ims {
		for _, alias := range []string{"", "x", "vo", "time", "http", "gotsrpc", "strings"} {
			if alias == "" && (a.path == "dash-ed" || a.path == "dot.ted") {
				alias = a.name // the path does not tell the name of the package
			}
			name := alias
			line := "\t" + alias + " \"" + c16Mod + "/" + a.path + "\"\n"
			if alias == "" {
				name = a.name
				line = "\t\"" + c16Mod + "/" + a.path + "\"\n"
			}
			for kind := 0; kind < 2; kind++ {
				var ms []c16Method
				for j, pl := range places {
					t := fmt.Sprintf(pl, name+"."+a.typ)
					ms = append(ms, c16Method{name: fmt.Sprintf("A%d", j), args: []c16Param{{"v", t}}}, c16Method{name: fmt.Sprintf("R%d", j), rets: []c16Param{{"", t}}})
				}
				for _, only := range []string{"arg", "ret", "both"} {
					var some []c16Method
					for _, m := range ms {
						if only == "both" || only == "arg" == (m.name[0] == 'A') {
							some = append(some, m)
						}
					}
					add(fmt.Sprintf("import %s.%s as %q in %s declared as %d", a.path, a.typ, alias, only, kind), "svc", []string{"Service"}, c16Source("svc", line, kind, c16Service{"Service", some}))
				}
			}
		}
		// two packages, in one file and in two with the names swapped
		for _, b := range ims[i+1:] {
			if a.path == b.path {
				continue
			}
			la := func(n string, x im) string { return "\t" + n + " \"" + c16Mod + "/" + x.path + "\"\n" }
			m := func(n string, x, y string) c16Method {
				return c16Method{name: n, args: []c16Param{{"a", x}, {"b", "map[string]" + y}}, rets: []c16Param{{"c", "[]" + y}, {"d", "*" + x}}}
			}
			one := c16Source("svc", la("p1", a)+la("p2", b), c16Struct, c16Service{"Service", []c16Method{m("One", "p1."+a.typ, "p2."+b.typ)}})
			two := map[string]string{"two.go": "package svc\n\nimport (\n" + la("p2", a) + la("p1", b) + ")\n\nfunc (s *Service) Two" + m("", "p2."+a.typ, "p1."+b.typ).signature() + " { panic(0) }\n"}
			add(fmt.Sprintf("imports %s.%s and %s.%s", a.path, a.typ, b.path, b.typ), "svc", []string{"Service"}, one, two)
		}
		// the package by the name it has, which another one is given in another file
		if a.path != "dash-ed" && a.path != "dot.ted" {
			for _, b := range ims {
				if a.path == b.path {
					continue
				}
				m := func(n string, t string) c16Method {
					return c16Method{name: n, args: []c16Param{{"a", t}}, rets: []c16Param{{"c", "[]" + t}}}
				}
				for swap, fs := range [][2]string{{"a.go", "z.go"}, {"z.go", "a.go"}} {
					src := func(file, n, as string, x im) map[string]string {
						return map[string]string{file: "package svc\n\nimport " + as + " \"" + c16Mod + "/" + x.path + "\"\n\nfunc (s *Service) " + n + m("", a.name+"."+x.typ).signature() + " { panic(0) }\n"}
					}
					add(fmt.Sprintf("import of %s.%s and %s.%s by the same name, %d", a.path, a.typ, b.path, b.typ, swap), "svc", []string{"Service"},
						map[string]string{"svc.go": "package svc\n\ntype Service struct{}\n"}, src(fs[0], "One", "", a), src(fs[1], "Two", a.name, b))
				}
			}
		}
	}
	// the types of http are arguments as well when they are not the first two, packages named like those the generated code imports
	for _, pn := range []string{"time", "http", "io", "gotsrpc", "strings", "reflect", "gob", "tls", "fmt", "gorpc", "context", "errors", "vo", "main2", "svc_x"} {
		ms := []c16Method{{name: "A", args: []c16Param{{"t", "time.Time"}, {"i", "vo.Item"}, {"l", "Local"}}, rets: []c16Param{{"", "map[vo.Kind]time.Duration"}, {"", "Local"}}}, {name: "B", http: true, rets: []c16Param{{"e", "error"}}}}
		for kind := 0; kind < 2; kind++ {
			add(fmt.Sprintf("package %s declared as %d", pn, kind), "named/"+pn, []string{"Service"}, c16Source(pn, c16Imports(c16Uses(ms)), kind, c16Service{"Service", ms}), local(pn))
		}
	}

	// 5. several services in a package
	for kinds := 0; kinds < c16Kinds*c16Kinds; kinds++ {
		a := []c16Method{{name: "Get", args: []c16Param{{"id", "string"}}, rets: []c16Param{{"i", "vo.Item"}, {"err", "error"}}}, {name: "Set", args: []c16Param{{"i", "*vo.Item"}}}}
		b := []c16Method{{name: "Get", args: []c16Param{{"n", "int"}}, rets: []c16Param{{"", "[]Local"}}}, {name: "Other", http: true, rets: []c16Param{{"x", "vo.Index"}}}}
		src := func(kind int, s c16Service) map[string]string {
			fs := c16Source("svc", "\x00", kind, s)
			for f, c := range fs {
				c = strings.Replace(c, "\x00", c16Imports(c), 1)
				fs[f] = strings.Replace(c, "import (\n)\n", "", 1)
			}
			return fs
		}
		for _, nm := range [][2]string{{"First", "Second"}, {"Service", "ServiceTwo"}, {"Two", "OneTwo"}, {"first", "Second"}, {"service", "Service"}} {
			add(fmt.Sprintf("services %s as %d, %s as %d", nm[0], kinds/c16Kinds, nm[1], kinds%c16Kinds), "svc", nm[:], src(kinds/c16Kinds, c16Service{nm[0], a}), src(kinds%c16Kinds, c16Service{nm[1], b}), local("svc"))
			if nm[0] == "service" {
				// gorpc has one name space for the messages of all services
				out[len(out)-1].only = "tsrpc"
			}
		}
	}
	// what is declared beside the methods of a service
	more := map[string]string{"more.go": `package svc

import (
	"fmt"
	"net/http"
)

type Mixed interface {
	Do(x int) string
	hidden(y int)
	Web(w http.ResponseWriter, r *http.Request)
}

type (
	Grouped interface {
		A()
		B() (x, y int)
	}
	Impl struct{}
)

func (i *Impl) A() {}

func (*Impl) B(string) (x, y int) { return }

func (_ *Impl) C(_ int, _ string) {}

type impl2 struct{}

func (i *impl2) D() {}

type Embedding interface {
	Grouped
	fmt.Stringer
	Own(m map[string]int) (s string, err error)
	interface{ X() }
}

type EmbeddingNone interface {
	Own()
}

type Embedded struct {
	Impl
	*impl2
	Mixed
}

func (e *Embedded) Own(a, b string) []byte { return nil }

type EmbeddingOnly interface {
	Embedding
}

func A() {}
`}
	add("beside: grouped interface", "svc", []string{"Grouped"}, more)
	add("beside: embedding interface", "svc", []string{"Embedding"}, more)
	add("beside: embedding and plain interface", "svc", []string{"Embedding", "EmbeddingNone"}, more)
	add("beside: interface that embeds only", "svc", []string{"EmbeddingOnly"}, more)
	add("beside: embedding struct", "svc", []string{"Embedded"}, more)
	add("beside: struct", "svc", []string{"Impl"}, more)
	add("beside: interface with an unexported method", "svc", []string{"Mixed"}, more)
	return
}

func runC16(e *Env) *Result {
	e.buildGen()
	model := newGoModel()
	x := newExplorer(e, 8)
	root := filepath.Join(e.Dir, "c16")
	var n atomic.Int64
	cases := c16Cases(e)
	for _, c := range cases {
		x.add(func() {
			files := mergeTrees(mergeTrees(c16VO, c.files), map[string]string{"go.mod": "module " + c16Mod + "\n\ngo 1.23.0\n", "gotsrpc.yml": c.config()})
			// the case must be Go
			before := model.load(files, c16Mod)
			if errs := before.all(); len(errs) > 0 {
				panic("case " + c.name + ": " + errs[0])
			}
			dir := filepath.Join(root, fmt.Sprint(n.Add(1)))
			if os.Getenv("VMC_KEEP") == "" {
				defer os.RemoveAll(dir)
			}
			writeTree(dir, files)
			r := e.gen(dir, "gotsrpc.yml")
			tree := c21Snapshot(dir)
			x.state(c.name, 1)
			x.note("methods", strings.Count(tree[c.pkg+"/gotsrpcclient_gen.go"], "func (tsc *"))
			replay := map[string]any{"files": c.files, "config": files["gotsrpc.yml"]}
			if r.Code != 0 {
				x.fail("generate", fmt.Sprintf("%s: the generator fails with %d: %s", c.name, r.Code, tail(r.Out, 500)), replay)
				return
			}
			after := model.load(tree, c16Mod)
			after.record = true
			if errs := after.all(); len(errs) > 0 {
				x.fail("compile", fmt.Sprintf("%s: %s", c.name, strings.Join(errs[:min(len(errs), 3)], "; ")), replay)
				return
			}
			if s := c16CheckClient(after, c16Mod+"/"+c.pkg, c, tree); s != "" {
				x.fail("methods", c.name+": "+s, replay)
			}
		})
	}
	x.wait()
	return x.finish()
}
