package main

import (
	"bufio"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

func init() {
	register(&Check{ID: "C17", Level: "model_checking", Assumptions: []string{
		"a constant type has only its declared constants as values, a union has exactly one member set",
		"documents for the server: numbers are in the range of the Go type, strings for bytes are base64; unions are sent to clients only",
		"types read by the TypeScript compiler (strict); members of a document that its type does not declare count as errors",
	}, Run: runC17})
}

// the types every group declares, in each place, # is the place's prefix
const c17Pool = `
type #S struct {
	A string
	B int      ` + "`json:\"b,omitempty\"`" + `
	C []string ` + "`json:\"c\"`" + `
}

type #T struct {
	X #K
	Y *#S
	Z map[string]#S
}

type #K string

const (
	#KOne #K = "one"
	#KTwo #K = "two"
)

type #L int

const (
	#LOne #L = 1
	#LFive #L = 5
)

type #Str string

type #Num int64

type #Flo float32

type #Flag bool

type #Lst []string

type #SLst []#S

type #PLst []*#S

type #KLst []#K

type #Mp map[string]int

type #SMp map[string]#S

type #PMp map[string]*#S

type #NMp map[int]string

type #SKMp map[#Str]#Num

type #Bytes []byte

type #Any interface{}

type #Node struct {
	N *#Node           ` + "`json:\"n,omitempty\"`" + `
	L []#Node          ` + "`json:\"l\"`" + `
	M map[string]#Node
}

type #KMp map[#K]#S

type #Empty struct{}

type #US struct {
	A *#K  ` + "`json:\"a,omitempty\" gotsrpc:\"union\"`" + `
	B *#K3 ` + "`json:\"b,omitempty\" gotsrpc:\"union\"`" + `
}

type #K3 string

const (
	#K3Three #K3 = "three"
	#K3Four #K3 = "four"
)

type #U struct {
	A *#UA ` + "`json:\"a,omitempty\" gotsrpc:\"union\"`" + `
	B *#UB ` + "`json:\"b,omitempty\" gotsrpc:\"union\"`" + `
}

type #UA struct {
	Kind string ` + "`json:\"kind\" gotsrpc:\"type:'a'\"`" + `
	V    []int
}

type #UB struct {
	Kind string ` + "`json:\"kind\" gotsrpc:\"type:'b'\"`" + `
	W    *#S
}
`

var c17Named = []string{"S", "T", "K", "L", "Str", "Num", "Flo", "Flag", "Lst", "SLst", "PLst", "KLst", "Mp", "SMp", "PMp", "NMp", "SKMp", "Bytes", "Any", "Node", "KMp", "Empty", "U", "US"}

var c17Builtin = []string{
	"string", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "byte",
	"any", "interface{}", "[]byte", "time.Time",
}

// constructors of types over another, @
var c17Cons = []string{
	"*@", "[]@", "[]*@", "map[string]@", "map[string]*@", "[][]@", "map[string][]@", "[]map[string]@", "map[string]map[string]@",
	"struct {\n\t\tF @\n\t}", "[]struct {\n\t\tF @ `json:\"f,omitempty\"`\n\t}", "map[string]struct {\n\t\tF @ `json:\"f\"`\n\t}", "*struct {\n\t\tF @\n\t}",
	"map[int]@", "*[]@", "*map[string]@",
}

type c17Case struct {
	name  string // of the method
	typ   string // of the argument and result, as in the service's package
	decls [4]string
	desc  string
	// constants that are declared, as in place
	consts []string
	place  int
	echo   bool
	known  string // all failures are of this kind
}

// c17Places are the places types are declared at: prefix and file.
var c17Places = []struct{ prefix, pkg, file string }{
	{"A", "", "svc.go"}, {"B", "", "other.go"}, {"C", "vo", "vo/vo.go"}, {"D", "vo", "vo/other.go"},
}

// c17Atoms are the types that can be named at a place.
func c17Atoms(place int) (out []string) {
	out = append(out, c17Builtin...)
	for i, p := range c17Places {
		q := p.prefix
		switch {
		case place < 2 && i == 2:
			q = "vo.C"
		case place < 2 && i == 3, place >= 2 && i < 2:
			continue
		}
		for _, n := range c17Named {
			out = append(out, q+n)
		}
	}
	return
}

func c17Ident(t string) bool { return !strings.ContainsAny(t, "[{* ") }

func c17Union(t string) bool {
	for _, p := range []string{"AU", "BU", "CU", "DU", "AUS", "BUS", "CUS", "DUS"} {
		if i := strings.Index(t, p); i >= 0 && (len(t) == i+len(p) || strings.ContainsRune(" \n]}", rune(t[i+len(p)]))) {
			return true
		}
	}
	return false
}

func c17Cases(e *Env) (out []*c17Case) {
	add := func(c *c17Case) {
		c.name = fmt.Sprintf("E%d", len(out))
		c.desc = strings.Join(strings.Fields(c.desc), " ")
		c.echo = !c17Union(c.desc)
		out = append(out, c)
	}
	exprs := func(place int) (all []string) {
		for _, a := range c17Atoms(place) {
			all = append(all, a)
			for _, c := range c17Cons {
				if a == "any" && strings.Contains(c, "*@") || a == "interface{}" && strings.Contains(c, "*@") || strings.HasSuffix(a, "Any") && strings.Contains(c, "*@") {
					continue
				}
				all = append(all, strings.ReplaceAll(c, "@", a))
			}
		}
		if e.Thorough {
			// two constructors over some
			for _, a := range []string{"string", "float64", "[]byte", "any", c17Places[place].prefix + "S", c17Places[place].prefix + "K", c17Places[place].prefix + "Lst", c17Places[place].prefix + "SMp", c17Places[place].prefix + "Node"} {
				for _, c := range c17Cons {
					for _, d := range c17Cons {
						if d[0] == '*' && strings.Contains(c, "*@") || a == "any" && strings.Contains(d, "*@") {
							continue
						}
						all = append(all, strings.ReplaceAll(c, "@", strings.ReplaceAll(d, "@", a)))
					}
				}
			}
		}
		return
	}
	// 1. arguments and results
	for _, t := range exprs(0) {
		if strings.Contains(t, "struct {") {
			continue
		}
		add(&c17Case{typ: t, desc: t})
	}
	// 2. fields
	for place, p := range c17Places {
		for _, t := range exprs(place) {
			n := fmt.Sprintf("%sX%d", p.prefix, len(out))
			c := &c17Case{typ: n, desc: fmt.Sprintf("fields %s in %s", t, p.file)}
			if p.pkg != "" {
				c.typ = p.pkg + "." + n
			}
			c.decls[place] = fmt.Sprintf("type %s struct {\n\tA %s\n\tB, B2 %s `json:\"b\"`\n\tC %s `json:\"c,omitempty\"`\n\tD %s `json:\",omitempty\"`\n\tE %s `json:\"-\"`\n\thidden %s\n}\n", n, t, t, t, t, t, t)
			c.decls[place] = strings.Replace(c.decls[place], "B, B2", "B", 1)
			add(c)
		}
	}
	// 3. named types over each
	for place, p := range c17Places {
		for _, t := range exprs(place) {
			if t[0] == '*' || c17Ident(t) && t != "any" && strings.ContainsAny(t, "ABCDT") {
				continue
			}
			n := fmt.Sprintf("%sN%d", p.prefix, len(out))
			c := &c17Case{typ: n, desc: fmt.Sprintf("type %s in %s", t, p.file)}
			if p.pkg != "" {
				c.typ = p.pkg + "." + n
			}
			c.decls[place] = fmt.Sprintf("type %s %s\n", n, t)
			add(c)
		}
	}
	// 4. embedded structs, tags, constants
	for place, p := range c17Places {
		decl := func(desc, decl string, consts ...string) {
			n := fmt.Sprintf("%sZ%d", p.prefix, len(out))
			c := &c17Case{typ: n, desc: desc + " in " + p.file, consts: consts, place: place}
			if p.pkg != "" {
				c.typ = p.pkg + "." + n
			}
			for i := range c.consts {
				c.consts[i] = strings.ReplaceAll(c.consts[i], "@", n)
			}
			c.decls[place] = strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(decl, "@", n), "'", "`"), "#", p.prefix) + "\n"
			if strings.Contains(desc, "embedded") && !strings.Contains(decl, "'") {
				c.known = "@untagged-embedded"
			}
			c.decls[place] = strings.NewReplacer("+x+", "'x'", "^", "'").Replace(c.decls[place])
			add(c)
		}
		others := []string{"AS", "BS", "vo.CS", "BT", "ANode", "vo.CEmpty"}
		if place >= 2 {
			others = []string{"CS", "DS", "CT", "DNode", "DEmpty"}
		}
		for _, o := range others {
			for _, ptr := range []string{"", "*"} {
				for _, tag := range []string{"", "'json:\",inline\"'", "'json:\",inline,omitempty\"'", "'json:\"emb\"'", "'json:\"emb,omitempty\"'", "'json:\",omitempty\"'", "'json:\"-\"'", "'xml:\"e\"'"} {
					e := ptr + o + " " + tag
					decl("embedded "+e, "type @ struct {\n\t"+e+"\n}")
					decl("embedded with members "+e, "type @ struct {\n\tQ int\n\t"+e+"\n\tR []string\n}")
					decl("embedded in a member "+e, "type @ struct {\n\tQ *struct {\n\t\t"+e+"\n\t\tR int\n\t}\n}")
				}
			}
		}
		for _, tags := range []string{"", "json:\",inline\""} {
			q := ""
			if tags != "" {
				q = "'" + tags + "'"
			}
			decl("two embedded "+tags, "type @ struct {\n\t#S "+q+"\n\t#UA "+q+"\n\tX #Num\n}")
			decl("embedded and pointer "+tags, "type @ struct {\n\t#S "+q+"\n\t*#UA "+q+"\n\tX #Num\n}")
			decl("embedded twice deep "+tags, "type @ struct {\n\t@b "+q+"\n\tX int\n}\n\ntype @b struct {\n\t*@c "+q+"\n\tY int\n}\n\ntype @c struct {\n\tW #K\n\tV *string\n}")
			decl("embedded shadowed "+tags, "type @ struct {\n\t#S "+q+"\n\tA string\n}")
		}
		for _, f := range []string{
			"A, B int", "A, B []#S 'xml:\"q\"'", "A int 'json:\"a_b\"'", "A int 'json:\"a-b\"'", "A int 'json:\"a.b\"'", "A *int 'json:\"1a,omitempty\"'", "A int 'json:\"class\"'", "A int 'json:\"ä\"'", "A int 'json:\"$id\"'", "A []int 'json:\"@id\"'",
			"Ä int", "A int 'json:\"-,\"'", "A int 'bson:\"x\" json:\"y\"'", "A int 'json:\"y\" bson:\"x\"'", "A int 'xml:\"x\"'", "A string 'gotsrpc:\"type:+x+\"'", "A int\n\tb int\n\t_ int", "A_b int", "A struct{} 'json:\"a\"'", "A struct {\n\t\tB struct {\n\t\t\tC []struct {\n\t\t\t\tD #K\n\t\t\t}\n\t\t}\n\t}",
			"A map[#Str][]*#S", "A map[uint8]#S", "A map[int64]map[#Num]bool", "A [][][]int", "A map[string][]map[string]*#S", "A []*[]string", "A []struct {\n\t\tA, B #S\n\t\tC *#Lst 'json:\"c\"'\n\t}", "A *#Node 'json:\"a\"'\n\tB #U 'json:\"b\"'", "A #U 'json:\"a,omitempty\"'\n\tB *#U 'json:\"b,omitempty\"'\n\tC []#U",
		} {
			decl("member "+strings.ReplaceAll(strings.ReplaceAll(f, "'", ""), "#", p.prefix), "type @ struct {\n\t"+f+"\n}")
		}
		for _, c := range []struct {
			desc, decl string
			consts     []string
		}{
			{"names that begin like the type", "type @ string\n\nconst (\n\t@One @ = \"1\"\n\t@Two @ = \"2\"\n)", []string{"@One", "@Two"}},
			{"names that begin otherwise", "type @ string\n\nconst (\n\tOne@ @ = \"1\"\n\tTwo@ @ = \"2\"\n)", []string{"One@", "Two@"}},
			{"numbered names", "type @ string\n\nconst (\n\t@1 @ = \"1\"\n\t@2 @ = \"2\"\n)", []string{"@1", "@2"}},
			{"names with underscores", "type @ int\n\nconst (\n\t@_A @ = 1\n\t@_B_C @ = 2\n)", []string{"@_A", "@_B_C"}},
			{"one per declaration", "type @ int\n\nconst @A @ = 1\n\nconst @B @ = 2", []string{"@A", "@B"}},
			{"several in a line", "type @ int\n\nconst @A, @B @ = 1, 2", []string{"@A", "@B"}},
			{"a single one", "type @ string\n\nconst @A @ = \"x\"", []string{"@A"}},
			{"floats", "type @ float64\n\nconst (\n\t@A @ = 1.5\n\t@B @ = 2e3\n)", []string{"@A", "@B"}},
			{"other bases", "type @ uint16\n\nconst (\n\t@A @ = 0x1F\n\t@B @ = 0b11\n\t@C @ = 0o17\n\t@D @ = 1_000\n)", []string{"@A", "@B", "@C", "@D"}},
			{"octals", "type @ uint16\n\nconst (\n\t@A @ = 017\n\t@B @ = 1\n)", []string{"@A", "@B"}},
			{"characters", "type @ int32\n\nconst (\n\t@A @ = ^x^\n\t@B @ = ^\\n^\n)", []string{"@A", "@B"}},
			{"raw strings", "type @ string\n\nconst (\n\t@A @ = 'a\"b'\n\t@B @ = 'c\\d'\n)", []string{"@A", "@B"}},
			{"escapes", "type @ string\n\nconst (\n\t@A @ = \"a\\\"b\\n\"\n\t@B @ = \"\\u00e4ö\"\n\t@C @ = \"\\a\\x41\\101\\U0001F600\"\n\t@D @ = \"${x} ^\"\n)", []string{"@A", "@B", "@C", "@D"}},
			{"beginning alike", "type @ string\n\nconst (\n\t@A @ = \"1\"\n\t@AA @ = \"2\"\n\tA@ @ = \"3\"\n)", []string{"@A", "@AA", "A@"}},
			{"named like one another without the type", "type @ string\n\nconst (\n\t@Q@ @ = \"1\"\n\tQ@ @ = \"2\"\n)", []string{"@Q@", "Q@"}},
			{"before the type", "const @A @ = \"x\"\n\ntype @ string", []string{"@A"}},
			{"zero and others", "type @ int8\n\nconst (\n\t@No @ = 0\n\t@Yes @ = 1\n)", []string{"@No", "@Yes"}},
			{"negative", "type @ int\n\nconst (\n\t@A @ = -1\n\t@B @ = 1\n)", []string{"@A", "@B"}},
			{"counted", "type @ int\n\nconst (\n\t@A @ = iota\n\t@B\n)", []string{"@A", "@B"}},
			{"computed", "type @ int\n\nconst (\n\t@A @ = 1 << 2\n\t@B @ = 1 + 2\n)", []string{"@A", "@B"}},
			{"converted", "type @ string\n\nconst (\n\t@A = @(\"a\")\n\t@B = @(\"b\")\n)", []string{"@A", "@B"}},
			{"empty string", "type @ string\n\nconst (\n\t@No @ = \"\"\n\t@Yes @ = \"y\"\n)", []string{"@No", "@Yes"}},
			{"within a struct", "type @ struct {\n\tK @k\n\tL []@k\n\tM *@k 'json:\"m,omitempty\"'\n\tN map[string]@k\n}\n\ntype @k string\n\nconst (\n\t@kA @k = \"a\"\n\t@kB @k = \"b\"\n)", []string{"@kA", "@kB"}},
			{"untyped ones about", "type @ string\n\nconst (\n\t@A @ = \"x\"\n\t@B = \"y\"\n\t@C = 3\n\t@D @ = \"z\"\n)", []string{"@A", "@D"}},
			{"variables about", "type @ int\n\nconst @A @ = 1\n\nvar @B @ = 2", []string{"@A"}},
			{"booleans", "type @ bool\n\nconst @A @ = true", nil},
			{"bytes", "type @ byte\n\nconst (\n\t@A @ = 65\n\t@B @ = 66\n)", []string{"@A", "@B"}},
			{"lower case", "type @ string\n\nconst (\n\tx@A @ = \"a\"\n\tX@B @ = \"b\"\n)", []string{"X@B"}},
		} {
			decl("constants: "+c.desc, c.decl, append([]string(nil), c.consts...)...)
		}
	}
	return
}

const c17PerGroup = 50

type c17Group struct {
	name  string
	cases []*c17Case
	alone *c17Alone
}

// c17Alone is a type that is used in one way only, by a service of its own, and each of its packages declares nothing else.
type c17Alone struct {
	target  string // kind of type: key of c17AloneKinds
	form    string // of the type over it, @
	carrier string // where the type over it is declared: "" (there is none), own, vo
	in      string // package of the target
	also    string // kind of another type of the same name, or "" (there is none)
	alsoIn  string // package of that one
}

var c17AloneKinds = map[string]struct {
	decl   string
	consts []string
	key    bool
}{
	"text constants":   {"type K string\n\nconst (\n\tKA K = \"a\"\n\tKB K = \"b\"\n)\n", []string{"KA", "KB"}, true},
	"number constants": {"type K int\n\nconst (\n\tKA K = 1\n\tKB K = 2\n)\n", []string{"KA", "KB"}, true},
	"text":             {"type K string\n", nil, true},
	"struct":           {"type K struct {\n\tA int\n}\n", nil, false},
	"slice":            {"type K []string\n", nil, false},
	"map":              {"type K map[string]bool\n", nil, false},
	"struct of others": {"type K struct {\n\tA L\n\tB map[N]*M\n}\n\ntype L string\n\nconst LA L = \"a\"\n\ntype M struct {\n\tQ int\n}\n\ntype N string\n", []string{"LA"}, false},
	"slice of others":  {"type K []L\n\ntype L struct {\n\tA *M\n}\n\ntype M int\n\nconst MA M = 3\n", []string{"MA"}, false},
	"map of others":    {"type K map[N]L\n\ntype N string\n\nconst NA N = \"n\"\n\ntype L []M\n\ntype M string\n\nconst MA M = \"m\"\n", []string{"NA", "MA"}, false},
}

func (a c17Alone) String() string {
	if a.also != "" {
		return fmt.Sprintf("%s used as %s by a type in %q, in package %q, and %s of the same name in package %q", a.target, a.form, a.carrier, a.in, a.also, a.alsoIn)
	}
	return fmt.Sprintf("%s used as %s by a type in %q, alone in package %q", a.target, a.form, a.carrier, a.in)
}

func c17AloneCases() (out []*c17Alone) {
	forms := []string{"@", "*@", "[]@", "map[string]@", "[]*@", "map[string]map[string]@", "[][]@", "map[@]string", "map[@]int", "map[string]map[@]string", "[]map[@]bool"}
	var kinds []string
	for k := range c17AloneKinds {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	for _, k := range kinds {
		for _, f := range forms {
			if strings.Contains(f, "map[@]") && !c17AloneKinds[k].key {
				continue
			}
			for _, in := range []string{"own", "k"} {
				out = append(out, &c17Alone{target: k, form: f, in: in})
			}
			for _, carrier := range []string{"own", "vo"} {
				for _, in := range []string{carrier, "k"} {
					for _, d := range []string{"struct {\n\tF @ 'json:\"f,omitempty\"'\n}", "struct {\n\tF *struct {\n\t\tG []struct {\n\t\t\tH @\n\t\t}\n\t}\n}", "[]struct {\n\tF @\n}", "@"} {
						if d == "@" && (f == "@" || f == "*@") {
							continue
						}
						out = append(out, &c17Alone{target: k, form: strings.ReplaceAll(d, "@", f), carrier: carrier, in: in})
					}
				}
			}
		}
		if strings.HasPrefix(k, "struct") {
			for _, p := range []string{"", "*"} {
				for _, t := range []string{"json:\",inline\"", "json:\"e\""} {
					for _, in := range []string{"own", "vo", "k"} {
						c := in
						if in == "k" {
							c = "vo"
						}
						out = append(out, &c17Alone{target: k, form: "struct {\n\t" + p + "@ '" + t + "'\n\tZ bool\n}", carrier: c, in: in})
					}
				}
			}
		}
		for _, also := range kinds {
			for _, p := range [][2]string{{"own", "vo"}, {"vo", "own"}, {"vo", "k"}, {"k", "vo"}, {"own", "k"}, {"k", "own"}} {
				carrier := "vo"
				if p[0] == "own" {
					carrier = "own"
				}
				out = append(out,
					&c17Alone{target: k, form: "@", in: p[0], also: also, alsoIn: p[1]},
					&c17Alone{target: k, form: "struct {\n\tF []@\n}", carrier: carrier, in: p[0], also: also, alsoIn: p[1]},
				)
			}
		}
	}
	return
}

func (a *c17Alone) files(g string, files map[string]string) (main, target, mapping string) {
	base := "example.com/vh/gen/" + g
	pkgOf := map[string]string{"own": g, "vo": g + "/vo", "k": g + "/k"}
	srcs := map[string]string{}
	put := func(place, decl string) { srcs[place] += "\n" + decl }
	put(a.in, c17AloneKinds[a.target].decl)
	name := func(n, in, from string) string {
		if in == from {
			return n
		}
		return in + "." + n
	}
	typ := ""
	form := strings.ReplaceAll(a.form, "'", "`")
	if a.carrier == "" {
		typ = strings.ReplaceAll(form, "@", name("K", a.in, "own"))
	} else {
		put(a.carrier, "type C "+strings.ReplaceAll(form, "@", name("K", a.in, a.carrier))+"\n")
		typ = name("C", a.carrier, "own")
	}
	svc, impl := fmt.Sprintf("\tE(v %s) %s\n", typ, typ), fmt.Sprintf("func (*Impl) E(v %s) %s { return tstypes.Echo(v) }\n", typ, typ)
	if a.also != "" {
		put(a.alsoIn, c17AloneKinds[a.also].decl)
		typ = name("K", a.alsoIn, "own")
		svc += fmt.Sprintf("\tF(v %s) %s\n", typ, typ)
		impl += fmt.Sprintf("\nfunc (*Impl) F(v %s) %s { return tstypes.Echo(v) }\n", typ, typ)
	}
	put("own", "type Svc interface {\n"+svc+"}\n\ntype Impl struct{}\n\n"+impl)
	for place, body := range srcs {
		imports := ""
		for _, i := range [][2]string{{"tstypes.", "example.com/vh/tstypes"}, {"vo.", base + "/vo"}, {"k.", base + "/k"}} {
			if strings.Contains(body, i[0]) {
				imports += fmt.Sprintf("\t%q\n", i[1])
			}
		}
		if imports != "" {
			imports = "\nimport (\n" + imports + ")\n"
		}
		files["gen/"+pkgOf[place]+"/x.go"] = "package " + filepath.Base(pkgOf[place]) + "\n" + imports + body
	}
	target = fmt.Sprintf("  %s:\n    package: %s\n    out: ./ts/%s/client.ts\n    skipTSRPCClient: true\n    services:\n      /%s: Svc\n    tsrpc:\n      - Svc\n", g, base, g, g)
	mapping = fmt.Sprintf("mappings:\n  %s:\n    out: ./ts/%s/own.ts\n  %s/vo:\n    out: ./ts/%s/vo.ts\n  %s/k:\n    out: ./ts/%s/k.ts\n", base, g, base, g, base, g)
	main = fmt.Sprintf("\ttstypes.Group(%q, %q, %s.NewDefaultSvcGoTSRPCProxy(&%s.Impl{}), &%s.Impl{})\n", g, "/"+g, g, g, g)
	for _, t := range [][2]string{{a.target, a.in}, {a.also, a.alsoIn}} {
		cs := c17AloneKinds[t[0]].consts
		if len(cs) == 0 {
			continue
		}
		alias := g
		if t[1] != "own" {
			alias += t[1]
		}
		main += "\ttstypes.Constants(" + alias + "." + strings.Join(cs, ", "+alias+".") + ")\n"
	}
	return
}

func (g c17Group) files(files map[string]string) (main, target, mapping string) {
	if g.alone != nil {
		return g.alone.files(g.name, files)
	}
	dir := "gen/" + g.name + "/"
	body := map[string]*strings.Builder{}
	for i, p := range c17Places {
		b := &strings.Builder{}
		body[p.file] = b
		b.WriteString(strings.ReplaceAll(c17Pool, "#", p.prefix))
		for _, c := range g.cases {
			if c.decls[i] != "" {
				b.WriteString("\n" + c.decls[i])
			}
		}
	}
	svc := body["svc.go"]
	svc.WriteString("\ntype Svc interface {\n")
	for _, c := range g.cases {
		fmt.Fprintf(svc, "\t%s(v %s) %s\n", c.name, c.typ, c.typ)
	}
	svc.WriteString("}\n")
	impl := &strings.Builder{}
	impl.WriteString("\ntype Impl struct{}\n\n")
	for _, c := range g.cases {
		fmt.Fprintf(impl, "func (*Impl) %s(v %s) %s { return tstypes.Echo(v) }\n\n", c.name, c.typ, c.typ)
	}
	body["impl.go"] = impl
	for f, b := range body {
		pkg := g.name
		var imports string
		if strings.HasPrefix(f, "vo/") {
			pkg = "vo"
		}
		for _, i := range [][2]string{{"time.Time", "time"}, {"tstypes.", "example.com/vh/tstypes"}, {"vo.", "example.com/vh/gen/" + g.name + "/vo"}} {
			if strings.Contains(b.String(), i[0]) {
				imports += fmt.Sprintf("\t%q\n", i[1])
			}
		}
		files[dir+f] = "package " + pkg + "\n\nimport (\n" + imports + ")\n" + b.String()
	}
	target = fmt.Sprintf("  %s:\n    package: example.com/vh/gen/%s\n    out: ./ts/%s/client.ts\n    skipTSRPCClient: true\n    services:\n      /%s: Svc\n    tsrpc:\n      - Svc\n", g.name, g.name, g.name, g.name)
	mapping = fmt.Sprintf("mappings:\n  example.com/vh/gen/%s:\n    out: ./ts/%s/own.ts\n  example.com/vh/gen/%s/vo:\n    out: ./ts/%s/vo.ts\n  time:\n    out: ./ts/%s/time.ts\n", g.name, g.name, g.name, g.name, g.name)
	main = fmt.Sprintf("\ttstypes.Group(%q, %q, %s.NewDefaultSvcGoTSRPCProxy(&%s.Impl{}), &%s.Impl{})\n\ttstypes.Constants(", g.name, "/"+g.name, g.name, g.name, g.name)
	for _, p := range c17Places {
		pkg := g.name
		if p.pkg != "" {
			pkg += p.pkg
		}
		for _, k := range []string{"KOne", "KTwo", "LOne", "LFive", "K3Three", "K3Four"} {
			main += pkg + "." + p.prefix + k + ", "
		}
	}
	for _, c := range g.cases {
		pkg := g.name + c17Places[c.place].pkg
		for _, k := range c.consts {
			main += pkg + "." + k + ", "
		}
	}
	main += ")\n"
	return
}

func runC17(e *Env) *Result {
	e.buildGen()
	e.module("tstypes")
	cases := c17Cases(e)
	if f := os.Getenv("VMC_ONLY"); f != "" {
		var some []*c17Case
		for _, c := range cases {
			if strings.Contains(c.desc, f) {
				some = append(some, c)
			}
		}
		cases = some
	}
	var groups []c17Group
	for from := 0; from < len(cases); from += c17PerGroup {
		groups = append(groups, c17Group{fmt.Sprintf("g%d", len(groups)), cases[from:min(from+c17PerGroup, len(cases))], nil})
	}
	for i, a := range c17AloneCases() {
		if f := os.Getenv("VMC_ONLY"); f != "" && !strings.Contains(a.String(), f) {
			continue
		}
		groups = append(groups, c17Group{fmt.Sprintf("a%d", i), []*c17Case{{name: "E", desc: strings.Join(strings.Fields(a.String()), " "), echo: true}}, a})
	}
	files := map[string]string{}
	var mains, imports strings.Builder
	for _, g := range groups {
		m, t, mp := g.files(files)
		files[g.name+".yml"] = "module:\n  name: example.com/vh\n  path: .\ntargets:\n" + t + mp
		mains.WriteString(m)
		fmt.Fprintf(&imports, "\t%q\n", "example.com/vh/gen/"+g.name)
		for _, p := range []string{"vo", "k"} {
			if strings.Contains(m, g.name+p+".") {
				fmt.Fprintf(&imports, "\t%s%s %q\n", g.name, p, "example.com/vh/gen/"+g.name+"/"+p)
			}
		}
	}
	files["cmd/c17/main.go"] = "package main\n\nimport (\n" + imports.String() + "\t\"example.com/vh/tstypes\"\n)\n\nfunc main() {\n" + mains.String() + "\ttstypes.Serve()\n}\n"
	writeTree(e.VH, files)
	const workers = 8
	x := newExplorer(e, workers)
	for _, g := range groups {
		x.add(func() { e.generate(g.name + ".yml") })
	}
	x.wait()
	if x.failures > 0 {
		return x.finish()
	}
	bin := e.build("./cmd/c17")
	nodes := newNodePool(e, "shape.js", workers)
	defer nodes.close()
	bases := make(chan string, workers)
	for i := 0; i < workers; i++ {
		cmd := exec.Command(bin)
		cmd.Stderr = os.Stderr
		out, err := cmd.StdoutPipe()
		must(err)
		must(cmd.Start())
		defer func() {
			_ = cmd.Process.Kill()
			_ = cmd.Wait()
		}()
		addr, err := bufio.NewReader(out).ReadString('\n')
		must(err)
		bases <- "http://" + strings.TrimSpace(addr)
	}
	depth := 3
	if e.Thorough {
		depth = 4
	}
	for _, g := range groups {
		x.add(func() {
			tree := map[string]string{}
			for _, f := range []string{"client.ts", "own.ts", "vo.ts", "k.ts", "time.ts"} {
				if b, err := os.ReadFile(filepath.Join(e.VH, "ts", g.name, f)); err == nil {
					tree[f] = string(b)
				}
			}
			var ms []map[string]any
			desc := map[string]string{}
			known := map[string]string{}
			for _, c := range g.cases {
				ms = append(ms, map[string]any{"name": c.name, "method": strings.ToLower(c.name), "echo": c.echo, "desc": c.desc})
				desc[c.name] = c.desc
				known[c.name] = c.known
			}
			base := <-bases
			var a struct {
				Diags             []tsDiag
				Fails             []struct{ Key, Name, Msg string }
				Docs, Sent, Types int
			}
			nodes.ask(map[string]any{"files": tree, "base": base, "group": g.name, "client": "client.ts", "cls": "SvcClient", "methods": ms, "depth": depth}, &a)
			bases <- base
			for _, d := range a.Diags {
				x.fail("types", g.name+": "+d.String()+"\n"+line(tree[d.File], d.Line), map[string]any{"group": g.name})
			}
			for _, f := range a.Fails {
				if known[f.Name] != "" {
					f.Key = known[f.Name]
				}
				x.fail(f.Key, desc[f.Name]+" ("+g.name+"."+f.Name+"): "+f.Msg, map[string]any{"group": g.name, "method": f.Name, "type": desc[f.Name]})
			}
			for _, c := range g.cases {
				x.state(c.desc, 1)
			}
			x.note("documents_sent_by_the_server", a.Docs)
			x.note("documents_sent_to_the_server", a.Sent)
			x.note("typescript_types", a.Types)
		})
	}
	return x.finish()
}
