package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// The project the generator is run on by C15, C19 and C22: two packages with several services each,
// types, unions, constants and errors in several packages that import one another under different names.
var gprojFiles = map[string]string{
	"go.mod": "module example.com/gp\n\ngo 1.23.0\n",
	"a/alpha.go": `package a

import (
	"net/http"
	"time"

	vo "example.com/gp/vo"
	two "example.com/gp/vo2"
)

type Alpha interface {
	One(a vo.Item, b map[vo.Kind]two.Item) (*vo.Pair, *two.Oops)
	Raw(w http.ResponseWriter, r *http.Request, id string)
	When(t time.Time, k []two.Level) (at time.Time, l two.List, m vo.Index)
	Choose(c vo.Choice) two.Choice
}

type Local struct {
	vo.Base ` + "`json:\",inline\"`" + `
	Name    string
	Nested  struct {
		A int
		B *two.Item
	}
}
`,
	"a/beta.go": `package a

import (
	vo "example.com/gp/vo2" // not the one alpha.go has
	"example.com/gp/c"
)

type Beta struct{}

func (s *Beta) First(l Local, i vo.Item) (c.Thing, *vo.Oops) { return c.Thing{}, nil }
`,
	"a/beta2.go": `package a

import "example.com/gp/vo"

func (s *Beta) Second(x [][]vo.Item) map[string][]vo.Pair { return nil }

func (s *Beta) Another(k vo.Kind) (n int, err string) { return 0, "" }

func (s *Beta) hidden(vo.Pair) {}

type Unused struct{ X vo.Pair }
`,
	"b/b.go": `package b

import (
	"example.com/gp/a"
	"example.com/gp/vo"
	"example.com/gp/vo2"
)

type Gamma interface {
	Get(l a.Local, o vo2.Other) (vo.Choice, vo2.Choice)
	All() ([]vo.Item, []vo2.Item)
}

type Delta interface {
	Do(x map[string]interface{}, ks []int)
	Run(i vo.Item)
}
`,
	"vo/vo.go": `package vo

type Kind string

const (
	KindOne   Kind = "one"
	KindTwo   Kind = "two"
	KindThree Kind = "three"
)

type Item struct {
	K    Kind
	Tags map[Kind]Pair
	Next *Item ` + "`json:\",omitempty\"`" + `
}

type Pair struct{ L, R Weight }

type Weight float64

type Base struct{ ID string }
`,
	"vo/union.go": `package vo

type Choice struct {
	A *ChoiceA ` + "`gotsrpc:\"union\"`" + `
	B *ChoiceB ` + "`gotsrpc:\"union\"`" + `
}

type ChoiceA struct{ X int }

type ChoiceB struct{ Y string }

type Index map[string]Wrapped

type Wrapped struct{ C Other }

type Other struct {
	P *ChoiceA ` + "`gotsrpc:\"union\"`" + `
	Q *ChoiceB ` + "`gotsrpc:\"union\"`" + `
}
`,
	"vo/listed.go": "package vo\n\ntype Listed struct{ W Weight }\n\ntype Listed2 struct{ B Base }\n",
	"vo2/vo.go": `package vo2

import base "example.com/gp/vo"

type Item struct{ I base.Item }

type Level int

const (
	LevelLow  Level = 1
	LevelHigh Level = 2
)

const LevelTop Level = 3

type List []Item

type Other struct {
	L Level
	A any
}

type Choice struct {
	A *Item  ` + "`gotsrpc:\"union\"`" + `
	B *Other ` + "`gotsrpc:\"union\"`" + `
}

type Oops struct{ Why string }

func (o *Oops) Error() string { return o.Why }
`,
	"c/c.go": "package c\n\ntype Thing struct{ B bool }\n\ntype Mode string\n\nconst (\n\tModeA Mode = \"a\"\n\tModeB Mode = \"b\"\n)\n\ntype Flag int\n\nconst FlagOn Flag = 1\n",
	"d/d.go": `package d

import (
	"net/http"

	"example.com/gp/a"
	"example.com/gp/vo"
)

type Epsilon interface {
	Fail(w http.ResponseWriter, r *http.Request) error
	Both(w http.ResponseWriter, r *http.Request, l a.Local) (i vo.Item, err error)
}
`,
	"a/mine.go":   "package a\n\ntype Mine struct{}\n",
	"ts/own.ts":   "export const own = 1;\n",
	"a/notes.txt": "mine\n",
	// no outputs, though named like them
	"c/gotsrpc_gen.go":         "package c\n",
	"a/old/gorpcclient_gen.go": "package old\n",
	"gotsrpcclient_gen.go":     "package gp\n",
	"a/gotsrpc_gen.go.orig":    "package a\n",
	"ts/vo.ts.orig":            "mine\n",
}

type gprojConf struct{ targets, mappings []string }

func gprojConfig() gprojConf {
	return gprojConf{targets: []string{
		"  one:\n    package: example.com/gp/a\n    services:\n      /alpha: Alpha\n      /beta: Beta\n    tsrpc: [Alpha, Beta]\n    gorpc: [Beta, Alpha]\n    out: ./ts/a.ts\n",
		"  two:\n    package: example.com/gp/b\n    services:\n      /gamma: Gamma\n    tsrpc: [Gamma]\n    skipTSRPCClient: true\n    out: ./ts/b/gamma.ts\n",
		"  last:\n    package: example.com/gp/b\n    services:\n      /delta: Delta\n    gorpc: [Delta]\n    out: ./ts/b/delta.ts\n",
		"  plain:\n    package: example.com/gp/d\n    services:\n      /epsilon: Epsilon\n    tsrpc: [Epsilon]\n    gorpc: [Epsilon]\n",
	}, mappings: []string{
		"  example.com/gp/vo:\n    out: ./ts/vo.ts\n    structs:\n      - example.com/gp/vo.Listed\n      - example.com/gp/vo.Listed2\n",
		"  example.com/gp/vo2:\n    out: ./ts/vo2.ts\n",
		"  example.com/gp/a:\n    out: ./ts/sub/a-vo.ts\n",
		"  time:\n    out: ./ts/time.ts\n",
		"  example.com/gp/c:\n    out: ./ts/c-vo.ts\n    scalars:\n      - example.com/gp/c.Mode\n      - example.com/gp/c.Flag\n",
	}}
}

// gprojOther is another configuration for the same project.
func gprojOther() gprojConf {
	c := gprojConfig()
	c.targets = []string{"  one:\n    package: example.com/gp/a\n    services:\n      /other: Beta\n    tsrpc: [Beta]\n    out: ./ts/a.ts\n",
		"  two:\n    package: example.com/gp/b\n    services:\n      /gamma: Gamma\n      /delta: Delta\n    tsrpc: [Gamma, Delta]\n    gorpc: [Gamma, Delta]\n    out: ./ts/b/gamma.ts\n",
		c.targets[len(c.targets)-1]}
	return c
}

func mergeTrees(files map[string]string, with map[string]string) map[string]string {
	out := map[string]string{}
	for f, c := range files {
		out[f] = c
	}
	for f, c := range with {
		out[f] = c
	}
	return out
}

func (c gprojConf) String() string {
	return "module:\n  name: example.com/gp\n  path: .\ntargets:\n" + strings.Join(c.targets, "") + "mappings:\n" + strings.Join(c.mappings, "")
}

// gprojOutputs are the files the configuration declares.
var gprojOutputs = []string{
	"a/gotsrpc_gen.go", "a/gotsrpcclient_gen.go", "a/gorpc_gen.go", "a/gorpcclient_gen.go",
	"b/gotsrpc_gen.go", "b/gorpc_gen.go", "b/gorpcclient_gen.go",
	"d/gotsrpc_gen.go", "d/gotsrpcclient_gen.go", "d/gorpc_gen.go", "d/gorpcclient_gen.go",
	"ts/a.ts", "ts/b/gamma.ts", "ts/b/delta.ts",
	"ts/vo.ts", "ts/vo2.ts", "ts/time.ts", "ts/sub/a-vo.ts", "ts/c-vo.ts",
}

func writeTree(dir string, files map[string]string) {
	for f, c := range files {
		p := filepath.Join(dir, f)
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, []byte(c), 0o644))
	}
}

func treeDiff(want, got map[string]string) string {
	for f, c := range want {
		if g, ok := got[f]; !ok {
			return f + " is missing"
		} else if g != c {
			return fmt.Sprintf("%s differs: %s", f, firstDiff(c, g))
		}
	}
	for f := range got {
		if _, ok := want[f]; !ok {
			return f + " should not be there"
		}
	}
	return ""
}

func (e *Env) gen(dir, cfg string, env ...string) procResult {
	home := filepath.Join(e.Dir, "home")
	must(os.MkdirAll(home, 0o755))
	return run(dir, time.Minute, append([]string{"GOPATH=" + filepath.Join(e.Dir, "gopath"), "HOME=" + home}, env...), e.Gen, cfg)
}
