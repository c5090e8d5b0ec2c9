package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// goModel type-checks trees of Go files in memory; what they import from elsewhere comes from compiled packages.
type goModel struct {
	mu     sync.Mutex
	export map[string]string
}

func newGoModel() *goModel {
	r := run(repo, 5*time.Minute, nil, "go", "list", "-mod=readonly", "-export", "-deps", "-json=ImportPath,Export", ".", "github.com/valyala/gorpc", "net/http", "time", "encoding/json", "context", "errors", "os")
	m := &goModel{export: map[string]string{}}
	i := strings.Index(r.Out, "{")
	if r.Code != 0 || i < 0 {
		panic(failure{"build", "the module does not build:\n" + clip(r.Out, 3000)})
	}
	dec := json.NewDecoder(strings.NewReader(r.Out[i:]))
	for {
		var p struct{ ImportPath, Export string }
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			must(err)
		}
		m.export[p.ImportPath] = p.Export
	}
	return m
}

// goCall is a call of a method.
type goCall struct {
	sel  *types.Selection
	args []types.Type
}

// goTree is one type-checked tree.
type goTree struct {
	m        *goModel
	fset     *token.FileSet
	files    map[string]string
	mod      string
	std      types.Importer
	pkgs     map[string]*types.Package
	syntax   map[string][]string // syntax errors (or no files at all) by package
	errs     []string            // all errors
	noStd    map[string]bool
	declared map[string]bool // packages the tree has
	record   bool
	calls    map[*ast.CallExpr]goCall // method calls, if recorded
}

func (m *goModel) load(files map[string]string, mod string) *goTree {
	t := &goTree{m: m, fset: token.NewFileSet(), files: files, mod: mod, pkgs: map[string]*types.Package{}, syntax: map[string][]string{}, declared: map[string]bool{}}
	t.std = importer.ForCompiler(t.fset, "gc", func(path string) (io.ReadCloser, error) {
		f := m.export[path]
		if f == "" {
			return nil, fmt.Errorf("no package %s", path)
		}
		return os.Open(f)
	})
	for f := range files {
		if strings.HasSuffix(f, ".go") {
			t.declared[filepath.ToSlash(filepath.Join(mod, filepath.Dir(f)))] = true
		}
	}
	return t
}

func (t *goTree) Import(path string) (*types.Package, error) {
	if p, ok := t.pkgs[path]; ok {
		if p == nil {
			return nil, fmt.Errorf("import cycle or broken package %s", path)
		}
		return p, nil
	}
	if path != t.mod && !strings.HasPrefix(path, t.mod+"/") {
		return t.std.Import(path)
	}
	t.pkgs[path] = nil
	dir := strings.TrimPrefix(strings.TrimPrefix(path, t.mod), "/")
	if dir == "" {
		dir = "."
	}
	var names []string
	for f := range t.files {
		if filepath.Dir(f) == dir && strings.HasSuffix(f, ".go") && !strings.HasSuffix(f, "_test.go") {
			names = append(names, f)
		}
	}
	sort.Strings(names)
	var asts []*ast.File
	for _, f := range names {
		af, err := parser.ParseFile(t.fset, f, t.files[f], parser.ParseComments)
		if err != nil {
			t.syntax[path] = append(t.syntax[path], err.Error())
			t.errs = append(t.errs, err.Error())
		}
		if af == nil || af.Name == nil || excluded(af) {
			continue
		}
		asts = append(asts, af)
	}
	if len(asts) == 0 {
		t.syntax[path] = append(t.syntax[path], "no files in "+path)
		return nil, fmt.Errorf("no files in %s", path)
	}
	// of several packages, the one named like the directory counts
	byName := map[string][]*ast.File{}
	for _, af := range asts {
		byName[af.Name.Name] = append(byName[af.Name.Name], af)
	}
	if len(byName) > 1 {
		t.errs = append(t.errs, "several packages in "+dir)
		if named := byName[filepath.Base(path)]; len(named) > 0 {
			asts = named
		}
	}
	conf := types.Config{Importer: t, Error: func(err error) { t.errs = append(t.errs, err.Error()) }}
	info := &types.Info{}
	if t.record {
		info.Types = map[ast.Expr]types.TypeAndValue{}
		info.Selections = map[*ast.SelectorExpr]*types.Selection{}
	}
	p, _ := conf.Check(path, t.fset, asts, info)
	if t.record {
		if t.calls == nil {
			t.calls = map[*ast.CallExpr]goCall{}
		}
		for _, af := range asts {
			ast.Inspect(af, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok {
					if se, ok := c.Fun.(*ast.SelectorExpr); ok && info.Selections[se] != nil {
						gc := goCall{sel: info.Selections[se]}
						for _, a := range c.Args {
							gc.args = append(gc.args, info.Types[a].Type)
						}
						t.calls[c] = gc
					}
				}
				return true
			})
		}
	}
	t.pkgs[path] = p
	return p, nil
}

func excluded(af *ast.File) bool {
	for _, g := range af.Comments {
		if g.Pos() > af.Package {
			break
		}
		for _, c := range g.List {
			if constraint.IsGoBuild(c.Text) {
				if x, err := constraint.Parse(c.Text); err == nil {
					return !x.Eval(func(tag string) bool { return tag == "linux" || tag == "amd64" || strings.HasPrefix(tag, "go1.") })
				}
			}
		}
	}
	return false
}

// all loads every package of the tree.
func (t *goTree) all() []string {
	var ps []string
	for p := range t.declared {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		_, _ = t.Import(p)
	}
	return t.errs
}

// unresolved says why the services of a package cannot be generated: a package, service or type they need is not there.
func (t *goTree) unresolved(pkg string, services []string) string {
	p, err := t.Import(pkg)
	if s := t.syntax[pkg]; len(s) > 0 {
		return s[0]
	}
	if err != nil || p == nil {
		return "no package " + pkg
	}
	for path, p := range t.pkgs {
		// packages that are not named like their directories are not stated
		if p != nil && p.Name() != filepath.Base(path) {
			return ""
		}
	}
	for _, err := range t.errs {
		// the generator takes a package that is not imported by its name for the path
		if _, q, ok := strings.Cut(err, "undefined: "); ok && t.m.export[q] != "" {
			return ""
		}
	}
	seen := map[types.Type]bool{}
	var walk func(ty types.Type) string
	walk = func(ty types.Type) string {
		if seen[ty] {
			return ""
		}
		seen[ty] = true
		switch u := ty.(type) {
		case *types.Basic:
			if u.Kind() == types.Invalid {
				return "an invalid type"
			}
		case *types.Pointer:
			return walk(u.Elem())
		case *types.Slice:
			return walk(u.Elem())
		case *types.Map:
			if s := walk(u.Key()); s != "" {
				return s
			}
			return walk(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if f.Embedded() && !strings.Contains(u.Tag(i), "inline") || !f.Exported() || strings.Contains(u.Tag(i), `json:"-"`) {
					continue
				}
				if s := walk(f.Type()); s != "" {
					return f.Name() + ": " + s
				}
			}
		case *types.Named:
			if u.Obj().Pkg() == nil || !strings.HasPrefix(u.Obj().Pkg().Path()+"/", t.mod+"/") {
				return ""
			}
			if s := t.syntax[u.Obj().Pkg().Path()]; len(s) > 0 {
				return s[0]
			}
			if s := walk(u.Underlying()); s != "" {
				return u.Obj().Name() + ": " + s
			}
		}
		return ""
	}
	sig := func(s *types.Signature) string {
		for _, tu := range []*types.Tuple{s.Params(), s.Results()} {
			for i := 0; i < tu.Len(); i++ {
				if m := walk(tu.At(i).Type()); m != "" {
					return m
				}
			}
		}
		return ""
	}
	for _, s := range services {
		o, ok := p.Scope().Lookup(s).(*types.TypeName)
		if !ok {
			return "no service " + s
		}
		if o.IsAlias() {
			continue
		}
		n, ok := o.Type().(*types.Named)
		if !ok {
			return "no service " + s
		}
		if it, ok := n.Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumExplicitMethods(); i++ {
				if m := sig(it.ExplicitMethod(i).Type().(*types.Signature)); m != "" {
					return s + "." + it.ExplicitMethod(i).Name() + ": " + m
				}
			}
			continue
		}
		for i := 0; i < n.NumMethods(); i++ {
			f := n.Method(i)
			if !f.Exported() {
				continue
			}
			if m := sig(f.Type().(*types.Signature)); m != "" {
				return s + "." + f.Name() + ": " + m
			}
		}
	}
	return ""
}

// hasType tells whether a package of the tree declares a type.
func (t *goTree) hasType(full string) bool {
	i := strings.LastIndex(full, ".")
	if i < 0 {
		return false
	}
	p, err := t.Import(full[:i])
	if err != nil || p == nil || len(t.syntax[full[:i]]) > 0 {
		return false
	}
	if _, ok := p.Scope().Lookup(full[i+1:]).(*types.TypeName); ok {
		return true
	}
	// constants of a type are enough
	dir := strings.TrimPrefix(strings.TrimPrefix(full[:i], t.mod), "/")
	for f, c := range t.files {
		if filepath.Dir(f) == dir && strings.HasSuffix(f, ".go") {
			if af, err := parser.ParseFile(t.fset, f, c, 0); err == nil && !excluded(af) {
				for _, d := range af.Decls {
					g, ok := d.(*ast.GenDecl)
					if !ok || g.Tok != token.CONST {
						continue
					}
					for _, sp := range g.Specs {
						if id, ok := sp.(*ast.ValueSpec).Type.(*ast.Ident); ok && id.Name == full[i+1:] {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
