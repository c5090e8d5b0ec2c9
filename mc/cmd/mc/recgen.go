package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// recorders writes package <pkg>/rec with a recording implementation of every exported interface marked //vh:record.
func (e *Env) recorders(pkgDir string) {
	dir := filepath.Join(e.VH, pkgDir)
	fset := token.NewFileSet()
	ents, err := os.ReadDir(dir)
	must(err)
	imports := map[string]string{}
	var body bytes.Buffer
	pkgName := ""
	for _, en := range ents {
		if !strings.HasSuffix(en.Name(), ".go") || strings.HasSuffix(en.Name(), "_gen.go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, en.Name()), nil, parser.ParseComments)
		must(err)
		pkgName = f.Name.Name
		fi := map[string]string{}
		for _, im := range f.Imports {
			p := strings.Trim(im.Path.Value, `"`)
			n := p[strings.LastIndex(p, "/")+1:]
			if im.Name != nil {
				n = im.Name.Name
			}
			fi[n] = p
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Doc == nil || !strings.Contains(docText(g.Doc), "vh:record") {
				continue
			}
			ts := g.Specs[0].(*ast.TypeSpec)
			it := ts.Type.(*ast.InterfaceType)
			svc := ts.Name.Name
			fmt.Fprintf(&body, "type %s struct{ Rec *rt.Recorder }\n\nvar _ svc.%s = (*%s)(nil)\n\n", svc, svc, svc)
			for _, m := range it.Methods.List {
				ft := m.Type.(*ast.FuncType)
				name := m.Names[0].Name
				var ps, as, rs, ret []string
				i := 0
				if ft.Params != nil {
					for _, p := range ft.Params.List {
						n := len(p.Names)
						if n == 0 {
							n = 1
						}
						for k := 0; k < n; k++ {
							ps = append(ps, fmt.Sprintf("a%d %s", i, typeText(p.Type, fi, imports)))
							as = append(as, fmt.Sprintf("a%d", i))
							i++
						}
					}
				}
				i = 0
				if ft.Results != nil {
					for _, p := range ft.Results.List {
						n := len(p.Names)
						if n == 0 {
							n = 1
						}
						for k := 0; k < n; k++ {
							t := typeText(p.Type, fi, imports)
							rs = append(rs, t)
							ret = append(ret, fmt.Sprintf("rt.As[%s](r, %d)", t, i))
							i++
						}
					}
				}
				fmt.Fprintf(&body, "func (s *%s) %s(%s) (%s) {\n", svc, name, strings.Join(ps, ", "), strings.Join(rs, ", "))
				call := fmt.Sprintf("s.Rec.Do(%q, %q", svc, name)
				for _, a := range as {
					call += ", " + a
				}
				call += ")"
				if len(ret) > 0 {
					fmt.Fprintf(&body, "r := %s\nreturn %s\n}\n\n", call, strings.Join(ret, ", "))
				} else {
					fmt.Fprintf(&body, "%s\n}\n\n", call)
				}
			}
		}
	}
	var out bytes.Buffer
	fmt.Fprintf(&out, "package rec\n\nimport (\n\"example.com/vh/rt\"\nsvc \"example.com/vh/%s\"\n", pkgDir)
	var ks []string
	for k := range imports {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&out, "%s %q\n", k, imports[k])
	}
	out.WriteString(")\n\n")
	out.Write(body.Bytes())
	src, err := format.Source(out.Bytes())
	if err != nil {
		panic(fmt.Sprintf("%v in %s:\n%s", err, pkgName, out.String()))
	}
	must(os.MkdirAll(filepath.Join(dir, "rec"), 0o755))
	must(os.WriteFile(filepath.Join(dir, "rec", "rec.go"), src, 0o644))
}

func docText(c *ast.CommentGroup) string {
	s := ""
	for _, l := range c.List {
		s += l.Text + "\n"
	}
	return s
}

func typeText(x ast.Expr, fi, used map[string]string) string {
	switch t := x.(type) {
	case *ast.Ident:
		if ast.IsExported(t.Name) {
			return "svc." + t.Name
		}
		return t.Name
	case *ast.SelectorExpr:
		q := t.X.(*ast.Ident).Name
		used[q] = fi[q]
		return q + "." + t.Sel.Name
	case *ast.StarExpr:
		return "*" + typeText(t.X, fi, used)
	case *ast.ArrayType:
		if l, ok := t.Len.(*ast.BasicLit); ok {
			return "[" + l.Value + "]" + typeText(t.Elt, fi, used)
		}
		return "[]" + typeText(t.Elt, fi, used)
	case *ast.MapType:
		return "map[" + typeText(t.Key, fi, used) + "]" + typeText(t.Value, fi, used)
	case *ast.InterfaceType:
		return "interface{}"
	}
	panic(fmt.Sprintf("recorder: type %T not supported", x))
}
