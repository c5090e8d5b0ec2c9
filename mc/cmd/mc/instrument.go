package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// instrument returns src with a scheduling point before every statement, its lock acquisitions visible to the scheduler.
func instrument(name string, src []byte, locks bool) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	type edit struct {
		off, end int
		text     string
	}
	var edits []edit
	points := 0
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			points++
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "_vs.Yield(); "})
			if !locks {
				continue
			}
			switch x := s.(type) {
			case *ast.ExprStmt:
				c, ok := x.X.(*ast.CallExpr)
				if !ok || len(c.Args) != 0 {
					continue
				}
				sel, ok := c.Fun.(*ast.SelectorExpr)
				if !ok {
					continue
				}
				try := map[string]string{"Lock": "TryLock", "RLock": "TryRLock"}[sel.Sel.Name]
				if try == "" {
					continue
				}
				recv := string(src[off(sel.X.Pos()):off(sel.X.End())])
				edits = append(edits, edit{off(x.Pos()), off(x.End()), "_vs.Lock(" + recv + "." + try + ")"})
			case *ast.GoStmt:
				if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 && fl.Type.Results == nil {
					edits = append(edits, edit{off(x.Pos()), off(fl.Pos()), "_vs.Go("}, edit{off(fl.End()), off(x.End()), ")"})
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), `; import _vs "example.com/vh/sched"`})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b strings.Builder
	at := 0
	for _, e := range edits {
		if e.off < at {
			return nil, 0, fmt.Errorf("overlapping edits in %s", name)
		}
		b.Write(src[at:e.off])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(src[at:])
	b.WriteString("\nvar _ = _vs.Yield\n")
	return []byte(b.String()), points, nil
}

// overlaySched writes an overlay that instruments the given directories' non-test files.
func (e *Env) overlaySched(locks bool, dirs ...string) (file string, points int) {
	rep := map[string]string{}
	out := filepath.Join(e.Dir, "instrumented")
	must(os.MkdirAll(out, 0o755))
	for _, d := range dirs {
		fs, err := filepath.Glob(filepath.Join(d, "*.go"))
		must(err)
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			must(err)
			b, n, err := instrument(f, src, locks)
			if err != nil {
				e.fail("parse", "%s: %v", f, err)
			}
			points += n
			t := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(f, "/"), "/", "__"))
			must(os.WriteFile(t, b, 0o644))
			rep[f] = t
		}
	}
	b, err := json.Marshal(map[string]any{"Replace": rep})
	must(err)
	file = filepath.Join(e.Dir, "overlay.json")
	must(os.WriteFile(file, b, 0o644))
	return
}

// overlayGorpc adds to an overlay that servers and clients of valyala/gorpc can be given another transport when they start.
func (e *Env) overlayGorpc(overlay string) {
	r := run(e.VH, time.Minute, nil, "go", "list", "-m", "-f", "{{.Dir}}", "github.com/valyala/gorpc")
	dir := strings.TrimSpace(r.Out)
	if r.Code != 0 || dir == "" {
		panic("gorpc not found: " + r.Out)
	}
	b, err := os.ReadFile(overlay)
	must(err)
	var ov struct{ Replace map[string]string }
	must(json.Unmarshal(b, &ov))
	for file, x := range map[string][2]string{
		"server.go": {"func (s *Server) Start() error {\n", "var VerifServer func(*Server)\n"},
		"client.go": {"func (c *Client) Start() {\n", "var VerifClient func(*Client)\n"},
	} {
		src, err := os.ReadFile(filepath.Join(dir, file))
		must(err)
		hook := map[string]string{"server.go": "\tif VerifServer != nil {\n\t\tVerifServer(s)\n\t}\n", "client.go": "\tif VerifClient != nil {\n\t\tVerifClient(c)\n\t}\n"}[file]
		out := strings.Replace(string(src), x[0], x[0]+hook, 1) + "\n" + x[1]
		if !strings.Contains(out, hook) {
			panic("gorpc changed")
		}
		t := filepath.Join(e.Dir, "instrumented", "gorpc_"+file)
		must(os.WriteFile(t, []byte(out), 0o644))
		ov.Replace[filepath.Join(dir, file)] = t
	}
	b, err = json.Marshal(ov)
	must(err)
	must(os.WriteFile(overlay, b, 0o644))
}
