package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

// buildGenMC builds the generator with the order of all its map ranges and the outcome of its file operations under control.
func (e *Env) buildGenMC() {
	type pkg struct {
		ImportPath, Dir, Export string
		GoFiles                 []string
		Standard                bool
	}
	r := run(repo, 5*time.Minute, nil, "go", "list", "-mod=readonly", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard", "./cmd/gotsrpc", "maps", "go/ast")
	if r.Code != 0 {
		e.fail("build", "the generator does not build:\n%s", r.Out)
	}
	pkgs := map[string]pkg{}
	dec := json.NewDecoder(strings.NewReader(r.Out[strings.Index(r.Out, "{"):]))
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			must(err)
		}
		pkgs[p.ImportPath] = p
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) { return os.Open(pkgs[path].Export) })
	rep := map[string]string{}
	out := filepath.Join(e.Dir, "genmc")
	must(os.MkdirAll(out, 0o755))
	put := func(file, text string) {
		t := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(file, "/"), "/", "__"))
		must(os.WriteFile(t, []byte(text), 0o644))
		rep[file] = t
	}
	e.mapSites = 0
	for path, p := range pkgs {
		if path != "maps" && path != "go/ast" && !strings.HasPrefix(p.Dir+"/", repo+"/") {
			continue
		}
		var files []*ast.File
		src := map[*ast.File][]byte{}
		name := map[*ast.File]string{}
		for _, f := range p.GoFiles {
			file := filepath.Join(p.Dir, f)
			b, err := os.ReadFile(file)
			must(err)
			af, err := parser.ParseFile(fset, file, b, parser.ParseComments)
			if err != nil {
				e.fail("parse", "%s: %v", file, err)
			}
			files = append(files, af)
			src[af], name[af] = b, file
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		_, _ = conf.Check(path, fset, files, info)
		for _, af := range files {
			type edit struct {
				off, end int
				text     string
			}
			var edits []edit
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			ast.Inspect(af, func(n ast.Node) bool {
				rs, ok := n.(*ast.RangeStmt)
				if !ok {
					return true
				}
				t := info.Types[rs.X].Type
				if t == nil {
					return true
				}
				if tp, ok := t.(*types.TypeParam); ok {
					if it, ok := tp.Constraint().Underlying().(*types.Interface); ok && it.NumEmbeddeds() == 1 {
						if u, ok := it.EmbeddedType(0).(*types.Union); ok && u.Len() == 1 {
							t = u.Term(0).Type()
						}
					}
				}
				if _, ok := t.Underlying().(*types.Map); !ok {
					return true
				}
				e.mapSites++
				site := fmt.Sprintf("%s/%s:%d", path, filepath.Base(name[af]), fset.Position(rs.Pos()).Line)
				edits = append(edits, edit{off(rs.X.Pos()), off(rs.X.Pos()), fmt.Sprintf("_vmc.VMCMap(%q, ", site)}, edit{off(rs.X.End()), off(rs.X.End()), ")"})
				return true
			})
			if len(edits) == 0 {
				continue
			}
			at := off(af.Name.End())
			edits = append(edits, edit{at, at, `; import _vmc "os"`})
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
			var b strings.Builder
			pos := 0
			for _, x := range edits {
				b.Write(src[af][pos:x.off])
				b.WriteString(x.text)
				pos = x.end
			}
			b.Write(src[af][pos:])
			put(name[af], b.String())
		}
	}
	read := func(f string) string {
		b, err := os.ReadFile(f)
		must(err)
		return string(b)
	}
	put(filepath.Join(pkgs["os"].Dir, "vmcord.go"), read(filepath.Join(verif, "harness/std/vmcord.go.txt")))
	put(filepath.Join(pkgs["syscall"].Dir, "vmcfault.go"), read(filepath.Join(verif, "harness/std/vmcfault.go.txt")))
	z := filepath.Join(pkgs["syscall"].Dir, "zsyscall_linux_amd64.go")
	text := read(z)
	for _, f := range []string{"openat", "write", "read", "Getdents", "Ftruncate", "Fsync", "Close", "unlinkat", "Mkdirat", "Renameat", "fchmodat", "fstatat"} {
		re := regexp.MustCompile(`(?m)^func ` + f + `\(`)
		if len(re.FindAllString(text, -1)) != 1 {
			panic("no syscall " + f)
		}
		text = re.ReplaceAllString(text, "func vmc"+strings.ToUpper(f[:1])+f[1:]+"(")
	}
	put(z, text)
	b, err := json.Marshal(map[string]any{"Replace": rep})
	must(err)
	overlay := filepath.Join(out, "overlay.json")
	must(os.WriteFile(overlay, b, 0o644))
	e.buildGen("-overlay", overlay)
}
