// instrmaps rewrites every iteration over a map in copies of the module's
// sources so that its order is chosen by the explorer.
// usage: instrmaps GOLIST.json MODULE DSTDIR  (prints the overlay as JSON)
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type pkg struct {
	ImportPath, Export, Dir string
	GoFiles                 []string
}

type edit struct {
	off  int
	text string
	del  int
}

func main() {
	in, err := os.Open(os.Args[1])
	die(err)
	module, dst := os.Args[2], os.Args[3]
	exports := map[string]string{}
	var own []pkg
	d := json.NewDecoder(in)
	for {
		var p pkg
		if err := d.Decode(&p); err == io.EOF {
			break
		} else {
			die(err)
		}
		exports[p.ImportPath] = p.Export
		if (p.ImportPath == module || strings.HasPrefix(p.ImportPath, module+"/")) && !strings.Contains(p.ImportPath, "/zz") {
			own = append(own, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	overlay := map[string]string{}
	sites := 0
	for _, p := range own {
		var files []*ast.File
		for _, n := range p.GoFiles {
			f, err := parser.ParseFile(fset, filepath.Join(p.Dir, n), nil, parser.SkipObjectResolution)
			die(err)
			files = append(files, f)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		_, err := conf.Check(p.ImportPath, fset, files, info)
		die(err)
		for i, f := range files {
			var es []edit
			usesMaps := false
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.RangeStmt:
					tv, ok := info.Types[x.X]
					if !ok {
						return true
					}
					if _, ok := tv.Type.Underlying().(*types.Map); ok {
						pos := fset.Position(x.X.Pos())
						es = append(es, edit{off: pos.Offset, text: fmt.Sprintf("zzsched.Map(\"%s:%d\", ", filepath.Base(pos.Filename), pos.Line)},
							edit{off: fset.Position(x.X.End()).Offset, text: ")"})
					}
				case *ast.CallExpr:
					fn := x.Fun
					if ix, ok := fn.(*ast.IndexExpr); ok {
						fn = ix.X
					}
					s, ok := fn.(*ast.SelectorExpr)
					if !ok || fn != x.Fun {
						return true
					}
					o := info.Uses[s.Sel]
					if o == nil || o.Pkg() == nil || o.Pkg().Path() != "maps" {
						return true
					}
					name := map[string]string{"Keys": "MapKeys", "Values": "MapValues", "All": "MapAll"}[o.Name()]
					if name == "" {
						return true
					}
					usesMaps = true
					pos := fset.Position(s.Pos())
					es = append(es, edit{off: pos.Offset, del: fset.Position(s.End()).Offset - pos.Offset, text: "zzsched." + name})
				}
				return true
			})
			if len(es) == 0 {
				continue
			}
			sites += len(es)
			src := filepath.Join(p.Dir, p.GoFiles[i])
			b, err := os.ReadFile(src)
			die(err)
			sort.SliceStable(es, func(i, j int) bool { return es[i].off < es[j].off })
			var out strings.Builder
			last := 0
			pk := fset.Position(f.Name.End()).Offset
			put := func(e edit) {
				out.Write(b[last:e.off])
				out.WriteString(e.text)
				last = e.off + e.del
			}
			put(edit{off: pk, text: "; import zzsched \"" + module + "/internal/zzsched\""})
			for _, e := range es {
				put(e)
			}
			out.Write(b[last:])
			if usesMaps {
				for _, im := range f.Imports {
					if im.Path.Value == `"maps"` {
						n := "maps"
						if im.Name != nil {
							n = im.Name.Name
						}
						if n != "." && n != "_" {
							fmt.Fprintf(&out, "\nvar _ = %s.Keys[map[int]int]\n", n)
						}
					}
				}
			}
			to := filepath.Join(dst, fmt.Sprintf("m%03d.go", len(overlay)))
			die(os.WriteFile(to, []byte(out.String()), 0o644))
			overlay[src] = to
		}
	}
	die(json.NewEncoder(os.Stdout).Encode(map[string]any{"overlay": overlay, "sites": sites}))
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
