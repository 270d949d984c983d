// maporder rewrites the map iterations of a package so that their order is decided by the harness.
//
// usage: maporder <module dir> <package dir relative to it> <import path of verifmap> <output dir>
//
// It prints one line "file<TAB>rewritten file" per changed source file. Iterations whose key type
// cannot be named in the file are left alone and reported on stderr.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkgInfo struct {
	ImportPath, Export, Dir string
	GoFiles                 []string
	ImportMap               map[string]string
}

func main() {
	mod, pkg, verifmap, out := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,ImportMap", "./"+pkg)
	cmd.Dir = mod
	cmd.Stderr = os.Stderr
	buf, err := cmd.Output()
	check(err)
	exports := map[string]string{}
	var target pkgInfo
	dec := json.NewDecoder(bytes.NewReader(buf))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			check(err)
		}
		exports[p.ImportPath] = p.Export
		target = p // the last one
	}
	fset := token.NewFileSet()
	var files []*ast.File
	src := map[*ast.File][]byte{}
	name := map[*ast.File]string{}
	for _, f := range target.GoFiles {
		path := filepath.Join(target.Dir, f)
		text, err := os.ReadFile(path)
		check(err)
		a, err := parser.ParseFile(fset, path, text, parser.ParseComments)
		check(err)
		files = append(files, a)
		src[a], name[a] = text, path
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := target.ImportMap[path]; ok {
			path = m
		}
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, Error: func(err error) {}}
	tpkg, err := conf.Check(target.ImportPath, fset, files, info)
	check(err)

	for _, f := range files {
		imports := map[string]string{}
		for _, i := range f.Imports {
			p := strings.Trim(i.Path.Value, `"`)
			n := ""
			if i.Name != nil {
				n = i.Name.Name
			} else {
				for _, q := range tpkg.Imports() {
					if q.Path() == p {
						n = q.Name()
					}
				}
			}
			imports[p] = n
		}
		type edit struct {
			from, to int
			text     string
		}
		var edits []edit
		n := 0
		labeled := map[ast.Stmt]bool{}
		ast.Inspect(f, func(x ast.Node) bool {
			if l, ok := x.(*ast.LabeledStmt); ok {
				labeled[l.Stmt] = true
			}
			return true
		})
		ast.Inspect(f, func(x ast.Node) bool {
			r, ok := x.(*ast.RangeStmt)
			if !ok {
				return true
			}
			mt, ok := info.Types[r.X].Type.Underlying().(*types.Map)
			if !ok {
				return true
			}
			bad := false
			q := func(p *types.Package) string {
				if p == tpkg {
					return ""
				}
				if n, ok := imports[p.Path()]; ok && n != "" && n != "_" && n != "." {
					return n
				}
				bad = true
				return p.Name()
			}
			kt := types.TypeString(mt.Key(), q)
			if bad {
				fmt.Fprintf(os.Stderr, "maporder: %s left alone\n", fset.Position(r.Pos()))
				return true
			}
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			text := func(e ast.Expr) string { return string(src[f][off(e.Pos()):off(e.End())]) }
			n++
			k := fmt.Sprintf("verifK%d", n)
			// evaluate the map once, in an outer loop of one round; a label would end up on that loop
			m, head, tail := text(r.X), "", ""
			if !labeled[r] {
				m = fmt.Sprintf("verifM%d", n)
				head = fmt.Sprintf("for %s, verifO%d := (%s), true; verifO%d; verifO%d = false {\n", m, n, text(r.X), n, n)
				tail = "}\n"
			}
			head += fmt.Sprintf("for _, %s := range verifmap.Keys(%s) {\n", k, m)
			body := ""
			keyUsed := r.Key != nil && text(r.Key) != "_"
			valUsed := r.Value != nil && text(r.Value) != "_"
			// skip entries that were deleted meanwhile, as a native iteration does
			body += fmt.Sprintf("if _, ok := (%s)[%s.(%s)]; !ok {\ncontinue\n}\n", m, k, kt)
			if keyUsed {
				body += fmt.Sprintf("%s %s %s.(%s)\n", text(r.Key), r.Tok, k, kt)
			}
			if valUsed {
				body += fmt.Sprintf("%s %s (%s)[%s.(%s)]\n", text(r.Value), r.Tok, m, k, kt)
			}
			edits = append(edits, edit{off(r.For), off(r.Body.Lbrace) + 1, head + body})
			if tail != "" {
				edits = append(edits, edit{off(r.Body.Rbrace), off(r.Body.Rbrace), tail})
			}
			return true
		})
		if len(edits) == 0 {
			continue
		}
		edits = append(edits, edit{fset.Position(f.Name.End()).Offset, fset.Position(f.Name.End()).Offset, "\n\nimport \"" + verifmap + "\"\n"})
		sort.Slice(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
		t := string(src[f])
		for _, e := range edits {
			t = t[:e.from] + e.text + t[e.to:]
		}
		dst := filepath.Join(out, filepath.Base(name[f]))
		check(os.WriteFile(dst, []byte(t), 0o644))
		fmt.Printf("%s\t%s\n", name[f], dst)
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "maporder:", err)
		os.Exit(1)
	}
}
