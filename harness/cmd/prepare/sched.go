package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// prepareSched writes an overlay with which the random number code of the
// repository runs under the scheduler of verif/vsync: a scheduling point
// before each statement and vsync in place of sync.
func prepareSched(out, repo string) {
	replace := map[string]string{}
	var files []string
	for _, d := range []string{"crand", "."} {
		m, _ := filepath.Glob(filepath.Join(repo, d, "*.go"))
		sort.Strings(m)
		files = append(files, m...)
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			fatal(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, b, parser.ParseComments)
		if err != nil {
			fatal(err)
		}
		src := string(b)
		all := filepath.Base(filepath.Dir(f)) == "crand"
		type edit struct {
			at, cut int
			text    string
		}
		var edits []edit
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, im := range file.Imports {
			if im.Path.Value == `"sync"` {
				name := ""
				if im.Name == nil {
					name = "sync "
				}
				edits = append(edits, edit{off(im.Path.Pos()), len(im.Path.Value), name + `"verif/vsync"`})
			}
		}
		yields := 0
		for _, d := range file.Decls {
			fd, isFunc := d.(*ast.FuncDecl)
			if isFunc && fd.Body == nil {
				continue
			}
			text := src[off(d.Pos()):off(d.End())]
			if !all && (!isFunc || !(strings.Contains(text, "crand.") || strings.Contains(text, "rand."))) {
				continue
			}
			list := func(l []ast.Stmt) {
				for _, s := range l {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						continue
					}
					edits = append(edits, edit{off(s.Pos()), 0, "verifsync.Yield(); "})
					yields++
				}
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					list(x.List)
				case *ast.CaseClause:
					list(x.Body)
				case *ast.CommClause:
					list(x.Body)
				}
				return true
			})
		}
		if yields > 0 {
			edits = append(edits, edit{off(file.Name.End()), 0, `; import verifsync "verif/vsync"`})
		}
		if len(edits) == 0 {
			continue
		}
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].at > edits[j].at })
		for _, e := range edits {
			src = src[:e.at] + e.text + src[e.at+e.cut:]
		}
		name := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(f, "/"), "/", "_"))
		if err := os.WriteFile(name, []byte(src), 0644); err != nil {
			fatal(err)
		}
		replace[f] = name
	}
	j, _ := json.MarshalIndent(map[string]map[string]string{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0644); err != nil {
		fatal(err)
	}
	fmt.Fprintln(os.Stderr, "prepare:", len(replace), "files")
}
