// racegen FILE: prints one JSON line per "hoisted local" mutant of a Go file: a local variable
// with a declared type becomes a package variable, as if somebody saved an allocation.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strings"
)

type edit struct {
	a, b int
	s    string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	enc := json.NewEncoder(os.Stdout)
	serial := 0
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Type.TypeParams != nil {
			continue
		}
		if fd.Recv != nil && strings.Contains(text(fd.Recv.List[0].Type), "[") {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			ds, ok := n.(*ast.DeclStmt)
			if !ok {
				return true
			}
			gd := ds.Decl.(*ast.GenDecl)
			if gd.Tok != token.VAR || len(gd.Specs) != 1 {
				return true
			}
			vs := gd.Specs[0].(*ast.ValueSpec)
			if vs.Type == nil {
				return true
			}
			ty := text(vs.Type)
			if ty == "error" || ty == "bool" || ty == "int" {
				return true
			}
			serial++
			objs := map[*ast.Object]string{}
			var glob, lhs, rhs []string
			for _, id := range vs.Names {
				if id.Name == "_" {
					return true
				}
				g := fmt.Sprintf("%s_hoisted%d", id.Name, serial)
				objs[id.Obj] = g
				glob = append(glob, g)
				lhs = append(lhs, g)
				rhs = append(rhs, "*new("+ty+")")
			}
			var ed []edit
			ast.Inspect(fd.Body, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok && id.Obj != nil && objs[id.Obj] != "" && !(id.Pos() >= ds.Pos() && id.Pos() < vs.Type.Pos()) {
					ed = append(ed, edit{off(id.Pos()), off(id.End()), objs[id.Obj]})
				}
				return true
			})
			if len(vs.Values) == 0 {
				ed = append(ed, edit{off(ds.Pos()), off(ds.End()), strings.Join(lhs, ", ") + " = " + strings.Join(rhs, ", ")})
			} else {
				ed = append(ed, edit{off(ds.Pos()), off(vs.Values[0].Pos()), strings.Join(lhs, ", ") + " = "})
			}
			sort.Slice(ed, func(i, j int) bool { return ed[i].a < ed[j].a })
			var b strings.Builder
			p := 0
			for _, e := range ed {
				b.Write(src[p:e.a])
				b.WriteString(e.s)
				p = e.b
			}
			b.Write(src[p:])
			b.WriteString("\nvar " + strings.Join(glob, ", ") + " " + ty + "\n")
			enc.Encode(map[string]interface{}{"off": off(ds.Pos()), "end": off(ds.End()), "repl": "hoist", "full": b.String(),
				"line": fs.Position(ds.Pos()).Line, "kind": "hoist", "fn": fd.Name.Name, "old": text(ds)})
			return true
		})
	}
}
