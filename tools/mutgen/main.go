// mutgen FILE: prints one JSON line per single-point mutant of a Go file:
// {"off":start,"end":end,"repl":text,"line":n,"kind":...,"fn":function}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Repl string `json:"repl"`
	Line int    `json:"line"`
	Kind string `json:"kind"`
	Fn   string `json:"fn"`
	Old  string `json:"old"`
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	enc := json.NewEncoder(os.Stdout)
	fn := ""
	emit := func(a, b token.Pos, repl, kind string) {
		enc.Encode(mut{off(a), off(b), repl, fs.Position(a).Line, kind, fn, string(src[off(a):off(b)])})
	}
	bin := map[token.Token][]string{
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
		token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND_NOT: {"&"},
	}
	visit := func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BinaryExpr:
			for _, r := range bin[n.Op] {
				emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, "op")
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				emit(n.Pos(), n.End(), "("+text(n.X)+")", "drop-right")
				emit(n.Pos(), n.End(), "("+text(n.Y)+")", "drop-left")
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
					emit(n.Pos(), n.End(), fmt.Sprint(v+1), "int+1")
					if v > 0 {
						emit(n.Pos(), n.End(), fmt.Sprint(v-1), "int-1")
					}
				}
			}
		case *ast.Ident:
			if n.Name == "true" {
				emit(n.Pos(), n.End(), "false", "bool")
			} else if n.Name == "false" {
				emit(n.Pos(), n.End(), "true", "bool")
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				emit(n.Pos(), n.End(), "("+text(n.X)+")", "drop-not")
			} else if n.Op == token.SUB {
				emit(n.Pos(), n.End(), "("+text(n.X)+")", "drop-minus")
			}
		case *ast.IfStmt:
			emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "if-false")
			emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "if-true")
		case *ast.ExprStmt:
			emit(n.Pos(), n.End(), "", "del-call")
		case *ast.DeferStmt:
			emit(n.Pos(), n.End(), "", "del-defer")
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE {
				// keep variables used
				s := ""
				for _, r := range n.Rhs {
					s += "_ = " + text(r) + ";"
				}
				if len(n.Lhs) == len(n.Rhs) {
					emit(n.Pos(), n.End(), s, "del-assign")
				}
				emit(n.Pos(), n.End(), "", "del-assign2")
			}
		case *ast.IncDecStmt:
			emit(n.Pos(), n.End(), "", "del-incdec")
		case *ast.BranchStmt:
			if n.Label == nil && n.Tok == token.CONTINUE {
				emit(n.Pos(), n.End(), "break", "continue-break")
			} else if n.Label == nil && n.Tok == token.BREAK {
				emit(n.Pos(), n.End(), "", "del-break")
			}
		case *ast.ReturnStmt:
			if len(n.Results) > 0 {
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && (id.Name == "err" || len(id.Name) > 3 && id.Name[:3] == "err") {
						emit(r.Pos(), r.End(), "nil", "ret-nil")
					}
				}
			}
		case *ast.CallExpr:
			comm := false
			for _, c := range []string{"Add64", "Mul64", ".Mul", ".Add", "Errorf", "UInt64", "napEncountered", "IsEqual"} {
				comm = comm || strings.HasSuffix(text(n.Fun), c)
			}
			for i := 0; i+1 < len(n.Args) && !comm; i++ {
				a, b := text(n.Args[i]), text(n.Args[i+1])
				if a != b {
					emit(n.Args[i].Pos(), n.Args[i+1].End(), b+", "+a, "swap-args")
				}
			}
		case *ast.SliceExpr:
			if n.Low != nil {
				emit(n.Low.Pos(), n.Low.End(), "", "slice-low")
			}
			if n.High != nil && n.Max == nil {
				emit(n.High.Pos(), n.High.End(), "", "slice-high")
			}
		}
		return true
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			fn = d.Name.Name
			if fn == "String" && false {
				continue
			}
			if d.Body != nil {
				ast.Inspect(d.Body, visit)
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR || d.Tok == token.CONST {
				fn = "(decl)"
				for _, s := range d.Specs {
					for _, v := range s.(*ast.ValueSpec).Values {
						ast.Inspect(v, visit)
					}
				}
			}
		}
	}
}
