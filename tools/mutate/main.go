// mutate lists small changes ("mutants") of the Go files it is given, one JSON line each:
// used to measure which changes the checks notice (see tools/mutants.py).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File, Func, Desc string
	Line, Off, End   int
	New              string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, path := range os.Args[1:] {
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			name := ""
			switch x := d.(type) {
			case *ast.FuncDecl:
				name = x.Name.Name
				if x.Body == nil {
					continue
				}
			case *ast.GenDecl:
				if x.Tok == token.IMPORT || x.Tok == token.TYPE {
					continue
				}
			}
			emit := func(n ast.Node, end token.Pos, repl, desc string) {
				p := fs.Position(n.Pos())
				enc.Encode(mutant{path, name, desc, p.Line, p.Offset, fs.Position(end).Offset, repl})
			}
			text := func(n ast.Node) string {
				return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.CallExpr:
					s := text(x.Fun)
					if s == "fmt.Errorf" || s == "errors.New" {
						return false
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err != nil {
							break
						}
						emit(x, x.End(), fmt.Sprint(v+1), x.Value+" -> +1")
						if v > 0 {
							emit(x, x.End(), fmt.Sprint(v-1), x.Value+" -> -1")
						}
					}
				case *ast.BinaryExpr:
					alts := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
						token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"},
						token.AND: {"|"}, token.OR: {"&", "+"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.MUL: {"+"}, token.REM: {"/"}, token.QUO: {"%"}}
					for _, a := range alts[x.Op] {
						l, r := text(x.X), text(x.Y)
						emit(x, x.End(), l+" "+a+" "+r, text(x)+" -> "+a)
					}
				case *ast.IfStmt:
					emit(x.Cond, x.Cond.End(), "false && ("+text(x.Cond)+")", "if "+text(x.Cond)+" -> never")
				case *ast.ExprStmt:
					emit(x, x.End(), "", "drop "+text(x))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						if len(x.Lhs) == 1 {
							emit(x, x.End(), "_ = "+text(x.Rhs[0]), "drop assignment "+text(x))
						}
						if x.Tok == token.ADD_ASSIGN {
							emit(x, x.End(), text(x.Lhs[0])+" -= "+text(x.Rhs[0]), text(x)+" -> -=")
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x, x.End(), "false", "true -> false")
					}
					if x.Name == "false" {
						emit(x, x.End(), "true", "false -> true")
					}
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE && x.Label == nil {
						emit(x, x.End(), "break", "continue -> break")
					}
				case *ast.SelectorExpr:
					sw := map[string]string{"Uint16": "", "BigEndian": "LittleEndian"}
					if r := sw[x.Sel.Name]; r != "" {
						emit(x.Sel, x.Sel.End(), r, x.Sel.Name+" -> "+r)
					}
					if strings.HasSuffix(x.Sel.Name, "_GENERATION_1") {
						emit(x.Sel, x.Sel.End(), strings.TrimSuffix(x.Sel.Name, "1")+"2", x.Sel.Name+" -> 2")
					}
				}
				return true
			})
		}
	}
}
