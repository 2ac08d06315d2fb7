// mutate lists single-point changes of Go source files as JSON lines:
// file, offset, length, replacement, description.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	Desc string `json:"desc"`
}

var ops = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
	token.REM: {"/"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.XOR: {"|"},
	token.ADD_ASSIGN: {"-=", "="}, token.SUB_ASSIGN: {"+="}, token.OR_ASSIGN: {"&=", "="}, token.AND_ASSIGN: {"|="}, token.SHL_ASSIGN: {">>="},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		t, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(p, e token.Pos, repl, d string) {
			_ = enc.Encode(mut{f, fs.Position(p).Line, off(p), off(e) - off(p), repl, d})
		}
		emitOp := func(p token.Pos, op string) {
			for tok, reps := range ops {
				if tok.String() == op {
					for _, r := range reps {
						emit(p, p+token.Pos(len(op)), r, op+" -> "+r)
					}
				}
			}
		}
		for _, d := range t.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					emitOp(x.OpPos, x.Op.String())
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), x.End(), text(x.X), "keep left of "+x.Op.String())
						emit(x.Pos(), x.End(), text(x.Y), "keep right of "+x.Op.String())
					}
				case *ast.AssignStmt:
					if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
						emitOp(x.TokPos, x.Tok.String())
					}
					if x.Tok != token.DEFINE {
						var b strings.Builder
						for i, r := range x.Rhs {
							if i > 0 {
								b.WriteString("; ")
							}
							b.WriteString("_ = " + text(r))
						}
						_ = b
						emit(x.Pos(), x.End(), b.String(), "drop assignment "+first(text(x)))
					}
				case *ast.IncDecStmt:
					if x.Tok == token.INC {
						emit(x.TokPos, x.TokPos+2, "--", "++ -> --")
						emit(x.TokPos, x.TokPos+2, "+= 2", "++ -> += 2")
					} else {
						emit(x.TokPos, x.TokPos+2, "++", "-- -> ++")
						emit(x.TokPos, x.TokPos+2, "-= 0", "-- dropped")
					}
				case *ast.ExprStmt:
					if _, ok := x.X.(*ast.CallExpr); ok {
						emit(x.Pos(), x.End(), "_ = 0", "drop call "+first(text(x)))
					}
				case *ast.IfStmt:
					c := text(x.Cond)
					emit(x.Cond.Pos(), x.Cond.End(), "!("+c+")", "negate if")
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+c+")", "if false")
					emit(x.Cond.Pos(), x.Cond.End(), "true || ("+c+")", "if true")
				case *ast.BasicLit:
					if x.Kind == token.INT {
						emit(x.Pos(), x.End(), "("+x.Value+" + 1)", x.Value+" +1")
						emit(x.Pos(), x.End(), "("+x.Value+" - 1)", x.Value+" -1")
					}
				case *ast.BranchStmt:
					if x.Label == nil {
						switch x.Tok {
						case token.BREAK:
							emit(x.Pos(), x.End(), "continue", "break -> continue")
							emit(x.Pos(), x.End(), "_ = 0", "break dropped")
						case token.CONTINUE:
							emit(x.Pos(), x.End(), "break", "continue -> break")
							emit(x.Pos(), x.End(), "_ = 0", "continue dropped")
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "true -> false")
					} else if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "false -> true")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x.Pos(), x.End(), text(x.X), "drop !")
					} else if x.Op == token.SUB {
						emit(x.Pos(), x.End(), text(x.X), "drop unary -")
					}
				case *ast.SliceExpr:
					if x.High != nil && x.Low == nil && !x.Slice3 {
						emit(x.Pos(), x.End(), text(x.X)+"[:]", "drop slice end")
					}
					if x.Low != nil {
						emit(x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1", "slice start +1")
					}
					if x.High != nil {
						emit(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1", "slice end -1")
					}
				case *ast.ReturnStmt:
					for i, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
							emit(r.Pos(), r.End(), "nil", fmt.Sprintf("return nil as result %d", i))
						}
					}
				case *ast.CaseClause:
					if len(x.List) > 1 {
						for i := range x.List {
							var l []string
							for j, e := range x.List {
								if i != j {
									l = append(l, text(e))
								}
							}
							emit(x.List[0].Pos(), x.List[len(x.List)-1].End(), strings.Join(l, ", "), "drop case "+text(x.List[i]))
						}
					}
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "copy" || id.Name == "append") {
						_ = id
					}
					// swap two neighbouring plain arguments
					for i := 0; i+1 < len(x.Args); i++ {
						a, ok1 := x.Args[i].(*ast.Ident)
						b, ok2 := x.Args[i+1].(*ast.Ident)
						if ok1 && ok2 && a.Name != b.Name {
							emit(a.Pos(), b.End(), b.Name+", "+a.Name, "swap arguments "+a.Name+","+b.Name)
						}
					}
				}
				return true
			})
		}
	}
}

func first(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}
