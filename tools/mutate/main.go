// Mutate lists small changes to Go files, one JSON object a line:
// {file, start, end, new, what, line}. Development tool.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File       string `json:"file"`
	Start, End int
	New, What  string
	Line       int
}

var (
	fset = token.NewFileSet()
	src  []byte
	file string
	out  = json.NewEncoder(os.Stdout)
)

func text(n ast.Node) string {
	return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
}

func emit(from, to token.Pos, repl, what string) {
	p := fset.Position(from)
	out.Encode(mutant{file, p.Offset, fset.Position(to).Offset, repl, what, p.Line})
}

var ops = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD},
	token.MUL: {token.QUO}, token.QUO: {token.MUL}, token.REM: {token.QUO}, token.AND: {token.OR}, token.OR: {token.AND},
	token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.XOR: {token.OR},
}

func logs(n ast.Node) bool {
	t := text(n)
	return strings.HasPrefix(t, "logrus.")
}

// fatal says that an if only ends the program on a failed write.
func fatal(s *ast.IfStmt) bool {
	return len(s.Body.List) == 1 && strings.HasPrefix(text(s.Body.List[0]), "logrus.Fatal(err)")
}

func main() {
	for _, file = range os.Args[1:] {
		var err error
		if src, err = os.ReadFile(file); err != nil {
			panic(err)
		}
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.ExprStmt:
				if logs(x) {
					return false
				}
				emit(x.Pos(), x.End(), "", "drop "+text(x))
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit(x.Pos(), x.End(), "_ = 0", "drop "+text(x))
				}
			case *ast.IncDecStmt:
				emit(x.Pos(), x.End(), "", "drop "+text(x))
			case *ast.DeferStmt:
				emit(x.Pos(), x.End(), "", "drop "+text(x))
			case *ast.GoStmt:
				emit(x.Go, x.Call.Pos(), "", "no go "+text(x))
			case *ast.IfStmt:
				if fatal(x) {
					if x.Init != nil {
						emit(x.Pos(), x.End(), "", "drop "+text(x.Init))
					}
					// the write may have the wrong arguments, the rest is dull
					if x.Init != nil {
						ast.Inspect(x.Init, visit)
					}
					return false
				}
				if x.Init == nil {
					emit(x.Cond.Pos(), x.Cond.End(), "(false && "+text(x.Cond)+")", "never if "+text(x.Cond))
					emit(x.Cond.Pos(), x.Cond.End(), "(true || "+text(x.Cond)+")", "always if "+text(x.Cond))
				} else {
					emit(x.Cond.Pos(), x.Cond.End(), "(false && ("+text(x.Cond)+"))", "never if "+text(x.Init)+"; "+text(x.Cond))
				}
			}
			return visit(n)
		})
	}
}

func visit(n ast.Node) bool {
	switch x := n.(type) {
	case *ast.BinaryExpr:
		for _, o := range ops[x.Op] {
			emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o.String(), fmt.Sprintf("%s -> %s in %s", x.Op, o, text(x)))
		}
	case *ast.BasicLit:
		if x.Kind == token.INT {
			if v, err := strconv.ParseUint(x.Value, 0, 63); err == nil {
				emit(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" + 1")
				if v > 0 {
					emit(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" - 1")
				}
			}
		}
	case *ast.Ident:
		if x.Name == "true" {
			emit(x.Pos(), x.End(), "false", "true -> false")
		} else if x.Name == "false" {
			emit(x.Pos(), x.End(), "true", "false -> true")
		} else if x.Name == "BigEndian" {
			emit(x.Pos(), x.End(), "LittleEndian", "endianness")
		}
	case *ast.BranchStmt:
		if x.Tok == token.CONTINUE && x.Label == nil {
			emit(x.Pos(), x.End(), "break", "continue -> break")
		} else if x.Tok == token.BREAK && x.Label == nil {
			emit(x.Pos(), x.End(), "continue", "break -> continue")
		} else if x.Tok == token.BREAK {
			emit(x.Pos(), x.End(), "continue "+x.Label.Name, "break -> continue")
		}
	case *ast.ReturnStmt:
		for _, r := range x.Results {
			if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
				emit(r.Pos(), r.End(), "nil", "return nil for err")
			} else if c, ok := r.(*ast.CallExpr); ok && (strings.HasPrefix(text(c), "errors.New") || strings.HasPrefix(text(c), "fmt.Errorf")) {
				emit(r.Pos(), r.End(), "nil", "return nil for "+text(c))
			}
		}
	case *ast.CallExpr:
		if strings.HasPrefix(text(x), "logrus.") {
			return false
		}
	}
	return true
}
