// Command mutate lists small syntactic changes of Go files as JSON lines.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File     string
	Off, End int
	New      string
	Desc     string
}

var bin = map[token.Token][]string{
	token.LSS: {"<=", ">", "!="}, token.LEQ: {"<", "=="}, token.GTR: {">=", "<", "!="}, token.GEQ: {">", "=="},
	token.EQL: {"!=", ">=", "<="}, token.NEQ: {"==", ">", "<"}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.SHL: {">>"}, token.SHR: {"<<"},
	token.AND: {"|", "&^"}, token.OR: {"&", "^"}, token.AND_NOT: {"&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b int, s, d string) {
			enc.Encode(mutant{f, a, b, s, fmt.Sprintf("%s:%d %s", f, 1+count(src[:a]), d)})
		}
		rep := func(n ast.Node, s string) {
			emit(off(n.Pos()), off(n.End()), s, text(n)+" => "+s)
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, o := range bin[x.Op] {
					a := off(x.OpPos)
					emit(a, a+len(x.Op.String()), o, text(x)+" with "+o)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					rep(x, text(x.X))
					rep(x, text(x.Y))
				}
				if x.Op == token.ADD || x.Op == token.SUB {
					rep(x, text(x.X))
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					rep(x, text(x.X))
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						rep(x, strconv.FormatInt(v+1, 10))
						if v > 0 {
							rep(x, strconv.FormatInt(v-1, 10))
						}
						if v > 1 {
							rep(x, "0")
						}
					}
				case token.STRING:
					if len(x.Value) > 2 {
						rep(x, `""`)
					}
				case token.CHAR:
					rep(x, `'@'`)
				}
			case *ast.Ident:
				if x.Name == "true" {
					rep(x, "false")
				} else if x.Name == "false" {
					rep(x, "true")
				}
			case *ast.IfStmt:
				rep(x.Cond, "!("+text(x.Cond)+")")
				rep(x.Cond, "("+text(x.Cond)+") && false")
				rep(x.Cond, "("+text(x.Cond)+") || true")
			case *ast.IncDecStmt:
				if x.Tok == token.INC {
					rep(x, text(x.X)+"--")
				} else {
					rep(x, text(x.X)+"++")
				}
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE {
					rep(x, "break")
				} else if x.Tok == token.BREAK {
					rep(x, "continue")
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch s.(type) {
					case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt:
						emit(off(s.Pos()), off(s.End()), "", "delete "+text(s))
					case *ast.AssignStmt:
						if s.(*ast.AssignStmt).Tok != token.DEFINE {
							emit(off(s.Pos()), off(s.End()), "", "delete "+text(s))
						}
					case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
						emit(off(s.Pos()), off(s.End()), "", "delete "+first(text(s)))
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					rep(x.Low, text(x.Low)+"+1")
				}
				if x.High != nil {
					rep(x.High, text(x.High)+"-1")
				}
			case *ast.CallExpr:
				if len(x.Args) == 2 {
					a, b := x.Args[0], x.Args[1]
					emit(off(a.Pos()), off(b.End()), text(b)+", "+text(a), text(x)+" args swapped")
				}
				if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
					switch id.Name {
					case "byte", "int", "int16", "int32", "int64", "uint16", "uint32", "uint64":
						rep(x, id.Name+"(int8("+text(x.Args[0])+"))")
						rep(x, id.Name+"(int16("+text(x.Args[0])+"))")
						rep(x, id.Name+"(uint8("+text(x.Args[0])+"))")
					}
				}
			}
			return true
		})
	}
}

func first(s string) string {
	for i := range s {
		if s[i] == '\n' {
			return s[:i] + " ..."
		}
	}
	return s
}

func count(b []byte) (n int) {
	for _, c := range b {
		if c == '\n' {
			n++
		}
	}
	return
}
