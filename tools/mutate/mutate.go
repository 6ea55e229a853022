// Command mutate lists small changes of Go files, one JSON object per line. It
// is used during development to find behaviour that no check looks at.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File       string `json:"file"`
	Line       int    `json:"line"`
	Func       string `json:"func"`
	Kind       string `json:"kind"`
	Start, End int
	Text       string `json:"text"`
	Old        string `json:"old"`
}

var (
	fset = token.NewFileSet()
	src  []byte
	file string
	fn   string
	out  = json.NewEncoder(os.Stdout)
)

func off(p token.Pos) int { return fset.Position(p).Offset }

func text(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }

func emit(kind string, n ast.Node, t string) {
	emitRange(kind, n.Pos(), n.End(), t)
}

func emitRange(kind string, a, b token.Pos, t string) {
	old := string(src[off(a):off(b)])
	if old == t {
		return
	}
	out.Encode(mutant{file, fset.Position(a).Line, fn, kind, off(a), off(b), t, old})
}

var swaps = map[token.Token][]string{
	token.LAND: {"||"}, token.LOR: {"&&"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"},
	token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

func cond(e ast.Expr) {
	if e == nil {
		return
	}
	emit("negate", e, "!("+text(e)+")")
	emit("true", e, "("+text(e)+" || true)")
	emit("false", e, "("+text(e)+" && false)")
}

func visit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.FuncDecl:
		fn = n.Name.Name
	case *ast.ImportSpec, *ast.TypeSpec:
		return false
	case *ast.IfStmt:
		cond(n.Cond)
		if n.Else != nil {
			emitRange("no else", n.Body.End(), n.Else.End(), "")
		}
	case *ast.ForStmt:
		if n.Cond != nil {
			emit("negate", n.Cond, "!("+text(n.Cond)+")")
			emit("false", n.Cond, "("+text(n.Cond)+" && false)")
		}
	case *ast.BinaryExpr:
		for _, s := range swaps[n.Op] {
			emitRange("operator", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s)
		}
		if n.Op == token.LAND || n.Op == token.LOR {
			emit("left", n, text(n.X))
			emit("right", n, text(n.Y))
		}
	case *ast.UnaryExpr:
		if n.Op == token.NOT {
			emit("not", n, text(n.X))
		}
	case *ast.BlockStmt:
		stmts(n.List)
	case *ast.CaseClause:
		stmts(n.Body)
		if len(n.Body) > 0 {
			emitRange("empty case", n.Colon+1, n.End(), "")
		}
		for i, e := range n.List {
			if len(n.List) > 1 {
				if i+1 < len(n.List) {
					emitRange("drop case", e.Pos(), n.List[i+1].Pos(), "")
				} else {
					emitRange("drop case", n.List[i-1].End(), e.End(), "")
				}
			}
		}
	case *ast.Ident:
		switch n.Name {
		case "true":
			emit("bool", n, "false")
		case "false":
			emit("bool", n, "true")
		}
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			emit("number", n, n.Value+"+1")
			if n.Value != "0" {
				emit("number", n, n.Value+"-1")
			}
		case token.CHAR:
			emit("char", n, n.Value+"+1")
			emit("char", n, n.Value+"-1")
		case token.STRING:
			if s, err := strconv.Unquote(n.Value); err == nil && len(s) > 0 && len(s) < 60 && !strings.Contains(s, "%") {
				emit("string", n, strconv.Quote(s+"x"))
				emit("string", n, strconv.Quote(s[1:]))
			}
		}
	case *ast.SelectorExpr:
		// tokens and other constants: a neighbour
		if x, ok := n.X.(*ast.Ident); ok && (x.Name == "lexer" || x.Name == "ast") && strings.HasPrefix(n.Sel.Name, "Token") {
			emit("token", n, text(n)+"+1")
			emit("token", n, text(n)+"-1")
		}
	case *ast.CallExpr:
		for i, a := range n.Args {
			for j := i + 1; j < len(n.Args); j++ {
				if text(a) != text(n.Args[j]) {
					emitRange("swap", a.Pos(), n.Args[j].End(), text(n.Args[j])+string(src[off(a.End()):off(n.Args[j].Pos())])+text(a))
				}
			}
		}
	case *ast.CompositeLit:
		for i, e := range n.Elts {
			if i+1 < len(n.Elts) {
				emitRange("drop element", e.Pos(), n.Elts[i+1].Pos(), "")
			} else {
				emit("drop element", e, "")
			}
		}
	case *ast.ReturnStmt:
		for _, r := range n.Results {
			if t := text(r); t == "nil" || t == "err" {
				continue
			}
			emit("return nil", r, "nil")
		}
	case *ast.SliceExpr:
		if n.Low != nil {
			emit("number", n.Low, "("+text(n.Low)+")+1")
		}
		if n.High != nil {
			emit("number", n.High, "("+text(n.High)+")-1")
		}
	}
	return true
}

func stmts(l []ast.Stmt) {
	for i, s := range l {
		switch s := s.(type) {
		case *ast.DeclStmt, *ast.LabeledStmt:
		case *ast.AssignStmt:
			if s.Tok == token.DEFINE {
				continue
			}
			emit("delete", s, "")
			if s.Tok == token.ASSIGN {
				continue
			}
		default:
			emit("delete", s, "")
		}
		if i+1 < len(l) {
			// two neighbours exchanged
			a, b := s, l[i+1]
			_, x := a.(*ast.ReturnStmt)
			_, y := b.(*ast.ReturnStmt)
			if !x && !y {
				emitRange("exchange", a.Pos(), b.End(), text(b)+"\n"+text(a))
			}
		}
	}
}

func main() {
	for _, file = range os.Args[1:] {
		var err error
		if src, err = os.ReadFile(file); err != nil {
			panic(err)
		}
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		fn = ""
		ast.Inspect(f, visit)
	}
	fmt.Fprintln(os.Stderr, "done")
}
