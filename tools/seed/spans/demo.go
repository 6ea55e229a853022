// Looks for nodes by the extents of their source.
package main

import (
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
)

func offset(src []rune, l ast.Location) int {
	row, col := 1, 1
	for i, r := range src {
		if row == l.Row && col == l.Column {
			return i
		}
		if r == '\n' || r == '\u2028' || r == '\u2029' || r == '\r' && !(i+1 < len(src) && src[i+1] == '\n') {
			row, col = row+1, 1
		} else {
			col++
		}
	}
	if row == l.Row && col == l.Column {
		return len(src)
	}
	return -1
}

func walk(v reflect.Value, f func(t string, n ast.Node)) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			walk(v.Elem(), f)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), f)
		}
	case reflect.Struct:
		if v.Type().Name() == "BaseNode" {
			return
		}
		if n, ok := v.Interface().(ast.Node); ok {
			f(v.Type().Name(), n)
		}
		for i := 0; i < v.NumField(); i++ {
			walk(v.Field(i), f)
		}
	}
}

var tests = []struct {
	module bool
	src    string
	nodes  []string
}{
	{false, "x = a + b * c - d", []string{"AssignmentExpression x = a + b * c - d", "BinaryExpression a + b * c - d", "BinaryExpression a + b * c", "BinaryExpression b * c"}},
	{false, "a = b ? (c) : -d, e++, --f", []string{"SequenceExpression a = b ? (c) : -d, e++, --f", "AssignmentExpression a = b ? (c) : -d", "ConditionalExpression b ? (c) : -d", "ParenthesizedExpression (c)", "UnaryExpression -d", "UpdateExpression e++", "UpdateExpression --f"}},
	{false, "a.b[c](d).e(f, g)[h].i;", []string{"MemberExpression a.b", "MemberExpression a.b[c]", "CallExpression a.b[c](d)", "CallExpression a.b[c](d).e(f, g)", "MemberExpression a.b[c](d).e(f, g)[h].i", "MemberExpression a.b[c](d).e(f, g)[h]"}},
	{false, "new A(1).b; new B; (a => b)(1); async c => d; f(/x/g)", []string{"NewExpression new A(1)", "NewExpression new B", "FunctionExpression a => b", "FunctionExpression async c => d", "RegExpLiteral /x/g"}},
	{false, "\nfunction f(a) {\n  return a;\n}\nvar s = '\U0001F600', t = [1, 2];\r\n\tlet u = {v, w: [x]};", []string{"FunctionDeclaration function f(a) {\n  return a;\n}", "ReturnStatement return a;", "ArrayExpression [1, 2]", "ObjectExpression {v, w: [x]}", "ArrayExpression [x]"}},
	{false, "if (a) { b; } else for (;;) break; do c; while (d); l: while (e) { continue l; }", []string{"IfStatement if (a) { b; } else for (;;) break;", "BlockStatement { b; }", "ForStatement for (;;) break;", "BreakStatement break;", "LabeledStatement l: while (e) { continue l; }", "WhileStatement while (e) { continue l; }", "ContinueStatement continue l;"}},
	{false, "for (var a of b) ; for (c in d) e; switch (f) { case 1: g; default: h; } throw i;", []string{"ForOfStatement for (var a of b) ;", "ForInStatement for (c in d) e;", "SwitchStatement switch (f) { case 1: g; default: h; }", "ThrowStatement throw i;"}},
	{false, "try { a } catch (b) { c } finally { d }\nclass A extends B { m() { return 1 } }\n(class {}); (function () { e })", []string{"TryStatement try { a } catch (b) { c } finally { d }", "CatchClause catch (b) { c }", "ClassDeclaration class A extends B { m() { return 1 } }", "ClassExpression class {}", "FunctionExpression function () { e }"}},
	{true, "import a, {b as c} from 'm';\nimport 'n'\nimport * as o from 'p'\nd", []string{"ImportDeclNode import a, {b as c} from 'm';", "ImportDeclNode import 'n'", "ImportDeclNode import * as o from 'p'"}},
	{false, "'\U0001F600' + a; b\u2028c ** d\u2029e ** f\rg in h\r\ni instanceof j", []string{"BinaryExpression '\U0001F600' + a", "BinaryExpression c ** d", "BinaryExpression e ** f", "BinaryExpression g in h", "BinaryExpression i instanceof j"}},
	{false, "({a, 'b': c, 1: d, e() { f; g }, get h() { return 1 }})", []string{"ParenthesizedExpression ({a, 'b': c, 1: d, e() { f; g }, get h() { return 1 }})", "FunctionExpression () { f; g }", "BlockStatement { f; g }", "StringLiteral 'b'", "NumberLiteral 1"}},
	{false, "async(a, b)\nvar c = ([d]) => ({e})\nasync (f) => { g }", []string{"CallExpression async(a, b)", "FunctionExpression ([d]) => ({e})", "FunctionExpression async (f) => { g }", "ObjectExpression {e}", "BlockStatement { g }"}},
	{false, "a + b ? c : d; e = f + g * h ? i : j; k * l, m - n", []string{"ConditionalExpression a + b ? c : d", "AssignmentExpression e = f + g * h ? i : j", "ConditionalExpression f + g * h ? i : j", "SequenceExpression k * l, m - n"}},
	{false, "var q = [1], r = 2; let s = (3), t;", []string{"VariableDeclaration var q = [1], r = 2", "VariableDeclaration let s = (3), t"}},
	{false, "function f(" + strings.Repeat("(", 40) + "", nil},
	{false, "a" + strings.Repeat("\n\n+ b", 60), []string{"BinaryExpression a" + strings.Repeat("\n\n+ b", 60), "BinaryExpression a" + strings.Repeat("\n\n+ b", 59)}},
}

func main() {
	bad := false
	for _, t := range tests {
		m := parser.ScriptMode
		if t.module {
			m = parser.ModuleMode
		}
		n, err := parser.NewParser(lexer.NewLexer(lexer.NewScanner(strings.NewReader(t.src), nil))).Parse(parser.ParseOptions{Mode: m})
		if err != nil {
			if t.nodes != nil {
				panic(err)
			}
			continue
		}
		src := []rune(t.src)
		have := map[string]bool{}
		walk(reflect.ValueOf(n), func(typ string, n ast.Node) {
			a, b := offset(src, n.Span().Start), offset(src, n.Span().End)
			if a >= 0 && b > a {
				if typ == "VariableDeclaration" && src[b-1] == ';' {
					b--
				}
				have[typ+" "+strings.TrimLeft(string(src[a:b]), " \t\r\n\u2028\u2029")] = true
			}
		})
		for _, w := range t.nodes {
			if !have[w] {
				fmt.Printf("no %q\n", w)
				bad = true
			}
		}
	}
	if bad {
		os.Exit(1)
	}
}
