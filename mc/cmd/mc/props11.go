package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/ast"

	"verifmc/ref"
)

// --- C29 --------------------------------------------------------------------

// spanMap finds the character at a row and a column.
type spanMap struct{ rows []int } // where each row starts

func newSpanMap(src []rune) *spanMap {
	m := &spanMap{rows: []int{0}}
	for i, r := range src {
		if r == '\n' || r == '\u2028' || r == '\u2029' || r == '\r' && !(i+1 < len(src) && src[i+1] == '\n') {
			m.rows = append(m.rows, i+1)
		}
	}
	m.rows = append(m.rows, len(src)+1)
	return m
}

func (m *spanMap) offset(l ast.Location) int {
	if l.Row < 1 || l.Row >= len(m.rows) || l.Column < 1 {
		return -1
	}
	i := m.rows[l.Row-1] + l.Column - 1
	if i >= m.rows[l.Row] {
		return -1
	}
	return i
}

// A frame is a text around the extent of a node, and the way to the node in
// the tree of the whole.
type frame struct {
	pre, post string
	path      []string
}

func framesOf(l string) (r []frame) {
	for _, s := range lines(l) {
		f := strings.Split(s, " @ ")
		i := strings.Index(f[0], "|")
		r = append(r, frame{f[0][:i], f[0][i+1:], strings.Fields(f[1])})
	}
	return r
}

// statementFrames are the places for a list of statements; the path leads to
// the list.
var statementFrames = framesOf(`
| @ body
({m(){|}}) @ body 0 expression properties 0 value body body
({async m(){|}}) @ body 0 expression properties 0 value body body
({*m(){|}}) @ body 0 expression properties 0 value body body
({async*m(){|}}) @ body 0 expression properties 0 value body body
class A extends B{constructor(){|}} @ body 0 body body 0 value body body`)

// A node is read again as a member of a list of statements.
var nodeFrames = map[string][]frame{
	"Statement":          framesOf("{|} @ 0 body 0\n| @ 0\nfor(|;;); @ 0 init\nfor(| of 0); @ 0 left\nfor(| in 0); @ 0 left"),
	"Expression":         framesOf("(|) @ 0 expression"),
	"CatchClause":        framesOf("try{}| @ 0 handler"),
	"SwitchCase":         framesOf("switch(0){|} @ 0 cases 0"),
	"ClassBody":          framesOf("class A | @ 0 body\nclass A extends B| @ 0 body"),
	"VariableDeclarator": framesOf("var | @ 0 declarations 0\nfor(var | in 0); @ 0 left declarations 0\nconst | @ 0 declarations 0"),
	"Pattern":            framesOf("var |=0 @ 0 declarations 0 id\n(|)=>0 @ 0 expression params 0\n([|])=>0 @ 0 expression params 0 elements 0\n[|]=0 @ 0 expression left elements 0\n({a:|}=0) @ 0 expression left properties 0 value\n({|}=0) @ 0 expression left properties 0 value\n({|})=>0 @ 0 expression params 0 properties 0 value"),
	"Identifier":         framesOf("a.| @ 0 expression property\n(|) @ 0 expression\nasync(|)=>0 @ 0 expression params 0"),
	"Property":           framesOf("({|}) @ 0 expression properties 0\n({|}=0) @ 0 expression left properties 0\n({|})=>0 @ 0 expression params 0 properties 0"),
	"MethodDefinition":   framesOf("class A{|} @ 0 body body 0\nclass A extends B{|} @ 0 body body 0"),
	"FunctionExpression": framesOf("(|) @ 0 expression\n({m|}) @ 0 expression properties 0 value\n({async m|}) @ 0 expression properties 0 value\n({*m|}) @ 0 expression properties 0 value\n({async*m|}) @ 0 expression properties 0 value\n({get m|}) @ 0 expression properties 0 value\n({set m|}) @ 0 expression properties 0 value\nclass A extends B{constructor|} @ 0 body body 0 value"),
	"SpreadElement":      framesOf("f(|) @ 0 expression arguments 0\n[|] @ 0 expression elements 0"),
	"ImportSpecifier":    framesOf("import {|} from '' @ 0 specifiers 0\nimport |,{a} from '' @ 0 specifiers 0\nimport | from '' @ 0 specifiers 0"),
}

// spanFrames are the frames to try for a type of node.
func spanFrames(typ string) []frame {
	switch {
	case strings.HasSuffix(typ, "Statement") || strings.HasSuffix(typ, "Declaration"):
		return nodeFrames["Statement"]
	case strings.HasSuffix(typ, "Pattern"):
		return append(nodeFrames["Pattern"], nodeFrames["Expression"]...)
	case typ == "ImportDefaultSpecifier" || typ == "ImportNamespaceSpecifier":
		return nodeFrames["ImportSpecifier"]
	}
	if f := nodeFrames[typ]; f != nil {
		return f
	}
	if strings.HasSuffix(typ, "Expression") || typ == "Literal" {
		return nodeFrames["Expression"]
	}
	return nil
}

func follow(v any, path []string) any {
	for i, p := range path {
		switch x := v.(type) {
		case map[string]any:
			v = x[p]
		case []any:
			if len(x) == 0 || p != "0" {
				return nil
			}
			for _, e := range x[1:] {
				if m, _ := e.(map[string]any); i > 0 || m["type"] != "EmptyStatement" {
					return nil
				}
			}
			v = x[0]
		default:
			return nil
		}
	}
	return v
}

// bare removes what depends on the place of a node.
func bare(v any) any {
	switch x := v.(type) {
	case map[string]any:
		delete(x, "directive")
		delete(x, "sourceType")
		for _, e := range x {
			bare(e)
		}
	case []any:
		for _, e := range x {
			bare(e)
		}
	}
	return v
}

func treeOf(n ast.Node) any {
	b, err := estreeJSON(n)
	if err != nil {
		return nil
	}
	var v any
	if json.Unmarshal(b, &v) != nil {
		return nil
	}
	return bare(v)
}

// mayLackSpan are the Go types of nodes that need not have a span, together
// with those whose extent is that of a single one of these.
var mayLackSpan = map[string]bool{
	"Identifier": true, "NullLiteral": true, "BooleanLiteral": true, "StringLiteral": true, "NumberLiteral": true,
	"ThisExpression": true, "SpreadElement": true, "MethodDefinition": true,
}

// takesSemicolon are the Go types of nodes whose extent includes the semicolon
// at the end, if there is one. For expression statements and declarations of
// variables either is fine.
var takesSemicolon = words("ReturnStatement ThrowStatement BreakStatement ContinueStatement ImportDeclNode")

const blanks = " \t\n\r\u2028\u2029"

func semicolonNext(rest []rune) bool {
	for _, r := range rest {
		if !strings.ContainsRune(blanks, r) {
			return r == ';'
		}
	}
	return false
}

type spanWalk struct {
	c   *Case
	m   *spanMap
	bad string
	try int64
}

func (w *spanWalk) fail(v reflect.Value, format string, a ...any) {
	if w.bad == "" {
		w.bad = v.Type().Name() + ": " + fmt.Sprintf(format, a...)
	}
}

// walk judges the nodes below v, which is within the characters from lo to hi.
func (w *spanWalk) walk(v reflect.Value, lo, hi int, method bool) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			w.walk(v.Elem(), lo, hi, method)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i), lo, hi, method)
		}
	case reflect.Struct:
		t := v.Type().Name()
		if t == "BaseNode" {
			return
		}
		if v.CanInterface() {
			if n, ok := v.Interface().(ast.Node); ok && !n.ContainsTemporalNodes() {
				s := n.Span()
				switch {
				case s.Start.Row != 0 && s.End.Row != 0:
					if u, v := s.Start.URI, s.End.URI; u == nil || v == nil || *u != *srcURL || *v != *srcURL {
						w.bad = "span of another source"
						return
					}
					a, b := w.m.offset(s.Start), w.m.offset(s.End)
					if a < lo || b < a || b > hi {
						w.fail(v, "from %d:%d to %d:%d, which are the characters %d to %d and not in order within %d to %d", s.Start.Row, s.Start.Column, s.End.Row, s.End.Column, a, b, lo, hi)
						return
					}
					if d := w.reread(n, t, string(w.c.Src[a:b]), w.c.Src[b:]); d != "" {
						w.fail(v, "%q %s", string(w.c.Src[a:b]), d)
					}
					lo, hi = a, b
				case s.Start.Row == 0 && s.End.Row == 0 && w.lacks(v, method), s.Start.Row == 0 && method:
				default:
					w.fail(v, "span from %d:%d to %d:%d", s.Start.Row, s.Start.Column, s.End.Row, s.End.Column)
				}
			}
		}
		for i := 0; i < v.NumField(); i++ {
			w.walk(v.Field(i), lo, hi, t == "MethodDefinition" || t == "Property")
		}
	}
}

func (w *spanWalk) lacks(v reflect.Value, method bool) bool {
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if !v.IsValid() {
		return true
	}
	switch t := v.Type().Name(); t {
	case "ExpressionStatement":
		return w.lacks(v.FieldByName("Expression"), false)
	case "FunctionExpression":
		return method
	default:
		return mayLackSpan[t]
	}
}

func (w *spanWalk) reread(n ast.Node, goType, text string, rest []rune) string {
	want := treeOf(n)
	m, _ := want.(map[string]any)
	typ, _ := m["type"].(string)
	if typ == "" {
		w.c.count("no tree")
		return ""
	}
	if typ == "Program" {
		mode := ref.Script
		if goType == "ModuleNode" {
			mode = ref.Module
		}
		w.try++
		if o := runImpl([]rune(text), mode); !o.accepted() || !reflect.DeepEqual(treeOf(o.Node), want) {
			return "is not the program"
		}
		return ""
	}
	frames := spanFrames(typ)
	if frames == nil {
		w.c.count("no frame for " + typ)
		return ""
	}
	if strings.TrimRight(text, blanks) != text || strings.HasSuffix(text, "/**/") {
		return "ends after its last token"
	}
	if goType == "ParenthesizedExpression" && !strings.HasSuffix(text, ")") {
		return "ends before its closing parenthesis"
	}
	if contains(takesSemicolon, goType) && !strings.HasSuffix(text, ";") && semicolonNext(rest) {
		return "ends before its semicolon"
	}
	why := ""
	for _, mode := range []ref.Mode{ref.Script, ref.Module} {
		for _, f := range statementFrames {
			for _, g := range frames {
				w.try++
				o := runImpl([]rune(f.pre+g.pre+text+g.post+f.post), mode)
				if !o.accepted() {
					if why == "" {
						why = errText(&o)
					}
					continue
				}
				tree := follow(follow(treeOf(o.Node), f.path), g.path)
				if reflect.DeepEqual(tree, want) {
					return ""
				}
				why = "another tree"
			}
		}
	}
	return "does not read as the " + typ + ": " + why
}

func judgeSpans(c *Case) string {
	o := c.Impl()
	if !o.accepted() {
		return ""
	}
	w := &spanWalk{c: c, m: newSpanMap(c.Src)}
	w.walk(reflect.ValueOf(o.Node), 0, len(c.Src), false)
	c.ran(w.try)
	return w.bad
}

// spanContexts are the places for statements when their columns and rows are
// judged.
var spanContexts = []string{"'\U0001F600e\u0301' ; | ; '\U0001F600'", "/*\U0001F600*/ | ; a", "a ;\r\n\t| ;\r\n", "a ;\r| ;\r\n a", "a ;\u2028| ;\u2029 a", "\ufeff|", "/a/ ; /*\r\n*/ | ; /a/ // a",
	"'\\\r\n' ; | ; '\\\n'", "'\\\u2028\\\r' ; |", "'\u2028\u2029' ; |", "//\r\n//\n\r| //\u2029", "/*\r\r\n\n\u2028*/ | /*\n*/", "/[/]\\//g ; |", "a\t\v\f\u00a0\ufeff ; |", "{ } | { }", "( ( ) => { } ) ; |", "f ( function ( ) { a } , [ b ] , { c } )\n| ;"}

// bodyForms are functions and classes.
var bodyForms = lines(`
function f ( @ ) { # }
function * f ( @ ) { # }
async function f ( @ ) { # }
async function * f ( @ ) { # }
( function ( @ ) { # } )
( function g ( @ ) { # } )
( function * ( @ ) { # } )
( async function ( @ ) { # } )
( async function * ( @ ) { # } )
( @ ) => { # }
async ( @ ) => { # }
f ( ( @ ) => { # } , 1 )
( { m ( @ ) { # } } )
( { * m ( @ ) { # } } )
( { async m ( @ ) { # } } )
( { async * m ( @ ) { # } } )
( { [ a ] ( @ ) { # } , b } )
class A { m ( @ ) { # } }
class A { * m ( @ ) { # } }
class A { async m ( @ ) { # } }
class A { async * m ( @ ) { # } }
class A { static m ( @ ) { # } n ( ) { } }
class A extends B { constructor ( @ ) { # } }
( class { m ( @ ) { # } ; } )
new class A extends B { [ a ] ( @ ) { # } }`)

func init() {
	register(&Property{ID: "C29", Judge: judgeSpans, NoRef: true, Assumptions: []string{
		"nodes are compared by their ESTree trees, so an extent that reads as the same tree is right; blanks and comments before the first token of a node may belong to its span, and so do they in the implementation",
	}, Spaces: func(tier string) []Space {
		script, module := programs()
		stmts := statementTexts()
		var forms []string
		for _, f := range bodyForms {
			for _, p := range words("- a a,b a=1 [a] {a} {a:b=1} a,...b [a]=1 {a}={}") {
				for _, b := range lines("-\na ;\n'use strict' ;\nreturn a ;\nreturn\n{ a }\nvar [ x ] = a , y ;\nreturn ( ) => { a }") {
					f := strings.Replace(strings.Replace(f, "@", strings.ReplaceAll(p, "-", ""), 1), "#", strings.ReplaceAll(b, "-", ""), 1)
					forms = append(forms, f, f+" ; a", "a ;\n"+f)
				}
			}
		}
		var formInputs []Input
		for _, f := range forms {
			formInputs = append(formInputs, Input{Mode: ref.Script, Src: f}, Input{Mode: ref.Module, Src: f})
		}
		s := []Space{
			nestSpace("expressions", exprT, pick(tier, 2, 3), ref.Script),
			nestSpace("statements", stmtT, pick(tier, 2, 3), ref.Script),
			nestSpace("patterns", bindT, pick(tier, 2, 3), ref.Script, bindContexts...),
			broken("\n", nestSpace("expressions", exprT, 2, ref.Script)),
			broken("\r\n", nestSpace("statements", stmtT, 2, ref.Script)),
			broken("/*\n*/", nestSpace("patterns", bindT, 2, ref.Script, bindContexts...)),
			list("functions and classes", formInputs),
			broken("\r", list("functions and classes", formInputs)),
			inContexts("statements in bodies", ref.Script, bodyPlaces(), stmts),
			inContexts("statements between others", ref.Script, spanContexts, stmts),
			inContexts("statements between others", ref.Module, spanContexts, stmts),
			inContexts("expressions in contexts", ref.Script, exprContexts, flat(exprT)),
			nestSpace("expressions", exprT, 1, ref.Expression),
			distinct(within("every operation everywhere", ref.Script, append(exprContexts, deepPlaces("( | )", "[ | ]", "f ( | )", "x = |", "{ | }", "a => { | }")...), operations)),
			&gaps{"every operation", ref.Script, operations, allTrivia, 2, triviaLayout},
			&gaps{"forms", ref.Script, script, allTrivia, 1, triviaLayout},
			&gaps{"imports", ref.Module, module, allTrivia, 1, triviaLayout},
			inContexts("statements far from the start", ref.Script, []string{strings.Repeat(" ", 70000) + "|", strings.Repeat("\n", 70000) + "|", strings.Repeat("\r\n", 300) + "|", "/*" + strings.Repeat("\n", 300) + "*/" + strings.Repeat("\t", 300) + "|", "'" + strings.Repeat("\\\n", 300) + "' ; |"}, append([]string{"a\n= -b"}, flat(stmtT)...)),
			pumps("long programs", ref.Script, []int{255, 256, 257, 1000, 4096, 20000}, "¦a;\n¦¦¦", "¦-a;¦¦¦", "[¦-a,¦¦¦]", "f(¦-a,¦¦¦b)", "var a¦,b=-1¦¦¦;", "({¦a:-b,¦¦¦})", "switch(a){¦case -b:c;\n¦¦¦}", "class A{¦m(){-a}\n¦¦¦}", "function f(a¦,b=-1¦¦¦){}", "¦{}\r\n¦¦¦"),
			pumps("long lists and deep nestings", ref.Script, append(upTo(pick(tier, 24, 60)), 100),
				"a¦,b¦¦¦", "a¦+b¦¦¦", "¦(¦a¦)¦", "¦[¦a¦]¦", "¦{¦a¦}¦", "a¦.b¦¦¦", "a¦(b)¦¦¦", "a¦[b]¦¦¦", "¦-¦a¦¦", "¦a=¦b¦¦", "¦a=>¦b¦¦", "¦if(a)¦;¦else b¦", "f(a¦,b¦¦¦)", "({a¦,b:1¦¦¦})", "var a¦,b=1¦¦¦;", "¦a;\n¦¦¦", "¦'a'\n¦¦¦", "switch(a){¦case b:c;¦¦¦}", "class A{¦m(){}¦¦¦}", "¦function f(){¦a¦}¦", "a¦?b:c¦¦¦", "¦l:¦a¦¦", "¦new ¦A¦()¦", "¦for(;;)¦a¦¦", "¦try{¦a¦}catch(b){}¦", "¦(function(){¦a¦})()¦", "var ¦[¦a¦]¦=b", "a¦**b¦¦¦", "¦a?¦b¦:c¦"),
		}
		for _, l := range [][]Space{expressionLists(pick(tier, 2, 3)), statementSequences(2), patternLists(pick(tier, 2, 3)), memberSequences(2), importedLists(pick(tier, 2, 3))} {
			for _, x := range l {
				if strings.Contains(x.Name(), "long") && tier == "quick" {
					continue
				}
				s = append(s, x)
			}
		}
		return append(s,
			&Lex{N: "expressions", Mode: ref.Script, Alpha: words("a ( ) , = + [ ] . => { } - :"), Sep: " ", Depth: pick(tier, 6, 7)},
			&Lex{N: "statements", Mode: ref.Script, Alpha: words("a { } ; if ( ) else var = for in \n do while"), Sep: " ", Depth: pick(tier, 6, 7)},
			&Lex{N: "line breaks", Mode: ref.Script, Pre: "function f ( ) { for ( ; ; ) {", Suf: []string{"} }"}, Alpha: append(words("a ; return break continue throw ++ }  var"), "\n", "/*\n*/", "//\r\n"), Sep: " ", Depth: pick(tier, 4, 5)},
		)
	}})
}

// count counts an outcome.
func (c *Case) count(k string) {
	if c.G != nil {
		c.G.count(k)
	}
}

func contains(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}
