package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
)

// The ESTree definition of the node types (ES2015 core with the later types
// for the constructs the parser accepts), as field specifications:
//
//	name:kind  with kind one of
//	N<class>   a node of the class; N?<class> may be null
//	L<class>   a list of nodes; L?<class> with null elements allowed
//	b          boolean; b? boolean that may be missing
//	s          non-empty string; s? optional string
//	=a|b|c     one of the given strings
//	v          literal value
var schemaText = `
Program sourceType:=script|module body:LItem
Identifier name:s
Literal value:v raw:s?
ExpressionStatement expression:NExpr directive:s?
BlockStatement body:LStmt
EmptyStatement
ReturnStatement argument:N?Expr
ThrowStatement argument:NExpr
BreakStatement label:N?Identifier
ContinueStatement label:N?Identifier
LabeledStatement label:NIdentifier body:NStmt
IfStatement test:NExpr consequent:NStmt alternate:N?Stmt
SwitchStatement discriminant:NExpr cases:LSwitchCase
SwitchCase test:N?Expr consequent:LStmt
WhileStatement test:NExpr body:NStmt
DoWhileStatement body:NStmt test:NExpr
ForStatement init:N?ForInit test:N?Expr update:N?Expr body:NStmt
ForInStatement left:NForLeft right:NExpr body:NStmt each:b?
ForOfStatement left:NForLeft right:NExpr body:NStmt await:b?
TryStatement block:NBlockStatement handler:N?CatchClause finalizer:N?BlockStatement
CatchClause param:N?Pattern body:NBlockStatement
FunctionDeclaration id:NIdentifier params:LParam body:NBlockStatement generator:b async:b expression:b?
VariableDeclaration kind:=var|let|const declarations:LVariableDeclarator
VariableDeclarator id:NPattern init:N?Expr
ClassDeclaration id:NIdentifier superClass:N?Expr body:NClassBody
ClassExpression id:N?Identifier superClass:N?Expr body:NClassBody
ClassBody body:LMethodDefinition
MethodDefinition key:NExpr value:NFunctionExpression kind:=constructor|method|get|set computed:b static:b
ThisExpression
ArrayExpression elements:L?Element
ObjectExpression properties:LObjectMember
Property key:NExpr value:NPropertyValue kind:=init|get|set method:b shorthand:b computed:b
FunctionExpression id:N?Identifier params:LParam body:NBlockStatement generator:b async:b expression:b?
ArrowFunctionExpression id:N?Identifier params:LParam body:NArrowBody generator:b? async:b expression:b
UnaryExpression operator:=-|+|!|~|typeof|void|delete prefix:b argument:NExpr
UpdateExpression operator:=++|-- prefix:b argument:NTarget
BinaryExpression operator:===|!=|===|!==|<|<=|>|>=|<<|>>|>>>|+|-|*|/|%|**|BITOR|^|&|in|instanceof left:NExpr right:NExpr
LogicalExpression operator:=OROR|&&|?? left:NExpr right:NExpr
AssignmentExpression operator:==|+=|-=|*=|/=|%=|**=|<<=|>>=|>>>=|BITOR=|^=|&=|OROR=|&&=|??= left:NPattern right:NExpr
ConditionalExpression test:NExpr consequent:NExpr alternate:NExpr
CallExpression callee:NExpr arguments:LArgument optional:b?
NewExpression callee:NExpr arguments:LArgument
MemberExpression object:NExpr property:NExpr computed:b optional:b?
SequenceExpression expressions:LExpr
AwaitExpression argument:NExpr
YieldExpression argument:N?Expr delegate:b
SpreadElement argument:NExpr
ArrayPattern elements:L?PatternElement
ObjectPattern properties:LPatternMember
AssignmentPattern left:NPattern right:NExpr
RestElement argument:NPattern
ImportDeclaration specifiers:LSpecifier source:NLiteral
ImportSpecifier imported:NIdentifier local:NIdentifier
ImportDefaultSpecifier local:NIdentifier
ImportNamespaceSpecifier local:NIdentifier
`

const (
	exprTypes = "Identifier Literal ThisExpression ArrayExpression ObjectExpression FunctionExpression ArrowFunctionExpression ClassExpression UnaryExpression UpdateExpression BinaryExpression LogicalExpression AssignmentExpression ConditionalExpression CallExpression NewExpression MemberExpression SequenceExpression AwaitExpression YieldExpression"
	stmtTypes = "ExpressionStatement BlockStatement EmptyStatement ReturnStatement ThrowStatement BreakStatement ContinueStatement LabeledStatement IfStatement SwitchStatement WhileStatement DoWhileStatement ForStatement ForInStatement ForOfStatement TryStatement FunctionDeclaration VariableDeclaration ClassDeclaration"
	patTypes  = "Identifier MemberExpression ObjectPattern ArrayPattern AssignmentPattern"
)

var classes = map[string]map[string]bool{}

type fieldSpec struct {
	name, kind, class string
	null              bool
	enum              map[string]bool
}

var schema = map[string][]fieldSpec{}

func init() {
	set := func(name string, types ...string) {
		m := map[string]bool{}
		for _, t := range types {
			for _, w := range words(t) {
				m[w] = true
			}
		}
		classes[name] = m
	}
	set("Expr", exprTypes)
	set("Stmt", stmtTypes)
	set("Program", "Program")
	set("Item", stmtTypes, "ImportDeclaration")
	set("Pattern", patTypes)
	set("Param", "Identifier ObjectPattern ArrayPattern AssignmentPattern RestElement")
	set("PatternElement", patTypes, "RestElement")
	set("PatternMember", "Property RestElement")
	set("Element", exprTypes, "SpreadElement")
	set("Argument", exprTypes, "SpreadElement")
	set("ObjectMember", "Property SpreadElement")
	set("PropertyValue", exprTypes, patTypes)
	set("ArrowBody", exprTypes, "BlockStatement")
	set("ForInit", exprTypes, "VariableDeclaration")
	set("ForLeft", patTypes, "VariableDeclaration")
	set("Target", "Identifier MemberExpression")
	set("Specifier", "ImportSpecifier ImportDefaultSpecifier ImportNamespaceSpecifier")
	for _, l := range lines(schemaText) {
		f := words(l)
		specs := []fieldSpec{}
		for _, s := range f[1:] {
			i := strings.IndexByte(s, ':')
			spec := fieldSpec{name: s[:i]}
			k := s[i+1:]
			switch k[0] {
			case '=':
				spec.kind = "="
				spec.enum = map[string]bool{}
				for _, o := range strings.Split(k[1:], "|") {
					o = strings.ReplaceAll(strings.ReplaceAll(o, "OROR", "||"), "BITOR", "|")
					spec.enum[o] = true
				}
			case 'N', 'L':
				spec.kind, spec.class = k[:1], k[1:]
				if spec.class[0] == '?' {
					spec.null, spec.class = true, spec.class[1:]
				}
				if classes[spec.class] == nil {
					set(spec.class, spec.class)
				}
			default:
				spec.kind = k
			}
			specs = append(specs, spec)
		}
		schema[f[0]] = specs
	}
}

// checkNode checks a node against the definition; it returns "" or what is
// wrong.
func checkNode(j *J, class string) string {
	if j == nil || j.kind != 'o' {
		return ": expected a node (" + class + "), got " + short(j)
	}
	typ := j.str("type")
	specs, ok := schema[typ]
	if !ok {
		return fmt.Sprintf(": node of type %q, which ESTree does not define", typ)
	}
	if class != "" && !classes[class][typ] {
		return fmt.Sprintf(": a %s is not allowed here (%s)", typ, class)
	}
	for i, k := range j.k {
		for _, l := range j.k[:i] {
			if k == l {
				return "." + k + ": duplicate field"
			}
		}
	}
	for i := range specs {
		s := &specs[i]
		g := j.get(s.name)
		p := "." + s.name
		switch s.kind {
		case "N":
			if s.null && (g == nil || g.kind == 'n') {
				if g == nil && !(typ == "ArrowFunctionExpression" && s.name == "id") {
					return p + ": missing in " + typ
				}
				continue
			}
			if d := checkNode(g, s.class); d != "" {
				return p + d
			}
		case "L":
			if g == nil || g.kind != 'a' {
				return p + ": expected a list, got " + short(g)
			}
			for i, e := range g.a {
				if s.null && e.kind == 'n' {
					continue
				}
				if d := checkNode(e, s.class); d != "" {
					return p + "[" + strconv.Itoa(i) + "]" + d
				}
			}
		case "b", "b?":
			if g == nil && s.kind == "b?" {
				continue
			}
			if g == nil || g.kind != 'b' {
				return p + ": expected a boolean, got " + short(g)
			}
		case "s", "s?":
			if g == nil && s.kind == "s?" {
				continue
			}
			if g == nil || g.kind != 's' || s.kind == "s" && g.s == "" {
				return p + ": expected a string, got " + short(g)
			}
		case "=":
			if g == nil || g.kind != 's' || !s.enum[g.s] {
				return p + ": illegal value " + short(g) + " in " + typ
			}
		case "v":
			if g == nil || g.kind == 'a' || g.kind == 'o' && j.get("regex") == nil {
				return p + ": illegal literal value " + short(g)
			}
		}
	}
	return checkExtra(typ, j)
}

// checkExtra has the constraints between the fields of a node.
func checkExtra(typ string, j *J) string {
	is := func(k string) bool { v := j.get(k); return v != nil && v.kind == 'b' && v.b }
	n := func(k string) int { v := j.get(k); return len(v.a) }
	t := func(k string) string { v := j.get(k); return v.str("type") }
	switch typ {
	case "Literal":
		if r := j.get("regex"); r != nil {
			if r.kind != 'o' || r.get("pattern") == nil || r.get("pattern").kind != 's' || r.get("flags") == nil || r.get("flags").kind != 's' {
				return ".regex: malformed"
			}
			if raw := j.get("raw"); raw != nil && raw.s != "/"+r.str("pattern")+"/"+r.str("flags") {
				return ".regex: pattern and flags do not make up the raw text"
			}
		} else if v, raw := j.get("value"), j.str("raw"); raw != "" {
			c := raw[0]
			kind := byte('d')
			switch {
			case c == '"' || c == '\'':
				kind = 's'
			case raw == "true" || raw == "false":
				kind = 'b'
			case raw == "null":
				kind = 'n'
			}
			if v.kind != kind && !(kind == 'd' && v.kind == 'n') {
				return fmt.Sprintf(".value: %s for the literal %s", short(v), raw)
			}
		}
	case "TryStatement":
		if j.get("handler").kind == 'n' && j.get("finalizer").kind == 'n' {
			return ": try statement without handler and finalizer"
		}
	case "VariableDeclaration":
		if n("declarations") == 0 {
			return ".declarations: empty"
		}
	case "SequenceExpression":
		if n("expressions") < 2 {
			return ".expressions: a sequence needs two expressions"
		}
	case "UnaryExpression":
		if !is("prefix") {
			return ".prefix: must be true"
		}
	case "ForInStatement", "ForOfStatement":
		if l := j.get("left"); l.str("type") == "VariableDeclaration" && len(l.get("declarations").a) != 1 {
			return ".left: must be a single declaration"
		}
	case "ArrowFunctionExpression":
		if is("expression") != (t("body") != "BlockStatement") {
			return ".expression: does not agree with the body"
		}
		if is("generator") {
			return ".generator: must be false"
		}
	case "MemberExpression":
		if !is("computed") && t("property") != "Identifier" {
			return ".property: must be an Identifier"
		}
	case "Property", "MethodDefinition":
		if !is("computed") && t("key") != "Identifier" && (t("key") != "Literal" || j.get("key").get("regex") != nil) {
			return ".key: a " + t("key") + " must be computed"
		}
		k := j.str("kind")
		if typ == "Property" {
			if (is("method") || k != "init") && t("value") != "FunctionExpression" {
				return ".value: must be a FunctionExpression"
			}
			if is("shorthand") && (is("computed") || is("method") || k != "init") {
				return ".shorthand: can not be computed, a method or an accessor"
			}
		}
		v := j.get("value")
		if k == "get" && len(v.get("params").a) != 0 || k == "set" && len(v.get("params").a) > 1 {
			return ".value.params: wrong number of parameters of an accessor"
		}
		if k == "constructor" && (is("static") || is("computed")) {
			return ".kind: constructor can not be static or computed"
		}
	case "AssignmentExpression":
		if op := j.str("operator"); op != "=" && t("left") != "Identifier" && t("left") != "MemberExpression" || t("left") == "AssignmentPattern" {
			return ".left: a " + t("left") + " can not be assigned to with " + op
		}
	case "AssignmentPattern":
		if t("left") == "AssignmentPattern" {
			return ".left: nested AssignmentPattern"
		}
	}
	return ""
}

// patternMembers: the values of the properties of a pattern are patterns, those
// of an object are not; a rest element comes last.
func checkPatterns(j *J, inPattern bool) string {
	typ := j.str("type")
	for i, k := range j.k {
		children := []*J{j.a[i]}
		if j.a[i].kind == 'a' {
			children = j.a[i].a
		}
		for _, e := range children {
			if e.kind != 'o' || e.get("type") == nil {
				continue
			}
			if e.str("type") == "Property" {
				v := e.get("value").str("type")
				if typ == "ObjectPattern" {
					if !classes["Pattern"][v] || e.str("kind") != "init" || e.get("method").b {
						return ": " + v + " in a pattern"
					}
				} else if !classes["Expr"][v] {
					return ": " + v + " in an object"
				}
			}
			if d := checkPatterns(e, false); d != "" {
				return "." + k + d
			}
		}
		if l := j.a[i].a; typ != "" && j.a[i].kind == 'a' {
			for n, e := range l {
				if e.kind == 'o' && e.str("type") == "RestElement" && n != len(l)-1 {
					return "." + k + ": rest element that is not the last"
				}
			}
		}
	}
	return ""
}

// judgeSchema: the ESTree conversion of an accepted program is well-formed and
// repeatable.
func judgeSchema(c *Case) string {
	if !c.Impl().accepted() {
		return ""
	}
	j, err := c.JSON()
	if err != nil {
		return "the tree can not be converted: " + err.Error()
	}
	class := "Expr"
	want := ""
	switch c.Mode {
	case 0:
		class, want = "Program", "script"
	case 1:
		class, want = "Program", "module"
	}
	if d := checkNode(j, class); d != "" {
		return "at " + class + d
	}
	if j.str("sourceType") != want {
		return fmt.Sprintf("sourceType is %q", j.str("sourceType"))
	}
	if d := checkPatterns(j, false); d != "" {
		return "at " + class + d
	}
	b, err := estreeJSON(c.Impl().Node)
	if err != nil {
		return "the second conversion fails: " + err.Error()
	}
	if !bytes.Equal(b, c.jbytes) {
		return "the second conversion gives a different result"
	}
	// The values are those of the source.
	return judgeTree(c)
}
