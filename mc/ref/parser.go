package ref

// Node is a node of the prescribed ESTree.
type Node struct {
	Type  string
	F     []Field
	Paren bool   // was parenthesized in the source (not part of the ESTree)
	Tok   *Token // literals and identifiers: the token
}

// Field is a property of a node. V is nil, bool, string, float64, []uint16 (a
// string value), *Node or []*Node (whose elements may be nil).
type Field struct {
	K string
	V any
}

func (n *Node) Get(k string) any {
	for i := range n.F {
		if n.F[i].K == k {
			return n.F[i].V
		}
	}
	return nil
}

func mk(typ string, kv ...any) *Node {
	n := &Node{Type: typ, F: make([]Field, 0, len(kv)/2)}
	for i := 0; i < len(kv); i += 2 {
		v := kv[i+1]
		if x, ok := v.(*Node); ok && x == nil {
			v = nil
		}
		n.F = append(n.F, Field{kv[i].(string), v})
	}
	return n
}

type Mode int

const (
	Script Mode = iota
	Module
	Expression
)

type Verdict int

const (
	Accept Verdict = iota
	Reject
	Unspec
)

func (v Verdict) String() string { return [...]string{"accept", "reject", "unspec"}[v] }

// Result is the model's answer for a source text.
type Result struct {
	Verdict Verdict
	Tree    *Node  // Accept, and Unspec where a tree is known
	Soft    string // Accept: an early error outside of the claims applies, so that a rejection is fine too
	Why     string // Unspec: reason; Reject: what was expected
	// Reject: the reported location has to lie between these rune offsets.
	Lo, Hi int
	// SawEOF is set when the answer depends on the input ending where it does.
	SawEOF bool
}

type ctx struct {
	strict, async, gen, fn bool

	head  bool // in what may be the parameters of an async arrow function
	inner bool // in the parameters of an arrow function in such
}

// mark is state that is rolled back when an alternative fails.
type mark struct {
	pend string // a feature without claims was used
	soft string
}

type parser struct {
	l    *Lexer
	pos  int // end of the last consumed token
	mode Mode
	imp  bool // parsing an import declaration
	c    ctx
	m    mark

	abort string

	// The furthest failure.
	errSet       bool
	errAt        int
	errLo, errHi int
	errPend      string
	errWhy       string
	failed       map[uint64]bool

	// Where a feature without claims was met first in any alternative.
	pendSeen bool
	pendAt   int

	// relax accepts everything that the cover grammars of parentheses, arrays
	// and objects accept; depth and covered keep track of them.
	relax   bool
	depth   int
	covered bool
}

// CoverEnd is the latest place at which a parser that works with the cover
// grammars of ECMA-262 (CoverParenthesizedExpressionAndArrowParameterList,
// CoverInitializedName) can notice that a rejected text is not valid: at the
// token after the outermost bracket that is not what it has to be.
func CoverEnd(src []rune, mode Mode) int {
	p := &parser{l: NewLexer(src, mode == Module), mode: mode, relax: true}
	if p.program() != nil || p.abort != "" {
		return len(src)
	}
	return p.errHi
}

// enter and leave surround constructs that can be covers.
func (p *parser) enter() { p.depth++ }

// leave returns false if the outermost construct can only be a pattern or
// parameters, but is neither followed by = nor =>.
func (p *parser) leave() bool {
	p.depth--
	if p.depth > 0 || !p.covered {
		return true
	}
	p.covered = false
	p.fail(p.peek(GoalDiv), "unresolved cover grammar")
	return false
}

// Parse is the model: a function from source text and mode to a verdict.
func Parse(src []rune, mode Mode) Result {
	p := &parser{l: NewLexer(src, mode == Module), mode: mode}
	tree := p.program()
	r := Result{SawEOF: p.l.SawEOF()}
	switch {
	case p.abort != "":
		r.Verdict, r.Why = Unspec, p.abort
	case tree != nil && p.m.pend != "":
		r.Verdict, r.Why, r.Tree = Unspec, p.m.pend, tree
	case tree != nil:
		r.Verdict, r.Tree, r.Soft = Accept, tree, p.m.soft
	case p.errPend != "":
		r.Verdict, r.Why = Unspec, p.errPend
	default:
		r.Verdict, r.Lo, r.Hi, r.Why = Reject, p.errLo, p.errHi, p.errWhy
		if p.pendSeen && p.pendAt < r.Lo {
			r.Lo = p.pendAt
		}
	}
	return r
}

// --- tokens -----------------------------------------------------------------

func (p *parser) peek(goal int) *Token {
	t := p.l.Next(p.pos, goal)
	if t.Kind == UNSPEC && p.abort == "" {
		p.abort = t.Why
	}
	return t
}

func (p *parser) take(t *Token) { p.pos = t.End }

// fail records that no alternative fits at token t.
func (p *parser) fail(t *Token, why string) { p.failRange(t.Start, t.Prev, t.End, why) }

func (p *parser) failRange(at, lo, hi int, why string) {
	if p.errSet && at < p.errAt {
		return
	}
	pend := p.m.pend
	if pend == "" && p.m.soft != "" {
		pend = p.m.soft
	}
	if p.errSet && at == p.errAt {
		if p.errPend == "" {
			p.errPend = pend
		}
		if lo < p.errLo {
			p.errLo = lo
		}
		if hi > p.errHi {
			p.errHi = hi
		}
		return
	}
	p.errSet, p.errAt, p.errLo, p.errHi, p.errPend, p.errWhy = true, at, lo, hi, pend, why
}

// early records an early error of a whole construct; its location is only
// required to lie in the input.
func (p *parser) early(t *Token, why string) { p.failRange(t.Start, 0, len(p.l.Src), why) }

// note records that from here on the parser may give up anywhere.
func (p *parser) note() {
	if !p.pendSeen || p.pos < p.pendAt {
		p.pendSeen, p.pendAt = true, p.pos
	}
}

func (p *parser) pend(why string) {
	p.note()
	if p.m.pend == "" {
		p.m.pend = why
	}
}
func (p *parser) soft(why string) {
	if p.m.soft == "" {
		p.m.soft = why
	}
}
func (p *parser) stop(why string) {
	if p.abort == "" {
		p.abort = why
	}
}

// stopAwait stops at an await expression. In the parameters of an async arrow
// function await is not allowed at all, but they may turn out to be the
// arguments of a call to async.
func (p *parser) stopAwait() {
	if p.c.head {
		p.stop("await in what may be parameters")
	} else {
		p.stop("await expression")
	}
}

// headAwait stops at await as a name in such a place.
func (p *parser) headAwait(t *Token, in bool) {
	if in && t != nil && t.isName("await") {
		p.stopAwait()
	}
}

func (t *Token) is(s string) bool     { return t.Kind == PUNCT && t.Text == s }
func (t *Token) isName(s string) bool { return t.Kind == NAME && t.Text == s }

func (p *parser) eat(s string, goal int) bool {
	t := p.peek(goal)
	if t.is(s) {
		p.take(t)
		return true
	}
	p.fail(t, "expected "+s)
	return false
}

func (p *parser) eatName(s string, goal int) bool {
	t := p.peek(goal)
	if t.isName(s) {
		p.take(t)
		return true
	}
	p.fail(t, "expected "+s)
	return false
}

// semicolon applies automatic semicolon insertion.
func (p *parser) semicolon() bool {
	t := p.peek(GoalDiv)
	if t.is(";") {
		p.take(t)
		return true
	}
	if t.Kind == EOF || t.is("}") || t.NL && t.Kind != ERR {
		return true
	}
	if t.NL && t.Kind == ERR {
		// The erroneous token is met again as the start of the next statement,
		// where the goal may be different.
		return true
	}
	p.fail(t, "expected ;")
	return false
}

type state struct {
	pos   int
	c     ctx
	m     mark
	depth int
}

func (p *parser) save() state     { return state{p.pos, p.c, p.m, p.depth} }
func (p *parser) restore(s state) { p.pos, p.c, p.m, p.depth = s.pos, s.c, s.m, s.depth }

// try runs an alternative and rolls back if it fails. Failures are remembered,
// so that no alternative is tried twice at one place.
func (p *parser) try(kind uint64, in bool, f func() *Node) *Node {
	key := uint64(p.pos)<<16 | kind<<8
	for i, b := range [...]bool{in, p.c.strict, p.c.async, p.c.gen, p.c.fn} {
		if b {
			key |= 1 << i
		}
	}
	if p.failed[key] {
		return nil
	}
	s := p.save()
	n := f()
	if n == nil {
		p.restore(s)
		if p.failed == nil {
			p.failed = map[uint64]bool{}
		}
		p.failed[key] = true
	}
	return n
}

// --- identifiers ------------------------------------------------------------

var reserved = map[string]bool{}
var strictReserved = map[string]bool{}

func init() {
	for _, w := range []string{"break", "case", "catch", "class", "const", "continue", "debugger", "default",
		"delete", "do", "else", "enum", "export", "extends", "false", "finally", "for", "function", "if", "import",
		"in", "instanceof", "new", "null", "return", "super", "switch", "this", "throw", "true", "try", "typeof",
		"var", "void", "while", "with"} {
		reserved[w] = true
	}
	for _, w := range []string{"implements", "interface", "let", "package", "private", "protected", "public", "static"} {
		strictReserved[w] = true
	}
}

// isIdent reports whether t is a valid Identifier here. It has no effects.
func (p *parser) isIdent(t *Token) bool {
	if t.Kind != NAME || reserved[t.Text] {
		return false
	}
	if p.c.strict && strictReserved[t.Text] {
		return false
	}
	switch t.Text {
	case "yield":
		return p.imp || !p.c.gen && !p.c.strict
	case "await":
		return p.imp || !p.c.async && p.mode != Module
	}
	return true
}

// noteIdent records reservations the properties make no claim about.
func (p *parser) noteIdent(t *Token, binding bool) {
	switch t.Text {
	case "yield", "await":
		if p.imp {
			p.pend("yield or await as the name of an import")
		}
	case "eval", "arguments":
		if binding && p.c.strict {
			p.soft("eval or arguments as a target in strict code")
		}
	}
}

func ident(t *Token) *Node {
	n := mk("Identifier", "name", t.Text)
	n.Tok = t
	return n
}

// bindingIdent parses a BindingIdentifier.
func (p *parser) bindingIdent() *Node {
	t := p.peek(GoalDiv)
	if !p.isIdent(t) {
		p.headAwait(t, p.c.inner)
		p.fail(t, "expected binding identifier")
		return nil
	}
	p.noteIdent(t, true)
	p.take(t)
	return ident(t)
}

// --- binding patterns -------------------------------------------------------

// bindingTarget parses a BindingIdentifier or BindingPattern.
func (p *parser) bindingTarget() *Node {
	t := p.peek(GoalDiv)
	switch {
	case t.is("["):
		return p.arrayBinding()
	case t.is("{"):
		return p.objectBinding()
	}
	return p.bindingIdent()
}

func (p *parser) initializerOpt(in bool) (*Node, bool) {
	t := p.peek(GoalDiv)
	if !t.is("=") {
		return nil, true
	}
	p.take(t)
	n := p.assign(in)
	return n, n != nil
}

// bindingElement parses a target with an optional default.
func (p *parser) bindingElement() *Node {
	n := p.bindingTarget()
	if n == nil {
		return nil
	}
	init, ok := p.initializerOpt(true)
	if !ok {
		return nil
	}
	if init != nil {
		return mk("AssignmentPattern", "left", n, "right", init)
	}
	return n
}

func (p *parser) arrayBinding() *Node {
	if !p.eat("[", GoalDiv) {
		return nil
	}
	elems := []*Node{}
	for {
		t := p.peek(GoalDiv)
		switch {
		case t.is("]"):
			p.take(t)
			return mk("ArrayPattern", "elements", elems)
		case t.is(","):
			p.take(t)
			elems = append(elems, nil)
			continue
		case t.is("..."):
			p.take(t)
			n := p.bindingTarget()
			if n == nil || !p.eat("]", GoalDiv) {
				return nil
			}
			elems = append(elems, mk("RestElement", "argument", n))
			return mk("ArrayPattern", "elements", elems)
		}
		n := p.bindingElement()
		if n == nil {
			return nil
		}
		elems = append(elems, n)
		t = p.peek(GoalDiv)
		if t.is(",") {
			p.take(t)
		} else if !t.is("]") {
			p.fail(t, "expected , or ]")
			return nil
		}
	}
}

func property(key *Node, computed bool, value *Node, kind string, method, shorthand bool) *Node {
	return mk("Property", "key", key, "computed", computed, "value", value, "kind", kind, "method", method, "shorthand", shorthand)
}

func (p *parser) objectBinding() *Node {
	if !p.eat("{", GoalDiv) {
		return nil
	}
	props := []*Node{}
	for {
		t := p.peek(GoalDiv)
		if t.is("}") {
			p.take(t)
			return mk("ObjectPattern", "properties", props)
		}
		if t.is("...") {
			p.take(t)
			n := p.bindingIdent()
			if n == nil || !p.eat("}", GoalDiv) {
				return nil
			}
			props = append(props, mk("RestElement", "argument", n))
			return mk("ObjectPattern", "properties", props)
		}
		if t.Kind != NAME {
			p.note() // a key without claims
		}
		key, computed, short := p.propertyName()
		if key == nil {
			return nil
		}
		t = p.peek(GoalDiv)
		if t.is(":") {
			if computed || key.Type != "Identifier" {
				p.pend("string, number or computed key in a binding pattern")
			}
			p.take(t)
			v := p.bindingElement()
			if v == nil {
				return nil
			}
			props = append(props, property(key, computed, v, "init", false, false))
		} else {
			if short == nil || !p.isIdent(short) {
				p.headAwait(short, p.c.inner)
				p.fail(t, "expected :")
				return nil
			}
			p.noteIdent(short, true)
			init, ok := p.initializerOpt(true)
			if !ok {
				return nil
			}
			v := key
			if init != nil {
				v = mk("AssignmentPattern", "left", key, "right", init)
			}
			props = append(props, property(key, false, v, "init", false, true))
		}
		t = p.peek(GoalDiv)
		if t.is(",") {
			p.take(t)
		} else if !t.is("}") {
			p.fail(t, "expected , or }")
			return nil
		}
	}
}

// propertyName parses a PropertyName. short is the token when it is an
// IdentifierName.
func (p *parser) propertyName() (key *Node, computed bool, short *Token) {
	t := p.peek(GoalDiv)
	switch {
	case t.Kind == NAME:
		p.take(t)
		return ident(t), false, t
	case t.Kind == STR, t.Kind == NUM:
		return p.literal(t), false, nil
	case t.is("["):
		p.take(t)
		n := p.assign(true)
		if n == nil || !p.eat("]", GoalDiv) {
			return nil, false, nil
		}
		return n, true, nil
	}
	p.fail(t, "expected property name")
	return nil, false, nil
}

// literal consumes a number or string token. It returns nil when the token is
// not allowed in strict code.
func (p *parser) literal(t *Token) *Node {
	if p.c.strict && (t.Legacy || t.OctalEsc) {
		p.fail(t, "legacy octal in strict code")
		return nil
	}
	p.take(t)
	n := &Node{Type: "Literal", Tok: t}
	if t.Kind == STR {
		n.F = []Field{{"value", t.Str}, {"raw", t.Text}}
		return n
	}
	if v, ok := NumberValue(t.Text); ok {
		n.F = []Field{{"value", v}, {"raw", t.Text}}
	} else {
		n.F = []Field{{"value", nil}, {"raw", t.Text}}
	}
	return n
}

// --- expressions ------------------------------------------------------------

func (p *parser) expression(in bool) *Node {
	n := p.assign(in)
	if n == nil {
		return nil
	}
	t := p.peek(GoalDiv)
	if !t.is(",") {
		return n
	}
	list := []*Node{n}
	for t.is(",") {
		p.take(t)
		if n = p.assign(in); n == nil {
			return nil
		}
		list = append(list, n)
		t = p.peek(GoalDiv)
	}
	return mk("SequenceExpression", "expressions", list)
}

const (
	tryArrow = iota
	tryAsyncArrow
	tryPattern
	tryForHead
)

var assignOps = map[string]bool{"=": true, "+=": true, "-=": true, "*=": true, "/=": true, "%=": true, "**=": true,
	"<<=": true, ">>=": true, ">>>=": true, "&=": true, "^=": true, "|=": true, "&&=": true, "||=": true, "??=": true}

func (p *parser) assign(in bool) *Node {
	t := p.peek(GoalRE)
	switch {
	case t.Kind == NAME:
		if t.Text == "yield" && p.c.gen {
			p.stop("yield expression")
			return nil
		}
		if t.Text == "async" {
			if n := p.try(tryAsyncArrow, in, func() *Node { return p.asyncArrow(in) }); n != nil {
				return n
			}
		}
		if p.isIdent(t) {
			// ArrowFunction with a bare parameter.
			q := p.l.Next(t.End, GoalDiv)
			if q.is("=>") {
				if q.NL {
					p.fail(q, "line terminator before =>")
				} else {
					p.noteIdent(t, true)
					p.take(t)
					return p.arrowTail([]*Node{ident(t)}, false, in)
				}
			}
		}
	case t.is("("):
		if n := p.try(tryArrow, in, func() *Node { return p.arrow(in) }); n != nil {
			return n
		}
	case t.is("["), t.is("{"):
		n := p.try(tryPattern, in, func() *Node {
			left := p.assignPattern()
			if left == nil || !p.eat("=", GoalDiv) {
				return nil
			}
			right := p.assign(in)
			if right == nil {
				return nil
			}
			return mk("AssignmentExpression", "operator", "=", "left", left, "right", right)
		})
		if n != nil {
			return n
		}
	}
	if p.abort != "" {
		return nil
	}
	n := p.conditional(in)
	if n == nil {
		return nil
	}
	t = p.peek(GoalDiv)
	if t.Kind == PUNCT && assignOps[t.Text] {
		if !p.simpleTarget(n) {
			p.fail(t, "invalid assignment target")
			return nil
		}
		p.take(t)
		right := p.assign(in)
		if right == nil {
			return nil
		}
		return mk("AssignmentExpression", "operator", t.Text, "left", n, "right", right)
	}
	return n
}

// simpleTarget implements AssignmentTargetType.
func (p *parser) simpleTarget(n *Node) bool {
	switch n.Type {
	case "Identifier":
		if p.c.strict && n.Tok != nil && (n.Tok.Text == "eval" || n.Tok.Text == "arguments") {
			p.soft("eval or arguments as a target in strict code")
		}
		return true
	case "MemberExpression":
		return true
	case "CallExpression":
		p.pend("call expression as assignment target")
		return true
	}
	return false
}

func (p *parser) arrow(in bool) *Node {
	c := p.c
	p.c.inner = c.head
	params := p.params(paramsArrow)
	p.c = c
	if params == nil {
		return nil
	}
	return p.arrowTail(params, false, in)
}

func (p *parser) asyncArrow(in bool) *Node {
	p.take(p.peek(GoalRE)) // async
	t := p.peek(GoalDiv)
	if t.NL {
		return nil
	}
	c := p.c
	p.c.async, p.c.head = true, !c.async && p.mode != Module
	if t.is("(") {
		params := p.params(paramsArrow)
		p.c = c
		if params == nil {
			return nil
		}
		return p.arrowTail(params, true, in)
	}
	if !p.isIdent(t) {
		p.c = c
		return nil
	}
	p.noteIdent(t, true)
	p.take(t)
	p.c = c
	if q := p.peek(GoalDiv); !q.is("=>") {
		p.fail(q, "expected =>")
		return nil
	}
	return p.arrowTail([]*Node{ident(t)}, true, in)
}

func simpleParams(params []*Node) bool {
	for _, n := range params {
		if n.Type != "Identifier" {
			return false
		}
	}
	return true
}

// arrowTail parses from => on.
func (p *parser) arrowTail(params []*Node, async, in bool) *Node {
	t := p.peek(GoalDiv)
	if !t.is("=>") || t.NL {
		p.fail(t, "expected =>")
		return nil
	}
	p.take(t)
	c := p.c
	p.c.async, p.c.gen, p.c.fn = async, false, true
	var body *Node
	expr := false
	if p.peek(GoalRE).is("{") {
		body = p.functionBody(simpleParams(params))
		if body != nil && !c.strict && p.c.strict {
			p.retroCheck(nil, params)
		}
	} else {
		expr = true
		body = p.assign(in)
	}
	p.c = c
	if body == nil {
		return nil
	}
	return mk("ArrowFunctionExpression", "id", nil, "params", params, "body", body, "generator", false, "expression", expr, "async", async)
}

// assignPattern parses an ArrayAssignmentPattern or ObjectAssignmentPattern.
func (p *parser) assignPattern() *Node {
	t := p.peek(GoalRE)
	p.take(t)
	if t.is("[") {
		elems := []*Node{}
		for {
			t := p.peek(GoalRE)
			switch {
			case t.is("]"):
				p.take(t)
				return mk("ArrayPattern", "elements", elems)
			case t.is(","):
				p.take(t)
				elems = append(elems, nil)
				continue
			case t.is("..."):
				p.take(t)
				n := p.assignTarget("]", "]")
				if n == nil || !p.eat("]", GoalDiv) {
					return nil
				}
				p.restSupport(n)
				elems = append(elems, mk("RestElement", "argument", n))
				return mk("ArrayPattern", "elements", elems)
			}
			n := p.assignElement("]")
			if n == nil {
				return nil
			}
			elems = append(elems, n)
			t = p.peek(GoalDiv)
			if t.is(",") {
				p.take(t)
			} else if !t.is("]") {
				p.fail(t, "expected , or ]")
				return nil
			}
		}
	}
	props := []*Node{}
	for {
		t := p.peek(GoalDiv)
		if t.is("}") {
			p.take(t)
			return mk("ObjectPattern", "properties", props)
		}
		if t.is("...") {
			p.note()
			p.take(t)
			n := p.unaryTarget()
			if n == nil {
				return nil
			}
			if n.Type != "Identifier" || n.Paren {
				p.pend("rest target that is not an identifier")
			}
			if !p.eat("}", GoalDiv) {
				return nil
			}
			props = append(props, mk("RestElement", "argument", n))
			return mk("ObjectPattern", "properties", props)
		}
		key, computed, short := p.propertyName()
		if key == nil {
			return nil
		}
		t = p.peek(GoalDiv)
		if t.is(":") {
			p.take(t)
			v := p.assignElement("}")
			if v == nil {
				return nil
			}
			props = append(props, property(key, computed, v, "init", false, false))
		} else {
			if short == nil || !p.isIdent(short) {
				p.headAwait(short, p.c.head)
				p.fail(t, "expected :")
				return nil
			}
			p.noteIdent(short, true)
			init, ok := p.initializerOpt(true)
			if !ok {
				return nil
			}
			v := key
			if init != nil {
				v = mk("AssignmentPattern", "left", key, "right", init)
			}
			props = append(props, property(key, false, v, "init", false, true))
		}
		t = p.peek(GoalDiv)
		if t.is(",") {
			p.take(t)
		} else if !t.is("}") {
			p.fail(t, "expected , or }")
			return nil
		}
	}
}

// restSupport excludes rest targets that are not binding patterns.
func (p *parser) restSupport(n *Node) {
	if n.Paren || !bindingOnly(n) {
		p.pend("rest target that is not a binding")
	}
}

func bindingOnly(n *Node) bool {
	if n == nil {
		return true
	}
	switch n.Type {
	case "Identifier":
		return !n.Paren
	case "AssignmentPattern":
		return bindingOnly(n.Get("left").(*Node))
	case "RestElement":
		return bindingOnly(n.Get("argument").(*Node))
	case "ArrayPattern":
		for _, e := range n.Get("elements").([]*Node) {
			if !bindingOnly(e) {
				return false
			}
		}
		return true
	case "ObjectPattern":
		for _, e := range n.Get("properties").([]*Node) {
			if e.Type == "Property" {
				k := e.Get("key").(*Node)
				if e.Get("computed").(bool) || k.Type != "Identifier" || !bindingOnly(e.Get("value").(*Node)) {
					return false
				}
			} else if !bindingOnly(e) {
				return false
			}
		}
		return true
	}
	return false
}

// assignElement parses an AssignmentElement, which ends before a comma or end.
func (p *parser) assignElement(end string) *Node {
	n := p.assignTarget(end, "=")
	if n == nil {
		return nil
	}
	init, ok := p.initializerOpt(true)
	if !ok {
		return nil
	}
	if init != nil {
		return mk("AssignmentPattern", "left", n, "right", init)
	}
	return n
}

// assignTarget parses a DestructuringAssignmentTarget. Nested patterns have to
// be followed by a comma, end or init.
func (p *parser) assignTarget(end, init string) *Node {
	t := p.peek(GoalRE)
	if t.is("[") || t.is("{") {
		n := p.try(tryPattern+8, init == "=", func() *Node {
			n := p.assignPattern()
			if n == nil {
				return nil
			}
			q := p.peek(GoalDiv)
			if q.is(end) || q.is(init) || q.is(",") && init == "=" {
				return n
			}
			p.fail(q, "expected end of pattern")
			return nil
		})
		if n != nil || p.abort != "" {
			return n
		}
	}
	return p.unaryTarget()
}

// unaryTarget parses a LeftHandSideExpression that is a simple target.
func (p *parser) unaryTarget() *Node {
	n := p.lhs()
	if n == nil {
		return nil
	}
	if !p.simpleTarget(n) {
		p.fail(p.peek(GoalDiv), "invalid assignment target")
		return nil
	}
	return n
}

func (p *parser) conditional(in bool) *Node {
	n := p.binary(0, in)
	if n == nil {
		return nil
	}
	t := p.peek(GoalDiv)
	if !t.is("?") {
		return n
	}
	p.take(t)
	a := p.assign(true)
	if a == nil || !p.eat(":", GoalDiv) {
		return nil
	}
	b := p.assign(in)
	if b == nil {
		return nil
	}
	return mk("ConditionalExpression", "test", n, "consequent", a, "alternate", b)
}

// Levels of ECMA-262 13.6-13.13. `??` is handled with the logical operators.
var binLevel = map[string]int{
	"??": 1, "||": 1, "&&": 2, "|": 3, "^": 4, "&": 5,
	"==": 6, "!=": 6, "===": 6, "!==": 6,
	"<": 7, ">": 7, "<=": 7, ">=": 7, "instanceof": 7, "in": 7,
	"<<": 8, ">>": 8, ">>>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10,
}

func (p *parser) binary(level int, in bool) *Node {
	n := p.exponent(in)
	if n == nil {
		return nil
	}
	return p.binaryRest(n, level, in)
}

// binaryRest parses the operators that bind tighter than level after n.
func (p *parser) binaryRest(n *Node, level int, in bool) *Node {
	for {
		t := p.peek(GoalDiv)
		if t.Kind != PUNCT && t.Kind != NAME {
			return n
		}
		lv := binLevel[t.Text]
		if lv == 0 || lv <= level || t.isName("in") && !in {
			return n
		}
		// `??` must not be mixed with `||` and `&&` without parentheses.
		if t.Text == "??" && !n.Paren && n.Type == "LogicalExpression" && n.Get("operator") != "??" ||
			(t.Text == "||" || t.Text == "&&") && !n.Paren && n.Type == "LogicalExpression" && n.Get("operator") == "??" {
			p.fail(t, "?? mixed with || or &&")
			return nil
		}
		p.take(t)
		min := lv
		if t.Text == "??" {
			min = 2 // operands of ?? are BitwiseORExpressions
		}
		r := p.binary(min, in)
		if r == nil {
			return nil
		}
		if q := p.peek(GoalDiv); t.Text == "??" && q.is("&&") {
			p.fail(q, "?? mixed with || or &&")
			return nil
		} else if (t.Text == "||" || t.Text == "&&") && q.is("??") {
			p.fail(q, "?? mixed with || or &&")
			return nil
		}
		typ := "BinaryExpression"
		if lv <= 2 {
			typ = "LogicalExpression"
		}
		n = mk(typ, "operator", t.Text, "left", n, "right", r)
	}
}

func (p *parser) exponent(in bool) *Node {
	n, unary := p.unary()
	if n == nil {
		return nil
	}
	t := p.peek(GoalDiv)
	if !t.is("**") {
		return n
	}
	if unary {
		p.fail(t, "unary operator before **")
		return nil
	}
	p.take(t)
	r := p.exponent(in)
	if r == nil {
		return nil
	}
	return mk("BinaryExpression", "operator", "**", "left", n, "right", r)
}

// unary parses a UnaryExpression; the flag tells it is not an UpdateExpression.
func (p *parser) unary() (*Node, bool) {
	t := p.peek(GoalRE)
	op := ""
	switch {
	case t.Kind == PUNCT:
		switch t.Text {
		case "+", "-", "~", "!":
			op = t.Text
		case "++", "--":
			p.take(t)
			n, _ := p.unary2()
			if n == nil {
				return nil, false
			}
			return mk("UpdateExpression", "operator", t.Text, "argument", n, "prefix", true), false
		}
	case t.Kind == NAME:
		switch t.Text {
		case "delete", "void", "typeof":
			op = t.Text
		case "await":
			if p.c.async || p.mode == Module {
				p.stopAwait()
				return nil, false
			}
		}
	}
	if op != "" {
		p.take(t)
		n, _ := p.unary()
		if n == nil {
			return nil, false
		}
		if op == "delete" && p.c.strict && n.Type == "Identifier" {
			p.early(p.peek(GoalDiv), "delete of an identifier in strict code")
			return nil, false
		}
		return mk("UnaryExpression", "operator", op, "argument", n, "prefix", true), true
	}
	n := p.lhs()
	if n == nil {
		return nil, false
	}
	t = p.peek(GoalDiv)
	if (t.is("++") || t.is("--")) && !t.NL {
		if !p.simpleTarget(n) {
			p.fail(t, "invalid update target")
			return nil, false
		}
		p.take(t)
		return mk("UpdateExpression", "operator", t.Text, "argument", n, "prefix", false), false
	}
	return n, false
}

// unary2 parses the operand of a prefix update: a UnaryExpression that is a
// simple target, so effectively a LeftHandSideExpression.
func (p *parser) unary2() (*Node, bool) {
	t := p.peek(GoalRE)
	if t.Kind == PUNCT && (t.Text == "+" || t.Text == "-" || t.Text == "~" || t.Text == "!" || t.Text == "++" || t.Text == "--") ||
		t.Kind == NAME && (t.Text == "delete" || t.Text == "void" || t.Text == "typeof") {
		p.fail(t, "invalid update target")
		return nil, false
	}
	if t.isName("await") && (p.c.async || p.mode == Module) {
		p.stopAwait()
		return nil, false
	}
	return p.unaryTarget(), false
}

// lhs parses a LeftHandSideExpression.
func (p *parser) lhs() *Node {
	t := p.peek(GoalRE)
	if t.isName("async") && p.isIdent(t) {
		q := p.l.Next(t.End, GoalDiv)
		if q.is("(") {
			p.take(t)
			p.enter()
			args := p.arguments(true)
			if args == nil || p.relax && !p.leave() {
				return nil
			}
			return p.memberRest(mk("CallExpression", "callee", ident(t), "arguments", args), true)
		}
	}
	n := p.member()
	if n == nil {
		return nil
	}
	return p.memberRest(n, true)
}

// memberRest parses property accesses and, if calls is set, calls.
func (p *parser) memberRest(n *Node, calls bool) *Node {
	for {
		t := p.peek(GoalDiv)
		switch {
		case t.is("."):
			p.take(t)
			q := p.peek(GoalDiv)
			if q.Kind != NAME {
				p.fail(q, "expected property name")
				return nil
			}
			p.take(q)
			n = mk("MemberExpression", "computed", false, "object", n, "property", ident(q))
		case t.is("["):
			p.take(t)
			k := p.expression(true)
			if k == nil || !p.eat("]", GoalDiv) {
				return nil
			}
			n = mk("MemberExpression", "computed", true, "object", n, "property", k)
		case t.is("(") && calls:
			args := p.arguments(false)
			if args == nil {
				return nil
			}
			n = mk("CallExpression", "callee", n, "arguments", args)
		default:
			return n
		}
	}
}

// member parses a primary expression or a new expression, without accesses
// (except those that belong to new).
func (p *parser) member() *Node {
	t := p.peek(GoalRE)
	if !t.isName("new") {
		return p.primary(t)
	}
	p.take(t)
	q := p.peek(GoalRE)
	if q.is(".") {
		p.stop("new.target")
		return nil
	}
	callee := p.member()
	if callee == nil {
		return nil
	}
	callee = p.memberRest(callee, false)
	if callee == nil {
		return nil
	}
	args := []*Node{}
	if p.peek(GoalDiv).is("(") {
		if args = p.arguments(false); args == nil {
			return nil
		}
	}
	return mk("NewExpression", "callee", callee, "arguments", args)
}

// arguments parses Arguments. The arguments of a call to `async` are only
// claimed when a spread is a last identifier.
func (p *parser) arguments(async bool) []*Node {
	p.take(p.peek(GoalDiv))
	args := []*Node{}
	spread := false
	for {
		t := p.peek(GoalRE)
		if t.is(")") {
			if async && spread {
				p.pend("spread in a call to async")
			}
			p.take(t)
			return args
		}
		if async && spread {
			p.pend("spread in a call to async")
		}
		if t.is("...") {
			if spread = true; async {
				p.note()
			}
			p.take(t)
			id := p.isIdent(p.peek(GoalRE)) && !p.peek(GoalRE).isName("async")
			n := p.assign(true)
			if n == nil {
				return nil
			}
			if async && !(id && n.Type == "Identifier" && p.peek(GoalDiv).is(")")) {
				p.pend("spread in a call to async")
			}
			args = append(args, mk("SpreadElement", "argument", n))
		} else {
			n := p.assign(true)
			if n == nil {
				return nil
			}
			args = append(args, n)
		}
		t = p.peek(GoalDiv)
		if t.is(")") {
			p.take(t)
			return args
		}
		if !t.is(",") {
			p.fail(t, "expected , or )")
			return nil
		}
		p.take(t)
	}
}

func (p *parser) primary(t *Token) *Node {
	switch t.Kind {
	case NUM, STR:
		return p.literal(t)
	case REGEX:
		p.take(t)
		re := mk("#regex", "pattern", t.Pattern, "flags", t.Flags)
		n := mk("Literal", "regex", re, "raw", t.Text)
		n.Tok = t
		return n
	case NAME:
		switch t.Text {
		case "this":
			p.take(t)
			return mk("ThisExpression")
		case "null":
			p.take(t)
			return mk("Literal", "value", nil, "raw", "null")
		case "true", "false":
			p.take(t)
			return mk("Literal", "value", t.Text == "true", "raw", t.Text)
		case "function":
			p.take(t)
			return p.functionExpression(false)
		case "class":
			p.take(t)
			return p.class("ClassExpression", false)
		case "super":
			p.stop("super")
			return nil
		case "import":
			q := p.l.Next(t.End, GoalDiv)
			if q.is("(") || q.is(".") {
				p.stop("dynamic import or import.meta")
				return nil
			}
			p.failRange(q.Start, t.Prev, q.End, "import outside of module top level")
			return nil
		case "async":
			q := p.l.Next(t.End, GoalDiv)
			if q.isName("function") && !q.NL {
				p.take(t)
				p.take(q)
				return p.functionExpression(true)
			}
		case "yield":
			if p.c.gen {
				p.stop("yield expression")
				return nil
			}
		case "await":
			if p.c.async || p.mode == Module {
				p.stopAwait()
				return nil
			}
		}
		if !p.isIdent(t) {
			p.fail(t, "expected expression")
			return nil
		}
		p.noteIdent(t, false)
		p.take(t)
		return ident(t)
	case PUNCT:
		switch t.Text {
		case "(":
			p.take(t)
			if p.relax {
				return p.relaxedParentheses()
			}
			n := p.expression(true)
			if n == nil || !p.eat(")", GoalDiv) {
				return nil
			}
			n.Paren = true
			return n
		case "[":
			if p.relax {
				p.enter()
				if n := p.array(t); n == nil || !p.leave() {
					return nil
				}
				return mk("ArrayExpression")
			}
			return p.array(t)
		case "{":
			if p.relax {
				p.enter()
				if n := p.object(t); n == nil || !p.leave() {
					return nil
				}
				return mk("ObjectExpression")
			}
			return p.object(t)
		}
	}
	p.fail(t, "expected expression")
	return nil
}

func (p *parser) relaxedParentheses() *Node {
	p.enter()
	for {
		t := p.peek(GoalRE)
		if t.is(")") {
			p.covered = true
			break
		}
		if t.is("...") {
			p.covered = true
			p.take(t)
		}
		if p.assign(true) == nil {
			return nil
		}
		if t = p.peek(GoalDiv); t.is(",") {
			p.take(t)
		} else if t.is(")") {
			break
		} else {
			p.fail(t, "expected , or )")
			return nil
		}
	}
	p.take(p.peek(GoalDiv))
	if !p.leave() {
		return nil
	}
	n := mk("SequenceExpression")
	n.Paren = true
	return n
}

func (p *parser) array(t *Token) *Node {
	p.take(t)
	elems := []*Node{}
	for {
		t := p.peek(GoalRE)
		switch {
		case t.is("]"):
			p.take(t)
			return mk("ArrayExpression", "elements", elems)
		case t.is(","):
			p.take(t)
			elems = append(elems, nil)
			continue
		case t.is("..."):
			p.pend("spread in an array literal")
			p.take(t)
			n := p.assign(true)
			if n == nil {
				return nil
			}
			elems = append(elems, mk("SpreadElement", "argument", n))
		default:
			n := p.assign(true)
			if n == nil {
				return nil
			}
			elems = append(elems, n)
		}
		t = p.peek(GoalDiv)
		if t.is(",") {
			p.take(t)
		} else if !t.is("]") {
			p.fail(t, "expected , or ]")
			return nil
		}
	}
}

func (p *parser) object(t *Token) *Node {
	p.take(t)
	props := []*Node{}
	for {
		t := p.peek(GoalDiv)
		if t.is("}") {
			p.take(t)
			return mk("ObjectExpression", "properties", props)
		}
		var n *Node
		if t.is("...") {
			p.pend("spread in an object literal")
			p.take(t)
			a := p.assign(true)
			if a == nil {
				return nil
			}
			n = mk("SpreadElement", "argument", a)
		} else {
			n = p.objectMember()
		}
		if n == nil {
			return nil
		}
		props = append(props, n)
		t = p.peek(GoalDiv)
		if t.is(",") {
			p.take(t)
		} else if !t.is("}") {
			p.fail(t, "expected , or }")
			return nil
		}
	}
}

// startsName reports whether t can start a PropertyName.
func startsName(t *Token) bool {
	return t.Kind == NAME || t.Kind == STR || t.Kind == NUM || t.is("[")
}

func (p *parser) objectMember() *Node {
	t := p.peek(GoalDiv)
	if t.is("*") {
		p.take(t)
		return p.method(false, true)
	}
	if t.Kind == NAME {
		q := p.l.Next(t.End, GoalDiv)
		switch t.Text {
		case "get", "set":
			if startsName(q) {
				p.take(t)
				key, computed, _ := p.propertyName()
				if key == nil {
					return nil
				}
				v := p.accessor(t.Text)
				if v == nil {
					return nil
				}
				return property(key, computed, v, t.Text, false, false)
			}
		case "async":
			if (startsName(q) || q.is("*")) && !q.NL {
				p.take(t)
				gen := q.is("*")
				if gen {
					p.take(q)
				}
				return p.method(true, gen)
			}
		}
	}
	key, computed, short := p.propertyName()
	if key == nil {
		return nil
	}
	q := p.peek(GoalDiv)
	switch {
	case q.is(":"):
		p.take(q)
		v := p.assign(true)
		if v == nil {
			return nil
		}
		return property(key, computed, v, "init", false, false)
	case q.is("("):
		fn := p.methodTail(false, false, paramsAny)
		if fn == nil {
			return nil
		}
		return property(key, computed, fn, "init", true, false)
	}
	if short == nil || !p.isIdent(short) {
		p.headAwait(short, p.c.head)
		p.fail(q, "expected : or (")
		return nil
	}
	p.noteIdent(short, false)
	// CoverInitializedName is handled by assignPattern.
	if p.relax && q.is("=") {
		p.covered = true
		p.take(q)
		if p.assign(true) == nil {
			return nil
		}
		return property(key, false, key, "init", false, true)
	}
	if !q.is(",") && !q.is("}") {
		p.fail(q, "expected , or }")
		return nil
	}
	return property(key, false, key, "init", false, true)
}

func (p *parser) method(async, gen bool) *Node {
	key, computed, _ := p.propertyName()
	if key == nil {
		return nil
	}
	fn := p.methodTail(async, gen, paramsAny)
	if fn == nil {
		return nil
	}
	return property(key, computed, fn, "init", true, false)
}

func (p *parser) accessor(kind string) *Node {
	if kind == "get" {
		return p.methodTail(false, false, paramsGet)
	}
	return p.methodTail(false, false, paramsSet)
}

// methodTail parses the parameters and body of a method.
func (p *parser) methodTail(async, gen bool, pk paramKind) *Node {
	c := p.c
	p.c.async, p.c.gen, p.c.fn = async, gen, true
	params := p.params(pk)
	var body *Node
	if params != nil {
		body = p.functionBody(simpleParams(params))
	}
	if body != nil && !c.strict && p.c.strict {
		p.retroCheck(nil, params)
	}
	p.c = c
	if body == nil {
		return nil
	}
	return mk("FunctionExpression", "id", nil, "params", params, "body", body, "generator", gen, "expression", false, "async", async)
}

type paramKind int

const (
	paramsAny paramKind = iota
	paramsGet
	paramsSet
	paramsArrow
)

// params parses parenthesized FormalParameters.
func (p *parser) params(pk paramKind) []*Node {
	if !p.eat("(", GoalDiv) {
		return nil
	}
	params := []*Node{}
	for {
		t := p.peek(GoalDiv)
		if t.is(")") {
			p.take(t)
			return p.checkParams(params, pk, t)
		}
		if t.is("...") {
			p.take(t)
			if q := p.peek(GoalDiv); q.is("[") || q.is("{") {
				p.pend("pattern as rest parameter")
			}
			n := p.bindingTarget()
			if n == nil {
				return nil
			}
			t = p.peek(GoalDiv)
			if !p.eat(")", GoalDiv) {
				return nil
			}
			return p.checkParams(append(params, mk("RestElement", "argument", n)), pk, t)
		}
		n := p.bindingElement()
		if n == nil {
			return nil
		}
		params = append(params, n)
		t = p.peek(GoalDiv)
		if t.is(",") {
			if pk == paramsSet && len(params) == 1 && p.l.Next(t.End, GoalDiv).is(")") {
				p.pend("trailing comma in setter parameters")
			}
			p.take(t)
		} else if !t.is(")") {
			p.fail(t, "expected , or )")
			return nil
		}
	}
}

func (p *parser) checkParams(params []*Node, pk paramKind, t *Token) []*Node {
	switch {
	case pk == paramsGet && len(params) > 0:
		p.early(t, "getter with parameters")
		return nil
	case pk == paramsSet && len(params) == 0:
		p.pend("setter without parameter")
	case pk == paramsSet && (len(params) > 1 || params[0].Type == "RestElement"):
		p.early(t, "setter without exactly one parameter")
		return nil
	}
	return params
}

// functionBody parses a body in braces, with directives.
func (p *parser) functionBody(simple bool) *Node {
	if !p.eat("{", GoalDiv) {
		return nil
	}
	body := p.list(true, simple, func() bool { return p.peek(GoalRE).is("}") })
	if body == nil || !p.eat("}", GoalRE) {
		return nil
	}
	return mk("BlockStatement", "body", body)
}

// list parses statement list items up to end.
func (p *parser) list(prologue, simple bool, end func() bool) []*Node {
	body := []*Node{}
	for !end() {
		if p.peek(GoalRE).Kind == EOF {
			p.fail(p.peek(GoalRE), "expected statement")
			return nil
		}
		n := p.item()
		if n == nil {
			return nil
		}
		if prologue {
			prologue = p.directive(n, simple)
		}
		body = append(body, n)
	}
	return body
}

// directive handles a statement in directive position.
func (p *parser) directive(n *Node, simple bool) bool {
	if n.Type != "ExpressionStatement" {
		return false
	}
	e := n.Get("expression").(*Node)
	if e.Paren || e.Tok == nil || e.Tok.Kind != STR || e.Type != "Literal" {
		return false
	}
	raw := []rune(e.Tok.Text)
	d := string(raw[1 : len(raw)-1])
	n.F = append(n.F, Field{"directive", d})
	if e.Tok.OctalEsc {
		// Becomes an error if a later directive is "use strict".
		p.soft("octal escape in a directive")
	}
	if d == "use strict" {
		if !simple {
			p.soft("use strict with parameters that are not simple")
		}
		p.c.strict = true
	}
	return true
}

// retroCheck is called when a function turned strict: its name and parameters
// become subject to strict rules retroactively.
func (p *parser) retroCheck(id *Node, params []*Node) {
	if id != nil {
		params = append([]*Node{id}, params...)
	}
	seen := map[string]bool{}
	for _, n := range params {
		if n.Type != "Identifier" || n.Tok == nil {
			continue // directive already noted that parameters are not simple
		}
		switch w := n.Tok.Text; {
		case w == "eval", w == "arguments", w == "yield", strictReserved[w], seen[w]:
			p.soft("function name or parameter not allowed by its own directive")
		default:
			seen[w] = true
		}
	}
}

func (p *parser) functionExpression(async bool) *Node {
	gen := false
	t := p.peek(GoalDiv)
	if t.is("*") {
		gen = true
		p.take(t)
	}
	c := p.c
	p.c.async, p.c.gen, p.c.fn = async, gen, true
	var id *Node
	if t := p.peek(GoalDiv); !t.is("(") {
		if id = p.bindingIdent(); id == nil {
			p.c = c
			return nil
		}
	}
	n := p.functionTail("FunctionExpression", id, async, gen)
	p.c = c
	return n
}

func (p *parser) functionTail(typ string, id *Node, async, gen bool) *Node {
	params := p.params(paramsAny)
	if params == nil {
		return nil
	}
	before := p.c.strict
	body := p.functionBody(simpleParams(params))
	if body == nil {
		return nil
	}
	if !before && p.c.strict {
		p.retroCheck(id, params)
	}
	return mk(typ, "id", id, "params", params, "body", body, "generator", gen, "expression", false, "async", async)
}

// class parses a class after the keyword.
func (p *parser) class(typ string, needName bool) *Node {
	c := p.c
	p.c.strict = true
	n := p.classTail(typ, needName)
	p.c = c
	return n
}

func (p *parser) classTail(typ string, needName bool) *Node {
	var id, super *Node
	t := p.peek(GoalDiv)
	if needName || !t.is("{") && !t.isName("extends") {
		p.headAwait(t, p.c.head)
		if id = p.bindingIdent(); id == nil {
			return nil
		}
	}
	t = p.peek(GoalDiv)
	if t.isName("extends") {
		p.take(t)
		if super = p.lhs(); super == nil {
			return nil
		}
	}
	if !p.eat("{", GoalDiv) {
		return nil
	}
	members := []*Node{}
	ctors := 0
	for {
		t := p.peek(GoalDiv)
		if t.is("}") {
			p.take(t)
			break
		}
		if t.is(";") {
			p.take(t)
			continue
		}
		m := p.classMember()
		if m == nil {
			return nil
		}
		if m.Get("kind") == "constructor" {
			ctors++
			if ctors > 1 {
				p.early(p.peek(GoalDiv), "more than one constructor")
				return nil
			}
		}
		members = append(members, m)
	}
	return mk(typ, "id", id, "superClass", super, "body", mk("ClassBody", "body", members))
}

// startsMember reports whether t can start a class member name.
func startsMember(t *Token) bool { return startsName(t) }

func (p *parser) classMember() *Node {
	t := p.peek(GoalDiv)
	static := false
	if t.isName("static") {
		q := p.l.Next(t.End, GoalDiv)
		if q.is("{") {
			p.stop("class static block")
			return nil
		}
		if startsMember(q) || q.is("*") {
			static = true
			p.take(t)
			t = q
		} else if q.Kind == UNSPEC {
			p.stop(q.Why)
			return nil
		}
	}
	kind, async, gen := "method", false, false
	if t.is("*") {
		gen = true
		p.take(t)
	} else if t.Kind == NAME {
		q := p.l.Next(t.End, GoalDiv)
		if q.Kind == UNSPEC {
			p.stop(q.Why)
			return nil
		}
		switch t.Text {
		case "get", "set":
			if startsMember(q) {
				kind = t.Text
				p.take(t)
			}
		case "async":
			if (startsMember(q) || q.is("*")) && !q.NL {
				async = true
				p.take(t)
				if q.is("*") {
					gen = true
					p.take(q)
				}
			}
		}
	}
	key, computed, _ := p.propertyName()
	if key == nil {
		return nil
	}
	name := ""
	if !computed && key.Tok != nil {
		switch key.Tok.Kind {
		case NAME:
			name = key.Tok.Text
		case STR:
			for _, u := range key.Tok.Str {
				name += string(rune(u))
			}
		}
	}
	q := p.peek(GoalDiv)
	if !q.is("(") {
		plain := kind == "method" && !async && !gen
		if plain && (q.is("=") || q.is(";") || q.is("}") || q.NL) {
			p.stop("class field")
			return nil
		}
		p.fail(q, "expected (")
		return nil
	}
	if name == "constructor" && !static {
		if kind != "method" || async || gen {
			p.early(q, "constructor has to be a plain method")
			return nil
		}
		kind = "constructor"
	}
	if name == "prototype" && static {
		p.pend("static member called prototype")
	}
	pk := paramsAny
	if kind == "get" {
		pk = paramsGet
	} else if kind == "set" {
		pk = paramsSet
	}
	fn := p.methodTail(async, gen, pk)
	if fn == nil {
		return nil
	}
	return mk("MethodDefinition", "key", key, "computed", computed, "value", fn, "kind", kind, "static", static)
}
