package ref

func (p *parser) program() *Node {
	switch p.mode {
	case Expression:
		n := p.expression(true)
		if n == nil {
			return nil
		}
		if t := p.peek(GoalDiv); t.Kind != EOF {
			p.fail(t, "expected end of expression")
			return nil
		}
		return n
	case Module:
		p.c.strict = true
	}
	body := []*Node{}
	prologue := true
	for {
		t := p.peek(GoalRE)
		if t.Kind == EOF {
			break
		}
		var n *Node
		if p.mode == Module && t.isName("import") {
			n = p.importDecl(t)
		} else if p.mode == Module && t.isName("export") {
			p.stop("export")
		} else {
			n = p.item()
		}
		if n == nil || p.abort != "" {
			return nil
		}
		if prologue {
			prologue = p.directive(n, true)
		}
		body = append(body, n)
	}
	src := "script"
	if p.mode == Module {
		src = "module"
	}
	return mk("Program", "body", body, "sourceType", src)
}

// item parses a StatementListItem.
func (p *parser) item() *Node {
	t := p.peek(GoalRE)
	if t.Kind == NAME {
		switch t.Text {
		case "function":
			p.take(t)
			return p.functionDeclaration()
		case "class":
			p.take(t)
			return p.class("ClassDeclaration", true)
		case "const":
			p.take(t)
			return p.lexical("const")
		case "let":
			q := p.l.Next(t.End, GoalDiv)
			if p.c.strict || q.is("[") || q.is("{") || p.isIdent(q) || q.isName("yield") || q.isName("await") {
				p.take(t)
				return p.lexical("let")
			}
		case "async":
			q := p.l.Next(t.End, GoalDiv)
			if q.isName("function") && !q.NL {
				p.stop("async function declaration")
				return nil
			}
		}
	}
	return p.statement()
}

func (p *parser) functionDeclaration() *Node {
	t := p.peek(GoalDiv)
	if t.is("*") {
		p.stop("generator declaration")
		return nil
	}
	id := p.bindingIdent()
	if id == nil {
		return nil
	}
	c := p.c
	p.c.async, p.c.gen, p.c.fn = false, false, true
	n := p.functionTail("FunctionDeclaration", id, false, false)
	p.c = c
	return n
}

func (p *parser) lexical(kind string) *Node {
	n, ok := p.declarators(true, kind == "const")
	if !ok || !p.semicolon() {
		return nil
	}
	for _, d := range n {
		if id, _ := d.Get("id").(*Node); bindsLet(id) {
			p.early(p.peek(GoalDiv), "let can not be declared by let or const")
			return nil
		}
	}
	return mk("VariableDeclaration", "declarations", n, "kind", kind)
}

// bindsLet reports whether a binding target binds the name let.
func bindsLet(n *Node) bool {
	if n == nil {
		return false
	}
	kids := func(k string) bool {
		switch v := n.Get(k).(type) {
		case *Node:
			return bindsLet(v)
		case []*Node:
			for _, e := range v {
				if bindsLet(e) {
					return true
				}
			}
		}
		return false
	}
	switch n.Type {
	case "Identifier":
		return n.Get("name") == "let"
	case "AssignmentPattern":
		return kids("left")
	case "Property":
		return kids("value")
	case "RestElement":
		return kids("argument")
	}
	return kids("elements") || kids("properties")
}

// declarators parses a list of declarators. Initializers are required for
// patterns, and for all if needInit is set.
func (p *parser) declarators(in, needInit bool) ([]*Node, bool) {
	list := []*Node{}
	for {
		id := p.bindingTarget()
		if id == nil {
			return nil, false
		}
		init, ok := p.initializerOpt(in)
		if !ok {
			return nil, false
		}
		if init == nil && (needInit || id.Type != "Identifier") {
			p.missingInit(p.peek(GoalDiv), id)
			return nil, false
		}
		list = append(list, mk("VariableDeclarator", "id", id, "init", init))
		t := p.peek(GoalDiv)
		if !t.is(",") {
			return list, true
		}
		p.take(t)
	}
}

// missingInit records that an initializer is missing at t. For a const it is an
// early error of the whole declaration rather than a matter of grammar.
func (p *parser) missingInit(t *Token, id *Node) {
	if id.Type == "Identifier" {
		p.early(t, "missing initializer")
	} else {
		p.fail(t, "missing initializer")
	}
}

// sub parses a Statement that is the body of another one.
func (p *parser) sub(annexB bool) *Node {
	t := p.peek(GoalRE)
	if t.Kind == NAME {
		switch t.Text {
		case "function":
			if annexB && !p.c.strict {
				p.stop("function declaration as body of a statement")
				return nil
			}
			p.fail(t, "expected statement")
			return nil
		case "class", "const":
			p.fail(t, "expected statement")
			return nil
		case "let":
			q := p.l.Next(t.End, GoalDiv)
			if !p.c.strict && (q.is("[") || !q.NL && (q.is("{") || p.isIdent(q))) {
				p.failRange(q.Start, t.Prev, q.End, "declaration as body of a statement")
				return nil
			}
		case "async":
			q := p.l.Next(t.End, GoalDiv)
			if q.isName("function") && !q.NL {
				p.failRange(q.Start, t.Prev, q.End, "expected statement")
				return nil
			}
		}
	}
	return p.statement()
}

func (p *parser) block() *Node {
	if !p.eat("{", GoalDiv) {
		return nil
	}
	body := p.list(false, true, func() bool { return p.peek(GoalRE).is("}") })
	if body == nil || !p.eat("}", GoalRE) {
		return nil
	}
	return mk("BlockStatement", "body", body)
}

// parenthesized parses ( Expression ).
func (p *parser) parenthesized() *Node {
	if !p.eat("(", GoalDiv) {
		return nil
	}
	n := p.expression(true)
	if n == nil || !p.eat(")", GoalDiv) {
		return nil
	}
	return n
}

func (p *parser) statement() *Node {
	t := p.peek(GoalRE)
	switch {
	case t.is("{"):
		return p.block()
	case t.is(";"):
		p.take(t)
		return mk("EmptyStatement")
	case t.Kind != NAME:
		return p.expressionStatement()
	}
	switch t.Text {
	case "var":
		p.take(t)
		n, ok := p.declarators(true, false)
		if !ok || !p.semicolon() {
			return nil
		}
		return mk("VariableDeclaration", "declarations", n, "kind", "var")
	case "if":
		p.take(t)
		test := p.parenthesized()
		if test == nil {
			return nil
		}
		cons := p.sub(true)
		if cons == nil {
			return nil
		}
		var alt *Node
		if q := p.peek(GoalRE); q.isName("else") {
			p.take(q)
			if alt = p.sub(true); alt == nil {
				return nil
			}
		}
		return mk("IfStatement", "test", test, "consequent", cons, "alternate", alt)
	case "do":
		p.take(t)
		body := p.sub(false)
		if body == nil || !p.eatName("while", GoalRE) {
			return nil
		}
		test := p.parenthesized()
		if test == nil {
			return nil
		}
		if q := p.peek(GoalDiv); q.is(";") {
			p.take(q)
		}
		return mk("DoWhileStatement", "body", body, "test", test)
	case "while":
		p.take(t)
		test := p.parenthesized()
		if test == nil {
			return nil
		}
		body := p.sub(false)
		if body == nil {
			return nil
		}
		return mk("WhileStatement", "test", test, "body", body)
	case "for":
		p.take(t)
		return p.forStatement()
	case "switch":
		p.take(t)
		return p.switchStatement()
	case "continue", "break":
		p.take(t)
		var label *Node
		q := p.peek(GoalDiv)
		if q.Kind == NAME && !q.NL && p.isIdent(q) {
			p.noteIdent(q, false)
			p.take(q)
			label = ident(q)
		}
		if !p.semicolon() {
			return nil
		}
		typ := "ContinueStatement"
		if t.Text == "break" {
			typ = "BreakStatement"
		}
		return mk(typ, "label", label)
	case "return":
		if !p.c.fn {
			p.fail(t, "return outside of function")
			return nil
		}
		p.take(t)
		q := p.peek(GoalRE)
		var arg *Node
		if !q.NL && !q.is(";") && !q.is("}") && q.Kind != EOF {
			if arg = p.expression(true); arg == nil {
				return nil
			}
		}
		if !p.semicolon() {
			return nil
		}
		return mk("ReturnStatement", "argument", arg)
	case "throw":
		p.take(t)
		q := p.peek(GoalRE)
		if q.NL {
			p.fail(q, "line terminator after throw")
			return nil
		}
		arg := p.expression(true)
		if arg == nil || !p.semicolon() {
			return nil
		}
		return mk("ThrowStatement", "argument", arg)
	case "try":
		p.take(t)
		return p.tryStatement()
	case "with":
		p.stop("with statement")
		return nil
	case "debugger":
		p.stop("debugger statement")
		return nil
	case "function", "class", "const":
		// Only reached through expression statements, which exclude them.
		p.fail(t, "expected statement")
		return nil
	}
	if p.isIdent(t) {
		if q := p.l.Next(t.End, GoalDiv); q.is(":") {
			p.noteIdent(t, false)
			p.take(t)
			p.take(q)
			body := p.sub(true)
			if body == nil {
				return nil
			}
			return mk("LabeledStatement", "label", ident(t), "body", body)
		}
	}
	return p.expressionStatement()
}

func (p *parser) expressionStatement() *Node {
	n := p.expression(true)
	if n == nil || !p.semicolon() {
		return nil
	}
	return mk("ExpressionStatement", "expression", n)
}

// forDeclares reports whether let at the start of a for head is taken for the
// start of a declaration.
func (p *parser) forDeclares(t *Token) bool {
	q := p.l.Next(t.End, GoalDiv)
	return p.c.strict || q.is("[") || q.is("{") || p.isIdent(q) || q.isName("yield") || q.isName("await")
}

func (p *parser) forStatement() *Node {
	if t := p.peek(GoalDiv); t.isName("await") && (p.c.async || p.mode == Module) {
		p.stop("for await")
		return nil
	}
	if !p.eat("(", GoalDiv) {
		return nil
	}
	t := p.peek(GoalRE)
	var init *Node
	switch {
	case t.is(";"):
	case t.isName("const"), t.isName("let") && p.forDeclares(t):
		p.stop("lexical declaration in a for head")
		return nil
	case t.isName("var"):
		p.take(t)
		list := []*Node{}
		missing := false
		for {
			id := p.bindingTarget()
			if id == nil {
				return nil
			}
			in, ok := p.initializerOpt(false)
			if !ok {
				return nil
			}
			pattern := in == nil && id.Type != "Identifier"
			list = append(list, mk("VariableDeclarator", "id", id, "init", in))
			q := p.peek(GoalDiv)
			if len(list) == 1 && (q.isName("in") || q.isName("of")) {
				if in != nil && q.Text == "in" && !p.c.strict && id.Type == "Identifier" {
					p.stop("initializer in a for-in head")
					return nil
				}
				if in != nil {
					p.fail(q, "initializer in a for-in or for-of head")
					return nil
				}
				return p.forInOf(q, mk("VariableDeclaration", "declarations", list, "kind", "var"))
			}
			missing = missing || pattern
			if missing {
				p.fail(q, "missing initializer")
				return nil
			}
			if !q.is(",") {
				break
			}
			p.take(q)
		}
		init = mk("VariableDeclaration", "declarations", list, "kind", "var")
	default:
		if t.isName("async") {
			q := p.l.Next(t.End, GoalDiv)
			if q.isName("of") {
				if r := p.l.Next(q.End, GoalRE); !r.is("=>") {
					p.failRange(r.Start, q.Prev, r.End, "for (async of")
					return nil
				}
			}
		}
		var kw *Token
		left := p.try(tryForHead, false, func() *Node {
			var n *Node
			if t.is("[") || t.is("{") {
				n = p.try(tryPattern+9, false, func() *Node {
					n := p.assignPattern()
					if n == nil {
						return nil
					}
					if kw = p.peek(GoalDiv); kw.isName("in") || kw.isName("of") {
						return n
					}
					p.fail(kw, "expected in or of")
					return nil
				})
				if n != nil || p.abort != "" {
					return n
				}
			}
			n = p.lhs()
			if n == nil {
				return nil
			}
			kw = p.peek(GoalDiv)
			if !kw.isName("in") && !kw.isName("of") {
				return nil
			}
			if kw.Text == "of" && t.isName("let") {
				p.fail(kw, "let at the start of a for-of head")
				return nil
			}
			if !p.simpleTarget(n) {
				p.fail(kw, "invalid target in a for head")
				return nil
			}
			return n
		})
		if p.abort != "" {
			return nil
		}
		if left != nil {
			return p.forInOf(kw, left)
		}
		if init = p.expression(false); init == nil {
			return nil
		}
	}
	if !p.eat(";", GoalDiv) {
		return nil
	}
	var test, update *Node
	if !p.peek(GoalRE).is(";") {
		if test = p.expression(true); test == nil {
			return nil
		}
	}
	if !p.eat(";", GoalDiv) {
		return nil
	}
	if !p.peek(GoalRE).is(")") {
		if update = p.expression(true); update == nil {
			return nil
		}
	}
	if !p.eat(")", GoalDiv) {
		return nil
	}
	body := p.sub(false)
	if body == nil {
		return nil
	}
	return mk("ForStatement", "init", init, "test", test, "update", update, "body", body)
}

func (p *parser) forInOf(kw *Token, left *Node) *Node {
	p.take(kw)
	typ := "ForInStatement"
	var right *Node
	if kw.Text == "in" {
		right = p.expression(true)
	} else {
		typ = "ForOfStatement"
		right = p.assign(true)
	}
	if right == nil || !p.eat(")", GoalDiv) {
		return nil
	}
	body := p.sub(false)
	if body == nil {
		return nil
	}
	n := mk(typ, "left", left, "right", right, "body", body)
	if typ == "ForOfStatement" {
		n.F = append(n.F, Field{"await", false})
	}
	return n
}

func (p *parser) switchStatement() *Node {
	d := p.parenthesized()
	if d == nil || !p.eat("{", GoalDiv) {
		return nil
	}
	cases := []*Node{}
	def := false
	for {
		t := p.peek(GoalRE)
		if t.is("}") {
			p.take(t)
			return mk("SwitchStatement", "discriminant", d, "cases", cases)
		}
		var test *Node
		switch {
		case t.isName("case"):
			p.take(t)
			if test = p.expression(true); test == nil {
				return nil
			}
		case t.isName("default") && !def:
			p.take(t)
			def = true
		default:
			p.fail(t, "expected case, default or }")
			return nil
		}
		if !p.eat(":", GoalDiv) {
			return nil
		}
		body := p.list(false, true, func() bool {
			q := p.peek(GoalRE)
			return q.is("}") || q.isName("case") || q.isName("default")
		})
		if body == nil {
			return nil
		}
		cases = append(cases, mk("SwitchCase", "test", test, "consequent", body))
	}
}

func (p *parser) tryStatement() *Node {
	block := p.block()
	if block == nil {
		return nil
	}
	var handler, final *Node
	t := p.peek(GoalRE)
	if t.isName("catch") {
		p.take(t)
		var param *Node
		if q := p.peek(GoalDiv); q.is("(") {
			p.take(q)
			if param = p.bindingTarget(); param == nil || !p.eat(")", GoalDiv) {
				return nil
			}
		}
		body := p.block()
		if body == nil {
			return nil
		}
		handler = mk("CatchClause", "param", param, "body", body)
		t = p.peek(GoalRE)
	}
	if t.isName("finally") {
		p.take(t)
		if final = p.block(); final == nil {
			return nil
		}
	} else if handler == nil {
		p.fail(t, "expected catch or finally")
		return nil
	}
	return mk("TryStatement", "block", block, "handler", handler, "finalizer", final)
}

// --- modules ----------------------------------------------------------------

func (p *parser) importDecl(t *Token) *Node {
	q := p.l.Next(t.End, GoalDiv)
	if q.is("(") || q.is(".") {
		p.stop("dynamic import or import.meta")
		return nil
	}
	p.imp = true
	defer func() { p.imp = false }()
	p.take(t)
	specs := []*Node{}
	if q.Kind != STR {
		if q.Kind == NAME {
			id := p.bindingIdent()
			if id == nil {
				return nil
			}
			specs = append(specs, mk("ImportDefaultSpecifier", "local", id))
			q = p.peek(GoalDiv)
			if q.is(",") {
				p.take(q)
				q = p.peek(GoalDiv)
			} else if !q.isName("from") {
				p.fail(q, "expected , or from")
				return nil
			} else {
				q = nil
			}
		}
		switch {
		case q == nil:
		case q.is("*"):
			p.take(q)
			if !p.eatName("as", GoalDiv) {
				return nil
			}
			id := p.bindingIdent()
			if id == nil {
				return nil
			}
			specs = append(specs, mk("ImportNamespaceSpecifier", "local", id))
		case q.is("{"):
			p.take(q)
			for {
				t := p.peek(GoalDiv)
				if t.is("}") {
					p.take(t)
					break
				}
				if t.Kind == STR {
					p.stop("string as import name")
					return nil
				}
				if t.Kind != NAME {
					p.fail(t, "expected import name")
					return nil
				}
				p.take(t)
				imported, local := ident(t), ident(t)
				if q := p.peek(GoalDiv); q.isName("as") {
					p.take(q)
					if local = p.bindingIdent(); local == nil {
						return nil
					}
				} else if !p.isIdent(t) {
					// The name needs a binding: `as` is missing.
					p.failRange(q.Start, t.Prev, q.End, "expected as")
					return nil
				} else {
					p.noteIdent(t, true)
				}
				specs = append(specs, mk("ImportSpecifier", "imported", imported, "local", local))
				t = p.peek(GoalDiv)
				if t.is(",") {
					p.take(t)
				} else if !t.is("}") {
					p.fail(t, "expected , or }")
					return nil
				}
			}
		default:
			p.fail(q, "expected import clause")
			return nil
		}
		if !p.eatName("from", GoalDiv) {
			return nil
		}
	}
	s := p.peek(GoalDiv)
	if s.Kind != STR {
		p.fail(s, "expected module specifier")
		return nil
	}
	src := p.literal(s)
	if src == nil {
		return nil
	}
	if w := p.peek(GoalDiv); w.isName("with") {
		p.stop("import attributes")
		return nil
	}
	if !p.semicolon() {
		return nil
	}
	return mk("ImportDeclaration", "specifiers", specs, "source", src)
}
