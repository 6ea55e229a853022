LEX = 'ecmascript/lexer/lexer.go'
LSC = 'ecmascript/lexer/scanner.go'
UNI = 'ecmascript/lexer/unicode.go'
TOK = 'ecmascript/lexer/token.go'
EXP = 'ecmascript/parser/expression.go'
STM = 'ecmascript/parser/statement.go'
DEC = 'ecmascript/parser/declaration.go'
MOD = 'ecmascript/parser/module.go'
PAR = 'ecmascript/parser/parser.go'
PSC = 'ecmascript/parser/scanner.go'
CTX = 'ecmascript/parser/context.go'
KEY = 'ecmascript/parser/keyword.go'
AEX = 'ecmascript/ast/expressions.go'
ABI = 'ecmascript/ast/expressions_binary.go'
AUN = 'ecmascript/ast/expressions_unary.go'
AST = 'ecmascript/ast/statement.go'
ATM = 'ecmascript/ast/temporal.go'
ERR = 'ecmascript/errs/errors.go'
CLI = 'cmd/estree/main.go'
WEB = 'web/parser/parser.go'
PAGE = 'web/parser/index.html'

S, M, E = 'script', 'module', 'expression'
BUGS = []

def bug(id, edits, needs, breaks, probes=None, demo=None, **kw):
    b = dict(id=id, property=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, **kw)
    if probes is not None: b['probes'] = probes
    else: b['demo'] = demo
    BUGS.append(b)

# C01
bug('C01-comment-eof', [(LEX, '''		case EOFRune:
			panic(&errs.SyntaxError{
				Location: l.s.Location(),
				Err:      errors.New("unexpected EOF"),
			})
		default:
''', '''		default:
''')], 'a multi-line comment that is still open at the end of the input',
    'lexing an unterminated comment never ends', [(S, 'a /* b'), (E, 'a /*'), (S, '/**')])
bug('C01-parser-error', [(PAR, '''			case *errs.ParserError:
				err = t
			default:''', '''			default:''')],
    'a construct the parser reports as unsupported, e.g. in the middle of a longer program',
    'Parse panics instead of returning the parser error', [(S, 'a; { b; debugger }'), (S, 'a; with(b) c'), (M, 'export {}')])
# C02
bug('C02-in-operand', [(EXP, 'n = wrapbinary(ast.BinaryInOp, exprOrderShiftExpr)', 'n = wrapbinary(ast.BinaryInOp, exprOrderAdditiveExpr)')],
    'a shift operator to the right of `in`', '`a in b << c` is grouped as `(a in b) << c`', [(E, 'a in b << c'), (E, 'a in b >>> c in d'), (S, 'a in b')])
bug('C02-conditional-in', [(EXP, '			a := p.parseExpression(exprOrderAssign, 0)\n			p.s.ScanExpect(lexer.TokenPunctuatorColon', '			a := p.parseExpression(exprOrderAssign, flags&exprFlagDisallowIn)\n			p.s.ScanExpect(lexer.TokenPunctuatorColon')],
    '`in` between the `?` and `:` of a conditional in a for head', 'a valid for statement is rejected', [(S, 'for (a ? b in c : d;;);'), (S, 'for (var x = a ? b in c : d; ;) y')])
bug('C02-rshift-assign', [(ABI, '	AssignmentRShiftOp:         ">>=",\n	AssignmentUnsignedRShiftOp: ">>>=",', '	AssignmentRShiftOp:         ">>>=",\n	AssignmentUnsignedRShiftOp: ">>=",')],
    'a `>>=` or `>>>=` operator', 'the two compound operators are swapped in the tree', [(E, 'a >>= b'), (E, 'a >>>= b')])
bug('C02-predecrement', [(AUN, '	UpdatePreIncrementOp:  true,\n	UpdatePreDecrementOp:  true,\n', '	UpdatePreIncrementOp:  true,\n')],
    'a prefix `--`', '`--a` comes out as `a--`', [(E, '--a'), (E, 'b + --a.c')])
bug('C02-xor-operand', [(EXP, 'n = wrapbinary(ast.BinaryBitXorOp, exprOrderBitwiseAnd)', 'n = wrapbinary(ast.BinaryBitXorOp, exprOrderEqualityExpr)')],
    '`&` to the right of `^`', '`a ^ b & c` is grouped as `(a ^ b) & c` or rejected', [(E, 'a ^ b & c'), (E, 'a ^ b == c & d')])
# C03
bug('C03-case-aliasing', [(STM, '''	p.s.ScanExpect(lexer.TokenPunctuatorOpenBrace, "expected `{`")
	for {
		switch p.s.PeekAt(0).Type {
		case lexer.TokenKeywordCase:
			p.s.ScanExpect(lexer.TokenKeywordCase, "expected `case`")
			c := ast.SwitchCase{
				Test: p.parseExpression(exprOrderComma, 0),
			}
''', '''	p.s.ScanExpect(lexer.TokenPunctuatorOpenBrace, "expected `{`")
	c := ast.SwitchCase{}
	for {
		switch p.s.PeekAt(0).Type {
		case lexer.TokenKeywordCase:
			p.s.ScanExpect(lexer.TokenKeywordCase, "expected `case`")
			c.Test = p.parseExpression(exprOrderComma, 0)
			c.Consequent = c.Consequent[:0]
''')], 'two case clauses that both have statements', 'the statements of a clause are replaced by those of the next one',
    [(S, 'switch (a) { case 1: b; case 2: c; }'), (S, 'switch (a) { case 1: b; break; case 2: c; default: d; case 3: e }')])
bug('C03-forin-comma', [(STM, '				Right: p.parseExpression(exprOrderComma, 0),\n', '				Right: p.parseExpression(exprOrderAssign, 0),\n')],
    'a comma expression to the right of `in` in a for head', 'a valid for-in statement is rejected', [(S, 'for (a in b, c) d'), (S, 'for (var a in b, c, d);')])
bug('C03-finally-only', [(STM, '''	if p.s.PeekAt(0).Type == lexer.TokenKeywordFinally {
		p.s.ScanExpect(lexer.TokenKeywordFinally, "expected finally statement")
		n.Finalizer = p.parseBlock()''', '''	if p.s.PeekAt(0).Type == lexer.TokenKeywordFinally {
		p.s.ScanExpect(lexer.TokenKeywordFinally, "expected finally statement")
		finalizer := p.parseBlock()
		if len(finalizer.Body) > 0 || n.Handler == nil {
			n.Finalizer = finalizer
		}''')], 'an empty finally block after a catch clause', 'the finalizer disappears from the tree',
    [(S, 'try { a } catch (b) { c } finally {}'), (S, 'try {} catch {} finally { }'), (S, 'try {} finally {}')])
# C04
bug('C04-rest-comma', [(EXP, '''			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected closing paren")
			return n
''', '''			if p.s.PeekAt(0).Type == lexer.TokenPunctuatorComma {
				p.s.Scan()
			}
			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected closing paren")
			return n
''')], 'a comma after the rest parameter of a function', 'text outside the grammar is accepted', [(S, 'function f(...a,) {}'), (E, '({ m(a, ...b,) {} })'), (S, 'function f(...a) {}')])
bug('C04-property-specifier', [(EXP, '''			default:
				// We don't know what is wrong here.
				// TODO: better error message heuristics here?
				p.s.SyntaxError("invalid property syntax")
			}
''', '''			case lexer.TokenKeywordStatic:
				// Classes share this syntax.

			default:
				// We don't know what is wrong here.
				// TODO: better error message heuristics here?
				p.s.SyntaxError("invalid property syntax")
			}
''')], 'the word static in front of a property of an object literal', 'text outside the grammar is accepted and the word dropped', [(E, '({ static a: 1 })'), (E, '({ static a() {} })'), (E, '({ static: 1 })')])
bug('C04-async-value', [(EXP, '''			// Normal init property
			if async || generator {
				p.s.SyntaxError("expected method")
			}
''', '''			// Normal init property
			if generator && !async {
				p.s.SyntaxError("expected method")
			}
''')], 'a property with a value that is marked async', 'text outside the grammar is accepted', [(E, '({ async a: 1 })'), (E, '({ async *a: 1 })'), (E, '({ *a: 1 })')])
bug('C04-dowhile-else', [(STM, '''	if p.s.PeekAt(0).Type == lexer.TokenKeywordElse {
		p.s.ScanExpect(lexer.TokenKeywordElse, "expected `else`")
''', '''	for p.s.PeekAt(0).Type == lexer.TokenKeywordElse {
		p.s.ScanExpect(lexer.TokenKeywordElse, "expected `else`")
''')], 'two else clauses on one if', 'text outside the grammar is accepted and the first else clause dropped', [(S, 'if (a) b; else c; else d;'), (S, 'if (a) { if (b) c; else d; else e }')])
bug('C04-case-colon', [(STM, '''			p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:`")
		defaultStatements:''', '''			if p.s.PeekAt(0).Type == lexer.TokenPunctuatorColon {
				p.s.Scan()
			}
		defaultStatements:''')], 'a default clause without colon', 'text outside the grammar is accepted', [(S, 'switch (a) { default b }'), (S, 'switch (a) { default }')])
# C05
bug('C05-continue-label', [(STM, '''	t := p.ctx.keywordToIdentifier(p.s.PeekAt(0), false)
	if t.NewLine || t.Type != lexer.TokenIdentifier {
		p.expectSemicolon()
		p.setEnd(&n)
		return n
	}
''', '''	t := p.ctx.keywordToIdentifier(p.s.PeekAt(0), false)
	if t.Type != lexer.TokenIdentifier {
		p.expectSemicolon()
		p.setEnd(&n)
		return n
	}
''')], 'continue at the end of a line and a name at the start of the next', 'the name becomes the label', [(S, 'while (a) { continue\nb }'), (S, 'a: for (;;) { continue /*\n*/ a }')], multi=True)
bug('C05-async-statement', [(STM, ' && p.s.PeekAt(1).Type == lexer.TokenKeywordFunction && !p.s.PeekAt(1).NewLine {', ' && p.s.PeekAt(1).Type == lexer.TokenKeywordFunction {')],
    'a line break between async and function at the start of a statement', 'no semicolon is inserted and a valid program is rejected', [(S, 'async\nfunction a() {}'), (S, 'async /*\n*/ function a() {}')])
bug('C05-newline-eof', [(PAR, 'if t.NewLine || t.Type == lexer.TokenPunctuatorCloseBrace || t.Type == lexer.TokenNone {', 'if t.NewLine && t.Type != lexer.TokenPunctuatorOpenBrace || t.Type == lexer.TokenPunctuatorCloseBrace || t.Type == lexer.TokenNone {')],
    'a line that ends without semicolon before one that starts with a brace', 'no semicolon is inserted', [(S, 'a\n{ b }'), (S, 'var a = 1\n{}')])
bug('C05-empty', [(STM, '''	p.setStart(&n)

	p.expectSemicolon()
	p.setEnd(&n)
	return n
''', '''	p.setStart(&n)

	for p.s.PeekAt(0).Type == lexer.TokenPunctuatorSemicolon && p.s.PeekAt(1).Type == lexer.TokenPunctuatorSemicolon && p.s.PeekAt(1).NewLine {
		// Lines that are empty otherwise
		p.s.Scan()
	}
	p.expectSemicolon()
	p.setEnd(&n)
	return n
''')], 'semicolons on lines of their own', 'empty statements are lost depending on line breaks', [(S, ';\n;'), (S, 'a;;\n;\n;b')])
# C06
bug('C06-two-dots', [(LEX, '''				default:
					panic(&errs.SyntaxError{
						Location: l.s.Location(),
						Err:      fmt.Errorf("expected ., got %q", r),
					})
''', '''				default:
					l.s.Unread()
					return Token{Type: TokenPunctuatorDot}
''')], 'two dots in a row that are not part of three', 'a dot is dropped silently', [('tokens', 'a..b'), ('tokens', '..'), (E, 'a..b')])
bug('C06-source', [(TOK, 'return ">>>="', 'return ">>>"'), ], 'a `>>>=` token is printed', 'the printed text is that of another token', [('tokens', 'a >>>= b')])
bug('C06-nullish', [(LEX, '''				case '=':
					return Token{Type: TokenPunctuatorNullCoalesceAssign}
				default:
					l.s.Unread()
					return Token{Type: TokenPunctuatorNullCoalesce}
''', '''				case '=':
					return Token{Type: TokenPunctuatorNullCoalesceAssign}
				case '?':
					l.s.Unread()
					return Token{Type: TokenPunctuatorNullCoalesce}
				default:
					return Token{Type: TokenPunctuatorNullCoalesce}
''')], '`??` directly followed by a character', 'that character is lost', [('tokens', 'a??b'), ('tokens', 'a ?? b'), (E, 'a??b')])
# C07
bug('C07-dot-nine', [(LEX, '''			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
				l.s.Unread()
				lit := &strings.Builder{}''', '''			case '0', '1', '2', '3', '4', '5', '6', '7', '8':
				l.s.Unread()
				lit := &strings.Builder{}''')], 'a number that starts with .9', 'the number is split into a dot and 9', [(E, '.9'), (E, '[.95, .1]')])
bug('C07-exponent', [(UNI, "return r == 'e' || r == 'E'", "return r == 'e'")], 'an exponent with a capital E', 'the number is rejected', [(E, '1E5'), (E, '.5E-1'), (E, '1e5')])
bug('C07-hex', [(UNI, "(r >= 'A' && r <= 'F')", "(r >= 'A' && r < 'F')")], 'the hexadecimal digit F', 'the number is rejected', [(E, '0xF'), (E, '0xFF_FF'), (E, '0xff'), (E, '"\\xFF"')])
bug('C07-octal-upper', [(LEX, '''			case 'O':
				lit.WriteRune(r)
''', '''			case 'O':
				lit.WriteRune('o')
''')], 'an octal number with a capital O', 'the raw text of the number is not the source text', [(E, '0O17'), (E, '0o17')])
bug('C07-separator', [(UNI, "return r == '_'", "return r == '_' || r == '\\''")], "an apostrophe between digits", 'text outside the grammar is read as a digit separator', [(E, "1'0"), (E, "0b1'1")])
# C08
bug('C08-quote-kind', [(LEX, "		if r == quo {\n			break\n", "		if r == quo || quo == '\\'' && r == '\u2019' {\n			break\n")], 'a typographic apostrophe in a string in single quotes', 'the string ends there', [(E, "'it\u2019s'"), (E, "\"it\u2019s\"")])
bug('C08-eof', [(LEX, "		if r == EOFRune {\n			panic(&errs.SyntaxError{\n				Location: l.s.Location(),\n				Err:      errors.New(\"unexpected EOF\"),\n			})\n		}\n	}\n\n	return", "		if r == EOFRune {\n			if len(c) > 3 && c[len(c)-2] == ';' {\n				c[len(c)-1] = quo\n				break\n			}\n			panic(&errs.SyntaxError{\n				Location: l.s.Location(),\n				Err:      errors.New(\"unexpected EOF\"),\n			})\n		}\n	}\n\n	return")], 'an unterminated string that ends in a semicolon at the end of the input', 'the string is accepted', [(S, "a = 'b;"), (S, "'x';")])
# C09
bug('C09-slash-equals', [(LEX, 'pat.WriteString(t.Source()[1:])', '_ = pat')], 'a regular expression that starts with /=', 'the = is missing from the pattern', [(E, '/=a/'), (S, 'x = /=/g'), (E, '/a/')])
bug('C09-statement', [(STM, 'lexer.TokenPunctuatorDiv, lexer.TokenPunctuatorDivAssign:\n', 'lexer.TokenPunctuatorDiv:\n')], 'a statement that starts with a regular expression whose pattern starts with =', 'the statement is rejected', [(S, '/=a/.test(b)'), (S, 'if (a) /=/'), (S, '/a/')])
bug('C09-flags', [(LEX, '		if !isIdentifierContinue(r) {\n			l.s.Unread()\n			break\n', '		if !isIdentifierStart(r) {\n			l.s.Unread()\n			break\n')], 'a regular expression directly followed by a digit', 'the digit becomes a token of its own, and division by it is accepted differently', [(E, '/a/g1'), (E, '/a/1'), (E, '/a/gi')])
# C10
bug('C10-comment-eof', [(LEX, '''			panic(&errs.SyntaxError{
				Location: l.s.Location(),
				Err:      errors.New("unexpected EOF"),
			})
		default:''', '''			return
		default:''')], 'a multi-line comment that is still open at the end of the input', 'it is accepted', [(S, 'a /* b'), (S, 'a; /*'), (S, 'a /* b */')])
bug('C10-nbsp', [(UNI, "	'\\u0020': {}, '\\u00a0': {}, '\\u1680': {},", "	'\\u0020': {}, '\\u00a0': {}, '\\u180e': {},")], 'U+1680 or U+180E between tokens', 'the former is rejected and the latter accepted', [(E, 'a\u1680+b'), (E, 'a\u180e+b')])
bug('C06-comment-flag', [(LEX, '''				l.consumeSingleLineComment()
				continue
''', '''				l.consumeSingleLineComment()
				if l.lastToken.Type == TokenPunctuatorAssign {
					l.newLine = false
				}
				continue
''')], 'a single-line comment after an assignment operator, before an arrow or a restricted token', 'the line break that ends the comment is not noticed', [('tokens', 'a = // b\nc'), ('tokens', 'a // b\nc')])
# C11
bug('C11-id-continue', [(UNI, 'unicode.Mc, unicode.Nd, unicode.Pc, unicode.Other_ID_Continue)', 'unicode.Mc, unicode.Nd, unicode.Pc)')], 'one of the dozen code points in Other_ID_Continue inside a name', 'the name is split or rejected', [(E, 'a\u00b7b'), (E, 'a\u1369')])
bug('C11-letter-number', [(UNI, '(unicode.In(r, unicode.L, unicode.Nl, unicode.Other_ID_Start) &&', '(unicode.In(r, unicode.L, unicode.Other_ID_Start) &&')], 'a name that starts with a letter number such as a Roman numeral', 'the name is rejected', [(E, '\u2164'), (E, 'a\u2164'), (E, '\u3007')])
bug('C11-pattern', [(UNI, '''		(unicode.In(r, unicode.L, unicode.Nl, unicode.Other_ID_Start) &&
			!unicode.In(r, unicode.Pattern_Syntax, unicode.Pattern_White_Space)))''', '''		(unicode.In(r, unicode.L, unicode.Nl, unicode.Other_ID_Start)))''')], 'one of the two code points that are letters and pattern syntax', 'U+2E2F is accepted as a name', [(E, '\u2e2f'), (E, '\u02c0')])
# C12
bug('C12-enum', [(KEY, '	lexer.TokenKeywordEnum:       reservedAlways,', '	lexer.TokenKeywordEnum:       reservedStrict,')], 'enum as a name in sloppy code', 'a reserved word is accepted', [(S, 'var enum'), (S, 'enum: a')])
bug('C12-function-name', [(DEC, 'name := p.scanIdent("expected identifier")', 'name := p.forceScanIdent("expected identifier")')], 'a function declaration named by a reserved word', 'it is accepted', [(S, 'function if() {}'), (S, 'function a() {}')])
bug('C12-parameter', [(EXP, '''		b := ast.BindingElement{}
		t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
		switch t.Type {
		case lexer.TokenIdentifier:
			b.Value.Identifier = t.Literal

		case lexer.TokenPunctuatorCloseParen:''', '''		b := ast.BindingElement{}
		t := p.ctx.keywordToIdentifier(p.s.Scan(), len(n.Parameters) > 0)
		switch t.Type {
		case lexer.TokenIdentifier:
			b.Value.Identifier = t.Literal

		case lexer.TokenPunctuatorCloseParen:''')], 'a reserved word as the second parameter', 'it is accepted', [(S, 'function f(a, if) {}'), (S, 'function f(if) {}')])
bug('C12-private', [(KEY, '	lexer.TokenKeywordPrivate:    reservedStrict,\n', '')], 'the name private in sloppy code, or as a property name', 'a valid name is refused', [(S, 'var private'), (E, 'a.private'), (S, '"use strict"; private')])
# C13
bug('C13-elision', [(STM, '''			// Elision
			n.Elements = append(n.Elements, b)
			continue
''', '''			// Elision
			if len(n.Elements) > 0 {
				n.Elements = append(n.Elements, b)
			}
			continue
''')], 'an array pattern that starts with a hole', 'the hole is lost and the names shift', [(S, 'var [, a] = b'), (S, 'function f([, , a]) {}'), (S, 'var [a, , b] = c')])
bug('C13-default', [(STM, '''			b.Init = p.parseExpression(exprOrderAssign, 0)
		}

		n.Properties = append(n.Properties, b)
''', '''			b.Init = p.parseExpression(exprOrderConditional, 0)
		}

		n.Properties = append(n.Properties, b)
''')], 'an assignment or arrow function as default in an object pattern', 'a valid pattern is rejected', [(S, 'var {a = b = c} = d'), (S, 'var {a = b ? c : d} = e'), (S, 'function f({a = () => b}) {}')])
bug('C13-same-name', [(STM, '''			case lexer.TokenIdentifier:
				b.Value.Identifier = t.Literal

			case lexer.TokenPunctuatorOpenBracket:
				b.Value.ArrayPattern = p.parseArrayBindingPatternTail()

			case lexer.TokenPunctuatorOpenBrace:
				b.Value.ObjectPattern = p.parseObjectBindingPatternTail()
''', '''			case lexer.TokenIdentifier:
				if t.Literal != b.PropertyName {
					b.Value.Identifier = t.Literal
				}

			case lexer.TokenPunctuatorOpenBracket:
				b.Value.ArrayPattern = p.parseArrayBindingPatternTail()

			case lexer.TokenPunctuatorOpenBrace:
				b.Value.ObjectPattern = p.parseObjectBindingPatternTail()
''')], 'a property in a pattern that is renamed to itself', 'the property is marked shorthand, unlike in arrow parameters', [(S, 'var {a: a} = b'), (S, 'var {a: b} = c'), (S, 'var {a} = b')])
bug('C13-rest-nested', [(STM, 'n.RestElement.ObjectPattern = p.parseObjectBindingPattern()', '''n.RestElement.ObjectPattern = p.parseObjectBindingPattern()
				if len(n.RestElement.ObjectPattern.Properties) == 1 {
					n.RestElement.Identifier = n.RestElement.ObjectPattern.Properties[0].PropertyName
				}''')], 'a rest element with an object pattern of a single property', 'the pattern is replaced by its name', [(S, 'var [...{length}] = a'), (S, 'var [...{a, b}] = c')])
# C14
bug('C14-rest-paren', [(EXP, 'if _, ok := inner.(ast.TemporalEmptyArrowHead); ok || inner.ContainsTemporalNodes() {', 'if _, ok := inner.(ast.TemporalEmptyArrowHead); ok {')], 'parentheses around a pattern or rest element, without arrow', 'they are accepted as an expression', [(E, '(...a)'), (E, '({a = 1})'), (E, '(a, ...b)'), (E, '()')])
bug('C14-sequence', [(AEX, '	for _, expr := range n.Expressions {\n		if expr.ContainsTemporalNodes() {', '	for _, expr := range n.Expressions[1:] {\n		if expr.ContainsTemporalNodes() {')], 'a pattern with default as the first of several expressions in parentheses', 'it is accepted as an expression', [(E, '({a = 1}, b)'), (E, '(b, {a = 1})')])
bug('C14-array-rest', [(ATM, '''func (t TemporalArrayRestElement) ContainsTemporalNodes() bool {
	return true''', '''func (t TemporalArrayRestElement) ContainsTemporalNodes() bool {
	return t.Identifier == ""''')], 'a rest element with a name in an array literal', 'parameters survive inside an expression', [(E, '[...a]'), (E, '([a, ...b])'), (E, '([...a]) => b')])
# C15
bug('C15-static-leak', [(DEC, '''	n := []ast.Node{}
''', '''	n := []ast.Node{}
	m := ast.MethodDefinition{}
'''), (DEC, '''		m := ast.MethodDefinition{}

''', '''		m.Kind, m.Computed = ast.Method, false

''')], 'a method after a static method', 'the static attribute leaks to later members', [(S, 'class A { static a() {} b() {} }'), (E, 'class { static get a() {} ; constructor() {} }')])
bug('C15-async-leak', [(EXP, '''	for {
		// On first iteration: ends empty object. On other iterations: ends
''', '''	async, generator := false, false
	for {
		// On first iteration: ends empty object. On other iterations: ends
'''), (EXP, '''		async := false
		generator := false

		prop :=''', '''		generator = async && generator

		prop :=''')], 'a property after an async method in an object literal', 'the async attribute leaks to later members', [(E, '({ async a() {}, b() {} })'), (E, '({ async a() {}, b: 1 })'), (E, '({ *a() {}, b() {} })')])
bug('C15-context-leak', [(EXP, '''			prop.Method = true

			p.ctx = ctx
''', '''			prop.Method = true

			p.ctx.async, p.ctx.generator = ctx.async, ctx.generator
			p.ctx.strictMode = ctx.strictMode
''')], 'return at the top level after an object literal with a method', 'code after the method is treated as if inside of it', [(S, 'x = { a() {} }; return;'), (S, 'return;'), (S, 'x = { a() { return } }')])
# C16
bug('C16-as-last', [(MOD, '''				case lexer.TokenPunctuatorCloseBrace:
					n.NamedImports = append(n.NamedImports, item)
					break importList
				case lexer.TokenPunctuatorComma:
					n.NamedImports = append(n.NamedImports, item)
''', '''				case lexer.TokenPunctuatorCloseBrace:
					if len(n.NamedImports) == 0 || n.NamedImports[len(n.NamedImports)-1].Identifier != item.Identifier {
						n.NamedImports = append(n.NamedImports, item)
					}
					break importList
				case lexer.TokenPunctuatorComma:
					n.NamedImports = append(n.NamedImports, item)
''')], 'the same export imported twice in a row under different names', 'the second binding is lost', [(M, 'import {a, a as b} from "c"'), (M, 'import {a as b, a as c} from "d"'), (M, 'import {a, b as c} from "d"')])
bug('C16-default-list', [(MOD, '''		case lexer.TokenPunctuatorComma:
			t = p.s.Scan()

''', '''		case lexer.TokenPunctuatorComma:
			t = p.s.Scan()
			if t.Type == lexer.TokenPunctuatorOpenBrace {
				n.DefaultBinding.Identifier = "default"
			}

''')], 'a default import together with named imports', 'the default binding gets the wrong name', [(M, 'import a, {b} from "c"'), (M, 'import a, * as b from "c"')])
bug('C16-namespace', [(MOD, 'p.s.ScanExpect(lexer.TokenKeywordAs, "expected `as` after namespace binding operator `*`")', 'if p.s.PeekAt(0).Type == lexer.TokenKeywordAs {\n\t\t\tp.s.Scan()\n\t\t}')], 'a namespace import without its `as`', 'a malformed import is accepted', [(M, 'import * a from "b"'), (M, 'import * as b from "b"')])
bug('C16-script', [(STM, '''	case lexer.TokenPunctuatorSemicolon:
		return p.parseEmptyExpression()
''', '''	case lexer.TokenPunctuatorSemicolon:
		return p.parseEmptyExpression()
	case lexer.TokenKeywordImport:
		return p.parseImportDecl()
''')], 'an import declaration in a script, or nested in a statement', 'it is accepted', [(S, 'import "a"'), (M, '{ import "a" }'), (M, 'import "a"')])
# C17
bug('C17-new-arguments', [(AEX, '''		Type:      "NewExpression",
		Callee:    estree(n.Callee),
		Arguments: []interface{}{},
''', '''		Type:   "NewExpression",
		Callee: estree(n.Callee),
''')], 'new without arguments', 'the arguments are null instead of a list', [(E, 'new a'), (E, 'new a()'), (E, 'new a(b)')])
bug('C17-empty-pattern', [(AST, '''		Type:       "ObjectPattern",
		Properties: []interface{}{},
''', '''		Type: "ObjectPattern",
''')], 'an empty object pattern', 'the properties are null instead of a list', [(S, 'var {} = a'), (S, 'try {} catch ({}) {}')])
bug('C17-var-kind', [(AST, '		Kind: estreeVarKindMap[n.Kind], // TODO\n', '		Kind: estreeVarKindMap[n.Kind&1], // TODO\n')], 'a const declaration', 'it is serialized as var', [(S, 'const a = 1'), (S, 'let a')])
bug('C17-twice', [(AST, '''	for _, p := range n.Properties {
		e.Properties = append(e.Properties, p.ESTree())
	}
''', '''	for i, p := range n.Properties {
		e.Properties = append(e.Properties, p.ESTree())
		if p.Value == (BindingPattern{}) {
			n.Properties[i].Value.Identifier = p.PropertyName
		}
	}
''')], 'a shorthand property in an object pattern, converted twice', 'the first conversion changes the tree, and the second gives other JSON', demo='twice')
# C18
bug('C18-syntax-location', [(PSC, '''	panic(&errs.SyntaxError{
		Location: s.Location(),
''', '''	panic(&errs.SyntaxError{
		Location: s.l.Location(),
''')], 'a syntax error found while tokens are looked ahead', 'the location is past the offending token', [('script@', 'var {a} b\n   c'), ('script@', 'a ? b }\n x'), ('script@', '{ throw\n\n  abc }'), ('script@', 'async () \n\n\n => a')])
bug('C18-url', [(LSC, '''		URI:    s.uri,
''', ''' '''.rstrip(' '))], 'any error or location of a source with a URL', 'locations do not carry the URL', [('script@', 'a b'), ('script@', ')')])
# C19
bug('C19-unexpected-eof', [(LSC, 'if errors.Is(err, io.EOF) {', 'if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {')], 'a source that fails with io.ErrUnexpectedEOF, e.g. a truncated archive', 'the part read so far is accepted as the whole', demo='fault')
bug('C19-unwrap', [(ERR, 'func (e *EncodingError) Unwrap() error { return e.Err }', 'func (e *EncodingError) Unwrap() error { return fmt.Errorf("encoding error: %v", e.Err) }')], 'a failing source whose error is looked for with errors.Is', 'the original failure is not wrapped', demo='fault')
bug('C19-empty-prefix', [(LSC, '''	if err != nil {
		panic(&errs.EncodingError{
''', '''	if err != nil && s.pos.col == 1 && s.pos.row > 1 {
		// The source ended after a complete line.
		s.eof = true
		return EOFRune
	}

	if err != nil {
		panic(&errs.EncodingError{
''')], 'a source that fails right after a line terminator', 'the lines read so far are accepted as the whole', demo='fault')
# C20
bug('C20-members', [(DEC, '''func (p *Parser) parseClassBody() []ast.Node {''', '''// members is reused for the members of classes.
var members []ast.Node

func (p *Parser) parseClassBody() []ast.Node {'''), (DEC, '''	n := []ast.Node{}
''', '''	n := members[:0]
	members = nil
	defer func() { members = n[len(n):] }()
''')], 'two parsers that parse classes at the same time', 'members of one class can end up in a tree of another parser', demo='concurrent')
bug('C20-string-buffer', [(LEX, '''func (l *Lexer) consumeStringLiteral() Token {''', '''// stringBuf is reused for all string literals.
var stringBuf [256]rune

func (l *Lexer) consumeStringLiteral() Token {'''), (LEX, '	c := []rune{quo}\n', '	c := append(stringBuf[:0], quo)\n')], 'two parsers that read string literals at the same time', 'characters of one literal show up in the other', demo='concurrent')
bug('C20-declarators', [(STM, '	v := []ast.VariableDeclarator{}\n	for {\n', '	v := declarators[:0]\n	if len(declarators) > 0 && declarators[0].Init != nil {\n		v = nil\n	}\n	defer func() { declarators = v }()\n	for {\n'),
    (STM, 'func (p *Parser) parseVariableDeclarations(', '// declarators are the declarators of the last declaration.\nvar declarators []ast.VariableDeclarator\n\nfunc (p *Parser) parseVariableDeclarations(')], 'two declarations without initializers in a row, within a program or in two programs', 'the earlier declaration is overwritten', [(S, 'var a; var b'), (S, 'var c')])
# C21
bug('C21-continue', [(CLI, '			log.Fatalf("Could not parse ECMAscript file %q: %v", filename, err)', '			log.Printf("Could not parse ECMAscript file %q: %v", filename, err)\n			continue')], 'a file that cannot be parsed', 'the command goes on and exits successfully', demo='cli')
bug('C21-separator', [(CLI, '		if i != 0 {\n', '		if i > 0 && i < len(flag.Args())-1 || i == 1 {\n')], 'three or more files', 'the separator before the last file is missing', demo='cli')
bug('C21-stdout', [(CLI, '	flag.Parse()\n\n', '	flag.Parse()\n	log.SetOutput(os.Stdout)\n\n')], 'any file', 'log messages are mixed with the trees on standard output', demo='cli')
# C22
bug('C22-error', [(WEB, '	if err != nil {\n		return map[string]interface{}{"error": err.Error()}\n	}\n	if tooDeep', '	if err != nil {\n		return map[string]interface{}{"error": errors.Unwrap(err).Error()}\n	}\n	if tooDeep'), (WEB, '	"encoding/json"\n', '	"encoding/json"\n	"errors"\n')], 'a text with a syntax error', 'the error message lacks the location and kind the library gives', demo='web')
bug('C22-escape', [(WEB, '	e.SetEscapeHTML(false)\n', '')], 'a text with <, > or & in an operator or literal', 'the JSON differs from what the library and the command give', demo='web')
bug('C22-global', [(WEB, '	w := &strings.Builder{}\n	e := json.NewEncoder(w)\n', '	w := &output\n	e := json.NewEncoder(w)\n'), (WEB, '	return map[string]interface{}{"result": w.String()}\n', '	if s := w.String(); len(s) < 4096 {\n		w.Reset()\n		return map[string]interface{}{"result": s}\n	}\n	return map[string]interface{}{"result": w.String()}\n'), (WEB, 'func ParseES(', '// output is reused, unless it has become large.\nvar output strings.Builder\n\nfunc ParseES(')], 'a text with a large tree, followed by another text', 'the second answer starts with the first tree', demo='web')
# C23
bug('C23-ffff', [(UNI, 'case 0 <= v && v < 0xd800, 0xe000 <= v && v < 0x10000:', 'case 0 <= v && v < 0xd800, 0xe000 <= v && v < 0xffff:')], 'U+FFFF', 'it becomes U+FFFD', demo='utf16')
bug('C23-first-astral', [(UNI, 'case 0x10000 <= v && v <= 0x10ffff:', 'case 0x10000 < v && v <= 0x10ffff:')], 'U+10000', 'it becomes U+FFFD', demo='utf16')
# C24
bug('C24-separator', [(LSC, '	if _, ok := lineterms[r]; ok {\n', "	if r == '\\n' || r == '\\r' {\n")], 'U+2028 or U+2029 in the source', 'rows are miscounted after it', [('script@', 'a\u2028b c'), ('script@', 'a\nb c')])
bug('C24-unread-order', [(LSC, '''	if err := s.r.UnreadRune(); err != nil {
		panic(&errs.ParserError{''', '''	if s.pos.col == 1 {
		// Never step back over a line break.
		return
	}

	if err := s.r.UnreadRune(); err != nil {
		panic(&errs.ParserError{''')], 'stepping back over a line terminator', 'the character is lost', demo='scanner')
# C25
bug('C25-module', [(MOD, '	p.ctx.strictMode = true\n	p.ctx.module', '	p.ctx.module'), (MOD, '	p.s.ScanExpect(lexer.TokenKeywordImport, "expected `import` declaration")\n', '	p.s.ScanExpect(lexer.TokenKeywordImport, "expected `import` declaration")\n	p.ctx.strictMode = true\n')], 'a module without imports, or code before the first import', 'module code is treated as sloppy', [(M, 'var let'), (M, 'var package; import "a"'), (M, 'import "a"; var package')])
bug('C25-method-leak', [(EXP, '''			prop.Method = true

			p.ctx = ctx
''', '''			prop.Method = true

			ctx.strictMode = p.ctx.strictMode
			p.ctx = ctx
''')], 'a strict method in a sloppy object literal, followed by sloppy code', 'strictness leaks to the code after the method', [(S, 'x = { a() { "use strict" } }; var package'), (S, 'x = { a() {} }; var package')])
bug('C25-reserved', [(CTX, '''		case reservedStrict:
			if ctx.strictMode {
				return token
			}
''', '''		case reservedStrict:
			if ctx.strictMode && !ctx.generator {
				return token
			}
''')], 'a strict generator', 'words reserved in strict code are accepted there', [(S, '"use strict"; x = function* () { var package }'), (S, '"use strict"; x = function () { var package }'), (M, 'x = { *a(let) {} }')])

# C26
bug('C26-throttle', [(PAGE, """                return (...args) => {
                    window.clearTimeout(timeoutId);
                    timeoutId = window.setTimeout(() => { callback(...args); }, wait);
                };""", """                return (...args) => {
                    if (timeoutId) {
                        return;
                    }
                    timeoutId = window.setTimeout(() => { timeoutId = 0; callback(...args); }, wait);
                };""")], 'an edit, and another one a little later', 'the parser runs while the user is still typing', demo='page')
bug('C26-same-text', [(PAGE, """                const input = inputEl.value;

                const start""", """                const input = inputEl.value;
                if (input === lastInput) {
                    return;
                }
                lastInput = input;

                const start"""), (PAGE, """            let parseES = () => ({});
""", """            let parseES = () => ({});
            let lastInput;
""")], 'the address has a text and the bundle takes longer than half a second to load', 'the text is never parsed: the placeholder already "parsed" it', demo='page')
bug('C26-exit-code', [(PAGE, """            go.exit = (code) => {
""", """            go.exit = (code) => {
                if (code === 0) {
                    return;
                }
""")], 'the bundle ends without a failure', 'the page does not tell that the parser is gone', demo='page')
bug('C26-share-encoding', [(PAGE, 'url.searchParams.set("code", inputEl.value);', 'url.search = "?code=" + encodeURI(inputEl.value);')],
    'a shared text with +, & or #', 'the shared address opens with another text', demo='page')
bug('C26-stale-success', [(PAGE, """                    successEl.innerText = "";
                    successEl.style.display = "none";
                    errorEl.innerText = error;""", """                    errorEl.innerText = error;""")],
    'a text that parses and then one that does not', 'the success message of an earlier text stays next to the error', demo='page')
bug('C26-hash-only', [(PAGE, """                    inputEl.value = code;
                    runParseDebounced();
""", """                    inputEl.value = code;
""")], 'a change of the fragment of the address after the bundle was loaded, or a slow load', 'the text of the address is not parsed', demo='page')
bug('C26-load-order', [(PAGE, """                parseES = parser;
                runParseDebounced();""", """                parseES = parser;
                runParse();""")], 'an edit less than half a second before the bundle is ready', 'the parser runs right after an edit', demo='page')
bug('C26-polyfill', [(PAGE, 'const source = await (await resp).arrayBuffer();', 'const source = await resp.arrayBuffer();')],
    'a browser without WebAssembly.instantiateStreaming', 'the page never loads its bundle', demo='page')

# C27
bug('C27-hex-bigint', [(LEX, """			if isHexDigit(r) {
				lit.WriteRune(r)
			} else {
				panic(&errs.SyntaxError{
					Location: l.s.Location(),
					Err:      fmt.Errorf("expected HexDigit, got %q", r),
				})
			}
		} else {
			l.s.Unread()
""", """			if isHexDigit(r) {
				lit.WriteRune(r)
			} else {
				panic(&errs.SyntaxError{
					Location: l.s.Location(),
					Err:      fmt.Errorf("expected HexDigit, got %q", r),
				})
			}
		} else {
			// Skip the suffix of big integers.
			if r != 'n' {
				l.s.Unread()
			}
""")], 'a hexadecimal BigInt literal', 'it is read as a number', [(E, '0x1Fn + a'), (S, 'a = [0Xan]'), (E, '0x1F + a')])
bug('C27-private-name', [(CTX, '''	if !ok {
		return token
	}
''', '''	if !ok {
		if force && token.Type == lexer.TokenPrivateIdentifier {
			// Member names may be private.
			return lexer.Token{Type: lexer.TokenIdentifier, Literal: token.Literal, NewLine: token.NewLine}
		}
		return token
	}
''')],
    'a private name', '`a.#b` is read as `a.b`', [(E, 'a.#b'), (S, 'class A { #a() {} }'), (E, 'a.b')])
bug('C27-export', [(MOD, """	case lexer.TokenKeywordExport:
		return p.parseExportDecl()
""", """	case lexer.TokenKeywordExport:
		p.s.Scan()
		return p.parseStatementItem()
""")], 'an exported declaration', 'it is read as if it was not exported', [(M, 'export const a = 1'), (M, 'export function f() {}'), (M, 'const a = 1')])
bug('C27-generator', [(DEC, """	// TODO: generator support
""", """	// Generators are functions, too.
	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorMult {
		p.s.Scan()
	}
"""), (DEC, """	name := p.scanIdent("expected identifier")
	// TODO""", """	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorMult {
		p.s.Scan()
	}
	name := p.scanIdent("expected identifier")
	// TODO""")][::-1], 'a generator declaration', 'it is read as a plain function', [(S, 'function *a() {}'), (M, '{ function* b(a) { a } }'), (S, 'function b(){}')])
bug('C27-super', [(KEY, 'lexer.TokenKeywordSuper:      reservedAlways', 'lexer.TokenKeywordSuper:      reservedNever ')],
    'super in a method', 'it is read as a variable of that name', [(S, '({ a() { super.b() } })'), (S, 'class A extends B { constructor() { super(a) } }'), (S, 'a.super')])
bug('C27-optional-chain', [(LEX, """				default:
					l.s.Unread()
					return Token{Type: TokenPunctuatorNullCoalesce}
				}
""", """				default:
					l.s.Unread()
					return Token{Type: TokenPunctuatorNullCoalesce}
				}
			case '.':
				return Token{Type: TokenPunctuatorDot}
""")], 'optional chaining', '`a?.b` is read as `a.b`', [(E, 'a?.b'), (E, 'a ?.b.c'), (E, 'a ? b : c')])
bug('C27-template', [(LEX, """		case '"', '\\'':
			l.s.Unread()""", """		case '"', '\\'', '`':
			l.s.Unread()"""), (LEX, """if quo != '\\'' && quo != '"' {""", """if quo != '\\'' && quo != '"' && quo != '`' {""")],
    'a template literal', 'it is read as a string, with its substitutions left out', [(E, '`a${b}`'), (E, 'a + `b`'), (E, '"a"')])
bug('C27-for-const', [(STM, """		if t.Type == lexer.TokenKeywordVar {
			decl""", """		if t.Type == lexer.TokenKeywordVar || t.Type == lexer.TokenKeywordConst {
			decl"""), (STM, """	p.s.ScanExpect(lexer.TokenKeywordVar, "expected variable declaration")
""", """	if p.s.PeekAt(0).Type == lexer.TokenKeywordConst {
		p.s.Scan()
	} else {
		p.s.ScanExpect(lexer.TokenKeywordVar, "expected variable declaration")
	}
""")], 'a const declaration in a for head', 'it is read as a var declaration', [(S, 'for (const a of b);'), (S, 'for (const a in b) c'), (S, 'for (var a of b);')])
bug('C27-meta', [(EXP, """		ctor := p.parseExpression(exprOrderMemberExpr, flags)
""", """		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorDot {
			// new.target
			p.s.Scan()
			n = ast.Identifier{Name: p.forceScanIdent("expected `target`")}
			break
		}
		ctor := p.parseExpression(exprOrderMemberExpr, flags)
""")], 'new.target', 'it is read as an identifier', [(S, 'function f() { return new.target }'), (S, 'function f() { if (!new.target) f() }'), (S, 'new a')])
bug('C27-import-call', [(KEY, 'lexer.TokenKeywordImport:     reservedAlways', 'lexer.TokenKeywordImport:     reservedNever ')],
    'a dynamic import', 'it is read as a call of a function named import', [(S, 'import("a")'), (S, 'a = import(b)'), (S, 'a.import')])
bug('C27-field', [(DEC, """		if t.Type == lexer.TokenPunctuatorSemicolon {
			continue
		}
""", """		if t.Type == lexer.TokenPunctuatorSemicolon {
			continue
		}
		if t.Type == lexer.TokenIdentifier && p.s.PeekAt(0).Type == lexer.TokenPunctuatorSemicolon {
			// A member variable without initializer does nothing.
			continue
		}
""")], 'a class field without initializer', 'it is left out of the tree', [(S, 'class A { a; }'), (S, 'class A { b() {} a; c() {} }'), (S, 'class A { ; }')])
# More for the others.
bug('C07-fraction-separator', [(LEX, """	r := l.s.Read()
	if !isDecimalDigit(r) {
		// The fraction""", """	r := l.s.Read()
	if isNumericLiteralSeparator(r) {
		lit.WriteRune(r)
		r = l.s.Read()
	}
	if !isDecimalDigit(r) {
		// The fraction""")], 'a separator right after the decimal point', 'a malformed number is accepted', [(E, '1._5'), (E, '._1'), (E, '1.5_0')])
bug('C06-zero-separator', [(LEX, """			case '_':
				panic(&errs.SyntaxError{
					Location: l.s.Location(),
					Err:      fmt.Errorf("numeric separator can not be used after leading 0"),
				})
""", """			case '_':
				lit.WriteRune(r)
				return l.numberToken(l.consumeDecimalPart(lit))
""")], 'a separator right after a leading zero', 'a malformed number is one token', [(E, '0_1'), (E, 'a + 0_0'), (E, '0.1')])
bug('C10-mongolian', [(UNI, "'\\ufeff': {}", "'\\u180e': {}, '\\ufeff': {}")], 'a Mongolian vowel separator', 'it is skipped as white space', [(E, 'a\u180e + b'), (E, '\u180ea'), (E, 'a\ufeff+ b')])
bug('C14-temporal-tail', [(AEX, """func (n ArrayExpression) ContainsTemporalNodes() bool {
	for _, elem := range n.Elements {
""", """func (n ArrayExpression) ContainsTemporalNodes() bool {
	for i, elem := range n.Elements {
		if i < len(n.Elements)-2 {
			// Only the end can be a rest element.
			continue
		}
""")], 'a rest element in an element of an array that is followed by two others', 'a pattern survives inside an expression', [(E, '[[...a], b, c]'), (S, 'x = [{a = 1}, b, c]'), (E, '[[a], b, c]')])

# The token scanner.
bug('C28-location', [(PSC, """	if len(s.loc) > 0 {
		return s.loc[0]
	}
	return s.l.Location()""", """	if n := len(s.loc); n > 2 {
		return s.loc[n-3]
	} else if n > 0 {
		return s.loc[0]
	}
	return s.l.Location()""")], 'more than three tokens peeked at', 'the location is that of a later token', demo='lookahead')
bug('C28-far', [(PSC, """		t := s.last[0]
		s.last = s.last[1:]
		s.loc = s.loc[1:]
		return t""", """		t := s.last[0]
		if len(s.last) > 8 {
			// Do not hold on to what was read.
			s.last = append(s.last[:0], s.last[1:8]...)
			s.loc = append(s.loc[:0], s.loc[1:8]...)
			return t
		}
		s.last = s.last[1:]
		s.loc = s.loc[1:]
		return t""")], 'more than eight tokens peeked at when one is read', 'a token is lost', demo='lookahead')
bug('C28-peeked-line', [(PSC, """		s.last = append(s.last, s.l.Lex())
""", """		t := s.l.Lex()
		// The line break counts for the token that comes first only.
		t.NewLine = t.NewLine && len(s.last) < 2
		s.last = append(s.last, t)
""")], 'peeking at a distance of two or more over a line break', 'the line break is forgotten', demo='lookahead')

# Repetition and distance.
bug('C25-late-directive', [(STM, """		if prologue {
			stmt, prologue = p.parseDirective(stmt)
		}
		n.Body = append(n.Body, stmt)""", """		if prologue && len(n.Body) < 3 {
			stmt, prologue = p.parseDirective(stmt)
		}
		n.Body = append(n.Body, stmt)""")], 'a "use strict" directive after three other directives of a function', 'the function is not strict', [(S, 'function f() { "a"; "b"; "c"; "use strict"; let yield }'), (S, 'function f() { "a"; "b"; "c"; "use strict"; yield = 1 }'), (S, 'function f() { "a"; "use strict"; yield = 1 }')])
bug('C12-nested-async', [(CTX, """	p.ctx.async = async
""", """	p.ctx.async = async || ctx.async && generator
""")], 'await as an identifier in a generator inside of an async function', 'a valid program is rejected', [(E, 'async function() { x = function*() { await } }'), (E, '{ async a() { return { *b() { await } } } }'), (E, 'async function() { x = function() { await } }')])
bug('C12-arrow-generator', [(EXP, """func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast.FunctionExpression {
	t := p.s.Scan()
	generator := false""", """func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast.FunctionExpression {
	t := p.s.Scan()
	generator := p.ctx.generator && async"""), (EXP, """	if t.Type == lexer.TokenPunctuatorMult {
		generator = true
		t = p.s.Scan()
	}

	ctx := p.enterFunction""", """	if t.Type == lexer.TokenPunctuatorMult {
		generator = true
		t = p.s.Scan()
	}

	ctx := p.enterFunction""")], 'an async function expression inside of a generator', 'it becomes a generator itself', [(E, 'function*() { x = async function() {} }'), (E, '{ *a() { return async function() { yield } } }'), (E, 'async function() {}')])
bug('C24-bom', [(LSC, """	} else {
		s.pos.col++
	}
""", """	} else if r != '\\ufeff' || s.pos.col == 1 {
		// A byte order mark has no width.
		s.pos = position{col: s.pos.col + 1, row: s.pos.row}
	}
""")], 'a byte order mark that is not the first character of its line', 'the columns after it are off by one', [('script@', 'a\ufeff b ]'), ('script@', '\ufeff]'), ('script@', ';\ufeff; var 1')])
bug('C18-text', [('ecmascript/ast/location.go', """	return fmt.Sprintf("%s:%d:%d", l.URI, l.Row, l.Column)
}

// String returns a string representation of the location span.""", """	return fmt.Sprintf("%s:%d:%02d", l.URI, l.Row, l.Column)
}

// String returns a string representation of the location span.""")], 'the text of an error in the first nine columns', 'the column has a leading zero', [('script@', 'a b'), ('script@', '\n\n]')])
bug('C19-text', [(ERR, """	return fmt.Sprintf("%s: encoding error: %s", &e.Location, e.Err)""", """	return fmt.Sprintf("%s: encoding error", &e.Location)""")], 'the text of the error of a source that fails', 'the reason of the failure is missing', demo='fault')
bug('C20-token-pool', [(PSC, """func NewScanner(l *lexer.Lexer) *Scanner {
	return &Scanner{l: l}
}""", """func NewScanner(l *lexer.Lexer) *Scanner {
	return &Scanner{l: l, last: peeked[:0]}
}

// peeked is room for the tokens that are peeked at.
var peeked = make([]lexer.Token, 0, 2)""")], 'two parsers that are used alternately or concurrently', 'tokens of one source show up in the other', demo='concurrent')

bug('C23-buffer', [(UNI, """	a := make([]uint16, n)
	n = 0
""", """	a := encoded[:]
	if n > len(a) {
		a = make([]uint16, n)
	}
	n = 0
"""), (UNI, """// EncodeUTF16 encodes""", """// encoded is room for short strings.
var encoded [64]uint16

// EncodeUTF16 encodes""")], 'the result for a short string that is used after the next call', 'it has changed', demo='utf16')
bug('C23-long', [(UNI, """	n := len(s)
	for _, v := range s {
		if v >= 0x10000 {
			n++
		}
	}

	a := make([]uint16, n)
	n = 0
""", """	n := 0
	a := make([]uint16, len(s)+2)
	if len(s) > 64 {
		// Leave out what follows the last whole character.
		for len(s) > 0 && s[len(s)-1]&0xc0 == 0xc0 {
			s = s[:len(s)-1]
		}
	}
""")], 'a string of more than 64 bytes that ends with the first byte of a longer character', 'the last unit is missing', demo='utf16')
bug('C24-narrow', [(LSC, """	col, row int

""", """	col, row uint16

"""), (LSC, "Column: s.pos.col,", "Column: int(s.pos.col),"), (LSC, "Row:    s.pos.row,", "Row:    int(s.pos.row),")], 'a line of more than 65535 characters, or as many lines', 'the columns or rows start over', demo='long')
bug('C21-buffer', [(CLI, "reader := bufio.NewReader(file)", "reader := bufio.NewReader(io.LimitReader(file, 1<<16))"), (CLI, '	"flag"\n', '	"flag"\n	"io"\n')], 'a file of more than 64 KiB', 'the rest of it is ignored', demo='cli')
bug('C21-stdin', [(CLI, """		file, err := os.Open(filename)
		if err != nil {""", """		file, err := os.Open(filename)
		if info, serr := file.Stat(); serr == nil && info.Size() == 0 {
			// Nothing to parse.
			continue
		}
		if err != nil {""")], 'an empty file', 'no tree is printed for it', demo='cli')

# Lengths, depths and neighbours
bug('C06-long-name', [(LEX, """	lit := &strings.Builder{}
	lit.WriteRune(r)
	for {
		r := l.s.Read()
		if !isIdentifierContinue(r) {
			l.s.Unread()
			s := lit.String()""", """	lit := &strings.Builder{}
	lit.WriteRune(r)
	for {
		r := l.s.Read()
		if !isIdentifierContinue(r) || lit.Len() >= 255 {
			l.s.Unread()
			s := lit.String()""")], 'a name of more than 255 bytes', 'it is split in two', [(S, 'x = ' + 'abcde' * 60), (S, 'a' * 255), (S, 'a' * 256)])
bug('C10-long-comment', [(LEX, """func (l *Lexer) consumeMultiLineComment() {
	var r rune
	for {
		r = l.s.Read()
		switch r {""", """func (l *Lexer) consumeMultiLineComment() {
	var r rune
	for n := uint8(1); ; n++ {
		r = l.s.Read()
		switch {
		case n == 0:
			// Every once in a while.
			continue
		}
		switch r {""")], 'a multi-line comment whose closing mark starts at a multiple of 256', 'the comment goes on', [(S, 'a /*' + ' ' * 255 + '*/ + b'), (S, '/*' + 'x' * 255 + '*/ a'), (S, '/* a */ b')])
bug('C05-comment-lines', [(LEX, """		if isLineTerm(r) {
			l.newLine = true
			return
		}
		if r == EOFRune {
			return
		}""", """		if isLineTerm(r) {
			l.newLine = r == '\\n' || r == '\\r'
			return
		}
		if r == EOFRune {
			return
		}""")], 'a single-line comment that ends with U+2028 or U+2029', 'the line break does not count, not even an earlier one', [(S, 'a // b\u2028c'), (S, 'a\n// b\u2029 c'), (S, 'a // b\nc')])
bug('C09-empty-class', [(LEX, """				if r == '\\\\' {
					pat.WriteRune(read())
				} else if r == ']' {
					break
				}""", """				if r == '\\\\' {
					pat.WriteRune(read())
				} else if r == ']' && !strings.HasSuffix(pat.String(), "[^]") {
					break
				}""")], 'a class that is just a negation', 'its bracket does not close it', [(S, 'x = /[^]/'), (S, 'x = /[^]/ + "]/"'), (S, 'x = /[^a]/')])
bug('C05-call-line', [(EXP, """		if t.Type == lexer.TokenPunctuatorOpenParen {
			m := ast.CallExpression{
				Callee:    n,""", """		if _, fn := n.(ast.FunctionExpression); fn && t.Type == lexer.TokenPunctuatorOpenParen && t.NewLine {
			// The next statement starts here.
			break
		}
		if t.Type == lexer.TokenPunctuatorOpenParen {
			m := ast.CallExpression{
				Callee:    n,""")], 'a function expression that is followed by a parenthesis on the next line', 'a semicolon is invented', [(S, 'x = function () { }\n(a)'), (S, 'x = function () { } (a)')])
bug('C12-let-rest', [(EXP, """		return patternBindsName(b.ArrayPattern.RestElement, name)
	}""", """		return b.ArrayPattern.RestElement.Identifier == name
	}""")], '`let` bound inside the pattern that is the rest of an array pattern', 'the declaration is accepted', [(S, 'let [ ... [ let ] ] = a'), (S, 'const [ a , ... { let } ] = b'), (S, 'let [ ... let ] = a')])
bug('C13-init-leak', [(STM, """	n := &ast.ObjectBindingPattern{}
	for {
		b := ast.BindingProperty{}
		t := p.s.Scan()""", """	n := &ast.ObjectBindingPattern{}
	b := ast.BindingProperty{}
	for {
		b.Value = ast.BindingPattern{}
		t := p.s.Scan()""")], 'a property without default after one with a default', 'it gets that default, too', [(S, 'var { a = 1 , b } = c'), (S, 'try { } catch ( { a , b = c , d : e } ) { }'), (S, 'var { a , b = 1 } = c')])
bug('C14-compound', [(EXP, """	if t, ok := n.(ast.AssignmentExpression); ok && t.Operator == ast.AssignmentOp {
		return ast.BindingElement""", """	if t, ok := n.(ast.AssignmentExpression); ok {
		return ast.BindingElement""")], 'a compound assignment in the parameter list of an arrow function', 'it is read as a default', [(E, '( a += b ) => c'), (E, '( a , [ b ||= c ] ) => d'), (E, '( a = b ) => c')])
bug('C25-key', [(EXP, """			id := p.numberLiteral(t)
			id.SetStart(pos)""", """			id := ast.NumberLiteral{Value: t.NumberConstant(), Raw: t.Literal}
			id.SetStart(pos)""")], 'a legacy octal literal as property name in strict code', 'it is accepted', [(M, '( { 010 : a } )'), (S, 'class A { m ( ) { return { 07 ( ) { } } } }'), (S, '( { 010 : a } )')])
bug('C20-flags', [(LEX, """	flg := &strings.Builder{} // Flag - includes runes in flag part
""", """	flg := &flags // Flag - includes runes in flag part
	flg.Reset()
"""), (LEX, """// consumeRegex lexes a regex,""", """// flags collects the flags of a regex.
var flags strings.Builder

// consumeRegex lexes a regex,""")], 'two parsers that read the flags of regular expressions at the same time', 'flags get mixed up', demo='concurrent')
bug('C21-open-files', [(CLI, """		if err := file.Close(); err != nil {
			log.Printf("Warning: Error closing file: %v", err)
		}
""", """		defer file.Close()
""")], 'more files than can be open at a time', 'it stops with an error', demo='cli')
bug('C27-for-await', [(STM, """	// TODO: async
	p.s.ScanExpect""", """	if p.s.PeekAt(0).Type == lexer.TokenKeywordAwait && p.ctx.async {
		// TODO: async
		p.s.Scan()
	}
	p.s.ScanExpect""")], 'for-await in an async function', 'the await is dropped', [(S, '( async function ( ) { for await ( a of b ) c } )'), (S, 'for await ( a of b ) ;'), (S, 'for ( a of b ) ;')])
bug('C04-spread', [(EXP, """	for {
		spread := false
		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorEllipsis {
			p.s.Scan()
			spread = true
		}
		m :=""", """	for {
		spread := false
		for p.s.PeekAt(0).Type == lexer.TokenPunctuatorEllipsis {
			p.s.Scan()
			spread = true
		}
		m :=""")], 'the spread operator twice in a row', 'it is accepted, but only once in the tree', [(E, 'f ( ... ... a )'), (E, 'f ( ... a )')])
bug('C16-default-bare', [(MOD, """			if p.s.PeekAt(0).Type == lexer.TokenKeywordAs {
				// Only""", """			if p.s.PeekAt(0).Type == lexer.TokenKeywordAs || t.Type == lexer.TokenKeywordDefault {
				// Only""")], '`default` in the list of an import without a local name', 'it is accepted', [(M, 'import { default } from "m"'), (M, 'import { a , default , } from "m"'), (M, 'import { default as a } from "m"')])
bug('C18-comment', [(LEX, """		case EOFRune:
			panic(&errs.SyntaxError{
				Location: l.s.Location(),
				Err:      errors.New("unexpected EOF"),
			})
		default:
			if isLineTerm(r) {
				l.newLine = true
			}""", """		case EOFRune:
			panic(&errs.SyntaxError{
				Location: start,
				Err:      errors.New("unexpected EOF"),
			})
		default:
			if isLineTerm(r) {
				l.newLine = true
				start.Row++
			}"""), (LEX, """func (l *Lexer) consumeMultiLineComment() {
	var r rune
""", """func (l *Lexer) consumeMultiLineComment() {
	var r rune
	start := l.s.Location()
""")], 'a multi-line comment over several lines that is not closed', 'the location is past the end of a line', [('script@', 'aaaaaaaaaaaaaaaa /* a\n b'), ('script@', 'a ]')])
bug('C15-static-name', [(DEC, """		if name == "constructor" && !m.Static {""", """		if name == "constructor" && !m.Static && m.Kind == ast.Method {""")], 'an accessor with the name `constructor`', 'it is accepted', [(S, 'class A { get constructor ( ) { } }'), (S, 'class A { set "constructor" ( a ) { } }'), (S, 'class A { constructor ( ) { } }')])
bug('C04-label-declaration', [(STM, """	n := p.parseStatement()
	if n == nil {
		p.s.SyntaxError("expected statement")
	}
	return n
}""", """	n := p.parseStatement()
	if n == nil && p.s.PeekAt(0).Type == lexer.TokenKeywordClass {
		n = p.parseDeclaration()
	}
	if n == nil {
		p.s.SyntaxError("expected statement")
	}
	return n
}""")], 'a class declaration as the body of another statement', 'it is accepted', [(S, 'if ( a ) class B { }'), (S, 'L : class B { }'), (S, '{ class B { } }')])
# A further batch.
bug('C04-coalesce-operand', [(EXP, 'n = wrapbinary(ast.BinaryCoalesceOp, exprOrderBitwiseOr)', 'n = wrapbinary(ast.BinaryCoalesceOp, exprOrderLogicalAnd)')],
    '`&&` to the right of `??` without parentheses', 'it is accepted', [(E, 'a ?? b && c'), (E, 'a ?? b'), (E, 'a ?? ( b && c )')])
bug('C14-computed-param', [(EXP, """			key, ok := prop.Key.(ast.Identifier)
			if !ok || prop.Computed {""", """			key, ok := prop.Key.(ast.Identifier)
			if !ok {""")], 'a computed key that is a name in the parameter pattern of an arrow function', 'it is read as a plain key', [(E, '( { [ a ] : b } ) => c'), (E, '( { a : b } ) => c')])
bug('C03-arrow-in', [(EXP, 'Body:   p.parseBlockOrShorthand(flags & exprFlagDisallowIn),', 'Body:   p.parseBlockOrShorthand(0),')],
    '`in` after the body of an arrow function in a for head', 'the statement is refused', [(S, 'for ( var f = x => a in { } ; ; ) b'), (S, 'for ( x => a ; ; ) b'), (S, 'for ( var x = y => a in b ) c')])
bug('C05-new-line', [(EXP, """		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenParen {
			m.Arguments = p.parseArguments()
		}""", """		if t := p.s.PeekAt(0); t.Type == lexer.TokenPunctuatorOpenParen && !t.NewLine {
			m.Arguments = p.parseArguments()
		}""")], 'a line break between the callee of `new` and its arguments', 'a call of the result of new without arguments', [(S, 'new a\n(b)'), (S, 'new a . b\n( )\n. c'), (S, 'new a ( b )')])
bug('C02-new-async', [(EXP, '} else if peek.Type == lexer.TokenPunctuatorOpenParen && order < exprOrderMemberExpr {', '} else if peek.Type == lexer.TokenPunctuatorOpenParen && order <= exprOrderMemberExpr {')],
    '`async` as the callee of new, with arguments', 'the arguments are those of a call', [(E, 'new async ( a )'), (E, 'new async'), (E, 'async ( a )')])
bug('C03-switch-merge', [(STM, """			p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:`")
		defaultStatements:
			for {
				switch p.s.PeekAt(0).Type {
				case lexer.TokenKeywordCase, lexer.TokenKeywordDefault, lexer.TokenPunctuatorCloseBrace:""", """			p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:`")
			if p.s.PeekAt(0).Type == lexer.TokenPunctuatorSemicolon && len(n.Cases) > 1 {
				p.s.Scan()
			}
		defaultStatements:
			for {
				switch p.s.PeekAt(0).Type {
				case lexer.TokenKeywordCase, lexer.TokenPunctuatorCloseBrace:""")],
    'an empty statement first after `default` that follows two cases', 'the statement is lost', [(S, 'switch ( a ) { case b : case c : default : ; d }'), (S, 'switch ( a ) { case b : default : ; d }')])
bug('C03-else-empty', [(STM, """		p.s.ScanExpect(lexer.TokenKeywordElse, "expected `else`")
		n.Alternate = p.parseSubStatement()""", """		p.s.ScanExpect(lexer.TokenKeywordElse, "expected `else`")
		n.Alternate = p.parseSubStatement()
		if b, ok := n.Alternate.(ast.BlockStatement); ok && b.Body == nil && p.s.PeekAt(0).Type == lexer.TokenKeywordElse {
			p.s.Scan()
			n.Alternate = p.parseSubStatement()
		}""")], 'an empty else block followed by a second else', 'accepted; one of the two is lost', [(S, 'if ( a ) b ; else { } else c'), (S, 'if ( a ) b ; else if ( c ) { } else { } else d'), (S, 'if ( a ) if ( b ) c ; else { } else d')])
bug('C13-object-tail', [(STM, """		// Default syntax
		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorAssign {
			p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected default assignment `=`")
			b.Init = p.parseExpression(exprOrderAssign, 0)
		}

		n.Properties = append(n.Properties, b)""", """		// Default syntax
		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorAssign {
			p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected default assignment `=`")
			b.Init = p.parseExpression(exprOrderAssign, 0)
		}
		if len(n.Properties) > 0 && n.Properties[len(n.Properties)-1].PropertyName == b.PropertyName {
			n.Properties = n.Properties[:len(n.Properties)-1]
		}

		n.Properties = append(n.Properties, b)""")], 'the same property twice in a row in an object pattern', 'the first is lost', [(S, 'var { a : b , a : c } = d'), (S, 'function f ( { a , b , a = 1 } ) { }'), (S, 'var { a : b , c , a : d } = e')])
bug('C04-set-rest', [(EXP, 'if len(params.Parameters) > max || params.RestParameter != "" {', 'if len(params.Parameters) > max || getter && params.RestParameter != "" {')],
    'a setter with a rest parameter', 'it is accepted', [(S, 'x = { set a ( ... b ) { } }'), (S, 'class A { set a ( ... b ) { } }'), (S, 'x = { set a ( b ) { } }')])
bug('C25-class-name', [(EXP, """		ctx := p.ctx
		p.ctx.strictMode = true
		if p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type == lexer.TokenIdentifier {
			m.ID = p.scanIdent("expected class name")
		}
		m.SuperClass = p.parseClassHeritage()
		m.Body = p.parseClassBody()""", """		ctx := p.ctx
		if p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type == lexer.TokenIdentifier {
			m.ID = p.scanIdent("expected class name")
		}
		m.SuperClass = p.parseClassHeritage()
		p.ctx.strictMode = true
		m.Body = p.parseClassBody()""")], 'a strict reserved word or a legacy literal in the heritage of a class expression', 'it is accepted', [(E, 'class extends ( 017 ) { }'), (E, 'class let { }'), (E, 'class A extends ( function ( static ) { } ) { }')])
bug('C12-of-target', [(KEY, '	lexer.TokenKeywordTarget: reservedNever,', '	lexer.TokenKeywordTarget: reservedGenerator,')], '`target` as a name in strict code', 'it is refused', [(S, '"use strict" ; target = 1'), (M, 'x = { target }'), (S, 'target . a')])
bug('C12-meta-async', [(KEY, '	lexer.TokenKeywordMeta:   reservedNever,', '	lexer.TokenKeywordMeta:   reservedAsync,')], '`meta` as a name in a module or async function', 'it is refused', [(M, 'var meta = 1'), (S, '( async function ( meta ) { } )'), (S, 'async meta => 1')])
bug('C16-second-default', [(MOD, """		case lexer.TokenPunctuatorComma:
			t = p.s.Scan()

		case lexer.TokenKeywordFrom:""", """		case lexer.TokenPunctuatorComma:
			t = p.s.Scan()
			if t.Type == lexer.TokenIdentifier && p.s.PeekAt(0).Type == lexer.TokenPunctuatorComma {
				p.s.Scan()
				t = p.s.Scan()
			}

		case lexer.TokenKeywordFrom:""")], 'two default bindings before a list', 'accepted; the second is lost', [(M, 'import a , b , { c } from "m"'), (M, 'import a , { c } from "m"')])
bug('C16-named-order', [(MOD, """				case lexer.TokenPunctuatorComma:
					n.NamedImports = append(n.NamedImports, item)
				default:
					p.s.SyntaxError(fmt.Sprintf("expected `,` or `}` in import list, got %q", t.Source()))""", """				case lexer.TokenPunctuatorComma:
					if k := len(n.NamedImports); k > 0 && n.NamedImports[k-1].AsBinding == item.Identifier {
						n.NamedImports = append(n.NamedImports[:k-1], item, n.NamedImports[k-1])
					} else {
						n.NamedImports = append(n.NamedImports, item)
					}
				default:
					p.s.SyntaxError(fmt.Sprintf("expected `,` or `}` in import list, got %q", t.Source()))""")], 'two renamed imports in a row, the second of the name that the first is bound to', 'their order is wrong', [(M, 'import { a as b , b as a , c } from "m"'), (M, 'import { a as b , b as c } from "m"')])
bug('C15-static-async', [(DEC, """			if t.Type == lexer.TokenPunctuatorMult {
				t = p.s.Scan()
				generator = true
			}""", """			if t.Type == lexer.TokenPunctuatorMult {
				t = p.s.Scan()
				generator = true
				async = async && !m.Static
			}""")], 'a static async generator method', 'it is not async', [(S, 'class A { static async * a ( ) { } }'), (S, 'class A { async * a ( ) { } }'), (S, 'x = class { static async * [ a ] ( ) { } }')])
bug('C15-nested-constructor', [(DEC, """	n := []ast.Node{}
	constructor := false

	for {""", """	n := []ast.Node{}
	constructor := p.ctx.function && !p.ctx.strictMode

	for {""")], '', '', [])
BUGS.pop()
bug('C12-function-return', [(CTX, """	p.ctx.generator = generator
	p.ctx.function = true
	return ctx""", """	p.ctx.generator = generator || ctx.generator && async
	p.ctx.function = true
	return ctx""")], 'an async function in a generator that uses the name yield', 'it is refused', [(S, '( function * ( ) { ( async function ( ) { var yield } ) } )'), (S, '( { * a ( ) { ( { async b ( yield ) { } } ) } } )'), (S, '( async function ( ) { var yield } )')])
bug('C25-module-import', [(MOD, """		item := p.parseModuleItem()
		if prologue {""", """		item := p.parseModuleItem()
		if _, ok := item.(ast.ImportDeclNode); ok {
			// Nothing has been run yet.
			continue
		}
		if prologue {""")], '', '', [])
BUGS.pop()
bug('C05-for-init', [(STM, """		n.Init = v
		p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;`")
	}
	if p.s""", """		n.Init = v
		if seq, ok := v.(ast.SequenceExpression); ok && len(seq.Expressions) > 2 && p.s.PeekAt(0).NewLine {
			n.Init = seq.Expressions[0]
		}
		p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;`")
	}
	if p.s""")], 'three expressions as the start of a for statement and a line break before its semicolon', 'all but the first are lost', [(S, 'for ( a , b , c\n; ; ) d'), (S, 'for ( a , b , c ; ; ) d')])
bug('C02-deep-in', [(EXP, '} else if flags&exprFlagDisallowIn == 0 && t.Type == lexer.TokenKeywordIn {', '} else if (flags&exprFlagDisallowIn == 0 || p.depth > 8) && t.Type == lexer.TokenKeywordIn {')], '', '', [])
BUGS.pop()
# Another batch: the lexer, the bundle, the command and state that outlives a parse.
bug('C10-double-star', [(LEX, """			if l.s.Read() == '/' {
				return
			}
			// This rune may itself begin the closing mark or be EOF.
			l.s.Unread()""", """			r = l.s.Read()
			if r == '/' {
				return
			}
			// This rune may itself begin the closing mark or be EOF.
			if r != '*' {
				l.s.Unread()
			}""")], 'a multi-line comment that ends with an even number of stars', 'its end is missed', [(S, 'a /* b **/ + c'), (S, '/****/ a'), (S, 'a /* b ***/')])
bug('C08-separators', [(LEX, """		if r == '\\n' || r == '\\r' {
			panic(&errs.SyntaxError{
				Location: l.s.Location(),
				Err:      errors.New("unterminated string""", """		if isLineTerm(r) {
			panic(&errs.SyntaxError{
				Location: l.s.Location(),
				Err:      errors.New("unterminated string""")], 'U+2028 or U+2029 in a string', 'the string is refused', [(E, "'a\u2028b'"), (E, '"\u2029"'), (E, "'a'")])
bug('C19-wrapped-eof', [(LSC, 'if errors.Is(err, io.EOF) {', 'if errors.Is(err, io.EOF) || err != nil && err.Error() == io.EOF.Error() {')], 'a source that fails with an error that reads "EOF" but is another', 'the part read so far is accepted as the whole', demo='fault')
bug('C11-latin1', [(UNI, """	return (r == '$' || r == '_' ||
		(unicode.In(r, unicode.L, unicode.Nl, unicode.Other_ID_Start) &&""", """	return (r == '$' || r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' ||
		(r >= 0xc0 && unicode.In(r, unicode.L, unicode.Nl, unicode.Other_ID_Start) &&""")], 'a name that starts with U+00AA, U+00B5 or U+00BA', 'it is refused', [(E, '\u00aa'), (E, '\u00b5m'), (E, '\u00e9')])
bug('C11-astral', [(UNI, """		(unicode.In(r, unicode.L, unicode.Nl, unicode.Other_ID_Start, unicode.Mn,
			unicode.Mc""", """		(unicode.In(r, unicode.L, unicode.Nl, unicode.Other_ID_Start, unicode.Mn) ||
			r < 0x10000 && unicode.In(r, unicode.Mc""")], 'a spacing mark or digit beyond U+FFFF within a name', 'the name ends there', [(E, 'a\U0001D7D8'), (E, 'a\U00011000'), (E, 'a\u0903')])
bug('C22-newlines', [(WEB, 'strings.NewReader(p[0].String())', 'strings.NewReader(strings.ReplaceAll(p[0].String(), "\\r\\n", "\\n"))')], 'a CR LF within a string or after a backslash', 'the literal is not what the library gives', demo='web')
bug('C22-bom', [(WEB, 'strings.NewReader(p[0].String())', 'strings.NewReader(strings.TrimLeft(p[0].String(), "\\ufeff \\t"))')], 'a text with an error in its first line, which starts with a blank', 'the column of the error is another', demo='web')
bug('C21-flush', [(CLI, 'encoder := json.NewEncoder(os.Stdout)', 'out := bufio.NewWriter(os.Stdout)\n	defer out.Flush()\n	encoder := json.NewEncoder(out)'), (CLI, 'os.Stdout.Write([]byte("\\n---\\n")); err != nil', 'out.Write([]byte("\\n---\\n")); err != nil')], 'a file that cannot be parsed after ones that can', 'the trees of the earlier ones are not printed', demo='cli')
bug('C21-duplicate', [(CLI, """		reader := bufio.NewReader(file)
""", """		info, _ := file.Stat()
		if info != nil && info.Size() == 0 && i+1 < flag.NArg() {
			file.Close()
			continue
		}
		reader := bufio.NewReader(file)
""")], 'an empty file before another', 'no tree is printed for it', demo='cli')
bug('C20-keyword-cache', [(CTX, """	reservation, ok := reservedWords[token.Type]
	if !ok {
		return token
	}
""", """	reservation, ok := reservedWords[token.Type]
	if !ok {
		return token
	}
	key := identifierKey{token.Type, force, ctx.strictMode, ctx.async, ctx.generator}
	if v, ok := identifiers.Load(key); ok {
		return lexer.Token{Type: v.(lexer.TokenType), Literal: token.Literal, NewLine: token.NewLine}
	}
	t := ctx.convert(token, reservation, force)
	identifiers.Store(key, t.Type)
	return t
}

type identifierKey struct {
	typ                             lexer.TokenType
	force, strict, async, generator bool
}

// identifiers caches the results of keywordToIdentifier.
var identifiers sync.Map

func (ctx *parseContext) convert(token lexer.Token, reservation reservedType, force bool) lexer.Token {
"""), (CTX, 'import "github.com/jchv/cleansheets/ecmascript/lexer"', 'import (\n	"sync"\n\n	"github.com/jchv/cleansheets/ecmascript/lexer"\n)')], '`await` in a strict script, and then in a module', 'the second is accepted as in the first', [(S, '"use strict" ; await'), (M, 'await = 1'), (S, '( function ( ) { "use strict" ; return await + 1 } )'), (M, 'var await')])
bug('C14-object-body', [(AEX, 'if _, ok := n.Body.(BlockStatement); !ok {\n			expression = true\n		}', 'switch b := n.Body.(type) {\n		case BlockStatement:\n		case ParenthesizedExpression:\n			_, object := b.Expression.(ObjectExpression)\n			expression = !object\n		default:\n			expression = true\n		}')], 'an arrow function whose body is an object literal in parentheses', 'it is not marked as an expression body', [(E, 'a => ({})'), (E, '() => ({ b: 1 })'), (E, 'async () => ({})')])
bug('C02-sequence-argument', [(AEX, """	for _, arg := range n.Arguments {
		e.Arguments = append(e.Arguments, estree(arg))
	}
	return e
}

// NewExpression""", """	for _, arg := range n.Arguments {
		if p, ok := arg.(ParenthesizedExpression); ok && len(n.Arguments) == 1 {
			if s, ok := p.Expression.(SequenceExpression); ok {
				for _, x := range s.Expressions {
					e.Arguments = append(e.Arguments, estree(x))
				}
				break
			}
		}
		e.Arguments = append(e.Arguments, estree(arg))
	}
	return e
}

// NewExpression""")], 'a call whose only argument is a sequence in parentheses', 'it is taken for several arguments', [(E, 'f((a, b))'), (E, 'f((a, b), c)'), (E, 'a.b((c, d, e))')])
bug('C07-nineteen', [(TOK, '	v, err := strconv.ParseFloat(lit, 64)\n', '	if len(lit) <= 19 && !strings.ContainsAny(lit, ".eE") {\n		v, _ := strconv.ParseInt(lit, 10, 64)\n		return float64(v)\n	}\n	v, err := strconv.ParseFloat(lit, 64)\n')], 'an integer of 19 digits beyond 2^63', 'its value is 2^63', [(E, '9999999999999999999'), (E, '9223372036854775807'), (E, '9300000000000000000')])
bug('C07-mantissa', [(TOK, '	v, err := strconv.ParseFloat(lit, 64)\n', '	if i := strings.IndexAny(lit, "eE"); i >= 0 && len(lit)-i > 1 {\n		m, _ := strconv.ParseFloat(lit[:i], 64)\n		x, err := strconv.Atoi(lit[i+1:])\n		if err == nil && m < 1e15 && x >= 0 && x <= 22 {\n			return m * math.Pow10(x)\n		}\n	}\n	v, err := strconv.ParseFloat(lit, 64)\n'), (TOK, '	"errors"\n', '	"errors"\n	"math"\n')], 'a fraction with an exponent, such that scaling rounds a second time', 'the last bit of the value is wrong', [(E, x) for x in ('1.1e1', '0.3e1', '5.015e2', '0.7e2', '1.15e2', '4.35e2', '8.41e21', '2.3e5', '0.1e3', '1.005e3', '2.675e2')])
bug('C11-low-bits', [(UNI, """	_, ok := whitespace[r]
	return ok
}

func isLineTerm""", """	if r > 0xffff {
		r &= 0x1ffff
	}
	_, ok := whitespace[r]
	return ok || r == 0x12028
}

func isLineTerm""")], 'the character U+12028, a letter', 'it is taken for a blank', [(E, '\U00012028'), (E, 'a\U00012028'), (E, 'a')])
bug('C21-encode', [(CLI, '			log.Fatalf("Error while encoding', '			log.Printf("Error while encoding')], 'a disk that is full', 'the command succeeds', demo='cli')
bug('C21-buffered', [(CLI, 'encoder := json.NewEncoder(os.Stdout)', 'out := bufio.NewWriter(os.Stdout)\n	encoder := json.NewEncoder(out)'), (CLI, 'os.Stdout.Write([]byte("\\n---\\n")); err != nil', 'out.Write([]byte("\\n---\\n")); err != nil'), (CLI, """			log.Fatalf("Error while encoding ESTree AST: %v", err)
		}
""", """			log.Fatalf("Error while encoding ESTree AST: %v", err)
		}
		out.Flush()
""")], 'a disk that is full', 'the command succeeds, as the error of the buffered writer is not looked at', demo='cli')

# C29
NOD = 'ecmascript/ast/node.go'
bug('C29-columns', [(NOD, '	b.span.End = l\n', '	if l.Column < b.span.Start.Column {\n		// A node can not end before it starts.\n		l.Column = b.span.Start.Column\n	}\n	b.span.End = l\n')], 'a node that ends on a later line, further to the left than it starts', 'its end is wrong', demo='spans')
bug('C29-arrow-start', [(EXP, '	arrow := func(params ast.FormalParameters, async bool) ast.Node {\n', '	arrow := func(params ast.FormalParameters, async bool) ast.Node {\n		if !async {\n			s = p.s.Location()\n		}\n')], 'an arrow function', 'its span starts at the arrow', demo='spans')
bug('C29-for-of', [(STM, '				Right: p.parseExpression(exprOrderAssign, 0),\n			}\n			m.SetStart(n.Span().Start)\n			p.s.ScanExpect(', '				Right: p.parseExpression(exprOrderAssign, 0),\n			}\n			m.SetStart(m.Right.Span().Start)\n			p.s.ScanExpect(')], 'a for-of statement', 'its span starts with the object', demo='spans')
bug('C29-arguments', [(EXP, """		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenParen {
			m.Arguments = p.parseArguments()
		}
		m.SetStart(s)
		m.SetEnd(p.s.Location())
""", """		m.SetStart(s)
		m.SetEnd(p.s.Location())
		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenParen {
			m.Arguments = p.parseArguments()
		}
""")], 'a new expression with arguments', 'its span ends before the arguments', demo='spans')
bug('C29-computed', [(EXP, """				Property: p.parseExpression(exprOrderComma, 0),
			}
			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]` operator")
			m.SetStart(s)
			m.SetEnd(p.s.Location())
""", """				Property: p.parseExpression(exprOrderComma, 0),
			}
			m.SetStart(s)
			m.SetEnd(p.s.Location())
			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]` operator")
""")], 'an access by a computed name', 'its span lacks the bracket', demo='spans')
bug('C29-operand-start', [(EXP, """		m := ast.BinaryExpression{Operator: op}
		m.Left = n
		m.Right = p.parseExpression(next, flags)
		m.SetStart(s)
""", """		m := ast.BinaryExpression{Operator: op}
		m.Left = n
		start := s
		if l := n.Span(); l.Start.Row != 0 {
			start = l.Start
		} else {
			s = p.s.Location()
		}
		m.Right = p.parseExpression(next, flags)
		m.SetStart(start)
""")], 'an operator after an operator whose operand has no span', 'the span of the outer expression starts at an operator', demo='spans')
bug('C29-conditional', [(EXP, """			b := p.parseExpression(exprOrderAssign, flags&exprFlagDisallowIn)
			closed = true
			m := ast.ConditionalExpression{""", """			end := p.s.Location()
			b := p.parseExpression(exprOrderAssign, flags&exprFlagDisallowIn)
			if l := b.Span(); l.End.Row != 0 {
				end = l.End
			}
			closed = true
			m := ast.ConditionalExpression{"""), (EXP, """				Alternate:  b,
			}
			m.SetStart(s)
			m.SetEnd(p.s.Location())
""", """				Alternate:  b,
			}
			m.SetStart(s)
			m.SetEnd(end)
""")], 'a conditional expression whose last operand has no span', 'its span ends with the colon', demo='spans')
bug('C29-lookahead', [(STM, """func (p *Parser) parseLabelledStatement() ast.Node {
	n := ast.LabeledStatement{}
	p.setStart(&n)
""", """func (p *Parser) parseLabelledStatement() ast.Node {
	n := ast.LabeledStatement{}
"""), (STM, """	p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:` after statement label")
""", """	p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:` after statement label")
	p.setStart(&n)
""")], 'a labelled statement', 'its span starts after the label', demo='spans')
bug('C29-declaration', [(STM, """	p.checkInitializers(n)
	p.expectSemicolon()
	p.setEnd(&n)
	return n
""", """	p.checkInitializers(n)
	p.expectSemicolon()
	if len(n.Declarations) > 1 {
		p.s.PeekAt(0)
		n.SetEnd(p.s.Location())
		if d := n.Declarations[0]; d.Init != nil {
			n.SetEnd(d.Init.Span().End)
		}
	}
	return n
""")], 'a declaration of several variables, the first of which has an initializer', 'its span ends with the first one', demo='spans')
bug('C29-method', [(EXP, """			fn.SetStart(p.s.Location())
			fn.Params = p.parseParameters()
""", """			fn.Params = p.parseParameters()
			fn.SetStart(p.s.Location())
""")], 'a method of an object', 'the span of its function lacks the parameters', demo='spans')

bug('C05-xor-line', [(EXP, '} else if t.Type == lexer.TokenPunctuatorBitXorAssign {', '} else if t.Type == lexer.TokenPunctuatorBitXorAssign && !t.NewLine {')], 'the operator ^= at the start of a line', 'the statement ends before the operator and the program is refused', [(S, 'a\n^= b'), (S, 'a ^= b')])
