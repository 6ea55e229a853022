package main

import (
	"fmt"

	"github.com/jchv/cleansheets/ecmascript/errs"
	"github.com/jchv/cleansheets/ecmascript/lexer"

	"verifmc/ref"
)

var punctTypes = map[string]lexer.TokenType{
	"{": lexer.TokenPunctuatorOpenBrace, "}": lexer.TokenPunctuatorCloseBrace, "(": lexer.TokenPunctuatorOpenParen, ")": lexer.TokenPunctuatorCloseParen,
	"[": lexer.TokenPunctuatorOpenBracket, "]": lexer.TokenPunctuatorCloseBracket, ";": lexer.TokenPunctuatorSemicolon, ",": lexer.TokenPunctuatorComma,
	"~": lexer.TokenPunctuatorBitNot, ":": lexer.TokenPunctuatorColon, ".": lexer.TokenPunctuatorDot, "...": lexer.TokenPunctuatorEllipsis,
	"<": lexer.TokenPunctuatorLessThan, "<=": lexer.TokenPunctuatorLessThanEqual, "<<": lexer.TokenPunctuatorLShift, "<<=": lexer.TokenPunctuatorLShiftAssign,
	">": lexer.TokenPunctuatorGreaterThan, ">=": lexer.TokenPunctuatorGreaterThanEqual, ">>": lexer.TokenPunctuatorRShift, ">>=": lexer.TokenPunctuatorRShiftAssign,
	">>>": lexer.TokenPunctuatorUnsignedRShift, ">>>=": lexer.TokenPunctuatorUnsignedRShiftAssign,
	"=": lexer.TokenPunctuatorAssign, "==": lexer.TokenPunctuatorEqual, "===": lexer.TokenPunctuatorStrictEqual, "=>": lexer.TokenPunctuatorFatArrow,
	"!": lexer.TokenPunctuatorNot, "!=": lexer.TokenPunctuatorNotEqual, "!==": lexer.TokenPunctuatorStrictNotEqual,
	"+": lexer.TokenPunctuatorPlus, "++": lexer.TokenPunctuatorIncrement, "+=": lexer.TokenPunctuatorPlusAssign,
	"-": lexer.TokenPunctuatorMinus, "--": lexer.TokenPunctuatorDecrement, "-=": lexer.TokenPunctuatorMinusAssign,
	"*": lexer.TokenPunctuatorMult, "*=": lexer.TokenPunctuatorMultAssign, "**": lexer.TokenPunctuatorExponent, "**=": lexer.TokenPunctuatorExponentAssign,
	"/": lexer.TokenPunctuatorDiv, "/=": lexer.TokenPunctuatorDivAssign, "%": lexer.TokenPunctuatorMod, "%=": lexer.TokenPunctuatorModAssign,
	"&": lexer.TokenPunctuatorBitAnd, "&&": lexer.TokenPunctuatorLogicalAnd, "&=": lexer.TokenPunctuatorBitAndAssign, "&&=": lexer.TokenPunctuatorLogicalAndAssign,
	"|": lexer.TokenPunctuatorBitOr, "||": lexer.TokenPunctuatorLogicalOr, "|=": lexer.TokenPunctuatorBitOrAssign, "||=": lexer.TokenPunctuatorLogicalOrAssign,
	"^": lexer.TokenPunctuatorBitXor, "^=": lexer.TokenPunctuatorBitXorAssign,
	"?": lexer.TokenPunctuatorQuestionMark, "??": lexer.TokenPunctuatorNullCoalesce, "??=": lexer.TokenPunctuatorNullCoalesceAssign,
}

var keywordTypes = map[string]lexer.TokenType{
	"as": lexer.TokenKeywordAs, "async": lexer.TokenKeywordAsync, "await": lexer.TokenKeywordAwait, "break": lexer.TokenKeywordBreak,
	"case": lexer.TokenKeywordCase, "catch": lexer.TokenKeywordCatch, "class": lexer.TokenKeywordClass, "const": lexer.TokenKeywordConst,
	"continue": lexer.TokenKeywordContinue, "debugger": lexer.TokenKeywordDebugger, "default": lexer.TokenKeywordDefault, "delete": lexer.TokenKeywordDelete,
	"do": lexer.TokenKeywordDo, "else": lexer.TokenKeywordElse, "enum": lexer.TokenKeywordEnum, "export": lexer.TokenKeywordExport,
	"extends": lexer.TokenKeywordExtends, "false": lexer.TokenKeywordFalse, "finally": lexer.TokenKeywordFinally, "for": lexer.TokenKeywordFor,
	"from": lexer.TokenKeywordFrom, "function": lexer.TokenKeywordFunction, "get": lexer.TokenKeywordGet, "if": lexer.TokenKeywordIf,
	"implements": lexer.TokenKeywordImplements, "import": lexer.TokenKeywordImport, "in": lexer.TokenKeywordIn, "instanceof": lexer.TokenKeywordInstanceOf,
	"interface": lexer.TokenKeywordInterface, "let": lexer.TokenKeywordLet, "new": lexer.TokenKeywordNew, "null": lexer.TokenKeywordNull,
	"meta": lexer.TokenKeywordMeta, "of": lexer.TokenKeywordOf, "package": lexer.TokenKeywordPackage, "private": lexer.TokenKeywordPrivate,
	"protected": lexer.TokenKeywordProtected, "public": lexer.TokenKeywordPublic, "return": lexer.TokenKeywordReturn, "set": lexer.TokenKeywordSet,
	"static": lexer.TokenKeywordStatic, "super": lexer.TokenKeywordSuper, "switch": lexer.TokenKeywordSwitch, "target": lexer.TokenKeywordTarget,
	"this": lexer.TokenKeywordThis, "throw": lexer.TokenKeywordThrow, "true": lexer.TokenKeywordTrue, "try": lexer.TokenKeywordTry,
	"typeof": lexer.TokenKeywordTypeOf, "var": lexer.TokenKeywordVar, "void": lexer.TokenKeywordVoid, "while": lexer.TokenKeywordWhile,
	"with": lexer.TokenKeywordWith, "yield": lexer.TokenKeywordYield,
}

// lexNext lexes one token; a panic with one of the error types is a reported
// error, any other panic is passed on.
func lexNext(f func() lexer.ReToken) (t lexer.ReToken, err error) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case *errs.SyntaxError:
			err = e
		case *errs.ParserError:
			err = e
		case *errs.EncodingError:
			err = e
		default:
			panic(e)
		}
	}()
	return f(), nil
}

// tokenDiff compares one token.
func tokenDiff(w *ref.Token, got lexer.ReToken) string {
	want := lexer.TokenNone
	literal := true
	switch w.Kind {
	case ref.PUNCT:
		want, literal = punctTypes[w.Text], false
	case ref.NAME:
		if want = keywordTypes[w.Text]; want == lexer.TokenNone {
			want = lexer.TokenIdentifier
		}
	case ref.NUM:
		want = lexer.TokenLiteralNumber
	case ref.STR:
		want = lexer.TokenLiteralString
	case ref.REGEX:
		want = lexer.TokenLiteralRegExp
	}
	switch {
	case got.Type != want:
		return fmt.Sprintf("expected %v (%q), got %v", want, w.Text, got.Token)
	case w.Kind == ref.EOF:
		if got.Literal != "" {
			return fmt.Sprintf("end of input with literal %q", got.Literal)
		}
		return ""
	case literal && got.Literal != w.Text || !literal && got.Literal != "" && got.Literal != w.Text:
		return fmt.Sprintf("expected literal %q, got %q", w.Text, got.Literal)
	case got.Token.Source() != w.Text:
		return fmt.Sprintf("source text of %q is printed as %q", w.Text, got.Token.Source())
	case w.Kind == ref.REGEX && (got.Pattern != w.Pattern || got.Flags != w.Flags):
		return fmt.Sprintf("expected pattern %q and flags %q, got %q and %q", w.Pattern, w.Flags, got.Pattern, got.Flags)
	}
	return ""
}

// judgeTokens: the lexer splits the text as the lexical grammar says; each
// slash is additionally read as the start of a regular expression.
func judgeTokens(c *Case) string {
	d, slashes := lexAll(c, -1)
	for i := 0; d == "" && i < slashes && i < 4; i++ {
		d, _ = lexAll(c, i)
	}
	return d
}

// lexAll compares the token sequence; the token number re that starts with a
// slash is lexed again as a regular expression.
func lexAll(c *Case, re int) (diff string, slashes int) {
	m := ref.NewLexer(c.Src, false)
	loc := locations(c.Src)
	rs := &runeSource{src: c.Src}
	c.ran(1)
	l := lexer.NewLexer(lexer.NewScanner(rs, srcURL))
	pos := 0
	if re < 0 {
		c.refr = &ref.Result{Verdict: ref.Reject}
	}
	for n := 0; ; n++ {
		w := m.Next(pos, ref.GoalDiv)
		got, err := lexNext(func() lexer.ReToken { return lexer.ReToken{Token: l.Lex()} })
		isSlash := w.Kind == ref.PUNCT && w.Text[0] == '/'
		if isSlash && slashes == re && err == nil {
			if d := tokenDiff(w, got); d != "" {
				return fmt.Sprintf("token %d: %s", n, d), slashes
			}
			nl := w.NL
			w = m.Next(pos, ref.GoalRE)
			got, err = lexNext(l.ReLex)
			got.NewLine = nl
		}
		if isSlash {
			slashes++
		}
		switch w.Kind {
		case ref.UNSPEC:
			if re < 0 {
				c.refr = &ref.Result{Verdict: ref.Unspec, Why: w.Why}
			}
			return "", slashes
		case ref.ERR:
			if after := w.Start + len([]rune(got.Literal)); err == nil && got.Type == lexer.TokenLiteralNumber && after < len(c.Src) && c.Src[after] == '\\' {
				// An error in any case, but escapes in names are left out.
				return "", slashes
			}
			if err == nil {
				return fmt.Sprintf("token %d: the lexical grammar has an error (%s), got %v", n, w.Why, got.Token), slashes
			}
			return "", slashes
		}
		if err != nil {
			return fmt.Sprintf("token %d: expected %q, got error %v", n, w.Text, err), slashes
		}
		if d := tokenDiff(w, got); d != "" {
			return fmt.Sprintf("token %d: %s", n, d), slashes
		}
		if got.NewLine != w.NL {
			return fmt.Sprintf("token %d (%q): line-break flag is %v, should be %v", n, w.Text, got.NewLine, w.NL), slashes
		}
		if at := l.Location(); c.In.X == "lex" && (rowcol{at.Row, at.Column}) != loc[w.End] {
			return fmt.Sprintf("token %d (%q): the lexer is at row %d, column %d instead of row %d, column %d", n, w.Text, at.Row, at.Column, loc[w.End].row, loc[w.End].col), slashes
		}
		if w.Kind == ref.EOF {
			if re < 0 {
				c.refr = &ref.Result{Verdict: ref.Accept}
			}
			for i := 0; i < 4; i++ {
				got, err := lexNext(func() lexer.ReToken { return lexer.ReToken{Token: l.Lex()} })
				if err != nil || got.Type != lexer.TokenNone || got.Literal != "" || got.NewLine {
					return fmt.Sprintf("end of input is followed by %v (error %v)", got.Token, err), slashes
				}
			}
			return "", slashes
		}
		pos = w.End
	}
}
