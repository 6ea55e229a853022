// Package ref is the reference model of the ECMAScript grammar: a boring,
// direct transcription of the ECMA-262 lexical and syntactic grammar for the
// part of the language that the parser under test claims to support. It shares
// no code with the implementation. It answers with one of three verdicts:
// Accept (with the ESTree the grammar prescribes), Reject (with the token at
// which no valid program can continue) or Unspec (the text uses something the
// properties make no claim about).
package ref

import (
	"math/big"
	"unicode"
)

type Kind uint8

const (
	EOF Kind = iota
	PUNCT
	NAME
	NUM
	STR
	REGEX
	ERR    // lexical error
	UNSPEC // token that the model makes no claim about
)

// Token is a lexical token. Start and End are rune offsets. For ERR, End is
// just after the furthest character that has to be looked at to see the error.
type Token struct {
	Kind       Kind
	NL         bool // a line terminator precedes the token
	Start, End int
	Prev       int // end of the trivia-free text before the token (end of previous token)
	Text       string
	Str        []uint16 // STR: value
	OctalEsc   bool     // STR: contains a legacy octal or \8 \9 escape
	Legacy     bool     // NUM: leading zero form
	Pattern    string   // REGEX
	Flags      string
	Why        string // ERR, UNSPEC
}

// Lexer produces tokens on demand, at any position and for either goal.
type Lexer struct {
	Src     []rune
	Module  bool
	MaxRead int // highest index read; len(Src) once the end was consulted
	memo    [2][]*Token
}

const (
	GoalDiv = 0
	GoalRE  = 1
)

func NewLexer(src []rune, module bool) *Lexer {
	l := &Lexer{Src: src, Module: module}
	l.memo[0] = make([]*Token, 2*(len(src)+1))
	l.memo[1] = l.memo[0][len(src)+1:]
	l.memo[0] = l.memo[0][:len(src)+1]
	return l
}

const eof = rune(-1)

func (l *Lexer) at(i int) rune {
	if i >= len(l.Src) {
		l.MaxRead = len(l.Src)
		return eof
	}
	if i > l.MaxRead {
		l.MaxRead = i
	}
	return l.Src[i]
}

// SawEOF reports whether the end of the input was consulted.
func (l *Lexer) SawEOF() bool { return l.MaxRead >= len(l.Src) }

// IsLineTerminator is LineTerminator of ECMA-262 12.3.
func IsLineTerminator(r rune) bool {
	return r == 0x0A || r == 0x0D || r == 0x2028 || r == 0x2029
}

// IsWhiteSpace is WhiteSpace of ECMA-262 12.2.
func IsWhiteSpace(r rune) bool {
	switch r {
	case 0x09, 0x0B, 0x0C, 0xFEFF:
		return true
	}
	return r >= 0 && unicode.Is(unicode.Zs, r)
}

// IsIDStart is IdentifierStartChar: ID_Start, $ and _.
func IsIDStart(r rune) bool {
	if r < 0x80 {
		return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '$' || r == '_'
	}
	if unicode.In(r, unicode.Pattern_Syntax, unicode.Pattern_White_Space) {
		return false
	}
	return unicode.In(r, unicode.L, unicode.Nl, unicode.Other_ID_Start)
}

// IsIDPart is IdentifierPartChar: ID_Continue, $, ZWNJ and ZWJ.
func IsIDPart(r rune) bool {
	if r < 0x80 {
		return IsIDStart(r) || r >= '0' && r <= '9'
	}
	if r == 0x200C || r == 0x200D {
		return true
	}
	if unicode.In(r, unicode.Pattern_Syntax, unicode.Pattern_White_Space) {
		return false
	}
	return IsIDStart(r) || unicode.In(r, unicode.Mn, unicode.Mc, unicode.Nd, unicode.Pc, unicode.Other_ID_Continue)
}

func isDigit(r rune) bool { return r >= '0' && r <= '9' }
func isOct(r rune) bool   { return r >= '0' && r <= '7' }
func isBin(r rune) bool   { return r == '0' || r == '1' }
func hexVal(r rune) int {
	switch {
	case r >= '0' && r <= '9':
		return int(r - '0')
	case r >= 'a' && r <= 'f':
		return int(r-'a') + 10
	case r >= 'A' && r <= 'F':
		return int(r-'A') + 10
	}
	return -1
}
func isHex(r rune) bool { return hexVal(r) >= 0 }

// Next returns the first token at or after pos.
func (l *Lexer) Next(pos, goal int) *Token {
	if t := l.memo[goal][pos]; t != nil {
		return t
	}
	if goal == GoalRE {
		// Both goals agree unless the token starts with a slash.
		t := l.Next(pos, GoalDiv)
		if t.Kind == PUNCT && t.Text[0] == '/' {
			t = l.regex(t)
		}
		l.memo[GoalRE][pos] = t
		return t
	}
	t := l.scan(pos)
	t.Prev = pos
	l.memo[GoalDiv][pos] = t
	return t
}

func (l *Lexer) scan(pos int) *Token {
	i := pos
	nl := pos == 0 // only used for line-start `-->`
	t := &Token{}
	for {
		r := l.at(i)
		switch {
		case r == eof:
			t.Kind, t.Start, t.End = EOF, i, i
			return t
		case IsLineTerminator(r):
			t.NL = true
			i++
		case IsWhiteSpace(r):
			i++
		case r == '/' && l.at(i+1) == '/':
			i += 2
			for {
				r = l.at(i)
				if r == eof || IsLineTerminator(r) {
					break
				}
				i++
			}
		case r == '/' && l.at(i+1) == '*':
			i += 2
			for {
				r = l.at(i)
				if r == eof {
					return l.fail(t, pos, i, "unterminated comment")
				}
				if r == '*' && l.at(i+1) == '/' {
					i += 2
					break
				}
				if IsLineTerminator(r) {
					t.NL = true
				}
				i++
			}
		default:
			t.Start = i
			l.token(t, nl || t.NL)
			return t
		}
	}
}

func (l *Lexer) fail(t *Token, start, end int, why string) *Token {
	t.Kind, t.Start, t.End, t.Why = ERR, start, end, why
	return t
}

func (l *Lexer) unspec(t *Token, end int, why string) {
	t.Kind, t.End, t.Why = UNSPEC, end, why
}

// far returns the end offset of an error detected by looking at index i.
func (l *Lexer) far(i int) int {
	if i >= len(l.Src) {
		return len(l.Src)
	}
	return i + 1
}

var puncts = []string{
	"{", "}", "(", ")", "[", "]", ";", ",", "~", ":",
	".", "...",
	"<", "<=", "<<", "<<=",
	">", ">=", ">>", ">>=", ">>>", ">>>=",
	"=", "==", "===", "=>",
	"!", "!=", "!==",
	"+", "++", "+=", "-", "--", "-=",
	"*", "*=", "**", "**=", "/", "/=", "%", "%=",
	"&", "&&", "&=", "&&=", "|", "||", "|=", "||=", "^", "^=",
	"?", "??", "??=",
}

var punctByFirst = func() (m [128][]string) {
	for _, p := range puncts {
		c := p[0]
		m[c] = append(m[c], p)
	}
	return
}()

// Puncts returns all punctuators of the model.
func Puncts() []string { return puncts }

func (l *Lexer) token(t *Token, lineStart bool) {
	i := t.Start
	r := l.at(i)
	switch {
	case IsIDStart(r):
		i++
		for IsIDPart(l.at(i)) {
			i++
		}
		if l.at(i) == '\\' {
			l.unspec(t, i+1, "unicode escape in identifier")
			return
		}
		t.Kind, t.End, t.Text = NAME, i, string(l.Src[t.Start:i])
		return
	case r == '"' || r == '\'':
		l.str(t)
		return
	case isDigit(r) || r == '.' && isDigit(l.at(i+1)):
		l.number(t)
		return
	case r == '`':
		l.unspec(t, i+1, "template literal")
		return
	case r == '#':
		l.unspec(t, i+1, "private name or hashbang")
		return
	case r == '\\':
		l.unspec(t, i+1, "unicode escape in identifier")
		return
	case r == '?' && l.at(i+1) == '.':
		if !isDigit(l.at(i + 2)) {
			l.unspec(t, i+2, "optional chaining")
			return
		}
		t.Kind, t.End, t.Text = PUNCT, i+1, "?"
		return
	case r == '.' && l.at(i+1) == '.' && l.at(i+2) != '.':
		// `.` `.`, which is never part of a valid program.
		l.fail(t, i, l.far(i+2), "`..`")
		return
	case r == '<' && l.at(i+1) == '!' && !l.Module && l.at(i+2) == '-' && l.at(i+3) == '-':
		l.unspec(t, i+4, "HTML-like comment")
		return
	case r == '-' && l.at(i+1) == '-' && lineStart && !l.Module && l.at(i+2) == '>':
		l.unspec(t, i+3, "HTML-like comment")
		return
	}
	best := ""
	if r < 128 {
	next:
		for _, p := range punctByFirst[r] {
			if len(p) <= len(best) {
				continue
			}
			for k := 1; k < len(p); k++ {
				if l.at(i+k) != rune(p[k]) {
					continue next
				}
			}
			best = p
		}
	}
	if best == "" {
		l.fail(t, i, i+1, "unexpected character")
		return
	}
	t.Kind, t.End, t.Text = PUNCT, i+len(best), best
}

// number scans a NumericLiteral (ECMA-262 12.9.3 and B.1.1).
func (l *Lexer) number(t *Token) {
	i := t.Start
	// digits scans digits with separators, starting with a digit.
	digits := func(ok func(rune) bool) bool {
		if !ok(l.at(i)) {
			l.fail(t, t.Start, l.far(i), "expected digit")
			return false
		}
		for {
			for ok(l.at(i)) {
				i++
			}
			if l.at(i) != '_' {
				return true
			}
			i++
			if !ok(l.at(i)) {
				l.fail(t, t.Start, l.far(i), "misplaced numeric separator")
				return false
			}
		}
	}
	exponent := func() bool {
		if r := l.at(i); r == 'e' || r == 'E' {
			i++
			if r := l.at(i); r == '+' || r == '-' {
				i++
			}
			return digits(isDigit)
		}
		return true
	}
	fraction := func() bool {
		if isDigit(l.at(i)) {
			return digits(isDigit)
		}
		return true
	}
	bigint := false
	switch r := l.at(i); {
	case r == '.':
		i++
		if !fraction() || !exponent() {
			return
		}
	case r == '0' && (l.at(i+1) == 'x' || l.at(i+1) == 'X'):
		i += 2
		if !digits(isHex) {
			return
		}
		bigint = true
	case r == '0' && (l.at(i+1) == 'o' || l.at(i+1) == 'O'):
		i += 2
		if !digits(isOct) {
			return
		}
		bigint = true
	case r == '0' && (l.at(i+1) == 'b' || l.at(i+1) == 'B'):
		i += 2
		if !digits(isBin) {
			return
		}
		bigint = true
	case r == '0' && l.at(i+1) == '_':
		l.fail(t, t.Start, l.far(i+1), "separator after leading zero")
		return
	case r == '0' && isDigit(l.at(i+1)):
		t.Legacy = true
		octal := true
		for isDigit(l.at(i)) {
			octal = octal && isOct(l.at(i))
			i++
		}
		if !octal {
			if l.at(i) == '.' {
				i++
				if !fraction() {
					return
				}
			}
			if !exponent() {
				return
			}
		}
	default:
		if r == '0' {
			i++
		} else if !digits(isDigit) {
			return
		}
		bigint = true
		if l.at(i) == '.' {
			bigint = false
			i++
			if !fraction() {
				return
			}
		}
		if r := l.at(i); r == 'e' || r == 'E' {
			bigint = false
			if !exponent() {
				return
			}
		}
	}
	if bigint && l.at(i) == 'n' {
		l.unspec(t, i+1, "BigInt")
		return
	}
	if r := l.at(i); isDigit(r) || IsIDStart(r) || r == '\\' {
		l.fail(t, t.Start, l.far(i), "literal followed by identifier or digit")
		return
	}
	t.Kind, t.End, t.Text = NUM, i, string(l.Src[t.Start:i])
}

// NumberValue is the MV of a NumericLiteral, rounded to a Number. It uses exact
// rational arithmetic. ok is false if it is too large (Infinity).
func NumberValue(text string) (v float64, ok bool) {
	s := make([]byte, 0, len(text))
	for i := 0; i < len(text); i++ {
		if text[i] != '_' {
			s = append(s, text[i])
		}
	}
	base := int64(0)
	if len(s) > 1 && s[0] == '0' {
		switch s[1] {
		case 'x', 'X':
			base, s = 16, s[2:]
		case 'o', 'O':
			base, s = 8, s[2:]
		case 'b', 'B':
			base, s = 2, s[2:]
		case '.', 'e', 'E':
		default:
			base = 8
			for _, c := range s {
				if c < '0' || c > '7' {
					base = 0
				}
			}
		}
	}
	num := new(big.Int)
	if base != 0 {
		b := big.NewInt(base)
		for _, c := range s {
			num.Mul(num, b)
			num.Add(num, big.NewInt(int64(hexVal(rune(c)))))
		}
		f, _ := new(big.Rat).SetInt(num).Float64()
		return f, f <= maxFloat
	}
	scale, exp, neg := 0, 0, false
	ten := big.NewInt(10)
	i, frac := 0, false
	for ; i < len(s); i++ {
		c := s[i]
		if c == '.' {
			frac = true
			continue
		}
		if c == 'e' || c == 'E' {
			i++
			if s[i] == '+' || s[i] == '-' {
				neg = s[i] == '-'
				i++
			}
			for ; i < len(s); i++ {
				if exp < 100000 {
					exp = exp*10 + int(s[i]-'0')
				}
			}
			break
		}
		num.Mul(num, ten)
		num.Add(num, big.NewInt(int64(c-'0')))
		if frac {
			scale++
		}
	}
	if num.Sign() == 0 {
		return 0, true
	}
	if neg {
		exp = -exp
	}
	exp -= scale
	digits := len(num.String())
	if digits+exp > 400 {
		return 0, false
	}
	if digits+exp < -400 {
		return 0, true
	}
	rat := new(big.Rat)
	if exp >= 0 {
		rat.SetInt(new(big.Int).Mul(num, new(big.Int).Exp(ten, big.NewInt(int64(exp)), nil)))
	} else {
		rat.SetFrac(num, new(big.Int).Exp(ten, big.NewInt(int64(-exp)), nil))
	}
	f, _ := rat.Float64()
	return f, f <= maxFloat
}

const maxFloat = 0x1p1023 * (1 + (1 - 0x1p-52))

// str scans a StringLiteral (ECMA-262 12.9.4).
func (l *Lexer) str(t *Token) {
	i := t.Start
	quote := l.at(i)
	i++
	var v []uint16
	add := func(r rune) {
		if r >= 0x10000 {
			r -= 0x10000
			v = append(v, uint16(0xD800+(r>>10)), uint16(0xDC00+(r&0x3FF)))
		} else {
			v = append(v, uint16(r))
		}
	}
	for {
		r := l.at(i)
		switch {
		case r == eof || r == '\n' || r == '\r':
			l.fail(t, t.Start, l.far(i), "unterminated string")
			return
		case r == quote:
			t.Kind, t.End, t.Text, t.Str = STR, i+1, string(l.Src[t.Start:i+1]), v
			return
		case r != '\\':
			add(r)
			i++
			continue
		}
		i++
		r = l.at(i)
		switch {
		case r == eof:
			l.fail(t, t.Start, l.far(i), "unterminated string")
			return
		case r == '\r' && l.at(i+1) == '\n':
			i += 2
		case IsLineTerminator(r):
			i++
		case r == 'x':
			a := hexVal(l.at(i + 1))
			if a < 0 {
				l.fail(t, t.Start, l.far(i+1), "bad escape")
				return
			}
			b := hexVal(l.at(i + 2))
			if b < 0 {
				l.fail(t, t.Start, l.far(i+2), "bad escape")
				return
			}
			add(rune(a*16 + b))
			i += 3
		case r == 'u' && l.at(i+1) == '{':
			i += 2
			n, d := rune(0), 0
			for {
				h := hexVal(l.at(i))
				if h < 0 {
					break
				}
				n = n*16 + rune(h)
				d++
				if n > 0x10FFFF {
					// No continuation can be valid.
					l.fail(t, t.Start, l.far(i), "code point too large")
					// The next character may be looked at.
					t.End = l.far(i + 1)
					return
				}
				i++
			}
			if d == 0 || l.at(i) != '}' {
				l.fail(t, t.Start, l.far(i), "bad escape")
				return
			}
			add(n)
			i++
		case r == 'u':
			n := 0
			for k := 1; k <= 4; k++ {
				h := hexVal(l.at(i + k))
				if h < 0 {
					l.fail(t, t.Start, l.far(i+k), "bad escape")
					return
				}
				n = n*16 + h
			}
			v = append(v, uint16(n))
			i += 5
		case isDigit(r):
			if r == '0' && !isDigit(l.at(i+1)) {
				v = append(v, 0)
				i++
				break
			}
			t.OctalEsc = true
			if r >= '8' {
				add(r)
				i++
				break
			}
			n := int(r - '0')
			i++
			if isOct(l.at(i)) {
				n = n*8 + int(l.at(i)-'0')
				i++
				if r <= '3' && isOct(l.at(i)) {
					n = n*8 + int(l.at(i)-'0')
					i++
				}
			}
			v = append(v, uint16(n))
		default:
			switch r {
			case 'b':
				r = 8
			case 't':
				r = 9
			case 'n':
				r = 10
			case 'v':
				r = 11
			case 'f':
				r = 12
			case 'r':
				r = 13
			}
			add(r)
			i++
		}
	}
}

// regex rescans a token that starts with a slash as RegularExpressionLiteral.
func (l *Lexer) regex(d *Token) *Token {
	t := &Token{NL: d.NL, Start: d.Start, Prev: d.Prev}
	i := d.Start + 1
	class := false
	for {
		r := l.at(i)
		if r == eof || IsLineTerminator(r) {
			return l.fail(t, t.Start, l.far(i), "unterminated regular expression")
		}
		i++
		if r == '\\' {
			r = l.at(i)
			if r == eof || IsLineTerminator(r) {
				return l.fail(t, t.Start, l.far(i), "unterminated regular expression")
			}
			i++
			continue
		}
		if r == '[' {
			class = true
		} else if r == ']' {
			class = false
		} else if r == '/' && !class {
			break
		}
	}
	t.Pattern = string(l.Src[t.Start+1 : i-1])
	f := i
	for IsIDPart(l.at(i)) {
		i++
	}
	t.Flags = string(l.Src[f:i])
	t.Kind, t.End, t.Text = REGEX, i, string(l.Src[t.Start:i])
	return t
}
