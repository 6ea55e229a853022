package main

import (
	"fmt"
	"strconv"
	"strings"

	"verifmc/ref"
)

// --- C05 --------------------------------------------------------------------

// gaps enumerates all layouts of programs in which at most maxDev gaps between
// tokens (and before the first and after the last) differ from a blank.
type gaps struct {
	name   string
	mode   ref.Mode
	progs  []string
	trivia []string
	maxDev int
	mk     func(mode ref.Mode, tok []string, gap []string) Input
}

func (s *gaps) Name() string {
	return fmt.Sprintf("%s: %d programs, every choice of up to %d gaps x %d trivia", s.name, len(s.progs), s.maxDev, len(s.trivia))
}

func (s *gaps) Jobs(w *Worker) []func(g *Goroutine) {
	var jobs []func(g *Goroutine)
	const chunk = 8
	for i := 0; i < len(s.progs); i += chunk {
		part := s.progs[i:min(i+chunk, len(s.progs))]
		jobs = append(jobs, func(g *Goroutine) {
			for _, p := range part {
				tok := tokensOf(p)
				gap := make([]string, len(tok)+1)
				for k := range gap {
					gap[k] = " "
				}
				s.rec(g, tok, gap, 0, s.maxDev)
				if g.w.done() {
					return
				}
			}
		})
	}
	return jobs
}

func (s *gaps) rec(g *Goroutine, tok, gap []string, from, dev int) {
	g.transitions++
	g.Try(s.mk(s.mode, tok, gap))
	if dev == 0 {
		return
	}
	for k := from; k < len(gap); k++ {
		for _, t := range s.trivia {
			gap[k] = t
			s.rec(g, tok, gap, k+1, dev-1)
		}
		gap[k] = " "
	}
}

func layout(tok, gap []string) string {
	var b strings.Builder
	for i, t := range tok {
		b.WriteString(gap[i])
		b.WriteString(t)
	}
	b.WriteString(gap[len(tok)])
	return b.String()
}

func plainLayout(mode ref.Mode, tok, gap []string) Input {
	return Input{Mode: mode, Src: layout(tok, gap)}
}

// unbreak replaces everything between tokens by blanks. It is only used for
// sources without quotes and regular expressions.
func unbreak(s string) string {
	var b strings.Builder
	r := []rune(s)
	for i := 0; i < len(r); i++ {
		switch {
		case r[i] == '"' || r[i] == '\'':
			q := r[i]
			b.WriteRune(r[i])
			for i++; i < len(r); i++ {
				b.WriteRune(r[i])
				if r[i] == q {
					break
				}
			}
		case r[i] == '/' && i+1 < len(r) && r[i+1] == '/':
			for i < len(r) && !ref.IsLineTerminator(r[i]) {
				i++
			}
			b.WriteByte(' ')
		case r[i] == '/' && i+1 < len(r) && r[i+1] == '*':
			for i += 2; i+1 < len(r) && !(r[i] == '*' && r[i+1] == '/'); i++ {
			}
			i++
			b.WriteByte(' ')
		case ref.IsLineTerminator(r[i]):
			b.WriteByte(' ')
		default:
			b.WriteRune(r[i])
		}
	}
	return b.String()
}

// judgeBreaks: the laid-out program means what the grammar says, unless it is
// the program without line breaks that goes wrong already.
func judgeBreaks(c *Case) string {
	d := judgeFull(c)
	if d == "" {
		return ""
	}
	if base := unbreak(string(c.Src)); base != string(c.Src) {
		b := &Case{Src: []rune(base), Mode: c.Mode}
		if judgeFull(b) != "" {
			return ""
		}
	}
	return d
}

var breakTrivia = []string{"\n", "\r", "\r\n", "\u2028", "\u2029", "/*\n*/", "/* \u2028 */", "//x\n", "//\r", "/**/", ";", "\n;", ";\n"}
var fewBreaks = []string{"\n", "/*\r*/", "\u2029", ";"}

// Programs in which line breaks can matter.
var breakProgs = lines(`
a
a b
a b c
a ++ b
a -- b
a ++ ++ b
a ( b )
a [ b ] . c
a + b
a + ( b ) . c ( )
a / b / c
a => b
( a ) => b
( a , b ) => { }
( ) => { } ( )
async a => b
async ( a ) => b
async ( a )
async function f ( ) { }
( async function ( ) { } )
x = async a
async
return
return a
throw a
break a
continue a
break ++ a
l : break l
while ( a ) { break b }
while ( a ) { continue b ; }
function f ( ) { return a }
function f ( ) { return a + b }
function f ( ) { return ( a ) }
function f ( ) { throw a }
function f ( ) { return ++ a }
function f ( ) { return } a
if ( a ) b else c
if ( a ) ; else ;
if ( a ) b
if ( a )
do a while ( b ) c
do ; while ( a ) b
do { } while ( a ) b
do while ( a )
while ( a ) b
while ( a )
for ( a ; b ; c ) d
for ( a b ; c ) d
for ( a ; b )
for ( ; ; )
for ( ; )
for ( var a b ; ; ) c
for ( a in b ) c
for ( var a of b )
{ a b }
{ a } b
{ 1 } 2
{ } a
a { }
var a b
var a = b c
var a , b
let a
let a b
let [ a ] = b
const a = b c
var a = b ++ c
a = b + c ( d ) . e
a ; b
a : b
a : while ( b ) continue a
switch ( a ) { case b : c case d : break }
switch ( a ) { case b : c d default : }
try { a } catch { b } finally { c }
try { a } catch ( e ) { b }
try { } a
function f ( ) { } a
function f ( ) { a b }
function f ( ) { }
class A { }
class A { m ( ) { } n ( ) { } }
class A { get a ( ) { } set a ( b ) { } }
class A { static a ( ) { } }
class A { async a ( ) { } }
( { get a ( ) { } , async b ( ) { } } )
( { a , b : c } )
new a b
new a ( b ) . c
delete a b
typeof a
! a b
a ? b : c d
a , b
a = b = c
a += b
a in b
a instanceof b
"use strict" a
"use strict" "b" c
"a" + b
"a" . b
"a" ( b )
function f ( ) { "use strict" a }
a ?? b || c
a ** b
`)

var moduleBreaks = lines(`
import "m" a
import a from "m" b
import { a , b as c } from "m" d
import * as a from "m"
import a , { b } from "m" import "n"
`)

// rights are the starts of the second of two lines.
var rights = lines(`
( b )
[ b ]
++ b
++
. b
/ b / c
+ b
- b
* b
=> b
? b : c
, b
= b
b
{ }
in b
-- b
instanceof b
/= b / c
( b ) => c
( b ) { }
( )
! b
... b
&& b
?? b
: b
;
)
]
}
1
"b"
. 1
.1
function g ( ) { }
class B { }
async function g ( ) { }
let b
let [ b ] = c
var b
if ( b ) c
else b
while ( b ) c
while ( b )
catch { }
finally { }
case b :
of b
return
new b
typeof b
this
( ) => b
[ b ] = c
{ b } = c
}  b
) b
`)

// lefts are the first of two lines.
func lefts(depth int) (r []string) {
	for _, s := range newNest(stmtT, depth).all() {
		r = append(r, s)
	}
	for _, s := range newNest(exprT, depth).all() {
		r = append(r, s)
		if depth == 1 {
			r = append(r, "x = "+s, "typeof "+s, "if ( a ) "+s, "x = y => "+s, "x = "+s+" . p", "x = "+s+" ( )", "x = new "+s, "( "+s+" )")
		} else {
			r = append(r, "x = "+s)
		}
	}
	return r
}

func init() {
	register(&Property{ID: "C05", Judge: judgeBreaks, Assumptions: []string{modelAssumption}, Spaces: func(tier string) []Space {
		var depth1, depth2 []string
		for _, s := range append(flat(stmtT), flat(exprT)...) {
			if !strings.Contains(s, "/r/") {
				depth1 = append(depth1, s, s+" b")
				depth1 = append(depth1, "function f ( ) { "+s+" }")
			}
		}
		for _, n := range []*nest{newNest(stmtT, 2), newNest(exprT, 2)} {
			for i := 0; i < n.total; i++ {
				if s := n.at(i); !strings.Contains(s, "/r/") {
					depth2 = append(depth2, s)
				}
			}
		}
		nl := func(s string) []string { return append(words(s), "\n") }
		s := []Space{
			&gaps{"all line terminators", ref.Script, breakProgs, breakTrivia, 2, plainLayout},
			&gaps{"several line breaks", ref.Script, breakProgs, []string{"\n", ";"}, pick(tier, 3, 5), plainLayout},
			&gaps{"in modules", ref.Module, moduleBreaks, breakTrivia, 2, plainLayout},
			&gaps{"expression mode", ref.Expression, breakProgs[:20], breakTrivia[:8], 2, plainLayout},
			&gaps{"forms", ref.Script, depth1, fewBreaks, pick(tier, 2, 3), plainLayout},
			&gaps{"nested forms", ref.Script, depth2, []string{"\n"}, pick(tier, 1, 2), plainLayout},
			&gaps{"forms in all bodies", ref.Script, inAll(bodyPlaces(), append(flat(stmtT), flat(exprT)...)), []string{"\n"}, 1, plainLayout},
			product("two lines", ref.Script, "", append(lefts(1), inAll([]string{"function f ( ) { |", "x = { p : |", "class A { |"}, flat(exprT))...), []string{" ", "\n", "/*\n*/", "//\u2028"}, rights),
			product("two lines, nested forms", ref.Script, "", lefts(2), []string{"\n"}, rights[:pick(tier, 16, len(rights))]),
			product("every token on the next line", ref.Script, "", lefts(1), []string{"\n"}, everyToken, []string{"", " b", "\nb", " b : c"}),
			&gaps{"every operation in every form", ref.Script, inAll(append(append(append([]string{}, exprContexts...), bodyPlaces()...), append(places("<E>", stmtT, 1), places("<E>", exprT, 1)...)...), operations), []string{"\n"}, pick(tier, 1, 2), plainLayout},
			&gaps{"forms in deep places", ref.Script, inAll(deepStatementPlaces, append(flat(stmtT), flat(exprT)...)), []string{"\n"}, 1, plainLayout},
			&Lex{N: "with line breaks", Mode: ref.Script, Alpha: nl("a ; ++ ( ) { } + [ ] ="), Sep: " ", Depth: pick(tier, 6, 8)},
			&Lex{N: "jumps with line breaks", Mode: ref.Script, Pre: "function f ( ) { l : while ( a ) ", Suf: []string{" }"}, Alpha: nl("return throw break continue l ; { } ++ do while ( )"), Sep: " ", Depth: pick(tier, 5, 6)},
			&Lex{N: "arrows with line breaks", Mode: ref.Script, Alpha: nl("async a ( ) => , function { }"), Sep: " ", Depth: pick(tier, 7, 8)},
			&Lex{N: "let with line breaks", Mode: ref.Script, Alpha: nl("let a : [ ] { } ; = do while ( ) yield else"), Sep: " ", Depth: pick(tier, 5, 6)},
			&Lex{N: "let as the body of a statement", Mode: ref.Script, Pre: "if ( b ) ", Alpha: nl("let a : [ ] { } ; = yield await of else"), Sep: " ", Depth: pick(tier, 5, 6)},
			&Lex{N: "let as the body of a statement, strict", Mode: ref.Script, Pre: "'use strict' ; if ( b ) ", Alpha: nl("let a : [ ] { } ;"), Sep: " ", Depth: pick(tier, 4, 5)},
			&Lex{N: "statements with line breaks", Mode: ref.Script, Alpha: nl("if else do while for var let a ( ) ; { } = of"), Sep: " ", Depth: pick(tier, 6, 7)},
		}
		if tier == "thorough" {
			s = append(s, &gaps{"nested forms, more trivia", ref.Script, depth2, breakTrivia, 1, plainLayout})
		}
		return s
	}})
}

// --- C07 --------------------------------------------------------------------

func init() {
	register(&Property{ID: "C07", Judge: judgeFull, Assumptions: []string{modelAssumption, "values are compared as the nearest double, computed with unbounded integers"}, Spaces: func(tier string) []Space {
		chars := strings.Split("0 1 7 8 9 . e E _ x X o O b B a F + - n g", " ")
		ctx := []string{"| ;", "x = |", "- |", "[ | ]", "( { | : a } )", "class A { | ( ) { } }"}
		var literals []string
		for k := 0; k <= 1100; k += pick(tier, 1, 1) {
			// Values around the powers of two, where rounding is decided.
			if k > 130 && k%pick(tier, 13, 1) != 0 {
				continue
			}
			for d := -3; d <= 3; d++ {
				literals = append(literals, bigForms(k, d)...)
			}
		}
		var exps []string
		for _, m := range words("1 1. 1.5 .5 9 123456789 0.1 4.9 2.2250738585072014 1.7976931348623157 1.7976931348623159 4.9406564584124654 2.4703282292062327 2.4703282292062328 9007199254740993 0 0.0 9_9 1_0.0_1") {
			for e := -345; e <= 330; e++ {
				exps = append(exps, m+"e"+strconv.Itoa(e), m+"E"+strconv.Itoa(e))
				if e >= 0 {
					exps = append(exps, m+"e+"+strconv.Itoa(e), m+"e0"+strconv.Itoa(e))
				}
			}
		}
		inContexts := func(name string, l []string, ctx []string) Space {
			return &Indexed{N: name, Count: len(l) * len(ctx), At: func(i int) Input {
				return Input{Mode: ref.Script, Src: wrap(ctx[i%len(ctx)], l[i/len(ctx)])}
			}}
		}
		d := pick(tier, 5, 6)
		s := []Space{
			&Lex{N: "decimal characters", Mode: ref.Script, Pre: "x=", Alpha: chars, Depth: d},
			&Lex{N: "fractions and exponents", Mode: ref.Script, Pre: "x=", Alpha: strings.Split("0 1 9 . e + - _", " "), Depth: d + 2},
			&Lex{N: "exponents", Mode: ref.Script, Pre: "x=1", Alpha: strings.Split("0 1 . e E + - _ x", " "), Depth: d + 1},
			&Lex{N: "hexadecimal", Mode: ref.Script, Pre: "x=0x", Alpha: strings.Split("0 1 9 a f A F g _ . n p", " "), Depth: d},
			&Lex{N: "octal", Mode: ref.Script, Pre: "x=0o", Alpha: strings.Split("0 1 7 8 9 _ . e n a", " "), Depth: d},
			&Lex{N: "binary", Mode: ref.Script, Pre: "x=0B", Alpha: strings.Split("0 1 2 8 9 _ . e n a", " "), Depth: d},
			&Lex{N: "after a leading zero", Mode: ref.Script, Pre: "x=0", Alpha: strings.Split("0 1 7 8 9 . e _ n a", " "), Depth: d},
			&Lex{N: "after a leading zero, strict", Mode: ref.Module, Pre: "x=0", Alpha: strings.Split("0 1 7 8 9 . e _ n a", " "), Depth: 4},
			codePoints("in and next to literals", ref.Script, 0, pick(tier, 0xFFFF, 0x10FFFF), "x=1\x010", "x=1\x01", "x=\x011", "x=0x1\x01f", "x=0b1\x011", "x=1.\x011", "x=1e\x011", "x=1e1\x011", "x=.1\x011", "x=1_\x011", "x=0\x011", "x=0x\x011"),
			&Lex{N: "ASCII after a digit", Mode: ref.Script, Pre: "x=1", Suf: []string{"", "1"}, Alpha: ascii(), Depth: pick(tier, 2, 3)},
			&Lex{N: "ASCII after a prefix", Mode: ref.Script, Pre: "x=0", Suf: []string{"", "1"}, Alpha: ascii(), Depth: pick(tier, 2, 3)},
			&Lex{N: "ASCII after a fraction", Mode: ref.Script, Pre: "x=1.5", Suf: []string{"", "1"}, Alpha: ascii(), Depth: pick(tier, 2, 3)},
			&Lex{N: "in member access", Mode: ref.Script, Pre: "", Alpha: strings.Split("1 0 . a ( ) [ ] e", " "), Depth: d},
			inContexts("powers of two and their neighbours in all bases", literals, ctx[1:2]),
			inContexts("exponents", exps, ctx[1:2]),
			operands("after every kind of token", ref.Script, numberForms),
			inContexts("positions", append(exps[:400:400], literals[:600]...), ctx),
			pumps("long digit strings", ref.Script, append(upTo(350), append(ladder, 5000)...),
				"x=¦1¦¦¦;", "x=¦9¦¦¦;", "x=0.¦0¦1¦¦;", "x=1¦0¦¦¦;", "x=0x¦f¦¦¦;", "x=0x¦1¦¦¦;", "x=0o¦7¦¦¦;", "x=0b¦1¦¦¦;", "x=0b1¦0¦1¦¦;", "x=0b1¦0¦11¦¦;", "x=1¦_1¦¦¦;", "x=.¦9¦¦¦;", "x=1e¦0¦1¦¦;", "x=1e-¦0¦1¦¦;", "x=9007199254740992.¦0¦1¦¦;", "x=9007199254740993.¦0¦¦¦;", "x=1¦0¦e-¦1¦;", "x=0¦7¦¦¦;", "x=08¦9¦¦¦;", "x=0x8000000000000400¦0¦1¦¦;"),
		}
		return s
	}})
}

func ascii() (r []string) {
	for c := 0; c < 128; c++ {
		r = append(r, string(rune(c)))
	}
	return r
}

// bigForms are literals of 2^k+d.
func bigForms(k, d int) []string {
	return bigForm(k, d)
}

// --- C08 --------------------------------------------------------------------

func cpInput(mode ref.Mode, template string, cp int) Input {
	return Input{Mode: mode, Src: template, X: "cp:" + strconv.FormatInt(int64(cp), 16)}
}

// codePoints is every code point in every template (U+0001 is the place).
func codePoints(name string, mode ref.Mode, lo, hi int, templates ...string) Space {
	n := hi - lo + 1
	return &Indexed{N: fmt.Sprintf("%s: code points U+%04X to U+%04X in %d positions", name, lo, hi, len(templates)), Count: n * len(templates), Chunk: 4096, At: func(i int) Input {
		return cpInput(mode, templates[i/n], lo+i%n)
	}}
}

func init() {
	register(&Property{ID: "C08", Judge: judgeFull, Assumptions: []string{modelAssumption, "values with lone surrogates are not compared, JSON text cannot carry them faithfully"}, Spaces: func(tier string) []Space {
		d := pick(tier, 5, 6)
		chars := []string{"'", "\"", "\\", "\n", "\r", "\u2028", "a", "n", "x", "u", "{", "}", "0", "7", "8", "\U0001F600", "/", " "}
		esc := []string{"'", "\"", "\\", "0", "1", "4", "7", "8", "9", "x", "u", "{", "}", "d", "F", "\n", "b"}
		var hex2, hex4, hexv []string
		for i := 0; i < 256; i++ {
			hex2 = append(hex2, fmt.Sprintf("\\x%02x", i), fmt.Sprintf("\\x%02X", i))
		}
		for i := 0; i < 65536; i++ {
			hex4 = append(hex4, fmt.Sprintf("\\u%04x", i))
		}
		for i := 0; i < 0x110000; i += 0xff {
			hexv = append(hexv, fmt.Sprintf("\\u{%x}", i), fmt.Sprintf("\\u{00%X}", i))
		}
		for _, i := range []int64{0x10ffff, 0x110000, 0x10fffff, 0xffffffff, 0x100000000, 0x1000000000000041} {
			hexv = append(hexv, fmt.Sprintf("\\u{%x}", i))
		}
		hexv = append(hexv, "\\u{0000000000000000000000041}", "\\u{}", "\\u{ 41}", "\\u{4_1}", "\\ud83d\\ude00", "\\ude00\\ud83d", "\\ud83d\\u{de00}", "\\ud83dx")
		ctx := []string{"x = '|';", "x = \"|\";", "( { '|' : a } )", "'|' ;", "'a|b' + 'c'", "f ( \"a\" , '|' , \"b\" )"}
		in := func(name string, l []string, ctx ...string) Space {
			return &Indexed{N: name, Count: len(l) * len(ctx), At: func(i int) Input {
				return Input{Mode: ref.Script, Src: wrap(ctx[i%len(ctx)], l[i/len(ctx)])}
			}}
		}
		return []Space{
			&Lex{N: "single quoted", Mode: ref.Script, Pre: "x='", Suf: []string{"", "'", "';'"}, Alpha: chars, Depth: d - 1},
			&Lex{N: "double quoted", Mode: ref.Script, Pre: "x=\"", Suf: []string{"", "\"", "\";\""}, Alpha: chars, Depth: d - 1},
			&Lex{N: "escapes", Mode: ref.Script, Pre: "x='\\", Suf: []string{"", "'", "a';'"}, Alpha: esc, Depth: d - 1},
			&Lex{N: "escapes in strict code", Mode: ref.Module, Pre: "x=\"\\", Suf: []string{"\"", "0\";"}, Alpha: esc, Depth: d - 2},
			&Lex{N: "unicode escapes", Mode: ref.Script, Pre: "x='\\u", Suf: []string{"", "'", "}'"}, Alpha: strings.Split("0 1 D f { } g ' \\", " "), Depth: d + 1},
			&Lex{N: "quotes", Mode: ref.Script, Alpha: []string{"'", "\"", "\\", "a", "\n", ";", "+", "\\\n", "\\\r\n", "`"}, Depth: d},
			codePoints("content", ref.Script, 0, 0x10FFFF, "x='\x01';"),
			codePoints("escaped content", ref.Script, 0, 0x10FFFF, "x=\"\\\x01\";"),
			codePoints("around content", ref.Script, 0, 0xFFFF, "x='a\x01b'+\"\x01\"", "x='\x01'\x01"),
			in("two-digit escapes", hex2, ctx...), in("four-digit escapes", hex4, ctx[pick(tier, 1, 0):pick(tier, 2, 6)]...), in("braced escapes", hexv, ctx[:3]...),
			operands("after every kind of token", ref.Script, stringForms),
			pumps("long strings", ref.Script, append(upTo(64), longLadder...), "x='¦a¦¦¦';", "x=\"¦\\\"¦¦¦\";", "x='¦\"¦¦¦';", "x='¦\\\\¦¦¦';", "x='¦\\\n¦¦¦';", "x='¦a¦¦¦", "x='¦\\u0041¦¦¦';"),
			pumps("many strings", ref.Script, append(upTo(64), ladder...), "¦'a'+¦'b'¦¦;", "['a'¦,\"b\"¦¦¦]"),
		}
	}})
}

// --- C09 --------------------------------------------------------------------

func init() {
	register(&Property{ID: "C09", Judge: judgeFull, Assumptions: []string{modelAssumption, "the inner syntax of regular expressions is not judged"}, Spaces: func(tier string) []Space {
		body := []string{"/", "\\", "[", "]", "a", "*", "(", ")", "\n", "\u2028", "g", "=", "\u00e9", " ", "^", "-"}
		before := append(append([]string{}, allTokens...), flat(stmtT)...)
		before = append(before, flat(exprT)...)
		before = append(before, "")
		after := []string{"/ b / g", "/b/g", "/= b /g", "/=/", "/ b", "/b/g.c", "/[/]/g ;", "/b/ in c", "/b/ /c/ d", "/b/g\n/c/g", "/\\//", "/b/ ) ;", "/b/ ] ;", "/b/ }", "/b/ ) { }", "/b/ : c"}
		pos := exprContexts
		res := []string{"/a/", "/[/]/", "/\\//g", "/=/", "/[\\]/]/dgimsuy", "/\\[/", "/a/u.b", "/(?:)/", "/*/", "//", "/[a-z]+/i", "/a\\/b/", "/]/", "/[[]/", "/{/", "/a/b", "/a/1", "/a/$_\u00e9"}
		return []Space{
			&Lex{N: "slashes between tokens", Mode: ref.Script, Alpha: words("a / /b/ /c/g ( ) [ ] { } + ; , ="), Sep: " ", Depth: pick(tier, 5, 6)},
			&Lex{N: "slashes without blanks", Mode: ref.Script, Alpha: strings.Split("a / ( ) ] [ { } + ; = \\ g", " "), Depth: pick(tier, 6, 7)},
			&Lex{N: "slashes after keywords", Mode: ref.Script, Pre: "function f ( ) { ", Suf: []string{"", " }"}, Alpha: words("return typeof a / /b/ /c/g ) ( ++ : ? => of in case else do { }"), Sep: " ", Depth: pick(tier, 4, 5)},
			&Lex{N: "bodies", Mode: ref.Script, Pre: "x=/", Suf: []string{"", "/", "/g;"}, Alpha: body, Depth: pick(tier, 5, 6)},
			&Lex{N: "bodies at the start", Mode: ref.Script, Pre: "/", Alpha: body, Depth: pick(tier, 5, 6)},
			&Lex{N: "bodies after division by assignment operator", Mode: ref.Script, Pre: "(/=", Suf: []string{"", "/)"}, Alpha: body, Depth: pick(tier, 4, 5)},
			product("slashes after tokens and forms", ref.Script, " ", before, after),
			product("slashes after forms in functions", ref.Script, " ", []string{"function f ( ) { "}, before, after, []string{"}"}),
			product("slashes after forms in bodies", ref.Script, " ", before, after).(*Indexed).in(upToN(bodyPlaces(), pick(tier, 40, 100))),
			product("slashes after forms in lists", ref.Script, " ", []string{"[", "f (", "( {", "switch ( a ) {", "for (", "if (", "class A {"}, before, after),
			&Indexed{N: "regular expressions in all operand positions", Count: len(pos) * len(res) * len(exprT), At: func(i int) Input {
				t := exprT[i%len(exprT)]
				i /= len(exprT)
				r := res[i%len(res)]
				i /= len(res)
				return Input{Mode: ref.Script, Src: wrap(pos[i], t.fill(0, r))}
			}},
			operands("after every kind of token", ref.Script, res),
			codePoints("regular expression body", ref.Script, 0, 0x10FFFF, "x=/\x01/;"),
			codePoints("class and escape in a regular expression", ref.Script, 0, pick(tier, 0xFFFF, 0x10FFFF), "x=/[\x01]/;", "x=/\\\x01/;"),
			codePoints("regular expression flags", ref.Script, 0, 0xFFFF, "x=/a/\x01;", "x=/a/g\x01"),
			pumps("long regular expressions", ref.Script, append(upTo(64), longLadder...), "x=/¦a¦¦¦/;", "x=/¦\\/¦¦¦/;", "x=/¦[/]¦¦¦/;", "x=/a/¦g¦¦¦;", "x=/¦a¦¦¦", "x=/[¦/¦¦¦]/"),
			pumps("many slashes", ref.Script, append(upTo(64), ladder...), "x=a¦/b¦¦¦;", "x=¦/a/+¦1¦¦;", "x=[a¦,/b/¦¦¦]"),
		}
	}})
}
