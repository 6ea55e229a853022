package main

import (
	"bytes"
	"fmt"
	"strings"

	"verifmc/ref"
)

// --- C10 --------------------------------------------------------------------

// judgeTrivia: X holds the same program with plain trivia; it must give the
// same answer. Without X the model is consulted.
func judgeTrivia(c *Case) string {
	if !strings.HasPrefix(c.In.X, "base:") {
		return judgeFull(c)
	}
	b := &Case{Src: []rune(c.In.X[5:]), Mode: c.Mode}
	for _, w := range strings.Fields(c.In.X) {
		if w == "/" || w == "/=" {
			// It may be the start of a regular expression that has the trivia in
			// it. What the text is then, the model knows.
			return judgeFull(c)
		}
	}
	return sameAnswer(c, b, "the text with plain white space")
}

// sameAnswer compares acceptance and ESTree of two inputs.
func sameAnswer(c, b *Case, what string) string {
	o, p := c.Impl(), b.Impl()
	if o.accepted() != p.accepted() {
		return fmt.Sprintf("accepted=%v (%s), but %s has accepted=%v (%s)", o.accepted(), errOrTree(o), what, p.accepted(), errOrTree(p))
	}
	if !o.accepted() {
		return ""
	}
	c.JSON()
	b.JSON()
	if c.jsonErr != nil || b.jsonErr != nil {
		if (c.jsonErr == nil) != (b.jsonErr == nil) {
			return fmt.Sprintf("conversion error %v, but %v for %s", c.jsonErr, b.jsonErr, what)
		}
		return ""
	}
	if !bytes.Equal(c.jbytes, b.jbytes) {
		return "the tree differs from that of " + what
	}
	return ""
}

func errOrTree(o *Outcome) string {
	if o.accepted() {
		return "a tree"
	}
	return errText(o)
}

// triviaLayout pairs a layout with the plain one: a line feed for every gap
// that holds a line terminator, otherwise a blank.
func triviaLayout(mode ref.Mode, tok, gap []string) Input {
	plain := make([]string, len(gap))
	for i, g := range gap {
		plain[i] = " "
		if strings.ContainsAny(g, "\n\r\u2028\u2029") {
			plain[i] = "\n"
		}
	}
	// A comment must not join a slash before it.
	safe := append([]string{}, gap...)
	for i := 1; i < len(gap); i++ {
		if strings.HasPrefix(gap[i], "/") && strings.HasSuffix(tok[i-1], "/") {
			safe[i] = " " + gap[i]
		}
	}
	in := Input{Mode: mode, Src: layout(tok, safe)}
	if in.X = "base:" + layout(tok, plain); in.X[5:] == in.Src {
		in.X = ""
	}
	return in
}

var allTrivia = []string{"\t", "\v", "\f", "\u00a0", "\ufeff", "\u2003", "\u3000", "/**/", "/* a */", "/***/", "/*/*/", "/*//*/", "/* ' \" ` */", "/* \\ */", "/*\n*/", "/*\r\n*/", "/*\u2028\u2029*/",
	"//\n", "// a\r", "///*\u2028", "//\\\n", "// ' \"\u2029", "  ", "/**//**/", " /* a */ // b\n", "/*}*/", "/**\n * a\n **/", "/*</script>*/"}
var fewTrivia = []string{"/* a */", "// b\n", "\u00a0", "/**/", "/*/*/"}

func init() {
	register(&Property{ID: "C10", Judge: judgeTrivia, Assumptions: []string{modelAssumption}, Spaces: func(tier string) []Space {
		script, module := programs()
		var deep []string
		for _, n := range []*nest{newNest(stmtT, 2), newNest(exprT, 2)} {
			for i := 0; i < n.total; i++ {
				deep = append(deep, n.at(i))
			}
		}
		// Trivia that may be removed: next to punctuators.
		var tight []string
		for _, p := range script {
			tight = append(tight, p)
		}
		body := []string{"*", "/", "a", "\n", "\r", "\u2028", "'", "\\", " ", "\u00e9", "!"}
		s := []Space{
			&gaps{"forms", ref.Script, script, allTrivia, 1, triviaLayout},
			&gaps{"imports", ref.Module, module, allTrivia, 1, triviaLayout},
			&gaps{"line break programs", ref.Script, breakProgs, fewTrivia, pick(tier, 2, 3), triviaLayout},
			&gaps{"forms, pairs of gaps", ref.Script, script, fewTrivia[:2], 2, triviaLayout},
			&gaps{"nested forms", ref.Script, deep, []string{"/*a*/", "//b\n"}[:pick(tier, 1, 2)], 1, triviaLayout},
			&gaps{"expressions", ref.Expression, flat(exprT), fewTrivia, pick(tier, 1, 2), triviaLayout},
			&gaps{"every operation", ref.Script, operations, allTrivia, 2, triviaLayout},
			&gaps{"every operation in contexts", ref.Script, inAll(exprContexts, operations), fewTrivia, 1, triviaLayout},
			&tightSpace{tight},
			&Lex{N: "multi-line comment bodies", Mode: ref.Script, Pre: "a /*", Suf: []string{"", "*/", "*/ b", "*/\nb */"}, Alpha: body, Depth: pick(tier, 5, 6)},
			&Lex{N: "single-line comment bodies", Mode: ref.Script, Pre: "a //", Suf: []string{"", "\nb", "\r*/ b"}, Alpha: body, Depth: pick(tier, 5, 6)},
			&Lex{N: "comment marks", Mode: ref.Script, Alpha: strings.Split("/ * a \n ; \r = ( )", " "), Depth: pick(tier, 6, 7)},
			codePoints("in comments", ref.Script, 0, 0x10FFFF, "a/*\x01*/;b"),
			codePoints("in single-line comments", ref.Script, 0, 0x10FFFF, "a//\x01 b\nc"),
			codePoints("white space", ref.Script, 0, 0x10FFFF, "a\x01;"),
			pumps("long trivia", ref.Script, append(upTo(64), longLadder...), "a¦ ¦¦¦b", "a/*¦*¦¦¦/;b", "a/*¦a¦¦¦*/;b", "a//¦/¦¦¦\nb", "a¦\n¦¦¦b", "a¦/**/¦¦¦;b", "a¦//\n¦¦¦b", "a/*¦\n¦¦¦*/b", "a/*¦/*¦¦¦*/;", "a¦\r\n¦¦¦b", "/*¦*¦¦¦"),
		}
		return s
	}})
}

// tightSpace removes the blanks of one or all gaps where that does not join
// two tokens.
type tightSpace struct{ progs []string }

func (s *tightSpace) Name() string {
	return fmt.Sprintf("no white space: %d programs, every single gap and all gaps removed that can be", len(s.progs))
}

// joins reports whether two tokens must stay separated.
func joins(a, b string) bool {
	l, _ := lastRune(a)
	f := []rune(b)[0]
	word := func(r rune) bool { return ref.IsIDPart(r) || r == '$' || r == '_' }
	if word(l) && (word(f) || f == '"' || f == '\'') && word(f) {
		return true
	}
	if word(l) && word(f) {
		return true
	}
	if strings.ContainsRune("0123456789", l) && f == '.' || l == '.' && strings.ContainsRune("0123456789", f) {
		return true
	}
	if strings.HasSuffix(a, "/g") || strings.HasPrefix(a, "/") {
		return word(f) || f == '/'
	}
	isPunct := func(r rune) bool { return strings.ContainsRune("<>=!+-*/%&|^~?:.", r) }
	return isPunct(l) && isPunct(f)
}

func lastRune(s string) (rune, int) {
	r := []rune(s)
	return r[len(r)-1], len(r)
}

func (s *tightSpace) Jobs(w *Worker) []func(g *Goroutine) {
	var jobs []func(g *Goroutine)
	for i := 0; i < len(s.progs); i += 16 {
		part := s.progs[i:min(i+16, len(s.progs))]
		jobs = append(jobs, func(g *Goroutine) {
			for _, p := range part {
				tok := tokensOf(p)
				base := strings.Join(tok, " ")
				all := tok[0]
				for k := 1; k < len(tok); k++ {
					if joins(tok[k-1], tok[k]) {
						all += " " + tok[k]
						continue
					}
					all += tok[k]
					one := strings.Join(tok[:k], " ") + strings.Join(tok[k:], " ")
					g.transitions++
					g.Try(Input{Mode: ref.Script, Src: one, X: "base:" + base})
				}
				g.Try(Input{Mode: ref.Script, Src: all, X: "base:" + base})
				g.Try(Input{Mode: ref.Script, Src: "\t" + all + "\n", X: "base:" + base})
			}
		})
	}
	return jobs
}

// --- C11 --------------------------------------------------------------------

func init() {
	register(&Property{ID: "C11", Judge: judgeFull, Assumptions: []string{modelAssumption, "identifier properties are those of the Unicode version of Go's tables"}, Spaces: func(tier string) []Space {
		class := []string{"a", "1", "$", "_", " ", "\u00a0", "\u200c", "\u200d", "\u2028", "\u00e9", "\u0301", "\u2118", "\u00b7", "\u02b0", "\u2160", "\U0001D7D8", "\U00010400", "\u180e", "\u0085", "\ufeff", "\u1885", "\u309b", "\ufffd", "\u200b", "+", "\x00", "#"}
		return []Space{
			codePoints("alone", ref.Script, 0, 0x10FFFF, "\x01"),
			codePoints("after an identifier", ref.Script, 0, 0x10FFFF, "a\x01b=1"),
			codePoints("start of a declared name", ref.Script, 0, 0x10FFFF, "var \x01a=1"),
			codePoints("between tokens", ref.Script, 0, 0x10FFFF, "a\x01=\x011"),
			codePoints("other positions", ref.Script, 0, pick(tier, 0x1FFFF, 0x10FFFF), "x.\x01", "({\x01:1})", "({a\x01})", "function a\x01(){}", "(a\x01)=>1", "1\x01", "'s'\x01;", "/r/\x01", "//\x01\nb", "a//\x01b", "return\x01a"),
			codePoints("module", ref.Module, 0, pick(tier, 0x1FFFF, 0x10FFFF), "import \x01 from 'm'", "import {a\x01b} from 'm'"),
			&Lex{N: "classes of characters", Mode: ref.Script, Alpha: class, Depth: pick(tier, 4, 5)},
			&Lex{N: "names", Mode: ref.Script, Pre: "var a", Alpha: class, Depth: pick(tier, 4, 5)},
			pumps("long names", ref.Script, append(upTo(64), longLadder...), "¦a¦¦¦=1", "var ¦\u00e9¦¦¦;", "a¦\u0301¦¦¦;", "a¦\u200c¦¦¦;", "¦\U00010400¦¦¦;", "x.¦a1¦¦¦;"),
		}
	}})
}

// --- C12 --------------------------------------------------------------------

var allWords = words(`a await break case catch class const continue debugger default delete do else enum export extends false finally for function if import in instanceof new null return super switch this throw true try typeof var void while with yield
 let static implements interface package private protected public as async from get meta of set target
 eval arguments undefined constructor prototype NaN
 Await YIELD If newa inn instanceofx nul truee letx asyn gets iff doo $ _ $if _new`)

// plainWords are names that mean something elsewhere - in other editions, other
// languages or the implementation's own language - but are ordinary here.
var plainWords = words(`__proto__ toString valueOf hasOwnProperty Infinity Object Symbol globalThis require module exports name length goto int char byte boolean float double long short native abstract volatile transient synchronized throws final
 type namespace declare accessor using defer source is readonly infer keyof unique never any self nil None True and or not def elif lambda None print func go chan struct map range fallthrough var_ let_ async_ awaited yields async1 of1 e0 x1 b1 o1 n _ __ $$ \u0061b`)

var someWords = words("let yield await static async of eval interface if get")

var wordPositions = lines(`
@ ;
@
@ = 1 ;
@ += 1
@ ++
-- @
( @ )
[ @ ]
- @
typeof @
x = @
@ . p
@ ( )
@ [ 0 ]
@ , a
a , @
a ? @ : @
@ + @
new @
new @ ( )
f ( @ )
x . @
x . @ = 1
x . @ ( )
new x . @
x . @ . y
var @ ;
var @ = 1 , b
var a , @ ;
let @ ;
let @ = 1
let a , @ ;
const @ = 1 ;
const a = 1 , @ = 2
var [ @ ] = a
var { @ } = a
var { a : @ } = b
var { @ : a } = b
var { @ = 1 } = a
var [ a , ... @ ] = b
var { ... @ } = b
let [ @ ] = a
let { @ } = a
const { @ : a } = b
[ @ ] = a
[ @ = 1 ] = a
( { @ } = a )
( { @ = 1 } = a )
( { a : @ } = b )
( { @ : a } = b )
( { @ } )
( { @ , a } )
( { @ : 1 } )
( { @ ( ) { } } )
( { get @ ( ) { } } )
( { set @ ( a ) { } } )
( { async @ ( ) { } } )
( { * @ ( ) { } } )
( { a : @ } )
function @ ( ) { }
function f ( @ ) { }
function f ( a , @ = 1 ) { }
function f ( ... @ ) { }
function f ( { @ } ) { }
function f ( [ @ ] ) { }
( function @ ( ) { } )
( function ( @ ) { } )
( async function @ ( ) { } )
( async function ( @ ) { } )
( function * @ ( ) { } )
( function * ( @ ) { } )
( async function ( ) { @ } )
( async function ( ) { var @ } )
( function ( ) { @ } )
( function * ( ) { @ : a } )
( function * ( ) { var @ } )
@ => 1
( @ ) => 1
( a , @ ) => 1
( @ = 1 ) => 1
( { @ } ) => 1
( [ @ ] ) => 1
( ... @ ) => 1
( ) => @
( ) => { @ }
a => { var @ }
async @ => 1
async ( @ ) => 1
async ( a , { @ } ) => 1
async ( ) => { @ }
async ( ) => { var @ ; }
async ( @ )
class @ { }
( class @ { } )
class A extends @ { }
class A { @ ( ) { } }
class A { static @ ( ) { } }
class A { get @ ( ) { } }
class A { set @ ( a ) { } }
class A { static get @ ( ) { } }
class A { async @ ( ) { } }
class A { static async @ ( ) { } }
class A { m ( @ ) { } }
class A { m ( ) { @ } }
class A { m ( ) { var @ } }
class A { [ @ ] ( ) { } }
@ : a
@ : while ( a ) break @ ;
while ( a ) { break @ }
while ( a ) { continue @ ; }
try { } catch ( @ ) { }
try { } catch ( { @ } ) { }
for ( @ in a ) ;
for ( @ of a ) ;
for ( @ ; ; ) ;
for ( var @ of a ) ;
for ( var @ in a ) ;
for ( var @ = 1 ; ; ) ;
for ( [ @ ] of a ) ;
for ( a of @ ) ;
if ( @ ) a
if ( a ) @
while ( @ ) ;
do @ ; while ( a )
throw @
switch ( @ ) { case @ : @ }
{ @ }
( @ , a )
delete @
void @ . p
`)

var wordContexts = []string{
	"|", "\"use strict\" ; |", "function g ( ) { | }", "function g ( ) { \"use strict\" ; | }", "( function * ( ) { | } )", "( async function ( ) { | } )",
	"( ( ) => { | } )", "( async ( ) => { | } )", "class C { m ( ) { | } }", "class C { async m ( ) { | } }", "( { m ( ) { | } } )", "( { async m ( ) { | } } )", "( { * m ( ) { | } } )", "( { get m ( ) { | } } )",
	"( async function ( ) { function h ( ) { | } } )", "( async function ( ) { ( ) => { | } } )", "( async function ( ) { ( { m ( ) { | } } ) } )", "( async function ( ) { ( class { m ( ) { | } } ) } )",
	"( function * ( ) { function h ( ) { | } } )", "( function * ( ) { ( ) => { | } } )", "( async ( ) => { ( ) => { | } } )", "( async ( ) => { ( function ( ) { | } ) } )",
	"function g ( ) { \"use strict\" } |", "( async function ( ) { } ) ; |", "( function * ( ) { } ) ; |", "class C { m ( ) { } } |", "( async ( ) => { } ) ; |", "( { async m ( ) { } } ) ; |", "if ( a ) { | }", "l : { | }", "try { | } finally { }",
	"( async function ( a = function ( ) { | } ) { } )", "( async ( a = function ( ) { | } ) => { } )", "function g ( a = ( ) => { | } ) { }",
}

var importPositions = lines(`
import @ from "m"
import * as @ from "m"
import { @ } from "m"
import { @ as a } from "m"
import { a as @ } from "m"
import { @ as @ } from "m"
import { @ , a } from "m"
import { a , @ as b , } from "m"
import a , { @ } from "m"
import a , * as @ from "m"
import a @ "m"
import { a @ b } from "m"
import * @ a from "m"
import { a } @ "m"
@ { a } from "m"
`)

func init() {
	register(&Property{ID: "C12", Judge: judgeFull, Assumptions: []string{modelAssumption, "yield and await expressions are not supported by the parser and are left out where they would be meant (C27 decides that they are refused); so are yield and await as import names, which the tests of the library pin"}, Spaces: func(tier string) []Space {
		at := func(name string, mode ref.Mode, pos []string, ctx []string) Space {
			n := len(allWords) * len(pos) * len(ctx)
			return &Indexed{N: fmt.Sprintf("%s: %d words x %d positions x %d contexts", name, len(allWords), len(pos), len(ctx)), Count: n, At: func(i int) Input {
				w := allWords[i%len(allWords)]
				i /= len(allWords)
				p := pos[i%len(pos)]
				i /= len(pos)
				return Input{Mode: mode, Src: wrap(ctx[i], strings.ReplaceAll(p, "@", w))}
			}}
		}
		two := func(name string, mode ref.Mode, ctx []string) Space {
			// Two different words next to each other in short phrases.
			ph := []string{"@ #", "@ \n #", "@ : #", "@ . #", "@ # ( ) { }", "( { @ # ( ) { } } )", "class A { @ # ( ) { } }", "class A { static @ # ( ) { } }", "var @ , #", "( @ , # ) => 1", "@ # => 1", "function @ ( # ) { }",
				"( { @ , # } )", "( { @ : # } )", "( { @ : # } ) => 1", "for ( @ # a ) ;", "for ( var @ # a ) ;", "@ = #", "import @ from # ;", "if ( @ ) # ; else @"}
			n := len(allWords) * len(allWords) * len(ph) * len(ctx)
			return &Indexed{N: fmt.Sprintf("%s: all pairs of %d words x %d phrases x %d contexts", name, len(allWords), len(ph), len(ctx)), Count: n, At: func(i int) Input {
				w := allWords[i%len(allWords)]
				i /= len(allWords)
				v := allWords[i%len(allWords)]
				i /= len(allWords)
				p := ph[i%len(ph)]
				i /= len(ph)
				return Input{Mode: mode, Src: wrap(ctx[i], strings.NewReplacer("@", w, "#", v).Replace(p))}
			}}
		}
		return []Space{
			at("script", ref.Script, wordPositions, wordContexts),
			at("module", ref.Module, wordPositions, wordContexts),
			at("imports", ref.Module, importPositions, []string{"|", "| ; a", "a ; |"}),
			at("expressions", ref.Expression, []string{"@", "( @ )", "x . @", "( { @ } )", "@ => 1", "function @ ( ) { }", "async @ => @", "class @ { }", "[ @ ]", "- @"}, []string{"|"}),
			two("pairs", ref.Script, upToN(wordContexts, pick(tier, 2, 12))),
			two("pairs", ref.Module, wordContexts[:1]),
			fillSlots("names in all forms", ref.Script, slots(append(flat(stmtT), flat(exprT)...), true, false), allWords, upToN(wordContexts, pick(tier, 12, 100))),
			fillSlots("ordinary names in all forms", ref.Script, slots(append(flat(stmtT), flat(exprT)...), true, false), plainWords, upToN(wordContexts, 3)),
			fillSlots("names in all forms", ref.Module, slots(append(flat(stmtT), flat(exprT)...), true, false), allWords, wordContexts[:1]),
			fillSlots("names in nested patterns", ref.Script, slots(inAll(bindContexts, newNest(bindT, pick(tier, 2, 3)).all()), true, false), someWords, upToN(wordContexts, pick(tier, 2, 12))),
			fillSlots("names in deeply nested patterns", ref.Script, slots(inAll([]string{"let | = a ;", "const a = b , | = a ;", "( | ) => a", "async ( | ) => a", "function f ( | ) { }", "try { } catch ( | ) { }"}, patterns(pick(tier, 3, 5))), true, false), someWords, wordContexts[:2]),
			fillSlots("names in nested forms", ref.Script, slots(append(newNest(stmtT, 2).all(), newNest(exprT, 2).all()...), true, false), upToN(someWords, pick(tier, 4, 100)), upToN(wordContexts, pick(tier, 1, 12))),
		}
	}})
}

// --- C13 --------------------------------------------------------------------

func init() {
	register(&Property{ID: "C13", Judge: judgeFull, Assumptions: []string{modelAssumption}, Spaces: func(tier string) []Space {
		s := []Space{everyTokenInPatterns(), broken("\n", everyTokenInPatterns()), deepForms()}
		d := pick(tier, 6, 7)
		for _, c := range []string{"var |= a ;", "function f ( |) { }", "( |) => a", "try { } catch ( |) { }", "( { m ( |) { } } )"} {
			i := strings.Index(c, "|")
			s = append(s, &Lex{N: "pattern", Mode: ref.Script, Pre: c[:i], Suf: []string{" " + c[i+1:]}, Alpha: words("x y [ ] { } , : = ..."), Sep: " ", Depth: d})
		}
		for _, c := range []string{"let [ |", "const { |", "var { |", "( [ |", "( { |", "function f ( { |"} {
			i := strings.Index(c, "|")
			open, close := c[:i], " ]"
			if strings.Contains(open, "{") {
				close = " }"
			}
			suf := close + " = a"
			if open[0] == '(' {
				suf = close + " ) => a"
			} else if open[0] == 'f' {
				suf = close + " ) { }"
			}
			s = append(s, &Lex{N: "inside of a pattern", Mode: ref.Script, Pre: open, Suf: []string{suf}, Alpha: words("x y [ ] { } , : = 1 ... if"), Sep: " ", Depth: d - 1})
		}
		s = append(s,
			nestSpace("patterns", bindT, 2, ref.Script, bindContexts...),
			distinct(nestSpace("patterns in all bodies", bindT, 2, ref.Script, inAll(bodyPlaces(), append([]string{"[ a ] = | = b", "( | = a )", "for ( | of a ) ;"}, bindContexts...))...)),
			distinct(nestSpace("patterns", bindT, 2, ref.Script, bindContexts...)),
			distinct(nestSpace("patterns", bindT, 3, ref.Script, some(bindContexts, tier, 0, 1, 5, 7, 12, 14, 15, 17, 21)...)),
			distinct(nestSpace("assignment patterns", bindT, 3, ref.Script, "( | = a )", "( | , b )")),
			nestSpace("assignment patterns", bindT, pick(tier, 2, 3), ref.Script, "for ( | of a ) ;", "for ( | in a ) ;", "[ | = a ] = b", "( { p : | } = a )", "( | )", "f ( | )", "( | , b )", "x = | = a"),
			many("every pattern many times", ref.Script, flat(bindT), []string{"¦var @ = a ;\n¦¦¦", "var ¦@ = a ,¦x¦¦", "(¦@ ,¦x¦¦) => a", "[¦@ ,¦x¦¦] = a", "var [¦@ ,¦x¦¦] = a", "¦( @ ) => a ;\n¦¦¦", "¦( @ = a ) ;\n¦¦¦", "¦for ( @ of a ) ;\n¦¦¦", "¦try { } catch ( @ ) { }\n¦¦¦", "¦function f ( @ ) { }\n¦¦¦"}),
			pumps("very long patterns", ref.Script, longLadder, "var [x¦,y§¦¦¦] = a;", "var [¦,¦¦¦x] = a;", "var {x¦,y§¦¦¦} = a;", "var {x¦,p§:y§=1¦¦¦} = a;", "(x¦,[y§]¦¦¦) => a;", "[x¦,y§¦¦¦] = a;", "({x¦,p§:y§¦¦¦} = a);", "function f([x¦,y§¦¦¦]){}"),
			pumps("long patterns", ref.Script, append(upTo(pick(tier, 40, 200)), ladder...),
				"var ¦[¦x¦]¦ = a;", "var ¦{p:¦x¦}¦ = a;", "var [x¦,y¦¦¦] = a;", "var [¦,¦¦¦x] = a;", "var {x¦,y¦¦¦} = a;", "var {x¦,p:y=1¦¦¦} = a;", "(¦[¦x¦]¦) => a;", "(¦{p:¦x¦}¦) => a;", "([x¦,y¦¦¦]) => a;", "({x¦,y=1¦¦¦}) => a;", "(¦[¦x¦]=1¦);",
				"function f(¦[¦x¦]¦){}", "function f(¦{p:¦x¦=1}¦){}", "(x¦,[y]¦¦¦) => a;", "(x¦,{y}=1¦¦¦) => a;", "[¦,¦¦¦x] = a;", "({x¦,y:z=1¦¦¦} = a);", "(¦[¦x¦]¦ = a);", "try{}catch(¦[¦x¦]¦){}"),
		)
		if tier == "thorough" {
			s = append(s, nestSpace("patterns with initializers", bindT, 4, ref.Script, "var | = a ;", "( | ) => a", "function f ( | ) { }", "( | = a )"))
		}
		return s
	}})
}

// upToN is the first n texts of a list.
func upToN(l []string, n int) []string {
	if len(l) < n {
		n = len(l)
	}
	return l[:n]
}

// some selects contexts for the quick tier.
func some(ctx []string, tier string, idx ...int) []string {
	if tier == "thorough" {
		return ctx
	}
	var r []string
	for _, i := range idx {
		r = append(r, ctx[i])
	}
	return r
}

// --- C14 --------------------------------------------------------------------

// judgeArrow: acceptance and tree are as prescribed, and nothing that is only
// allowed in parameter lists survives in an accepted program, whatever else it
// contains.
func judgeArrow(c *Case) string {
	if d := judgeFull(c); d != "" {
		return d
	}
	if c.Impl().accepted() && c.Ref().Verdict == ref.Unspec {
		return judgeSchema(c)
	}
	return ""
}

func init() {
	register(&Property{ID: "C14", Judge: judgeArrow, Assumptions: []string{modelAssumption}, Spaces: func(tier string) []Space {
		d := func(q, t int) int { return pick(tier, q, t) }
		heads := lines(`
( )
( a )
( a , b )
( a , )
( a = 1 )
( a = 1 , b )
( ... a )
( a , ... b )
( ... a , b )
( ... [ a ] )
( [ a ] )
( [ a , b = 1 ] )
( [ , a ] )
( [ a , ... b ] )
( { a } )
( { a = 1 } )
( { a = 1 , b } )
( { a : b } )
( { a : b = 1 } )
( { a : { b = 1 } } )
( { a : [ b ] } )
( { a , ... b } )
( { a = 1 } = 1 )
( [ a ] = 1 )
( ( a ) )
( ( a , b ) )
( a + b )
( a . b )
( 1 )
( { a : 1 } )
( { a : b . c } )
( { a ( ) { } } )
( [ a . b ] )
( a , ( b ) )
( { a : ( b ) } )
( [ ( a ) ] )
( a => b )
( a = b => c )
( a ++ )
( a , 1 )
( this )
( { get a ( ) { } } )
( { "a" : b } )
( { [ a ] : b } )
( { if : b } )
( a += 1 )
( a = b = c )
( function ( ) { } )
( async )
( async a )
( async ( ) => 1 )
( await )
( yield )
( [ ] )
( { } )
( [ [ a = 1 ] , { b } ] )
( , )
( a , , b )
( a b )
a
async
async a
async ( )
async ( a )
async ( a , b = 1 )
async ( { a = 1 } )
async ( ... a )
async ( a , ... b )
async ( ... a , b )
async ( [ a ] , { b } )
async ( a . b )
async ( ( a ) )
async ( a , )
async
f ( a )
new a
[ a ]
{ a }
1
`)
		bodies := lines(`
=> b
=> { }
=> { b }
=> ( { } )
=> { } ( )
=> { } . p
=> { } + 1
=> { } , c
=> b , c
=> b + c
=> b ? c : d
=> b = c
=> c => d
=> ( c ) => d
=> { } ? c : d
=> { } \n c
=> b in c
=> { return b }
=> [ b ]
=>
= b
= b => c
, c
+ c
. p
( )
( ) => b
++
in b
? b : c
`)
		for i, b := range bodies {
			bodies[i] = strings.ReplaceAll(b, "\\n", "\n")
		}
		bodies = append(bodies, "", "\n=> b", "\n=> { }")
		ctx := append(append([]string{}, exprContexts...), "a + |", "- |", "a ? | : | ;", "a || |", "| || a", "a , |", "a = |", "a => |", "typeof |", "| + a", "f ( a , | )", "[ a , | ]", "( { a : | , b } )", "async |", "new ( | )", "( | ) ( )", "x [ | ]", "for ( var x = | ; ; ) ;", "for ( | in a ) ;", "await |", "yield |", "class A extends | { }", "a ** |", "( a , | )", "( | , a )", "( ( | ) )", "{ | }", "if ( a ) |")
		return []Space{
			everyTokenInArrows(), broken("\n", everyTokenInArrows()), deepForms(),
			&Lex{N: "arrow heads", Mode: ref.Script, Alpha: words("( ) a b , = => ... [ ] { }"), Sep: " ", Depth: d(7, 8)},
			&Lex{N: "parenthesized", Mode: ref.Script, Pre: "( ", Suf: []string{" )", " ) => a", " ) => { } ;"}, Alpha: words("a , = ... [ ] { } : ( ) 1 =>"), Sep: " ", Depth: d(5, 6)},
			&Lex{N: "parenthesized patterns with defaults and rests", Mode: ref.Script, Suf: []string{"", " )", " ) => a", " ) = a", " ] = a"}, Alpha: lines("( \n{ a = 1 }\n[ b = 1 ]\n... c\n[ ... d ]\n{ p : { a = 1 } }\n,\nx\n=\n[\n]\n)\n+ y\n=> z"), Sep: " ", Depth: d(5, 6)},
			&Lex{N: "async heads", Mode: ref.Script, Alpha: words("async ( ) a , = => ... { } function"), Sep: " ", Depth: d(6, 7)},
			&Lex{N: "async calls", Mode: ref.Script, Pre: "async ( ", Suf: []string{" )", " ) => a"}, Alpha: words("a , = ... [ ] { } : ( ) 1"), Sep: " ", Depth: d(5, 6)},
			&Lex{N: "arrows and operators", Mode: ref.Script, Alpha: words("a ( ) => + ? : , { } = new"), Sep: " ", Depth: d(6, 7)},
			&Lex{N: "arrow bodies", Mode: ref.Script, Pre: "( a ) => ", Alpha: words("a { } ( ) , ; + . [ ] => in return"), Sep: " ", Depth: d(5, 6)},
			product("heads, bodies", ref.Script, " ", heads, bodies),
			&Indexed{N: fmt.Sprintf("%d heads x %d continuations x %d contexts", len(heads), len(bodies), len(ctx)), Count: len(heads) * len(bodies) * len(ctx), At: func(i int) Input {
				h := heads[i%len(heads)]
				i /= len(heads)
				b := bodies[i%len(bodies)]
				i /= len(bodies)
				return Input{Mode: ref.Script, Src: wrap2(ctx[i], h+" "+b)}
			}},
			&Indexed{N: fmt.Sprintf("pairs of %d heads in one parenthesis", len(heads)), Count: len(heads) * len(heads) * 5, At: func(i int) Input {
				w := []string{"( @ , # ) => 1", "( @ , # )", "( a = @ => # ) => 1", "( @ ) ; ( # ) => 1", "( @ => 1 , # ) => 2"}[i%5]
				i /= 5
				return Input{Mode: ref.Script, Src: strings.NewReplacer("@", heads[i%len(heads)], "#", heads[i/len(heads)]).Replace(w)}
			}},
			product("heads, bodies", ref.Script, " ", heads, bodies).(*Indexed).in(upToN(bodyPlaces(), pick(tier, 40, 100))),
			product("heads, bodies", ref.Expression, " ", heads, bodies),
			product("heads, bodies", ref.Module, " ", heads, bodies),
			within("pattern-only items anywhere in nested lists", ref.Expression, cross("", lists(d(4, 5), 2), lines("@\n@ => e\n@ = e\n@ . p")), lines("{ a = 1 }\n[ ... a ]\n{ ... a }\n... a\na = 1\n( a )\n")),
			within("pattern-only items anywhere in deeply nested lists", ref.Script, cross("x = ", lists(d(3, 4), 3), lines("@\n@ => e")), lines("{ a = 1 }\n[ ... a ]\n... a")),
			pumps("nested arrows and parentheses", ref.Script, append(upTo(d(60, 200)), ladder...),
				"¦a=>¦b¦¦;", "¦(a)=>¦b¦¦;", "¦(a=¦b¦)=>c¦;", "¦(¦a¦)¦ => b", "¦(¦a¦)¦;", "¦()=>{¦a¦}¦", "(a¦,b¦¦¦)=>c", "(a¦,b=1¦¦¦)=>c", "(a¦,b¦¦¦,...c)=>d", "(¦(a)=>¦b¦¦)", "¦async a=>¦b¦¦", "¦async(a)=>¦b¦¦", "¦async(¦a¦)¦", "¦({a:¦b¦})¦", "¦([¦a¦])¦=>1", "¦(a,¦b¦)¦", "¦(a=>¦b¦)¦"),
		}
	}})
}

// lists are contexts in which the text is one of up to n items of a list,
// nested to the given depth.
func lists(n, depth int) []string {
	if depth == 0 {
		return []string{"|"}
	}
	var r []string
	for _, in := range lists(n, depth-1) {
		for _, w := range []string{"[ @ ]", "( @ )", "f ( @ )", "async ( @ )", "{ @ }"} {
			for k := 1; k <= n; k++ {
				for i := 0; i < k; i++ {
					item := make([]string, k)
					for j := range item {
						switch {
						case j == i && w == "{ @ }":
							item[j] = "p : " + in
						case j == i:
							item[j] = in
						case j%2 == 1 && w == "{ @ }":
							item[j] = "q : c"
						default:
							item[j] = "b"
						}
					}
					r = append(r, strings.Replace(w, "@", strings.Join(item, " , "), 1))
				}
			}
		}
	}
	return r
}

// cross puts every text into every form, after pre.
func cross(pre string, texts, forms []string) (r []string) {
	for _, t := range texts {
		for _, f := range forms {
			r = append(r, pre+strings.Replace(f, "@", t, 1))
		}
	}
	return r
}

func wrap2(w, s string) string { return strings.ReplaceAll(w, "|", s) }
