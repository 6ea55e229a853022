package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verifmc/ref"
)

// Forms are the productions of the language, written as templates whose holes
// E (assignment expression), S (statement), B (binding), A (async expression
// context is up to the template) are filled with further templates. The model
// decides which of the results are programs; a template does not have to be
// valid in every place it is put.

// tokens of a template are separated by blanks; holes are <E>, <S>, <B>.

var exprForms = lines(`
a
1
"s"
this
null
true
/r/g
[ ]
[ <E> ]
[ , <E> , ]
[ <E> , , <E> ]
( { } )
( { p : <E> } )
( { a , p : <E> , } )
( { [ <E> ] : <E> } )
( { "p" : <E> , 1 : a } )
( { m ( <B> ) { <S> } } )
( { get p ( ) { <S> } , set p ( <B> ) { <S> } } )
( { async m ( <B> ) { <S> } , get : <E> } )
( { * m ( ) { <S> } } )
( { if : <E> } )
( <E> )
( <E> , <E> )
function ( ) { <S> }
function f ( <B> , <B> ) { <S> }
function ( <B> = <E> ) { return <E> ; }
function * ( ) { <S> }
async function ( ) { <S> }
async function f ( <B> ) { await <E> ; }
class { }
class A { m ( <B> ) { <S> } }
class extends <E> { constructor ( ) { <S> } }
class { static [ <E> ] ( ) { } ; get p ( ) { <S> } set p ( <B> ) { } }
<E> . p
<E> . if
<E> [ <E> ]
<E> ( )
<E> ( <E> )
<E> ( <E> , <E> , )
<E> ( ... <E> , a )
new <E>
new <E> ( )
new <E> ( <E> )
<E> ++
<E> --
++ <E>
-- <E>
delete <E>
void <E>
typeof <E>
+ <E>
- <E>
~ <E>
! <E>
<E> ** <E>
<E> * <E>
<E> / <E>
<E> % <E>
<E> + <E>
<E> - <E>
<E> << <E>
<E> >> <E>
<E> >>> <E>
<E> < <E>
<E> > <E>
<E> <= <E>
<E> >= <E>
<E> instanceof <E>
<E> in <E>
<E> == <E>
<E> != <E>
<E> === <E>
<E> !== <E>
<E> & <E>
<E> ^ <E>
<E> | <E>
<E> && <E>
<E> || <E>
<E> ?? <E>
<E> ? <E> : <E>
<E> = <E>
<E> += <E>
<E> **= <E>
<E> &&= <E>
<E> ||= <E>
<E> ??= <E>
<E> >>>= <E>
[ a , b ] = <E>
[ a = <E> , [ b ] , ... c ] = <E>
( { a , p : b = <E> , ... c } = <E> )
( { p : [ a ] = <E> , q : { b } } = <E> )
( { a = <E> } = <E> )
<E> , <E>
<E> , <E> , <E>
x => <E>
( ) => <E>
( ) => { <S> }
( <B> ) => <E>
( <B> , <B> ) => { <S> }
( <B> = <E> ) => <E>
( a , <B> , ... b ) => <E>
( ... <B> ) => <E>
async x => <E>
async ( <B> ) => <E>
async ( ) => { <S> }
async ( <E> )
async => <E>
await <E>
`)

var stmtForms = lines(`
<E> ;
<E>
;
{ }
{ <S> }
{ <S> <S> }
var <B> = <E> ;
var x ;
var a , b = <E> , <B> = <E>
let <B> = <E> ;
let a , b ;
const <B> = <E> ;
const a = <E> , b = <E>
if ( <E> ) <S>
if ( <E> ) <S> else <S>
while ( <E> ) <S>
do <S> while ( <E> ) ;
do <S> while ( <E> )
for ( ; ; ) <S>
for ( <E> ; <E> ; <E> ) <S>
for ( var <B> = <E> ; ; a ++ ) <S>
for ( var a , b = <E> ; <E> ; ) <S>
for ( var <B> in <E> ) <S>
for ( var <B> of <E> ) <S>
for ( <E> in <E> ) <S>
for ( <E> of <E> ) <S>
for ( [ a ] of <E> ) <S>
for ( { a } in <E> ) <S>
continue ;
continue l ;
break ;
break l
return ;
return <E> ;
throw <E> ;
l : <S>
switch ( <E> ) { }
switch ( <E> ) { case <E> : <S> }
switch ( <E> ) { case <E> : default : <S> case a : <S> <S> }
switch ( a ) { default : }
try { <S> } catch { <S> }
try { <S> } catch ( <B> ) { <S> }
try { <S> } finally { <S> }
try { <S> } catch ( e ) { <S> } finally { <S> }
function f ( ) { <S> }
function f ( <B> , <B> = <E> ) { <S> return <E> }
function f ( ) { "use strict" ; <S> }
class A { }
class A extends <E> { constructor ( <B> ) { <S> } m ( ) { } }
class A { static m ( ) { <S> } ; static get x ( ) { } async n ( ) { <S> } }
"use strict" ; <S>
<S> <S>
`)

var bindForms = lines(`
x
[ ]
[ x ]
[ , x , , <B> ]
[ <B> = <E> , <B> ]
[ x , ... y ]
[ ... <B> ]
{ }
{ x }
{ x , y = <E> , }
{ p : <B> }
{ p : <B> = <E> , q : y }
{ x , ... y }
`)

var importForms = lines(`
import "m" ;
import a from "m" ;
import * as a from "m" ;
import { } from "m" ;
import { a } from "m" ;
import { a , b as c , } from "m" ;
import { if as b , as as as } from "m"
import a , { b } from "m" ;
import a , * as b from "m"
import from from "m"
import as , { from as from } from "m" ;
`)

func lines(s string) []string { return strings.Split(strings.TrimSpace(s), "\n") }

var leaf = map[string]string{"<E>": "a", "<S>": "b ;", "<B>": "x"}

// Templates are split at their holes.
type template struct {
	text  string
	parts []string // literal parts; len(holes)+1
	holes []string
}

func compile(s string) *template {
	t := &template{text: s}
	cur := []string{}
	for _, w := range tokensOf(s) {
		if leaf[w] != "" {
			t.parts = append(t.parts, strings.Join(cur, " "))
			t.holes = append(t.holes, w)
			cur = nil
		} else {
			cur = append(cur, w)
		}
	}
	t.parts = append(t.parts, strings.Join(cur, " "))
	return t
}

// fill puts s into hole h and leaves into the others.
func (t *template) fill(h int, s string) string { return t.fill2(h, s, -1, "") }

func (t *template) fill2(h int, s string, h2 int, s2 string) string {
	var b strings.Builder
	b.WriteString(t.parts[0])
	for i, k := range t.holes {
		b.WriteByte(' ')
		if i == h {
			b.WriteString(s)
		} else if i == h2 {
			b.WriteString(s2)
		} else {
			b.WriteString(leaf[k])
		}
		if t.parts[i+1] != "" {
			b.WriteByte(' ')
			b.WriteString(t.parts[i+1])
		}
	}
	return strings.TrimPrefix(b.String(), " ")
}

func compileAll(l []string) (r []*template) {
	for _, s := range l {
		r = append(r, compile(s))
	}
	return r
}

var (
	exprT = compileAll(exprForms)
	stmtT = compileAll(stmtForms)
	bindT = compileAll(bindForms)
)

func family(hole string) []*template {
	switch hole {
	case "<E>":
		return exprT
	case "<S>":
		return stmtT
	}
	return bindT
}

// nestings returns all texts that nest templates along one path of at most the
// given depth: a template of the family, in which one hole is filled with a
// template, and so on; all other holes are filled with leaves. Without limit
// the result grows by a factor of about 200 for each level.
func nestings(fam []*template, depth int) []string {
	var out []string
	for _, t := range fam {
		out = append(out, t.fill(-1, ""))
		if depth <= 1 {
			continue
		}
		for h, k := range t.holes {
			for _, s := range nestings(family(k), depth-1) {
				out = append(out, t.fill(h, s))
			}
		}
	}
	return out
}

// nest is a lazily indexed version of nestings.
type nest struct {
	fam   []*template
	depth int
	size  []int
	total int
	sub   map[string]*nest
}

func newNest(fam []*template, depth int) *nest {
	n := &nest{fam: fam, depth: depth, sub: map[string]*nest{}}
	if depth > 1 {
		for _, k := range []string{"<E>", "<S>", "<B>"} {
			n.sub[k] = newNest(family(k), depth-1)
		}
	}
	for _, t := range fam {
		s := 1
		if depth > 1 {
			for _, k := range t.holes {
				s += n.sub[k].total
			}
		}
		n.size = append(n.size, s)
		n.total += s
	}
	return n
}

func (n *nest) at(i int) string {
	for k, t := range n.fam {
		if i >= n.size[k] {
			i -= n.size[k]
			continue
		}
		if i == 0 {
			return t.fill(-1, "")
		}
		i--
		for h, hk := range t.holes {
			s := n.sub[hk]
			if i < s.total {
				return t.fill(h, s.at(i))
			}
			i -= s.total
		}
	}
	panic("index")
}

// wrap puts a text into a context "before | after".
func wrap(w, s string) string { // only the first "|"
	i := strings.Index(w, "|")
	return w[:i] + s + w[i+1:]
}

// nestSpace is all nestings in all contexts.
func nestSpace(name string, fam []*template, depth int, mode ref.Mode, contexts ...string) Space {
	n := newNest(fam, depth)
	if len(contexts) == 0 {
		contexts = []string{"|"}
	}
	return &Indexed{
		N:     fmt.Sprintf("%s: nestings of depth %d in %d contexts", name, depth, len(contexts)),
		Count: n.total * len(contexts),
		At: func(i int) Input {
			return Input{Mode: mode, Src: wrap(contexts[i%len(contexts)], n.at(i/len(contexts)))}
		},
	}
}

// pairSpace fills every two holes of every template of a family with every two
// flat templates; the other holes are leaves.
func pairSpace(name string, mode ref.Mode, fams ...[]*template) Space {
	type item struct {
		t     *template
		g, h  int
		start int
	}
	flats := map[string][]string{"<E>": flat(exprT), "<S>": flat(stmtT), "<B>": flat(bindT)}
	var items []item
	total := 0
	for _, fam := range fams {
		for _, t := range fam {
			for g := range t.holes {
				for h := g + 1; h < len(t.holes); h++ {
					items = append(items, item{t, g, h, total})
					total += len(flats[t.holes[g]]) * len(flats[t.holes[h]])
				}
			}
		}
	}
	return &Indexed{
		N:     fmt.Sprintf("%s: every two places of a form filled with every two forms (%d places)", name, len(items)),
		Count: total,
		At: func(i int) Input {
			it := items[sort.Search(len(items), func(k int) bool { return items[k].start > i })-1]
			i -= it.start
			f := flats[it.t.holes[it.g]]
			return Input{Mode: mode, Src: it.t.fill2(it.g, f[i%len(f)], it.h, flats[it.t.holes[it.h]][i/len(f)])}
		},
	}
}

// joined joins every text of one list to every text of the next ones.
func joined(name string, mode ref.Mode, lists ...[]string) Space {
	return product(name, mode, " ", lists...)
}

// statementTexts are the flat statements and the flat expressions as statements.
func statementTexts() []string {
	r := flat(stmtT)
	for _, e := range flat(exprT) {
		r = append(r, e+" ;")
	}
	return r
}

func (n *nest) all() []string {
	r := make([]string, n.total)
	for i := range r {
		r[i] = n.at(i)
	}
	return r
}

// Contexts for expressions and statements.
// operandContexts are the places of an operand after every kind of token.
var operandContexts = []string{"a instanceof @", "a in @", "typeof @", "void @", "delete @", "new @", "new @ ( )", "throw @", "function f ( ) { return @ }",
	"function f ( ) { return @ ; }", "switch ( @ ) { case @ : @ ; default : @ }", "class A extends @ { }", "class A extends B { m ( a = @ ) { @ } }", "for ( @ ; @ ; @ ) @",
	"for ( a in @ ) @", "for ( a of @ ) @", "if ( @ ) @ ; else @", "do @ ; while ( @ )", "while ( @ ) @", "L : @", "a ? @ : @", "( a = @ ) => @", "( a , b = @ ) => { @ }", "a => @",
	"x = [ , @ , @ ]", "[ a = @ ] = @", "( { a = @ } = @ )", "( { [ @ ] : @ , [ @ ] ( ) { } } )", "class A { [ @ ] ( ) { } static [ @ ] ( ) { } }", "a [ @ ]", "a [ @ ] [ @ ]", "f ( ... @ )", "f ( @ , @ )",
	"( @ , @ )", "@ . a", "@ [ a ]", "@ ( a )", "a = b = @", "a += @", "a ??= @", "a >>>= @", "+ @", "- @", "! @", "~ @", "a ** @", "@ ** a", "a * @", "a / @", "a % @", "a + @", "a - @", "a << @", "a >>> @",
	"a < @", "a >= @", "a == @", "a !== @", "a & @", "a ^ @", "a | @", "a && @", "a || @", "a ?? @", "var { a = @ } = @", "let [ a = @ , b = @ ] = @", "const a = @ , b = @", "try { @ } catch { @ } finally { @ }",
	"abcdefghijklmnopqrst = @", "'abcdefghijklmnopqrst' + @", "1234567890123456 + @", "/abcdefghijklmnop/g + @", "/* a */ @ // b", "\r@\r", "\n\n@ ;\n@", "\u2028@", "                         @"}

// operands puts every text into every operandContext, at each of its places.
func operands(name string, mode ref.Mode, texts []string) Space {
	var ctx [][2]string
	for _, c := range operandContexts {
		p := strings.Split(c, "@")
		for k := 1; k < len(p); k++ {
			ctx = append(ctx, [2]string{strings.Join(p[:k], "b"), strings.Join(p[k:], "b")})
		}
	}
	return &Indexed{N: fmt.Sprintf("%s: %d texts in %d operand positions", name, len(texts), len(ctx)), Count: len(ctx) * len(texts), At: func(i int) Input {
		c := ctx[i/len(texts)]
		return Input{Mode: mode, Src: c[0] + texts[i%len(texts)] + c[1]}
	}}
}

var exprContexts = []string{"|", "( | )", "x = |", "f ( | )", "[ | ]", "( { p : | } )", "var v = | ;",
	"if ( | ) ;", "for ( | ; ; ) ;", "for ( v in | ) ;", "for ( v of | ) ;", "function f ( ) { return | }", "throw | ;",
	"switch ( | ) { case | : }", "new | ;", "( v = | ) => 1", "! function f ( v = | ) { }", "( async function ( ) { | } )"}

// bodyPlaces are the kinds of places where statements stand: every kind of
// function, nested in others, and every kind of statement.
func bodyPlaces() []string {
	return append(append([]string{}, wordContexts[1:]...),
		"class C { constructor ( ) { | } }", "class C extends D { constructor ( ) { | } }", "class C { static m ( ) { | } }", "class C { * m ( ) { | } }", "class C { get m ( ) { | } }", "class C { set m ( a ) { | } }", "class C { static async m ( ) { | } }",
		"( { set m ( a ) { | } } )", "( { [ a ] ( ) { | } } )", "( class { m ( ) { | } } )", "for ( ; ; ) { | }", "for ( var a in b ) { | }", "for ( var a of b ) { | }", "while ( a ) { | }", "do { | } while ( a )",
		"switch ( a ) { case b : | }", "switch ( a ) { default : | }", "try { } catch { | }", "try { } catch ( a ) { | }", "try { } finally { | }", "if ( a ) ; else { | }", "{ { | } }", "a = function ( ) { | }", "( function f ( ) { | } ) ( )",
		"function f ( ) { for ( ; ; ) { | } }", "( function * ( ) { for ( ; ; ) { | } } )", "( async function ( ) { if ( a ) { | } } )", "function f ( ) { switch ( a ) { case b : | } }", "f ( ( ) => { | } )", "[ ( ) => { | } ]", "a => b => { | }", "new class { m ( ) { | } }", "x = { p : ( ) => { | } }",
		"function f ( ) { function g ( ) { | } }", "( function * ( ) { ( async function ( ) { | } ) } )", "( async function ( ) { ( function * ( ) { | } ) } )", "class C { m ( ) { class D { m ( ) { | } } } }", "a ; | ; b", "function f ( ) { } | ; class A { }")
}

var stmtContexts = []string{"|", "function f ( ) { | }", "( async function ( ) { | } )"}

// directiveLike are statements that are directives, or look similar, or end a
// sequence of directives.
var directiveLike = []string{`"" ;`, `'' ;`, `"a" ;`, "'b'", `"\"" ;`, `'"' ;`, `"\n" ;`, `"\u0061" ;`, "'\\\n' ;", `"use strict" ;`, `'use\x20strict' ;`, `"" + a ;`, `( "" ) ;`, `"" . b ;`, `"" , a ;`, `"" ? a : b ;`, `"" in a ;`, "a ;", ";", "{ }", "var x = '' ;", `return "" ;`, "\n\"a\"\n", "1 ;", "/a/ ;", "null ;", `{ "" ; }`, `l : "" ;`, "function g ( ) { }"}

// triples are all sequences of three texts of a list.
func triples(l []string, sep string) []string {
	var out []string
	for _, a := range l {
		for _, b := range l {
			for _, c := range l {
				out = append(out, a+sep+b+sep+c)
			}
		}
	}
	return out
}

// inContexts puts every text in every context.
func inContexts(name string, mode ref.Mode, contexts, texts []string) Space {
	return &Indexed{N: name, Count: len(contexts) * len(texts), At: func(i int) Input {
		return Input{Mode: mode, Src: wrap(contexts[i%len(contexts)], texts[i/len(contexts)])}
	}}
}

// mutations of a token list: every deletion, duplication, transposition of
// neighbours, and every substitution and insertion of a token from a set.
func mutationCount(n, set int) int { return 3*n + (2*n+1)*set }

func mutate(tok []string, set []string, i int) string {
	n := len(tok)
	out := make([]string, 0, n+1)
	switch {
	case i < n: // deletion
		out = append(append(out, tok[:i]...), tok[i+1:]...)
	case i < 2*n: // duplication
		i -= n
		out = append(append(append(out, tok[:i]...), tok[i], tok[i]), tok[i+1:]...)
	case i < 3*n: // transposition
		i -= 2 * n
		out = append(out, tok...)
		if i+1 < n {
			out[i], out[i+1] = out[i+1], out[i]
		}
	default:
		i -= 3 * n
		k := i / len(set)
		w := set[i%len(set)]
		if k < n { // substitution
			out = append(out, tok...)
			out[k] = w
		} else { // insertion
			k -= n
			out = append(append(append(out, tok[:k]...), w), tok[k:]...)
		}
	}
	return strings.Join(out, " ")
}

// spanSpace repeats and removes every contiguous part of two or more tokens of
// a list of programs.
func spanSpace(name string, mode ref.Mode, progs []string) Space {
	var toks [][]string
	var starts []int
	total := 0
	for _, p := range progs {
		t := tokensOf(p)
		toks = append(toks, t)
		starts = append(starts, total)
		total += len(t) * (len(t) - 1)
	}
	return &Indexed{
		N:     fmt.Sprintf("%s: every part of two or more tokens repeated or removed in %d programs", name, len(progs)),
		Count: total,
		At: func(i int) Input {
			k := sort.Search(len(starts), func(k int) bool { return starts[k] > i }) - 1
			t := toks[k]
			i -= starts[k]
			remove := i%2 == 1
			i /= 2
			// i numbers the pairs lo < hi, hi-lo >= 1 of inclusive bounds.
			lo := 0
			for i >= len(t)-1-lo {
				i -= len(t) - 1 - lo
				lo++
			}
			hi := lo + 2 + i
			var out []string
			if remove {
				out = append(append(out, t[:lo]...), t[hi:]...)
			} else {
				out = append(append(append(out, t[:hi]...), t[lo:hi]...), t[hi:]...)
			}
			return Input{Mode: mode, Src: strings.Join(out, " ")}
		},
	}
}

// mutationSpace is the whole one-edit neighbourhood of a list of programs.
func mutationSpace(name string, mode ref.Mode, progs []string, set []string) Space {
	type item struct {
		tok   []string
		start int
	}
	items := make([]item, len(progs))
	total := 0
	for i, p := range progs {
		t := tokensOf(p)
		items[i] = item{t, total}
		total += mutationCount(len(t), len(set))
	}
	return &Indexed{
		N:     fmt.Sprintf("%s: all edits of one token (deletion, duplication, transposition, %d substitutions and insertions) of %d programs", name, len(set), len(progs)),
		Count: total,
		At: func(i int) Input {
			lo, hi := 0, len(items)
			for hi-lo > 1 {
				m := (lo + hi) / 2
				if items[m].start <= i {
					lo = m
				} else {
					hi = m
				}
			}
			return Input{Mode: mode, Src: mutate(items[lo].tok, set, i-items[lo].start)}
		},
	}
}

// allTokens is one representative of each kind of token.
var allTokens = words(`a b 1 "s" /r/ ; , ( ) [ ] { } . ... ? : = => += + ++ -- - * ** / < == & | ^ && || ?? ! ~ % << >>> ` +
	`new delete typeof in instanceof of this null true function class extends static get set async await ` +
	`var let const if else for while do break continue return throw try catch finally switch case default import from as yield`)

var fewTokens = words(`a 1 ; , ( ) [ ] { } . ... : = => + ++ in of function class async var if else while catch case`)

// product enumerates all combinations of the given choices.
func product(name string, mode ref.Mode, sep string, choices ...[]string) Space {
	n := 1
	for _, c := range choices {
		n *= len(c)
	}
	return &Indexed{N: name, Count: n, At: func(i int) Input {
		var b strings.Builder
		for k, c := range choices {
			if k > 0 {
				b.WriteString(sep)
			}
			b.WriteString(c[i%len(c)])
			i /= len(c)
		}
		return Input{Mode: mode, Src: b.String()}
	}}
}

// pump is before^n middle after^n for all n of a list.
type pump struct{ pre, mid, post, sep string }

// expandPump expands a compact input: X is "pump:n", Src is pre|mid|post
// separated by U+0001.
func expandPump(in Input) (string, bool) {
	s, ok := strings.CutPrefix(in.X, "pump:")
	if !ok {
		return "", false
	}
	n, err := strconv.Atoi(s)
	p := strings.Split(in.Src, "\x01")
	if err != nil || len(p) != 5 {
		return "", false
	}
	if n < 200000 && strings.Contains(p[1]+p[3], "§") {
		// § is the number of the repetition.
		var b, e strings.Builder
		for i := 1; i <= n; i++ {
			b.WriteString(strings.ReplaceAll(p[1], "§", strconv.Itoa(i)))
			e.WriteString(strings.ReplaceAll(p[3], "§", strconv.Itoa(n+1-i)))
		}
		return p[0] + b.String() + p[2] + e.String() + p[4], true
	}
	return p[0] + strings.Repeat(p[1], n) + p[2] + strings.Repeat(p[3], n) + p[4], true
}

// pumps builds the space of families "head|repeated|middle|repeated|tail" for
// the given sizes.
func pumps(name string, mode ref.Mode, sizes []int, fams ...string) Space {
	max := 0
	for _, n := range sizes {
		if n > max {
			max = n
		}
	}
	return &Indexed{
		N:     fmt.Sprintf("%s: %d repetition families, %d sizes up to %d", name, len(fams), len(sizes), max),
		Count: len(sizes) * len(fams), Chunk: 1,
		At: func(i int) Input {
			f := fams[i%len(fams)]
			if strings.Count(f, "¦") != 4 {
				panic("bad family " + f)
			}
			return Input{Mode: mode, Src: strings.ReplaceAll(f, "¦", "\x01"), X: "pump:" + strconv.Itoa(sizes[i/len(fams)])}
		},
	}
}

// ladder are sizes around the powers of two and of ten at which the tables and
// counters of an implementation may end.
var (
	ladder     = []int{63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025}
	midLadder  = append(append([]int{}, ladder...), 2047, 2048, 2049, 4095, 4096, 4097, 8192, 8193, 10001)
	longLadder = append(append([]int{}, midLadder...), 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000)
)

func upTo(n int) (r []int) {
	for i := 0; i <= n; i++ {
		r = append(r, i)
	}
	return r
}

// tokensOf splits a program written with blanks between its tokens.
func tokensOf(s string) []string {
	var r []string
	for _, w := range strings.Fields(s) {
		if w == "strict\"" && len(r) > 0 && r[len(r)-1] == "\"use" {
			r[len(r)-1] = "\"use strict\""
			continue
		}
		r = append(r, w)
	}
	return r
}

// slots are the texts with "@" for each of their names, numbers and strings in
// turn.
func slots(texts []string, names, literals bool) (r []string) {
	seen := map[string]bool{}
	for _, s := range texts {
		t := tokensOf(s)
		for k, w := range t {
			c := w[0]
			letter := len(w) == 1 && c >= 'a' && c <= 'z' || len(w) == 1 && c >= 'A' && c <= 'Z'
			literal := c == '"' || c == '\'' || c >= '0' && c <= '9'
			if !(names && letter || literals && (literal || letter)) {
				continue
			}
			t[k] = "@"
			if x := strings.Join(t, " "); !seen[x] {
				seen[x] = true
				r = append(r, x)
			}
			t[k] = w
		}
	}
	return r
}

// fillSlots puts every word into every slot in every context.
func fillSlots(name string, mode ref.Mode, slots, list, ctx []string) Space {
	return &Indexed{N: fmt.Sprintf("%s: %d words at %d places in %d contexts", name, len(list), len(slots), len(ctx)), Count: len(slots) * len(list) * len(ctx), At: func(i int) Input {
		w := list[i%len(list)]
		i /= len(list)
		c := ctx[i%len(ctx)]
		return Input{Mode: mode, Src: wrap(c, strings.Replace(slots[i/len(ctx)], "@", w, 1))}
	}}
}

// inAll puts every text into every context.
func inAll(ctx, texts []string) (r []string) {
	for _, c := range ctx {
		for _, t := range texts {
			r = append(r, wrap(c, t))
		}
	}
	return r
}

// patterns are the patterns nested to the given depth, without expressions.
func patterns(depth int) (r []string) {
	for _, t := range bindT {
		r = append(r, t.fill(-1, ""))
		if depth <= 1 {
			continue
		}
		for h, k := range t.holes {
			if k == "<B>" {
				for _, s := range patterns(depth - 1) {
					r = append(r, t.fill(h, s))
				}
			}
		}
	}
	return r
}

// many repeats every text of a list in every frame (a family whose "@" is the
// text) so often that a counter that one form leaves behind wrong, or a table
// that one form leaves an entry in, comes to a limit.
func many(name string, mode ref.Mode, texts, frames []string) Space {
	var fams []string
	for _, f := range frames {
		for _, t := range texts {
			fams = append(fams, strings.ReplaceAll(f, "@", t))
		}
	}
	return pumps(name, mode, []int{12000}, fams...)
}
