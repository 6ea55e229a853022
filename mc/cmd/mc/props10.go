package main

import (
	"fmt"
	"strings"

	"verifmc/ref"
)

// unsupported are the features of ECMAScript that the parser does not support.
var unsupported = map[string]bool{
	"template literal": true, "optional chaining": true, "BigInt": true, "private name or hashbang": true, "unicode escape in identifier": true,
	"yield expression": true, "await expression": true, "for await": true,
	"generator declaration": true, "async function declaration": true,
	"spread in an array literal": true, "spread in an object literal": true,
	"pattern as rest parameter": true, "string, number or computed key in a binding pattern": true,
	"rest target that is not an identifier": true, "rest target that is not a binding": true, "call expression as assignment target": true,
	"new.target": true, "super": true, "dynamic import or import.meta": true,
	"class field": true, "class static block": true,
	"export": true, "string as import name": true, "import attributes": true,
	"with statement": true, "debugger statement": true,
	"lexical declaration in a for head": true, "initializer in a for-in head": true,
	"function declaration as body of a statement": true,
}

// judgeRefused: a text that uses an unsupported feature is not taken for
// something else.
func judgeRefused(c *Case) string {
	r := c.Ref()
	if r.Verdict != ref.Unspec || !unsupported[r.Why] {
		return ""
	}
	if o := c.Impl(); o.Panic != "" {
		return "neither accepted nor refused: panic: " + o.Panic
	} else if o.accepted() {
		return "accepted as something else: " + r.Why + " is not supported"
	}
	return ""
}

// places are the texts around each hole of a kind in a family, nested to the
// given depth.
func places(hole string, fam []*template, depth int) (r []string) {
	for _, t := range fam {
		for h, k := range t.holes {
			if k == hole {
				r = append(r, t.fill(h, "|"))
			}
			if depth > 1 {
				for _, p := range places(hole, family(k), depth-1) {
					r = append(r, t.fill(h, p))
				}
			}
		}
	}
	return r
}

// within puts every text into every context.
func within(name string, mode ref.Mode, ctx, texts []string) Space {
	return &Indexed{N: fmt.Sprintf("%s: %d texts in %d contexts", name, len(texts), len(ctx)), Count: len(ctx) * len(texts), At: func(i int) Input {
		return Input{Mode: mode, Src: wrap(ctx[i%len(ctx)], texts[i/len(ctx)])}
	}}
}

var unsupportedE = append(lines("`a`\n``\n`${a}`\n`a${b}c${d}e`\na`b`\na . b `c`\n`a``b`\n`'`\n`//`\n`${`a`}`\n`\\``\na [ `b` ]\nf ( `a` )\n( { a : `b` } )\n( { [ `a` ] : b } )\n`a` . b\nnew a `b`\n`}`\n`$`"), lines(`
a ?. b
a ?. [ b ]
a ?. ( b )
a ?. b . c
a ?. b ( )
a . b ?. c
a ( ) ?. b
( a ?. b ) . c
delete a ?. b
a ?. b ?. c
this ?. a
a ?.b
a?.b:c
a ?. b = c
new a ?. b
1n
0n
0x1n
0b1n
0o7n
- 1n
1n ** 2n
[ ... a ]
[ ... a , b ]
[ a , ... b , c ]
[ ... a , ... b ]
[ , ... a ]
[ ... [ a ] ]
( { ... a } )
( { a , ... b , c } )
( { ... a , ... b } )
( { ... { a } } )
( { ... a . b } )
[ ... a . b ] = c
[ ... a [ b ] ] = c
[ ... [ a ] ] = b
[ ... { a } ] = b
( { ... a . b } = c )
new . target
new new . target
new . target . a
new . target ( )
function ( ) { return new . target }
import ( a )
import ( a , b )
import ( a ) . b
import . meta
import . meta . a
super . a
super [ a ]
super ( )
super . a ( )
( { m ( ) { super . m ( ) } } )
( { get a ( ) { return super . a } } )
class extends a { constructor ( ) { super ( ) } }
class { m ( ) { super . m ( ) } }
class { a }
class { a ; }
class { a = 1 }
class { a = 1 ; b }
class { static a }
class { static a = 1 ; }
class { 'a' = 1 }
class { 1 ; }
class { [ a ] = b }
class { [ a ] }
class { m ( ) { } a = 1 }
class { get ; }
class { get = 1 ; }
class { static }
class { static = 1 }
class { async ; }
class { static { } }
class { static { a } m ( ) { } }
class { # a }
class { # a = 1 ; }
class { # m ( ) { } }
class { get # a ( ) { } }
class { static # m ( ) { } }
class { async # m ( ) { } }
class { #a = 1 ; m ( ) { return this . #a } }
class { #a ; m ( ) { return #a in this } }
a . #b
a . #b . c
a . b . #c
this . #a ( )
a . #b = c
a ?. #b
delete a . #b
#a in b
#a
( { #a : b } )
( { #a } )
( { #a ( ) { } } )
( { get #a ( ) { } } )
function #a ( ) { }
#a => b
( #a ) => b
async #a => b
\u0061
\u{61}
a\u0062
a\u{62}c
x . \u0061
( { \u0061 : 1 } )
( { \u0061 ( ) { } } )
( { \u0061 } )
f ( \u0061 )
\u0061 => 1
v\u0061r
typ\u0065of a
class { \u0061 ( ) { } }
( { 'a' : b } ) => c
( { 1 : b } ) => c
( { [ a ] : b } ) => c
( { 'a' : b = 1 } ) => c
( a , { 'b' : c } ) => d
( ... [ a ] ) => b
( ... { a } ) => b
( a , ... [ b ] ) => c
async ( ... [ a ] ) => b
function ( ... [ a ] ) { }
function ( ... { a } ) { }
function ( { 'a' : b } ) { }
function ( { [ a ] : b } ) { }
( { m ( ... [ a ] ) { } } )
f ( ) = 1
f ( ) += 1
f ( ) ++
-- f ( )
a . b ( ) = 1
[ f ( ) ] = a
( { a : f ( ) } = b )
function * ( ) { yield }
function * ( ) { yield a }
function * ( ) { yield * a }
function * ( ) { yield ( a ) }
function * ( ) { yield [ a ] }
function * ( ) { yield / a / }
function * ( ) { yield - a }
function * ( ) { a = yield }
function * ( ) { f ( yield , yield ) }
function * ( ) { yield ; }
function * ( ) { ( yield ) }
( { * m ( ) { yield a } } )
class { * m ( ) { yield a } }
async function * ( ) { yield a }
async function * ( ) { await a }
async function ( ) { await a }
async function ( ) { await ( a ) }
async function ( ) { await [ a ] }
async function ( ) { await / a / }
async function ( ) { await - a }
async function ( ) { return await a }
async ( ) => await a
async ( ) => await ( a )
async ( ) => { await a }
async a => await a
async a => { a = await ( a ) }
async ( ) => { ( b = await ( a ) ) => c }
( { async m ( ) { await a } } )
class { async m ( ) { await ( a ) } }
async function ( ) { for await ( a of b ) ; }
async ( ) => { for await ( var a of b ) c }
`)...)

var unsupportedS = lines(`
function * f ( ) { }
function * f ( ) { yield a }
async function f ( ) { }
async function f ( ) { await a }
async function * f ( ) { }
with ( a ) b
with ( a ) { b }
debugger
debugger ;
for ( let a = 0 ; a ; a ) b
for ( let a ; ; ) b
for ( let a of b ) c
for ( let a in b ) c
for ( let [ a ] = b ; ; ) c
for ( let [ a ] of b ) c
for ( let { a } of b ) c
for ( let { a } in b ) c
for ( let of of b ) c
for ( let of = a ; ; ) c
for ( let a , b ; ; ) c
for ( const a of b ) c
for ( const a in b ) c
for ( const a = 0 ; ; ) b
for ( const { a } of b ) c
for ( var a = 1 in b ) c
if ( a ) function f ( ) { }
if ( a ) function f ( ) { } else b
if ( a ) b ; else function f ( ) { }
l : function f ( ) { }
class A { a = 1 }
class A { static { } }
class A extends b { constructor ( ) { super ( ) } }
class A { #a }
function f ( ... [ a ] ) { }
function f ( { 'a' : b } ) { }
function f ( { [ a ] : b } ) { }
function f ( { 1 : b } ) { }
var { 'a' : b } = c
var { 1 : b } = c
var { [ a ] : b } = c
let { 'a' : b } = c
const { a , [ b ] : c } = d
try { } catch ( { 'a' : b } ) { }
for ( var { 'a' : b } of c ) d
for ( f ( ) of a ) b
for ( f ( ) in a ) b
for ( [ f ( ) ] of a ) b
var \u0061
var v\u0061r = 1
l\u0061bel : a
function \u0061 ( ) { }
class \u0061 { }
`)

var unsupportedM = lines(`
export { }
export { a }
export { a as b } ;
export { a as default }
export { a } from 'm'
export * from 'm'
export * as a from 'm'
export default a
export default function ( ) { }
export default class { }
export default ( a )
export default [ a ]
export default async ( ) => a
export var a
export let a = 1
export const a = 1
export function f ( ) { }
export class A { }
export async function f ( ) { }
import { 'a' as b } from 'm'
import { a , 'b' as c } from 'm'
import a from 'm' with { type : 'json' }
import a from 'm' with { }
import 'm' with { type : 'json' }
import * as a from 'm' with { 'type' : 'json' }
import { a } from 'm' with { type : 'json' , }
import ( a )
import ( 'm' ) . then ( a )
import . meta
import . meta . url
await a
await ( a )
await [ a ]
await / a /
await - a
await + a
await ++ a
await ` + "`a`" + `
await
a = await ( b )
f ( await ( a ) )
var a = await ( b ) , c
[ await ( a ) ]
( { a : await ( b ) } )
( ) => await ( a )
class A { [ await ( a ) ] ( ) { } }
class A extends await ( a ) { }
function f ( a = await ( b ) ) { }
for await ( a of b ) ;
for await ( var a of b ) ;
for await ( const a of b ) ;
if ( await ( a ) ) b
await : a
`)

func init() {
	register(&Property{ID: "C27", Judge: judgeRefused, Assumptions: []string{modelAssumption, "the model decides which texts use a feature of the list: a text does if the grammar can only go on with that feature at some place"}, Spaces: func(tier string) []Space {
		d := func(q, t int) int { return pick(tier, q, t) }
		ectx := append([]string{"|", "x = |", "'use strict' ; x = |"}, places("<E>", append(append([]*template{}, exprT...), stmtT...), 1)...)
		sctx := append([]string{"|", "a ; |", "'use strict' ; |"}, places("<S>", append(append([]*template{}, exprT...), stmtT...), 2)...)
		both := append(append([]string{}, unsupportedE...), unsupportedS...)
		chars := func(s string) []string { return strings.Split(s, "") }
		s := []Space{
			within("expressions", ref.Script, ectx, unsupportedE),
			within("expressions", ref.Module, ectx, unsupportedE),
			within("expressions", ref.Expression, append([]string{"|"}, places("<E>", exprT, 1)...), unsupportedE),
			within("nested expressions", ref.Script, places("<E>", exprT, 2), unsupportedE),
			within("nested expressions in statements", ref.Script, places("<E>", stmtT, 2), unsupportedE),
			within("statements", ref.Script, sctx, unsupportedS),
			within("statements", ref.Module, sctx, unsupportedS),
			within("modules", ref.Module, append([]string{"|", "a ; |", "a\n|", "| ; a", "|\na", "import 'm' ; |"}, sctx...), unsupportedM),
			joined("a text before", ref.Script, append(flat(stmtT), "a", "a ,", "( a", "x = {"), both),
			joined("a text after", ref.Script, both, append(flat(stmtT), ") => a", "= a", "=> a", "in a", ": a", ". a", "`a`")),
			mutationSpace("scripts", ref.Script, both, allTokens),
			mutationSpace("modules", ref.Module, append(append([]string{}, unsupportedM...), unsupportedE...), fewTokens),
			mutationSpace("expressions", ref.Expression, unsupportedE, fewTokens),
			&Lex{N: "templates and chains", Mode: ref.Script, Alpha: words("a ?. . [ ] ( ) 1 ` ` ? : ="), Sep: " ", Depth: d(6, 7)},
			&Lex{N: "characters of templates", Mode: ref.Script, Alpha: append(chars("`a${}'/"), "\\", "\n"), Depth: d(6, 7)},
			&Lex{N: "characters of chains", Mode: ref.Script, Pre: "a", Alpha: chars("?.a1()[]:=`n"), Depth: d(6, 7)},
			&Lex{N: "numbers", Mode: ref.Script, Pre: "x=", Alpha: chars("01nxbo_.e9+a"), Depth: d(5, 6)},
			&Lex{N: "spread", Mode: ref.Script, Alpha: words("a [ ] { } ( ) , ... = => . :"), Sep: " ", Depth: d(6, 7)},
			&Lex{N: "class members", Mode: ref.Script, Pre: "class A { ", Suf: []string{" }"}, Alpha: words("a = ; static { } #a get constructor ( ) 'b' [ ] async *"), Sep: " ", Depth: d(5, 6)},
			&Lex{N: "class members with line breaks", Mode: ref.Script, Pre: "x = class { ", Suf: []string{" }"}, Alpha: append(words("a = ; static get async ( ) { } * [ ]"), "\n"), Sep: " ", Depth: d(5, 6)},
			&Lex{N: "generators", Mode: ref.Script, Alpha: words("function * yield ( ) { } a ; => , ="), Sep: " ", Depth: d(6, 7)},
			&Lex{N: "in generators", Mode: ref.Script, Pre: "! function * ( ) { ", Suf: []string{" }"}, Alpha: append(words("yield * a ( ) [ ] ; = => , let / var {"), "\n"), Sep: " ", Depth: d(5, 6)},
			&Lex{N: "in async functions", Mode: ref.Script, Pre: "! async function ( ) { ", Suf: []string{" }"}, Alpha: append(words("await a ( ) [ ] ; = => , let / for of async"), "\n"), Sep: " ", Depth: d(5, 6)},
			&Lex{N: "await in modules", Mode: ref.Module, Alpha: append(words("await a ( ) [ ] ; = => , let / for of async"), "\n"), Sep: " ", Depth: d(5, 6)},
			&Lex{N: "async", Mode: ref.Script, Alpha: append(words("async function * await ( ) { } a ; => , ="), "\n"), Sep: " ", Depth: d(6, 7)},
			&Lex{N: "for heads", Mode: ref.Script, Pre: "for ( ", Suf: []string{" ) a"}, Alpha: words("let const var a = in of ; , [ ] { }"), Sep: " ", Depth: d(5, 6)},
			&Lex{N: "modules", Mode: ref.Module, Alpha: words("import export ( ) . meta 'm' { } with * as from default a ;"), Sep: " ", Depth: d(5, 6)},
			&Lex{N: "characters of names", Mode: ref.Script, Pre: "a;", Alpha: append(chars("u061{}a:.#"), "\\"), Depth: d(6, 7)},
			&Lex{N: "super and new", Mode: ref.Script, Pre: "x = { m ( ) { ", Suf: []string{" } }"}, Alpha: words("super new . target ( ) [ a ] = ; => ` ?."), Sep: " ", Depth: d(5, 6)},
			&Lex{N: "with, debugger and functions", Mode: ref.Script, Alpha: words("with debugger ( a ) { } ; if else function f :"), Sep: " ", Depth: d(6, 7)},
			&Lex{N: "patterns", Mode: ref.Script, Pre: "( ", Suf: []string{" ) => a", " = a )"}, Alpha: words("{ } [ ] a 'b' 1 : , = ..."), Sep: " ", Depth: d(6, 7)},
			&Lex{N: "declared patterns", Mode: ref.Script, Pre: "var ", Suf: []string{" = a"}, Alpha: words("{ } [ ] a 'b' 1 : , = ..."), Sep: " ", Depth: d(6, 7)},
			&Lex{N: "call targets", Mode: ref.Script, Alpha: words("f ( ) = ++ [ ] { } . : , += of for in"), Sep: " ", Depth: d(6, 7)},
			pumps("long and deep programs", ref.Script, []int{1, 2, 3, 10, 100, 300}, "¦(¦`a`¦)¦", "¦a;¦`b`¦¦", "¦{¦debugger¦}¦", "¦[¦a?.b¦]¦", "a¦.b¦?.c¦¦", "`¦${`¦a¦`}¦`", "¦f(¦1n¦)¦", "¦!¦new.target¦¦", "¦a,¦[...b]¦¦", "¦a=>¦`b`¦¦", "`¦a¦¦¦`", "`¦\n¦¦¦`", "¦class A{m(){¦with(a)b¦}}¦", "¦if(a)¦for(let b;;);¦¦", "¦var a;¦with(a);¦¦"),
			codePoints("in templates", ref.Script, 0, d(0xFFFF, 0x10FFFF), "`\x01`"),
			codePoints("in private names", ref.Script, 0, d(0xFFFF, 0x10FFFF), "class A { #\x01 }"),
		}
		return s
	}})
}
