package main

import (
	"strings"

	"verifmc/ref"
)

// everyToken is every token of the language: each punctuator, each word and a
// literal of each kind.
var everyToken = append(words(binOps+" "+assignOps+` ? : => , ; ++ -- ! ~ . ... ( ) [ ] { } 1 "b" /b/`), allWords...)

// operations is one expression with each operator.
var operations = func() (r []string) {
	for _, o := range words(binOps + " " + assignOps + " , =>") {
		r = append(r, "a "+o+" b")
	}
	for _, o := range words("++ -- + - ~ ! typeof void delete new await") {
		r = append(r, o+" a")
	}
	return append(r, "a ++", "a --", "a ? b : c", "a . b", "a [ b ]", "a ( b )", "( a , b )", "a . b = c", "a [ b ] = c", "a . b ++", "-- a . b", "new a ( b )", "new a . b")
}()

// otherTokens are the tokens that allTokens has only a representative of.
var otherTokens = func() (r []string) {
	have := map[string]bool{}
	for _, t := range allTokens {
		have[t] = true
	}
	for _, t := range everyToken {
		if !have[t] {
			r = append(r, t)
		}
	}
	return
}()

// expressionPlaces are the places for an expression in every form, in every
// form that has a place for one, in every context and in every body.
func expressionPlaces() []string {
	r := append(places("<E>", stmtT, 2), places("<E>", exprT, 2)...)
	r = append(r, exprContexts...)
	r = append(r, strings.Repeat(" ", 30)+"|", strings.Repeat("\n", 3)+"|", strings.Repeat(" ", 300)+"( | )", strings.Repeat("\n", 300)+"x = |", strings.Repeat("\r\n\t", 70000)+"|")
	for _, b := range bodyPlaces() {
		r = append(r, b)
		for _, c := range exprContexts[1:9] {
			r = append(r, wrap(b, c))
		}
	}
	return append(r, deepPlaces("( | )", "[ | ]", "f ( | )", "x = |", "{ | }", "( a , | )", "a => { | }", "! function ( ) { | }", "if ( a ) |", "new ( | )", "( { p : | } )", "a [ | ]", "- |", "b ? c : |", "class A { m ( ) { | } }", "switch ( a ) { case b : | }", "do | while ( a )")...)
}

// deepPlaces repeats each place inside itself.
func deepPlaces(l ...string) (r []string) {
	for _, p := range l {
		q := "|"
		for i := 0; i < 20; i++ {
			q = wrap(q, p)
			if i == 3 || i == 8 || i == 15 || i == 19 {
				r = append(r, q)
			}
		}
	}
	return
}

var deepStatementPlaces = deepPlaces("{ | }", "( a => { | } )", "! function ( ) { | }", "function f ( ) { | }", "class A { m ( ) { | } }", "switch ( a ) { case b : | }", "try { | } finally { }", "( { m ( ) { | } } )", "if ( a ) { | } else b", "for ( ; ; ) { | }", "( function * ( ) { | } )", "( async ( ) => { | } )")

func everyOperation() Space {
	return distinct(within("every operation everywhere", ref.Script, expressionPlaces(), operations))
}

func deepForms() Space {
	return distinct(within("forms in deep places", ref.Script, append(deepStatementPlaces, deepPlaces("( | )", "[ | ]", "f ( | )", "x = |", "( { p : | } )", "a [ | ]", "- ( | )", "b ? c : |", "new ( | )")...), append(append(append([]string{}, flat(stmtT)...), flat(exprT)...), inAll([]string{"var | = z", "( | ) => z", "[ | ] = z", "try { } catch ( | ) { }"}, flat(bindT))...)))
}

func everyTokenIn(name string, templates string) Space {
	return distinct(within(name, ref.Script, lines(templates), append([]string{""}, everyToken...)))
}

func everyTokenInArrows() Space {
	return everyTokenIn("every token in and around arrow functions", `
a | => b
a => | b
a => b | c
a => b |
a => { } | c
a => { } |
a => | { }
a |
( | ) => b
( a | ) => b
( | a ) => b
( a | b ) => c
( a , | ) => b
( a , | b ) => c
( a , b ) | => c
( a ) => b | c
( a ) => { } | c
( a ) => { } |
( a ) | { }
( a = | ) => b
( a = b | c ) => d
( a = b | ) => d
( ... | a ) => b
( ... a | ) => b
( ... a | b ) => c
( ... | ) => b
( [ | ] ) => b
( [ a | ] ) => b
( [ a | b ] ) => c
( [ ... a | ] ) => c
( [ a = | b ] ) => c
( { | } ) => b
( { a | } ) => b
( { a | b } ) => c
( { a : | b } ) => c
( { a : b | c } ) => d
( { a : b | } ) => d
( { a = b | } ) => c
( { ... | a } ) => c
( { | a } ) => c
( { | : a } ) => c
( [ a ] | ) => b
( { a } | ) => b
( { a } | b ) => c
async | a => b
async a | => b
async | ( a ) => b
async ( | ) => b
async ( a | b ) => c
async ( a ) | => b
async ( a ) => b | c
async ( a ) => { } | c
async ( ... a | ) => b
async | 
async ( a ) | b
| a => b
| ( a ) => b
| ( a , b ) => c
a | b => c
a | ( b ) => c
( ( a | b ) ) => c
( a ) | b
( a , b ) | c
`)
}

func everyTokenInPatterns() Space {
	return everyTokenIn("every token in patterns", `
var [ | ] = z
var [ a | ] = z
var [ a | b ] = z
var [ | a ] = z
var [ , | , a ] = z
var [ a = | ] = z
var [ a = b | c ] = z
var [ a = b | , c ] = z
var [ ... | ] = z
var [ ... a | ] = z
var [ ... a | b ] = z
var [ [ a ] | ] = z
var [ { a } | ] = z
var [ a ] | z
var [ a ] | = z
var { | } = z
var { a | } = z
var { a | b } = z
var { | a } = z
var { a : | } = z
var { | : a } = z
var { a : b | } = z
var { a : b | c } = z
var { a = b | c } = z
var { a = | } = z
var { ... | } = z
var { ... a | } = z
var { a : [ b ] | } = z
var { a } | z
let [ a | b ] = z
let { a | b } = z
const [ a | b ] = z
const { a | b } = z
[ | ] = z
[ a | b ] = z
[ a | ] = z
[ a = b | c ] = z
[ ... a | ] = z
[ a ] | z
( { | } = z )
( { a | b } = z )
( { a : b | c } = z )
( { a = b | c } = z )
( { a : | } = z )
( { a } | z )
( { | : a } = z )
( [ a ] | z )
function f ( | ) { }
function f ( a | ) { }
function f ( a | b ) { }
function f ( a = b | c ) { }
function f ( ... a | ) { }
function f ( ... | ) { }
function f ( [ a | b ] ) { }
function f ( { a | b } ) { }
try { } catch ( | ) { }
try { } catch ( a | ) { }
try { } catch ( [ a | b ] ) { }
try { } catch ( { a | b } ) { }
for ( var [ a | b ] of c ) ;
for ( var [ a ] | b ) ;
for ( [ a | b ] of c ) ;
for ( { a | b } of c ) ;
for ( [ a ] | b ) ;
for ( { a } | b ) ;
`)
}

func everyTokenInMembers() Space {
	return everyTokenIn("every token in functions, classes and objects", `
class | { }
class A | { }
class A extends | { }
class A extends B | { }
class A extends B | C { }
class A { | }
class A { | a ( ) { } }
class A { a | ( ) { } }
class A { a ( | ) { } }
class A { a ( b | ) { } }
class A { a ( ) | { } }
class A { a ( ) { } | }
class A { a ( ) { } | b ( ) { } }
class A { | ( ) { } }
class A { static | ( ) { } }
class A { static | a ( ) { } }
class A { get | ( ) { } }
class A { get | a ( ) { } }
class A { get a | ( ) { } }
class A { set | ( a ) { } }
class A { set a ( | ) { } }
class A { set a ( b | ) { } }
class A { async | ( ) { } }
class A { async | a ( ) { } }
class A { * | ( ) { } }
class A { async * | ( ) { } }
class A { static get | ( ) { } }
class A { static async * | ( ) { } }
class A { static async | a ( ) { } }
class A { [ | ] ( ) { } }
class A { [ a | b ] ( ) { } }
class A { [ a ] | ( ) { } }
( class | { } )
( class A { | } )
( class A extends B | C { } )
class A { } | b
( class { } | b )
( { | } )
( { a | } )
( { a | b } )
( { | a } )
( { a : | } )
( { a : b | } )
( { a : b | c } )
( { a : b , | } )
( { a : b , | c } )
( { | : b } )
( { | ( ) { } } )
( { a | ( ) { } } )
( { a ( ) { } | } )
( { a ( ) { } | b } )
( { a ( ) | { } } )
( { get | ( ) { } } )
( { get | a ( ) { } } )
( { get a ( | ) { } } )
( { set | ( a ) { } } )
( { set a ( | ) { } } )
( { async | ( ) { } } )
( { async | a ( ) { } } )
( { * | ( ) { } } )
( { async * | ( ) { } } )
( { [ | ] : a } )
( { [ a ] | b } )
( { [ a ] | } )
( { [ a | b ] : c } )
( { get | } )
( { async | } )
( { | , a } )
( { a , | , b } )
( { a } | b )
function | ( ) { }
function f | ( ) { }
function f ( ) | { }
function f ( ) { | }
function f ( ) { return | }
function f ( ) { return a | b }
function f ( ) { } | a
( function | ( ) { } )
( function f | ( ) { } )
( function * | ( ) { } )
( async function | ( ) { } )
( async | ( ) { } )
( function ( ) { } | a )
! function ( ) { } | a
new class { } | a
`)
}
