package main

import (
	"fmt"
	"strings"

	"verifmc/ref"
)

// listed are the lists of up to n items in which all items but two are the
// filler: every pair of items at every pair of positions, and every single
// item at every position. The containers have an @ for the items, and what
// separates them after a tab.
func listed(name string, mode ref.Mode, containers []string, filler string, items []string, n int) Space {
	type shape struct{ k, i, j int }
	var shapes []shape
	for k := 1; k <= n; k++ {
		for i := 0; i < k; i++ {
			for j := i; j < k; j++ {
				shapes = append(shapes, shape{k, i, j})
			}
		}
	}
	m := len(items)
	return &Indexed{N: fmt.Sprintf("%s: lists of <= %d with all pairs of %d items in all positions, %d lists", name, n, m, len(containers)), Count: len(containers) * len(shapes) * m * m, At: func(i int) Input {
		a, b := items[i%m], items[i/m%m]
		i /= m * m
		c := containers[i%len(containers)]
		s := shapes[i/len(containers)]
		sep := " "
		if t := strings.IndexByte(c, '\t'); t >= 0 {
			c, sep = c[:t], c[t+1:]+" "
		}
		l := make([]string, s.k)
		for x := range l {
			switch x {
			case s.i:
				l[x] = a
			case s.j:
				l[x] = b
			default:
				l[x] = filler
			}
		}
		return Input{Mode: mode, Src: strings.Replace(c, "@", strings.Join(l, sep), 1)}
	}}
}

// longListed are the lists of more items, in which all items but one are the
// filler, with that one at every position, and those in which two items take
// turns. The fillers of a list differ.
func longListed(name string, mode ref.Mode, containers []string, filler string, items []string) Space {
	type shape struct{ k, i int }
	var shapes []shape
	for _, k := range []int{5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 20, 31, 32, 33, 34} {
		for i := 0; i < k; i++ {
			if k <= 12 || i < 3 || i > k-4 || i%8 < 2 {
				shapes = append(shapes, shape{k, i})
			}
		}
	}
	type turns struct{ k, i, j int }
	var alternate []turns
	for i := range items {
		for j := range items {
			for _, k := range []int{5, 8, 9} {
				if k == 5 || (i+j)%4 == 0 || i == j {
					alternate = append(alternate, turns{k, i, j})
				}
			}
		}
	}
	m := len(items)
	per := m*len(shapes) + len(alternate)
	return &Indexed{N: fmt.Sprintf("%s: longer lists with one of %d items at any position, or two taking turns, %d lists", name, m, len(containers)), Count: len(containers) * per, At: func(i int) Input {
		c := containers[i/per]
		i %= per
		sep := " "
		if t := strings.IndexByte(c, '\t'); t >= 0 {
			c, sep = c[:t], c[t+1:]+" "
		}
		var l []string
		if i < m*len(shapes) {
			s := shapes[i/m]
			for x := 0; x < s.k; x++ {
				if x == s.i {
					l = append(l, items[i%m])
				} else {
					l = append(l, strings.Replace(filler, "b", fmt.Sprintf("b%d", x), 1))
				}
			}
		} else {
			t := alternate[i-m*len(shapes)]
			for x := 0; x < t.k; x++ {
				l = append(l, items[[]int{t.i, t.j}[x%2]])
			}
		}
		return Input{Mode: mode, Src: strings.Replace(c, "@", strings.Join(l, sep), 1)}
	}}
}

// withLong are lists and the longer ones.
func withLong(name string, mode ref.Mode, containers []string, filler string, items []string, n int) []Space {
	return []Space{listed(name, mode, containers, filler, items, n), longListed(name, mode, containers, filler, items)}
}

func concat(l ...[]Space) []Space {
	var r []Space
	for _, x := range l {
		r = append(r, x...)
	}
	return r
}

// moreSpaces are the spaces of lists of a property.
func moreSpaces(id, tier string) []Space {
	return append(unitSpaces(id, tier), listSpaces(id, tier)...)
}

// unitSpaces are all sequences of phrases of a few tokens each.
func unitSpaces(id, tier string) []Space {
	d := func(q, t int) int { return pick(tier, q, t) }
	unit := func(name, pre, suf, units string, depth int) Space {
		return &Lex{N: name, Mode: ref.Script, Pre: pre, Suf: []string{suf}, Alpha: lines(units), Sep: " ", Depth: depth}
	}
	cases := "case b :\ndefault :\n;\nc ;\n{ }\nbreak ;\nif ( d ) ;"
	statements := "a ;\n;\n{ }\nvar b ;\nif ( c )\nelse\ndo\nwhile ( d )\nfor ( ; ; )\nfor ( e in f )\ntry { }\ncatch { }\nfinally { }\nL :\nfunction f ( ) { }\nclass A { }\nlet g = h"
	members := "a ( ) { }\nstatic\nget\nset\nasync\n*\n;\nconstructor ( ) { }\n\"b\" ( c ) { }\n[ d ] ( ) { }\n1 ( e , ... f ) { }"
	props := "a\na = 1\nb : c\n[ d ] : e\nf ( ) { }\nget\nset\nasync\n*\n,\n\"g\" : { }"
	pattern := "x\nx = 1\np : y\np : [ z ]\np : { z } = 2\n... r\n,"
	elems := "x\nx = 1\n[ y ]\n{ z } = 2\n... r\n... [ r ]\n,"
	heads := "a\nb = 1\n{ c }\n[ d ]\n... e\n,\n( f )\ng => h\n{ i = 1 }\nj . k\n{ l : m = n }"
	switch id {
	case "C03":
		return []Space{
			unit("cases and statements", "switch ( a ) {", "}", cases, d(6, 7)),
			unit("statements as phrases", "", "", statements, d(4, 5)),
			unit("statements as phrases in a function", "function f ( ) { ", " }", statements+"\nreturn\nreturn a ;", d(3, 4)),
			unit("for heads", "for (", ") ;", "a\n;\n,\nvar\nb\n= c\nin\nof\n[ d ]\n{ e }", d(5, 6)),
			unit("declarators", "", "", "var\nlet\nconst\na\n= b\n,\n[ c ]\n{ d }\n;", d(5, 6)),
		}
	case "C04":
		return []Space{
			unit("cases and statements", "switch ( a ) {", "}", cases, d(5, 6)),
			unit("statements as phrases", "", "", statements, d(4, 5)),
			unit("members as phrases", "class A {", "}", members, d(4, 5)),
			unit("properties as phrases", "( {", "} )", props, d(4, 6)),
			unit("properties of patterns as phrases", "var {", "} = a", pattern, d(5, 6)),
			unit("elements of patterns as phrases", "let [", "] = a", elems, d(5, 6)),
			unit("heads as phrases", "(", ") => a", heads, d(4, 5)),
			unit("expressions as phrases", "(", ")", heads, d(4, 5)),
		}
	case "C13":
		return []Space{
			unit("properties as phrases", "var {", "} = a", pattern, d(5, 7)),
			unit("properties as phrases, parameter", "( {", "} ) => a", pattern, d(5, 7)),
			unit("elements as phrases", "let [", "] = a", elems, d(5, 7)),
			unit("elements as phrases, target", "( [", "] = a )", elems, d(5, 7)),
			unit("elements as phrases, parameter", "( [", "] ) => a", elems, d(5, 7)),
			unit("parameters as phrases", "function f (", ") { }", elems, d(5, 7)),
		}
	case "C14":
		return []Space{
			unit("heads as phrases", "(", ") => a", heads, d(5, 6)),
			unit("expressions as phrases", "x = (", ")", heads, d(5, 6)),
			unit("async heads as phrases", "async (", ") => a", heads, d(4, 5)),
			unit("arguments as phrases", "f (", ")", heads, d(4, 5)),
		}
	case "C15":
		return []Space{
			unit("members as phrases", "class A {", "}", members, d(5, 6)),
			unit("members as phrases, expression", "x = class {", "}", members, d(4, 5)),
			unit("properties as phrases", "( {", "} )", props, d(5, 6)),
		}
	}
	return nil
}

func listSpaces(id, tier string) []Space {
	n := pick(tier, 4, 7)
	switch id {
	case "C02":
		return expressionLists(n)
	case "C03":
		return statementSequences(n)
	case "C04", "C17", "C18":
		n = pick(tier, 3, 5)
		var r []Space
		for _, l := range [][]Space{expressionLists(n), statementSequences(n), patternLists(n)[:4], memberSequences(n)[:2], importedLists(n)} {
			r = append(r, l...)
		}
		return r
	case "C13", "C14":
		return patternLists(n)
	case "C15":
		return memberSequences(n)
	case "C16":
		return importedLists(n)
	case "C25":
		return statementSequences(n)[:4]
	}
	return nil
}

// expressionLists, statementSequences, patternLists, memberSequences and
// importedLists are spaces of lists.
func expressionLists(n int) []Space {
	return concat(
		withLong("items", ref.Script, commaLists, "b", commaItems, n),
		withLong("properties", ref.Expression, propertyLists, "b", propertyItems, n),
		withLong("operands", ref.Script, operandLists, "b", operandItems, n),
	)
}

func statementSequences(n int) []Space {
	return concat(
		withLong("statements", ref.Script, statementLists, "b ;", statementItems, n),
		withLong("module items", ref.Module, statementLists[:2], "b ;", statementItems, n),
		withLong("cases", ref.Script, caseLists, "case b : b", caseItems, n),
		withLong("declarators", ref.Script, declaratorLists, "b = b", declaratorItems, n),
	)
}

func patternLists(n int) []Space {
	return concat(
		withLong("bindings", ref.Script, bindingLists, "b", bindingItems, n),
		withLong("properties of patterns", ref.Script, bindingPropertyLists, "b", bindingPropertyItems, n),
		withLong("properties of possible patterns", ref.Expression, propertyLists, "b", propertyItems, n),
		withLong("items of possible patterns", ref.Script, commaLists, "b", commaItems, n),
	)
}

func memberSequences(n int) []Space {
	return concat(
		withLong("members", ref.Script, memberLists, "b ( ) { }", memberItems, n),
		withLong("properties", ref.Expression, propertyLists, "b", propertyItems, n),
	)
}

func importedLists(n int) []Space {
	return withLong("imports", ref.Module, importLists, "b", importItems, n)
}

// commaLists are the lists of expressions.
var commaLists = lines(`
[ @ ]	 ,
f ( @ )	 ,
new f ( @ )	 ,
( @ )	 ,
x = ( @ )	 ,
async ( @ )	 ,
x [ @ ]	 ,
x ? y : ( @ )	 ,
( @ ) => 1	 ,
async ( @ ) => 1	 ,
[ @ ] = x	 ,
( [ @ ] ) => x	 ,
f ( ) ( @ ) . p	 ,
( { p : [ @ ] } )	 ,
( { [ ( @ ) ] : 1 } )	 ,
`)

var commaItems = lines(`
a
1
"s"
/r/
c = 1
c . d
c ( d )
( c )
( c , d )
[ c ]
[ c = 1 ]
[ , c ]
{ }
{ c }
{ c : d }
{ c : d = 1 }
{ c ( ) { } }
c => d
( c ) => d
( ) => { }
async c => d
function ( ) { }
class { }
c ? d : e
c + d
c ++
! c
new c
... c
... [ c ]
{ c = 1 }
[ ... c ]
{ ... c }
async
let
yield
`)
var propertyItems = lines(`
c
c : d
c : d = 1
c = 1
"s" : c
1 : c
[ c ] : d
c ( ) { }
"s" ( ) { }
[ c ] ( ) { }
* c ( ) { }
async c ( ) { }
async * c ( ) { }
get c ( ) { }
set c ( d ) { }
get : c
set ( ) { }
async
async : c
if : c
c : { d }
c : { d = 1 }
c : [ d ]
c : [ ... d ]
c : ( d )
c : d . e
c : d => e
c : function ( ) { }
... c
get
`)

var propertyLists = lines(`
( { @ } )	 ,
x = { @ }	 ,
f ( { @ } )	 ,
[ { @ } ]	 ,
( { p : { @ } } )	 ,
( { @ } = x )	 ,
( { @ } ) => x	 ,
async ( { @ } ) => x	 ,
( { @ , } )	 ,
for ( { @ } of x ) ;	 ,
for ( { @ } in x ) ;	 ,
`)

var bindingItems = lines(`
c
c = 1
c = d , e
[ c ]
[ c ] = d
[ c = 1 , d ]
[ , c ]
[ ... c ]
{ c }
{ c } = d
{ c = 1 }
{ c : d }
{ c : d = 1 }
{ c : [ d ] }
{ ... c }
{ }
[ ]
let
yield
async
... c
`)

var bindingLists = lines(`
var [ @ ] = x	 ,
let [ @ ] = x	 ,
const [ @ ] = x	 ,
var @	 ,
let @	 ,
const @	 ,
var { p : [ @ ] } = x	 ,
function f ( @ ) { }	 ,
( @ ) => x	 ,
async ( @ ) => x	 ,
( [ @ ] ) => x	 ,
[ @ ] = x	 ,
x = function ( @ ) { }	 ,
( { m ( @ ) { } } )	 ,
class A { m ( @ ) { } }	 ,
for ( var [ @ ] of x ) ;	 ,
for ( var @ ; ; ) ;	 ,
try { } catch ( [ @ ] ) { }	 ,
`)

var bindingPropertyItems = lines(`
c
c = 1
c : d
c : d = 1
c : [ d ]
c : [ d ] = 1
c : { d }
c : { d = 1 }
c : { d } = 1
if : c
let
async : c
get = 1
... c
set
`)

var bindingPropertyLists = lines(`
var { @ } = x	 ,
let { @ } = x	 ,
const { @ , } = x	 ,
function f ( { @ } ) { }	 ,
( { @ } ) => x	 ,
async ( { @ } ) => x	 ,
( { @ } = x )	 ,
( { m ( { @ } ) { } } )	 ,
var [ { @ } ] = x	 ,
var { p : { @ } } = x	 ,
for ( var { @ } in x ) ;	 ,
try { } catch ( { @ } ) { }	 ,
`)

var memberItems = lines(`
c ( ) { }
c ( d , e = 1 ) { f }
constructor ( ) { }
"constructor" ( ) { }
static constructor ( ) { }
get c ( ) { }
set c ( d ) { }
get ( ) { }
set ( ) { }
static ( ) { }
async ( ) { }
static c ( ) { }
static get c ( ) { }
static set c ( d ) { }
static async c ( ) { }
static async * c ( ) { }
static * c ( ) { }
async c ( ) { }
async * c ( ) { }
* c ( ) { }
* [ c ] ( ) { }
[ c ] ( ) { }
"s" ( ) { }
1 ( ) { }
if ( ) { }
static static ( ) { }
get get ( ) { }
async async ( ) { }
;
; ;
prototype ( ) { }
get constructor ( ) { }
c ( ... d ) { return }
c ( ) { return class { d ( ) { } } }
`)

var memberLists = lines(`
class A { @ }
class A extends b { @ }
( class { @ } )
x = class extends ( b ) { @ }
`)

var importItems = lines(`
c
c as d
if as d
as
as as as
from
from as c
default as c
get
let as c
yield as c
c as of
c as let
`)

var importLists = lines(`
import { @ } from "m"	 ,
import { @ , } from "m"	 ,
import a , { @ } from "m"	 ,
import { } from "m" ; import { @ } from "n"	 ,
`)

var statementItems = lines(`
c ;
c = d ;
;
{ c }
{ }
var c ;
var c = 1 , d ;
let c ;
const c = 1 ;
if ( c ) d ;
if ( c ) d ; else e ;
while ( c ) d ;
do c ; while ( d )
do c ; while ( d ) ;
for ( ; ; ) c ;
for ( var c of d ) e ;
for ( c in d ) e ;
c : d ;
switch ( c ) { case d : }
switch ( c ) { default : d ; case e : }
try { } catch { }
try { c } catch ( d ) { e } finally { f }
throw c ;
break ;
continue c ;
return c ;
function c ( ) { d }
class c { }
class c extends d { e ( ) { } }
"use strict" ;
"s" ;
c => d ;
async c => d ;
( c ) ;
[ c ] ;
/r/ ;
+ c ;
let ;
async ;
yield ;
var package ;
var let ;
010 ;
delete c ;
import "c" ;
import c from "d" ;
import { c as d } from "e" ;
`)

var statementLists = lines(`
@
{ @ }
function f ( ) { @ }
x = function ( ) { @ }
( ) => { @ }
( { m ( ) { @ } } )
class A { m ( ) { @ } }
switch ( x ) { case 1 : @ }
switch ( x ) { default : @ case 1 : y }
switch ( x ) { case 1 : y default : @ }
try { @ } catch ( y ) { }
try { } catch { @ }
try { } finally { @ }
if ( x ) { @ } else { }
`)

var caseItems = lines(`
case c :
case c : d ;
case c , d : e ; f
default :
default : c ;
case { } :
case c ? d : e :
case c => d :
default : { }
case c : switch ( d ) { default : e }
case "s" : break ;
case function ( ) { } :
`)

var caseLists = lines(`
switch ( x ) { @ }
function f ( ) { switch ( x ) { @ } y }
if ( x ) switch ( y ) { @ } else z
`)

var declaratorItems = lines(`
c
c = 1
c = d => e
c = d ? e : f
c = ( d , e )
[ c ] = d
{ c } = d
{ c : d = 1 } = e
[ c = 1 , ... d ] = e
[ c ]
{ c }
let
async
c = function ( ) { }
c = { d }
c = d in e
`)

var declaratorLists = lines(`
var @ ;	 ,
let @ ;	 ,
const @ ;	 ,
var @	 ,
for ( var @ ; ; ) ;	 ,
for ( var @ of x ) ;	 ,
for ( var @ in x ) ;	 ,
{ let @ }	 ,
function f ( ) { const @ }	 ,
`)

var operandItems = lines(`
a
1
- a
a ++
! a
typeof a
a . b
a ( )
new a
( a , b )
[ a ]
( { } )
/r/
"s"
a => b
function ( ) { }
a ** b
a = b
a ? b : c
delete a . b
`)

var operandLists = lines(`
@	 +
@	 -
@	 *
@	 **
@	 /
@	 %
@	 <<
@	 >>>
@	 <
@	 in
@	 instanceof
@	 ==
@	 !==
@	 &
@	 ^
@	 |
@	 &&
@	 ||
@	 ??
@	 =
@	 +=
@	 ,
@	 ?
x ? @	 :
x ( @ )	 ) (
x [ @ ]	 ] [
`)
