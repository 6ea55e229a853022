package main

import (
	"fmt"
	"strings"

	"verifmc/ref"
)

// --- C15 --------------------------------------------------------------------

// functionForms are all kinds of functions with a body hole.
var functionForms = lines(`
function f ( ) { @ }
( function ( ) { @ } )
( function f ( a ) { @ } )
( function * ( ) { @ } )
( async function ( ) { @ } )
( async function f ( ) { @ } )
( ) => { @ }
a => { @ }
( a , b ) => { @ }
async ( ) => { @ }
async a => { @ }
( { m ( ) { @ } } )
( { get p ( ) { @ } } )
( { set p ( a ) { @ } } )
( { async m ( ) { @ } } )
( { * m ( ) { @ } } )
( { p : function ( ) { @ } } )
class A { m ( ) { @ } }
class A { static m ( ) { @ } }
class A { constructor ( ) { @ } }
class A { get p ( ) { @ } }
class A { static set p ( a ) { @ } }
class A { async m ( ) { @ } }
( class { m ( ) { @ } } )
function f ( a = function ( ) { @ } ) { }
( a = function ( ) { @ } ) => 1
( { [ function ( ) { @ } ] : a } )
class A extends function ( ) { @ } { }
class A { [ function ( ) { @ } ] ( ) { } }
( a = async function ( ) { @ } ) => 1
`)

// probes are texts whose meaning depends on the enclosing function.
var probes = lines(`
return
return a ;
await ;
await a ;
yield ;
yield : a
var await ;
var let ;
var static ;
x = await
let
interface = 1
( await ) => 1
function await ( ) { }
break ;
this
`)

func nestFunctions(name string, depth int, before, inside, after []string) Space {
	nf := len(functionForms)
	n := len(before) * len(inside) * len(after)
	for i := 0; i < depth; i++ {
		n *= nf
	}
	return &Indexed{N: fmt.Sprintf("%s: %d-fold nestings of %d function forms with %d x %d x %d probes before, inside and after", name, depth, nf, len(before), len(inside), len(after)), Count: n, At: func(i int) Input {
		b := before[i%len(before)]
		i /= len(before)
		s := inside[i%len(inside)]
		i /= len(inside)
		a := after[i%len(after)]
		i /= len(after)
		for k := 0; k < depth; k++ {
			f := functionForms[i%nf]
			i /= nf
			if k > 0 && k == depth-1 {
				s = strings.Replace(f, "@", s+"\n"+a, 1)
			} else {
				s = strings.Replace(f, "@", s, 1)
			}
		}
		return Input{Mode: ref.Script, Src: b + "\n" + s + "\n" + a}
	}}
}

func init() {
	register(&Property{ID: "C15", Judge: judgeFull, Assumptions: []string{modelAssumption, "class fields, static blocks, private names, super, generator and async function declarations are not supported by the parser and left out here (C27 decides that they are refused)"}, Spaces: func(tier string) []Space {
		d := func(q, t int) int { return pick(tier, q, t) }
		members := lines(`
a
a : 1
a ( ) { }
get a ( ) { }
set a ( b ) { }
async a ( ) { }
* a ( ) { }
async * a ( ) { }
[ a ] : 1
[ a ] ( ) { }
get [ a ] ( ) { }
"a" : 1
"a" ( ) { }
get "a" ( ) { }
1 : 1
1 ( ) { }
set 1 ( b ) { }
get
get : 1
get ( ) { }
set ( b ) { }
async
async ( ) { }
async : a
get get ( ) { }
set set ( b ) { }
async async ( ) { }
async get ( ) { }
get async ( ) { }
static : 1
if : 1
get if ( ) { }
a : function ( ) { return }
a ( b , c = 1 , ... d ) { return b }
async a ( [ b ] ) { }
a : ( b ) => c
__proto__ : a
`)
		classMembers := lines(`
a ( ) { }
static a ( ) { }
get a ( ) { }
set a ( b ) { }
static get a ( ) { }
static set a ( b ) { }
async a ( ) { }
static async a ( ) { }
* a ( ) { }
static * a ( ) { }
async * a ( ) { }
[ a ] ( ) { }
static [ a ] ( ) { }
get [ a ] ( ) { }
static get [ a ] ( ) { }
"a" ( ) { }
static "a" ( ) { }
1 ( ) { }
get 1 ( ) { }
constructor ( ) { }
constructor ( a , b ) { return }
static constructor ( ) { }
get ( ) { }
set ( a ) { }
static ( ) { }
async ( ) { }
static static ( ) { }
static get ( ) { }
static set ( a ) { }
static async ( ) { }
get get ( ) { }
get static ( ) { }
set static ( a ) { }
async get ( ) { }
async static ( ) { }
if ( ) { }
static if ( ) { }
get if ( ) { }
;
; ;
a ( b , c = 1 , ... d ) { return b }
"constructor" ( ) { }
[ "constructor" ] ( ) { }
`)
		seq := func(name, pre, sep, post string, l []string, k int) Space {
			c := make([][]string, k)
			for i := range c {
				c[i] = l
			}
			p := product("", ref.Script, sep, c...).(*Indexed)
			return &Indexed{N: fmt.Sprintf("%s: all sequences of %d of %d members", name, k, len(l)), Count: p.Count, At: func(i int) Input {
				in := p.At(i)
				in.Src = pre + in.Src + post
				return in
			}}
		}
		s := []Space{
			everyTokenInMembers(), broken("\n", everyTokenInMembers()), deepForms(),
			&Lex{N: "object members", Mode: ref.Script, Pre: "( { ", Suf: []string{" } )"}, Alpha: words("a get set async * ( ) { } , : [ ] 1 = if"), Sep: " ", Depth: d(6, 7)},
			&Lex{N: "class members", Mode: ref.Script, Pre: "class A { ", Suf: []string{" }"}, Alpha: words("a get set async static * ( ) { } ; [ ] \"s\" = constructor"), Sep: " ", Depth: d(6, 7)},
			&Lex{N: "class members after static", Mode: ref.Script, Pre: "class A { static ", Suf: []string{" }"}, Alpha: words("a get set async static * ( ) { } ; [ ] \"s\" if"), Sep: " ", Depth: d(6, 7)},
			&Lex{N: "function heads", Mode: ref.Script, Pre: "! ", Suf: []string{"", " ;"}, Alpha: words("function async * f ( ) a , = ... { } => class extends"), Sep: " ", Depth: d(6, 8)},
			&Lex{N: "parameters", Mode: ref.Script, Pre: "function f ( ", Suf: []string{" ) { }"}, Alpha: words("a b , = ... [ ] { } : 1 ( )"), Sep: " ", Depth: d(6, 7)},
			&Lex{N: "class heads", Mode: ref.Script, Pre: "class ", Suf: []string{"", " { }"}, Alpha: words("A extends { } ( ) . b , m"), Sep: " ", Depth: d(7, 8)},
			seq("objects", "( { ", " , ", " } )", members, 2), seq("classes", "class A { ", " ", " }", classMembers, 2),
			seq("constructors", "class A { ", " ", " }", lines(`
constructor ( ) { }
constructor ( a ) { class B { constructor ( ) { } } }
constructor ( a = class { constructor ( ) { } } ) { }
"constructor" ( ) { }
"\x63onstructor" ( ) { }
[ "constructor" ] ( ) { }
static constructor ( ) { }
get constructor ( ) { }
set constructor ( a ) { }
async constructor ( ) { }
* constructor ( ) { }
static get constructor ( ) { }
static async * "constructor" ( ) { }
get "constructor" ( ) { }
m ( ) { return class { constructor ( ) { } } }
[ class { constructor ( ) { } } ] ( ) { }
constructors ( ) { }
;
`), 3),
			seq("class expressions", "x = class extends b { ", "\n", " }", classMembers, 2),
			seq("objects with members before", "x = { b , c : 1 , ", " , ", " , }", members, 2),
			seq("objects", "( { ", " , ", " , } )", members, d(2, 3)), seq("classes", "class A { ", " ", " }", classMembers, d(3, 3)),
			nestFunctions("functions", 1, append([]string{""}, probes...), append([]string{""}, probes...), append([]string{""}, probes...)),
			nestFunctions("functions", 2, []string{""}, append([]string{""}, probes...), append([]string{""}, probes...)),
			product("sequences of functions", ref.Script, "\n", replaceAll(functionForms, "@", ""), replaceAll(functionForms, "@", "b"), probes),
			pumps("very long functions and classes", ref.Script, longLadder, "function f(a¦,b§¦¦¦){}", "(a¦,b§=c§¦¦¦)=>d", "async(a¦,b§¦¦¦)=>d"),
			many("every member many times", ref.Script, members, []string{"( {¦@ ,¦a¦¦} )", "x = {¦@ ,\n¦¦¦}"}),
			many("every member many times", ref.Script, classMembers, []string{"class A {¦@\n¦¦¦}", "( class extends B {¦@ ;¦¦¦} )"}),
			many("every function many times", ref.Script, append(replaceAll(functionForms, "@", ""), replaceAll(functionForms, "@", "b")...), []string{"¦@\n¦¦¦", "function f ( ) {¦@\n¦¦¦}"}),
			pumps("very long bodies", ref.Script, midLadder, "({a¦,b§(c§){d§}¦¦¦})", "class A{¦b§(c§){d§}¦¦¦}", "class A{¦static get b§(){d§}¦¦¦}", "¦function f§(){}¦¦¦", "¦class A§{}¦¦¦"),
			pumps("long and deep functions and classes", ref.Script, append(upTo(d(40, 150)), ladder...),
				"({a:1¦,a:1¦¦¦});", "({a(){}¦,a(){}¦¦¦});", "class A{a(){}¦a(){}¦¦¦}", "class A{¦;¦¦¦}", "class A{¦static get a(){}¦¦¦}", "¦class A{m(){¦a¦}}¦", "¦({m(){¦a¦}})¦", "¦(function(){¦return¦})¦", "¦(async function(){¦return¦})¦", "¦({get a(){¦return¦}})¦", "¦({a:¦b¦})¦", "¦function f(){¦return a¦}¦",
				"function f(a¦,b=1¦¦¦){}", "({a¦,[a]:1¦¦¦});", "¦x = class extends ¦a¦ {}¦;", "¦(async()=>{¦var a¦})¦", "¦(async()=>{¦var a¦})¦;var await;"),
		}
		if tier == "thorough" {
			s = append(s, nestFunctions("functions", 3, []string{""}, probes[:10], []string{"", "return", "await ;", "var let ;", "yield ;"}))
		}
		return s
	}})
}

func replaceAll(l []string, old, new string) []string {
	r := make([]string, len(l))
	for i, s := range l {
		r[i] = strings.ReplaceAll(s, old, new)
	}
	return r
}

// --- C16 --------------------------------------------------------------------

func init() {
	register(&Property{ID: "C16", Judge: judgeImport, Assumptions: []string{modelAssumption}, Spaces: func(tier string) []Space {
		var clauses []string
		defaults := words("a from as async get default if let await")
		names := append([]string{}, words("a from as of get if default await")...)
		var specs []string
		for _, n := range names {
			specs = append(specs, n)
			for _, m := range names {
				specs = append(specs, n+" as "+m)
			}
		}
		for _, d := range defaults {
			clauses = append(clauses, d, "* as "+d)
			for _, e := range defaults {
				clauses = append(clauses, d+" , * as "+e, d+" , { "+e+" }")
			}
		}
		specifiers := []string{"\"m\"", "'m'", "\"\"", "'a\\'b'", "\"\\u0041/x.js\"", "'\\\n'", "\"\u2028\"", "\"\U0001F600\""}
		s := []Space{
			&Lex{N: "import", Mode: ref.Module, Pre: "import ", Alpha: words("a b * as from { } , \"m\" ; if"), Sep: " ", Depth: pick(tier, 8, 10)},
			&Lex{N: "import, without blanks", Mode: ref.Module, Pre: "import", Alpha: []string{" a", "*", " as ", " from", "{", "}", ",", "\"m\"", ";", "\n", "'n'"}, Depth: pick(tier, 7, 9)},
			&Lex{N: "named imports", Mode: ref.Module, Pre: "import { ", Suf: []string{" } from 'm'"}, Alpha: words("a as from default , if await * \"s\" }"), Sep: " ", Depth: pick(tier, 7, 8)},
			&Lex{N: "script", Mode: ref.Script, Alpha: words("import a * as from { } , \"m\" ;"), Sep: " ", Depth: pick(tier, 5, 6)},
			&Lex{N: "imports among statements", Mode: ref.Module, Alpha: append(words("{ } ; a if (a) function f ( ) =>"), "import 'm'", "import a from 'm'", "import {b} from 'm'", "import * as c from 'm'", "\n"), Sep: " ", Depth: pick(tier, 5, 6)},
			product("clauses and specifiers", ref.Module, " ", []string{"import"}, clauses, []string{"from"}, specifiers, []string{"", ";", "\n", "; a", "a", "; import 'x'", "with"}),
			product("pairs of named imports", ref.Module, " ", []string{"import {", "import d , {"}, specs, []string{","}, specs, []string{"} from \"m\"", ", } from \"m\" ;"}),
			product("single named imports", ref.Module, " ", []string{"import {", "import d , {"}, specs, []string{"}", ", }"}, []string{"from"}, specifiers),
			product("sequences of imports", ref.Module, " ", importForms, []string{"", ";", "\n"}, importForms, []string{"", ";", "\n"}, append(importForms, "a ;", "function f ( ) { }", "\"use strict\"")),
			mutationSpace("imports", ref.Module, importForms, append(append(allTokens[:len(allTokens):len(allTokens)], otherTokens...), "\"m\"", "\n", "\"\\8\"")),
			mutationSpace("imports in scripts", ref.Script, importForms, nil),
			pumps("very long imports", ref.Module, longLadder, "import {a¦,b§ as c§¦¦¦} from 'm';", "¦import 'm§';¦¦¦", "¦import a§,{b§} from 'm§';¦¦¦"),
			pumps("long imports", ref.Module, append(upTo(pick(tier, 60, 300)), ladder...), "import {a¦,b as c¦¦¦} from 'm';", "import {¦a,¦¦¦} from 'm';", "¦import 'm';¦¦¦", "¦import a from 'm'\n¦¦¦", "import d, {x¦,y¦¦¦} from 'm';", "import '¦m¦¦¦'"),
		}
		return s
	}})
}
