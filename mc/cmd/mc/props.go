package main

import (
	"fmt"
	"os"
	"strings"

	"verifmc/ref"
)

var properties []*Property

func findProperty(id string) *Property {
	for _, p := range properties {
		if p.ID == id {
			return p
		}
	}
	fmt.Fprintln(os.Stderr, "no such property:", id)
	os.Exit(3)
	return nil
}

func words(s string) []string { return strings.Fields(s) }

func register(p *Property) { properties = append(properties, p) }

// pick chooses a bound by tier.
func pick[T any](tier string, quick, thorough T) T {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

var modelAssumption = "the reference model (mc/ref) transcribes ECMA-262 correctly; it was compared with acorn during development (tools/acorn)"

const (
	binOps    = "** * / % + - << >> >>> < > <= >= instanceof in == != === !== & ^ | && || ??"
	assignOps = "= += -= *= /= %= **= <<= >>= >>>= &= ^= |= &&= ||= ??="
)

// --- C02 --------------------------------------------------------------------

func init() {
	register(&Property{ID: "C02", Judge: judgeFull, Assumptions: []string{modelAssumption}, Spaces: func(tier string) []Space {
		all := words(binOps + " " + assignOps + " ? : , =>")
		inf := words(binOps + " = += ??= ? : ,")
		pre := words("_ ++ -- + - ~ ! typeof void delete new")
		pre[0] = ""
		post := []string{"", "++", "--", ". p", "[ q ]", "( )", "( r )", ". p ( )", "( ) . p", "[ q ] ++", "\n++", "++ ++"}
		chain := func(n int, ops []string, operands ...string) Space {
			c := [][]string{{operands[0]}}
			for i := 0; i < n; i++ {
				c = append(c, ops, []string{operands[(i+1)%len(operands)]})
			}
			return product(fmt.Sprintf("chains of %d of %d infix operators", n, len(ops)), ref.Script, " ", c...)
		}
		s := []Space{
			&Lex{N: "mixed", Mode: ref.Script, Alpha: words("a 1 + * ** = ? : ( ) , . [ ] ++ ! new in"), Sep: " ", Depth: pick(tier, 6, 7), Distinct: true},
			&Lex{N: "member, call and new", Mode: ref.Script, Alpha: words("a new . p [ ] ( ) , ..."), Sep: " ", Depth: pick(tier, 8, 10), Distinct: true},
			&Lex{N: "unary and update", Mode: ref.Script, Alpha: words("a ( ) ++ -- - ! typeof delete ** . p"), Sep: " ", Depth: pick(tier, 6, 8), Distinct: true},
			&Lex{N: "conditional, assignment and comma", Mode: ref.Script, Alpha: words("a b ? : = += , ( ) || ?? =>"), Sep: " ", Depth: pick(tier, 7, 9), Distinct: true},
			&Lex{N: "expression mode", Mode: ref.Expression, Alpha: words("a 1 + ** = ? : ( ) , . [ ] ++ - new"), Sep: " ", Depth: pick(tier, 6, 7)},
			&Lex{N: "for head without in", Mode: ref.Script, Pre: "for ( ", Suf: []string{"; ; ) ;", ") ;"}, Alpha: words("a in ( ) [ ] ? : = , + var of"), Sep: " ", Depth: pick(tier, 6, 7), Distinct: true},
			chain(1, all, "a", "b"), chain(2, all, "a", "b", "c"), chain(3, all, "a", "b", "c", "d"),
			chain(2, all, "( a )", "- b", "c ( )"),
			product("prefix operators, operand, suffixes and infix operators", ref.Script, " ",
				pre, pre, []string{"a", "( a )", "1", "this", "[ ]", "function ( ) { }"}, post, words(", + ** = ? * in ( ["), []string{"b", "b : c"}),
			product("suffix chains", ref.Script, " ", []string{"", "new", "- ", "++", "new new"}, []string{"a"}, post, post, post, []string{"", "+ b", "= b"}),
			distinct(nestSpace("expressions", exprT, 2, ref.Script, exprContexts...)),
			distinct(nestSpace("expressions in bodies", exprT, 2, ref.Script, upToN(bodyPlaces(), pick(tier, 20, 100))...)),
			distinct(nestSpace("expressions in all bodies", exprT, 1, ref.Script, bodyPlaces()...)),
			nestSpace("expressions", exprT, 2, ref.Expression, "|", "( | )", "[ | ]"),
			distinct(nestSpace("expressions", exprT, 3, ref.Script)),
			distinct(pairSpace("expressions", ref.Script, exprT)),
			pumps("long expressions", ref.Script, append(upTo(pick(tier, 40, 200)), ladder...),
				"a¦ + b¦¦¦;", "a¦ ** b¦¦¦;", "a¦ = a¦¦¦;", "a¦ , b¦¦¦;", "a¦ ? b : c¦¦¦;", "a¦ ? b¦¦ : c¦;", "a¦ || b && c¦¦¦;", "a¦ ?? b¦¦¦;",
				"a¦ + b§¦¦¦;", "f(a¦, b§¦¦¦)", "a¦ ? b§¦¦ : c§¦;", "¦f§(¦a¦,b§)¦", "[a¦,,b§¦¦¦]", "({a¦,b§:c§¦¦¦})", "a¦ || b§ && c§¦¦¦;", "a¦[b§](c§).d§¦¦¦;", "¦(¦a¦)¦;", "¦[¦a¦]¦;", "a¦.p¦¦¦;", "a¦[b¦¦]¦;", "a¦(¦b¦)¦;", "a¦(b)¦¦¦;", "¦new ¦a¦()¦;", "¦- ¦a¦¦;", "¦typeof ¦a¦¦;", "a(b¦, c¦¦¦);", "[b¦, c¦¦¦];", "[b¦,¦¦¦];",
				"a(b¦, ...c¦¦¦);", "a¦ - b * c¦¦¦;", "a¦ < b == c¦¦¦;", "a¦ += b¦¦¦;"),
			pumps("very long lists", ref.Script, longLadder, "a¦,b§¦¦¦;", "f(a¦,b§¦¦¦)", "new f(a¦,...b§¦¦¦)", "[a¦,b§¦¦¦]", "[a¦,,b§¦¦¦]", "({a¦,b§:c§¦¦¦})"),
			many("every expression many times", ref.Script, flat(exprT), []string{"¦@ ;\n¦¦¦", "[¦@ ,¦¦¦]", "f(¦@ ,¦a¦¦)"}),
			everyOperation(), deepForms(),
			pumps("very long chains", ref.Script, longLadder, "a¦ + b§¦¦¦;", "a¦.b§¦¦¦;", "a¦(b§)¦¦¦;", "a¦[b§]¦¦¦;"),
		}
		if tier == "thorough" {
			s = append(s,
				chain(4, inf, "a", "b", "c", "d", "e"),
				distinct(nestSpace("expressions", exprT, 3, ref.Script, exprContexts[1:]...)),
				nestSpace("expressions", exprT, 3, ref.Expression))
		}
		return s
	}})
}

// --- C03 --------------------------------------------------------------------

func init() {
	register(&Property{ID: "C03", Judge: judgeFull, Assumptions: []string{modelAssumption}, Spaces: func(tier string) []Space {
		fn := "function f ( ) { "
		script, _ := programs()
		d := func(q, t int) int { return pick(tier, q, t) }
		s := []Space{
			&Lex{N: "blocks, if, loops", Mode: ref.Script, Alpha: words("a ; { } ( ) if else while do for in"), Sep: " ", Depth: d(8, 9), Distinct: true},
			&Lex{N: "for heads", Mode: ref.Script, Pre: "for ", Alpha: words("( ) ; a var = , in of ++ { } [ ]"), Sep: " ", Depth: d(8, 9), Distinct: true},
			&Lex{N: "for heads with let", Mode: ref.Script, Pre: "for ( ", Suf: []string{" ) ;", " ; ; ) ;"}, Alpha: words("let of in ; , = . [ ] ( ) x async"), Sep: " ", Depth: d(6, 7), Distinct: true},
			&Lex{N: "for heads with let, strict", Mode: ref.Script, Pre: "'use strict' ; for ( ", Suf: []string{" ) ;"}, Alpha: words("let of in ; , = . [ ] ( ) x async"), Sep: " ", Depth: d(4, 5)},
			&Lex{N: "declarations", Mode: ref.Script, Alpha: words("var let const a b = , ; [ ] { } : 1"), Sep: " ", Depth: d(6, 8), Distinct: true},
			&Lex{N: "switch", Mode: ref.Script, Pre: "switch ( a ) ", Alpha: words("{ } case default : b ; break"), Sep: " ", Depth: d(8, 10), Distinct: true},
			&Lex{N: "try", Mode: ref.Script, Pre: "try ", Alpha: words("{ } catch ( e ) finally ; a try"), Sep: " ", Depth: d(9, 11), Distinct: true},
			&Lex{N: "jumps and labels", Mode: ref.Script, Alpha: words("a : break continue throw return ; while ( ) { }"), Sep: " ", Depth: d(6, 8), Distinct: true},
			&Lex{N: "jumps and labels in functions", Mode: ref.Script, Pre: fn, Suf: []string{" }"}, Alpha: words("a : break continue throw return ; while ( ) { }"), Sep: " ", Depth: d(6, 7), Distinct: true},
			&Lex{N: "functions and classes", Mode: ref.Script, Alpha: words("function f ( ) { } a , ; class A extends async return"), Sep: " ", Depth: d(7, 8), Distinct: true},
			distinct(nestSpace("statements", stmtT, 2, ref.Script, stmtContexts...)),
			distinct(nestSpace("statements in all bodies", stmtT, 2, ref.Script, bodyPlaces()...)),
			inContexts("strings at the start of bodies", ref.Script, append([]string{"|"}, bodyPlaces()...), triples(directiveLike, " ")),
			product("strings at the start of modules", ref.Module, " ", directiveLike, directiveLike, directiveLike),
			nestSpace("statements", stmtT, 2, ref.Module),
			distinct(nestSpace("statements", stmtT, 3, ref.Script)),
			distinct(pairSpace("statements", ref.Script, stmtT)),
			distinct(joined("a nested statement before a flat one", ref.Script, newNest(stmtT, 2).all(), statementTexts())),
			distinct(joined("a flat statement before a nested one", ref.Script, statementTexts(), newNest(stmtT, 2).all())),
			distinct(joined("three flat statements", ref.Script, flat(stmtT), flat(stmtT), flat(stmtT))),
			mutationSpace("forms, every token", ref.Script, script, otherTokens), deepForms(),
			pumps("long statements", ref.Script, append(upTo(d(40, 200)), ladder...),
				"¦{¦a¦}¦", "¦a;¦¦¦", "¦;¦¦¦", "¦{}¦¦¦", "¦if(a)¦b;¦else c;¦", "¦if(a)¦b¦¦", "¦while(a)¦b¦¦", "¦do ¦b;¦ while(a);¦", "¦for(;;)¦b¦¦", "¦for(var x in a)¦b¦¦",
				"¦l:¦b¦¦", "var a¦,b=1¦¦¦;", "let a=1¦,b¦¦¦;", "switch(a){¦case b:c;¦¦¦}", "switch(a){case b:¦c;¦¦¦}", "switch(a){case b:¦default:;¦¦¦}", "¦switch(a){case b:¦c;¦}¦",
				"¦try{¦a¦}catch(e){b}¦", "¦try{¦a¦}finally{b}¦", "¦try{}finally{¦a¦}¦", "¦try{a}catch{b}¦¦¦", "¦function f(){¦return a¦}¦", "¦function f(){}¦¦¦", "function f(){¦a;¦¦¦}", "function f(a¦,b¦¦¦){}",
				"switch(a){¦case b§:c§;d§;¦¦¦}", "switch(a){¦case b§:c§;¦default:x;y;¦case d§:e§;f§;¦}", "¦if(a§)b§;else ¦c¦¦", "¦a§;¦¦¦", "¦try{a§}catch(b§){c§}finally{d§}¦¦¦", "¦function f§(a§,b§){c§;d§}¦¦¦", "¦for(var a§=b§,c§;d§;e§)f§;¦¦¦", "var ¦a§=b§,¦c¦¦", "¦{a§;¦b¦;c§}¦", "¦class A§ extends b§{m§(a§){c§}n§(){}}¦¦¦", "¦class A{}¦¦¦", "class A{¦m(){}¦¦¦}", "¦class A{m(){¦a¦}}¦", "for(a¦,b¦¦¦;;);", "for(var a¦,b=1¦¦¦;;);", "\"use strict\";¦\"a\";¦¦¦", "¦throw a;¦¦¦", "function f(){¦return;¦¦¦}"),
			many("every statement many times", ref.Script, statementTexts(), []string{"¦@\n¦¦¦", "function f ( ) {¦@\n¦¦¦}"}),
			many("every statement many times", ref.Module, flat(stmtT), []string{"¦@\n¦¦¦"}),
			pumps("very long lists", ref.Script, longLadder, "¦a§;¦¦¦", "¦a§\n¦¦¦", "{¦a§;¦¦¦}", "function f(){¦a§;¦¦¦}", "var ¦a§=b,¦c¦¦", "switch(a){¦case b§:c§;¦¦¦}", "switch(a){default:¦c§;¦¦¦}", "¦var a§;¦¦¦", "¦;¦¦¦", "¦if(a§)b§;else c§;¦¦¦"),
		}
		if tier == "thorough" {
			s = append(s,
				distinct(joined("three flat statements or expressions", ref.Script, statementTexts(), statementTexts(), statementTexts())),
				nestSpace("statements in functions", stmtT, 3, ref.Script, "function f ( ) { | }"))
		}
		return s
	}})
}

// instances fills the first statement or expression hole of templates with the
// given templates, and the others with leaves.
func instances(fam, fill []*template) []string {
	var r []string
	for _, t := range fam {
		r = append(r, t.fill(-1, ""))
		if len(t.holes) > 0 && t.holes[0] == "<E>" {
			for _, f := range fill {
				r = append(r, t.fill(0, f.fill(-1, "")))
			}
		}
	}
	return r
}

func flat(fam []*template) []string { return instances(fam, nil) }

// programs are all statement forms, expression forms as statements, binding
// forms in their contexts and import declarations.
func programs() (script, module []string) {
	for _, s := range flat(stmtT) {
		script = append(script, s, "function f ( ) { "+s+" }")
	}
	for _, e := range flat(exprT) {
		script = append(script, e+" ;", "( async function ( ) { "+e+" } )")
	}
	for _, b := range flat(bindT) {
		for _, c := range bindContexts {
			script = append(script, wrap(c, b))
		}
	}
	return script, importForms
}

var bindContexts = []string{
	"var | = a ;", "let | = a ;", "const | = a ;", "var y , | = a ;", "for ( var | of a ) ;", "for ( var | in a ) ;", "for ( var | = a ; ; ) ;",
	"function f ( | ) { }", "function f ( a , | ) { }", "function f ( | = a ) { }", "! function ( | ) { }", "( async function ( | ) { } )",
	"( | ) => a", "( a , | ) => a", "( | = a ) => { }", "async ( | ) => a", "async ( a , | = a ) => { }",
	"try { } catch ( | ) { }", "( { m ( | ) { } } )", "( { async m ( a , | ) { } } )", "( { set p ( | ) { } } )", "class A { m ( | ) { } }", "class A { static set p ( | = a ) { } }", "class A { constructor ( | , b ) { } }",
}

// --- C04 --------------------------------------------------------------------

func init() {
	register(&Property{ID: "C04", Judge: judgeReject, Assumptions: []string{modelAssumption}, Spaces: func(tier string) []Space {
		d := func(q, t int) int { return pick(tier, q, t) }
		script, module := programs()
		var deep []string
		for _, n := range []*nest{newNest(stmtT, 2), newNest(exprT, 2)} {
			for i := 0; i < n.total; i++ {
				deep = append(deep, n.at(i))
			}
		}
		s := []Space{
			&Lex{N: "all tokens, script", Mode: ref.Script, Alpha: allTokens, Sep: " ", Depth: d(4, 5)},
			&Lex{N: "all tokens, module", Mode: ref.Module, Alpha: allTokens, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "all tokens, expression", Mode: ref.Expression, Alpha: allTokens, Sep: " ", Depth: d(4, 5)},
			&Lex{N: "all tokens in a function", Mode: ref.Script, Pre: "function f ( ) { ", Suf: []string{" }"}, Alpha: allTokens, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "all tokens in an object literal", Mode: ref.Script, Pre: "( { ", Suf: []string{" } )", " } ) => a"}, Alpha: allTokens, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "all tokens in an array literal", Mode: ref.Script, Pre: "( [ ", Suf: []string{" ] )", " ] ) => a", " ] = a )"}, Alpha: allTokens, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "all tokens in parentheses", Mode: ref.Script, Pre: "( ", Suf: []string{" )", " ) => a"}, Alpha: allTokens, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "all tokens in arguments", Mode: ref.Script, Pre: "f ( ", Suf: []string{" )"}, Alpha: allTokens, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "all tokens in a class body", Mode: ref.Script, Pre: "class A { ", Suf: []string{" }"}, Alpha: allTokens, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "all tokens in parameters", Mode: ref.Script, Pre: "function f ( ", Suf: []string{" ) { }"}, Alpha: allTokens, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "all tokens in a for head", Mode: ref.Script, Pre: "for ( ", Suf: []string{" ) ;"}, Alpha: allTokens, Sep: " ", Depth: d(4, 5)},
			&Lex{N: "all tokens in a switch", Mode: ref.Script, Pre: "switch ( a ) { ", Suf: []string{" }"}, Alpha: allTokens, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "all tokens in a declaration", Mode: ref.Script, Pre: "var ", Suf: []string{""}, Alpha: allTokens, Sep: " ", Depth: d(4, 5)},
			&Lex{N: "all tokens in an import", Mode: ref.Module, Pre: "import ", Suf: []string{""}, Alpha: allTokens, Sep: " ", Depth: d(4, 5)},
			mutationSpace("forms", ref.Script, script, allTokens),
			mutationSpace("imports", ref.Module, module, allTokens),
			mutationSpace("forms, every token", ref.Script, script, otherTokens),
			everyTokenInArrows(), everyTokenInPatterns(), everyTokenInMembers(),
			broken("\n", everyTokenInArrows()), broken("\n", everyTokenInPatterns()), broken("\n", everyTokenInMembers()),
			spanSpace("forms in deep places", ref.Script, inAll([]string{deepPlaces("[ | ]")[2], deepPlaces("{ | }")[2]}, append(flat(stmtT), flat(exprT)...))),
			mutationSpace("imports, every token", ref.Module, module, otherTokens),
			mutationSpace("forms in deep places", ref.Script, inAll(append(deepStatementPlaces, deepPlaces("( | )", "[ | ]", "( { p : | } )")...), append(flat(stmtT), flat(exprT)...)), nil),
			spanSpace("forms", ref.Script, script), spanSpace("imports", ref.Module, module),
			spanSpace("nested forms", ref.Script, deep),
			mutationSpace("forms in all bodies", ref.Script, inAll(bodyPlaces(), append(flat(stmtT), flat(exprT)...)), nil),
			&Lex{N: "expressions", Mode: ref.Script, Alpha: words("a 1 + ** = ? : ( ) , . [ ] ++ ! => ... { }"), Sep: " ", Depth: d(6, 7)},
			&Lex{N: "statements", Mode: ref.Script, Alpha: words("a ; { } ( ) if else while do for in var ="), Sep: " ", Depth: d(6, 8)},
		}
		if tier == "thorough" {
			s = append(s, mutationSpace("nested forms", ref.Script, deep, fewTokens))
		} else {
			s = append(s, mutationSpace("nested forms", ref.Script, deep, nil))
		}
		return s
	}})
}
