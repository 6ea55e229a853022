package main

import (
	"fmt"
	"strings"

	"verifmc/ref"
)

// --- C01 --------------------------------------------------------------------

// tight joins the tokens of a program without needless blanks.
func tight(p string) string {
	tok := tokensOf(p)
	s := tok[0]
	for k := 1; k < len(tok); k++ {
		if joins(tok[k-1], tok[k]) {
			s += " "
		}
		s += tok[k]
	}
	return s
}

// truncations is every prefix of every program, with and without a character
// after it.
func truncations(name string, mode ref.Mode, progs []string, after ...string) Space {
	var starts []int
	n := 0
	for _, p := range progs {
		starts = append(starts, n)
		n += len([]rune(p)) + 1
	}
	return &Indexed{N: fmt.Sprintf("%s: all prefixes of %d programs, followed by one of %d texts", name, len(progs), len(after)), Count: n * len(after), At: func(i int) Input {
		a := after[i%len(after)]
		i /= len(after)
		lo, hi := 0, len(starts)
		for hi-lo > 1 {
			m := (lo + hi) / 2
			if starts[m] <= i {
				lo = m
			} else {
				hi = m
			}
		}
		r := []rune(progs[lo])
		return Input{Mode: mode, Src: string(r[:i-starts[lo]]) + a}
	}}
}

var deepFamilies = []string{
	"¦(¦a¦)¦", "¦(¦¦¦", "¦[¦¦]¦", "¦[¦¦¦", "¦{¦¦}¦", "¦{¦¦¦", "¦({a:¦b¦})¦", "¦({a:¦¦¦", "¦({¦¦¦", "¦({[¦a¦]:b})¦", "¦a=>¦b¦¦", "¦a=>¦¦¦", "¦(a)=>¦b¦¦", "¦()=>{¦¦}¦", "¦()=>{¦¦¦", "¦(a=¦b¦)=>c¦", "¦(a=¦¦¦",
	"¦async a=>¦b¦¦", "¦async(¦a¦)¦", "¦-¦a¦¦", "¦-¦¦¦", "¦!¦a¦¦", "¦- -¦a¦¦", "¦typeof ¦a¦¦", "¦delete ¦a¦¦", "¦new ¦a¦¦", "¦new ¦¦¦", "¦new ¦a¦()¦", "¦++¦a¦¦", "a¦**b¦¦¦", "a¦=b¦¦¦", "a¦=¦¦¦", "a¦+b¦¦¦", "a¦,b¦¦¦", "a¦?b:c¦¦¦", "a¦?b¦¦:c¦", "a¦?¦¦¦",
	"a¦.b¦¦¦", "a¦[b]¦¦¦", "a¦[b¦¦]¦", "a¦[¦¦¦", "a¦()¦¦¦", "a¦(¦¦)¦", "a¦(¦¦¦", "a¦&&b||c¦¦¦", "a¦??b¦¦¦", "¦if(a)¦b¦¦", "¦if(a)¦¦¦", "¦if(a)¦b¦;else c¦", "¦while(a)¦b¦¦", "¦while(a)¦¦¦", "¦do ¦b;¦while(a);¦", "¦do ¦¦¦", "¦for(;;)¦b¦¦", "¦for(;;)¦¦¦", "¦for(a of ¦b¦);¦", "¦for(var a in b)¦c¦¦", "¦l:¦a¦¦", "¦l:¦¦¦",
	"¦switch(a){case b:¦¦}¦", "¦switch(a){case ¦b¦:}¦", "¦switch(a){default:¦¦¦", "¦try{¦¦}catch{}¦", "¦try{¦¦¦", "¦try{}finally{¦¦}¦", "¦function f(){¦¦}¦", "¦function f(){¦¦¦", "¦function f(a=¦b¦){}¦", "¦(function(){¦¦})¦", "¦!function(){¦¦}¦", "¦async function f(){¦¦}¦", "¦class A{m(){¦¦}}¦", "¦class A{m(){¦¦¦", "¦class A extends ¦b¦{}¦", "¦x=class extends ¦a¦{}¦", "¦({m(){¦¦}})¦", "¦({get a(){¦¦}})¦",
	"var ¦[¦a¦]¦=b", "var ¦[¦¦¦", "var ¦{a:¦b¦}¦=c", "var ¦{a:¦¦¦", "(¦[¦a¦]¦)=>b", "(¦{a:¦b¦}¦)=>c", "(¦[¦a¦]¦=b)", "(¦{a:¦b¦}¦=c)", "¦[a=¦b¦]=c¦", "function f(¦[¦a¦]¦){}", "function f(¦{a:¦b¦}¦){}", "try{}catch(¦[¦a¦]¦){}", "var a=¦b=¦c¦¦", "var [a¦,b¦¦¦]=c", "var {a¦,b¦¦¦}=c", "(a¦,b¦¦¦)=>c", "[a¦,b¦¦¦]", "({a¦,b¦¦¦})", "f(a¦,b¦¦¦)", "f(¦...¦a¦¦)", "a¦;b¦¦¦", "¦;¦¦¦", "¦a\n¦¦¦", "¦\n¦¦¦", "¦ ¦¦¦", "/*¦*¦¦¦", "//¦/¦¦¦", "'¦a¦¦¦", "'¦\\\\¦¦¦'", "/¦a¦¦¦", "/¦[¦¦¦", "¦1¦¦¦", "1¦_1¦¦¦", "0x¦f¦¦¦", ".¦1¦¦¦", "1e¦9¦¦¦", "¦a¦¦¦", "¦.¦¦¦", "¦<¦¦¦", "¦?¦¦¦", "¦`¦¦¦", "¦${¦¦¦", "`¦${`¦¦`}¦`", "¦a`¦¦¦", "¦yield ¦a¦¦", "¦await ¦a¦¦", "(async()=>{¦await ¦a¦¦})", "¦return ¦a¦¦", "¦throw ¦a¦¦", "¦case a:¦¦¦", "¦else ¦¦¦", "¦\"use strict\";¦¦¦", "¦import 'a';¦¦¦", "import {¦a,¦¦¦} from 'b'", "import {¦{¦¦¦", "¦export ¦a¦¦", "¦import(¦a¦)¦", "¦var a;¦¦¦", "var a¦,b¦¦¦", "var a=¦b,c=¦¦¦", "¦let ¦a¦¦", "¦const ¦a¦¦", "¦async ¦a¦¦", "¦async(¦¦¦", "¦get ¦a¦¦", "¦static ¦a¦¦", "¦#¦¦¦", "¦@¦¦¦", "¦\\u0061¦¦¦", "¦\x00¦¦¦", "¦=>¦¦¦", "¦...¦a¦¦", "(¦...¦a¦¦)=>b", "¦)¦¦¦", "¦]¦¦¦", "¦}¦¦¦",
	"¦(a,¦b¦)¦", "¦(a,¦b¦)=>c¦", "¦([¦a¦])¦", "¦([¦a¦])=>b¦", "¦({a=¦b¦})=>c¦", "¦({a=¦b¦}¦", "¦[{a:¦b¦}]¦", "¦function(){¦¦}¦", "¦(class{m(){¦¦}})¦", "¦class{¦¦}¦", "¦class A{[¦a¦](){}}¦", "¦class A{static ¦m(){}¦}¦", "¦a?(¦b¦):c¦", "¦a?b:¦c¦¦", "¦{a:¦b¦}¦", "¦(a)¦¦¦", "¦[a]¦¦¦", "¦{a}¦¦¦", "¦if(¦a¦)b¦", "¦while(¦a¦)b¦", "¦for(¦;¦;)¦", "¦for(var a=¦b¦;;);¦", "¦with(a)¦b¦¦", "¦void ¦a¦¦", "¦a in ¦b¦¦", "¦a instanceof ¦b¦¦", "¦a<¦b¦¦", "¦a=b?¦c¦:d¦", "¦a.b(¦c¦)¦", "¦a[b](¦c¦)¦", "¦new a(¦b¦)¦", "¦new (¦a¦)¦",
}

func init() {
	register(&Property{ID: "C01", Judge: judgeOutcome, NoRef: true, Assumptions: []string{"an answer counts as missing after 10 s in the exploration and 20 s of processor time when it is confirmed in two fresh processes; memory as unbounded beyond 4 GB for one input"}, Spaces: func(tier string) []Space {
		d := func(q, t int) int { return pick(tier, q, t) }
		chars := []string{"a", "b", "0", "1", "9", "e", "x", "_", ".", ",", ";", ":", "?", "(", ")", "[", "]", "{", "}", "+", "-", "*", "/", "%", "=", "!", "<", ">", "&", "|", "^", "~", "\"", "'", "`", "\\", "#", "@", "$", " ", "\n", "\u2028", "\u00e9", "\U0001F600", "\x00", "n", "u"}
		script, module := programs()
		var exprs, tightScript, tightModule, tightExprs []string
		exprs = flat(exprT)
		for _, p := range script {
			tightScript = append(tightScript, tight(p))
		}
		for _, p := range module {
			tightModule = append(tightModule, tight(p))
		}
		for _, p := range exprs {
			tightExprs = append(tightExprs, tight(p))
		}
		for _, n := range []*nest{newNest(stmtT, 2), newNest(exprT, 2)} {
			for i := 0; i < n.total; i++ {
				tightScript = append(tightScript, tight(n.at(i)))
			}
		}
		ends := []string{"", "}", "a", "\n)", "/", "'", "\\", "=>", ",", "{"}
		more := append(append([]string{}, allTokens...), "`", "`a`", "?.", "#a", "1n", "super", "export", "with", "debugger", "enum", "let", "static", "*=", "??=", "\\u0061", "@", "\n", "'use strict'")
		s := []Space{
			&Lex{N: "characters, script", Mode: ref.Script, Alpha: chars, Depth: d(4, 5)},
			&Lex{N: "characters, module", Mode: ref.Module, Alpha: chars, Depth: d(3, 4)},
			&Lex{N: "characters, expression", Mode: ref.Expression, Alpha: chars, Depth: d(3, 4)},
			&Lex{N: "tokens, script", Mode: ref.Script, Alpha: more, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "tokens, module", Mode: ref.Module, Alpha: more, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "tokens, expression", Mode: ref.Expression, Alpha: more, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "tokens in a class", Mode: ref.Script, Pre: "class A { ", Suf: []string{"", " }"}, Alpha: more, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "tokens in an object", Mode: ref.Script, Pre: "( { ", Suf: []string{"", " } )"}, Alpha: more, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "tokens in a for head", Mode: ref.Script, Pre: "for ( ", Suf: []string{"", " ) ;"}, Alpha: more, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "tokens in an arrow head", Mode: ref.Script, Pre: "( a , ", Suf: []string{"", " ) => b"}, Alpha: more, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "tokens in an async call", Mode: ref.Script, Pre: "async ( ", Suf: []string{"", " ) => b"}, Alpha: more, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "tokens in a switch", Mode: ref.Script, Pre: "switch ( a ) { ", Suf: []string{"", " }"}, Alpha: more, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "tokens in an import", Mode: ref.Module, Pre: "import ", Alpha: more, Sep: " ", Depth: d(3, 4)},
			truncations("forms", ref.Script, tightScript, ends[:d(5, 10)]...),
			truncations("forms in modules", ref.Module, tightScript[:d(400, len(tightScript))], ends...),
			truncations("imports", ref.Module, tightModule, ends...),
			truncations("expressions", ref.Expression, tightExprs, ends...),
			mutationSpace("forms", ref.Script, script, more),
			mutationSpace("imports", ref.Module, module, more),
			mutationSpace("expressions", ref.Expression, exprs, more),
			codePoints("anywhere", ref.Script, 0, 0x10FFFF, "\x01", "a \x01 b"),
			codePoints("in literals", ref.Script, 0, d(0x3FFF, 0x10FFFF), "'\\\x01'", "/\\\x01/\x01", "0x\x01", "1\x01", "1e\x01", "`\x01", "#\x01", "\\u\x01", "'\\u{\x01}'", "'\\x\x01"),
			pumps("deep and long inputs", ref.Script, []int{2, 100, 3000, 9990, 10010, 40000}, deepFamilies...),
			pumps("very deep inputs", ref.Script, []int{d(300000, 2000000)}, deepFamilies...),
			pumps("nested forms, extremely deep", ref.Script, []int{d(4000000, 6000000)}, "¦(¦¦¦", "¦[¦¦¦", "¦{¦¦¦", "¦({¦¦¦", "¦!¦¦¦", "¦new ¦¦¦", "a¦=b¦¦¦", "¦a=>¦¦¦", "¦if(a)¦¦¦", "¦while(a)¦¦¦", "¦do ¦¦¦", "¦l:¦¦¦", "¦try{¦¦¦", "¦()=>{¦¦¦", "¦function f(){¦¦¦", "¦class A{m(){¦¦¦", "¦switch(a){default:¦¦¦", "var ¦[¦¦¦", "var ¦{a:¦¦¦", "function f(¦[¦¦¦", "(¦[¦¦¦", "(¦{a:¦¦¦", "try{}catch(¦{a:¦¦¦"),
			pumps("deep and long inputs in modules", ref.Module, []int{3000, d(40000, 2000000)}, deepFamilies...),
			pumps("deep and long expressions", ref.Expression, []int{3000, d(40000, 2000000)}, deepFamilies...),
		}
		if libs := corpus(); len(libs) > 0 {
			s = append(s, cutCorpus(libs, d(400, 4000)))
		}
		return s
	}})
}

// --- C06 --------------------------------------------------------------------

func init() {
	register(&Property{ID: "C06", Judge: judgeTokens,
		Dead:        func(c *Case) bool { return lexDead(c) },
		Assumptions: []string{modelAssumption, "template literals, private names, optional chaining, BigInt, Unicode escapes in names and HTML-like comments are left out"},
		Spaces: func(tier string) []Space {
			d := func(q, t int) int { return pick(tier, q, t) }
			punct := strings.Split("{ } ( ) [ ] ; , ~ : . < > = ! + - * / % & | ^ ?", " ")
			mixed := []string{"a", "1", "0", ".", "e", "x", "_", "$", "\"", "'", "\\", "/", "*", "=", "+", "\n", " ", "\u2028", "\u00e9", "\r"}
			nl := []string{"a", " ", "\n", "\r", "\u2028", "\u2029", "/**/", "/*\n*/", "/*\r*/", "//x", "//", ";", "1", "/*\u2029a*/"}
			var ws []string
			for _, w := range allWords {
				ws = append(ws, w)
				for i := range w {
					ws = append(ws, w[:i], w[i+1:], w[:i]+strings.ToUpper(w[i:i+1])+w[i+1:], w[:i]+"_"+w[i:], w[:i]+"\u00e9"+w[i:])
				}
				for _, c := range []string{"a", "s", "1", "$", "_", "\u00e9", "\u200c", "\U00010400", "of"} {
					ws = append(ws, w+c, c+w)
				}
			}
			ctx := []string{"|", " | ", "\n|\n", "a |", "| a", "|(", "(|", "|.|", "1 |", "|=", "=|", "|/a/g", "/*\n*/|", "|//", ".|", "'a'|"}
			pw := []string{}
			for _, p := range append(ref.Puncts(), "a", "1", "1.", ".5", "'s'", "if", "/*a*/", "//b\n", "\n") {
				pw = append(pw, p)
			}
			long := append(append(append([]string{}, ref.Puncts()...), allWords...), lexemes...)
			return []Space{
				product("every two lexemes", ref.Script, "", []string{"", "\r", strings.Repeat(" ", 25)}, long, []string{"", " ", "\n", "\r", "/*a*/", "//\n"}, long),
				&Lex{N: "punctuator characters", Mode: ref.Script, Alpha: punct, Depth: d(4, 5)},
				&Lex{N: "operator characters", Mode: ref.Script, Alpha: strings.Split("< > = ! + - * / & | ? . ^ %", " "), Depth: d(5, 6)},
				&Lex{N: "operator characters after a name", Mode: ref.Script, Pre: "a", Suf: []string{"", "b", "1"}, Alpha: strings.Split("< > = ! + - * / & | ? . ^ %", " "), Depth: 4},
				&Lex{N: "mixed characters", Mode: ref.Script, Alpha: mixed, Depth: d(5, 6)},
				&Lex{N: "line-break flags", Mode: ref.Script, Alpha: nl, Depth: d(5, 6)},
				product("tokens, trivia, tokens", ref.Script, "", pw, append(nl, "//x\n", "// */\n", "/*a*//*\n*/", "/*\n*//**/", "//\r", "//a\u2028"), append(pw, "")),
				product("words and near misses in contexts", ref.Script, "", ws, []string{""}).(*Indexed).in(ctx),
				&Lex{N: "pairs and triples of tokens, joined", Mode: ref.Script, Alpha: pw, Depth: d(3, 4)},
				&Lex{N: "pairs and triples of tokens, separated", Mode: ref.Script, Alpha: pw, Sep: " ", Depth: d(3, 3)},
				&Lex{N: "regular expressions", Mode: ref.Script, Pre: "/", Suf: []string{"", "/", "/g a"}, Alpha: []string{"/", "\\", "[", "]", "a", "*", "\n", "=", "g", " ", "\u2028"}, Depth: d(5, 6)},
				codePoints("single", ref.Script, 0, 0x10FFFF, "a \x01 b", "a\x01b"),
				pumps("long inputs", ref.Script, append(upTo(60), longLadder...), "¦a ¦¦¦", "¦a;¦¦¦", "¦\n¦¦¦a", "¦>>>=¦¦¦", "¦...¦¦¦", "¦'a'¦¦¦", "¦/**/¦¦¦a", "¦//\n¦¦¦a", "¦a¦¦¦", "¦1.5¦¦¦", "¦+ ¦¦¦", "¦+¦¦¦", "¦<¦¦¦", "¦=¦¦¦", "¦&¦¦¦", "¦*¦¦¦", "¦?¦¦¦", "¦if ¦¦¦"),
			}
		}})
}

// lexemes are literals and names of all kinds and several lengths.
var lexemes = append(append(append([]string{}, numberForms...), stringForms...), "a", "$", "_a", "aB1", "\u00e9\u00e9", "\U00010400", "abcdefghijklmnopqrstuvwxyz", "instanceofinstanceof", "f"+strings.Repeat("_", 70), "/", "/a/g", "/[/]/")

var numberForms = append(words("0 1 9 10 123 9.5 1. .5 .3 0. 0.0 .25e3 1e1 1E+1 1.5e-10 2.e2 0x1F 0Xa 0b101 0B0 0o17 0O7 017 08 019.5 09 1_0 1_000.2_5 0x1_f 123456789012345678901 .000001"), strings.Repeat("7", 60))

var stringForms = []string{"''", "'a'", "\"\"", "\"b\"", "'\"'", "\"'\"", "'\\''", "\"\\\"\"", "'\\\\'", "'\\\n'", "'\\\r\n'", "'\\x41'", "'\\u0041'", "'\\u{1F600}'", "'\\n\\t'", "'\\0'", "'\\07'", "'\u2028'", "'//'", "'/*'", "'use strict'", "'abcdefghijklmnopqrstuvwxyz'", "'" + strings.Repeat("s", 70) + "'"}

// in puts every text into every context.
func (x *Indexed) in(ctx []string) Space {
	return &Indexed{N: fmt.Sprintf("%s: %d x %d contexts", x.N, x.Count, len(ctx)), Count: x.Count * len(ctx), At: func(i int) Input {
		in := x.At(i / len(ctx))
		c := ctx[i%len(ctx)]
		in.Src = strings.ReplaceAll(c, "|", in.Src)
		return in
	}}
}

// lexDead: the lexical grammar gives up before the end of the input.
func lexDead(c *Case) bool {
	m := ref.NewLexer(c.Src, false)
	pos := 0
	for {
		w := m.Next(pos, ref.GoalDiv)
		switch w.Kind {
		case ref.EOF:
			return false
		case ref.ERR, ref.UNSPEC:
			return !m.SawEOF()
		}
		if w.Kind == ref.PUNCT && w.Text[0] == '/' {
			return false
		}
		pos = w.End
	}
}

// --- C17 --------------------------------------------------------------------

func init() {
	register(&Property{ID: "C17", Judge: judgeSchema, NoRef: true, Assumptions: []string{"the node definitions (mc/cmd/mc/schema.go) transcribe the ESTree specification; fields that ESTree added after ES2017 (await, optional) may be missing when false", "nesting beyond the 10,000 levels that encoding/json supports is left out"}, Spaces: func(tier string) []Space {
		d := func(q, t int) int { return pick(tier, q, t) }
		script, module := programs()
		chars := strings.Split("0 1 7 8 9 . e E _ x X o b f - n", " ")
		s := []Space{
			&Lex{N: "tokens, script", Mode: ref.Script, Alpha: allTokens, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "tokens, module", Mode: ref.Module, Alpha: allTokens, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "tokens, expression", Mode: ref.Expression, Alpha: allTokens, Sep: " ", Depth: d(3, 4)},
			&Lex{N: "expressions", Mode: ref.Script, Alpha: words("a 1 + ** = ? : ( ) , . [ ] ++ ! => ... { }"), Sep: " ", Depth: d(5, 6)},
			&Lex{N: "expression mode", Mode: ref.Expression, Alpha: words("a 1 + ** = ? : ( ) , . [ ] ++ ! => ... { }"), Sep: " ", Depth: d(5, 6)},
			&Lex{N: "statements", Mode: ref.Script, Alpha: words("a ; { } ( ) if else while do for in var ="), Sep: " ", Depth: d(6, 7)},
			&Lex{N: "object members", Mode: ref.Script, Pre: "( { ", Suf: []string{" } )", " } = a )", " } ) => a"}, Alpha: words("a get set async * ( ) { } , : [ ] 1 = ..."), Sep: " ", Depth: d(5, 6)},
			&Lex{N: "class members", Mode: ref.Script, Pre: "class A { ", Suf: []string{" }"}, Alpha: words("a get set async static * ( ) { } ; [ ] \"s\" = constructor"), Sep: " ", Depth: d(5, 6)},
			&Lex{N: "patterns", Mode: ref.Script, Pre: "var ", Suf: []string{" = a ;"}, Alpha: words("x y [ ] { } , : = ..."), Sep: " ", Depth: d(6, 7)},
			&Lex{N: "assignment patterns", Mode: ref.Script, Pre: "( ", Suf: []string{" = a )", " ) => a"}, Alpha: words("x . [ ] { } , : = ... y"), Sep: " ", Depth: d(6, 7)},
			&Lex{N: "imports", Mode: ref.Module, Pre: "import ", Alpha: words("a b * as from { } , \"m\" ; if"), Sep: " ", Depth: d(7, 8)},
			&Lex{N: "numbers", Mode: ref.Expression, Alpha: chars, Depth: d(4, 5)},
			&Lex{N: "strings", Mode: ref.Expression, Pre: "'", Suf: []string{"'"}, Alpha: []string{"\\", "x", "u", "{", "}", "d", "8", "0", "\"", "\n", "\u2028", "\U0001F600", "<", "\x00", "\ufffd"}, Depth: d(5, 6)},
			codePoints("in strings and names", ref.Script, 0, 0x10FFFF, "'\x01'"),
			codePoints("in names, regular expressions and escapes", ref.Script, 0, d(0x1FFFF, 0x10FFFF), "a\x01", "/\x01/", "'\\\x01'"),
			nestSpace("statements", stmtT, 2, ref.Script, stmtContexts...),
			nestSpace("statements", stmtT, 2, ref.Module),
			nestSpace("expressions", exprT, 2, ref.Script, exprContexts...),
			nestSpace("expressions", exprT, 2, ref.Expression),
			nestSpace("patterns", bindT, 2, ref.Script, bindContexts...),
			mutationSpace("forms", ref.Script, script, allTokens),
			mutationSpace("imports", ref.Module, module, allTokens),
			nestFunctions("functions", 2, []string{""}, []string{"", "return a ;", "a"}, []string{"", "a"}),
			pumps("deep and long programs", ref.Script, []int{1, 2, 10, 100, 300}, deepFamilies...),
			pumps("deep and long modules", ref.Module, []int{1, 2, 10, 100}, deepFamilies...),
			pumps("long programs", ref.Script, []int{1000}, "a¦;b¦¦¦", "a¦,b¦¦¦;", "f(a¦,b¦¦¦)", "[a¦,b¦¦¦]", "({a¦,b¦¦¦})", "¦var a;¦¦¦", "var a¦,b¦¦¦", "¦;¦¦¦"),
		}
		if tier == "thorough" {
			s = append(s, nestSpace("statements", stmtT, 3, ref.Script), nestSpace("expressions", exprT, 3, ref.Script), nestSpace("patterns", bindT, 3, ref.Script, bindContexts...))
		}
		if libs := corpus(); len(libs) > 0 {
			s = append(s, list("libraries", libs))
		}
		return s
	}})
}

// --- C18 --------------------------------------------------------------------

func init() {
	register(&Property{ID: "C18", Judge: judgeLocation, Assumptions: []string{modelAssumption, "errors that depend on more than the tokens so far (assignment targets, parameter lists, early errors) may be reported between the start of the construct and the token that decides it; texts that use unsupported features anywhere in the input"}, Spaces: func(tier string) []Space {
		d := func(q, t int) int { return pick(tier, q, t) }
		script, module := programs()
		toks := words(`a 1 "s" /r/ ; , ( ) [ ] { } . ... ? : = => + ++ - * / ?? ! new typeof in of function class static get async var let const if else for while do break return throw try catch finally switch case default import from as`)
		s := []Space{}
		for _, sep := range []string{" ", "\n", "\r\n"} {
			s = append(s,
				&Lex{N: "tokens, script", Mode: ref.Script, Alpha: toks, Sep: sep, Depth: d(3, 4)},
				&Lex{N: "tokens in a function", Mode: ref.Script, Pre: "function f()\n{", Suf: []string{"", sep + "}"}, Alpha: toks, Sep: sep, Depth: d(3, 4)},
				&Lex{N: "expressions", Mode: ref.Script, Alpha: words("a 1 + = ? : ( ) , . [ ] ++ => ... { }"), Sep: sep, Depth: d(5, 6)},
				&Lex{N: "statements", Mode: ref.Script, Alpha: words("a ; { } ( ) if else while do for in var ="), Sep: sep, Depth: d(5, 6)},
			)
		}
		s = append(s,
			&Lex{N: "tokens, module", Mode: ref.Module, Alpha: toks, Sep: "\n", Depth: d(3, 4)},
			&Lex{N: "tokens, expression", Mode: ref.Expression, Alpha: toks, Sep: "\u2028", Depth: d(3, 4)},
			&Lex{N: "imports", Mode: ref.Module, Pre: "a\nimport ", Alpha: words("a b * as from { } , \"m\" ; if"), Sep: "\n", Depth: d(6, 7)},
			&Lex{N: "class members", Mode: ref.Script, Pre: "class A\n{ ", Suf: []string{" }"}, Alpha: words("a get set async static * ( ) { } ; [ ] \"s\""), Sep: "\n", Depth: d(5, 6)},
			&Lex{N: "object members", Mode: ref.Script, Pre: "(\n{ ", Suf: []string{" } )"}, Alpha: words("a get set async * ( ) { } , : [ ] 1 = if"), Sep: "\n", Depth: d(5, 6)},
			&Lex{N: "arrow heads", Mode: ref.Script, Alpha: words("( ) a b , = => ... [ ] { }"), Sep: " ", Depth: d(6, 7)},
			&Lex{N: "patterns", Mode: ref.Script, Pre: "var ", Suf: []string{"\n= a ;"}, Alpha: words("x [ ] { } , : = ..."), Sep: "\n", Depth: d(6, 7)},
			&Lex{N: "characters", Mode: ref.Script, Alpha: []string{"a", "1", "0", ".", "e", "x", "_", "'", "\\", "/", "*", "=", "\n", "\r", " ", "\u2028", "@", "(", "u", "{"}, Depth: d(4, 5)},
			&Lex{N: "characters after a line", Mode: ref.Script, Pre: "a;\r\n b;", Alpha: []string{"a", "1", "0", ".", "e", "x", "_", "'", "\\", "/", "*", "=", "\n", "\r", " ", "\u2028", "@", "(", "[", "\u00e9"}, Depth: d(4, 5)},
			mutationSpace("forms", ref.Script, script, toks),
			mutationSpace("forms, every token", ref.Script, script, otherTokens),
			broken("\n", mutationSpace("forms", ref.Script, script, toks[:d(30, len(toks))])),
			broken("\n", mutationSpace("imports", ref.Module, module, toks)),
			mutationSpace("expressions", ref.Expression, flat(exprT), fewTokens),
			broken(" /*\n*/", mutationSpace("forms", ref.Script, script, fewTokens[:d(6, 12)])),
			pumps("long and deep inputs", ref.Script, []int{1, 2, 3, 10, 100, d(300, 1000)}, deepFamilies...),
			pumps("errors far away", ref.Script, append(upTo(30), longLadder...), "¦\n¦¦¦)", "¦ ¦¦¦)", "¦\r\n¦¦¦ )", "¦\u2028\u2029¦¦¦@", "¦a;\n¦¦¦ ]", "a/*¦\n¦¦¦*/)", "¦/**/¦¦¦}", "¦\U0001F600¦¦¦", "'¦\\\n¦¦¦", "'¦\\\r\n¦¦¦'b"),
		)
		if tier == "thorough" {
			for _, n := range []*nest{newNest(stmtT, 2), newNest(exprT, 2)} {
				var l []string
				for i := 0; i < n.total; i++ {
					l = append(l, n.at(i))
				}
				s = append(s, mutationSpace("nested forms", ref.Script, l, fewTokens[:8]), broken("\n", mutationSpace("nested forms", ref.Script, l, fewTokens[:4])))
			}
		}
		return s
	}})
}

// --- C25 --------------------------------------------------------------------

func init() {
	register(&Property{ID: "C25", Judge: judgeFull, Assumptions: []string{modelAssumption, "directives in functions with non-simple parameters and retroactive effects on names and parameters are left out"}, Spaces: func(tier string) []Space {
		d := func(q, t int) int { return pick(tier, q, t) }
		dirs := lines(`

"use strict" ;
'use strict' ;
"a" ; "use strict" ;
( "use strict" ) ;
b ; "use strict" ;
"use\x20strict" ;
"use strict" + 1 ;
"use strict" . p ;
"use strict" , 1 ;
"Use Strict" ;
"use  strict" ;
" use strict" ;
"use strict " ;
; "use strict" ;
{ "use strict" ; }
if ( a ) "use strict" ;
var s = "use strict" ;
"use strict" ; "use strict" ;
"use strict" ( ) ;
"use strict" ? a : b ;
`)
		dirs = append(dirs, "\"use strict\"\n", "\"use strict\"\n+ a ;", "\"a\"\n'use strict'\n", "'use strict' /*\n*/", "\"use strict\"\n( a ) ;", "\"use \\\nstrict\" ;")
		probes := lines(`

var static ;
interface = 1 ;
x = 017 ;
x = "\1" ;
yield : a
x = let
delete a
delete ( ( a ) )
`)
		short := []string{"", "var static ;", "x = 017 ;"}
		fn1 := &Indexed{N: fmt.Sprintf("%d directive forms in %d function forms, %d probes inside and around", len(dirs), len(functionForms), len(probes)), Count: len(dirs) * len(functionForms) * len(probes) * len(probes) * 3, At: func(i int) Input {
			in, i := probes[i%len(probes)], i/len(probes)
			out, i := probes[i%len(probes)], i/len(probes)
			dir, i := dirs[i%len(dirs)], i/len(dirs)
			f, i := functionForms[i%len(functionForms)], i/len(functionForms)
			s := strings.Replace(f, "@", dir+" "+in, 1)
			switch i {
			case 0:
				s = s + "\n" + out
			case 1:
				s = out + "\n" + s
			case 2:
				s = "function g ( ) {\n" + s + "\n" + out + "\n} " + out
			}
			return Input{Mode: ref.Script, Src: s}
		}}
		// Two nested functions, each with or without directive, probed inside,
		// between and after.
		some := []string{"", "\"use strict\" ;", "\"a\" ; 'use strict' ;", "( \"use strict\" ) ;", "a ; \"use strict\" ;"}
		nf := len(functionForms)
		fn2 := &Indexed{N: fmt.Sprintf("nested functions: %d x %d function forms, %d x %d directives, 3 probes at 3 places", nf, nf, len(some), len(some)), Count: nf * nf * len(some) * len(some) * 27, At: func(i int) Input {
			next := func(l []string) string { s := l[i%len(l)]; i /= len(l); return s }
			f, g, d1, d2 := next(functionForms), next(functionForms), next(some), next(some)
			p1, p2, p3 := next(short), next(short), next(short)
			inner := strings.Replace(g, "@", d2+" "+p1, 1)
			return Input{Mode: ref.Script, Src: strings.Replace(f, "@", d1+"\n"+inner+"\n"+p2, 1) + "\n" + p3}
		}}
		s := []Space{
			&Lex{N: "prologues", Mode: ref.Script, Alpha: append(words("'use-strict' 'a' ; ( ) + 017 static { } function f"), "\n", ","), Sep: " ", Depth: d(5, 6)},
			&Lex{N: "prologues of functions", Mode: ref.Script, Pre: "function f ( ) {", Suf: []string{" }", " } 017", " } static"}, Alpha: append(words("'use-strict' 'a' ; ( ) + 017 static"), "\n"), Sep: " ", Depth: d(5, 6)},
			product("directive forms and probes in scripts", ref.Script, "\n", dirs, probes, dirs, probes),
			product("directive forms and probes in modules", ref.Module, "\n", dirs, probes),
			product("modules and classes", ref.Module, "\n", append(importForms, "", "function f ( ) { }"), probes, append(importForms, ""), probes),
			fn1, fn2, longPrologues(),
			product("deletions in strict and sloppy code", ref.Script, " ",
				[]string{"", "'use strict' ;", "class A extends", "function f ( ) { 'use strict' ;", "function f ( ) {", "class A { m (", "class A { m ( ) {", "( ) => { 'use strict' ;", "async ( ) => {", "'use strict' ; (", "'use strict' ; [", "'use strict' ; x = {"},
				[]string{"", "x =", "typeof", "x = y +", "x ? y :", "return", "x = y ,", "( x =", "[ x ] : ", "f ("},
				[]string{"delete a", "delete ( a )", "delete ( ( a ) )", "delete ( a , b )", "delete a . b", "delete ( a . b )", "delete ( a ) . b", "delete this", "delete a [ b ]", "delete a ( )", "delete ( a = b )", "delete typeof a", "delete - ( a )", "delete delete a", "delete async", "delete ( async )", "delete a => a", "delete [ a ]", "delete ( [ a ] )", "delete { a }", "delete ( { a } )", "delete let", "delete ++ a"},
				[]string{"", ";", ")", "}", ") { }", ") { } }", "]", ") }"}),
			product("strict and sloppy functions in sequence", ref.Script, "\n",
				[]string{"function f ( ) { 'use strict' ; }", "( ( ) => { 'use strict' ; } )", "class A { m ( ) { } }", "x = { m ( ) { 'use strict' } }", "async ( ) => { 'use strict' }", "class A { static m ( ) { 'use strict' } }", "class A extends b { }", "x = class { }", "! function ( a ) { 'use strict' ; return a }", "a => { 'use strict' }", ""}, probes,
				[]string{"function g ( ) { # }", "( ( ) => { # } )", "class B { m ( ) { # } }", "x = { m ( ) { # } }", "{ # }", "if ( a ) { # }", "( a = # )", "class C extends ( function ( ) { # } ) { }", "class C { [ function ( ) { # } ] ( ) { } }"}, probes).(*Indexed).hash(probes),
		}
		legacy := words(`017 08 010.5 "\1" '\8' "\08" "\0" 0 0.5`)
		s = append(s,
			fillSlots("legacy literals in all forms", ref.Script, slots(append(append(flat(stmtT), flat(exprT)...), literalPlaces...), true, true), legacy, strictContexts),
			fillSlots("legacy literals in all forms", ref.Module, slots(append(append(append(flat(stmtT), flat(exprT)...), literalPlaces...), importForms...), true, true), legacy, []string{"|", "a ; |"}),
			fillSlots("legacy literals in nested forms", ref.Module, slots(append(newNest(stmtT, 2).all(), newNest(exprT, 2).all()...), d(0, 1) == 1, true), legacy[:d(4, 9)], []string{"|"}),
		)
		// 'use-strict' stands for the directive as one lexeme.
		for i, x := range s[:2] {
			l := *x.(*Lex)
			l.Alpha = replaceAll(l.Alpha, "'use-strict'", "'use strict'")
			s[i] = &l
		}
		if tier == "thorough" {
			three := []string{"", "\"use strict\" ;"}
			s = append(s, &Indexed{N: fmt.Sprintf("three nested functions of %d forms with and without directives, probed at 4 places", nf), Count: nf * nf * nf * 8 * 16, At: func(i int) Input {
				next := func(l []string) string { s := l[i%len(l)]; i /= len(l); return s }
				f, g, h := next(functionForms), next(functionForms), next(functionForms)
				d1, d2, d3 := next(three), next(three), next(three)
				p1, p2, p3, p4 := next(short[:2]), next(short[:2]), next(short[:2]), next(short[:2])
				in := strings.Replace(h, "@", d3+" "+p1, 1)
				in = strings.Replace(g, "@", d2+"\n"+in+"\n"+p2, 1)
				return Input{Mode: ref.Script, Src: strings.Replace(f, "@", d1+"\n"+in+"\n"+p3, 1) + "\n" + p4}
			}})
		}
		return s
	}})
}

// strictContexts are places of statements in strict and in sloppy code.
var strictContexts = lines(`
|
"use strict" ; |
"a" ; 'use strict' ; |
function f ( ) { "use strict" ; | }
function f ( ) { "use strict" ; } |
( a => { "use strict" ; | } )
class A { m ( ) { | } }
class A { } |
x = { m ( ) { 'use strict' ; | } }
function f ( ) { | ; "use strict" }
function f ( ) { "use strict" ; function g ( ) { | } }
function f ( ) { "use strict" ; ( class { } ) ; { | } }
class A { m ( ) { function g ( ) { if ( a ) { | } } } }
`)

// literalPlaces are further places of literals.
var literalPlaces = lines(`
( { 1 : a , 2 : b } )
( { 1 ( ) { } } )
( { get 1 ( ) { } } )
( { set 1 ( a ) { } } )
( { async 1 ( ) { } } )
( { * 1 ( ) { } } )
( { async * 1 ( ) { } } )
( { 1 : a } ) => b
( { 1 : a } = b )
( { 1 : [ a ] } = b )
( { 1 : a = 2 , ... b } = c )
[ { 1 : a } ] = b
x = class { 1 ( ) { } }
x = class { get 1 ( ) { } set 2 ( a ) { } }
x = class { static 1 ( ) { } static get 2 ( ) { } async 3 ( ) { } }
x = class extends 1 { }
x = class { [ 1 ] ( ) { } }
for ( 1 ; 2 ; 3 ) ;
for ( var a = 1 ; ; ) ;
for ( a in 1 ) ;
switch ( 1 ) { case 2 : 3 }
x = a ? 1 : 2
x = y => 1
f ( 1 , ... 2 )
x . y [ 1 ] = 2
var { a = 1 } = 2
var [ a = 1 ] = 2
function f ( a = 1 ) { }
"use strict" ; 1
"a" ; "b"
"a"
`)

// longPrologues are long sequences of directives, one or none of which is the
// one for strict mode, and then a probe, in scripts, functions and blocks.
func longPrologues() Space {
	containers := append([]string{"@", "{ @ }", "if ( a ) { @ }", "function f ( ) { { @ } }", "switch ( a ) { case b : @ }"}, functionForms...)
	fillers := []string{"\"a#\" ;", "'a#'\n", "\"use strict \" ;", "\"use strict\" ;"}
	other := []string{"\"use strict\" ;", "'use strict'\n", "a ;", "( 'a' ) ;", ";"}
	type shape struct{ k, i int }
	var shapes []shape
	for _, k := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 32, 33, 64, 65, 100} {
		for i := 0; i <= k; i++ {
			if k <= 10 || i < 2 || i > k-3 || i%16 < 2 {
				shapes = append(shapes, shape{k, i})
			}
		}
	}
	probes := []string{"", "var static ;", "x = 017 ;"}
	per := len(shapes) * len(fillers) * len(other) * len(probes)
	return &Indexed{N: fmt.Sprintf("long prologues in %d containers", len(containers)), Count: len(containers) * per, At: func(i int) Input {
		next := func(l []string) string { s := l[i%len(l)]; i /= len(l); return s }
		probe, o, f := next(probes), next(other), next(fillers)
		s := shapes[i%len(shapes)]
		b := &strings.Builder{}
		for x := 0; x < s.k; x++ {
			if x == s.i {
				b.WriteString(o + " ")
			}
			b.WriteString(strings.Replace(f, "#", fmt.Sprint(x), 1) + " ")
		}
		return Input{Mode: ref.Script, Src: strings.Replace(containers[i/len(shapes)], "@", b.String()+probe, 1) + "\n" + probes[s.i%2]}
	}}
}

// hash replaces # by each of the given texts.
func (x *Indexed) hash(l []string) Space {
	return &Indexed{N: x.N + " with nested probes", Count: x.Count * len(l), At: func(i int) Input {
		in := x.At(i / len(l))
		in.Src = strings.ReplaceAll(in.Src, "#", l[i%len(l)])
		return in
	}}
}
