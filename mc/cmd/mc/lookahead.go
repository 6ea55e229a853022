//go:build lookahead

// The check of the parser's token scanner is a build of its own, so that the
// other checks do not depend on its interface.

package main

import (
	"fmt"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"

	"verifmc/ref"
)

// A history is a sequence of operations on a token scanner: s reads a token, a
// letter from a on peeks at that distance, r reads the last token again as a
// regular expression, e reads an expected name.
const farPeek = "abcdefghijklmno"

// plain replays the reads of a history on a lexer without any lookahead, and
// then reads n further tokens.
func plain(src []rune, reads string, n int) (last lexer.ReToken, at rowcol, err error) {
	l := lexer.NewLexer(lexer.NewScanner(&runeSource{src: src}, srcURL))
	next := func() lexer.ReToken { return lexer.ReToken{Token: l.Lex()} }
	for _, op := range reads {
		f := next
		if op == 'r' {
			f = l.ReLex
		}
		if last, err = lexNext(f); err != nil {
			return
		}
	}
	for ; n > 0; n-- {
		if last, err = lexNext(next); err != nil {
			return
		}
	}
	loc := l.Location()
	return last, rowcol{loc.Row, loc.Column}, nil
}

func judgeLookahead(c *Case) string {
	ops := strings.TrimPrefix(c.In.X, "look:")
	s := parser.NewScanner(lexer.NewLexer(lexer.NewScanner(&runeSource{src: c.Src}, srcURL)))
	c.ran(1)
	reads := "" // what was read, as a history for plain
	ahead := 0  // number of tokens peeked at and not read
	slash := false
	end := false // an error or the end of the explored part
	for i, op := range ops {
		before := fmt.Sprintf("after %q, %q", ops[:i], string(op))
		var got lexer.ReToken
		var err error
		dist := 0
		switch {
		case op == 's' || op == 'e':
			if op == 's' {
				got, err = lexNext(func() lexer.ReToken { return lexer.ReToken{Token: s.Scan()} })
			} else {
				got, err = lexNext(func() lexer.ReToken {
					return lexer.ReToken{Token: s.ScanExpect(lexer.TokenIdentifier, "the reason")}
				})
			}
			want, _, werr := plain(c.Src, reads, 1)
			if op == 'e' && werr == nil && want.Type != lexer.TokenIdentifier {
				if err == nil {
					return fmt.Sprintf("%s gives %v, which is no name", before, got.Token)
				}
				end = true
				break
			}
			if d := differs(got, want, err, werr); d != "" {
				return before + " " + d
			}
			end = err != nil
			reads += "s"
			ahead = max(0, ahead-1)
			slash = err == nil && strings.HasPrefix(want.Source(), "/")
		case op == 'r':
			// Only a slash that was just read can be the start of a regular
			// expression, and only if nothing was peeked at.
			if !slash || ahead > 0 {
				return ""
			}
			got, err = lexNext(s.ReScan)
			want, _, werr := plain(c.Src, reads+"r", 0)
			if d := differs(got, want, err, werr); d != "" {
				return before + " " + d
			}
			end = err != nil
			reads += "r"
			slash = false
		default:
			dist = strings.IndexRune(farPeek, op)
			got, err = lexNext(func() lexer.ReToken { return lexer.ReToken{Token: s.PeekAt(dist)} })
			want, _, werr := plain(c.Src, reads, dist+1)
			if d := differs(got, want, err, werr); d != "" {
				return before + " " + d
			}
			end = err != nil
			ahead = max(ahead, dist+1)
		}
		if end {
			c.G.count("an error")
			return ""
		}
		if n := s.PeekLen(); n != ahead {
			return fmt.Sprintf("%s leaves %d tokens peeked at, not %d", before, n, ahead)
		}
		_, at, _ := plain(c.Src, reads, 0)
		loc := s.Location()
		if loc.URI == nil || *loc.URI != *srcURL || (rowcol{loc.Row, loc.Column}) != at {
			return fmt.Sprintf("%s leaves the scanner at %s:%d:%d instead of row %d, column %d, where the last token that was read ends", before, loc.URI, loc.Row, loc.Column, at.row, at.col)
		}
	}
	c.G.count(fmt.Sprintf("%d tokens ahead", ahead))
	return ""
}

// differs compares the answer of the token scanner with that of the lexer.
func differs(got, want lexer.ReToken, err, werr error) string {
	switch {
	case werr != nil && err == nil:
		return fmt.Sprintf("gives %v instead of the error %q", got.Token, werr)
	case werr == nil && err != nil:
		return fmt.Sprintf("gives the error %q instead of %v", err, want.Token)
	case werr != nil:
		return ""
	case got != want:
		return fmt.Sprintf("gives %v (%q, line break %v, pattern %q, flags %q) instead of %v (%q, line break %v, pattern %q, flags %q)", got.Token, got.Literal, got.NewLine, got.Pattern, got.Flags, want.Token, want.Literal, want.NewLine, want.Pattern, want.Flags)
	}
	return ""
}

func init() {
	register(&Property{ID: "C28", Judge: judgeLookahead, NoRef: true, Assumptions: []string{
		"the tokens and locations are those of the lexer without lookahead, whose tokens C06 and C24 judge",
		"reading a regular expression is explored right after a slash with nothing peeked at, as the interface demands",
	}, Spaces: func(tier string) []Space {
		lexemes := []string{"a", "1", "/", "/=", "'s'", "(", " ", "\n", "/*\n*/", "@", "\r\n"}
		var ops func(alpha string, n int) []string
		ops = func(alpha string, n int) []string {
			l := []string{""}
			for ; n > 0; n-- {
				var m []string
				for _, p := range l {
					for _, o := range alpha {
						m = append(m, p+string(o))
					}
				}
				l = m
			}
			return l
		}
		space := func(name string, texts, ops []string) Space {
			return &Indexed{N: fmt.Sprintf("%s: %d texts x %d histories", name, len(texts), len(ops)), Count: len(texts) * len(ops), Chunk: 256, At: func(i int) Input {
				return Input{Src: texts[i/len(ops)], X: "look:" + ops[i%len(ops)]}
			}}
		}
		var long, far []string
		for _, unit := range []string{"a ", "a\n", "a/b/c ", "'s'(1\n", "=>", "\n"} {
			for _, n := range []int{20, 100, 1000} {
				long = append(long, strings.Repeat(unit, n))
			}
		}
		for _, o := range []string{"os", "soss", "bss", "cs", "as", "sos", "csss", "abcdefghijklmnossssssssssssssss", "osssssssssssss", "esb", "sr", "ssra", "ssrsb"} {
			for _, n := range []int{1, 2, 10, 100} {
				far = append(far, strings.Repeat(o, n))
			}
		}
		tokens := []string{"a", " / ", "/", "\n", "1 ", "[", "]", "\\/", "g", "'", "*"}
		return []Space{
			space("all texts of few tokens", sequences(lexemes, pick(tier, 3, 4), "", ""), ops("sabcr", pick(tier, 5, 6))),
			space("longer histories", sequences(lexemes, 2, "a /\n", "b 2\n/c/ d"), ops("sabcr", pick(tier, 7, 8))),
			space("expected names", sequences(lexemes, pick(tier, 3, 4), "", ""), ops("sabe", pick(tier, 4, 5))),
			space("slashes", sequences(tokens, pick(tier, 4, 5), "", ""), []string{"srs", "asrsa", "srssrs", "ssrsas", "bssrs", "sasrs", "ssssrs", "bsssrabs", "srasss", "asasasr"}),
			space("lexical forms", lexicalTexts, ops("sabcr", pick(tier, 5, 7))),
			space("far ahead", long, append(far, ops("scor", pick(tier, 5, 6))...)),
		}
	}})
}

var _ = ref.Script
