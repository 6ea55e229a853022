// Parses each probe and compares what comes out with what is expected.
// With -print, prints the outcomes instead.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/url"
	"os"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/errs"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
)

type probe struct {
	Mode     string `json:"mode"`
	Source   string `json:"source"`
	Expected string `json:"expected"`
}

func outcome(p probe) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("panic: %v", r)
		}
	}()
	u := &url.URL{Scheme: "file", Path: "/probe.js"}
	l := lexer.NewLexer(lexer.NewScanner(strings.NewReader(p.Source), u))
	if strings.HasPrefix(p.Mode, "tokens") {
		defer func() {
			if r := recover(); r != nil {
				out += fmt.Sprintf(" %T", r)
			}
		}()
		for i := 0; i < 1000; i++ {
			t := l.Lex()
			if t.Type == lexer.TokenNone {
				return
			}
			out += fmt.Sprintf(" %s(%q,%v)", t.Type, t.Source(), t.NewLine)
		}
		return
	}
	modes := map[string]parser.ParseMode{"script": parser.ScriptMode, "module": parser.ModuleMode, "expression": parser.ExpressionMode}
	n, err := parser.NewParser(l).Parse(parser.ParseOptions{Mode: modes[strings.TrimSuffix(p.Mode, "@")]})
	if err != nil {
		loc := ""
		var s *errs.SyntaxError
		if errors.As(err, &s) && strings.HasSuffix(p.Mode, "@") {
			loc = fmt.Sprintf(" at %v", &s.Location)
		}
		return fmt.Sprintf("%T%s", err, loc)
	}
	b, err := json.Marshal(n.ESTree())
	if err != nil {
		return "unencodable: " + err.Error()
	}
	return string(b)
}

func main() {
	print := os.Args[1] == "-print"
	b, err := os.ReadFile(os.Args[len(os.Args)-1])
	if err != nil {
		panic(err)
	}
	probes := []probe{}
	if err := json.Unmarshal(b, &probes); err != nil {
		panic(err)
	}
	bad := 0
	for i, p := range probes {
		got := outcome(p)
		if print {
			probes[i].Expected = got
		} else if got != p.Expected {
			fmt.Printf("%s %q:\n  got      %s\n  expected %s\n", p.Mode, p.Source, got, p.Expected)
			bad++
		}
	}
	if print {
		e := json.NewEncoder(os.Stdout)
		e.SetEscapeHTML(false)
		e.SetIndent("", " ")
		e.Encode(probes)
	} else if bad > 0 {
		os.Exit(1)
	}
}
