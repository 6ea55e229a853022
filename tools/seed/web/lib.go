package main

import (
	"encoding/json"
	"os"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
)

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	texts := []string{}
	if err := json.Unmarshal(b, &texts); err != nil {
		panic(err)
	}
	for _, t := range texts {
		n, err := parser.NewParser(lexer.NewLexer(lexer.NewScanner(strings.NewReader(t), nil))).Parse(parser.ParseOptions{})
		if err != nil {
			os.Stdout.WriteString("error " + err.Error() + "\n")
			continue
		}
		os.Stdout.WriteString("result ")
		e := json.NewEncoder(os.Stdout)
		e.SetEscapeHTML(false)
		e.SetIndent("", "  ")
		if err := e.Encode(n.ESTree()); err != nil {
			panic(err)
		}
		os.Stdout.WriteString("\n")
	}
}
