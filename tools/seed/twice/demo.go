// Converts trees twice.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
)

func main() {
	for _, src := range []string{"var {a} = b", "var {a = 1, ...b} = c", "function f({a, b: [c]}) {}", "({a}) => a"} {
		n, err := parser.NewParser(lexer.NewLexer(lexer.NewScanner(strings.NewReader(src), nil))).Parse(parser.ParseOptions{Mode: parser.ScriptMode})
		if err != nil {
			panic(err)
		}
		a, _ := json.Marshal(n.ESTree())
		b, _ := json.Marshal(n.ESTree())
		if string(a) != string(b) {
			fmt.Printf("%q:\n%s\n%s\n", src, a, b)
			os.Exit(1)
		}
	}
}
