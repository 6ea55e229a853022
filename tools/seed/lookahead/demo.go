// Reads and peeks at tokens, and compares with the tokens of the text.
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
)

func main() {
	check := func(src, ops, want string) {
		got := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					got += fmt.Sprintf(" error %v", r)
				}
			}()
			s := parser.NewScanner(lexer.NewLexer(lexer.NewScanner(strings.NewReader(src), nil)))
			for _, op := range ops {
				t := lexer.Token{}
				switch op {
				case 's':
					t = s.Scan()
				case 'r':
					t = s.ReScan().Token
				case 'e':
					t = s.ScanExpect(lexer.TokenIdentifier, "expected name")
				default:
					t = s.PeekAt(int(op - '0'))
				}
				l := s.Location()
				got += " " + t.Source()
				if t.NewLine {
					got += "^"
				}
				got += fmt.Sprintf("@%d:%d+%d", l.Row, l.Column, s.PeekLen())
			}
		}()
		if got != want {
			fmt.Printf("%q %s:\n got     %s\n expected%s\n", src, ops, got, want)
			os.Exit(1)
		}
	}
	check("a b c d e f", "3sss2sss", " d@1:1+4 a@1:2+3 b@1:4+2 c@1:6+1 f@1:6+3 d@1:8+2 e@1:10+1 f@1:12+0")
	check("a\nb\n\nc d", "02s2sss", " a@1:1+1 c^@1:1+3 a@1:2+2 d@1:2+3 b^@2:2+2 c^@4:2+1 d@4:4+0")
	check("a b c d e f g h i j k l", "9sss9ssss", " j@1:1+10 a@1:2+9 b@1:4+8 c@1:6+7 TokenNone@1:6+10 d@1:8+9 e@1:10+8 f@1:12+7 g@1:14+6")
	check("a / b / c", "ssrs1s", " a@1:2+0 /@1:4+0 / b /@1:8+0 c@1:10+0 TokenNone@1:10+2 TokenNone@1:10+1")
	check("a if b", "0e", " a@1:1+1 a@1:2+0")
	check("as of b", "1ee", " of@1:1+2 error <nil>:1:3: syntax error: expected TokenIdentifier, got \"as\": expected name")
	check("(", "0e", " (@1:1+1 error <nil>:1:2: syntax error: expected TokenIdentifier, got \"(\": expected name")
}
