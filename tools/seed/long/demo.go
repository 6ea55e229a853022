// Looks at locations far into a source.
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/lexer"
)

func main() {
	for _, c := range []struct {
		text     string
		row, col bool
	}{{"a", false, true}, {"\n", true, false}, {"\r\n", true, false}} {
		n := 200000
		s := lexer.NewScanner(strings.NewReader(strings.Repeat(c.text, n)), nil)
		for i := 1; i <= n; i++ {
			for range c.text {
				s.Read()
			}
			row, col := 1, 1
			if c.row {
				row += i
			}
			if c.col {
				col += i
			}
			if l := s.Location(); l.Row != row || l.Column != col {
				fmt.Printf("%d times %q: %d:%d, expected %d:%d\n", i, c.text, l.Row, l.Column, row, col)
				os.Exit(1)
			}
		}
	}
}
