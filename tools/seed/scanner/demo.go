// Reads and steps back, counting along.
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/lexer"
)

func main() {
	check := func(src, ops, want string) {
		got := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					got += fmt.Sprintf(" panic")
				}
			}()
			s := lexer.NewScanner(strings.NewReader(src), nil)
			for _, op := range ops {
				if op == 'r' {
					r := s.Read()
					if r == lexer.EOFRune {
						got += " eof"
					} else {
						got += fmt.Sprintf(" %q", r)
					}
				} else {
					s.Unread()
				}
				l := s.Location()
				got += fmt.Sprintf("@%d:%d", l.Row, l.Column)
			}
		}()
		if got != want {
			fmt.Printf("%q %s:\n got     %s\n expected%s\n", src, ops, got, want)
			os.Exit(1)
		}
	}
	check("a\nb", "rrurr", " 'a'@1:2 '\\n'@2:1@1:2 '\\n'@2:1 'b'@2:2")
	check("a", "rrur", " 'a'@1:2 eof@1:2@1:2 eof@1:2")
	check("a", "rruurr", " 'a'@1:2 eof@1:2@1:2@1:2 eof@1:2 eof@1:2")
}
