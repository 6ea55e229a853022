// Parses sources that fail at some point.
package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/errs"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
)

type failing struct{ err error }

func (f failing) Read([]byte) (int, error) { return 0, f.err }

func main() {
	bad := 0
	src := "a;\nb = 'c'\n// d\ne\n"
	for _, fail := range []error{errors.New("disk on fire"), io.ErrUnexpectedEOF, os.ErrClosed, errors.New("EOF")} {
		for n := 0; n <= len(src); n++ {
			r := bufio.NewReader(io.MultiReader(strings.NewReader(src[:n]), failing{fail}))
			_, err := parser.NewParser(lexer.NewLexer(lexer.NewScanner(r, nil))).Parse(parser.ParseOptions{})
			var enc *errs.EncodingError
			if !errors.As(err, &enc) || !errors.Is(err, fail) || !strings.Contains(err.Error(), fail.Error()) {
				fmt.Printf("%q then %v: %v\n", src[:n], fail, err)
				bad++
			}
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}
