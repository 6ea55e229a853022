package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net/url"
	"runtime/debug"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/errs"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"

	"verifmc/ref"
)

// srcURL is the URL handed to every scanner; error locations must carry it.
var srcURL = &url.URL{Scheme: "file", Path: "/verif/input.js"}

// runeSource is an io.RuneScanner over runes that notices when the end of the
// input is consulted.
type runeSource struct {
	src    []rune
	pos    int
	last   bool // the previous operation was a successful ReadRune
	sawEOF bool
	misuse string
}

func (s *runeSource) ReadRune() (rune, int, error) {
	if s.pos >= len(s.src) {
		s.sawEOF, s.last = true, false
		return 0, 0, io.EOF
	}
	r := s.src[s.pos]
	s.pos++
	s.last = true
	return r, 1, nil
}

func (s *runeSource) UnreadRune() error {
	if !s.last {
		return fmt.Errorf("UnreadRune without ReadRune")
	}
	s.last = false
	s.pos--
	return nil
}

// Outcome is the observable result of one parse.
type Outcome struct {
	Node    ast.Node
	Err     error
	Panic   string // non-empty: the parser panicked
	SawEOF  bool
	Loc     ast.Location
	ErrKind string // syntax, encoding, parser, other
}

func (o *Outcome) accepted() bool { return o.Err == nil && o.Panic == "" && o.Node != nil }

func implMode(m ref.Mode) parser.ParseMode {
	switch m {
	case ref.Module:
		return parser.ModuleMode
	case ref.Expression:
		return parser.ExpressionMode
	}
	return parser.ScriptMode
}

// parseFrom runs the real parser on an arbitrary source.
func parseFrom(rs io.RuneScanner, mode ref.Mode) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			o.Node, o.Err = nil, nil
			o.Panic = fmt.Sprintf("%v", r)
			if debugPanics {
				o.Panic += "\n" + string(debug.Stack())
			}
		}
	}()
	p := parser.NewParser(lexer.NewLexer(lexer.NewScanner(rs, srcURL)))
	n, err := p.Parse(parser.ParseOptions{Mode: implMode(mode)})
	o.Node, o.Err = n, err
	o.classify()
	return o
}

var debugPanics = false

func (o *Outcome) classify() {
	switch e := o.Err.(type) {
	case nil:
	case *errs.SyntaxError:
		o.ErrKind, o.Loc = "syntax", e.Location
	case *errs.EncodingError:
		o.ErrKind, o.Loc = "encoding", e.Location
	case *errs.ParserError:
		o.ErrKind, o.Loc = "parser", e.Location
	default:
		o.ErrKind = "other"
	}
}

func runImpl(src []rune, mode ref.Mode) Outcome {
	rs := &runeSource{src: src}
	o := parseFrom(rs, mode)
	o.SawEOF = rs.sawEOF
	return o
}

// estreeJSON converts and encodes a tree; panics become errors.
func estreeJSON(n ast.Node) (b []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic in ESTree conversion: %v", r)
		}
	}()
	return json.Marshal(n.ESTree())
}
