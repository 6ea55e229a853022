package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/jchv/cleansheets/ecmascript/errs"
	"github.com/jchv/cleansheets/ecmascript/lexer"

	"verifmc/ref"
)

// --- C19 --------------------------------------------------------------------

// faultKinds are the failures a source can report. None of them is io.EOF.
var faultKinds = []error{
	errors.New("disk on fire"),
	io.ErrUnexpectedEOF,
	fs.ErrClosed,
	context.DeadlineExceeded,
	fmt.Errorf("wrapped: %w", &fs.PathError{Op: "read", Path: "x", Err: fs.ErrPermission}),
	errors.New("EOF"),
	bufio.ErrBufferFull,
	io.ErrNoProgress,
	&errs.SyntaxError{Err: errors.New("not really")},
	&errs.ParserError{Err: errors.New("not really")},
}

// faultSource delivers runes and fails at one position.
type faultSource struct {
	runeSource
	at      int
	err     error
	once    bool // afterwards the source works again
	withR   bool // the failing read returns a rune, too
	hit     int
	furtest int
}

func (s *faultSource) ReadRune() (rune, int, error) {
	if s.pos > s.furtest {
		s.furtest = s.pos
	}
	if s.pos == s.at && !(s.once && s.hit > 0) {
		s.hit++
		s.last = false
		if s.withR {
			return 'a', 1, s.err
		}
		return 0, 0, s.err
	}
	return s.runeSource.ReadRune()
}

// healthy is the outcome of a parse with a source that works, and the furthest
// position that was read.
type healthy struct {
	key  Input
	o    Outcome
	read int
	json []byte
	jerr error
}

func (g *Goroutine) healthy(src []rune, in Input) *healthy {
	in.X = ""
	if g.memo != nil && g.memo.key == in {
		return g.memo
	}
	h := &healthy{key: in}
	s := &faultSource{runeSource: runeSource{src: src}, at: -1}
	h.o = parseFrom(s, in.Mode)
	h.read = s.furtest
	if h.o.accepted() {
		h.json, h.jerr = estreeJSON(h.o.Node)
	}
	g.memo = h
	return h
}

// sameOutcome compares an outcome to the healthy one.
func (h *healthy) same(o *Outcome) string {
	switch {
	case o.Panic != h.o.Panic:
		return fmt.Sprintf("panic %q instead of %q", o.Panic, h.o.Panic)
	case o.accepted() != h.o.accepted():
		return errText(o) + " instead of " + errText(&h.o)
	case o.accepted():
		b, err := estreeJSON(o.Node)
		if fmt.Sprint(err) != fmt.Sprint(h.jerr) || !bytes.Equal(b, h.json) {
			return "a different tree"
		}
	default:
		if o.Err.Error() != h.o.Err.Error() || o.ErrKind != h.o.ErrKind || o.Loc != h.o.Loc || o.Node != nil {
			return errText(o) + " instead of " + errText(&h.o)
		}
	}
	return ""
}

// chunkReader is an io.Reader that delivers its bytes in chunks.
type chunkReader struct {
	b     []byte
	n     int
	empty bool  // every other read delivers nothing
	early bool  // the last bytes come together with the error
	err   error // at the end; io.EOF if nil
	odd   bool
}

func (c *chunkReader) end() error {
	if c.err == nil {
		return io.EOF
	}
	return c.err
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if c.odd = !c.odd; c.empty && c.odd && len(c.b) > 0 {
		return 0, nil
	}
	if len(c.b) == 0 {
		return 0, c.end()
	}
	n := copy(p, c.b[:min(c.n, len(c.b))])
	c.b = c.b[n:]
	if c.early && len(c.b) == 0 {
		return n, c.end()
	}
	return n, nil
}

func (c *Case) judgeFault() string {
	c.ran(1)
	f := strings.Split(c.In.X, ":")
	num := func(i int) int { n, _ := strconv.Atoi(f[i]); return n }
	h := c.G.healthy(c.Src, c.In)
	if h.o.Panic != "" {
		return "panic: " + h.o.Panic
	}
	// expect checks the answer to a failure at position at.
	expect := func(o *Outcome, at, read int, err error, hl *healthy, loc rowcol) string {
		if at <= read {
			c.G.nontrivial++
		}
		if at > read {
			if d := hl.same(o); d != "" {
				return fmt.Sprintf("a failure that is never reached changes the result: %s", d)
			}
			return ""
		}
		if o.Panic != "" {
			return "panic: " + o.Panic
		}
		if o.Node != nil {
			return "a tree in spite of a failing source"
		}
		if !hl.o.accepted() && o.Err != nil && hl.same(o) == "" {
			return "" // rejected for what comes before
		}
		if o.ErrKind != "encoding" {
			return fmt.Sprintf("the source failed with %q, but Parse returned: %s", err, errText(o))
		}
		if !errors.Is(o.Err, err) {
			return fmt.Sprintf("the error %q does not wrap the failure %q", o.Err, err)
		}
		if o.Loc.URI == nil || *o.Loc.URI != *srcURL || o.Loc.Row != loc.row || o.Loc.Column != loc.col {
			return fmt.Sprintf("the source failed at row %d, column %d, but the error %q has row %d, column %d", loc.row, loc.col, o.Err, o.Loc.Row, o.Loc.Column)
		}
		return errorText(o.Err, srcURL.String(), loc, err.Error())
	}
	switch f[0] {
	case "fault":
		// fault:position:kind:behaviour
		at, err := num(1), faultKinds[num(2)]
		s := &faultSource{runeSource: runeSource{src: c.Src}, at: at, err: err, once: f[3] == "once", withR: f[3] == "rune"}
		o := parseFrom(s, c.Mode)
		c.G.count("fault outcome: " + kindOf(&o))
		return expect(&o, at, h.read, err, h, locations(c.Src)[at])
	case "chunk":
		// chunk:size:empty:early, a healthy source in chunks
		r := &chunkReader{b: []byte(string(c.Src)), n: num(1), empty: f[2] == "1", early: f[3] == "1"}
		var rs io.RuneScanner = bufio.NewReaderSize(r, 16)
		switch f[4] {
		case "big":
			rs = bufio.NewReader(r)
		case "strings":
			rs = strings.NewReader(string(c.Src))
		case "bytes":
			rs = bytes.NewReader([]byte(string(c.Src)))
		case "buffer":
			rs = bytes.NewBuffer([]byte(string(c.Src)))
		}
		o := parseFrom(rs, c.Mode)
		c.G.nontrivial++
		c.G.count("chunk outcome: " + kindOf(&o))
		if d := h.same(&o); d != "" {
			return "reading in chunks changes the result: " + d
		}
	case "bytes":
		// bytes:position:kind:chunk, a failure between two bytes
		b := []byte(string(c.Src))[:num(1)]
		err := faultKinds[num(2)]
		mk := func() *bufio.Reader {
			return bufio.NewReaderSize(&chunkReader{b: b, n: num(3), err: err, early: f[4] == "1"}, 16)
		}
		// What a reader delivers before it fails.
		var got []rune
		for r := mk(); ; {
			x, _, e := r.ReadRune()
			if e != nil {
				break
			}
			got = append(got, x)
		}
		s := &faultSource{runeSource: runeSource{src: got}, at: -1}
		hb := &healthy{o: parseFrom(s, c.Mode)}
		hb.read = s.furtest
		if hb.o.accepted() {
			hb.json, hb.jerr = estreeJSON(hb.o.Node)
		}
		o := parseFrom(mk(), c.Mode)
		c.G.count("byte fault outcome: " + kindOf(&o))
		return expect(&o, len(got), hb.read, err, hb, locations(got)[len(got)])
	}
	return ""
}

func kindOf(o *Outcome) string {
	switch {
	case o.Panic != "":
		return "panic"
	case o.Err != nil:
		return o.ErrKind + " error"
	}
	return "tree"
}

// everyPosition is every position of every program combined with every variant
// of X, in which # stands for the position.
func everyPosition(name string, mode ref.Mode, progs []string, inBytes bool, variants []string) Space {
	var starts []int
	n := 0
	for _, p := range progs {
		starts = append(starts, n)
		if inBytes {
			n += len(p) + 1
		} else {
			n += utf8.RuneCountInString(p) + 1
		}
	}
	return &Indexed{N: fmt.Sprintf("%s: every position of %d texts x %d failures", name, len(progs), len(variants)), Count: n * len(variants), Chunk: 512, At: func(i int) Input {
		v := variants[i%len(variants)]
		i /= len(variants)
		lo, hi := 0, len(starts)
		for hi-lo > 1 {
			if m := (lo + hi) / 2; starts[m] <= i {
				lo = m
			} else {
				hi = m
			}
		}
		return Input{Mode: mode, Src: progs[lo], X: strings.Replace(v, "#", strconv.Itoa(i-starts[lo]), 1)}
	}}
}

// variantsOf combines every text with every variant of X.
func variantsOf(name string, mode ref.Mode, progs, variants []string) Space {
	return &Indexed{N: fmt.Sprintf("%s: %d texts x %d readers", name, len(progs), len(variants)), Count: len(progs) * len(variants), At: func(i int) Input {
		return Input{Mode: mode, Src: progs[i/len(variants)], X: variants[i%len(variants)]}
	}}
}

// sequences is all texts of up to depth lexemes.
func sequences(alpha []string, depth int, pre, suf string) []string {
	r := []string{pre + suf}
	level := []string{pre}
	for ; depth > 0; depth-- {
		var next []string
		for _, l := range level {
			for _, a := range alpha {
				next = append(next, l+a)
				r = append(r, l+a+suf)
			}
		}
		level = next
	}
	return r
}

var lexicalTexts = []string{
	"/* a\r\n * b */ a // c\n b", "a /* b", "// a", "'a\\\r\nb'", "\"\\u{1F600}\\x41\\u0041\\0\"", "'a", "'a\\", "/a[/]\\/b/gi", "/a", "/a\\", "/[", "0x1F_F", "0b1", "0o7", "1_0.5e+1", "1e", "1.", ".5", "1.5e-10 ;", "017", "089.5", "a\u2028b\u2029c\r\nd\re\nf", "\u00e9\U00010400 = '\U0001F600\ud7ff\ufffd'", ">>>=", "a>>>=b", "a>>>b", "a**=b", "a&&=b||=c??=d", "a?.b", "a?.5:1", "...", "a...b", "=>", "a\n=>", "\ufeffa", "`a${b}c`", "#a", "\\u0061", "@", "<!-- a", "--> a", "a-->b", "a<!--b", "\x00", "/=/", "a /= b / c", "a\n/b/g", "",
	" ", "\r", "\r\n", "\n\r", "/**/", "/***/", "/*\u2028*/a", "//\u2029a", "a//b\u2028c", "'\u2028\u2029'", "'\\\u2028'", "'\\u{10FFFF}'", "'\\u{110000}'", "'\\u{", "'\\u12", "'\\x1", "1n", "0x", "0b2", "1__0", "1_", "3in[]", "1..a", "1.a",
}

func init() {
	register(&Property{ID: "C19", Judge: (*Case).judgeFault, NoRef: true, Level: "fault_enumeration",
		Rule: "every position of every text x every kind of failure, and every way of chunking; non-trivial: the failure is reached, or the text is read in chunks; all cases of a space are distinct",
		Assumptions: []string{
			"a position is needed if the parser reads it when the source works; for rejected programs an implementation may also report the same syntax error as for a working source",
			"errors for which errors.Is(err, io.EOF) holds count as end of file",
		},
		Spaces: func(tier string) []Space {
			script, module := programs()
			clean := func(l []string) []string {
				var r []string
				for _, p := range l {
					r = append(r, tight(p))
				}
				return r
			}
			tScript, tModule, tExpr := clean(script), clean(module), clean(flat(exprT))
			var all []string
			for k := range faultKinds {
				for _, b := range []string{"always", "once", "rune"} {
					all = append(all, fmt.Sprintf("fault:#:%d:%s", k, b))
				}
			}
			few := []string{"fault:#:0:always", "fault:#:1:once", "fault:#:5:always"}
			var bytesAll []string
			for _, k := range []int{0, 1, 5} {
				for _, n := range []int{1, 2, 3, 100} {
					bytesAll = append(bytesAll, fmt.Sprintf("bytes:#:%d:%d:0", k, n), fmt.Sprintf("bytes:#:%d:%d:1", k, n))
				}
			}
			var chunks []string
			for _, n := range []int{1, 2, 3, 4, 5, 7, 16, 1000} {
				for _, e := range []string{"0:0:small", "1:0:small", "0:1:small", "1:1:big"} {
					chunks = append(chunks, fmt.Sprintf("chunk:%d:%s", n, e))
				}
			}
			chunks = append(chunks, "chunk:1:0:0:strings", "chunk:1:0:0:bytes", "chunk:1:0:0:buffer")
			toks := words(`a 1 "s" /r/ ; , ( ) [ ] { } . ... ? : = => + ++ - * / ?? ! new typeof in of function class static get async var let const if else for while do break return throw try catch finally switch case default`)
			chars := []string{"a", "1", "0", ".", "e", "x", "'", "\\", "/", "*", "=", "+", "<", "\n", "\r", " ", "(", "\u2028", "\u00e9", "\U0001F600"}
			three := sequences(chars, pick(tier, 3, 4), "", "")
			pairs := sequences(toks, pick(tier, 2, 3), "", "")
			for i, p := range pairs {
				pairs[i] = strings.TrimSpace(p)
			}
			var spaced []string
			for _, a := range toks {
				for _, b := range toks {
					spaced = append(spaced, a+" "+b)
				}
			}
			var nested []string
			for _, n := range []*nest{newNest(stmtT, 2), newNest(exprT, 2)} {
				for i := 0; i < n.total; i++ {
					if s := tight(n.at(i)); i%pick(tier, 7, 1) == 0 {
						nested = append(nested, s)
					}
				}
			}
			s := []Space{
				everyPosition("lexical forms", ref.Script, lexicalTexts, false, all),
				everyPosition("forms", ref.Script, script, false, few),
				everyPosition("forms without blanks", ref.Script, tScript, false, all),
				everyPosition("imports", ref.Module, tModule, false, all),
				everyPosition("forms in modules", ref.Module, tScript, false, few[:1]),
				everyPosition("expressions", ref.Expression, tExpr, false, all),
				everyPosition("nested forms", ref.Script, nested, false, few[:1]),
				everyPosition("characters", ref.Script, three, false, few),
				everyPosition("characters, expression", ref.Expression, sequences(chars, 3, "", ""), false, few[:1]),
				everyPosition("tokens", ref.Script, append(pairs, spaced...), false, few[:2]),
				everyPosition("bytes of lexical forms", ref.Script, lexicalTexts, true, bytesAll),
				everyPosition("bytes of forms", ref.Script, tScript, true, bytesAll[:2]),
				variantsOf("lexical forms", ref.Script, lexicalTexts, chunks),
				variantsOf("forms", ref.Script, script, chunks),
				variantsOf("imports", ref.Module, module, chunks),
				variantsOf("characters", ref.Script, three, chunks[:3]),
			}
			if libs := corpus(); len(libs) > 0 {
				n := pick(tier, 200, 4000)
				s = append(s, &Indexed{N: fmt.Sprintf("libraries: failures at %d places each", n), Count: len(libs) * (n + 1), At: func(i int) Input {
					in := libs[i%len(libs)]
					in.X = fmt.Sprintf("fault:%d:0:always", utf8.RuneCountInString(in.Src)*(i/len(libs))/n)
					return in
				}}, &Indexed{N: "libraries in chunks", Count: len(libs) * len(chunks), At: func(i int) Input {
					in := libs[i%len(libs)]
					in.X = chunks[i/len(libs)]
					return in
				}})
			}
			return s
		}})
}

// hexed are the bytes of strings in hexadecimal.
func hexed(l []string) []string {
	r := make([]string, len(l))
	for i, s := range l {
		r[i] = hex.EncodeToString([]byte(s))
	}
	return r
}

// pieceAtLength puts each piece in front of, behind and into the middle of
// strings of all lengths up to 300.
func pieceAtLength(pieces []string) Space {
	fillers := []string{"61", "c3a9", "e282ac", "f09f9880", "ff"}
	return &Indexed{N: fmt.Sprintf("each of %d pieces at the start, middle and end of strings of up to 300 characters", len(pieces)), Chunk: 512, Count: len(pieces) * len(fillers) * 3 * 301, At: func(i int) Input {
		p, i := pieces[i%len(pieces)], i/len(pieces)
		f, i := fillers[i%len(fillers)], i/len(fillers)
		n := i / 3
		k := []int{0, n / 2, n}[i%3]
		return Input{X: "hex:" + strings.Repeat(f, k) + p + strings.Repeat(f, n-k)}
	}}
}

// --- C23 --------------------------------------------------------------------

// utf16Of is the encoding of a Go string.
func utf16Of(b []byte) []uint16 {
	r := []uint16{}
	for len(b) > 0 {
		x, n := utf8.DecodeRune(b)
		r = utf16.AppendRune(r, x)
		b = b[n:]
	}
	return r
}

func judgeUTF16(c *Case) string {
	s := c.In.Src
	if x, ok := strings.CutPrefix(c.In.X, "hex:"); ok {
		var b []byte
		fmt.Sscanf(x, "%x", &b)
		s = string(b)
	}
	if x, ok := strings.CutPrefix(c.In.X, "rep:"); ok {
		n, _ := strconv.Atoi(x)
		s = strings.Repeat(s, n)
	}
	if x, ok := strings.CutPrefix(c.In.X, "cp:"); ok {
		n, _ := strconv.ParseInt(x, 16, 32)
		s = strings.ReplaceAll(s, "\x01", string(rune(n)))
	}
	want := utf16Of([]byte(s))
	c.ran(1)
	got := lexer.EncodeUTF16(s)
	c.G.count(fmt.Sprintf("units: %d", min(len(got), 9)))
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Sprintf("EncodeUTF16(%q) is %x, not %x", s, got, want)
	}
	// A result does not change when other strings are encoded.
	lexer.EncodeUTF16("zzz\U0001F600zzzzzzzzzzzz")
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Sprintf("EncodeUTF16(%q) changed to %x by encoding another string", s, got)
	}
	return ""
}

func init() {
	register(&Property{ID: "C23", Judge: judgeUTF16, NoRef: true, Assumptions: []string{"the oracle is unicode/utf8 and unicode/utf16 of the Go standard library"},
		Dead: func(c *Case) bool { return false },
		Spaces: func(tier string) []Space {
			// Code points at which something changes, and invalid bytes.
			atoms := []string{"\x00", "a", "\x7f", "\u0080", "\u07ff", "\u0800", "\ud7ff", "\ue000", "\ufffd", "\uffff", "\U00010000", "\U000103ff", "\U00010400", "\U0001F600", "\U0001ffff", "\U000fffff", "\U00100000", "\U0010ffff"}
			broken := []string{"80", "bf", "c0", "c2", "df", "e0", "e0a0", "ed", "eda080", "edbfbf", "ef", "efbf", "f0", "f090", "f09080", "f48fbf", "f4908080", "f5", "f8", "fe", "ff", "c080", "e08080", "f0808080", "61", "f09f9880", "c3a9", "e282ac", "00"}
			hex := func(l []string, k int) Space {
				n := 1
				for i := 0; i < k; i++ {
					n *= len(l)
				}
				return &Indexed{N: fmt.Sprintf("byte sequences: all strings of %d of %d pieces", k, len(l)), Count: n, Chunk: 512, At: func(i int) Input {
					x := "hex:"
					for j := 0; j < k; j++ {
						x += l[i%len(l)]
						i /= len(l)
					}
					return Input{X: x}
				}}
			}
			return []Space{
				codePoints("all, alone and in context", ref.Script, 0, 0x10FFFF, "\x01", "a\x01\U0001F600", "\x01\x01"),
				&Lex{N: "boundary code points", Alpha: atoms, Depth: pick(tier, 4, 5)},
				&Indexed{N: "boundary lengths", Count: len(atoms) * len(longLadder), At: func(i int) Input {
					return Input{Src: atoms[i%len(atoms)], X: fmt.Sprintf("rep:%d", longLadder[i/len(atoms)])}
				}},
				hex(broken, 1), hex(broken, 2), hex(broken, 3), hex(broken[:pick(tier, 20, 29)], 4),
				&Indexed{N: "all sequences of two bytes", Count: 65536, At: func(i int) Input { return Input{X: fmt.Sprintf("hex:%04x", i)} }},
				&Indexed{N: "all sequences of three bytes", Count: pick(tier, 0, 1<<24), Chunk: 4096, At: func(i int) Input { return Input{X: fmt.Sprintf("hex:%06x", i)} }},
				pieceAtLength(append(hexed(atoms), broken...)),
				&Indexed{N: "lengths", Count: len(atoms) * 70, At: func(i int) Input {
					return Input{Src: atoms[i%len(atoms)], X: fmt.Sprintf("rep:%d", i/len(atoms)*i/len(atoms))}
				}},
			}
		}})
}

// --- C24 --------------------------------------------------------------------

// judgeScanner replays a sequence of operations: r reads, u steps back.
func judgeScanner(c *Case) string {
	if c.In.X == "lex" {
		d, _ := lexAll(c, -1)
		if !strings.Contains(d, "the lexer is at") {
			d = "" // for C06 to judge
		}
		return d
	}
	ops, ok := strings.CutPrefix(c.In.X, "ops:")
	if !ok {
		return ""
	}
	c.valid = true
	locs := locations(c.Src)
	rs := &runeSource{src: c.Src}
	c.ran(1)
	s := lexer.NewScanner(rs, srcURL)
	pos, back, ateof := 0, false, false
	check := func(i int) string {
		l := s.Location()
		if l.URI == nil || *l.URI != *srcURL {
			return fmt.Sprintf("after %q the location has URL %v", ops[:i], l.URI)
		}
		if l.Row != locs[pos].row || l.Column != locs[pos].col {
			return fmt.Sprintf("after %q, at offset %d, the location is row %d, column %d, not row %d, column %d", ops[:i], pos, l.Row, l.Column, locs[pos].row, locs[pos].col)
		}
		return ""
	}
	if d := check(0); d != "" {
		return d
	}
	for i, op := range ops {
		switch op {
		case 'r':
			got := s.Read()
			want := lexer.EOFRune
			if ateof = pos == len(c.Src); !ateof {
				want = c.Src[pos]
				pos++
			}
			back = !ateof
			if got != want {
				return fmt.Sprintf("after %q, Read gives %q, not %q", ops[:i], got, want)
			}
		case 'u':
			// Stepping back once after reading a character, or at the end.
			if !back && !ateof {
				return ""
			}
			if back {
				pos--
			}
			back = false
			s.Unread()
		}
		if d := check(i + 1); d != "" {
			return d
		}
	}
	c.G.count(fmt.Sprintf("offset %d", pos))
	return ""
}

// opSequences is all sequences of reads and steps back of up to n operations in
// which every step back follows a read.
func opSequences(n int) []string {
	var r []string
	var walk func(s string)
	walk = func(s string) {
		if len(s) == n {
			r = append(r, s)
			return
		}
		walk(s + "r")
		if strings.HasSuffix(s, "r") {
			walk(s + "u")
		}
	}
	walk("")
	return r
}

func init() {
	register(&Property{ID: "C24", Judge: judgeScanner, NoRef: true, Assumptions: []string{"stepping back is explored for one character at a time, as io.RuneScanner allows"}, Spaces: func(tier string) []Space {
		alpha := []string{"a", "\n", "\r", "\u2028", "\u2029", "\U0001F600"}
		texts := sequences(alpha, pick(tier, 6, 7), "", "")
		ops := opSequences(pick(tier, 12, 14))
		// Texts with every operation sequence.
		space := func(name string, texts, ops []string) Space {
			return &Indexed{N: fmt.Sprintf("%s: %d texts x %d operation sequences", name, len(texts), len(ops)), Count: len(texts) * len(ops), Chunk: 1024, At: func(i int) Input {
				return Input{Src: texts[i/len(ops)], X: "ops:" + ops[i%len(ops)]}
			}}
		}
		long := []string{}
		for _, s := range []string{"a", "\n", "\r", "\r\n", "ab\u2028", "\n\r", "a\u2029\n"} {
			long = append(long, strings.Repeat(s, 300))
		}
		veryLong := []string{}
		for _, s := range []string{"a", "\n", "\r\n", "\u2028", "a\n"} {
			veryLong = append(veryLong, strings.Repeat(s, 70000/utf8.RuneCountInString(s)))
		}
		veryLong = append(veryLong, strings.Repeat("a", 40000)+strings.Repeat("\n", 100)+strings.Repeat("b", 30000))
		return []Space{
			space("all texts", texts, ops),
			space("texts at the end", sequences(alpha, 4, "", ""), opSequences(pick(tier, 14, 18))),
			variantsOf("tokens", ref.Script, append(sequences([]string{"a", "\n", "\r", "\u2028", "/", "*", "'", "\\", ".", "1", ">", "="}, pick(tier, 4, 5), "", ""), lexicalTexts...), []string{"lex"}),
			space("long texts", long, []string{strings.Repeat("r", 1000), strings.Repeat("rur", 700), strings.Repeat("ru", 100) + strings.Repeat("r", 950) + strings.Repeat("ur", 10)}),
			space("very long texts", veryLong, []string{strings.Repeat("r", 70010), strings.Repeat("rur", 35000)}),
			codePoints("single", ref.Script, 0, 0x10FFFF, "a\x01b", "\x01\x01", "\r\x01\n").(*Indexed).ops("rrurrrrurr"),
		}
	}})
}

// ops adds a sequence of operations to the inputs of a space; the code point is
// part of the text.
func (x *Indexed) ops(ops string) Space {
	return &Indexed{N: x.N + " with operations " + ops, Count: x.Count, Chunk: x.Chunk, At: func(i int) Input {
		in := x.At(i)
		cp, _ := strconv.ParseInt(strings.TrimPrefix(in.X, "cp:"), 16, 32)
		return Input{Src: strings.ReplaceAll(in.Src, "\x01", string(rune(cp))), X: "ops:" + ops}
	}}
}
