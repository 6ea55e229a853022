package main

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	"verifmc/ref"
)

// Case is one explored input together with everything observed about it. Parts
// are computed on demand.
type Case struct {
	Src  []rune
	Mode ref.Mode
	In   Input
	G    *Goroutine

	impl    *Outcome
	refr    *ref.Result
	valid   bool // replayed against a model other than ref
	jsonErr error
	jtree   *J
	jbytes  []byte
	jdone   bool
}

func (c *Case) Impl() *Outcome {
	if c.impl == nil {
		c.ran(1)
		o := runImpl(c.Src, c.Mode)
		c.impl = &o
	}
	return c.impl
}

func (c *Case) Ref() *ref.Result {
	if c.refr == nil {
		r := ref.Parse(c.Src, c.Mode)
		c.refr = &r
	}
	return c.refr
}

func (c *Case) JSON() (*J, error) {
	if !c.jdone {
		c.jdone = true
		c.jbytes, c.jsonErr = estreeJSON(c.Impl().Node)
		if c.jsonErr == nil {
			c.jtree, c.jsonErr = decodeJSON(c.jbytes)
		}
	}
	return c.jtree, c.jsonErr
}

// Judge decides a property for one case; it returns "" or what is wrong.
type Judge func(c *Case) string

func errText(o *Outcome) string {
	if o.Panic != "" {
		return "panic: " + o.Panic
	}
	if o.Err != nil {
		return fmt.Sprintf("%s error: %v", o.ErrKind, o.Err)
	}
	return "no tree and no error"
}

// judgeVerdict: acceptance agrees with the grammar.
func judgeVerdict(c *Case) string {
	r := c.Ref()
	o := c.Impl()
	if o.Panic != "" {
		return "neither accepted nor rejected: panic: " + o.Panic
	}
	switch r.Verdict {
	case ref.Accept:
		if !o.accepted() && r.Soft == "" {
			return "valid program not accepted: " + errText(o)
		}
	case ref.Reject:
		if o.accepted() {
			return "invalid program accepted; the grammar has: " + r.Why + " " + c.at(r.Hi)
		}
	}
	return ""
}

// at describes an offset.
func (c *Case) at(off int) string {
	l := locations(c.Src)[off]
	return fmt.Sprintf("(before row %d, column %d)", l.row, l.col)
}

// judgeTree: an accepted program has the prescribed tree. That includes programs
// about which it is left open whether they are accepted.
func judgeTree(c *Case) string {
	r := c.Ref()
	if r.Tree == nil || !c.Impl().accepted() {
		return ""
	}
	if len(c.Src) > 5000 && jsonDepth(r.Tree) > 9900 {
		return "" // beyond what encoding/json supports
	}
	j, err := c.JSON()
	if err != nil {
		return "tree can not be converted: " + err.Error()
	}
	return diffTree(r.Tree, j)
}

// jsonDepth is the nesting of a tree as JSON.
func jsonDepth(n *ref.Node) int {
	d := 0
	if n == nil {
		return d
	}
	for i := range n.F {
		switch v := n.F[i].V.(type) {
		case *ref.Node:
			d = max(d, jsonDepth(v))
		case []*ref.Node:
			for _, e := range v {
				d = max(d, 1+jsonDepth(e))
			}
		}
	}
	return d + 1
}

// judgeFull is acceptance and tree.
func judgeFull(c *Case) string {
	if s := judgeVerdict(c); s != "" {
		return s
	}
	return judgeTree(c)
}

// judgeReject: text outside of the grammar is rejected.
func judgeReject(c *Case) string {
	if r := c.Ref(); r.Verdict == ref.Reject && c.Impl().accepted() {
		return "invalid program accepted; the grammar has: " + r.Why + " " + c.at(r.Hi)
	}
	return ""
}

// judgeOutcome: the result is a tree or a reported error.
func judgeOutcome(c *Case) string {
	o := c.Impl()
	switch {
	case o.Panic != "":
		return "panic: " + o.Panic
	case o.Err == nil && o.Node == nil:
		return "neither a tree nor an error"
	case o.Err != nil && o.Node != nil:
		return "both a tree and an error"
	case o.Err != nil && o.ErrKind == "other":
		return fmt.Sprintf("error of unexpected type %T: %v", o.Err, o.Err)
	}
	return ""
}

type rowcol struct{ row, col int }

func (a rowcol) before(b rowcol) bool { return a.row < b.row || a.row == b.row && a.col < b.col }

// locations returns the row and column of every offset of src, and of its end.
func locations(src []rune) []rowcol {
	l := make([]rowcol, len(src)+1)
	row, col := 1, 1
	for i, r := range src {
		l[i] = rowcol{row, col}
		if ref.IsLineTerminator(r) {
			if !(r == '\n' && i > 0 && src[i-1] == '\r') {
				row++
			}
			col = 1
		} else {
			col++
		}
	}
	l[len(src)] = rowcol{row, col}
	return l
}

// errorText: the text of an error names its location, in front, and the reason.
func errorText(err error, url string, at rowcol, reason string) string {
	text := err.Error()
	prefix := url + ":" + strconv.Itoa(at.row) + ":" + strconv.Itoa(at.col)
	rest, ok := strings.CutPrefix(text, prefix)
	if !ok || rest == "" || rest[0] >= '0' && rest[0] <= '9' {
		return fmt.Sprintf("the text of the error at %s is %q, which does not begin with its location", prefix, text)
	}
	if reason == "" {
		if u := errors.Unwrap(err); u != nil {
			reason = u.Error()
		}
	}
	if reason == "" || !strings.Contains(rest, reason) {
		return fmt.Sprintf("the text of the error, %q, does not give its reason %q", text, reason)
	}
	return ""
}

// judgeLocation: syntax errors point at the offending token.
func judgeLocation(c *Case) string {
	o := c.Impl()
	if o.Err == nil || o.ErrKind == "other" || o.Panic != "" {
		return ""
	}
	if o.Loc.URI == nil || *o.Loc.URI != *srcURL {
		return fmt.Sprintf("error location has URL %v", o.Loc.URI)
	}
	got := rowcol{o.Loc.Row, o.Loc.Column}
	if d := errorText(o.Err, srcURL.String(), got, ""); d != "" {
		return d
	}
	l := locations(c.Src)
	lo, hi := 0, len(c.Src)
	r := c.Ref()
	if r.Verdict == ref.Reject {
		lo, hi = r.Lo, r.Hi
		if o.ErrKind != "syntax" {
			lo = 0 // something that is not supported comes first
		}
	}
	if r.Verdict == ref.Reject && l[hi].before(got) {
		hi = max(hi, ref.CoverEnd(c.Src, c.Mode))
	}
	if got.before(l[lo]) || l[hi].before(got) {
		return fmt.Sprintf("error %q reported at row %d, column %d, but the input stops being valid between row %d, column %d and row %d, column %d",
			o.Err.Error(), got.row, got.col, l[lo].row, l[lo].col, l[hi].row, l[hi].col)
	}
	if r.Verdict == ref.Reject {
		// The location has to be one that occurs in the range.
		for i := lo; i <= hi; i++ {
			if l[i] == got {
				return ""
			}
		}
		return fmt.Sprintf("error reported at row %d, column %d, which does not exist", got.row, got.col)
	}
	return ""
}
