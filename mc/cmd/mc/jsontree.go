package main

import (
	"fmt"
	"math"
	"strconv"
	"unicode/utf16"
	"unicode/utf8"

	"verifmc/ref"
)

// J is a decoded JSON value. Objects keep duplicate and ordered fields.
type J struct {
	kind byte // 'n', 'b', 'd', 's', 'a', 'o'
	b    bool
	num  float64
	s    string
	a    []*J
	k    []string // keys of an object; values in a
}

var (
	jNull  = &J{kind: 'n'}
	jTrue  = &J{kind: 'b', b: true}
	jFalse = &J{kind: 'b'}
)

func (j *J) get(k string) *J {
	for i := range j.k {
		if j.k[i] == k {
			return j.a[i]
		}
	}
	return nil
}

func (j *J) str(k string) string {
	if v := j.get(k); v != nil && v.kind == 's' {
		return v.s
	}
	return ""
}

type jdec struct {
	d []byte
	i int
}

func decodeJSON(d []byte) (j *J, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("invalid JSON: %v", r)
		}
	}()
	x := &jdec{d: d}
	j = x.value()
	x.ws()
	if x.i != len(d) {
		return nil, fmt.Errorf("trailing bytes after JSON")
	}
	return j, nil
}

func (x *jdec) ws() {
	for x.i < len(x.d) && (x.d[x.i] == ' ' || x.d[x.i] == '\n' || x.d[x.i] == '\t' || x.d[x.i] == '\r') {
		x.i++
	}
}

func (x *jdec) lit(s string, j *J) *J {
	if x.i+len(s) > len(x.d) || string(x.d[x.i:x.i+len(s)]) != s {
		panic("bad literal")
	}
	x.i += len(s)
	return j
}

func (x *jdec) value() *J {
	x.ws()
	switch c := x.d[x.i]; c {
	case 'n':
		return x.lit("null", jNull)
	case 't':
		return x.lit("true", jTrue)
	case 'f':
		return x.lit("false", jFalse)
	case '"':
		return &J{kind: 's', s: x.str()}
	case '[':
		j := &J{kind: 'a'}
		x.i++
		x.ws()
		if x.d[x.i] == ']' {
			x.i++
			return j
		}
		for {
			j.a = append(j.a, x.value())
			x.ws()
			c := x.d[x.i]
			x.i++
			if c == ']' {
				return j
			}
			if c != ',' {
				panic("expected ,")
			}
		}
	case '{':
		j := &J{kind: 'o'}
		x.i++
		x.ws()
		if x.d[x.i] == '}' {
			x.i++
			return j
		}
		for {
			x.ws()
			j.k = append(j.k, x.str())
			x.ws()
			if x.d[x.i] != ':' {
				panic("expected :")
			}
			x.i++
			j.a = append(j.a, x.value())
			x.ws()
			c := x.d[x.i]
			x.i++
			if c == '}' {
				return j
			}
			if c != ',' {
				panic("expected ,")
			}
		}
	default:
		s := x.i
		for x.i < len(x.d) && (c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E' || c >= '0' && c <= '9') {
			x.i++
			if x.i < len(x.d) {
				c = x.d[x.i]
			}
		}
		f, err := strconv.ParseFloat(string(x.d[s:x.i]), 64)
		if err != nil {
			panic(err)
		}
		return &J{kind: 'd', num: f}
	}
}

func (x *jdec) str() string {
	if x.d[x.i] != '"' {
		panic("expected string")
	}
	x.i++
	s := x.i
	for x.d[x.i] != '"' && x.d[x.i] != '\\' {
		x.i++
	}
	if x.d[x.i] == '"' {
		x.i++
		return string(x.d[s : x.i-1])
	}
	out := append([]byte{}, x.d[s:x.i]...)
	hex := func() rune {
		v, err := strconv.ParseUint(string(x.d[x.i:x.i+4]), 16, 32)
		if err != nil {
			panic(err)
		}
		x.i += 4
		return rune(v)
	}
	for {
		c := x.d[x.i]
		x.i++
		switch c {
		case '"':
			return string(out)
		case '\\':
			e := x.d[x.i]
			x.i++
			switch e {
			case 'n':
				out = append(out, '\n')
			case 't':
				out = append(out, '\t')
			case 'r':
				out = append(out, '\r')
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'u':
				r := hex()
				if utf16.IsSurrogate(r) && x.d[x.i] == '\\' && x.d[x.i+1] == 'u' {
					x.i += 2
					r = utf16.DecodeRune(r, hex())
				}
				out = utf8.AppendRune(out, r)
			default:
				out = append(out, e)
			}
		default:
			out = append(out, c)
		}
	}
}

// diffTree compares the model's tree with the decoded ESTree JSON. It returns
// "" or a description of the first difference.
func diffTree(want *ref.Node, got *J) string {
	if d := diffNode(want, got, false); d != nil {
		return "at " + want.Type + d.path + ": " + d.msg
	}
	return ""
}

func short(j *J) string {
	switch {
	case j == nil:
		return "nothing"
	case j.kind == 'n':
		return "null"
	case j.kind == 'b':
		return strconv.FormatBool(j.b)
	case j.kind == 'd':
		return strconv.FormatFloat(j.num, 'g', -1, 64)
	case j.kind == 's':
		return strconv.Quote(j.s)
	case j.kind == 'a':
		return fmt.Sprintf("list of %d", len(j.a))
	}
	if t := j.str("type"); t != "" {
		return t
	}
	return "object"
}

func falsy(j *J) bool { return j == nil || j.kind == 'n' || j.kind == 'b' && !j.b }

// ignoredExtra lists fields that ESTree allows beyond the prescribed ones.
func ignoredExtra(typ, k string) bool {
	switch k {
	case "loc", "range", "start", "end", "parenthesizedExpression":
		return true
	case "each":
		return typ == "ForInStatement"
	case "expression":
		return typ == "FunctionDeclaration" || typ == "FunctionExpression"
	}
	return false
}

// diff is a difference at a path inside a tree.
type diff struct{ path, msg string }

func diffNode(want *ref.Node, got *J, importSource bool) *diff {
	if want == nil {
		if got == nil || got.kind == 'n' {
			return nil
		}
		return &diff{"", fmt.Sprintf("expected null, got %s", short(got))}
	}
	if got == nil || got.kind != 'o' {
		return &diff{"", fmt.Sprintf("expected %s, got %s", want.Type, short(got))}
	}
	if want.Type != "#regex" {
		if t := got.str("type"); t != want.Type {
			return &diff{"", fmt.Sprintf("expected %s, got %s", want.Type, short(got))}
		}
	}
	for i, k := range got.k {
		if k == "type" {
			continue
		}
		known := false
		for f := range want.F {
			if want.F[f].K == k {
				known = true
				break
			}
		}
		if known || falsy(got.a[i]) || ignoredExtra(want.Type, k) {
			continue
		}
		if want.Type == "Literal" && k == "value" && want.Get("regex") != nil {
			continue
		}
		return &diff{"." + k, fmt.Sprintf("unexpected %s in %s", short(got.a[i]), want.Type)}
	}
	for i := range want.F {
		f := &want.F[i]
		g := got.get(f.K)
		var d *diff
		switch v := f.V.(type) {
		case nil:
			if !(g == nil || g.kind == 'n') {
				d = &diff{"", fmt.Sprintf("expected null, got %s", short(g))}
			}
		case bool:
			if v && !(g != nil && g.kind == 'b' && g.b) || !v && !falsy(g) ||
				!v && want.Type == "Literal" && (g == nil || g.kind != 'b') {
				d = &diff{"", fmt.Sprintf("expected %v, got %s", v, short(g))}
			}
		case string:
			if g == nil && f.K == "raw" && importSource {
				continue
			}
			if g == nil || g.kind != 's' || g.s != v {
				d = &diff{"", fmt.Sprintf("expected %q, got %s", v, short(g))}
			}
		case float64:
			if g == nil || g.kind != 'd' || g.num != v || math.Signbit(g.num) != math.Signbit(v) {
				d = &diff{"", fmt.Sprintf("expected %v, got %s", v, short(g))}
			}
		case []uint16:
			if g == nil || g.kind != 's' {
				d = &diff{"", fmt.Sprintf("expected a string, got %s", short(g))}
			} else if m := diffString(v, g.s); m != "" {
				d = &diff{"", m}
			}
		case *ref.Node:
			d = diffNode(v, g, f.K == "source")
		case []*ref.Node:
			if g == nil || g.kind != 'a' {
				d = &diff{"", fmt.Sprintf("expected a list, got %s", short(g))}
			} else if len(g.a) != len(v) {
				d = &diff{"", fmt.Sprintf("expected %d elements, got %d", len(v), len(g.a))}
			} else {
				for i := range v {
					if d = diffNode(v[i], g.a[i], false); d != nil {
						d.path = "[" + strconv.Itoa(i) + "]" + d.path
						break
					}
				}
			}
		default:
			panic(fmt.Sprintf("field of type %T", v))
		}
		if d != nil {
			d.path = "." + f.K + d.path
			return d
		}
	}
	return nil
}

// diffString compares string values, unless they hold lone surrogates, which
// JSON text can not represent faithfully here.
func diffString(v []uint16, got string) string {
	for i := 0; i < len(v); i++ {
		if v[i] >= 0xD800 && v[i] < 0xDC00 && i+1 < len(v) && v[i+1] >= 0xDC00 && v[i+1] < 0xE000 {
			i++
		} else if v[i] >= 0xD800 && v[i] < 0xE000 {
			return ""
		}
	}
	if want := string(utf16.Decode(v)); want != got {
		return fmt.Sprintf("expected %q, got %q", want, got)
	}
	return ""
}
