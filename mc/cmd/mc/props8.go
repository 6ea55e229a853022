package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
)

// need returns the value of an environment variable that check.sh sets.
func need(name string) string {
	v := os.Getenv(name)
	if v == "" {
		fmt.Fprintln(os.Stderr, name+" is not set")
		os.Exit(3)
	}
	return v
}

// indented is what the library gives for a script: the indented tree or an
// error.
func indented(src []byte, u *url.URL) (tree string, msg string) {
	defer func() {
		if r := recover(); r != nil {
			tree, msg = "", fmt.Sprint("panic: ", r)
		}
	}()
	n, err := parser.NewParser(lexer.NewLexer(lexer.NewScanner(bytes.NewReader(src), u))).Parse(parser.ParseOptions{Mode: parser.ScriptMode})
	if err != nil {
		return "", err.Error()
	}
	return indentTree(n)
}

func indentTree(n ast.Node) (tree, msg string) {
	b := &bytes.Buffer{}
	e := json.NewEncoder(b)
	e.SetEscapeHTML(false)
	e.SetIndent("", "  ")
	if err := e.Encode(n.ESTree()); err != nil {
		return "", err.Error()
	}
	return b.String(), ""
}

// --- C21 --------------------------------------------------------------------

// A kind of file that the command can be given. The content is nil for files
// that can not be read.
type fileKind struct {
	name    string
	content []byte
	make    func(path string) error
}

func writes(s string) func(string) error {
	return func(p string) error { return os.WriteFile(p, []byte(s), 0o644) }
}

var fileKinds = func() []fileKind {
	ok := func(name, s string) fileKind { return fileKind{name, []byte(s), writes(s)} }
	big := strings.Repeat("function f ( a , b ) { if ( a < b ) return [ a , \"x<y>&z\" , { p : b } ] ; }\n", 700)
	return []fileKind{
		ok("one.js", "a + 1;"),
		ok("two.js", "\"use strict\"; var b = [ , 2 ]\n"),
		{"missing.js", nil, func(string) error { return nil }},
		ok("broken.js", "var = 1;"),
		ok("empty.js", ""),
		{"directory", nil, func(p string) error { return os.Mkdir(p, 0o755) }},
		ok("html.js", "x = \"<a href='#'>&amp;</a>\" < y && z > /&<>/;"),
		ok("big.js", big),
		ok("late error.js", big+"\n)"),
		ok("utf8.js", "\ufeff'\u00e9\u2028\U0001F600' + \u00e9"),
		ok("invalid.js", "'a\xffb\xc3'"),
		{"dangling.js", nil, func(p string) error { return os.Symlink("nowhere", p) }},
		{"link.js", []byte("a + 1;"), func(p string) error { return os.Symlink("one.js", p) }},
		{"loop.js", nil, func(p string) error { return os.Symlink("loop.js", p) }},
		ok("unsupported.js", "`a${b}c`"),
		ok("dashes.js", "\"\\n---\\n\"\n//---\n"),
		ok("100%25 \"odd\" #name?.js", "odd"),
		ok("cut.js", "function f() { return"),
		{"one.js/below", nil, func(string) error { return nil }},
		ok("crlf.js", "a\r\nb\r\n// c\r\n"),
		ok("module.js", "import a from 'b';"),
		{strings.Repeat("n", 300) + ".js", nil, func(string) error { return nil }},
		ok("nul.js", "a\x00"),
		ok("nested.js", strings.Repeat("[", 300)+strings.Repeat("]", 300)),
		ok("huge.js", strings.Repeat(big, 8)),
		ok("wide.js", "x = '"+strings.Repeat("\U0001F600 ", 40000)+"';"),
		ok("deep.js", strings.Repeat("(", 20000)+strings.Repeat(")", 20000)),
		ok("deepest.js", strings.Repeat("[", 3000)+strings.Repeat("]", 3000)),
		ok("infinite.js", "1e999 + 0x10"),
		ok("surrogate.js", "'\\ud800' + '\\udc00\\ud83d\\ude00'"),
	}
}()

// workDir is a scratch directory with all kinds of files.
var workDir = sync.OnceValues(func() (string, error) {
	dir, err := os.MkdirTemp("", "estree")
	if err != nil {
		return "", err
	}
	for _, k := range fileKinds {
		if err := k.make(filepath.Join(dir, k.name)); err != nil {
			return "", err
		}
	}
	return dir, nil
})

var wantTrees sync.Map // file content to the indented tree, "" if there is none

func wantTree(content []byte, path string) string {
	if v, ok := wantTrees.Load(string(content)); ok {
		return v.(string)
	}
	t, _ := indented(content, &url.URL{Scheme: "file", Path: path})
	wantTrees.Store(string(content), t)
	return t
}

// judgeCommand runs the command on the files with the given numbers.
func judgeCommand(c *Case) string {
	dir, err := workDir()
	if err != nil {
		c.G.count("no scratch directory: " + err.Error())
		return ""
	}
	if strings.Contains(c.In.X, " ") {
		return judgeFault(c)
	}
	style, limit := c.In.X, 0
	if s, ok := strings.CutPrefix(c.In.X, "files:"); ok {
		limit, _ = strconv.Atoi(s)
	}
	var args []string
	var want []string
	failing := ""
	for _, f := range strings.Split(c.In.Src, ",") {
		if f == "" {
			continue
		}
		n, times := 0, 1
		if a, b, ok := strings.Cut(f, "*"); ok {
			times, _ = strconv.Atoi(b)
			f = a
		}
		n, _ = strconv.Atoi(f)
		k := fileKinds[n]
		path := filepath.Join(dir, k.name)
		arg := k.name
		if style == "absolute" {
			arg = path
		} else if style == "dotted" {
			arg = "./../" + filepath.Base(dir) + "/" + k.name
		}
		for i := 0; i < times; i++ {
			args = append(args, arg)
			if failing != "" {
				continue
			}
			tree := ""
			if k.content != nil {
				tree = wantTree(k.content, path)
			}
			if tree == "" {
				failing = arg
			} else {
				want = append(want, tree)
			}
		}
	}
	if style == "terminated" {
		args = append([]string{"--"}, args...)
	}
	cmd := exec.Command(need("MC_ESTREE"), args...)
	if limit > 0 {
		cmd = exec.Command("/bin/sh", append([]string{"-c", fmt.Sprintf("ulimit -n %d; exec \"$0\" \"$@\"", limit), need("MC_ESTREE")}, args...)...)
	}
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &stderr
	c.ran(1)
	err = cmd.Run()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		c.G.count("not started: " + err.Error())
		return ""
	}
	return judgeOutput(c, want, failing, out.String(), stderr.String(), err)
}

// judgeOutput judges a run of the command that has to print the wanted trees
// and then fail on a file, if there is one.
func judgeOutput(c *Case, want []string, failing, rest, stderr string, err error) string {
	for i, w := range want {
		if i > 0 {
			s := strings.TrimLeft(rest, "\n")
			if s, ok := strings.CutPrefix(s, "---\n"); ok {
				rest = strings.TrimLeft(s, "\n")
			} else {
				return fmt.Sprintf("a --- line is missing before document %d", i+1)
			}
		}
		s, ok := strings.CutPrefix(rest, w)
		if !ok {
			return fmt.Sprintf("document %d is %s instead of the tree of its file, %s", i+1, quoteShort(rest), quoteShort(w))
		}
		rest = s
	}
	rest = strings.Trim(rest, "\n")
	if failing == "" {
		c.G.count("all files printed")
		if rest != "" {
			return "more on standard output than the trees: " + quoteShort(rest)
		}
		if err != nil {
			return fmt.Sprintf("the command failed (%v) although all files can be parsed: %s", err, quoteShort(stderr))
		}
		return ""
	}
	c.G.count("a file failed")
	if rest != "" && !(rest == "---" && len(want) > 0) {
		return "standard output for the file that fails or the later ones: " + quoteShort(rest)
	}
	if err == nil {
		return "the command succeeded although a file can not be read or parsed"
	}
	// Progress messages name files, too.
	named := false
	for _, l := range strings.Split(stderr, "\n") {
		if !strings.Contains(l, "Parsing ") && (strings.Contains(l, failing) || strings.Contains(l, strings.Trim(strconv.Quote(failing), `"`))) {
			named = true
		}
	}
	if !named {
		return fmt.Sprintf("%q is not named on standard error: %s", failing, quoteShort(stderr))
	}
	return ""
}

// straceWorks tells whether system calls of the command can be made to fail.
var straceWorks = sync.OnceValue(func() bool {
	return exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=write", "-e", "inject=write:error=EIO:when=9999", "/bin/true").Run() == nil
})

// judgeFault runs the command on files while one system call, or it and all
// later ones of its kind, fails. X is "call error number +?file": the number of
// the call that fails, "+" if the later ones do, too, and the number of the
// argument whose calls are meant; that of standard output is -1.
func judgeFault(c *Case) string {
	if !straceWorks() {
		c.G.count("system calls can not be made to fail here")
		return ""
	}
	dir, err := workDir()
	if err != nil {
		c.G.count("no scratch directory: " + err.Error())
		return ""
	}
	x := strings.Fields(c.In.X)
	call, errno, when := x[0], x[1], x[2]
	which, _ := strconv.Atoi(x[3])
	scratch, err := os.MkdirTemp("", "estree-fault")
	if err != nil {
		c.G.count("no scratch directory: " + err.Error())
		return ""
	}
	defer os.RemoveAll(scratch)
	log, output := filepath.Join(scratch, "log"), filepath.Join(scratch, "output")
	var args, want []string
	full, failing, target := "", "", output
	for i, f := range strings.Split(c.In.Src, ",") {
		n, _ := strconv.Atoi(f)
		k := fileKinds[n]
		path := filepath.Join(dir, k.name)
		args = append(args, path)
		if i == which {
			target = path
		}
		tree := ""
		if k.content != nil {
			tree = wantTree(k.content, path)
		}
		if failing != "" {
			continue
		}
		if i > 0 {
			full += "\n---\n"
		}
		if tree == "" {
			failing = path
			continue
		}
		want = append(want, tree)
		full += tree
	}
	run := append([]string{"-f", "-qq", "-e", "signal=none", "-o", log, "-P", target, "-e", "trace=" + call, "-e", "inject=" + call + ":error=" + errno + ":when=" + when, need("MC_ESTREE")}, args...)
	cmd := exec.Command("strace", run...)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	o, err := os.Create(output)
	if err != nil {
		c.G.count("no output file: " + err.Error())
		return ""
	}
	defer o.Close()
	var stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = o, &stderr
	c.ran(1)
	err = cmd.Run()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		c.G.count("not started: " + err.Error())
		return ""
	}
	b, _ := os.ReadFile(output)
	got := string(b)
	l, _ := os.ReadFile(log)
	if !bytes.Contains(l, []byte("INJECTED")) {
		c.G.count("the call was not made")
		return judgeOutput(c, want, failing, got, stderr.String(), err)
	}
	if errno == "EINTR" {
		// Interrupted calls are made again.
		c.G.count(call + " interrupted")
		return judgeOutput(c, want, failing, got, stderr.String(), err)
	}
	c.G.count(call + " failed")
	if which < 0 {
		blanks := strings.NewReplacer("\n", "")
		if !strings.HasPrefix(blanks.Replace(full), blanks.Replace(got)) {
			return "a write failed, and what was written is not the beginning of the output: " + quoteShort(got)
		}
		if err == nil {
			return "the command succeeded although a part of its output could not be written: " + quoteShort(got)
		}
		return ""
	}
	if which < len(want) {
		want, failing = want[:which], target
	}
	return judgeOutput(c, want, failing, got, stderr.String(), err)
}

func quoteShort(s string) string {
	if len(s) > 160 {
		s = s[:100] + "..." + s[len(s)-50:]
	}
	return strconv.Quote(s)
}

func init() {
	register(&Property{ID: "C21", Judge: judgeCommand, NoRef: true, Patience: 4,
		Assumptions: []string{
			"the trees are those of the library, run in the explorer; blank lines around the documents do not count",
			"files without read permission are not explored, since checks run as root; unreadable files are directories and files whose system calls are made to fail (strace)",
		},
		Spaces: func(tier string) []Space {
			all := len(fileKinds)
			lists := func(name string, kinds, k int, x ...string) Space {
				n := 1
				for i := 0; i < k; i++ {
					n *= kinds
				}
				return &Indexed{N: fmt.Sprintf("%s: all lists of %d of %d kinds of files, %d ways of naming them", name, k, kinds, len(x)), Count: n * len(x), Chunk: 16, At: func(i int) Input {
					in := Input{X: x[i%len(x)]}
					i /= len(x)
					var f []string
					for j := 0; j < k; j++ {
						f = append(f, strconv.Itoa(i%kinds))
						i /= kinds
					}
					in.Src = strings.Join(f, ",")
					return in
				}}
			}
			var many []Input
			for _, limit := range []int{0, 12, 20} {
				for _, n := range []int{5, 10, 20, 50, 150, 600} {
					for _, last := range []string{"", ",2", ",3", ",4,3,1"} {
						many = append(many, Input{Src: fmt.Sprintf("0*%d,1*%d%s", n, n, last), X: fmt.Sprintf("files:%d", limit)})
					}
				}
			}
			// All lists of up to three of the first kinds of files; long ones.
			var some []string
			for _, a := range []string{"0", "1", "2", "3", "4", "6"} {
				some = append(some, a)
				for _, b := range []string{"0", "1", "2", "3", "4", "6"} {
					if a == b {
						continue
					}
					some = append(some, a+","+b)
					for _, d := range []string{"1", "3", "6"} {
						if d != a && d != b {
							some = append(some, a+","+b+","+d)
						}
					}
				}
			}
			long := []string{"7", "0,7", "7,0", "25,1", "0,25", "8", "0,8", "24,0", "27"}
			var output, input []Input
			faults := func(list []string, reads, more int) {
				for _, l := range list {
					writes := 2*strings.Count(l, ",") + 2 + more
					for k := 1; k <= writes || k <= reads; k++ {
						for _, later := range []string{"", "+"} {
							if k > writes {
								break
							}
							for i, e := range []string{"ENOSPC", "EIO", "EPIPE", "EAGAIN"} {
								if tier != "thorough" && (i == 1) == (later == "") {
									continue
								}
								output = append(output, Input{Src: l, X: fmt.Sprintf("write %s %d%s -1", e, k, later)})
							}
						}
						if k <= writes {
							output = append(output, Input{Src: l, X: fmt.Sprintf("write EINTR %d -1", k)})
						}
						if k > reads {
							continue
						}
						for f := 0; f <= strings.Count(l, ","); f++ {
							input = append(input, Input{Src: l, X: fmt.Sprintf("read EIO %d %d", k, f)}, Input{Src: l, X: fmt.Sprintf("read EINTR %d %d", k, f)}, Input{Src: l, X: fmt.Sprintf("read ESTALE %d+ %d", k, f)})
							if k > 1 {
								continue
							}
							for _, e := range []string{"EACCES", "EMFILE", "ENFILE", "EINTR", "EPERM", "ENOMEM", "ETXTBSY"} {
								input = append(input, Input{Src: l, X: fmt.Sprintf("openat %s %d %d", e, k, f)})
							}
						}
					}
				}
			}
			faults(some, 3, pick(tier, 0, 4))
			faults(long, pick(tier, 3, 150), pick(tier, 0, 4))
			faults([]string{"7", "0,7", "8"}, pick(tier, 15, 0), 0)
			return []Space{
				list("every write of the output fails in turn", output),
				list("every attempt to open or read a file fails in turn", input),
				lists("none", 1, 0, "relative", "terminated"),
				lists("one file", all, 1, "relative", "absolute", "dotted", "terminated"),
				lists("two files", all, 2, "relative"),
				lists("two files", pick(tier, 12, all), 2, "absolute"),
				lists("three files", pick(tier, 11, all), 3, "relative"),
				lists("four files", pick(tier, 5, 12), 4, "relative"),
				list("many files, few file descriptors", many),
			}
		}})
}

// --- C22 --------------------------------------------------------------------

// node is a process that runs batches of calls on fresh instances of the bundle.
type node struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var nodes sync.Map // *Goroutine to *node

func startNode(args ...string) (*node, error) {
	cmd := exec.Command("node", args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &node{cmd, in, bufio.NewReaderSize(out, 1<<20)}, nil
}

// nodeOf is the process that belongs to the goroutine.
func nodeOf(c *Case, args ...string) *node {
	if v, ok := nodes.Load(c.G); ok {
		return v.(*node)
	}
	n, err := startNode(args...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "node:", err)
		os.Exit(3)
	}
	nodes.Store(c.G, n)
	return n
}

// gone ends the process of the goroutine.
func (n *node) gone(c *Case) {
	nodes.Delete(c.G)
	n.cmd.Process.Kill()
	n.cmd.Wait()
}

type webAnswer struct {
	Result, Error, Other, Threw, Exited *string
}

func (a webAnswer) String() string {
	for _, f := range []struct {
		n string
		s *string
	}{{"exception", a.Threw}, {"program exited", a.Exited}, {"other value", a.Other}, {"error", a.Error}, {"result", a.Result}} {
		if f.s != nil {
			return f.n + " " + quoteShort(*f.s)
		}
	}
	return "no answer"
}

// jsString quotes a text for JavaScript; U+E000 stands for an unpaired
// surrogate.
func jsString(s string) string {
	b := &strings.Builder{}
	e := json.NewEncoder(b)
	e.SetEscapeHTML(false)
	e.Encode(s)
	return strings.ReplaceAll(strings.TrimSpace(b.String()), "\ue000", "\\ud800")
}

// calls makes the calls on a fresh instance.
func (n *node) calls(texts []string) ([]webAnswer, error) {
	q := make([]string, len(texts))
	for i, t := range texts {
		q[i] = jsString(t)
	}
	if _, err := io.WriteString(n.in, "["+strings.Join(q, ",")+"]\n"); err != nil {
		return nil, err
	}
	var r []webAnswer
	return r, n.answer(&r)
}

func (n *node) answer(to any) error {
	line, err := n.out.ReadBytes('\n')
	if err != nil {
		return err
	}
	return json.Unmarshal(line, to)
}

// tooDeepForWeb tells whether a text is nested so deep that the stack of a
// JavaScript engine may not hold it.
func tooDeepForWeb(src string) bool {
	depth, deepest, prefix := 0, 0, 0
	for _, r := range src {
		switch r {
		case '(', '[', '{', '?', '`':
			depth++
		case ')', ']', '}':
			depth--
		}
		deepest = max(deepest, depth)
		if !strings.ContainsRune("()[]{};", r) {
			prefix++
		}
	}
	// Nesting without brackets takes at least one character per level.
	return deepest > 200 || prefix > 400
}

func judgeWeb(c *Case) string {
	var texts []string
	for _, t := range strings.Split(c.In.Src, "\x02") {
		if s, ok := expandPump(Input{Src: t, X: strings.TrimPrefix(c.In.X, "web:")}); ok {
			t = s
		}
		texts = append(texts, t)
	}
	c.ran(int64(len(texts)))
	c.G.states += int64(len(texts) - 1)
	c.G.transitions += int64(len(texts) - 1)
	n := nodeOf(c, need("MC_DRIVER"), need("MC_WASM_EXEC"), need("MC_WASM"))
	got, err := n.calls(texts)
	if err != nil {
		n.gone(c)
		return "the JavaScript engine ended: " + err.Error()
	}
	if len(got) != len(texts) {
		return fmt.Sprintf("%d calls, %d answers (%s)", len(texts), len(got), got)
	}
	for i, g := range got {
		src := strings.ReplaceAll(texts[i], "\ue000", "\ufffd")
		what := fmt.Sprintf("call %d of %d, %s, gives %s", i+1, len(texts), quoteShort(src), g)
		if g.Threw != nil || g.Exited != nil || g.Other != nil || (g.Result == nil) == (g.Error == nil) {
			return what
		}
		if g.Error != nil && strings.Contains(*g.Error, "too deep") && tooDeepForWeb(src) {
			c.G.count("nested too deep")
			continue
		}
		tree, msg := indented([]byte(src), nil)
		switch {
		case tree == "" && (g.Error == nil || *g.Error != msg):
			return what + " instead of the error " + quoteShort(msg)
		case tree != "" && (g.Result == nil || strings.TrimSpace(*g.Result) != strings.TrimSpace(tree)):
			return what + " instead of the tree " + quoteShort(tree)
		case tree == "":
			c.G.count("error")
		default:
			c.G.count("tree")
		}
	}
	return ""
}

// batches groups texts into histories of one instance.
func batches(name string, n, size int, at func(i int) string) Space {
	return &Indexed{N: fmt.Sprintf("%s: %d calls, %d on each instance", name, n, size), Count: (n + size - 1) / size, Chunk: 1, At: func(i int) Input {
		var l []string
		for k := i * size; k < min(n, (i+1)*size); k++ {
			l = append(l, at(k))
		}
		return Input{Src: strings.Join(l, "\x02"), X: "web"}
	}}
}

func batchOf(name string, size int, l []string) Space {
	return batches(name, len(l), size, func(i int) string { return l[i] })
}

// deBruijn is a cyclic sequence over 0..k-1 that contains every sequence of
// length n.
func deBruijn(k, n int) []int {
	var seq []int
	a := make([]int, k*n)
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				seq = append(seq, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return seq
}

// orders is histories that together contain all sequences of n of the texts.
func orders(name string, l []string, n, size int) Space {
	seq := deBruijn(len(l), n)
	for i := 0; i < n-1; i++ {
		seq = append(seq, seq[i])
	}
	step := size - n + 1
	return &Indexed{N: fmt.Sprintf("%s: all sequences of %d of %d texts, %d calls on each instance", name, n, len(l), size), Count: (len(seq) + step - 1) / step, Chunk: 1, At: func(i int) Input {
		var s []string
		for k := i * step; k < min(len(seq), i*step+size); k++ {
			s = append(s, l[seq[k]])
		}
		return Input{Src: strings.Join(s, "\x02"), X: "web"}
	}}
}

// around puts blanks and line breaks before and after every text.
func around(l []string) (r []string) {
	ws := []string{" ", "\t", "\n", "\r", "\r\n", "\u2028", "\ufeff", "\u00a0", "\x00", "  \n ", "//\n", "/**/", ";", "#!a\n"}
	for _, t := range l {
		for _, w := range ws {
			r = append(r, w+t, t+w, w+t+w)
		}
	}
	return r
}

func init() {
	register(&Property{ID: "C22", Judge: judgeWeb, NoRef: true, Patience: 4,
		Assumptions: []string{
			"the bundle is compiled for js/wasm and run with the runtime support file of the installed Go toolchain and the installed Node.js; a browser's engine may have another stack size",
			"the answers are those of the library, run in the explorer",
			"texts nested deeper than a JavaScript stack may hold can be answered with an error instead (more than 200 open brackets, or 400 tokens)",
		},
		Spaces: func(tier string) []Space {
			var ind []string
			for _, p := range independents() {
				ind = append(ind, p[1:])
			}
			ind = append(ind, "", "\ue000", "'\ue000'", "'<a href=\"&\">\u2028\x00'", "\u00e9 = '\U0001F600'")
			script, module := programs()
			forms := append(append([]string{}, script...), module...)
			n := newNest(stmtT, 2)
			m := newNest(exprT, 2)
			var muts []string
			for _, f := range flat(stmtT) {
				tok := tokensOf(f)
				for i := 0; i < mutationCount(len(tok), 0); i++ {
					muts = append(muts, mutate(tok, nil, i))
				}
			}
			var deep []Input
			for _, f := range []string{"¦(¦a¦)¦", "¦[¦¦]¦", "¦{¦¦}¦", "¦- ¦a¦¦", "¦a=>¦b¦¦", "¦({a:¦b¦})¦", "¦function f(){¦¦}¦", "¦if(a)¦;¦¦", "¦x=class{m(){¦¦}}¦", "a¦+b¦¦¦", "a¦(b)¦¦¦", "a¦.b¦¦¦", "¦f(¦a¦)¦", "¦a?b:¦c¦¦", "¦({[¦a¦]:1})¦", "¦(a=¦b¦)=>c¦", "¦new ¦a¦¦", "¦a**¦b¦¦", "¦a=¦b¦¦", "¦try{¦¦}catch{}¦", "¦switch(a){case b:¦¦}¦", "¦({m(){¦¦}})¦", "¦async(¦a¦)¦", "¦x=class extends ¦b¦{}¦", "¦a;¦¦¦", "/*¦*¦¦¦*/a", "'¦a¦¦¦'", "¦a,¦b¦¦", "¦(¦¦¦", "¦[¦¦¦", "¦{¦¦¦", "x=¦`¦¦¦"} {
				for _, k := range pick(tier, []int{1, 50, 150, 300, 700, 1000, 3000, 9990, 20000, 100000}, []int{1, 2, 3, 10, 50, 100, 150, 199, 200, 300, 400, 500, 600, 700, 799, 800, 801, 900, 1000, 1499, 1500, 1501, 2000, 3000, 5000, 9990, 10000, 20000, 50000, 100000, 200000}) {
					p := strings.ReplaceAll(f, "¦", "\x01")
					deep = append(deep, Input{Src: p + "\x02a+1\x02" + p + "\x02(", X: "web:pump:" + strconv.Itoa(k)})
				}
			}
			cps := pick(tier, 0x3000, 0x110000)
			return []Space{
				orders("orders", ind, 2, 64),
				orders("orders", ind[:pick(tier, 14, 40)], 3, 64),
				list("deep and long texts, and calls afterwards", deep),
				batches("many calls", pick(tier, 6, 20)*10000, 10000, func(i int) string { return ind[i%len(ind)] }),
				batches("the same call many times", 8*2500, 2500, func(i int) string {
					return []string{"a + 1", "(", "", "'\ue000'", "class A{m(){}}", "a=>b", "@", "[[[[[[a]]]]]]"}[i/2500]
				}),
				batchOf("forms", 64, forms),
				batches("nested statements", n.total, 64, n.at),
				batches("nested expressions", m.total, 64, m.at),
				batchOf("mutations", 64, muts),
				batchOf("lexical forms", 16, lexicalTexts),
				batchOf("characters", 128, sequences([]string{"a", "1", "\n", "'", "/", "*", "\\", "{", "}", "(", ")", "`", "=", ">", ".", "#", "\u2028", "\ue000", " ", "\r", "\ufeff", "\x00", "\u00e9", "\U0001F600"}, pick(tier, 3, 4), "", "")),
				batchOf("characters in strings and comments", 128, append(sequences([]string{"a", "\n", "\r", "\\", "\t", " ", "\x00", "\u2028", "\ufeff", "\ue000", "\"", "\U0001F600"}, pick(tier, 3, 4), "b='", "'"),
					sequences([]string{"a", "\n", "\r", "\\", "\t", " ", "\x00", "\u2028", "\ufeff", "\ue000", "*/", "/"}, pick(tier, 3, 4), "b/*", "*/)")...)),
				batchOf("blanks around texts", 128, around(ind)),
				batchOf("tokens", 128, sequences(words("a 1 ; , ( ) [ ] { } . ... : = => + ++ function class var if async")[:], pick(tier, 3, 4), "", "")),
				batches("code points", 2*cps, 512, func(i int) string {
					if i%2 == 0 {
						return string(rune(i / 2))
					}
					return "'" + string(rune(i/2)) + "'"
				}),
			}
		}})
}
