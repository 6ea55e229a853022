package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"iter"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifmc/ref"
)

// --- C20 --------------------------------------------------------------------

// A case of C20 is a list of programs, separated by U+0002 and each preceded by
// the digit of its mode, and either a schedule or a history.
//
//	sched:3,5,2   two parsers; the first reads 3 characters, then the second 5,
//	              then the first 2, and so on; then they finish in turn
//	hist          one after another; results are looked at again at the end

// result is what a parse amounts to.
type result struct {
	JSON, Err, Panic string
}

func resultOf(o *Outcome) result {
	var r result
	switch {
	case o.Panic != "":
		r.Panic = o.Panic
	case o.Err != nil:
		r.Err = fmt.Sprintf("%T %s", o.Err, o.Err)
		if o.Node != nil {
			r.Panic = "a tree besides the error"
		}
	case o.Node != nil:
		b, err := estreeJSON(o.Node)
		r.JSON = string(b)
		if err != nil {
			r.Err = "conversion: " + err.Error()
		}
	}
	return r
}

func (r result) String() string {
	s := r.JSON + r.Err + r.Panic
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

// baselines has the results of programs that were parsed alone, each in a
// process of its own.
var baselines = struct {
	sync.Mutex
	m map[string]result
}{m: map[string]result{}}

func baseline(prog string) (result, error) {
	baselines.Lock()
	defer baselines.Unlock()
	if r, ok := baselines.m[prog]; ok {
		return r, nil
	}
	cmd := exec.Command(self(), "baseline")
	cmd.Stdin = strings.NewReader(prog)
	out, err := cmd.Output()
	var r result
	if err == nil {
		err = json.Unmarshal(out, &r)
	}
	if err != nil {
		return r, err
	}
	baselines.m[prog] = r
	return r, nil
}

// baselineMain parses the program on its standard input.
func baselineMain() {
	b, _ := io.ReadAll(os.Stdin)
	mode, src := splitProg(string(b))
	o := runImpl([]rune(src), mode)
	json.NewEncoder(os.Stdout).Encode(resultOf(&o))
}

func splitProg(p string) (ref.Mode, string) { return ref.Mode(p[0] - '0'), p[1:] }

// stepper is a parser that stops before every character it reads.
type stepper struct {
	next func() (struct{}, bool)
	stop func()
	o    Outcome
	done bool
	n    int // characters read so far
}

type steppedSource struct {
	runeSource
	yield func(struct{}) bool
}

func (s *steppedSource) ReadRune() (rune, int, error) {
	s.yield(struct{}{})
	return s.runeSource.ReadRune()
}

func newStepper(prog string) *stepper {
	mode, src := splitProg(prog)
	st := &stepper{}
	st.next, st.stop = iter.Pull(func(yield func(struct{}) bool) {
		st.o = parseFrom(&steppedSource{runeSource{src: []rune(src)}, yield}, mode)
	})
	// Up to the first read.
	st.step()
	return st
}

func (s *stepper) step() {
	if s.done {
		return
	}
	if _, ok := s.next(); !ok {
		s.done = true
		return
	}
	s.n++
}

func judgeIndependent(c *Case) string {
	progs := strings.Split(c.In.Src, "\x02")
	c.ran(int64(len(progs)))
	var want []result
	for _, p := range progs {
		r, err := baseline(p)
		if err != nil {
			c.G.count("no baseline")
			return ""
		}
		want = append(want, r)
	}
	got := make([]*Outcome, len(progs))
	what := ""
	if s, ok := strings.CutPrefix(c.In.X, "sched:"); ok {
		what = "interleaved with another parser"
		st := []*stepper{newStepper(progs[0]), newStepper(progs[1])}
		cur := 0
		for _, f := range strings.Split(s, ",") {
			n, _ := strconv.Atoi(f)
			for ; n > 0 && !st[cur].done; n-- {
				st[cur].step()
			}
			cur = 1 - cur
		}
		for i := 0; i < 2; i++ {
			for !st[cur].done {
				st[cur].step()
			}
			cur = 1 - cur
		}
		got[0], got[1] = &st[0].o, &st[1].o
	} else if s, ok := strings.CutPrefix(c.In.X, "rounds:"); ok {
		// Every program once per round.
		rounds, _ := strconv.Atoi(s)
		for k := 0; k < rounds; k++ {
			for i, p := range progs {
				mode, src := splitProg(p)
				o := runImpl([]rune(src), mode)
				if got[i] == nil {
					got[i] = &o // looked at in the end
				} else if r := resultOf(&o); r != want[i] {
					return fmt.Sprintf("in round %d, program %d (%q) gives %s instead of %s", k+1, i+1, p, r, want[i])
				}
			}
		}
		what = "looked at after all rounds"
		c.ran(int64((rounds - 1) * len(progs)))
		c.G.states += int64(rounds - 1)
	} else {
		what = "after other parses"
		early := make([]result, len(progs))
		for i, p := range progs {
			mode, src := splitProg(p)
			o := runImpl([]rune(src), mode)
			got[i] = &o
			if i%2 == 0 { // every other result is looked at only in the end
				early[i] = resultOf(&o)
				if early[i] != want[i] {
					return fmt.Sprintf("program %d (%q) %s gives %s instead of %s", i+1, p, what, early[i], want[i])
				}
			}
		}
	}
	for i := range progs {
		if r := resultOf(got[i]); r != want[i] {
			return fmt.Sprintf("program %d (%q) %s gives %s instead of %s", i+1, progs[i], what, r, want[i])
		}
	}
	c.G.count("programs: " + strconv.Itoa(len(progs)))
	return ""
}

// independents are short programs that together use every part of the lexer and
// the parser.
func independents() []string {
	var r []string
	for _, p := range lines(`
a
1
0x1F
1_0.5
017
0b1
'a'
"\x41"
'\u{1F600}'
/a/g
/[/]/
/*a*/b
//a
a+b
-a
a?b:c
a,b
a=b
a**b
a??b
a&&b
a=>b
(a,b)=>c
({a,b=1})=>c
([a])=>b
(a=1)=>b
({a:b})
({get a(){}})
({async a(){}})
[a,,b]
[a,b]=c
({a}=b)
f(a,...b)
new A(b)
new A
a.b[c]
a++
--a
function f(a){return a}
function f(){"use strict"}
"use strict";a
async x=>x
async(a)=>b
async()
class A{m(){}}
class A extends B{}
var a=1,{b}=c
let a
const a=1
if(a)b;else c
for(;;)break
for(var a of b);
for(a in b);
while(a)b
do a;while(b)
l:for(;;)continue l
switch(a){case 1:default:}
try{}catch(e){}
throw a
return
a b
)
'a
/a
/*
1a
0x
@
+
({a=1})
1=a
017;"use strict"
"use strict";017
"use strict";let
yield
static
a =
`) {
		if p != "" {
			r = append(r, "0"+p)
		}
	}
	for _, p := range []string{"import a from'b'", "import{a as b}from'c'", "import*as a from'b'", "import'a'", "017", "static", "import{a"} {
		r = append(r, "1"+p)
	}
	for _, p := range []string{"a+1", "{a}", "a;", "function(){}"} {
		r = append(r, "2"+p)
	}
	return r
}

// readsOf is the number of times a program's source is read.
func readsOf(prog string) int {
	s := newStepper(prog)
	for !s.done {
		s.step()
	}
	return s.n
}

// schedules is every pair of programs with every schedule of the given number
// of preemptions.
func schedules(name string, progs []string, preempt int) Space {
	reads := make([]int, len(progs))
	for i, p := range progs {
		reads[i] = readsOf(p)
	}
	// The k-th slice belongs to parser k%2; a slice has at least one step.
	type part struct{ a, b, start int }
	var parts []part
	n := 0
	count := func(a, b int) int {
		k := 1
		for i := 0; i < preempt; i++ {
			k *= max(1, []int{reads[a], reads[b]}[i%2])
		}
		return k
	}
	for a := range progs {
		for b := range progs {
			parts = append(parts, part{a, b, n})
			n += count(a, b)
		}
	}
	return &Indexed{N: fmt.Sprintf("%s: all pairs of %d programs, all schedules with %d preemptions", name, len(progs), preempt), Count: n, Chunk: 4096, At: func(i int) Input {
		lo, hi := 0, len(parts)
		for hi-lo > 1 {
			if m := (lo + hi) / 2; parts[m].start <= i {
				lo = m
			} else {
				hi = m
			}
		}
		p := parts[lo]
		i -= p.start
		x := "sched:"
		for k := 0; k < preempt; k++ {
			d := max(1, []int{reads[p.a], reads[p.b]}[k%2])
			if k > 0 {
				x += ","
			}
			x += strconv.Itoa(i%d + 1)
			i /= d
		}
		return Input{Src: progs[p.a] + "\x02" + progs[p.b], X: x}
	}}
}

// interleavings is every pair of programs with every interleaving of their
// reads.
func interleavings(name string, progs []string) Space {
	var in []Input
	for _, a := range progs {
		for _, b := range progs {
			n, m := readsOf(a), readsOf(b)
			var walk func(n, m int, s []byte)
			walk = func(n, m int, s []byte) {
				if n == 0 || m == 0 {
					// Runs of the same parser make up the slices.
					x, cur, k := "sched:", byte(0), 0
					for _, p := range s {
						if p != cur {
							x += strconv.Itoa(k) + ","
							cur, k = p, 0
						}
						k++
					}
					in = append(in, Input{Src: a + "\x02" + b, X: x + strconv.Itoa(k)})
					return
				}
				walk(n-1, m, append(s, 0))
				walk(n, m-1, append(s, 1))
			}
			walk(n, m, nil)
		}
	}
	return list(fmt.Sprintf("%s: all pairs of %d programs, all interleavings", name, len(progs)), in)
}

func histories(name string, progs []string, k int) Space {
	n := 1
	for i := 0; i < k; i++ {
		n *= len(progs)
	}
	return &Indexed{N: fmt.Sprintf("%s: all sequences of %d of %d programs", name, k, len(progs)), Count: n, Chunk: 1024, At: func(i int) Input {
		var s []string
		for j := 0; j < k; j++ {
			s = append(s, progs[i%len(progs)])
			i /= len(progs)
		}
		return Input{Src: strings.Join(s, "\x02"), X: "hist"}
	}}
}

// pairsWithin is all sequences of two programs of the same group.
func pairsWithin(name string, groups [][]string) Space {
	var in []Input
	for _, g := range groups {
		for _, a := range g {
			for _, b := range g {
				if a != b {
					in = append(in, Input{Src: a + "\x02" + b, X: "hist"})
				}
			}
		}
	}
	return list(fmt.Sprintf("%s: all pairs within %d groups of programs", name, len(groups)), in)
}

// formPrograms are all forms of statements, expressions and imports.
func formPrograms() (r []string) {
	for _, t := range append(flat(stmtT), flat(exprT)...) {
		r = append(r, "0"+t)
	}
	for _, t := range importForms {
		r = append(r, "1"+t)
	}
	return r
}

// literalPrograms are literals that differ in little.
func literalPrograms() (r []string) {
	for _, t := range append(append([]string{}, numberForms...), stringForms...) {
		r = append(r, "0"+t, "1"+t)
	}
	return append(r, words("0a 0b 0aa 0ab 0ba 0A 0\u00e9 0/a/ 0/a/g 0/b/g 0/[/]/ 0/a/gi 0x=/=a/ 0x/=a/b 0a/b/g")...)
}

// wordPrograms are, for each of some words, uses in all contexts.
func wordPrograms(tier string) (r [][]string) {
	for _, w := range words("await yield let static async of get eval arguments enum public if x") {
		var g []string
		for _, mode := range []string{"0", "1"} {
			for _, c := range upToN(wordContexts, pick(tier, 9, 100)) {
				for _, p := range []string{"@", "var @ = 1", "x . @", "( { @ } )", "@ : a", "@ => 1", "function @ ( ) { }", "class @ { }"}[:pick(tier, 5, 8)] {
					g = append(g, mode+wrap(c, strings.ReplaceAll(p, "@", w)))
				}
			}
		}
		r = append(r, g)
	}
	return r
}

// placedPrograms are, for each program, the same text further down, further to
// the right, with more after it, and in other modes.
func placedPrograms(progs []string) (r [][]string) {
	for _, p := range progs {
		t := p[1:]
		r = append(r, []string{"0" + t, "1" + t, "2" + t, "0\n" + t, "0   " + t, "0" + t + "\n)", "0\"use strict\";" + t})
	}
	return r
}

func init() {
	register(&Property{ID: "C20", Judge: judgeIndependent, NoRef: true, Serial: true, Patience: 4, After: raceCheck,
		Assumptions: []string{
			"parsers are switched whenever one reads a character; what happens between two reads is covered by the happens-before check, which shows that two parsers share no unsynchronized memory, so that all interleavings of their steps are equivalent",
			"results are compared to those of fresh processes",
		},
		Spaces: func(tier string) []Space {
			progs := independents()
			tiny := []string{"0a", "01", "0)", "0'", "0/", "0a=", "0[]", "0``", "0=>", "0'a'", "017"}
			var some []string
			for i := 0; i < len(progs); i += pick(tier, 4, 2) {
				some = append(some, progs[i])
			}
			// Programs that need more room than others.
			large := append([]string{"0'" + strings.Repeat("a", 5000) + "'", "0" + strings.Repeat("a", 3000), "0" + strings.Repeat("(", 500) + "a" + strings.Repeat(")", 500), "0" + strings.Repeat("a+1;", 600), "0[" + strings.Repeat("a,", 700) + "]",
				"0/" + strings.Repeat("a", 3000) + "/", "0" + strings.Repeat("1", 3000), "0" + strings.Repeat("(", 500), "0'" + strings.Repeat("a", 3000), "0(" + strings.Repeat("a,", 300) + "b)=>c", "0(" + strings.Repeat("a,", 300) + "1)=>c", "0f(" + strings.Repeat("a,", 300) + "b)", "0class A{" + strings.Repeat("m(){}", 300) + "}", "0({" + strings.Repeat("m(){},", 300) + "})"}, some...)
			var rounds []Input
			for _, p := range append(progs, large[:14]...) {
				rounds = append(rounds, Input{Src: p, X: "rounds:" + strconv.Itoa(pick(tier, 1500, 70000))})
			}
			rounds = append(rounds, Input{Src: strings.Join(progs, "\x02"), X: "rounds:" + strconv.Itoa(pick(tier, 1000, 5000))})
			for i, p := range progs {
				rounds = append(rounds, Input{Src: p + "\x02" + progs[(i*7+3)%len(progs)], X: "rounds:" + strconv.Itoa(pick(tier, 300, 3000))})
			}
			s := []Space{
				list("many rounds", rounds),
				histories("pairs of long programs", large, 2),
				histories("pairs", progs, 2),
				histories("triples", some, 3),
				histories("pairs of forms", formPrograms(), 2),
				histories("pairs of literals", literalPrograms(), 2),
				pairsWithin("the same word in different contexts", wordPrograms(tier)),
				pairsWithin("the same text at different places and in different modes", placedPrograms(progs)),
				schedules("one switch", progs, 1),
				schedules("two switches", pick(tier, some, progs), 2),
				schedules("three switches", some[:pick(tier, 7, len(some))], 3),
				interleavings("tiny programs", tiny),
			}
			if tier == "thorough" {
				s = append(s, histories("all triples", progs, 3), histories("quadruples", some[:24], 4), schedules("four switches", some[:16], 4))
			}
			return s
		}})
}

// --- happens-before check ----------------------------------------------------

// raceMain runs in a binary built with the race detector. It parses all pairs of
// programs in two goroutines that are not ordered by anything; any access of
// both to the same memory, one of them a write, ends the process with status 66.
func raceMain(args []string) {
	progs := independents()
	var from, to = 0, len(progs) * len(progs)
	if len(args) > 0 {
		from, _ = strconv.Atoi(args[0])
		to = from + 1
	}
	rep := 1
	if len(args) > 0 {
		rep = 20
	}
	for i := from; i < to; i++ {
		fmt.Printf("%d\n", i)
		a, b := progs[i/len(progs)], progs[i%len(progs)]
		for k := 0; k < rep; k++ {
			var wg sync.WaitGroup
			for _, p := range []string{a, b} {
				wg.Add(1)
				go func() {
					defer wg.Done()
					mode, src := splitProg(p)
					o := runImpl([]rune(src), mode)
					resultOf(&o)
				}()
			}
			wg.Wait()
		}
	}
	fmt.Println("done")
}

// raceCheck runs the happens-before check; it returns the number of pairs and a
// violation, if any.
func raceCheck(id string) (pairs int64, note string, v *Violation) {
	bin := os.Getenv("MC_RACE")
	if bin == "" {
		return 0, "the happens-before check was not run: no binary", nil
	}
	run := func(args ...string) (last string, races bool, err error) {
		cmd := exec.Command(bin, append([]string{"race"}, args...)...)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		var out, stderr bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &limitedWriter{&stderr, 1 << 16}
		if err := cmd.Start(); err != nil {
			return "", false, err
		}
		t := time.AfterFunc(5*time.Minute, func() { cmd.Process.Kill() })
		err = cmd.Wait()
		t.Stop()
		f := strings.Fields(out.String())
		if len(f) > 0 {
			last = f[len(f)-1]
		}
		races = cmd.ProcessState.ExitCode() == 66 && strings.Contains(stderr.String(), "DATA RACE")
		raceReport = stderr.String()
		return last, races, err
	}
	last, races, err := run()
	switch {
	case last == "done" && err == nil:
		n := int64(len(independents()))
		return n * n, "", nil
	case !races:
		return 0, fmt.Sprintf("the happens-before check did not finish: %v", err), nil
	}
	_, again, _ := run(last)
	if !again {
		// It may take the pairs before.
		if _, again, _ = run(); !again {
			return 0, "a data race was not reproducible", nil
		}
	}
	i, _ := strconv.Atoi(last)
	progs := independents()
	return int64(i), "", &Violation{id, "happens-before", Input{Src: progs[i/len(progs)] + "\x02" + progs[i%len(progs)], X: "race:" + last}, "two parsers that run at the same time access the same memory: " + raceWhere()}
}

var raceReport string

// raceWhere extracts the functions from a report.
func raceWhere() string {
	var r []string
	for _, l := range strings.Split(raceReport, "\n") {
		if s := strings.TrimSpace(l); strings.HasPrefix(s, "github.com/jchv/") && len(r) < 4 {
			r = append(r, s)
		}
	}
	return strings.Join(r, ", ")
}
