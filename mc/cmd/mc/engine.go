package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifmc/ref"
)

// Input is one point of an explored space, complete enough to be replayed.
type Input struct {
	Mode ref.Mode `json:"mode"`
	Src  string   `json:"src"`
	X    string   `json:"x,omitempty"` // further parameters (fault point, schedule, operations)
}

// Space is a finite set of inputs that is enumerated completely.
type Space interface {
	Name() string
	// Jobs splits the space into independent parts.
	Jobs(w *Worker) []func(g *Goroutine)
}

// Property is a decided property.
type Property struct {
	ID     string
	Judge  Judge
	Spaces func(tier string) []Space
	// NoRef is set when acceptance is not judged, so that the model is not used
	// for pruning.
	NoRef bool
	// Dead, if set, decides whether extensions of an input can be left out.
	Dead func(c *Case) bool
	// Serial explores in one goroutine, so that the history of the process is
	// the same on every run.
	Serial bool
	// Patience multiplies the time after which an input counts as hanging, for
	// inputs that stand for many executions or start processes; 0 is 1.
	Patience int
	// After, if set, is a further part of the check.
	After func(id string) (states int64, note string, v *Violation)
	// Level and Assumptions go to the evidence.
	Level       string
	Assumptions []string
	// Rule tells what makes a case of a fault enumeration non-trivial.
	Rule string
}

func (p *Property) patience() time.Duration {
	return time.Duration(max(1, p.Patience))
}

// Violation is a case for which the property does not hold.
type Violation struct {
	Property string `json:"property"`
	Space    string `json:"space"`
	Input    Input  `json:"input"`
	Detail   string `json:"detail"`
}

// Stats are measured during a run.
type Stats struct {
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Validated   int64            `json:"validated"`
	Pruned      int64            `json:"pruned"`
	Runs        int64            `json:"runs"`
	Nontrivial  int64            `json:"nontrivial"`
	Outcomes    map[string]int64 `json:"outcomes"`
	Spaces      []SpaceStat      `json:"spaces"`
	Samples     []string         `json:"samples"`
	Complete    bool             `json:"complete"`
	Violations  int64            `json:"violations"`
}

type SpaceStat struct {
	Name     string  `json:"name"`
	States   int64   `json:"states"`
	Complete bool    `json:"complete"`
	Wall     float64 `json:"wall_s"`
}

// Worker explores the spaces of one property in a process of its own.
type Worker struct {
	P        *Property
	Tier     string
	Deadline time.Time
	slots    []byte
	out      *json.Encoder
	outMu    sync.Mutex
	known    map[string]bool

	stop   atomic.Bool
	nviol  atomic.Int64
	space  string
	stats  Stats
	firstV atomic.Int64 // time of the first violation
}

const (
	slotSize  = 1 << 18
	slotCount = 64
)

// Goroutine is the state of one exploring goroutine.
type Goroutine struct {
	w    *Worker
	slot []byte
	seq  uint64

	states, transitions, validated, pruned int64
	runs, nontrivial                       int64
	outcomes                               map[string]int64
	samples                                []string
	memo                                   *healthy
}

// ran counts executions of the implementation.
func (c *Case) ran(n int64) {
	if c.G != nil {
		c.G.runs += n
	}
}

func (g *Goroutine) count(k string) { g.outcomes[k]++ }

// begin publishes the input that is about to be tried, so that a crash or hang
// can be attributed to it.
func (g *Goroutine) begin(in Input) {
	if g.slot == nil {
		return
	}
	g.seq++
	b := g.slot
	n := 0
	if len(in.Src)+len(in.X)+64 < slotSize {
		n = copy(b[48:], in.Src)
		copy(b[48+n:], in.X)
	} else {
		n = 1 << 30
	}
	binary.LittleEndian.PutUint64(b[8:], uint64(in.Mode))
	binary.LittleEndian.PutUint64(b[16:], uint64(n))
	binary.LittleEndian.PutUint64(b[24:], uint64(len(in.X)))
	binary.LittleEndian.PutUint64(b[32:], uint64(time.Now().UnixNano()))
	binary.LittleEndian.PutUint64(b[40:], 1)
	binary.LittleEndian.PutUint64(b, g.seq)
}

func (g *Goroutine) end() {
	if g.slot != nil {
		binary.LittleEndian.PutUint64(g.slot[40:], 0)
	}
}

type slotState struct {
	seq     uint64
	active  bool
	started time.Time
	in      Input
	tooBig  bool
}

func readSlot(b []byte) slotState {
	s := slotState{seq: binary.LittleEndian.Uint64(b), active: binary.LittleEndian.Uint64(b[40:]) == 1}
	s.in.Mode = ref.Mode(binary.LittleEndian.Uint64(b[8:]))
	s.started = time.Unix(0, int64(binary.LittleEndian.Uint64(b[32:])))
	n, x := binary.LittleEndian.Uint64(b[16:]), binary.LittleEndian.Uint64(b[24:])
	if n+x+48 > slotSize {
		s.tooBig = true
		return s
	}
	s.in.Src, s.in.X = string(b[48:48+n]), string(b[48+n:48+n+x])
	return s
}

// slowLimit, if set, lists the inputs that take longer (for development).
var slowLimit, _ = time.ParseDuration(os.Getenv("MC_SLOW"))

// Try judges one input.
func (g *Goroutine) Try(in Input) *Case {
	c := newCase(in, g)
	g.try(c)
	return c
}

func newCase(in Input, g *Goroutine) *Case {
	if s, ok := expandPump(in); ok {
		return &Case{Src: []rune(s), Mode: in.Mode, In: in, G: g}
	}
	src := []rune(in.Src)
	if s, ok := strings.CutPrefix(in.X, "cp:"); ok {
		cp, _ := strconv.ParseInt(s, 16, 32)
		for i, r := range src {
			if r == 1 {
				src[i] = rune(cp)
			}
		}
	}
	return &Case{Src: src, Mode: in.Mode, In: in, G: g}
}

func (g *Goroutine) try(c *Case) {
	g.begin(c.In)
	g.states++
	start := time.Now()
	if hunting > 0 {
		huntStart.Store(start.UnixNano())
	}
	d := c.judge(g.w.P)
	g.end()
	huntStart.Store(0)
	if slowLimit > 0 && time.Since(start) > slowLimit {
		fmt.Fprintln(os.Stderr, "slow:", time.Since(start), c.In)
	}
	if c.refr != nil {
		if c.refr.Verdict != ref.Unspec {
			g.validated++
		}
		g.count("model:" + c.refr.Verdict.String())
		if c.refr.Verdict == ref.Unspec {
			g.count("no claim: " + c.refr.Why)
		}
	}
	if c.valid {
		g.validated++
	}
	if c.impl != nil {
		switch {
		case c.impl.Panic != "":
			g.count("impl:panic")
		case c.impl.Err != nil:
			g.count("impl:" + c.impl.ErrKind + " error")
		case c.impl.Node != nil:
			g.count("impl:tree")
		}
	}
	if len(g.samples) < 3 && (len(c.In.Src) > 3 || c.In.X != "") && g.states%97 == 0 {
		if t := c.In.String(); len(t) < 300 {
			g.samples = append(g.samples, t)
		}
	}
	if d != "" {
		g.w.report(c.In, d)
	}
}

// judge runs the property's judge; a panic in the judge itself is an error of
// the implementation's observable API.
func (c *Case) judge(p *Property) (d string) {
	defer func() {
		if r := recover(); r != nil {
			d = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	return p.Judge(c)
}

func (in Input) String() string {
	s := [...]string{"script", "module", "expression"}[in.Mode] + " " + strconv.QuoteToASCII(in.Src)
	if len(s) > 300 {
		s = s[:150] + "..." + s[len(s)-100:]
	}
	if in.X != "" {
		s += " / " + in.X
	}
	return s
}

func (w *Worker) report(in Input, detail string) {
	if hunting > 0 {
		huntFound(w.P.ID, w.space, in, detail)
	}
	n := w.nviol.Add(1)
	w.firstV.CompareAndSwap(0, time.Now().UnixNano())
	if n <= 400 {
		w.outMu.Lock()
		w.out.Encode(map[string]any{"violation": Violation{w.P.ID, w.space, in, detail}})
		w.outMu.Unlock()
	}
	if n >= 200 {
		w.stop.Store(true)
	}
}

func (w *Worker) done() bool {
	if w.stop.Load() {
		return true
	}
	now := time.Now()
	if now.After(w.Deadline) {
		w.stop.Store(true)
		return true
	}
	if f := w.firstV.Load(); f != 0 && now.UnixNano()-f > int64(2*time.Second) {
		w.stop.Store(true)
		return true
	}
	return false
}

// Explore runs all spaces.
func (w *Worker) Explore() {
	w.stats.Outcomes = map[string]int64{}
	w.stats.Complete = true
	n := runtime.GOMAXPROCS(0)
	if w.P.Serial {
		n = 1
	}
	for _, sp := range append(w.P.Spaces(w.Tier), moreSpaces(w.P.ID, w.Tier)...) {
		if only := os.Getenv("MC_SPACE"); only != "" && !strings.Contains(sp.Name(), only) {
			continue
		}
		if hunting == 0 && w.done() {
			w.stats.Complete = false
			break
		}
		w.space = sp.Name()
		start := time.Now()
		if l, ok := sp.(*Lex); ok && hunting > 0 && l.Depth > 3 {
			c := *l
			c.Depth -= (l.Depth - 2) / 2
			sp = &c
		}
		jobs := sp.Jobs(w)
		if hunting > 0 {
			w.Deadline = start.Add(hunting)
			w.stop.Store(false)
		}
		step := stride(len(jobs))
		var next atomic.Int64
		var skipped atomic.Bool
		var wg sync.WaitGroup
		var mu sync.Mutex
		st := SpaceStat{Name: sp.Name()}
		var samples []string
		for i := 0; i < n; i++ {
			g := &Goroutine{w: w, outcomes: map[string]int64{}}
			if w.slots != nil && i < slotCount {
				g.slot = w.slots[i*slotSize : (i+1)*slotSize]
			}
			if g.slot != nil {
				g.seq = binary.LittleEndian.Uint64(g.slot)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					k := next.Add(1) - 1
					if k >= int64(len(jobs)) {
						break
					}
					if w.done() {
						skipped.Store(true)
						break
					}
					jobs[int(k)*step%len(jobs)](g)
				}
				mu.Lock()
				defer mu.Unlock()
				w.stats.States += g.states
				st.States += g.states
				w.stats.Transitions += g.transitions
				w.stats.Validated += g.validated
				w.stats.Pruned += g.pruned
				w.stats.Runs += g.runs
				w.stats.Nontrivial += g.nontrivial
				for k, v := range g.outcomes {
					w.stats.Outcomes[k] += v
				}
				samples = append(samples, g.samples...)
			}()
		}
		wg.Wait()
		st.Complete = !skipped.Load() && !w.stop.Load()
		st.Wall = time.Since(start).Seconds()
		w.stats.Complete = w.stats.Complete && st.Complete
		w.stats.Spaces = append(w.stats.Spaces, st)
		sort.Strings(samples)
		if len(samples) > 4 {
			samples = samples[:4]
		}
		for _, s := range samples {
			w.stats.Samples = append(w.stats.Samples, sp.Name()+": "+s)
		}
	}
	w.stats.Violations = w.nviol.Load()
}

// --- spaces -----------------------------------------------------------------

// Lex is the tree of all lexeme sequences over an alphabet up to a depth, in a
// fixed context. A sequence is not extended when parser and model both rejected
// it without looking at the end of the input: every extension then has the same
// outcome.
type Lex struct {
	N     string
	Mode  ref.Mode
	Pre   string
	Suf   []string // contexts that complete a sequence; "" if empty
	Alpha []string
	Sep   string // between lexemes
	Depth int
	// Distinct gives the names and numbers of a sequence different texts, so
	// that parts that are mixed up can be told apart.
	Distinct bool
}

func (l *Lex) Name() string {
	return fmt.Sprintf("%s: all sequences of <= %d of %d lexemes after %s, completed by %s",
		l.N, l.Depth, len(l.Alpha), strconv.QuoteToASCII(l.Pre), strconv.QuoteToASCII(strings.Join(l.suf(), " | ")))
}

func (l *Lex) suf() []string {
	if len(l.Suf) == 0 {
		return []string{""}
	}
	return l.Suf
}

// try handles one sequence and reports whether it can be extended.
func (l *Lex) try(g *Goroutine, text string) bool {
	bare := false
	var c0 *Case
	if l.Distinct {
		text = distinctNames(text)
	}
	for _, s := range l.suf() {
		c := g.Try(Input{Mode: l.Mode, Src: text + s})
		if s == "" {
			bare, c0 = true, c
		}
	}
	if !bare {
		c0 = g.Try(Input{Mode: l.Mode, Src: text})
	}
	return !c0.dead(g.w.P)
}

// dead reports whether no extension of the input can change the outcome.
func (c *Case) dead(p *Property) bool {
	if p.Dead != nil {
		return p.Dead(c)
	}
	o := c.Impl()
	if o.accepted() || o.SawEOF {
		return false
	}
	if p.NoRef {
		return true
	}
	r := c.Ref()
	return r.Verdict != ref.Accept && !r.SawEOF
}

func (l *Lex) Jobs(w *Worker) []func(g *Goroutine) {
	var jobs []func(g *Goroutine)
	jobs = append(jobs, func(g *Goroutine) { l.try(g, l.Pre) })
	for _, a := range l.Alpha {
		first := l.Pre + a
		if l.Depth < 2 {
			jobs = append(jobs, func(g *Goroutine) { g.transitions++; l.try(g, first) })
			continue
		}
		for i, b := range l.Alpha {
			second := first + l.Sep + b
			i := i
			jobs = append(jobs, func(g *Goroutine) {
				if i == 0 {
					g.transitions++
					l.try(g, first)
				}
				// The first lexeme alone may already be dead.
				if (&Case{Src: []rune(first), Mode: l.Mode}).dead(g.w.P) {
					g.pruned++
					return
				}
				l.walk(g, second, 2)
			})
		}
	}
	return jobs
}

func (l *Lex) walk(g *Goroutine, text string, depth int) {
	if depth&1 == 0 && g.w.done() {
		return
	}
	g.transitions++
	if !l.try(g, text) {
		g.pruned++
		return
	}
	if depth >= l.Depth {
		return
	}
	for _, a := range l.Alpha {
		l.walk(g, text+l.Sep+a, depth+1)
	}
}

// Indexed is a finite list of inputs given by a function of the index.
type Indexed struct {
	N     string
	Count int
	At    func(i int) Input
	Chunk int
}

func (x *Indexed) Name() string { return fmt.Sprintf("%s (%d)", x.N, x.Count) }

func (x *Indexed) Jobs(w *Worker) []func(g *Goroutine) {
	chunk := x.Chunk
	if chunk == 0 {
		chunk = 64
		if x.Count < 1024 {
			chunk = 4
		}
	}
	var jobs []func(g *Goroutine)
	for s := 0; s < x.Count; s += chunk {
		e := s + chunk
		if e > x.Count {
			e = x.Count
		}
		s := s
		jobs = append(jobs, func(g *Goroutine) {
			for i := s; i < e; i++ {
				if g.w.done() {
					return
				}
				g.transitions++
				g.Try(x.At(i))
			}
		})
	}
	return jobs
}

// mapped applies a function to the inputs of a space.
func mapped(name string, s Space, f func(in Input) Input) Space {
	x := s.(*Indexed)
	return &Indexed{N: name + ": " + x.N, Count: x.Count, Chunk: x.Chunk, At: func(i int) Input { return f(x.At(i)) }}
}

// distinctNames numbers the one-letter names and the ones that stand alone.
func distinctNames(s string) string {
	blank := func(i int) bool { return i < 0 || i >= len(s) || s[i] == ' ' || s[i] == '\n' }
	b := make([]byte, 0, len(s)+16)
	n := 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		if (c >= 'a' && c <= 'z' || c == '1') && blank(i-1) && blank(i+1) {
			n++
			if c != '1' {
				b = append(b, c)
			}
			b = strconv.AppendInt(b, int64(n), 10)
			continue
		}
		b = append(b, c)
	}
	return string(b)
}

// distinct gives the names in the inputs of a space different texts.
func distinct(s Space) Space {
	return mapped("distinct names", s, func(in Input) Input {
		in.Src = distinctNames(in.Src)
		return in
	})
}

// broken puts every token on a line of its own.
func broken(nl string, s Space) Space {
	return mapped("separated by "+strconv.QuoteToASCII(nl), s, func(in Input) Input {
		in.Src = strings.Join(tokensOf(in.Src), nl)
		return in
	})
}

// list makes a space of explicit inputs.
func list(name string, in []Input) Space {
	return &Indexed{N: name, Count: len(in), At: func(i int) Input { return in[i] }}
}

// --- worker process ---------------------------------------------------------

func mapSlots(path string) ([]byte, error) {
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return syscall.Mmap(int(f.Fd()), 0, slotSize*slotCount, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
}

func workerMain(id, tier, slotFile string, budget time.Duration) {
	p := findProperty(id)
	w := &Worker{P: p, Tier: tier, Deadline: time.Now().Add(budget), out: json.NewEncoder(os.Stdout)}
	debug.SetGCPercent(400)
	if slotFile != "" {
		b, err := mapSlots(slotFile)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		w.slots = b
	}
	w.Explore()
	w.out.Encode(map[string]any{"stats": w.stats})
}
