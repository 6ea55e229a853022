package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// The supervisor runs the exploration in a child process, so that crashes that
// can not be recovered from, endless loops and runaway memory are observed and
// attributed to an input. Anything reported is confirmed in fresh processes.

const (
	hangAfter   = 10 * time.Second // candidate
	hangConfirm = 20 * time.Second // processor time when it is repeated alone
	memLimit    = 8 << 30
	singleMem   = 4 << 30
)

type runResult struct {
	violations []Violation
	stats      *Stats
	suspects   []Input // inputs that were being tried when the child died or hung
	cause      string
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return p
}

// explore runs one child.
func explore(id, tier string, budget time.Duration) (r runResult, err error) {
	dir, err := os.MkdirTemp("", "mc")
	if err != nil {
		return r, err
	}
	defer os.RemoveAll(dir)
	slotFile := filepath.Join(dir, "slots")
	f, err := os.Create(slotFile)
	if err != nil {
		return r, err
	}
	if err := f.Truncate(slotSize * slotCount); err != nil {
		return r, err
	}
	f.Close()
	slots, err := mapSlots(slotFile)
	if err != nil {
		return r, err
	}
	defer syscall.Munmap(slots)

	cmd := exec.Command(self(), "worker", id, tier, slotFile, budget.String())
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	stdout, err := cmd.StdoutPipe()
	if err != nil {
		return r, err
	}
	var stderr bytes.Buffer
	cmd.Stderr = &limitedWriter{&stderr, 1 << 20}
	if err := cmd.Start(); err != nil {
		return r, err
	}
	var finished atomic.Bool
	cause := make(chan string, 1)
	hung := make(chan []int, 1)
	monitorDone := make(chan struct{})
	defer func() {
		finished.Store(true)
		<-monitorDone // the slots are unmapped afterwards
	}()
	go func() {
		defer close(monitorDone)
		over := 0
		patience := findProperty(id).patience()
		for !finished.Load() {
			time.Sleep(100 * time.Millisecond)
			why := ""
			var which []int
			if rss(cmd.Process.Pid) > memLimit {
				why = "memory"
			}
			for i := 0; i < slotCount; i++ {
				s := readSlot(slots[i*slotSize : (i+1)*slotSize])
				if s.seq > 0 && s.active && time.Since(s.started) > hangAfter*patience {
					which = append(which, i)
				}
			}
			if len(which) > 0 {
				over++
				if over >= 5 && why == "" {
					why = "hang"
				}
			} else {
				over = 0
			}
			if why != "" && !finished.Load() {
				cause <- why
				hung <- which
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				return
			}
		}
	}()
	sc := bufio.NewScanner(stdout)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var m struct {
			Violation *Violation `json:"violation"`
			Stats     *Stats     `json:"stats"`
		}
		if json.Unmarshal(sc.Bytes(), &m) != nil {
			continue
		}
		if m.Violation != nil {
			r.violations = append(r.violations, *m.Violation)
		}
		if m.Stats != nil {
			r.stats = m.Stats
		}
	}
	werr := cmd.Wait()
	finished.Store(true)
	if r.stats != nil && werr == nil {
		return r, nil
	}
	select {
	case r.cause = <-cause:
	default:
		r.cause = "crash: " + firstLine(stderr.String()) + " (" + fmt.Sprint(werr) + ")"
	}
	var only map[int]bool
	if r.cause == "hang" {
		only = map[int]bool{}
		for _, i := range <-hung {
			only[i] = true
		}
	}
	for i := 0; i < slotCount; i++ {
		s := readSlot(slots[i*slotSize : (i+1)*slotSize])
		if s.seq > 0 && s.active && !s.tooBig && (only == nil || only[i]) {
			r.suspects = append(r.suspects, s.in)
		}
	}
	return r, nil
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

type limitedWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if l.b.Len()+len(p) <= l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

// single tries one input in a fresh process. It returns "" if the property held.
func single(id string, in Input, timeout time.Duration) string {
	dir, err := os.MkdirTemp("", "mc")
	if err != nil {
		return ""
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "replay.json")
	b, _ := json.Marshal(Violation{Property: id, Input: in})
	if os.WriteFile(file, b, 0o644) != nil {
		return ""
	}
	// The machine may be busy: what counts is processor time. Elapsed time only
	// counts if nothing is computed.
	ctx, cancel := context.WithTimeout(context.Background(), 15*timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, self(), "replay", file)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	var out, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &limitedWriter{&stderr, 1 << 20}
	if cmd.Start() != nil {
		return ""
	}
	var fat, slow atomic.Bool
	var fin atomic.Bool
	go func() {
		started := time.Now()
		for !fin.Load() {
			used := cpuTime(cmd.Process.Pid)
			if used > timeout || time.Since(started) > 3*timeout && used < time.Second {
				slow.Store(true)
				cmd.Process.Kill()
				return
			}
			if rss(cmd.Process.Pid) > singleMem {
				fat.Store(true)
				cmd.Process.Kill()
				return
			}
			time.Sleep(50 * time.Millisecond)
		}
	}()
	err = cmd.Wait()
	fin.Store(true)
	switch {
	case fat.Load():
		return fmt.Sprintf("memory grows beyond %d GB", singleMem>>30)
	case slow.Load():
		return fmt.Sprintf("no answer within %v", timeout)
	case ctx.Err() != nil:
		return ""
	case err == nil:
		return ""
	}
	if s := out.String(); strings.HasPrefix(s, "VIOLATED ") {
		return strings.TrimSpace(strings.TrimPrefix(s, "VIOLATED "))
	}
	if s := stderr.String(); strings.Contains(s, "fatal error:") || strings.Contains(s, "goroutine ") || strings.Contains(s, "runtime:") {
		i := strings.Index(s, "fatal error:")
		if i < 0 {
			i = 0
		}
		return "process crashed: " + firstLine(s[i:])
	}
	return ""
}

// cpuTime is the processor time that a child and its children have used.
func cpuTime(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	if len(f) < 15 {
		return 0
	}
	var t time.Duration
	for _, s := range f[11:15] { // user, system, and those of children that ended
		n, _ := strconv.ParseInt(s, 10, 64)
		t += time.Duration(n) * (time.Second / 100)
	}
	tasks, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/children", pid))
	for _, c := range tasks {
		b, _ := os.ReadFile(c)
		for _, s := range strings.Fields(string(b)) {
			if n, err := strconv.Atoi(s); err == nil {
				t += cpuTime(n)
			}
		}
	}
	return t
}

// confirm repeats a failure; it returns the detail if it always fails.
func confirm(id string, in Input, times int, timeout time.Duration) string {
	d := ""
	for i := 0; i < times; i++ {
		if d = single(id, in, timeout); d == "" {
			return ""
		}
	}
	return d
}

func replayMain(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	p := findProperty(v.Property)
	c := newCase(v.Input, &Goroutine{outcomes: map[string]int64{}})
	d := c.judge(p)
	if d != "" {
		fmt.Printf("VIOLATED %s\n", d)
		os.Exit(1)
	}
	fmt.Printf("HELD %s on %s\n", v.Property, v.Input)
}

// known reads the findings that are recorded rather than repaired.
func knownFindings(root, id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		// finding: property=C01 input={"mode":0,"src":"..."} text
		s, ok := strings.CutPrefix(sc.Text(), "finding: property="+id+" input=")
		if !ok {
			continue
		}
		dec := json.NewDecoder(strings.NewReader(s))
		var in Input
		if dec.Decode(&in) != nil {
			continue
		}
		m[inputKey(in)] = strings.TrimSpace(s[dec.InputOffset():])
	}
	return m
}

func inputKey(in Input) string { b, _ := json.Marshal(in); return string(b) }

// checkMain is the entry point of a registered check.
func checkMain(id, tier string) int {
	start := time.Now()
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	p := findProperty(id)
	budget := 300 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	if s := os.Getenv("MC_BUDGET"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			budget = d
		}
	}
	known := knownFindings(root, id)
	var all []Violation
	var stats *Stats
	var notes []string
	for attempt := 0; attempt < 2; attempt++ {
		r, err := explore(id, tier, budget-time.Since(start))
		if err != nil {
			notes = append(notes, "exploration could not be started: "+err.Error())
			continue
		}
		all = append(all, r.violations...)
		if r.stats != nil {
			stats = r.stats
			break
		}
		if len(all) > 0 {
			break
		}
		notes = append(notes, fmt.Sprintf("child ended (%s) while trying %d inputs", r.cause, len(r.suspects)))
		found := false
		for _, in := range r.suspects {
			if d := confirm(id, in, 2, hangConfirm*findProperty(id).patience()); d != "" {
				all = append(all, Violation{id, "supervisor", in, d})
				found = true
				break
			}
		}
		if found {
			break
		}
	}
	var more []Violation
	if p.After != nil && len(all) == 0 {
		n, note, v := p.After(id)
		if note != "" {
			notes = append(notes, note)
		}
		if v != nil {
			more = append(more, *v)
		}
		if stats != nil {
			stats.States += n
			stats.Transitions += n
			stats.Spaces = append(stats.Spaces, SpaceStat{Name: "happens-before check of pairs", States: n, Complete: note == ""})
		}
	}
	// again repeats the whole exploration, in which the violation depends on
	// what was explored before.
	var second map[string]bool
	again := func(v Violation) bool {
		if second == nil {
			second = map[string]bool{}
			if r, err := explore(id, tier, budget); err == nil {
				for _, v := range r.violations {
					second[inputKey(v.Input)] = true
				}
			}
		}
		return second[inputKey(v.Input)]
	}
	// The shortest violations are confirmed and reported.
	sort.SliceStable(all, func(i, j int) bool {
		a, b := all[i].Input, all[j].Input
		return len(a.Src)+len(a.X) < len(b.Src)+len(b.X)
	})
	all = append(more, all...)
	evid := filepath.Join(root, "evidence")
	os.MkdirAll(evid, 0o755)
	reported, hits := 0, 0
	tried := 0
	for _, v := range all {
		if msg, ok := known[inputKey(v.Input)]; ok {
			hits++
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, msg)
			continue
		}
		if tried >= 8 || reported >= 3 {
			continue
		}
		tried++
		d := v.Detail
		if v.Space != "supervisor" && v.Space != "happens-before" {
			if d = confirm(id, v.Input, 5, hangConfirm*p.patience()); d == "" && p.Serial && again(v) {
				d = v.Detail + " (after all the inputs explored before)"
			}
			if d == "" {
				notes = append(notes, "not reproducible: "+v.Input.String()+": "+v.Detail)
				continue
			}
		}
		v.Detail = d
		reported++
		file := filepath.Join(evid, fmt.Sprintf("replay-%s-%d.json", id, reported))
		b, _ := json.MarshalIndent(v, "", "  ")
		os.WriteFile(file, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
		fmt.Printf("  %s\n  %s\n", v.Input, strings.ReplaceAll(firstLine(d), "\n", " "))
	}
	cov := map[string]any{}
	exhaustive := false
	if stats != nil {
		exhaustive = stats.Complete && len(notes) == 0
		cov["states"] = stats.States
		cov["transitions"] = stats.Transitions
		cov["traces_validated_against_impl"] = stats.Validated
		if stats.Validated == 0 {
			// No model: every state is an execution of the implementation.
			cov["traces_validated_against_impl"] = stats.Runs
		} else {
			cov["executions"] = stats.Runs
		}
		if p.Level == "fault_enumeration" {
			delete(cov, "states")
			delete(cov, "traces_validated_against_impl")
			cov["evaluations"] = stats.States
			cov["distinct_nontrivial"] = stats.Nontrivial
			cov["rule"] = p.Rule
		}
		cov["pruned_prefixes"] = stats.Pruned
		cov["outcomes"] = stats.Outcomes
		cov["spaces"] = stats.Spaces
		cov["samples"] = stats.Samples
	} else {
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = 0, 0, 0
		if p.Level == "fault_enumeration" {
			cov["evaluations"], cov["distinct_nontrivial"], cov["rule"] = 0, 0, p.Rule
		}
		cov["samples"] = []string{}
	}
	if cov["samples"] == nil || len(cov["samples"].([]string)) == 0 {
		cov["samples"] = []string{"(none collected)"}
	}
	cov["exhaustive"] = exhaustive
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	level := p.Level
	if level == "" {
		level = "model_checking"
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": reported,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.WriteFile(filepath.Join(evid, id+".json"), append(b, '\n'), 0o644)
	if stats != nil {
		fmt.Printf("%s %s: %d states, %d transitions, %v validated, exhaustive=%v, %.1fs\n", id, tier,
			stats.States, stats.Transitions, stats.Validated+stats.Runs*b2i(stats.Validated == 0), exhaustive, time.Since(start).Seconds())
		if os.Getenv("MC_VERBOSE") != "" {
			for _, s := range stats.Spaces {
				fmt.Printf("  %-9d %5.1fs %v %s\n", s.States, s.Wall, s.Complete, s.Name)
			}
			var ks []string
			for k, v := range stats.Outcomes {
				ks = append(ks, fmt.Sprintf("%9d %s", v, k))
			}
			sort.Strings(ks)
			fmt.Println(strings.Join(ks, "\n"))
		}
	}
	for _, n := range notes {
		fmt.Println("note:", firstLine(n))
	}
	if reported > 0 {
		return 1
	}
	return 0
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}
