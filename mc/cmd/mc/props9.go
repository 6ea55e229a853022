package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
)

// --- C26 --------------------------------------------------------------------

// A pageJob is work for web/page.js: all histories of at most Depth events of
// the alphabet after the prefix, or the given histories, or texts for a page
// with the real bundle.
type pageJob struct {
	Start     pageStart  `json:"start"`
	Prefix    []string   `json:"prefix"`
	Alphabet  []string   `json:"alphabet,omitempty"`
	Depth     int        `json:"depth"`
	Histories [][]string `json:"histories,omitempty"`
	VM        bool       `json:"vm,omitempty"`
	Real      []string   `json:"real,omitempty"`
}

type pageStart struct {
	URL       string `json:"url"`
	Streaming bool   `json:"streaming"`
}

func (j pageJob) input() Input {
	if j.Prefix == nil {
		j.Prefix = []string{}
	}
	b := &strings.Builder{}
	e := json.NewEncoder(b)
	e.SetEscapeHTML(false)
	e.Encode(j)
	return Input{Src: strings.TrimSpace(b.String()), X: "page"}
}

func judgePage(c *Case) string {
	n := nodeOf(c, need("MC_PAGE_DRIVER"), need("MC_PAGE"), need("MC_WASM_EXEC"), need("MC_WASM"))
	if _, err := fmt.Fprintln(n.in, c.In.Src); err != nil {
		n.gone(c)
		return "the JavaScript engine ended: " + err.Error()
	}
	var r struct {
		N         int64
		Events    int64
		Kinds     map[string]int64
		Violation string
		At        []string
		Failed    string
		Shown     []struct{ Text, Output, Success, Error, Thrown string }
	}
	if err := n.answer(&r); err != nil {
		n.gone(c)
		return "the JavaScript engine ended: " + err.Error()
	}
	if r.Failed != "" {
		fmt.Fprintln(os.Stderr, "page.js:", r.Failed)
		os.Exit(3)
	}
	var job pageJob
	json.Unmarshal([]byte(c.In.Src), &job)
	if job.Real != nil {
		c.ran(int64(len(job.Real)))
		c.G.states += int64(len(job.Real))
		c.G.transitions += int64(len(job.Real))
		if len(r.Shown) != len(job.Real) {
			return fmt.Sprintf("%d texts, %d answers", len(job.Real), len(r.Shown))
		}
		for i, g := range r.Shown {
			if g.Thrown != "" {
				return "uncaught exception " + g.Thrown + " for " + quoteShort(job.Real[i])
			}
			if g.Text != job.Real[i] {
				return fmt.Sprintf("the editor has %q instead of %q", g.Text, job.Real[i])
			}
			tree, msg := indented([]byte(job.Real[i]), nil)
			what := fmt.Sprintf("for %s the page with the real bundle shows output %s, success %q, error %q", quoteShort(job.Real[i]), quoteShort(g.Output), g.Success, g.Error)
			switch {
			case tree == "" && (!strings.Contains(g.Error, msg) || !strings.Contains(g.Output, msg) || g.Success != ""):
				return what + " instead of the error " + msg
			case tree != "" && (strings.TrimSpace(g.Output) != strings.TrimSpace(tree) || g.Error != "" || g.Success == ""):
				return what + " instead of the tree " + quoteShort(tree)
			case tree == "":
				c.G.count("real bundle: error shown")
			default:
				c.G.count("real bundle: tree shown")
			}
		}
		return ""
	}
	c.ran(r.N)
	c.G.states += r.N - 1
	c.G.transitions += r.Events - 1
	for k, v := range r.Kinds {
		c.G.outcomes[k] += v
	}
	if r.Violation != "" {
		return fmt.Sprintf("%s (page opened with %q, streaming %v, events %s)", r.Violation, job.Start.URL, job.Start.Streaming, strings.Join(r.At, " "))
	}
	return ""
}

// pageHistories explores all histories of up to depth events from every start,
// one job for every split-th prefix.
func pageHistories(name string, starts []pageStart, prefixes [][]string, alphabet []string, split, depth int, context bool) Space {
	var l []Input
	for _, s := range starts {
		for _, p := range prefixes {
			// Everything shorter than the split, and then one job for every
			// sequence of split events.
			l = append(l, pageJob{Start: s, Prefix: p, Alphabet: alphabet, Depth: split - 1, VM: context}.input())
			seqs := [][]string{p}
			for i := 0; i < split; i++ {
				var next [][]string
				for _, q := range seqs {
					for _, e := range alphabet {
						next = append(next, append(append([]string{}, q...), e))
					}
				}
				seqs = next
			}
			for _, q := range seqs {
				l = append(l, pageJob{Start: s, Prefix: q, Alphabet: alphabet, Depth: depth - split, VM: context}.input())
			}
		}
	}
	return list(fmt.Sprintf("%s: all histories of <= %d of %d events, %d pages, %d prefixes", name, depth, len(alphabet), len(starts), len(prefixes)), l)
}

func init() {
	register(&Property{ID: "C26", Judge: judgePage, NoRef: true, Patience: 4,
		Assumptions: []string{
			"the page's scripts run in a stand-in for a browser (mc/web/page.js): elements, events, timers, address, clipboard and loading are modelled as far as the page uses them, and timers are as exact as the clock",
			"the stand-in for the parser in these histories answers with an error for texts with an open parenthesis; the page with the real bundle is explored for sequences of texts",
			"an exception after the bundle has exited is not judged",
		},
		Spaces: func(tier string) []Space {
			starts := []pageStart{{"", true}, {"?code=%28", true}, {"?x=1&code=#x", true}, {"", false}, {"?code=a%2Bb+c%0D%0A&y=%20", false}}
			every := words("ta te tz w250 w500 l F X s h")
			loaded := words("ta te tb tz w250 w500 X s h")
			edits := words("ta te tf w1 w249 w250 w499 w500")
			var share, long [][]string
			for cp := rune(0); cp < rune(pick(tier, 0x10000, 0x110000)); cp++ {
				if cp < 0xd800 || cp >= 0xe000 {
					share = append(share, []string{"t:" + string(cp), "s"})
				}
			}
			for _, t := range sequences([]string{"%", "+", "&", "#", "?", "=", "\n", "\r", " ", "\"", "<", "/", "\\", ";", "\u00e9", "\u2028", "\U0001F600", "2", "B", "(", "\x00", "code"}, pick(tier, 3, 4), "", "") {
				share = append(share, []string{"t:" + t, "s", "l", "l", "w500"})
			}
			times := func(n int, s string) (l []string) {
				for i := 0; i < n; i++ {
					l = append(l, strings.Fields(s)...)
				}
				return
			}
			for _, n := range []int{1, 2, 3, 5, 9, 10, 11, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 999, 1000, 1001} {
				for _, s := range []string{"ta", "ta te", "ta w250", "ta w500", "te w500", "ta w500 te w500", "ta w499", "ta w250 te w250 h", "h", "h w500", "ta w500 h"} {
					long = append(long, append(times(n, s), "l", "l"), append([]string{"l", "l"}, times(n, s)...))
				}
				if n < 130 {
					for _, s := range []string{"s", "ta s l l", "te w500 s l l w500", "tb s l l w500 h", "tz s l l"} {
						long = append(long, times(n, s))
					}
				}
				for _, u := range []string{"a", "a\n", "(", "%", "+ ", "\u00e9", "\U0001F600"} {
					long = append(long, []string{"l", "l", "t:" + strings.Repeat(u, n*60), "w500", "s", "l", "l"})
				}
			}
			cut := func(name string, h [][]string, size int) Space {
				var l []Input
				for i := 0; i < len(h); i += size {
					for _, s := range []pageStart{starts[0], starts[2]} {
						l = append(l, pageJob{Start: s, Histories: h[i:min(len(h), i+size)]}.input())
					}
				}
				return list(fmt.Sprintf("%s: %d histories, 2 pages", name, len(h)), l)
			}
			var ind []string
			for _, p := range independents() {
				if !strings.ContainsAny(p, "\r") {
					ind = append(ind, p[1:])
				}
			}
			ind = append(ind, "", "'<a href=\"&\">\u2028\x00'", "\u00e9 = '\U0001F600'")
			k := pick(tier, 24, len(ind))
			var real []Input
			seq := deBruijn(k, 2)
			for i := 0; i < len(seq); i += 31 {
				var t []string
				for j := i; j <= min(i+31, len(seq)); j++ {
					t = append(t, ind[seq[j%len(seq)]])
				}
				real = append(real, pageJob{Real: t}.input())
			}
			return []Space{
				pageHistories("from opening", starts, [][]string{{}}, every, 2, pick(tier, 4, 6), false),
				pageHistories("loaded", starts[:pick(tier, 1, 3)], [][]string{{"l", "l"}}, loaded, 2, pick(tier, 5, 6), false),
				pageHistories("answered", starts[:1], [][]string{{"l", "l", "ta", "w500"}, {"l", "l", "te", "w500"}}, loaded, 2, pick(tier, 4, 6), false),
				pageHistories("edits and pauses", starts[:1], [][]string{{"l", "l", "w500"}, {"ta", "l", "w499", "l"}}, edits, 2, pick(tier, 5, 6), false),
				pageHistories("as scripts of an own context", starts, [][]string{{}, {"l", "l"}, {"te", "l", "l", "w500"}}, every, 1, pick(tier, 2, 4), true),
				pageHistories("ends", starts[:2], [][]string{{}, {"l"}, {"l", "l"}}, words("ta te w500 l F X Z h"), 1, pick(tier, 3, 5), false),
				cut("shared texts", share, 200),
				cut("long histories and texts", long, 12),
				list(fmt.Sprintf("the page with the real bundle: all pairs of %d texts", k), real),
			}
		}})
}
