package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sync"
	"sync/atomic"
	"time"

	"verifmc/ref"
)

// dumpMain explores the spaces of a property and feeds the model's answers, as
// lines of JSON, to processes that compare them with another parser:
//
//	mc dump ID TIER COMMAND ARG...
//
// It is used to validate the model during development (tools/acorn).
func dumpMain(id, tier string, cmd []string) {
	p := *findProperty(id)
	const n = 8
	var ch [n]chan []byte
	var wg sync.WaitGroup
	for i := range ch {
		ch[i] = make(chan []byte, 1000)
		c := exec.Command(cmd[0], cmd[1:]...)
		c.Stdout, c.Stderr = os.Stdout, os.Stderr
		in, err := c.StdinPipe()
		if err != nil {
			panic(err)
		}
		if err := c.Start(); err != nil {
			panic(err)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := bufio.NewWriterSize(in, 1<<16)
			for b := range ch[i] {
				w.Write(b)
			}
			w.Flush()
			in.(io.Closer).Close()
			c.Wait()
		}()
	}
	var next atomic.Int64
	p.Judge = func(c *Case) string {
		r := c.Ref()
		if r.Verdict == ref.Unspec && r.Tree == nil || len(c.Src) > 20000 {
			return ""
		}
		m := map[string]any{"mode": int(c.Mode), "src": string(c.Src), "verdict": r.Verdict.String(), "soft": r.Soft, "why": r.Why}
		if r.Tree != nil {
			m["tree"] = refJSON(r.Tree)
		}
		b, err := json.Marshal(m)
		if err != nil {
			return "" // too deep
		}
		ch[next.Add(1)%n] <- append(b, '\n')
		return ""
	}
	w := &Worker{P: &p, Tier: tier, Deadline: time.Now().Add(2 * time.Hour), out: json.NewEncoder(io.Discard)}
	w.Explore()
	for i := range ch {
		close(ch[i])
	}
	wg.Wait()
	fmt.Printf("%s: %d states, %d compared\n", id, w.stats.States, next.Load())
}
