package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// hunting is set while looking for weaknesses of the checks with mutants of the
// implementation (tools/mutate). It is a development aid and no check: spaces
// are cut down, visited in a different order and left after some time.
var hunting time.Duration

// huntMain explores cut-down spaces of the properties and ends with the first
// violation:
//
//	mc hunt MILLISECONDS ID...
func huntMain(args []string) {
	ms, _ := strconv.Atoi(args[0])
	hunting = time.Duration(ms) * time.Millisecond
	debug.SetGCPercent(400)
	limit := int64(3 << 30)
	if os.Getenv("MC_TIER") != "" {
		limit = 12 << 30
	}
	go func() {
		// Inputs without an answer, and runaway memory.
		for {
			time.Sleep(500 * time.Millisecond)
			if t := huntStart.Load(); t != 0 && time.Now().UnixNano()-t > 3e9 || rss(os.Getpid()) > limit {
				fmt.Println("no answer")
				os.Exit(1)
			}
		}
	}()
	tier := "quick"
	if t := os.Getenv("MC_TIER"); t != "" {
		tier = t
	}
	for _, id := range args[1:] {
		p := findProperty(id)
		w := &Worker{P: p, Tier: tier, Deadline: time.Now().Add(time.Hour), out: json.NewEncoder(io.Discard)}
		w.Explore()
	}
}

// huntStart is when the current input was started.
var huntStart atomic.Int64

func huntFound(id, space string, in Input, detail string) {
	if len(detail) > 160 {
		detail = detail[:160]
	}
	fmt.Printf("%s %s: %s: %s\n", id, space, in, strings.ReplaceAll(detail, "\n", " "))
	os.Exit(1)
}

// stride is a number prime to n with which all of 0..n-1 are visited in a
// scattered order.
func stride(n int) int {
	if hunting == 0 || n < 8 {
		return 1
	}
	s := n*618/1000 | 1
	for gcd(s, n) != 1 {
		s += 2
	}
	return s
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
