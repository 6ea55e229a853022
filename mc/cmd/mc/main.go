package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"time"

	"verifmc/ref"
)

func refJSON(v any) any {
	switch v := v.(type) {
	case *ref.Node:
		if v == nil {
			return nil
		}
		m := map[string]any{"type": v.Type}
		for _, f := range v.F {
			m[f.K] = refJSON(f.V)
		}
		return m
	case []*ref.Node:
		l := []any{}
		for _, n := range v {
			l = append(l, refJSON(n))
		}
		return l
	case []uint16:
		l := []int{}
		for _, u := range v {
			l = append(l, int(u))
		}
		return l
	}
	return v
}

func main() {
	// Children are tied to the thread that starts them.
	runtime.LockOSThread()
	switch os.Args[1] {
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(checkMain(os.Args[2], tier))
	case "worker":
		d, _ := time.ParseDuration(os.Args[5])
		workerMain(os.Args[2], os.Args[3], os.Args[4], d)
	case "baseline":
		baselineMain()
	case "race":
		raceMain(os.Args[2:])
	case "replay":
		replayMain(os.Args[2])
	case "hunt":
		huntMain(os.Args[2:])
	case "dump":
		dumpMain(os.Args[2], os.Args[3], os.Args[4:])
	case "try":
		// Prints the model's and the implementation's answers.
		mode := ref.Script
		for _, s := range os.Args[2:] {
			switch s {
			case "-m":
				mode = ref.Module
				continue
			case "-e":
				mode = ref.Expression
				continue
			case "-s":
				mode = ref.Script
				continue
			}
			c := &Case{Src: []rune(s), Mode: mode}
			r, o := c.Ref(), c.Impl()
			fmt.Printf("%q ref: %v soft=%q why=%q [%d,%d] eof=%v\n", s, r.Verdict, r.Soft, r.Why, r.Lo, r.Hi, r.SawEOF)
			if r.Tree != nil {
				b, _ := json.Marshal(refJSON(r.Tree))
				fmt.Printf("  ref:  %s\n", b)
			}
			if o.accepted() {
				_, err := c.JSON()
				fmt.Printf("  impl: %s %v\n", c.jbytes, err)
			} else {
				fmt.Printf("  impl: %s at %d:%d eof=%v\n", errText(o), o.Loc.Row, o.Loc.Column, o.SawEOF)
			}
			fmt.Printf("  full: %s\n  loc: %s\n", judgeFull(c), judgeLocation(c))
		}
	}
}
