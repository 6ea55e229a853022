package main

import (
	"embed"
	"fmt"
	"sort"
	"strings"

	"verifmc/ref"
)

// Libraries that the repository's tests parse as well.
//
//go:embed corpus
var corpusFS embed.FS

func corpus() []Input {
	var r []Input
	e, _ := corpusFS.ReadDir("corpus")
	sort.Slice(e, func(i, j int) bool { return e[i].Name() < e[j].Name() })
	for _, f := range e {
		if b, err := corpusFS.ReadFile("corpus/" + f.Name()); err == nil && strings.HasSuffix(f.Name(), ".js") {
			r = append(r, Input{Mode: ref.Script, Src: string(b)})
		}
	}
	return r
}

// cutCorpus is the libraries cut off at n places each.
func cutCorpus(libs []Input, n int) Space {
	return &Indexed{N: fmt.Sprintf("%d libraries cut off at %d places each", len(libs), n), Count: len(libs) * n, At: func(i int) Input {
		in := libs[i%len(libs)]
		r := []rune(in.Src)
		in.Src = string(r[:len(r)*(i/len(libs))/n])
		return in
	}}
}
