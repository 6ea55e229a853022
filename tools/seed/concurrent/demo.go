// Parses texts at the same time as others and compares with what is parsed alone.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
)

func parse(src string) ast.Node {
	n, err := parser.NewParser(lexer.NewLexer(lexer.NewScanner(strings.NewReader(src), nil))).Parse(parser.ParseOptions{})
	if err != nil {
		panic(err)
	}
	return n
}

func text(n ast.Node) string {
	b, err := json.Marshal(n.ESTree())
	if err != nil {
		panic(err)
	}
	return string(b)
}

func main() {
	srcs := []string{
		"class A { a() {} b() {} } class B { c() {} }; x = 'abc' + \"def\"",
		"class C { d() {} e() {} f() {} }; y = 'ghijkl' + \"m\"; class D { g() {} }",
		"z = /a/gim + /bc/sy + /d/dgimsuy + /e/ + /[/]/u",
		"z = /f/yus + /gh/mi + /d/yusmigd + /i/ + /[/]/d",
	}
	want := []string{}
	for _, s := range srcs {
		want = append(want, text(parse(s)))
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				n := parse(srcs[i%4])
				if got := text(n); got != want[i%4] {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		fmt.Println(bad, "results differ")
		os.Exit(1)
	}
}
