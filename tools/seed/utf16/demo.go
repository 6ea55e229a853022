package main

import (
	"fmt"
	"os"
	"strings"
	"unicode/utf16"

	"github.com/jchv/cleansheets/ecmascript/lexer"
)

func main() {
	for r := rune(0); r <= 0x10ffff; r++ {
		s := "a" + string(r) + "b"
		got, want := lexer.EncodeUTF16(s), utf16.Encode([]rune(s))
		if fmt.Sprint(got) != fmt.Sprint(want) {
			fmt.Printf("%U: got %x, expected %x\n", r, got, want)
			os.Exit(1)
		}
	}
	for n := 0; n < 300; n++ {
		for _, end := range []string{"", "z", "\xc3", "\xe2\x82", "\xf0", "\u20ac", "\U0001f600"} {
			s := strings.Repeat("a", n) + end
			got, want := lexer.EncodeUTF16(s), utf16.Encode([]rune(s))
			if fmt.Sprint(got) != fmt.Sprint(want) {
				fmt.Printf("%q: got %x, expected %x\n", s, got, want)
				os.Exit(1)
			}
		}
	}
	first := lexer.EncodeUTF16("a")
	lexer.EncodeUTF16("b")
	if fmt.Sprint(first) != fmt.Sprint([]uint16{'a'}) {
		fmt.Printf("the first result changed to %x\n", first)
		os.Exit(1)
	}
}
