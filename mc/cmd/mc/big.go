package main

import (
	"math/big"
	"strings"
)

// bigForm returns literals of 2^k+d in all bases.
func bigForm(k, d int) []string {
	x := new(big.Int).Lsh(big.NewInt(1), uint(k))
	x.Add(x, big.NewInt(int64(d)))
	if x.Sign() < 0 {
		return nil
	}
	r := []string{x.String(), x.String() + ".", "0x" + x.Text(16), "0X" + strings.ToUpper(x.Text(16)), "0o" + x.Text(8), "0b" + x.Text(2)}
	if x.Cmp(big.NewInt(9)) > 0 {
		s := x.String()
		r = append(r, s[:1]+"_"+s[1:], s[:1]+"."+s[1:], s+".5", s+"e0")
	}
	return r
}
