package main

import "math/big"

func bigPow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }
func addBig(v *big.Int, d int64) string {
	return new(big.Int).Add(v, big.NewInt(d)).String()
}
func mulAdd(v *big.Int, m, d int64) string {
	x := new(big.Int).Mul(v, big.NewInt(m))
	return x.Add(x, big.NewInt(d)).String()
}
func divBig(v *big.Int, m, d int64) string {
	x := new(big.Int).Div(v, big.NewInt(m))
	return x.Add(x, big.NewInt(d)).String()
}
