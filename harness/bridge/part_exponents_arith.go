package exponents

import "math/big"

func init() {
	VerifArith128 = func(x, y *big.Int) (sum, product, back *big.Int) {
		var a, b uint128
		a.SetBigInt(x)
		b.SetBigInt(y)
		s, p := add128(a, b), mul128(a, b)
		return s.ToBigInt(), p.ToBigInt(), a.ToBigInt()
	}
}
