package exponents

import "math/big"

func init() {
	VerifBitRange = func(x *big.Int, low, high uint) uint {
		var u uint128
		u.SetBigInt(x)
		return getBitRange(u, low, high)
	}
}
