package exponents

import "math/big"

// Laid into package exponents by the overlay; the parts set these to routines that
// no exported function reaches.
var (
	// VerifDecompose runs the signed window decomposition on a number of at most
	// 128 bits (sign included separately, as for the components of GLV pairs).
	VerifDecompose func(x *big.Int, maxbits uint) (pos, coeff []uint, sign []int)

	// VerifBitRange reads bits low..high of a number of at most 128 bits.
	VerifBitRange func(x *big.Int, low, high uint) uint

	// VerifArith128 runs the arithmetic modulo 2^128.
	VerifArith128 func(x, y *big.Int) (sum, product, back *big.Int)
)
