package exponents

import "math/big"

func init() {
	VerifDecompose = func(x *big.Int, maxbits uint) (pos, coeff []uint, sign []int) {
		var g glvExponent
		g.SetBigInt(x)
		for _, d := range decomposeUnalignedSignedAdic(g, maxbits) {
			pos = append(pos, d.position)
			coeff = append(coeff, d.coeff)
			sign = append(sign, d.sign)
		}
		return
	}
}
