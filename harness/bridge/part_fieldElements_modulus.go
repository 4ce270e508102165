package fieldElements

func init() {
	VerifShiftLeft = shiftleft256
	VerifModulus = func(m Uint256) (Uint256, [5]uint64, [4]uint64, [4]uint64) {
		var z modulus
		z.FromUint256(m)
		return z.ToUint256(), z.re, z.mmu0, z.mmu1
	}
}
