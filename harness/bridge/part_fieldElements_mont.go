package fieldElements

func init() {
	VerifMonts = append(VerifMonts,
		VerifMont{"mulMontgomery_Unrolled_c", (*Uint256).mulMontgomery_Unrolled_c},
		VerifMont{"mulMontgomerySlow_c", (*Uint256).mulMontgomerySlow_c},
	)
	VerifMulWord, VerifMulShift = mul_four_one_64, add_mul_shift_64
	VerifMontStep, VerifMontIter = montgomery_step_64, montgomery_iteration
}
