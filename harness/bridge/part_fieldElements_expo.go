package fieldElements

func init() {
	VerifExpos = append(VerifExpos,
		VerifExpo{"square and multiply", (*Uint256).modularExponentiationSquareAndMultiplyMontgomery_fa},
		VerifExpo{"sliding window", (*Uint256).modularExponentiationSlidingWindowMontgomery_fa},
	)
}
