package fieldElements

func init() {
	VerifReductions = append(VerifReductions,
		VerifReduction{"reduce_fb_exact", 2, (*Uint256).reduce_fb_exact},
		VerifReduction{"reduce_fb_optimistic", 2, (*Uint256).reduce_fb_optimistic},
		VerifReduction{"reduce_fa_optimistic", 0, (*Uint256).reduce_fa_optimistic},
		VerifReduction{"reduce_fa_loop", 0, (*Uint256).reduce_fa_loop},
		VerifReduction{"reduce_fa_barret", 0, (*Uint256).reduce_fa_barret},
	)
}
