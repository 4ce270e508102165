package fieldElements

func init() {
	VerifSqrtOrder = func(z *FieldElement) int { return sqrtAlg_OrderAsDyadicRootOfUnity[FieldElement](z) }
	VerifSqrtExpOdd = (*FieldElement).sqrtAlg_ExpOddOrder
	VerifSqrtPowers = (*FieldElement).sqrtAlg_ComputeRelevantPowers
	VerifSqrtInv = (*FieldElement).invSqrtEqDyadic
}
