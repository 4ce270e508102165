package fieldElements

func init() {
	VerifFieldTypes["big.Int wrapper"] = func() interface{} { return new(bsFieldElement_BigInt) }
}
