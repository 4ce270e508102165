package fieldElements

func init() { VerifFromBigInt = (*FieldElement)._fromBigInt }
