package curvePoints

func init() { VerifMakeSlice = makePointSlice }
