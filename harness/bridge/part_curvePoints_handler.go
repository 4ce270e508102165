package curvePoints

func init() {
	VerifWatch = wasInvalidPointEncountered
	VerifPanicHandler = panic_error_handler
}
