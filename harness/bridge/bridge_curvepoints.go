package curvePoints

// Laid into package curvePoints by the overlay. It only uses methods found at run
// time, so it compiles against any version of the package.

import (
	"math/rand"
	"reflect"
)

// set by the parts
var (
	VerifMakeSlice    func(reflect.Type, int) (CurvePointSlice, reflect.Value)
	VerifWatch        func(func()) bool
	VerifPanicHandler func(string, bool, ...CurvePointPtrInterfaceBaseRead) bool
)

func VerifFlip(p interface{}) bool {
	if d, ok := p.(interface{ flipDecaf() }); ok {
		d.flipDecaf()
		return true
	}
	return false
}
func VerifRerandomize(p interface{}, rnd *rand.Rand) bool {
	if d, ok := p.(interface{ rerandomizeRepresentation(*rand.Rand) }); ok {
		d.rerandomizeRepresentation(rnd)
		return true
	}
	return false
}
func VerifNaP(p interface{}, rnd *rand.Rand, index int) bool {
	if d, ok := p.(interface{ sampleNaP(*rand.Rand, int) }); ok {
		d.sampleNaP(rnd, index)
		return true
	}
	return false
}

// VerifTorsion adds the two-torsion point A (0), E1 (1) or E2 (2).
func VerifTorsion(p interface{}, which int) bool {
	d, ok := p.(interface {
		torsionAddA()
		torsionAddE1()
		torsionAddE2()
	})
	if !ok {
		return false
	}
	switch which {
	case 0:
		d.torsionAddA()
	case 1:
		d.torsionAddE1()
	default:
		d.torsionAddE2()
	}
	return true
}
func VerifSample(p interface{}, rnd *rand.Rand) bool {
	if d, ok := p.(interface{ sampleRandomUnsafe(*rand.Rand) }); ok {
		d.sampleRandomUnsafe(rnd)
		return true
	}
	return false
}

// VerifFormula is one of the package's formulas on internal coordinates. The types of its
// output and inputs are given by letters: t extended projective, a extended affine, s efgh.
type VerifFormula struct {
	Name        string
	Out, X, Y   byte // Y = 0: unary
	Sub         bool // x-y instead of x+y
	Exceptional bool // gives no point if the result is at infinity
	Kind        string
	Do          func(out, x, y interface{})
}

var VerifFormulas []VerifFormula

// VerifExp multiplies a point with an integer by square and multiply.
var VerifExp func(out, p interface{}, e interface{})
