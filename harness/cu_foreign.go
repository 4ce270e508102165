package main

// Curve point types implemented outside the library: independent implementations
// of the documented interface on top of the reference model. Whatever the
// interface leaves open varies: the scaling of projective coordinates, P versus
// P+A in the decaf coordinates, and both again whenever the caller turns to
// another family of methods.

import (
	"math/big"
	"math/rand"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
)

type PR = cp.CurvePointPtrInterfaceRead

// foreign is the plain variant: no T coordinates beyond the required ones.
type foreign struct {
	p     *rp // nil: invalid
	r     *rand.Rand
	sub   bool
	canI  bool
	fam   string
	z     *big.Int
	flip  bool
	calls int
}

func (f *foreign) family(s string) {
	f.calls++
	if f.fam == s {
		return
	}
	f.fam = s
	f.z = genResidue(f.r)
	for f.z.Sign() == 0 {
		f.z = genResidue(f.r)
	}
	if f.r.Intn(4) == 0 {
		f.z = bOne
	}
	f.flip = f.r.Intn(2) == 0
}
func (f *foreign) fe(v *big.Int) FE { return feFrom(f.r, v) }

func (f *foreign) xytz(decaf bool) (x, y, t, z *big.Int) {
	switch {
	case f.p == nil:
		return bZero, bZero, bZero, bZero
	case f.p.inf(): // X:0:T:0 with T/X = y
		x, y, t, z = f.z, bZero, mulP(f.p.y, f.z), bZero
	default:
		x, y, t, z = mulP(f.p.x, f.z), mulP(f.p.y, f.z), mulP(mulP(f.p.x, f.p.y), f.z), f.z
	}
	if decaf && f.flip {
		x, y = negP(x), negP(y)
	}
	return
}
func (f *foreign) aff(decaf bool) (x, y, t *big.Int) {
	if f.p == nil {
		return bZero, bZero, bZero
	}
	if f.p.inf() {
		panic("foreign: affine coordinates of a point at infinity")
	}
	x, y, t = f.p.x, f.p.y, mulP(f.p.x, f.p.y)
	if decaf && f.flip {
		x, y = negP(x), negP(y)
	}
	return
}
func (f *foreign) String() string {
	if f.p == nil {
		return "foreign NaP"
	}
	return "foreign " + f.p.String()
}
func (f *foreign) CanRepresentInfinity() bool     { return f.canI }
func (f *foreign) CanOnlyRepresentSubgroup() bool { return f.sub }

func (f *foreign) X_decaf_projective() FE {
	f.family("dp")
	x, _, _, _ := f.xytz(true)
	return f.fe(x)
}
func (f *foreign) Y_decaf_projective() FE {
	f.family("dp")
	_, y, _, _ := f.xytz(true)
	return f.fe(y)
}
func (f *foreign) T_decaf_projective() FE {
	f.family("dp")
	_, _, t, _ := f.xytz(true)
	return f.fe(t)
}
func (f *foreign) Z_decaf_projective() FE {
	f.family("dp")
	_, _, _, z := f.xytz(true)
	return f.fe(z)
}
func (f *foreign) X_decaf_affine() FE { f.family("da"); x, _, _ := f.aff(true); return f.fe(x) }
func (f *foreign) Y_decaf_affine() FE { f.family("da"); _, y, _ := f.aff(true); return f.fe(y) }
func (f *foreign) T_decaf_affine() FE { f.family("da"); _, _, t := f.aff(true); return f.fe(t) }
func (f *foreign) X_projective() FE   { f.family("p"); x, _, _, _ := f.xytz(false); return f.fe(x) }
func (f *foreign) Y_projective() FE   { f.family("p"); _, y, _, _ := f.xytz(false); return f.fe(y) }
func (f *foreign) Z_projective() FE   { f.family("p"); _, _, _, z := f.xytz(false); return f.fe(z) }
func (f *foreign) XYZ_projective() (FE, FE, FE) {
	f.family("p")
	x, y, _, z := f.xytz(false)
	return f.fe(x), f.fe(y), f.fe(z)
}
func (f *foreign) X_affine() FE { f.family("a"); x, _, _ := f.aff(false); return f.fe(x) }
func (f *foreign) Y_affine() FE { f.family("a"); _, y, _ := f.aff(false); return f.fe(y) }
func (f *foreign) XY_affine() (FE, FE) {
	f.family("a")
	x, y, _ := f.aff(false)
	return f.fe(x), f.fe(y)
}
func (f *foreign) IsNeutralElement() bool {
	f.family("q")
	if f.p == nil {
		return cp.GetNaPErrorHandler()("foreign IsNeutralElement", true, f)
	}
	return f.p.neutral()
}
func (f *foreign) IsNaP() bool        { f.family("q"); return f.p == nil }
func (f *foreign) IsInSubgroup() bool { f.family("q"); return f.p != nil && f.p.sub() }
func (f *foreign) IsAtInfinity() bool { f.family("q"); return f.p != nil && f.p.inf() }
func (f *foreign) IsE1() bool         { f.family("q"); return f.p != nil && f.p.inf() && f.p.tor == torE1 }
func (f *foreign) IsE2() bool         { f.family("q"); return f.p != nil && f.p.inf() && f.p.tor == torE2 }
func (f *foreign) IsEqual(o PR) bool {
	f.family("q")
	if f.p == nil || o.IsNaP() {
		return cp.GetNaPErrorHandler()("foreign IsEqual", true, f, o)
	}
	if g, ok := o.(interface{ core() *foreign }); ok {
		return g.core().p.eq(f.p)
	}
	return ptCoords(o.(PT)).is(f.p) == ""
}
func (f *foreign) core() *foreign { return f }
func (f *foreign) dup() foreign   { g := *f; return g }
func (f *foreign) Clone() PT      { g := f.dup(); return &g }

// The writing half (the interface asks for it). Operands are read through the
// library's own types.
func (f *foreign) read(o PR) *rp {
	if o.IsNaP() {
		return nil
	}
	if g, ok := o.(interface{ core() *foreign }); ok {
		return g.core().p
	}
	if o.IsAtInfinity() {
		if o.(cp.CurvePointPtrInterfaceDistinguishInfinity).IsE1() {
			return rpE1
		}
		return rpE2
	}
	x, y := o.XY_affine()
	X, Y := feVal(&x), feVal(&y)
	// the discrete logarithm is unknown: such points only carry coordinates
	return &rp{nil, torN, X, Y}
}
func (f *foreign) put(p *rp)    { f.p = p; f.fam = "" }
func (f *foreign) SetNeutral()  { f.put(rpN) }
func (f *foreign) Add(x, y PR)  { f.put(xyAdd(f.read(x), f.read(y))) }
func (f *foreign) Sub(x, y PR)  { f.put(xyAdd(f.read(x), xyNeg(f.read(y)))) }
func (f *foreign) Neg(x PR)     { f.put(xyNeg(f.read(x))) }
func (f *foreign) Double(x PR)  { a := f.read(x); f.put(xyAdd(a, a)) }
func (f *foreign) AddEq(x PR)   { f.put(xyAdd(f.p, f.read(x))) }
func (f *foreign) SubEq(x PR)   { f.put(xyAdd(f.p, xyNeg(f.read(x)))) }
func (f *foreign) NegEq()       { f.put(xyNeg(f.p)) }
func (f *foreign) DoubleEq()    { f.put(xyAdd(f.p, f.p)) }
func (f *foreign) Endo(x PR)    { panic("foreign: Endo") }
func (f *foreign) EndoEq()      { panic("foreign: Endo") }
func (f *foreign) SetFrom(x PR) { f.put(f.read(x)) }
func (f *foreign) SetFromSubgroupPoint(x PR, tr common.IsInputTrusted) bool {
	if x.IsNaP() || !tr.Bool() && !x.IsInSubgroup() {
		return false
	}
	f.put(f.read(x))
	return true
}

func xyNeg(p *rp) *rp {
	if p == nil || p.inf() {
		return p
	}
	return &rp{nil, p.tor, negP(p.x), p.y}
}
func xyAdd(p, q *rp) *rp {
	if p == nil || q == nil {
		return nil
	}
	x, y := edAdd(p, q)
	return &rp{nil, p.tor ^ q.tor, x, y}
}

// foreignT also offers the optional extended coordinates.
type foreignT struct{ foreign }

func (f *foreignT) Clone() PT { return &foreignT{f.dup()} }
func (f *foreignT) T_affine() FE {
	f.family("a")
	_, _, t := f.aff(false)
	return f.fe(t)
}
func (f *foreignT) XYT_affine() (FE, FE, FE) {
	f.family("a")
	x, y, t := f.aff(false)
	return f.fe(x), f.fe(y), f.fe(t)
}
func (f *foreignT) T_projective() FE { f.family("p"); _, _, t, _ := f.xytz(false); return f.fe(t) }
func (f *foreignT) XYTZ_projective() (FE, FE, FE, FE) {
	f.family("p")
	x, y, t, z := f.xytz(false)
	return f.fe(x), f.fe(y), f.fe(t), f.fe(z)
}

var _ cp.CurvePointPtrInterfaceCooReadExtended = (*foreignT)(nil)
var _ PT = (*foreign)(nil)

// hidden and hiddenE embed a library point but hide its type.
type hidden struct{ PT }
type hiddenE struct {
	PT
	cp.CurvePointPtrInterfaceDistinguishInfinity
}

type frKind struct {
	name          string
	sub, inf, ext bool
}

var frKinds = []frKind{
	{"own_full", false, true, false},
	{"own_finite", false, false, false},
	{"own_subgroup", true, false, false},
	{"own_full_t", false, true, true},
	{"own_finite_t", false, false, true},
	{"own_subgroup_t", true, false, true},
}

func (k *frKind) holds(p *rp) bool {
	if k.sub {
		return p.sub()
	}
	return k.inf || !p.inf()
}

func frMake(r *rand.Rand, k *frKind, p *rp) PT {
	f := foreign{p: p, r: newRand(r.Uint64()), sub: k.sub, canI: k.inf, z: bOne}
	if k.ext {
		return &foreignT{f}
	}
	return &f
}

// frHide wraps a library point so that its type is not recognized.
func frHide(pt PT) PT {
	if pt.CanRepresentInfinity() {
		return &hiddenE{pt, pt.(cp.CurvePointPtrInterfaceDistinguishInfinity)}
	}
	return &hidden{pt}
}

// frShow is the library point that frHide was given.
func frShow(pt PT) PT {
	switch h := pt.(type) {
	case *hidden:
		return h.PT
	case *hiddenE:
		return h.PT
	}
	return pt
}

// frSame: the point a foreign target was set to is p.
func frSame(q, p *rp) bool {
	if q == nil || q.inf() || p.inf() {
		return q != nil && q.inf() && p.inf() && q.tor == p.tor
	}
	return q.x.Cmp(p.x) == 0 && q.y.Cmp(p.y) == 0
}
