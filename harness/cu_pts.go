package main

// Building and reading the library's curve points.

import (
	"fmt"
	"math/big"
	"math/rand"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
)

type PT = cp.CurvePointPtrInterface

type ptKind struct {
	name  string
	sub   bool // subgroup only
	inf   bool // can represent infinity
	model string
	mk    func() PT
}

var ptKinds = []ptKind{
	{"xtw_full", false, true, "xtw", func() PT { return new(cp.Point_xtw_full) }},
	{"xtw_subgroup", true, false, "xtw", func() PT { return new(cp.Point_xtw_subgroup) }},
	{"axtw_full", false, false, "axtw", func() PT { return new(cp.Point_axtw_full) }},
	{"axtw_subgroup", true, false, "axtw", func() PT { return new(cp.Point_axtw_subgroup) }},
	{"efgh_full", false, true, "efgh", func() PT { return new(cp.Point_efgh_full) }},
	{"efgh_subgroup", true, false, "efgh", func() PT { return new(cp.Point_efgh_subgroup) }},
}

// can the kind hold the point?
func (k *ptKind) holds(p *rp) bool {
	if k.sub {
		return p.sub()
	}
	return k.inf || !p.inf()
}

func needRef(c *Ctx) bool {
	if err := refSelfCheck(); err != nil {
		c.inconcl = append(c.inconcl, "the reference model of the curve fails its self check: "+err.Error())
		return false
	}
	return true
}

// ptMake builds a library point of the given kind denoting p, in some representation.
func ptMake(r *rand.Rand, k *ptKind, p *rp) PT {
	pt := k.mk()
	if p.inf() {
		switch q := pt.(type) {
		case interface {
			SetE1()
			SetE2()
		}:
			if p.tor == torE1 {
				q.SetE1()
			} else {
				q.SetE2()
			}
		default:
			panic("harness: kind cannot hold infinity")
		}
	} else {
		fx, fy := feFrom(r, p.x), feFrom(r, p.y)
		q, err := cp.CurvePointFromXYAffine_full(&fx, &fy, common.UntrustedInput)
		if err != nil {
			panic(fmt.Sprintf("cannot construct the valid point %v: %v", p, err))
		}
		if k.sub {
			if !pt.SetFromSubgroupPoint(&q, common.TrustedInput) {
				panic(fmt.Sprintf("SetFromSubgroupPoint refused the subgroup point %v", p))
			}
		} else {
			pt.SetFrom(&q)
		}
	}
	ptShake(r, pt, p)
	return pt
}

// ptShake changes the internal representation.
func ptShake(r *rand.Rand, pt PT, p *rp) {
	for n := r.Intn(4); n > 0; n-- {
		switch r.Intn(8) {
		case 0, 1, 2:
			cp.VerifRerandomize(pt, newRand(r.Uint64()))
		case 3, 4:
			if d, ok := pt.(interface{ HasDecaf() bool }); ok && d.HasDecaf() {
				cp.VerifFlip(pt)
			}
		case 5:
			if d, ok := pt.(cp.NormalizerForZ); ok {
				d.NormalizeForZ()
			}
		case 6:
			if d, ok := pt.(cp.NormalizerForY); ok {
				d.NormalizeForY()
			}
		case 7:
			if !p.inf() {
				pt.XY_affine()
			}
		}
	}
}

type coords struct{ X, Y, T, Z *big.Int }

func (c coords) String() string {
	return fmt.Sprintf("(%s : %s : %s : %s)", hex(c.X), hex(c.Y), hex(c.T), hex(c.Z))
}

// is (X:Y:T:Z) the extended coordinates of the reference point?
func (c coords) is(p *rp) string {
	if mulP(c.X, c.Y).Cmp(mulP(c.T, c.Z)) != 0 {
		return "XY != TZ"
	}
	if p.inf() {
		if c.Z.Sign() != 0 || c.Y.Sign() != 0 || c.X.Sign() == 0 {
			return "not at infinity"
		}
		// y = T/X
		if mulP(p.y, c.X).Cmp(c.T) != 0 {
			return "wrong point at infinity"
		}
		return ""
	}
	if c.Z.Sign() == 0 {
		return "Z = 0 for a finite point"
	}
	if mulP(p.x, c.Z).Cmp(c.X) != 0 {
		return "X/Z wrong"
	}
	if mulP(p.y, c.Z).Cmp(c.Y) != 0 {
		return "Y/Z wrong"
	}
	return ""
}

type xytz interface {
	XYTZ_projective() (FE, FE, FE, FE)
}

// ptCoords reads coordinates from a clone, so that the observation itself does
// not change the representation of the point.
func ptCoords(pt PT) coords {
	q := pt.Clone()
	if e, ok := q.(xytz); ok {
		x, y, t, z := e.XYTZ_projective()
		return coords{feVal(&x), feVal(&y), feVal(&t), feVal(&z)}
	}
	x, y, z := q.XYZ_projective()
	X, Y, Z := feVal(&x), feVal(&y), feVal(&z)
	return coords{mulP(X, Z), mulP(Y, Z), mulP(X, Y), mulP(Z, Z)}
}

// isPt requires that the library point denotes the reference point.
func (t *T) isPt(key string, pt PT, want *rp, what string, a ...interface{}) bool {
	if pt.IsNaP() {
		t.Failf(key, "%s is a NaP, want %v", fmt.Sprintf(what, a...), want)
		return false
	}
	c := ptCoords(pt)
	if bad := c.is(want); bad != "" {
		t.Failf(key, "%s: %s: got %v, want %v", fmt.Sprintf(what, a...), bad, c, want)
		return false
	}
	return true
}

func validatePt(pt PT) bool {
	if v, ok := pt.(interface{ Validate() bool }); ok {
		return v.Validate()
	}
	return true
}
