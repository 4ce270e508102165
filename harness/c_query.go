package main

import (
	"fmt"
	"math/big"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
)

func init() {
	register("C02", 12, runC02)
}

func (c coords) flip() coords { return coords{negP(c.X), negP(c.Y), c.T, c.Z} }

type query struct {
	name string
	do   func(t *T, v *pvar)
}

func fv(f FE) *big.Int { return feVal(&f) }

var queries = []query{
	{"projective", func(t *T, v *pvar) {
		var c coords
		n := 3
		ext, hasT := v.pt.(cp.CurvePointPtrInterfaceCooReadExtended)
		if hasT {
			n = 4
		}
		for _, i := range t.R.Perm(n) {
			switch i {
			case 0:
				c.X = fv(v.pt.X_projective())
			case 1:
				c.Y = fv(v.pt.Y_projective())
			case 2:
				c.Z = fv(v.pt.Z_projective())
			case 3:
				c.T = fv(ext.T_projective())
			}
		}
		if !hasT {
			if v.p.inf() {
				return
			}
			c = coords{mulP(c.X, c.Z), mulP(c.Y, c.Z), mulP(c.X, c.Y), mulP(c.Z, c.Z)}
		}
		if bad := c.is(v.p); bad != "" {
			t.Failf("projective/"+v.k.name, "%v: X,Y,Z,T_projective = %v: %s", v, c, bad)
		}
	}},
	{"single-projective", func(t *T, v *pvar) {
		// a single coordinate, normalised by another call
		x, y, z := v.pt.XYZ_projective()
		X, Y, Z := fv(x), fv(y), fv(z)
		if v.p.inf() {
			if X.Sign() == 0 || Y.Sign() != 0 || Z.Sign() != 0 {
				t.Failf("XYZ/"+v.k.name, "%v: XYZ_projective = %s %s %s", v, hex(X), hex(Y), hex(Z))
			}
			return
		}
		c := coords{mulP(X, Z), mulP(Y, Z), mulP(X, Y), mulP(Z, Z)}
		if bad := c.is(v.p); bad != "" {
			t.Failf("XYZ/"+v.k.name, "%v: XYZ_projective = %s %s %s: %s", v, hex(X), hex(Y), hex(Z), bad)
		}
	}},
	{"XYTZ", func(t *T, v *pvar) {
		if e, ok := v.pt.(xytz); ok {
			x, y, tt, z := e.XYTZ_projective()
			c := coords{fv(x), fv(y), fv(tt), fv(z)}
			if bad := c.is(v.p); bad != "" {
				t.Failf("XYTZ/"+v.k.name, "%v: XYTZ_projective = %v: %s", v, c, bad)
			}
		}
	}},
	{"decaf-projective", func(t *T, v *pvar) {
		var c coords
		for _, i := range t.R.Perm(4) {
			switch i {
			case 0:
				c.X = fv(v.pt.X_decaf_projective())
			case 1:
				c.Y = fv(v.pt.Y_decaf_projective())
			case 2:
				c.Z = fv(v.pt.Z_decaf_projective())
			case 3:
				c.T = fv(v.pt.T_decaf_projective())
			}
		}
		if b1, b2 := c.is(v.p), c.flip().is(v.p); b1 != "" && b2 != "" {
			t.Failf("decaf-projective/"+v.k.name, "%v: decaf_projective coordinates %v denote neither P (%s) nor P+A (%s)", v, c, b1, b2)
		} else if b1 == "" {
			t.Class("decaf-P")
		} else {
			t.Class("decaf-P+A")
		}
	}},
	{"affine", func(t *T, v *pvar) {
		ext, hasT := v.pt.(cp.CurvePointPtrInterfaceCooReadExtended)
		which := t.R.Intn(5)
		var x, y, tt *big.Int
		_, panicked := PanicVal(func() {
			switch which {
			case 0:
				x = fv(v.pt.X_affine())
			case 1:
				y = fv(v.pt.Y_affine())
			case 2:
				a, b := v.pt.XY_affine()
				x, y = fv(a), fv(b)
			case 3:
				if hasT {
					tt = fv(ext.T_affine())
				} else {
					x = fv(v.pt.X_affine())
				}
			case 4:
				if hasT {
					a, b, c := ext.XYT_affine()
					x, y, tt = fv(a), fv(b), fv(c)
				} else {
					y = fv(v.pt.Y_affine())
				}
			}
		})
		t.checkAffine("affine", which, v, x, y, tt, panicked, false)
	}},
	{"decaf-affine", func(t *T, v *pvar) {
		var x, y, tt *big.Int
		_, panicked := PanicVal(func() {
			for _, i := range t.R.Perm(3) {
				switch i {
				case 0:
					x = fv(v.pt.X_decaf_affine())
				case 1:
					y = fv(v.pt.Y_decaf_affine())
				case 2:
					tt = fv(v.pt.T_decaf_affine())
				}
			}
		})
		t.checkAffine("decaf-affine", 0, v, x, y, tt, panicked, true)
	}},
	{"predicates", func(t *T, v *pvar) {
		for _, i := range t.R.Perm(6) {
			var got, want bool
			name := ""
			switch i {
			case 0:
				name, got, want = "IsNeutralElement", v.pt.IsNeutralElement(), v.p.neutral()
			case 1:
				name, got, want = "IsAtInfinity", v.pt.IsAtInfinity(), v.p.inf()
			case 2:
				name, got, want = "IsNaP", v.pt.IsNaP(), false
			case 3, 4:
				e, ok := v.pt.(cp.CurvePointPtrInterfaceDistinguishInfinity)
				if !ok || !v.pt.CanRepresentInfinity() {
					continue
				}
				if i == 3 {
					name, got, want = "IsE1", e.IsE1(), v.p.eq(rpE1)
				} else {
					name, got, want = "IsE2", e.IsE2(), v.p.eq(rpE2)
				}
			case 5:
				name, got, want = "Validate", validatePt(v.pt), true
			}
			t.Check(got == want, name+"/"+v.k.name, "%s of %v: %v", name, v, got)
		}
		t.Check(v.pt.CanRepresentInfinity() == v.k.inf && v.pt.CanOnlyRepresentSubgroup() == v.k.sub, "kind/"+v.k.name, "CanRepresentInfinity/CanOnlyRepresentSubgroup of %s", v.k.name)
	}},
	{"String", func(t *T, v *pvar) {
		s := fmt.Sprint(v.pt)
		t.Check(s != "", "String/"+v.k.name, "empty String of %v", v)
	}},
	{"Map", func(t *T, v *pvar) {
		var m *big.Int
		_, panicked := PanicVal(func() { m = fv(cp.MapToFieldElement(v.pt)) })
		if v.p.inf() {
			t.Check(panicked, "Map/infinity/"+v.k.name, "MapToFieldElement of %v did not panic: %s", v, hx(m))
			return
		}
		if panicked {
			t.Failf("Map/"+v.k.name, "MapToFieldElement of %v panicked", v)
			return
		}
		want := mulP(v.p.x, invP(v.p.y))
		t.Check(m.Cmp(want) == 0, "Map/"+v.k.name, "MapToFieldElement of %v is %s, want %s", v, hex(m), hex(want))
	}},
	{"Clone", func(t *T, v *pvar) {
		q := v.pt.Clone()
		if !t.isPt("Clone/"+v.k.name, q, v.p, "clone of %v", v) {
			return
		}
		if fmt.Sprintf("%T", q) != fmt.Sprintf("%T", v.pt) {
			t.Failf("Clone/type/"+v.k.name, "clone of %T is %T", v.pt, q)
		}
		// independence in both directions
		if t.R.Intn(2) == 0 {
			q.AddEq(q.Clone())
			q.SetNeutral()
		} else {
			orig := v.pt
			v.pt = q
			orig.SetNeutral()
		}
	}},
	{"Subgroup", func(t *T, v *pvar) {
		got := v.pt.IsInSubgroup()
		t.Check(got == v.p.sub(), "IsInSubgroup/"+v.k.name, "IsInSubgroup of %v: %v", v, got)
	}},
	{"Normalize", func(t *T, v *pvar) {
		ptShake(t.R, v.pt, v.p)
	}},
}

func hx(x *big.Int) string {
	if x == nil {
		return "nil"
	}
	return hex(x)
}

func (t *T) checkAffine(name string, which int, v *pvar, x, y, tt *big.Int, panicked, decaf bool) {
	if v.p.inf() {
		t.Check(panicked, name+"/infinity/"+v.k.name, "%s coordinates (variant %d) of %v did not panic: %s %s %s", name, which, v, hx(x), hx(y), hx(tt))
		return
	}
	if panicked {
		t.Failf(name+"/panic/"+v.k.name, "%s coordinates (variant %d) of %v panicked", name, which, v)
		return
	}
	ok := func(s *big.Int) bool {
		return (x == nil || x.Cmp(mulP(s, v.p.x)) == 0) && (y == nil || y.Cmp(mulP(s, v.p.y)) == 0) && (tt == nil || tt.Cmp(mulP(v.p.x, v.p.y)) == 0)
	}
	if !ok(bOne) && !(decaf && ok(negP(bOne))) {
		t.Failf(name+"/"+v.k.name, "%s coordinates (variant %d) of %v: %s %s %s", name, which, v, hx(x), hx(y), hx(tt))
	}
}

func runC02(c *Ctx) {
	if !needRef(c) {
		return
	}
	c.Rule("A case is a point of one type in one internal representation with a random sequence of queries, or a pair of related points for the comparisons; the oracle is the affine point over math/big; after every query the point is read back through a copy.")
	c.Assume("math/big is correct; the reference law passes its self check")
	c.Run("queries", 160000, func(t *T) {
		r := t.R
		v := &pvar{k: &ptKinds[t.Index%6]}
		v.p = genRP(r)
		if !v.k.holds(v.p) {
			v.p = toSub(v.p)
		}
		v.pt = ptMake(r, v.k, v.p)
		t.Note("%v", v)
		for i := 0; i < 8 && len(t.failed) == 0; i++ {
			q := &queries[r.Intn(len(queries))]
			t.Note("query %s", q.name)
			q.do(t, v)
			t.EvalH(v.p.h(), hashStr(q.name, v.k.name), uint64(i))
			t.Class(q.name)
			if r.Intn(2) == 0 && !t.isPt("changed-by/"+q.name+"/"+v.k.name, v.pt, v.p, "%s point after query %s", v.k.name, q.name) {
				return
			}
		}
		t.isPt("changed/"+v.k.name, v.pt, v.p, "%s point after a sequence of queries", v.k.name)
		t.Classf("kind-%s-%s", v.k.name, v.p.class())
		t.Sample("%v", t.notes)
	})
	for i := range ptKinds {
		k := &ptKinds[i]
		c.Need("queries/kind-"+k.name+"-N", 100)
		if !k.sub {
			c.Need("queries/kind-"+k.name+"-A", 100)
		}
		if k.inf {
			c.Need("queries/kind-"+k.name+"-E1", 100)
			c.Need("queries/kind-"+k.name+"-E2", 100)
		}
	}
	c.Run("equality", 240000, func(t *T) {
		r := t.R
		a, b := &pvar{k: &ptKinds[t.Index%6]}, &pvar{k: &ptKinds[t.Index/6%6]}
		a.p = genRP(r)
		if !a.k.holds(a.p) {
			a.p = toSub(a.p)
		}
		b.p = a.p
		if r.Intn(2) == 0 {
			b.p = genRelatedRP(r, a.p)
		}
		if !b.k.holds(b.p) {
			b.p = toSub(b.p)
		}
		a.pt, b.pt = ptMake(r, a.k, a.p), ptMake(r, b.k, b.p)
		want := a.p.eq(b.p)
		t.Note("a: %v; b: %v", a, b)
		for i := 0; i < 4; i++ {
			x, y := a, b
			if r.Intn(2) == 0 {
				x, y = b, a
			}
			if got := x.pt.IsEqual(y.pt); got != want {
				t.Failf("IsEqual/"+x.k.name+"/"+y.k.name, "(%v).IsEqual(%v) = %v", x, y, got)
				return
			}
			t.EvalH(x.p.h(), y.p.h(), hashStr(x.k.name, y.k.name))
			if r.Intn(2) == 0 {
				ptShake(r, y.pt, y.p)
			}
		}
		t.Check(a.pt.IsEqual(a.pt), "IsEqual/self/"+a.k.name, "%v is not equal to itself", a)
		t.isPt("IsEqual/changed/"+a.k.name, a.pt, a.p, "point after comparisons with %s", b.k.name)
		t.isPt("IsEqual/changed/"+b.k.name, b.pt, b.p, "point after comparisons with %s", a.k.name)
		rel := "different"
		if want {
			rel = "equal"
		} else if a.p.eqModA(b.p) {
			rel = "differs-by-A"
		} else if rpNeg(a.p).eq(b.p) {
			rel = "negative"
		} else if a.p.k.Cmp(b.p.k) == 0 {
			rel = "differs-by-E"
		}
		t.Class(rel)
		t.Classf("%s-%s", a.k.name, b.k.name)
	})
	c.Need("equality/equal", 1000)
	c.Need("equality/differs-by-A", 100)
	c.Need("equality/differs-by-E", 100)
	c.Need("equality/negative", 100)
	// conversions by SetFrom
	c.Run("setfrom", 80000, func(t *T) {
		r := t.R
		from, to := &ptKinds[t.Index%6], &ptKinds[t.Index/6%6]
		p := genRP(r)
		if !from.holds(p) {
			p = toSub(p)
		}
		src := ptMake(r, from, p)
		old := genSub(r)
		dst := ptMake(r, to, old)
		allowed := !to.sub || from.sub
		_, panicked := PanicVal(func() { dst.SetFrom(src) })
		t.EvalH(p.h(), hashStr(from.name, to.name))
		switch {
		case !allowed || !to.holds(p):
			t.Class("must-panic")
			t.Check(panicked, "SetFrom/nopanic/"+to.name+"/"+from.name, "%s.SetFrom(%s %v) did not panic", to.name, from.name, p)
		case panicked:
			t.Failf("SetFrom/panic/"+to.name+"/"+from.name, "%s.SetFrom(%s %v) panicked", to.name, from.name, p)
		default:
			t.Class("ok")
			t.isPt("SetFrom/"+to.name+"/"+from.name, dst, p, "%s.SetFrom(%s)", to.name, from.name)
			// the copy does not share state with the source
			dst.AddEq(dst.Clone())
			ptShake(r, dst, rpAdd(p, p))
		}
		t.isPt("SetFrom/source/"+from.name, src, p, "source after %s.SetFrom(%s)", to.name, from.name)
	})
	// Validate rejects coordinates that denote no valid point
	c.Run("validate", 4000, func(t *T) {
		r := t.R
		to := &ptKinds[t.Index%6]
		x, y := genResidue(r), genResidue(r)
		kind := r.Intn(4)
		if kind > 0 {
			p := genRP(r)
			for p.inf() {
				p = genRP(r)
			}
			x, y = p.x, p.y
			if kind == 1 {
				y = addP(y, bOne)
			} else if kind == 2 {
				x, y = y, x
			} // 3: a valid curve point, perhaps outside the subgroup
		}
		fx, fy := feFrom(r, x), feFrom(r, y)
		dst := to.mk()
		_, panicked := PanicVal(func() {
			q, err := cp.CurvePointFromXYAffine_full(&fx, &fy, common.TrustedInput)
			if err != nil {
				panic("error")
			}
			if to.sub {
				if !dst.SetFromSubgroupPoint(&q, common.TrustedInput) {
					panic("refused")
				}
			} else {
				dst.SetFrom(&q)
			}
		})
		isNaP := true
		_, panicked2 := PanicVal(func() { isNaP = dst.IsNaP() })
		if panicked || panicked2 || isNaP {
			t.Class("not-constructible") // garbage in: no promise
			return
		}
		if _, ok := dst.(interface{ Validate() bool }); !ok {
			return
		}
		// what the point stores may be anything: judge Validate by the coordinates it shows
		X, Y, Z, T := fv(dst.X_decaf_projective()), fv(dst.Y_decaf_projective()), fv(dst.Z_decaf_projective()), fv(dst.T_decaf_projective())
		if Z.Sign() == 0 {
			t.Class("not-constructible")
			return
		}
		zi := invP(Z)
		ax, ay := mulP(X, zi), mulP(Y, zi)
		want := onCurve(ax, ay) && mulP(X, Y).Cmp(mulP(T, Z)) == 0
		if want && to.sub {
			want = isSubXY(ax, ay) || isSubXY(negP(ax), negP(ay))
		}
		got := validatePt(dst)
		t.EvalH(hb(ax), hb(ay), hashStr(to.name))
		t.Classf("validate-%v", want)
		t.Check(got == want, "Validate/"+to.name, "Validate of %s built from trusted (%s, %s): %v", to.name, hex(x), hex(y), got)
	})
	c.Need("validate/validate-false", 500)
	c.Need("validate/validate-true", 100)
}
