package main

import (
	"math/big"
	"math/rand"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
)

func init() {
	register("C03", 10, runC03)
}

func cloneOf(x interface {
	Clone() cp.CurvePointPtrInterface
}) PT {
	return x.Clone()
}

// windowSource is a source of randomness with a constant stretch in it.
type windowSource struct {
	rand.Source64
	n, from, to int
	v           uint64
}

func (s *windowSource) Uint64() uint64 {
	x := s.Source64.Uint64()
	s.n++
	if s.n > s.from && s.n <= s.to {
		return s.v
	}
	return x
}
func (s *windowSource) Int63() int64 { return int64(s.Uint64() >> 1) }

type namedConst struct {
	name string
	pt   PT
	p    *rp
}

func curveConstants() []namedConst {
	var l []namedConst
	add := func(name string, pt PT, p *rp) { l = append(l, namedConst{name, pt, p}) }
	a1 := cp.SubgroupGenerator_xtw_subgroup
	add("SubgroupGenerator_xtw_subgroup", &a1, rpG)
	n1, n2 := cp.NeutralElement_xtw_full, cp.NeutralElement_xtw_subgroup
	n3, n4 := cp.NeutralElement_axtw_full, cp.NeutralElement_axtw_subgroup
	n5, n6 := cp.NeutralElement_efgh_full, cp.NeutralElement_efgh_subgroup
	add("NeutralElement_xtw_full", &n1, rpN)
	add("NeutralElement_xtw_subgroup", &n2, rpN)
	add("NeutralElement_axtw_full", &n3, rpN)
	add("NeutralElement_axtw_subgroup", &n4, rpN)
	add("NeutralElement_efgh_full", &n5, rpN)
	add("NeutralElement_efgh_subgroup", &n6, rpN)
	t1, t2, t3 := cp.AffineOrderTwoPoint_xtw, cp.AffineOrderTwoPoint_axtw, cp.AffineOrderTwoPoint_efgh
	add("AffineOrderTwoPoint_xtw", &t1, rpA)
	add("AffineOrderTwoPoint_axtw", &t2, rpA)
	add("AffineOrderTwoPoint_efgh", &t3, rpA)
	i1, i2, i3, i4 := cp.InfinitePoint1_xtw, cp.InfinitePoint2_xtw, cp.InfinitePoint1_efgh, cp.InfinitePoint2_efgh
	add("InfinitePoint1_xtw", &i1, rpE1)
	add("InfinitePoint2_xtw", &i2, rpE2)
	add("InfinitePoint1_efgh", &i3, rpE1)
	add("InfinitePoint2_efgh", &i4, rpE2)
	return l
}

func runC03(c *Ctx) {
	if !needRef(c) {
		return
	}
	c.Rule("A case is a rational point of one of the four cosets of the subgroup in one type and representation: membership and conversion verdicts are compared with the coset the reference built the point on (and for some with multiplication by the group order); endomorphism cells are compared with the reference formula, which is checked against multiplication by the eigenvalue.")
	c.Assume("math/big is correct; the reference law passes its self check")
	poolOnce.Do(poolInit)
	torsionGroups(c)
	// randomly sampled points are points of the group they are sampled from
	c.Run("samples", 1000, func(t *T) {
		seed := int64(t.R.Uint32())
		var pt PT
		src := rand.NewSource(seed).(rand.Source64)
		if t.Index%4 > 1 { // a stretch of unusual numbers
			from := t.R.Intn(48)
			src = &windowSource{Source64: src, from: from, to: from + 1 + t.R.Intn(16), v: []uint64{0, 0, ^uint64(0), 1, 1 << 63}[t.R.Intn(5)]}
			t.Class("unusual random numbers")
		}
		rnd := rand.New(src)
		if t.Index%2 == 0 {
			p := cp.MakeRandomPointUnsafe_xtw_full(rnd)
			pt = &p
		} else {
			p := cp.MakeRandomPointUnsafe_xtw_subgroup(rnd)
			pt = &p
		}
		co := ptCoords(pt)
		t.EvalH(uint64(seed), uint64(t.Index%2))
		if mulP(co.X, co.Y).Cmp(mulP(co.T, co.Z)) != 0 || co.Z.Sign() == 0 {
			t.Failf("samples/coords", "sampled point has coordinates %v", co)
			return
		}
		zi := invP(co.Z)
		x, y := mulP(co.X, zi), mulP(co.Y, zi)
		t.Check(onCurve(x, y), "samples/curve", "sampled point (%s, %s) is not on the curve", hex(x), hex(y))
		in := isSubXY(x, y)
		t.Classf("kind %d subgroup %v", t.Index%2, in)
		t.Check(in || t.Index%2 == 0, "samples/subgroup", "sampled point (%s, %s) is not in the subgroup", hex(x), hex(y))
		t.Check(pt.IsInSubgroup() == in, "samples/member", "IsInSubgroup of the sampled point is %v", !in)
	})
	c.Run("membership", 120000, func(t *T) {
		r := t.R
		k := &ptKinds[t.Index%6]
		p := genRP(r)
		if !k.holds(p) {
			p = toSub(p)
		}
		pt := ptMake(r, k, p)
		got := pt.IsInSubgroup()
		t.EvalH(p.h(), hashStr(k.name))
		t.Class(k.name + "-" + p.class())
		t.Check(got == p.sub(), "IsInSubgroup/"+k.name, "IsInSubgroup of %s %v = %v", k.name, p, got)
		t.isPt("IsInSubgroup/changed/"+k.name, pt, p, "point after IsInSubgroup")
		if t.Index%50 == 0 && !p.inf() {
			t.Class("by-scalar-multiplication")
			t.Check(isSubXY(p.x, p.y) == got, "IsInSubgroup/"+k.name, "IsInSubgroup of %v disagrees with multiplication by the group order", p)
		}
	})
	for _, k := range []string{"xtw_full", "axtw_full", "efgh_full"} {
		for _, cl := range []string{"N", "A", "subgroup", "coset-A", "coset-E1", "coset-E2"} {
			c.Need("membership/"+k+"-"+cl, 100)
		}
	}
	c.Need("membership/xtw_full-E1", 100)
	c.Need("membership/efgh_full-E2", 100)

	c.Run("convert", 120000, func(t *T) {
		r := t.R
		from, to := &ptKinds[t.Index%6], &ptKinds[t.Index/6%6]
		p := genRP(r)
		if !from.holds(p) {
			p = toSub(p)
		}
		trust := common.UntrustedInput
		if p.sub() && r.Intn(2) == 0 {
			trust = common.TrustedInput
		}
		src := ptMake(r, from, p)
		var old *rp
		dst := to.mk()
		before := ""
		switch r.Intn(3) {
		case 0: // fresh receiver, a NaP
			before = "NaP"
		default:
			old = genRP(r)
			if !to.holds(old) {
				old = toSub(old)
			}
			dst = ptMake(r, to, old)
			before = old.String()
		}
		var ok bool
		_, panicked := PanicVal(func() { ok = dst.SetFromSubgroupPoint(src, trust) })
		t.EvalH(p.h(), hashStr(from.name, to.name))
		t.Classf("%s-%s", from.name, to.name)
		key := "SetFromSubgroupPoint/" + to.name + "/" + from.name
		if panicked {
			t.Failf(key+"/panic", "%s.SetFromSubgroupPoint(%s %v, %v) panicked", to.name, from.name, p, trust)
			return
		}
		t.Check(ok == p.sub(), key, "%s.SetFromSubgroupPoint(%s %v, %v) = %v", to.name, from.name, p, trust, ok)
		if ok {
			t.Class("accepted")
			t.isPt(key, dst, p, "receiver after SetFromSubgroupPoint(%s)", from.name)
		} else {
			t.Class("rejected")
			if old == nil {
				t.Check(dst.IsNaP(), key+"/unchanged", "receiver was %s and is a valid point after rejecting %v", before, p)
			} else {
				t.isPt(key+"/unchanged", dst, old, "receiver after rejecting %s %v", from.name, p)
			}
		}
		t.isPt(key+"/source", src, p, "source after SetFromSubgroupPoint")
		t.Sample("%s.SetFromSubgroupPoint(%s %v) = %v", to.name, from.name, p, ok)
	})
	c.Need("convert/rejected", 10000)
	c.Need("convert/accepted", 10000)
	// self conversion
	c.Run("convert-self", 6000, func(t *T) {
		r := t.R
		k := &ptKinds[t.Index%6]
		p := genRP(r)
		if !k.holds(p) {
			p = toSub(p)
		}
		pt := ptMake(r, k, p)
		ok := pt.SetFromSubgroupPoint(pt, common.UntrustedInput)
		t.EvalH(p.h(), hashStr(k.name))
		t.Check(ok == p.sub(), "SetFromSubgroupPoint/self/"+k.name, "%s: p.SetFromSubgroupPoint(p) = %v for %v", k.name, ok, p)
		t.isPt("SetFromSubgroupPoint/self/"+k.name, pt, p, "p after p.SetFromSubgroupPoint(p)")
	})
	// NaP as source: refused, receiver unchanged
	c.Run("convert-nap", 3600, func(t *T) {
		r := t.R
		from, to := &ptKinds[t.Index%6], &ptKinds[t.Index/6%6]
		trust := common.UntrustedInput
		if r.Intn(2) == 0 {
			trust = common.TrustedInput
		}
		old := genSub(r)
		dst := ptMake(r, to, old)
		ok := dst.SetFromSubgroupPoint(from.mk(), trust)
		t.EvalH(old.h(), hashStr(from.name, to.name))
		key := "SetFromSubgroupPoint/NaP/" + to.name
		t.Check(!ok, key, "%s.SetFromSubgroupPoint(NaP of type %s) succeeded", to.name, from.name)
		t.isPt(key+"/unchanged", dst, old, "receiver %s after SetFromSubgroupPoint(NaP of type %s) failed", to.name, from.name)
	})

	c.RunSeq("constants", 1, func(t *T) {
		check := func(when string) {
			for _, n := range curveConstants() {
				t.Eval(n.name, when)
				t.Class(n.name)
				t.isPt("constant/"+n.name, n.pt, n.p, "%s %s", n.name, when)
			}
			t.Check(cp.CurveParameterD_Int.Cmp(edD) == 0, "constant/d", "CurveParameterD_Int = %s", hex(cp.CurveParameterD_Int))
			d := cp.CurveParameterD_fe
			t.Check(feVal(&d).Cmp(edD) == 0, "constant/d_fe", "CurveParameterD_fe = %v", feVal(&d))
		}
		check("at start")
		for i := range ptKinds {
			k := &ptKinds[i]
			for j := 0; j < 8; j++ {
				p := genRP(t.R)
				if !k.holds(p) {
					p = toSub(p)
				}
				pt := ptMake(t.R, k, p)
				pt.SetNeutral()
				t.isPt("SetNeutral/"+k.name, pt, rpN, "SetNeutral on %s", k.name)
				t.Eval("SetNeutral", k.name)
				if s, ok := pt.(interface{ SetAffineTwoTorsion() }); ok && !k.sub {
					s.SetAffineTwoTorsion()
					t.isPt("SetAffineTwoTorsion/"+k.name, pt, rpA, "SetAffineTwoTorsion on %s", k.name)
					t.Eval("SetAffineTwoTorsion", k.name)
					t.Class("SetAffineTwoTorsion")
				}
				if s, ok := pt.(interface {
					SetE1()
					SetE2()
				}); ok && k.inf {
					s.SetE1()
					t.isPt("SetE1/"+k.name, pt, rpE1, "SetE1 on %s", k.name)
					s.SetE2()
					t.isPt("SetE2/"+k.name, pt, rpE2, "SetE2 on %s", k.name)
					t.Class("SetE")
					t.Eval("SetE", k.name)
				}
				// using what the setters stored must not change the constants
				ptShake(t.R, pt, rpE2)
				pt.AddEq(pt.Clone())
				pt.NegEq()
			}
		}
		check("after using the setters")
		for _, n := range curveConstants() {
			q := n.pt.Clone()
			q.DoubleEq()
			q.EndoEq()
		}
		check("after using copies")
	})
	c.Need("constants/SetE", 2)
	c.Need("constants/SetAffineTwoTorsion", 3)

	opMatrix(c, "endo-matrix", []string{"Endo", "EndoEq"})
	groupHistory(c, "endo-histories", 20000, len(gops))
	c.Need("endo-histories/ok-Endo", 1000)
	c.Need("endo-histories/ok-EndoEq", 1000)
	// endomorphism laws stated on the library's own operations
	c.Run("endo-laws", 20000, func(t *T) {
		r := t.R
		k := &ptKinds[2*r.Intn(3)]
		p, q := genRP(r), genRP(r)
		if r.Intn(3) == 0 {
			q = genRelatedRP(r, p)
		}
		hold := func(p *rp) *rp {
			if !k.holds(p) {
				return toSub(p)
			}
			return p
		}
		p, q = hold(p), hold(q)
		s := rpAdd(p, q)
		if !k.holds(s) {
			return
		}
		a, b, e1, e2, e3 := ptMake(r, k, p), ptMake(r, k, q), k.mk(), k.mk(), k.mk()
		e1.Endo(a)
		e2.Endo(b)
		e1.AddEq(e2)
		e3.Add(a, b)
		e3.EndoEq()
		t.EvalH(p.h(), q.h(), hashStr(k.name))
		t.Check(e1.IsEqual(e3), "Endo/homomorphic/"+k.name, "Endo(P)+Endo(Q) != Endo(P+Q) for %s P=%v Q=%v", k.name, p, q)
		t.isPt("Endo/sum/"+k.name, e3, rpEndo(s), "Endo(P+Q)")
		// twice the endomorphism is doubling and negating
		e2.Endo(e2)
		if e := rpEndo(q); e.k.Sign() != 0 || true {
			w := rpEndo(e)
			t.isPt("Endo/twice/"+k.name, e2, w, "Endo(Endo(Q)) for Q=%v", q)
			if m := bmod(bmul(q.k, bsub(bQ, bTwo)), bQ); m.Cmp(w.k) != 0 {
				t.Failf("reference", "reference endomorphism")
			}
		}
		t.Class(k.name)
	})
	// eigenvalue on the subgroup by the library's own double and add
	c.Run("endo-eigenvalue", 600, func(t *T) {
		r := t.R
		k := &ptKinds[t.Index%6]
		p := genSub(r)
		pt := ptMake(r, k, p)
		lam := new(big.Int).Set(common.EndomorphismEigenvalue_Int)
		acc := k.mk()
		acc.SetNeutral()
		for i := lam.BitLen() - 1; i >= 0; i-- {
			acc.DoubleEq()
			if lam.Bit(i) == 1 {
				acc.AddEq(pt)
			}
		}
		e := k.mk()
		e.Endo(pt)
		t.EvalH(p.h(), hashStr(k.name))
		t.Check(e.IsEqual(acc), "Endo/eigenvalue/"+k.name, "Endo(P) != lambda*P for %s %v", k.name, p)
		t.Check(lam.Cmp(edLam) == 0, "eigenvalue", "EndomorphismEigenvalue_Int = %s", hex(lam))
	})
}
