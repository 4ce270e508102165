package main

import (
	"math/big"
	"math/rand"

	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
)

// Group law formulas and helpers of the package that its own tests and tools rely on,
// reached through the in-package bridge. Those a refactored tree lacks are left out.

func kindByLetter(b byte) *ptKind {
	switch b {
	case 't':
		return &ptKinds[0]
	case 'a':
		return &ptKinds[2]
	}
	return &ptKinds[4]
}

func formulaGroups(c *Ctx) {
	if len(cp.VerifFormulas) > 0 {
		c.Run("formulas", 30000, func(t *T) {
			r := t.R
			f := &cp.VerifFormulas[t.Index%len(cp.VerifFormulas)]
			xk, ok := kindByLetter(f.X), kindByLetter(f.Out)
			mk := func(k *ptKind, p *rp) (*rp, PT) {
				if !k.holds(p) {
					p = rpSub(p, rpTor[p.tor])
				}
				return p, ptMake(r, k, p)
			}
			p, x := mk(xk, genRP(r))
			var q *rp
			var y PT
			yk := xk
			if f.Y != 0 {
				yk = kindByLetter(f.Y)
				g := genRP(r)
				if r.Intn(2) == 0 {
					g = genRelatedRP(r, p)
				}
				q, y = mk(yk, g)
				if yk == xk && r.Intn(8) == 0 {
					q, y = p, x
				}
			}
			nap := 0
			naive := f.Name == "addNaive_ttt"
			if !naive && r.Intn(8) == 0 {
				nap = 1 + r.Intn(2)
				if nap == 2 && y != nil {
					y = yk.mk()
				} else {
					x = xk.mk()
					nap = 1
				}
			}
			out := ok.mk()
			if nap == 0 && r.Intn(2) == 0 {
				_, out = mk(ok, genRP(r))
			}
			if r.Intn(3) == 0 && xk == ok {
				out = x
			} else if r.Intn(3) == 0 && yk == ok && y != nil {
				out = y
			}
			if q == nil {
				t.EvalH(p.h(), hashStr(f.Name))
			} else {
				t.EvalH(p.h(), q.h(), hashStr(f.Name))
			}
			if naive && (p.inf() || q.inf()) {
				return // defined for points with affine coordinates only
			}
			if v, pan := PanicVal(func() { f.Do(out, x, y) }); pan {
				t.Failf("formula/panic/"+f.Name, "%s(%v, %v) panicked: %v", f.Name, p, q, v)
				return
			}
			t.Class(f.Name)
			if nap > 0 {
				t.Class("NaP operand")
				t.Check(out.IsNaP(), "formula/nap/"+f.Name, "%s with a NaP as operand %d gives the point %v", f.Name, nap, ptCoordsSafe(out))
				return
			}
			var want *rp
			exceptional := false
			switch {
			case f.Kind == "neg":
				want = rpNeg(p)
			case f.Sub:
				want = rpSub(p, q)
				exceptional = f.Exceptional && rpAdd(p, q).inf()
			default:
				want = rpAdd(p, q)
				exceptional = f.Exceptional && rpSub(p, q).inf()
			}
			if naive && want.inf() {
				return
			}
			if exceptional {
				t.Class("exceptional case")
				if !out.IsNaP() {
					t.isPt("formula/exceptional/"+f.Name, out, want, "%s(%v, %v), an exceptional case", f.Name, p, q)
				}
				return
			}
			t.isPt("formula/"+f.Name, out, want, "%s(%v, %v)", f.Name, p, q)
		})
	} else {
		c.Assume("built without the in-package formulas: the tree does not fit that part of the bridge")
	}
	if cp.VerifExp != nil {
		c.Run("square and multiply", 200, func(t *T) {
			r := t.R
			p := genSub(r)
			x, out := ptMake(r, &ptKinds[0], p), ptKinds[0].mk()
			var k *big.Int
			switch r.Intn(4) {
			case 0:
				k = bi(int64(r.Intn(40)) - 20)
			case 1:
				k = badd(bmul(bQ, bi(int64(r.Intn(7))-3)), bi(int64(r.Intn(5))-2))
			default:
				k = bsub(gen256(r), gen256(r))
			}
			orig := new(big.Int).Set(k)
			if r.Intn(3) == 0 {
				out = x
			}
			cp.VerifExp(out, x, k)
			t.EvalH(p.h(), hb(orig))
			t.Check(k.Cmp(orig) == 0, "exp/exponent", "square and multiply changed its exponent")
			t.isPt("exp", out, rpMulG(bmod(bmul(p.k, k), bQ), p.tor), "%v times %v", p, k)
			if out != x {
				t.isPt("exp/input", x, p, "input of square and multiply")
			}
		})
	}
}

// torsionGroups: adding two-torsion points in place, and the sampling methods of the point types.
func torsionGroups(c *Ctx) {
	probe := new(cp.Point_xtw_full)
	if cp.VerifTorsion(probe, 0) {
		c.Run("add torsion", 20000, func(t *T) {
			r := t.R
			k := &ptKinds[t.Index%6]
			which := t.Index / 6 % 3
			if k.sub {
				which = 0
			}
			tor := []int{torA, torE1, torE2}[which]
			p := genRP(r)
			if !k.holds(p) {
				p = toSub(p)
			}
			pt := ptMake(r, k, p)
			if r.Intn(10) == 0 {
				pt = k.mk()
				t.Class("NaP")
				cp.VerifTorsion(pt, which)
				t.Check(pt.IsNaP(), "torsion/nap/"+k.name, "adding two-torsion to a NaP of type %s gives %v", k.name, ptCoordsSafe(pt))
				return
			}
			want := rpAdd(p, rpTor[tor])
			if k.sub {
				want = p
			}
			t.EvalH(p.h(), uint64(which), hashStr(k.name))
			v, pan := PanicVal(func() { cp.VerifTorsion(pt, which) })
			if !k.holds(want) {
				t.Class("not representable")
				t.Check(pan, "torsion/unrepresentable/"+k.name, "%v plus torsion point %d at infinity did not panic for %s", p, which, k.name)
				return
			}
			if pan {
				t.Failf("torsion/panic/"+k.name, "adding two-torsion point %d to %v (%s) panics: %v", which, p, k.name, v)
				return
			}
			t.Classf("%s %d", k.name, which)
			t.isPt("torsion/"+k.name, pt, want, "%s %v after adding the two-torsion point %d", k.name, p, which)
		})
	}
	if cp.VerifSample(probe, newRand(1)) {
		c.Run("sampling methods", 600, func(t *T) {
			r := t.R
			k := &ptKinds[t.Index%6]
			pt := k.mk()
			if r.Intn(3) == 0 {
				pt = ptMake(r, k, genSub(r))
			}
			src := rand.NewSource(int64(r.Uint32())).(rand.Source64)
			if r.Intn(3) == 0 {
				from := r.Intn(40)
				src = &windowSource{Source64: src, from: from, to: from + 1 + r.Intn(12), v: []uint64{0, ^uint64(0)}[r.Intn(2)]}
			}
			if !cp.VerifSample(pt, rand.New(src)) {
				return
			}
			if pt.IsNaP() {
				t.Failf("samples/nap/"+k.name, "sampling a %s gives a NaP", k.name)
				return
			}
			co := ptCoords(pt)
			t.EvalH(hb(co.X), hashStr(k.name))
			if mulP(co.X, co.Y).Cmp(mulP(co.T, co.Z)) != 0 || co.Z.Sign() == 0 {
				t.Failf("samples/coords/"+k.name, "sampled %s has coordinates %v", k.name, co)
				return
			}
			zi := invP(co.Z)
			x, y := mulP(co.X, zi), mulP(co.Y, zi)
			in := isSubXY(x, y)
			t.Classf("%s in subgroup: %v", k.name, in)
			t.Check(onCurve(x, y), "samples/curve/"+k.name, "sampled %s is not on the curve", k.name)
			t.Check(!k.sub || in, "samples/subgroup/"+k.name, "sampled %s is not in the subgroup", k.name)
		})
	}
}
