package main

import (
	"fmt"
	"math/big"
	"math/rand"

	ex "github.com/GottfriedHerold/Bandersnatch/bandersnatch/exponents"
)

func init() {
	globalSnapshots = append(globalSnapshots, func(add func(name, value string)) {
		add("exponents.CurveExponent_Int", ex.CurveExponent_Int.String())
		add("exponents.GroupOrder_Int", ex.GroupOrder_Int.String())
		add("exponents.EndomorphismEigenvalue_Int", ex.EndomorphismEigenvalue_Int.String())
		add("exponents.CurveOrder_Int", ex.CurveOrder_Int.String())
	})
	register("X01", 20, checkX01)
	register("X02", 20, checkX02)
}

var (
	b2Q     = new(big.Int).Lsh(bQ, 1)
	bLambda = mustBig("0x13b4f3dc4a39a493edf849562b38c72bcfc49db970a5056ed13d21408783df05")
	bGLVMax = mustBig("62111775536698671376125354107412126641")
	bL11    = mustBig("113482231691339203864511368254957623327")
	bL12    = mustBig("10741319382058138887739339959866629956")
	bL21    = mustBig("-21482638764116277775478679919733259912")
	bL22    = bL11
	glvNear []([2]*big.Int) // non-zero lattice vectors a*b1+b*b2, |a|,|b| <= 3
)

func init() {
	for a := int64(-3); a <= 3; a++ {
		for b := int64(-3); b <= 3; b++ {
			if a == 0 && b == 0 {
				continue
			}
			glvNear = append(glvNear, [2]*big.Int{badd(bmul(bi(a), bL11), bmul(bi(b), bL21)), badd(bmul(bi(a), bL12), bmul(bi(b), bL22))})
		}
	}
	// the reference data checks itself: lambda is a square root of -2, the basis
	// is in the lattice and has determinant q
	if bmod(badd(bmul(bLambda, bLambda), bi(2)), bQ).Sign() != 0 {
		panic("reference: eigenvalue")
	}
	for _, w := range glvNear {
		if bmod(badd(w[0], bmul(w[1], bLambda)), bQ).Sign() != 0 {
			panic("reference: lattice")
		}
	}
	if !beq(bsub(bmul(bL11, bL22), bmul(bL12, bL21)), bQ) {
		panic("reference: determinant")
	}
}

type EX = ex.Exponent

// exSet makes an exponent of the given residue (mod 2q) along a random way.
func exSet(r *rand.Rand, v *big.Int) (e EX, how string) {
	switch r.Intn(4) {
	case 0:
		if v.IsUint64() {
			e.SetUInt(v.Uint64())
			return e, "SetUInt"
		}
		fallthrough
	default:
		e.SetBigInt(v)
		return e, "SetBigInt"
	case 1:
		e.SetBigInt(badd(v, bmul(b2Q, bi(int64(r.Intn(9))-4))))
		return e, "SetBigInt+k"
	case 2:
		w := genBelow(r, b2Q)
		var a, b EX
		a.SetBigInt(w)
		b.SetBigInt(bsub(v, w))
		e.Add(&a, &b)
		return e, "sum"
	}
}

func genExp(r *rand.Rand) *big.Int {
	switch r.Intn(8) {
	case 0: // borders of the moduli
		return bmod(badd(bmul(bQ, bi(int64(r.Intn(3)))), bi(int64(r.Intn(9))-4)), b2Q)
	case 1: // halves, thirds
		return bmod(badd(new(big.Int).Div(b2Q, bi(int64(r.Intn(8))+1)), bi(int64(r.Intn(5))-2)), b2Q)
	case 2: // borders agreeing with q or 2q in the high words
		m := []*big.Int{bQ, b2Q}[r.Intn(2)]
		k := uint(64 * (1 + r.Intn(3)))
		lo := bmod(gen256(r), new(big.Int).Lsh(bOne, k))
		return bmod(badd(new(big.Int).Lsh(new(big.Int).Rsh(m, k), k), lo), b2Q)
	case 3:
		return bmod(genInt2(r), b2Q)
	default:
		return genBelow(r, b2Q)
	}
}

func genInt2(r *rand.Rand) *big.Int {
	var x *big.Int
	switch r.Intn(8) {
	case 0:
		x = bu(r.Uint64() >> uint(r.Intn(64)))
	case 1: // multiples of q
		x = badd(bmul(bQ, bi(int64(r.Intn(9)))), bi(int64(r.Intn(7))-3))
	case 2:
		x = badd(bmul(bQ, gen256(r)), bi(int64(r.Intn(7))-3))
	case 3:
		x = badd(new(big.Int).Lsh(bOne, uint(r.Intn(600))), bi(int64(r.Intn(5))-2))
	case 4:
		x = bmul(gen256(r), gen256(r))
	case 5:
		x = genExp(r)
	default:
		x = gen256(r)
	}
	if r.Intn(3) == 0 {
		x = new(big.Int).Neg(x)
	}
	return x
}

// exIs checks everything that can be observed of an exponent.
func (t *T) exIs(key string, e *EX, v *big.Int, what string) {
	keep := *e
	b := e.ToBigInt_Full()
	if !beq(b, v) {
		t.Failf(key, "%s: ToBigInt_Full gives %s, expected %s", what, b, v)
		return
	}
	b.SetInt64(-1)
	sub := bmod(v, bQ)
	if s := e.ToBigInt_Subgroup(); !beq(s, sub) {
		t.Failf(key+":sub", "%s: ToBigInt_Subgroup of %s gives %s, expected %s", what, v, s, sub)
	}
	m := e.ModuloP253()
	if g := m.ToBigInt_Full(); !beq(g, sub) {
		t.Failf(key+":mod", "%s: ModuloP253 of %s gives %s, expected %s", what, v, g, sub)
	}
	for _, q := range []struct {
		n    string
		f    func() bool
		want bool
	}{
		{"IsZero_Full", e.IsZero_Full, v.Sign() == 0}, {"IsZero_Subgroup", e.IsZero_Subgroup, sub.Sign() == 0},
		{"IsOne_Full", e.IsOne_Full, beq(v, bOne)}, {"IsOne_Subgroup", e.IsOne_Subgroup, beq(sub, bOne)},
	} {
		if g := q.f(); g != q.want {
			t.Failf(key+":"+q.n, "%s: %s of %s is %v", what, q.n, v, g)
		}
	}
	if *e != keep {
		t.Failf(key+":readonly", "%s: a query changed the exponent %s", what, v)
	}
}

var exVerbs = []string{"%v", "%d", "%x", "%X", "%b", "%o", "%s", "%+d", "%#x", "%40d", "%-80d|", "%090d", "%O", "%.70d", "% d", "%q", "%t"}

func checkX01(c *Ctx) {
	c.Rule("Integers around multiples of the subgroup order and powers of two, of both signs and up to 1000 bits, are pushed through every setter; every operation is run on border and random exponents under all alias patterns and in random sequences, with every variable (changed or not) compared after each step with math/big modulo 2q. Distinct by operation and operand values.")
	c.Assume("math/big integer arithmetic and formatting are correct")
	c.Run("setters and text", 150000, func(t *T) {
		r := t.R
		var e EX
		e.SetBigInt(genExp(r)) // old value must not matter
		x := genInt2(r)
		t.Note("x=%s", x)
		t.Sample("x=%s", x)
		t.EvalH(hb(x))
		keep := bcopy(x)
		e.SetBigInt(x)
		t.Check(beq(x, keep), "SetBigInt:arg", "SetBigInt changed its argument")
		x.SetInt64(77)
		v := bmod(keep, b2Q)
		t.exIs("SetBigInt", &e, v, "SetBigInt")
		t.Classf("sign %d, long %v", keep.Sign(), keep.BitLen() > 256)
		u := r.Uint64() >> uint(r.Intn(64))
		if r.Intn(3) == 0 {
			u = -u
		}
		e.SetUInt(u)
		t.exIs("SetUInt", &e, bu(u), fmt.Sprint("SetUInt ", u))
		i := int64(r.Uint64()) >> uint(r.Intn(64))
		if r.Intn(20) == 0 {
			i = []int64{-1 << 63, 1<<63 - 1, 0, -1, 1, -1 << 62}[r.Intn(6)]
		}
		e.SetBigInt(genExp(r))
		e.SetInt(i)
		t.exIs("SetInt", &e, bmod(bi(i), b2Q), fmt.Sprint("SetInt ", i))
		if i < 0 {
			t.Class("negative int64")
		}
		e, _ = exSet(r, v)
		f := exVerbs[r.Intn(len(exVerbs))]
		if g, w := fmt.Sprintf(f, e), fmt.Sprintf(f, v); g != w {
			t.Failf("Format", "Sprintf(%q) of %s gives %q, expected %q", f, v, g, w)
		}
		if g, w := fmt.Sprintf(f, &e), fmt.Sprintf(f, v); g != w {
			t.Failf("Format:ptr", "Sprintf(%q) of pointer to %s gives %q, expected %q", f, v, g, w)
		}
		if g := e.String(); g != v.String() {
			t.Failf("String", "String of %s gives %q", v, g)
		}
		e.SetZero()
		t.exIs("SetZero", &e, bZero, "SetZero")
		e.SetOne()
		t.exIs("SetOne", &e, bOne, "SetOne")
		var z EX
		t.exIs("zero value", &z, bZero, "zero value")
	})
	c.Need("setters and text/negative int64", 1000)
	c.Need("setters and text/sign -1, long true", 1000)
	ops := []struct {
		n  string
		ar int
		f  func(z, x, y *EX)
		m  func(x, y *big.Int) *big.Int
	}{
		{"Add", 2, func(z, x, y *EX) { z.Add(x, y) }, badd},
		{"Sub", 2, func(z, x, y *EX) { z.Sub(x, y) }, bsub},
		{"Mul", 2, func(z, x, y *EX) { z.Mul(x, y) }, bmul},
		{"Neg", 1, func(z, x, y *EX) { z.Neg(x) }, func(x, y *big.Int) *big.Int { return new(big.Int).Neg(x) }},
		{"ModuloP253", 1, func(z, x, y *EX) { *z = x.ModuloP253() }, func(x, y *big.Int) *big.Int { return bmod(x, bQ) }},
	}
	c.Run("operations", 300000, func(t *T) {
		r := t.R
		op := ops[r.Intn(len(ops))]
		vals := [3]*big.Int{genExp(r), genExp(r), genExp(r)}
		if r.Intn(3) == 0 { // make sums and differences hit borders
			k := badd(bmul(bQ, bi(int64(r.Intn(4)))), bi(int64(r.Intn(5))-2))
			if r.Intn(2) == 0 {
				vals[2] = bmod(bsub(k, vals[1]), b2Q)
			} else {
				vals[2] = bmod(bsub(vals[1], k), b2Q)
			}
		}
		var e [3]EX
		for i := range e {
			e[i], _ = exSet(r, vals[i])
		}
		zi, xi, yi := 0, 1, 2
		alias := r.Intn(5)
		switch alias {
		case 1:
			zi = 1
		case 2:
			zi = 2
		case 3:
			yi = 1
		case 4:
			zi, yi = 1, 1
		}
		t.Note("%s alias %d x=%s y=%s", op.n, alias, vals[xi], vals[yi])
		t.Sample("%s x=%s y=%s", op.n, vals[xi], vals[yi])
		t.EvalH(hashStr(op.n), uint64(alias), hb(vals[xi]), hb(vals[yi]))
		t.Classf("%s alias %d", op.n, alias)
		want := bmod(op.m(vals[xi], vals[yi]), b2Q)
		if op.n == "Add" && badd(vals[xi], vals[yi]).Cmp(b2Q) >= 0 {
			t.Class("wrap")
		}
		var ret *EX = &e[zi]
		op.f(ret, &e[xi], &e[yi])
		vals[zi] = want
		for i := range e {
			role := "result"
			if i != zi {
				role = "operand"
			}
			t.exIs(op.n+":"+role, &e[i], vals[i], fmt.Sprintf("%s, %s", op.n, role))
		}
	})
	for _, op := range ops {
		for a := 0; a < 5; a++ {
			c.Need(fmt.Sprintf("operations/%s alias %d", op.n, a), 1000)
		}
	}
	c.Need("operations/wrap", 1000)
	c.Run("histories", 20000, func(t *T) {
		r := t.R
		const n = 4
		var e [n]EX
		var v [n]*big.Int
		for i := range e {
			v[i] = genExp(r)
			e[i], _ = exSet(r, v[i])
		}
		for s := 0; s < 30; s++ {
			op := ops[r.Intn(len(ops)-r.Intn(2))]
			z, x, y := r.Intn(n), r.Intn(n), r.Intn(n)
			t.Note("e%d = %s(e%d=%s, e%d=%s)", z, op.n, x, v[x], y, v[y])
			if len(t.notes) > 40 {
				t.ResetNotes()
			}
			want := bmod(op.m(v[x], v[y]), b2Q)
			op.f(&e[z], &e[x], &e[y])
			v[z] = want
			t.EvalH(hashStr(op.n), hb(want), uint64(s))
			for i := range e {
				t.exIs("history:"+op.n, &e[i], v[i], "variable "+fmt.Sprint(i)+" after "+op.n)
			}
			if len(t.failed) > 0 {
				return
			}
		}
	})
	c.Run("constants", 1, func(t *T) {
		for _, q := range []struct {
			n    string
			g, w *big.Int
		}{{"CurveExponent_Int", ex.CurveExponent_Int, b2Q}, {"GroupOrder_Int", ex.GroupOrder_Int, bQ},
			{"CurveOrder_Int", ex.CurveOrder_Int, new(big.Int).Lsh(bQ, 2)}, {"EndomorphismEigenvalue_Int", bmod(ex.EndomorphismEigenvalue_Int, bQ), bLambda}} {
			t.Eval(q.n)
			t.Check(beq(q.g, q.w), "constant:"+q.n, q.n+" changed")
		}
		const ok = ex.CurveExponent == 2*ex.GroupOrder && ex.CurveOrder == 4*ex.GroupOrder
		t.Check(ok && beq(mustBig(fmt.Sprint(ex.GroupOrder_Int)), bQ), "constants", "typed constants disagree")
	})
}

func inorm(u, v *big.Int) *big.Int {
	if u.CmpAbs(v) > 0 {
		return new(big.Int).Abs(u)
	}
	return new(big.Int).Abs(v)
}

// better returns the best norm among the lattice neighbours of (u,v).
func better(u, v *big.Int) *big.Int {
	var best *big.Int
	for _, w := range glvNear {
		n := inorm(badd(u, w[0]), badd(v, w[1]))
		if best == nil || n.Cmp(best) < 0 {
			best = n
		}
	}
	return best
}

// genCell makes a pair u,v on or near the border of the cell of optimal pairs.
func genCell(r *rand.Rand) (u, v *big.Int, kind string) {
	dir := func() (*big.Int, *big.Int) {
		M := bGLVMax
		x := bmod(gen256(r), badd(M, bOne))
		a, b := bcopy(M), x
		if r.Intn(4) == 0 { // extreme slopes and corners
			b = []*big.Int{bcopy(M), bi(0), new(big.Int).Rsh(M, 1), bsub(M, bi(int64(r.Intn(4)))), bi(int64(r.Intn(5))), new(big.Int).Rsh(bL12, 1), bmod(bL12, M)}[r.Intn(7)]
		}
		if r.Intn(2) == 0 {
			a, b = b, a
		}
		if r.Intn(2) == 0 {
			a = a.Neg(a)
		}
		if r.Intn(2) == 0 {
			b = new(big.Int).Neg(b)
		}
		return a, b
	}
	a, b := dir()
	jit := func(x *big.Int) *big.Int { return badd(x, bi(int64(r.Intn(5))-2)) }
	switch r.Intn(3) {
	case 0: // largest multiple of the direction that is still optimal
		lo, hi := bi(0), new(big.Int).Lsh(bOne, 40)
		at := func(k *big.Int) (*big.Int, *big.Int) {
			return new(big.Int).Rsh(bmul(a, k), 40), new(big.Int).Rsh(bmul(b, k), 40)
		}
		for badd(lo, bOne).Cmp(hi) < 0 {
			m := new(big.Int).Rsh(badd(lo, hi), 1)
			x, y := at(m)
			if better(x, y).Cmp(inorm(x, y)) < 0 {
				hi = m
			} else {
				lo = m
			}
		}
		x, y := at(lo)
		// walk to the exact border along the longer coordinate
		step := new(big.Int).Rsh(bGLVMax, 40)
		for step.Sign() > 0 {
			x2, y2 := bcopy(x), bcopy(y)
			if x.CmpAbs(y) > 0 {
				x2 = badd(x, bmul(step, bi(int64(x.Sign()))))
			} else {
				y2 = badd(y, bmul(step, bi(int64(y.Sign()))))
			}
			if better(x2, y2).Cmp(inorm(x2, y2)) >= 0 {
				x, y = x2, y2
			}
			step.Rsh(step, 1)
		}
		return jit(x), jit(y), "optimality border"
	case 1: // rounding border: alpha or beta is a half
		k := badd(new(big.Int).Rsh(bQ, 1), bi(int64(r.Intn(6))-2))
		if r.Intn(3) == 0 {
			k = bi(int64(r.Intn(5)) - 2)
		}
		m := bL22
		if r.Intn(2) == 0 {
			m = bL12
		}
		return bmod(bmul(k, new(big.Int).ModInverse(m, bQ)), bQ), bi(0), "rounding border"
	}
	return jit(a), jit(b), "box border"
}

func checkX02(c *Ctx) {
	c.Rule("Exponents: random, small, borders of the moduli, exact borders of the rounding and of the cell of optimal pairs (found by bisection), box corners; each also shifted by the subgroup order. Every decomposition is checked for the congruence, the bound, optimality against all lattice vectors a*b1+b*b2 with |a|,|b|<=3 (any better pair differs by such a vector since both are within the bound), and through all accessors. Distinct by exponent.")
	c.Assume("the reference lattice basis and eigenvalue (verified at start: in the lattice, determinant q, square -2)")
	check := func(t *T, v *big.Int) {
		r := t.R
		e, _ := exSet(r, v)
		keep := e
		g := ex.GLV_representation(&e)
		t.Check(e == keep, "operand", "GLV_representation changed its argument")
		U, V := g.U.ToBigInt(), g.V.ToBigInt()
		t.Keep("component", U.String)
		t.Keep("component", V.String)
		t.Note("t=%s u=%s v=%s", v, U, V)
		if bmod(bsub(badd(U, bmul(V, bLambda)), v), bQ).Sign() != 0 {
			t.Failf("congruence", "t=%s: u=%s, v=%s do not represent it", v, U, V)
			return
		}
		n := inorm(U, V)
		if n.Cmp(bGLVMax) > 0 {
			t.Failf("bound", "t=%s: u=%s, v=%s exceed the bound", v, U, V)
			return
		}
		o := better(U, V)
		if o.Cmp(n) < 0 {
			t.Failf("optimal", "t=%s: u=%s, v=%s has norm %s, but %s is possible", v, U, V, n, o)
		}
		if o.Cmp(n) == 0 {
			t.Class("tie")
		}
		if d := bsub(o, n); d.BitLen() <= 3 {
			t.Class("within 8 of the border")
		}
		if bsub(bGLVMax, n).BitLen() <= 3 {
			t.Class("within 8 of the bound")
		}
		h := g // accessors
		for _, q := range []struct {
			n string
			b *big.Int
			s func() int
			g func(uint) uint
			p func() bool
		}{{"U", U, h.U.Sign, h.U.Bit, h.U.IsNegative}, {"V", V, h.V.Sign, h.V.Bit, h.V.IsNegative}} {
			if s := q.s(); s != q.b.Sign() {
				t.Failf("Sign", "t=%s: %s=%s, Sign %d", v, q.n, q.b, s)
			}
			if q.b.Sign() == 0 {
				t.Class("zero component")
			} else if q.p() != (q.b.Sign() < 0) {
				t.Failf("IsNegative", "t=%s: %s=%s, IsNegative %v", v, q.n, q.b, q.p())
			}
			ab := new(big.Int).Abs(q.b)
			for i := uint(0); i < 128; i++ {
				if q.g(i) != ab.Bit(int(i)) {
					t.Failf("Bit", "t=%s: %s=%s, Bit(%d)=%d", v, q.n, q.b, i, q.g(i))
					break
				}
			}
			t.Classf("%s sign %d", q.n, q.b.Sign())
		}
		t.EvalH(hb(v))
	}
	c.Run("exponents", 150000, func(t *T) {
		v := genExp(t.R)
		t.Sample("t=%s", v)
		check(t, v)
	})
	c.Run("cells", 30000, func(t *T) {
		u, v, kind := genCell(t.R)
		t.Class(kind)
		w := bmod(badd(u, bmul(v, bLambda)), bQ)
		t.Sample("%s t=%s", kind, w)
		check(t, w)
		check(t, badd(w, bQ)) // the other representative
	})
	c.Run("related exponents", 6000, func(t *T) {
		ks := kin(t.R, genExp(t.R), b2Q)
		for i := 0; i < 8; i++ {
			v := ks[t.R.Intn(len(ks))]
			if t.R.Intn(3) == 0 {
				v = bmod(badd(v, bQ), b2Q)
			}
			t.ResetNotes()
			check(t, v)
		}
	})
	c.Run("set and read back", 60000, func(t *T) {
		r := t.R
		var e EX
		e.SetUInt(r.Uint64())
		g := ex.GLV_representation(&e)
		x := bmod(gen256(r), new(big.Int).Lsh(bOne, uint(1+r.Intn(128))))
		if r.Intn(8) == 0 {
			x = bsub(new(big.Int).Lsh(bOne, 128), bi(int64(r.Intn(3))-1))
		}
		if r.Intn(2) == 0 {
			x = x.Neg(x)
		}
		keep := bcopy(x)
		t.EvalH(hb(x))
		if x.BitLen() > 128 {
			t.Class("too long")
			t.MustPanic("SetBigInt:panic", func() { g.U.SetBigInt(x) }, "SetBigInt of a %d bit number", x.BitLen())
			return
		}
		g.U.SetBigInt(x)
		t.Check(beq(x, keep), "SetBigInt:arg", "SetBigInt changed its argument")
		t.Check(beq(g.U.ToBigInt(), keep) && g.U.Sign() == keep.Sign(), "SetBigInt", "SetBigInt / ToBigInt do not round trip: "+keep.String())
		for i := uint(0); i < 128; i++ {
			if g.U.Bit(i) != new(big.Int).Abs(keep).Bit(int(i)) {
				t.Failf("Bit", "%s: Bit(%d)=%d", keep, i, g.U.Bit(i))
				break
			}
		}
	})
	for _, k := range []string{"tie", "within 8 of the border", "within 8 of the bound"} {
		c.Need("cells/"+k, 20)
	}
	c.Need("exponents/zero component", 10)
}
