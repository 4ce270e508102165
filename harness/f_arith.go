package main

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"

	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
)

func init() {
	register("F01", 25, checkF01)
	register("F02", 25, checkF02)
	register("F04", 20, checkF04)
	register("F05", 20, checkF05)
}

// binary and unary operations with reference and in-place variant
type binOp struct {
	name string
	f    func(z, x, y *FE)
	eq   func(z, y *FE)
	ref  func(x, y *big.Int) *big.Int // nil result: must panic
}

var binOps = []binOp{
	{"Add", (*FE).Add, (*FE).AddEq, addP},
	{"Sub", (*FE).Sub, (*FE).SubEq, subP},
	{"Mul", (*FE).Mul, (*FE).MulEq, mulP},
	{"Divide", (*FE).Divide, (*FE).DivideEq, func(x, y *big.Int) *big.Int {
		if y.Sign() == 0 {
			return nil
		}
		return mulP(x, invP(y))
	}},
}

type unOp struct {
	name string
	f    func(z, x *FE)
	eq   func(z *FE)
	ref  func(x *big.Int) *big.Int
}

var unOps = []unOp{
	{"Neg", (*FE).Neg, (*FE).NegEq, negP},
	{"Double", (*FE).Double, (*FE).DoubleEq, func(x *big.Int) *big.Int { return addP(x, x) }},
	{"Square", (*FE).Square, (*FE).SquareEq, func(x *big.Int) *big.Int { return mulP(x, x) }},
	{"MulFive", (*FE).MulFive, (*FE).MulEqFive, func(x *big.Int) *big.Int { return mulP(x, bi(5)) }},
	{"Inv", (*FE).Inv, (*FE).InvEq, func(x *big.Int) *big.Int {
		if x.Sign() == 0 {
			return nil
		}
		return invP(x)
	}},
}

// divByZero checks the panic value of a division by zero.
func divByZero(t *T, name string, f func()) {
	v, p := PanicVal(f)
	if !p {
		t.Failf("nopanic:"+name, "%s with zero denominator did not panic", name)
		return
	}
	if err, ok := v.(error); !ok || !errors.Is(err, fe.ErrDivisionByZero) {
		t.Failf("panicval:"+name, "%s with zero denominator panicked with %v, which does not wrap ErrDivisionByZero", name, v)
	}
}

func (t *T) feEq(key string, got *FE, want *big.Int, f string, a ...interface{}) {
	g := feVal(got)
	if !beq(g, want) {
		t.Failf(key, "%s: got %s, want %s", fmt.Sprintf(f, a...), hex(g), hex(want))
	}
	if g.Sign() < 0 || g.Cmp(bP) >= 0 {
		t.Failf(key, "%s: ToBigInt out of range: %s", fmt.Sprintf(f, a...), hex(g))
	}
	if feRaw {
		if w := fromLE([]byte(feRawBytes(got))); w.Cmp(bC) >= 0 {
			t.Failf(key+":range", "%s: internal representation %s violates the range invariant", fmt.Sprintf(f, a...), hex(w))
		}
	}
}

func checkF01(c *Ctx) {
	c.Rule("Each case draws two field elements whose value or internal (Montgomery) words are structured (edge words, values next to 0, p, 2p, 2^256-p, operands chosen so that sum, difference or product hits such a border) in one of their representations, applies every operation in every alias pattern and compares residue, range invariant and unchanged operands with math/big. Non-trivial: every evaluation with its operands; distinct by operation and operand values and representations.")
	c.Assume("math/big computes integers correctly")
	nb := 1200000
	c.Run("binary", nb, func(t *T) {
		r := t.R
		x, vx, y, vy := genFE2(r)
		t.Note("x=%s (words %x)", hex(vx), feRawBytes(&x))
		t.Note("y=%s (words %x)", hex(vy), feRawBytes(&y))
		if isAlt(&x) {
			t.Class("x non-normalized")
		}
		if isAlt(&y) {
			t.Class("y non-normalized")
		}
		if vx.Sign() == 0 || vy.Sign() == 0 {
			t.Class("zero operand")
		}
		op := binOps[r.Intn(len(binOps))]
		if op.name == "Divide" && r.Intn(4) != 0 {
			op = binOps[r.Intn(3)]
		}
		want := op.ref(vx, vy)
		t.Sample("%s x=%s y=%s", op.name, hex(vx), hex(vy))
		t.EvalH(hashStr(op.name, feRawBytes(&x), feRawBytes(&y)))
		if want == nil {
			t.Class("division by zero")
			z := y
			divByZero(t, op.name, func() { op.f(&z, &x, &y) })
			z = x
			divByZero(t, op.name+"Eq", func() { op.eq(&z, &y) })
			return
		}
		t.Class(op.name)
		xi, yi := x, y
		z, _ := genFE(r)
		op.f(&z, &x, &y)
		t.feEq(op.name, &z, want, "%s(x,y)", op.name)
		t.feEq(op.name+":operand", &x, vx, "operand x after %s", op.name)
		t.feEq(op.name+":operand", &y, vy, "operand y after %s", op.name)
		z = xi
		y = yi
		op.f(&z, &z, &y)
		t.feEq(op.name+":alias", &z, want, "z.%s(z,y)", op.name)
		t.feEq(op.name+":operand", &y, vy, "operand y after z.%s(z,y)", op.name)
		z = yi
		x = xi
		op.f(&z, &x, &z)
		t.feEq(op.name+":alias", &z, want, "z.%s(x,z)", op.name)
		t.feEq(op.name+":operand", &x, vx, "operand x after z.%s(x,z)", op.name)
		z = xi
		y = yi
		op.eq(&z, &y)
		t.feEq(op.name+"Eq", &z, want, "z.%sEq(y)", op.name)
		t.feEq(op.name+":operand", &y, vy, "operand y after z.%sEq(y)", op.name)
		// same variable three times
		if w := op.ref(vx, vx); w != nil {
			z = xi
			op.f(&z, &z, &z)
			t.feEq(op.name+":alias", &z, w, "z.%s(z,z)", op.name)
			z = xi
			op.eq(&z, &z)
			t.feEq(op.name+":alias", &z, w, "z.%sEq(z)", op.name)
			x = xi
			op.f(&z, &x, &x)
			t.feEq(op.name+":alias", &z, w, "z.%s(x,x)", op.name)
		}
	})
	c.Run("unary", 600000, func(t *T) {
		x, vx := genFE(t.R)
		op := unOps[t.R.Intn(len(unOps))]
		if op.name == "Inv" && t.R.Intn(3) != 0 {
			op = unOps[t.R.Intn(4)]
		}
		if t.R.Intn(50) == 0 {
			vx = bi(0)
			x = feFrom(t.R, vx)
		}
		t.Note("%s x=%s (words %x)", op.name, hex(vx), feRawBytes(&x))
		t.EvalH(hashStr(op.name, feRawBytes(&x)))
		if isAlt(&x) {
			t.Class("non-normalized")
		}
		want := op.ref(vx)
		if want == nil {
			t.Class("inversion of zero")
			z := x
			divByZero(t, op.name, func() { op.f(&z, &x) })
			z = x
			divByZero(t, op.name+"Eq", func() { op.eq(&z) })
			return
		}
		t.Class(op.name)
		xi := x
		z, _ := genFE(t.R)
		op.f(&z, &x)
		t.feEq(op.name, &z, want, "z.%s(x)", op.name)
		t.feEq(op.name+":operand", &x, vx, "operand after %s", op.name)
		z = xi
		op.f(&z, &z)
		t.feEq(op.name+":alias", &z, want, "z.%s(z)", op.name)
		z = xi
		op.eq(&z)
		t.feEq(op.name+"Eq", &z, want, "z.%sEq()", op.name)
	})
	c.Run("related inputs", 4000, func(t *T) {
		r := t.R
		ks := feKin(r, genResidue(r))
		var x, y, z FE
		vx, vy := bi(0), bi(0)
		for i := 0; i < 24; i++ {
			if i == 0 || r.Intn(3) > 0 { // the same variables with other values
				vx = ks[r.Intn(len(ks))]
				x = feFrom(r, vx)
			}
			if i == 0 || r.Intn(2) == 0 {
				vy = ks[r.Intn(len(ks))]
				y = feFrom(r, vy)
			}
			t.ResetNotes()
			t.EvalH(hb(vx), hb(vy))
			if r.Intn(2) == 0 {
				op := unOps[r.Intn(len(unOps))]
				t.Note("%s x=%s, related to the operands before", op.name, hex(vx))
				if want := op.ref(vx); want != nil {
					op.f(&z, &x)
					t.feEq(op.name, &z, want, "z.%s(x)", op.name)
				}
			} else {
				op := binOps[r.Intn(len(binOps))]
				t.Note("%s x=%s y=%s, related to the operands before", op.name, hex(vx), hex(vy))
				if want := op.ref(vx, vy); want != nil {
					op.f(&z, &x, &y)
					t.feEq(op.name, &z, want, "z.%s(x,y)", op.name)
				}
			}
			t.feEq("related:operand", &x, vx, "operand")
			t.feEq("related:operand", &y, vy, "operand")
		}
	})
	c.Run("int64", 400000, func(t *T) {
		r := t.R
		x, vx := genFE(r)
		y := genWord(r)
		signed := r.Intn(2) == 0
		which := r.Intn(4)
		vy := bu(y)
		if signed {
			vy = bi(int64(y))
		}
		vyp := bmod(vy, bP)
		name := []string{"Add", "Sub", "Mul", "Divide"}[which]
		want := binOps[which].ref(vx, vyp)
		suffix := "Uint64"
		if signed {
			suffix = "Int64"
		}
		name += suffix
		t.Class(name)
		t.Note("%s x=%s y=%s", name, hex(vx), vy)
		t.EvalH(hashStr(name, feRawBytes(&x)), y)
		call := func(z, x *FE) {
			if signed {
				[]func(z, x *FE, y int64){(*FE).AddInt64, (*FE).SubInt64, (*FE).MulInt64, (*FE).DivideInt64}[which](z, x, int64(y))
			} else {
				[]func(z, x *FE, y uint64){(*FE).AddUint64, (*FE).SubUint64, (*FE).MulUint64, (*FE).DivideUint64}[which](z, x, y)
			}
		}
		z, _ := genFE(r)
		if want == nil {
			divByZero(t, name, func() { call(&z, &x) })
			t.Class("division by zero")
			return
		}
		call(&z, &x)
		t.feEq(name, &z, want, "%s", name)
		t.feEq(name+":operand", &x, vx, "operand after %s", name)
		call(&x, &x)
		t.feEq(name+":alias", &x, want, "aliasing %s", name)
	})
	c.Run("exp", 60000, func(t *T) {
		x, vx := genFE(t.R)
		e := gen256(t.R)
		if t.R.Intn(8) == 0 {
			e = bi(int64(t.R.Intn(4)))
		}
		if t.R.Intn(10) == 0 {
			vx = bi(0)
			x = feFrom(t.R, vx)
		}
		eu := fe.BigIntToUInt256(e)
		want := new(big.Int).Exp(vx, e, bP)
		t.Note("x=%s e=%s", hex(vx), hex(e))
		t.EvalH(hb(vx), hb(e))
		var z FE
		z.Exp(&x, &eu)
		t.feEq("Exp", &z, want, "Exp")
		x.Exp(&x, &eu)
		t.feEq("Exp:alias", &x, want, "aliasing Exp")
		t.Check(beq(eu.ToBigInt(), e), "Exp:operand", "exponent was modified")
	})
	c.Run("many", 150000, func(t *T) {
		r := t.R
		n := r.Intn(9)
		if r.Intn(20) == 0 {
			n = 40 + r.Intn(60)
			if r.Intn(60) == 0 {
				n = []int{255, 256, 257, 500 + r.Intn(600), 1023, 1024, 1025, 2048 + r.Intn(3), 4090 + r.Intn(12)}[r.Intn(9)]
				t.Class("very long list")
			}
		}
		s := make([]FE, n)
		vs := make([]*big.Int, n)
		for i := range s {
			s[i], vs[i] = genFE(r)
			if r.Intn(6) == 0 && i > 0 {
				s[i], vs[i] = s[i-1], vs[i-1]
			}
		}
		sum, pr := bi(0), bi(1)
		h := uint64(n)
		for _, v := range vs {
			sum, pr = addP(sum, v), mulP(pr, v)
			h = h*31 + hb(v)
		}
		t.Classf("length class %d", min(n, 3))
		t.EvalH(h)
		t.Note("%d elements", n)
		ptrs := make([]*FE, n)
		for i := range s {
			ptrs[i] = &s[i]
		}
		unchanged := func(except int) {
			for i := range s {
				if i != except {
					t.feEq("many:operand", &s[i], vs[i], "list entry %d of %d", i, n)
				}
			}
		}
		var z FE
		z.SummationSlice(s)
		t.feEq("SummationSlice", &z, sum, "sum of %d", n)
		z, _ = genFE(r)
		z.SummationMany(ptrs...)
		t.feEq("SummationMany", &z, sum, "sum of %d", n)
		z.MultiplySlice(s)
		t.feEq("MultiplySlice", &z, pr, "product of %d", n)
		z, _ = genFE(r)
		z.MultiplyMany(ptrs...)
		t.feEq("MultiplyMany", &z, pr, "product of %d", n)
		unchanged(-1)
		if n > 0 { // receiver is an element of the list
			i := r.Intn(n)
			keep := s[i]
			fs := []func(){func() { s[i].SummationSlice(s) }, func() { s[i].SummationMany(ptrs...) }, func() { s[i].MultiplySlice(s) }, func() { s[i].MultiplyMany(ptrs...) }}
			for k, f := range fs {
				s[i] = keep
				f()
				w := sum
				if k >= 2 {
					w = pr
				}
				t.feEq("many:alias", &s[i], w, "list operation %d with receiver in list", k)
				unchanged(i)
			}
		}
	})
	// histories: a program over a few variables against the same program over integers
	c.Run("history", 20000, func(t *T) {
		r := t.R
		const nv = 5
		var x [nv]FE
		var v [nv]*big.Int
		for i := range x {
			x[i], v[i] = genFE(r)
		}
		for step := 0; step < 120; step++ {
			i, j, k := r.Intn(nv), r.Intn(nv), r.Intn(nv)
			op := ""
			switch q := r.Intn(12); q {
			case 0, 1, 2, 3, 4, 5, 6:
				o := binOps[[]int{0, 0, 1, 1, 2, 2, 3}[q]]
				w := o.ref(v[j], v[k])
				if w == nil {
					continue
				}
				if r.Intn(3) == 0 {
					w = o.ref(v[i], v[k])
					if w == nil {
						continue
					}
					o.eq(&x[i], &x[k])
				} else {
					o.f(&x[i], &x[j], &x[k])
				}
				v[i] = w
				op = o.name
			case 7, 8:
				o := unOps[r.Intn(4)]
				o.f(&x[i], &x[j])
				v[i] = o.ref(v[j])
				op = o.name
			case 9:
				x[i].Normalize()
				op = "Normalize"
			case 10:
				x[i].RerandomizeRepresentation(r.Uint64())
				op = "Rerandomize"
			case 11:
				if got, want := x[i].IsEqual(&x[j]), beq(v[i], v[j]); got != want {
					t.Failf("history:IsEqual", "IsEqual(%s,%s)=%v", hex(v[i]), hex(v[j]), got)
				}
				if r.Intn(3) == 0 {
					x[i], v[i] = genFE(r)
				}
				op = "IsEqual"
			}
			t.Note("%s -> x%d (from x%d,x%d)", op, i, j, k)
			t.EvalH(hb(v[i]), hashStr(op))
			if !beq(x[i].ToBigInt(), v[i]) {
				t.Failf("history:"+op, "step %d %s: x%d = %s, want %s", step, op, i, hex(x[i].ToBigInt()), hex(v[i]))
				return
			}
			t.Class(op)
		}
		for i := range x {
			t.feEq("history:final", &x[i], v[i], "final value of x%d", i)
		}
	})
	for _, op := range []string{"Add", "Sub", "Mul", "Divide", "division by zero", "zero operand"} {
		c.Need("binary/"+op, 100)
	}
	if feRaw {
		c.Need("binary/x non-normalized", 1000)
	}
	internalArith(c)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// jacobiRef is the Legendre symbol by Euler's criterion (independent of math/big's Jacobi).
func jacobiRef(v *big.Int) int {
	if v.Sign() == 0 {
		return 0
	}
	if new(big.Int).Exp(v, bHalf, bP).Cmp(bOne) == 0 {
		return 1
	}
	return -1
}

func checkF02(c *Ctx) {
	c.Rule("Each case draws one or two residues (structured values and structured Montgomery words) and builds every internal representation of them; all observers must give the mathematical answer for each representation, in a random call order, without changing the residue. Distinct by residue pair.")
	c.Run("observers", 250000, func(t *T) {
		r := t.R
		_, va, _, vb := genFE2(r)
		ra, rb := feReps(va), feReps(vb)
		if len(ra) > 1 || len(rb) > 1 {
			t.Class("second representation exists")
		}
		if beq(va, vb) {
			t.Class("equal pair")
		}
		if beq(va, negP(vb)) {
			t.Class("opposite pair")
		}
		t.Note("a=%s b=%s", hex(va), hex(vb))
		t.Sample("a=%s (%d reps) b=%s (%d reps)", hex(va), len(ra), hex(vb), len(rb))
		j := -2
		if r.Intn(4) == 0 {
			j = jacobiRef(va)
		}
		for ia := range ra {
			for ib := range rb {
				a, b := ra[ia], rb[ib]
				t.EvalH(hb(va), hb(vb), uint64(ia*2+ib))
				order := r.Perm(9)
				for _, q := range order {
					if r.Intn(3) == 0 {
						a, b = ra[ia], rb[ib]
					}
					switch q {
					case 0:
						t.Check(a.IsZero() == (va.Sign() == 0), "IsZero", "IsZero(%s rep %d)=%v", hex(va), ia, a.IsZero())
					case 1:
						t.Check(a.IsOne() == beq(va, bOne), "IsOne", "IsOne(%s rep %d)=%v", hex(va), ia, !beq(va, bOne))
					case 2:
						if g := a.IsEqual(&b); g != beq(va, vb) {
							t.Failf("IsEqual", "IsEqual(%s rep %d, %s rep %d)=%v", hex(va), ia, hex(vb), ib, g)
						}
						if g := a.IsEqual(&a); !g {
							t.Failf("IsEqual", "x.IsEqual(x) is false for %s rep %d", hex(va), ia)
						}
					case 3:
						abs, ex := a.CmpAbs(&b)
						if ex != beq(va, vb) || abs != (beq(va, vb) || beq(va, negP(vb))) {
							t.Failf("CmpAbs", "CmpAbs(%s rep %d, %s rep %d)=%v,%v", hex(va), ia, hex(vb), ib, abs, ex)
						}
						if abs, ex = a.CmpAbs(&a); !abs || !ex {
							t.Failf("CmpAbs", "x.CmpAbs(x)=%v,%v for %s", abs, ex, hex(va))
						}
					case 4:
						if g := a.Sign(); g != signP(va) {
							t.Failf("Sign", "Sign(%s rep %d)=%d", hex(va), ia, g)
						}
					case 5:
						if j != -2 {
							if g := a.Jacobi(); g != j {
								t.Failf("Jacobi", "Jacobi(%s rep %d)=%d want %d", hex(va), ia, g, j)
							}
						}
					case 6:
						var u U256
						a.ToUint256(&u)
						if !beq(fromWords(u), va) {
							t.Failf("ToUint256", "ToUint256(%s rep %d)=%s", hex(va), ia, hex(fromWords(u)))
						}
					case 7:
						if a.String() != va.Text(10) {
							t.Failf("String", "String(%s rep %d)=%s", hex(va), ia, a.String())
						}
					case 8: // raw round trip keeps the element
						var z FE
						z.SetOne()
						z.SetBytes([]byte(feRawBytes(&a)))
						if feRawBytes(&z) != feRawBytes(&a) || !beq(feVal(&z), va) {
							t.Failf("SetBytes", "ToBytes/SetBytes roundtrip of %s rep %d gave %s", hex(va), ia, hex(feVal(&z)))
						}
					}
					t.feEq("observer-changes", &a, va, "a after observer %d", q)
					t.feEq("observer-changes", &b, vb, "b after observer %d", q)
				}
				// Normalize gives a unique representation
				a, b = ra[ia], rb[ib]
				a.Normalize()
				b.Normalize()
				if (feRawBytes(&a) == feRawBytes(&b)) != beq(va, vb) {
					t.Failf("Normalize", "normalized representations of %s and %s: equal=%v", hex(va), hex(vb), feRawBytes(&a) == feRawBytes(&b))
				}
				t.feEq("Normalize", &a, va, "after Normalize")
				before := feRawBytes(&a)
				a.IsZero()
				a.IsOne()
				a.IsEqual(&b)
				a.CmpAbs(&b)
				a.Sign()
				a.Jacobi()
				if feRawBytes(&a) != before {
					t.Failf("Normalize:stable", "observers changed the representation of a normalized element")
				}
				seed := r.Uint64()
				x, y := ra[ia], ra[r.Intn(len(ra))]
				x.RerandomizeRepresentation(seed)
				y.RerandomizeRepresentation(seed)
				if feRawBytes(&x) != feRawBytes(&y) {
					t.Failf("Rerandomize", "RerandomizeRepresentation depends on the previous representation of %s", hex(va))
				}
				t.feEq("Rerandomize", &x, va, "after RerandomizeRepresentation")
			}
		}
	})
	// random setters: reduced, and not zero where promised, even for a hostile source
	c.Run("random", 1000, func(t *T) {
		src := &stuckSource{zeros: t.R.Intn(30), rest: rand.NewSource(int64(t.R.Uint32())).(rand.Source64)}
		var z FE
		nz := t.Index%2 == 0
		if nz {
			z.SetRandomUnsafeNonZero(rand.New(src))
		} else {
			z.SetRandomUnsafe(rand.New(src))
		}
		v := feVal(&z)
		t.feEq("random", &z, v, "random element")
		t.Check(z.IsZero() == (v.Sign() == 0), "random", "IsZero of the random element %s", hex(v))
		t.Check(!nz || v.Sign() != 0, "random:zero", "SetRandomUnsafeNonZero gives zero for a source that starts with %d zeros", src.zeros)
		t.Classf("non-zero %v", nz)
		t.EvalH(uint64(t.Index), hb(v))
	})
	c.Run("constants", 50, func(t *T) {
		x, _ := genFE(t.R)
		x.SetZero()
		t.feEq("SetZero", &x, bZero, "SetZero")
		t.Check(x.IsZero() && !x.IsOne(), "SetZero", "SetZero not recognized")
		x.SetOne()
		t.feEq("SetOne", &x, bOne, "SetOne")
		t.Check(x.IsOne() && !x.IsZero(), "SetOne", "SetOne not recognized")
		var z FE
		t.feEq("zero value", &z, bZero, "zero value")
		for i, w := range map[*FE]*big.Int{&fe.FieldElementZero: bZero, &fe.FieldElementOne: bOne, &fe.FieldElementMinusOne: negP(bOne), &fe.FieldElementTwo: bTwo} {
			y := *i
			t.feEq("constants", &y, w, "exported constant")
		}
		t.Check(beq(fe.BaseFieldSize_Int, bP), "constants", "BaseFieldSize_Int")
		t.Check(fromWords(fe.BaseFieldSize_64).Cmp(bP) == 0, "constants", "BaseFieldSize_64")
		var p32, p16, p8 big.Int
		for i := 7; i >= 0; i-- {
			p32.Lsh(&p32, 32).Or(&p32, bu(uint64(fe.BaseFieldSize_32[i])))
		}
		for i := 15; i >= 0; i-- {
			p16.Lsh(&p16, 16).Or(&p16, bu(uint64(fe.BaseFieldSize_16[i])))
		}
		for i := 31; i >= 0; i-- {
			p8.Lsh(&p8, 8).Or(&p8, bu(uint64(fe.BaseFieldSize_8[i])))
		}
		t.Check(beq(&p32, bP) && beq(&p16, bP) && beq(&p8, bP), "constants", "BaseFieldSize in other word sizes")
		// random sampling yields valid elements of either representation
		y := fe.CreateRandomFieldElement_Unsafe[FE](t.R)
		t.feEq("random", &y, feVal(&y), "random element")
		y = fe.CreateRandomNonZeroFieldElement_Unsafe[FE](t.R)
		t.Check(feVal(&y).Sign() != 0, "random", "non-zero sample is zero")
		t.feEq("random", &y, feVal(&y), "random element")
		t.EvalH(hb(feVal(&y)))
	})
	c.Need("observers/equal pair", 200)
	c.Need("observers/opposite pair", 200)
	if feRaw {
		c.Need("observers/second representation exists", 500)
	}
	internalObservers(c)
}

func checkF04(c *Ctx) {
	c.Rule("Each case draws a list (length 0..12, sometimes up to 200) with a random pattern of zeros (in both representations), ones, minus ones and repeated values and applies one of the four batch inversion functions; all short zero patterns are enumerated. Distinct by function, zero pattern and values.")
	one := func(t *T, s []FE, vs []*big.Int, which int) {
		n := len(s)
		var zeros []int
		for i, v := range vs {
			if v.Sign() == 0 {
				zeros = append(zeros, i)
			}
		}
		ptrs := make([]*FE, n)
		for i := range s {
			ptrs[i] = &s[i]
		}
		name := []string{"MultiInvertEq", "MultiInvertEqSlice", "MultiInvertEqSkipZeros", "MultiInvertEqSliceSkipZeros"}[which]
		orig := append([]FE(nil), s...)
		t.Class(name)
		if len(zeros) > 0 {
			t.Class("with zeros")
		}
		sameInts := func(a, b []int) bool {
			if len(a) != len(b) {
				return false
			}
			for i := range a {
				if a[i] != b[i] {
					return false
				}
			}
			return true
		}
		if which < 2 {
			var err fe.MultiInversionError
			if which == 0 {
				err = fe.MultiInvertEq(ptrs...)
			} else {
				err = fe.MultiInvertEqSlice(s)
			}
			if len(zeros) == 0 {
				if err != nil {
					t.Failf(name, "error without zeros: %v", err)
					return
				}
			} else {
				if err == nil {
					t.Failf(name, "no error although entries %v are zero", zeros)
					return
				}
				t.Check(errors.Is(err, fe.ErrDivisionByZero), name+":error", "error does not wrap ErrDivisionByZero: %v", err)
				d := err.GetData_struct()
				t.Check(sameInts(d.ZeroIndices, zeros), name+":data", "ZeroIndices = %v, want %v", d.ZeroIndices, zeros)
				t.Check(d.NumberOfZeroIndices == len(zeros), name+":data", "NumberOfZeroIndices = %v, want %v", d.NumberOfZeroIndices, len(zeros))
				t.Check(err.Error() != "", name+":data", "empty error message")
				for i := range s {
					t.feEq(name+":unchanged", &s[i], vs[i], "entry %d after error", i)
				}
				_ = orig
				t.KeepErr(err)
				t.Keep("list of zeros in error data", func() string { return fmt.Sprint(d.ZeroIndices) })
				return
			}
		} else {
			var z []int
			if which == 2 {
				z = fe.MultiInvertEqSkipZeros(ptrs...)
			} else {
				z = fe.MultiInvertEqSliceSkipZeros(s)
			}
			t.Check(sameInts(z, zeros), name+":zeros", "returned zero indices %v, want %v", z, zeros)
			t.Keep("list of zeros", func() string { return fmt.Sprint(z) })
			t.Check((z == nil) == (len(zeros) == 0), name+":nil", "zero indices nil=%v for %d zeros", z == nil, len(zeros))
		}
		for i := range s {
			w := bi(0)
			if vs[i].Sign() != 0 {
				w = invP(vs[i])
			}
			t.feEq(name, &s[i], w, "entry %d of %d", i, n)
		}
	}
	gen := func(t *T, n int, zero func(i int) bool) ([]FE, []*big.Int) {
		s := make([]FE, n)
		vs := make([]*big.Int, n)
		for i := range s {
			switch {
			case zero(i):
				vs[i] = bi(0)
				s[i] = feFrom(t.R, vs[i])
				if isAlt(&s[i]) {
					t.Class("zero in second representation")
				}
			case t.R.Intn(6) == 0:
				vs[i] = bmod(bi([]int64{1, -1, 1, 2}[t.R.Intn(4)]), bP)
				s[i] = feFrom(t.R, vs[i])
			case i > 0 && t.R.Intn(6) == 0 && vs[i-1].Sign() != 0:
				if t.R.Intn(2) == 0 {
					vs[i] = vs[i-1]
				} else {
					vs[i] = invP(vs[i-1])
				}
				s[i] = feFrom(t.R, vs[i])
			default:
				for vs[i] == nil || vs[i].Sign() == 0 {
					s[i], vs[i] = genFE(t.R)
				}
			}
		}
		return s, vs
	}
	// all zero patterns of length <= 7, all four functions
	total := 0
	for n := 0; n <= 7; n++ {
		total += 1 << uint(n)
	}
	c.RunN("patterns", total*4, func(t *T) {
		which, k, n := t.Index%4, t.Index/4, 0
		for k >= 1<<uint(n) {
			k -= 1 << uint(n)
			n++
		}
		t.Note("length %d zero pattern %b function %d", n, k, which)
		s, vs := gen(t, n, func(i int) bool { return k>>uint(i)&1 == 1 })
		t.EvalH(uint64(which), uint64(n), uint64(k))
		one(t, s, vs, which)
	})
	c.Run("random", 120000, func(t *T) {
		n := t.R.Intn(13)
		if t.R.Intn(25) == 0 {
			n = 64 + t.R.Intn(200)
			if t.R.Intn(60) == 0 {
				n = 500 + t.R.Intn(1700)
				if t.R.Intn(6) == 0 {
					n = 4090 + t.R.Intn(5000)
				}
				t.Class("very long")
			}
		}
		dens := []int{0, 1, 1, 3, 9}[t.R.Intn(5)]
		s, vs := gen(t, n, func(i int) bool { return t.R.Intn(10) < dens })
		which := t.R.Intn(4)
		h := uint64(which)
		for _, v := range vs {
			h = h*1000003 + hb(v)
		}
		t.Note("length %d function %d values %v", n, which, vs)
		t.EvalH(h)
		t.Sample("function %d on %d elements", which, n)
		one(t, s, vs, which)
	})
	c.Run("generate error", 500, func(t *T) {
		n := 1 + t.R.Intn(8)
		k := t.R.Intn(1 << uint(n))
		s, vs := gen(t, n, func(i int) bool { return k>>uint(i)&1 == 1 })
		ptrs := make([]*FE, n)
		var zeros []int
		for i := range s {
			ptrs[i] = &s[i]
			if vs[i].Sign() == 0 {
				zeros = append(zeros, i)
			}
		}
		if len(zeros) == 0 {
			err := fe.GenerateMultiDivisionByZeroError(ptrs, "prefix: ")
			t.EvalH(uint64(n), uint64(k))
			t.Check(err == nil, "generate/none", "an error %v for a list without zeros", err)
			t.Class("no zeros")
			return
		}
		err := fe.GenerateMultiDivisionByZeroError(ptrs, "prefix: ")
		d := err.GetData_struct()
		t.EvalH(uint64(n), uint64(k))
		t.Check(errors.Is(err, fe.ErrDivisionByZero), "generate", "does not wrap ErrDivisionByZero")
		t.Check(fmt.Sprint(d.ZeroIndices) == fmt.Sprint(zeros) && d.NumberOfZeroIndices == len(zeros), "generate", "data %v for zeros %v", d, zeros)
	})
	c.Need("generate error/no zeros", 5)
	c.Need("patterns/with zeros", 100)
	for _, n := range []string{"MultiInvertEq", "MultiInvertEqSlice", "MultiInvertEqSkipZeros", "MultiInvertEqSliceSkipZeros"} {
		c.Need("random/"+n, 100)
	}
}

// generator of the 2^32 torsion, computed independently
var dyadic = func() *big.Int {
	odd := new(big.Int).Rsh(bsub(bP, bOne), 32)
	return new(big.Int).Exp(bi(5), odd, bP) // checked below: 5 is a non-square
}()

func checkF05(c *Ctx) {
	c.Rule("Square roots: residues built as g^k*h with g of order 2^32, every 2-adic valuation of k, edge digit patterns of k, and h of odd order, in all representations; oracle: Euler's criterion and squaring the result with math/big. Exponentiation: structured bases and exponents against math/big. Jacobi against Euler's criterion. Distinct by residue / (base, exponent).")
	if jacobiRef(bi(5)) != -1 {
		c.inconcl = append(c.inconcl, "5 is a square; dyadic generator wrong")
		return
	}
	c.Run("sqrt", 200000, func(t *T) {
		r := t.R
		var v *big.Int
		switch r.Intn(5) {
		case 0:
			v = genResidue(r)
		case 1:
			x := genResidue(r)
			v = mulP(x, x)
		default:
			val := uint(r.Intn(34)) // 2-adic valuation of the dyadic logarithm
			k := uint64(1)
			switch r.Intn(5) {
			case 0:
				k = r.Uint64() | 1
			case 1:
				k = (r.Uint64() & 0xff00ff00ff00ff) | 1
			case 2: // digit patterns for the table lookups
				k = 0
				for i := 0; i < 8; i++ {
					k = k<<4 | []uint64{0, 15, 8, 7, 1, uint64(r.Intn(16))}[r.Intn(6)]
				}
				k |= 1
			case 3:
				k = (uint64(1)<<uint(r.Intn(33)) - 1) | 1
			}
			if val >= 32 {
				k = 0
			} else {
				k = (k << val) & 0xffffffff
			}
			h := bOne
			if r.Intn(3) != 0 {
				h = new(big.Int).Exp(genResidue(r), new(big.Int).Lsh(bOne, 32), bP)
				if h.Sign() == 0 {
					h = bOne
				}
			}
			v = mulP(new(big.Int).Exp(dyadic, bu(k), bP), h)
			t.Classf("valuation %d", val)
			if beq(h, bOne) {
				t.Class("pure 2-power root of unity")
			}
		}
		x := feFrom(r, v)
		t.Note("x=%s", hex(v))
		t.Sample("x=%s", hex(v))
		t.EvalH(hb(v))
		j := jacobiRef(v)
		z, vz := genFE(r)
		zraw := feRawBytes(&z)
		ok := z.SquareRoot(&x)
		t.Check(ok == (j != -1), "SquareRoot:ok", "SquareRoot(%s) = %v, Legendre symbol %d", hex(v), ok, j)
		if ok {
			t.Class("square")
			s := feVal(&z)
			t.feEq("SquareRoot", &z, s, "root")
			t.Check(beq(mulP(s, s), v), "SquareRoot", "SquareRoot(%s) = %s, squares to %s", hex(v), hex(s), hex(mulP(s, s)))
		} else {
			t.Class("nonsquare")
			t.Check(feRawBytes(&z) == zraw || beq(feVal(&z), vz), "SquareRoot:receiver", "failed SquareRoot changed its receiver")
		}
		t.feEq("SquareRoot:operand", &x, v, "operand")
		y := x
		ok = y.SquareRoot(&y)
		if ok != (j != -1) {
			t.Failf("SquareRoot:alias", "aliasing SquareRoot(%s)=%v", hex(v), ok)
		} else if ok {
			t.Check(beq(mulP(feVal(&y), feVal(&y)), v), "SquareRoot:alias", "aliasing SquareRoot(%s)=%s", hex(v), hex(feVal(&y)))
		} else {
			t.feEq("SquareRoot:alias", &y, v, "aliasing failed SquareRoot")
		}
		if g := x.Jacobi(); g != j {
			t.Failf("Jacobi", "Jacobi(%s)=%d want %d", hex(v), g, j)
		}
		t.feEq("Jacobi:operand", &x, v, "operand of Jacobi")
	})
	// every dyadic logarithm with at most two non-zero 4-bit digits, and all single 8-bit digits
	c.RunN("dyadic digits", 4*256+8*15*7*3, func(t *T) {
		i := t.Index
		var k uint64
		if i < 1024 {
			k = uint64(i%256) << uint(8*(i/256))
		} else {
			i -= 1024
			d1 := uint64(i%15) + 1
			i /= 15
			p1 := i % 8
			i /= 8
			p2 := (p1 + 1 + i%7) % 8
			d2 := []uint64{1, 8, 15}[i/7%3]
			k = d1<<uint(4*p1) | d2<<uint(4*p2)
		}
		v := new(big.Int).Exp(dyadic, bu(k), bP)
		if t.R.Intn(2) == 0 { // times an element of odd order
			v = mulP(v, new(big.Int).Exp(bi(7), new(big.Int).Lsh(bOne, 32), bP))
		}
		x := feFrom(t.R, v)
		var z FE
		ok := z.SquareRoot(&x)
		t.Note("x=g^%d=%s", k, hex(v))
		t.EvalH(k)
		t.Check(ok == (k%2 == 0), "SquareRoot:ok", "SquareRoot(g^%d)=%v", k, ok)
		if ok {
			t.Check(beq(mulP(feVal(&z), feVal(&z)), v), "SquareRoot", "SquareRoot(g^%d)=%s", k, hex(feVal(&z)))
		}
	})
	c.Run("related inputs", 3000, func(t *T) {
		r := t.R
		v := genResidue(r)
		ks := feKin(r, v)
		for i := 0; i < 3; i++ { // roots of related numbers
			k := ks[r.Intn(len(ks))]
			ks = append(ks, mulP(k, k), mulP(mulP(k, k), dyadic))
		}
		var x, z FE
		for i := 0; i < 16; i++ {
			v = ks[r.Intn(len(ks))]
			x = feFrom(r, v)
			j := jacobiRef(v)
			t.ResetNotes()
			t.Note("x=%s, related to the operands before", hex(v))
			t.EvalH(hb(v))
			t.Classf("symbol %d", j)
			switch r.Intn(3) {
			case 0:
				if g := x.Jacobi(); g != j {
					t.Failf("Jacobi", "Jacobi(%s)=%d want %d", hex(v), g, j)
				}
			case 1:
				ok := z.SquareRoot(&x)
				t.Check(ok == (j != -1), "SquareRoot:ok", "SquareRoot(%s) = %v, Legendre symbol %d", hex(v), ok, j)
				if ok {
					t.Check(beq(mulP(feVal(&z), feVal(&z)), v), "SquareRoot", "SquareRoot(%s)=%s", hex(v), hex(feVal(&z)))
				}
			default:
				e := ks[r.Intn(len(ks))]
				eu := fe.BigIntToUInt256(e)
				z.Exp(&x, &eu)
				t.feEq("Exp", &z, new(big.Int).Exp(v, e, bP), "%s^%s", hex(v), hex(e))
			}
		}
	})
	c.Run("jacobi", 200000, func(t *T) {
		x, v := genFE(t.R)
		j := jacobiRef(v)
		t.EvalH(hb(v))
		t.Note("x=%s", hex(v))
		t.Classf("symbol %d", j)
		if g := x.Jacobi(); g != j {
			t.Failf("Jacobi", "Jacobi(%s)=%d want %d", hex(v), g, j)
		}
	})
	c.Run("exp", 150000, func(t *T) {
		x, vx := genFE(t.R)
		e := gen256(t.R)
		switch t.R.Intn(8) {
		case 0:
			e = bi(int64(t.R.Intn(40)))
		case 1:
			e = badd(bsub(bP, bTwo), bi(int64(t.R.Intn(5))))
		case 2: // windows with long zero runs
			e = bi(0)
			for i := 0; i < 1+t.R.Intn(4); i++ {
				e = new(big.Int).SetBit(e, t.R.Intn(256), 1)
			}
		}
		if t.R.Intn(15) == 0 {
			vx = bi(0)
			x = feFrom(t.R, vx)
			t.Class("zero base")
		}
		if e.Sign() == 0 {
			t.Class("zero exponent")
			if vx.Sign() == 0 {
				t.Class("0^0")
			}
		}
		eu := fe.BigIntToUInt256(e)
		want := new(big.Int).Exp(vx, e, bP)
		t.Note("x=%s e=%s", hex(vx), hex(e))
		t.EvalH(hb(vx), hb(e))
		z, _ := genFE(t.R)
		z.Exp(&x, &eu)
		t.feEq("Exp", &z, want, "Exp")
		t.feEq("Exp:operand", &x, vx, "base after Exp")
		x.Exp(&x, &eu)
		t.feEq("Exp:alias", &x, want, "aliasing Exp")
		t.Check(beq(eu.ToBigInt(), e), "Exp:operand", "exponent was modified")
	})
	c.Need("sqrt/square", 500)
	c.Need("sqrt/nonsquare", 500)
	c.Need("exp/0^0", 1)
	internalRoots(c)
}

// stuckSource gives zeros first.
type stuckSource struct {
	zeros int
	rest  rand.Source64
}

func (s *stuckSource) Seed(int64) {}
func (s *stuckSource) Uint64() uint64 {
	if s.zeros > 0 {
		s.zeros--
		return 0
	}
	return s.rest.Uint64()
}
func (s *stuckSource) Int63() int64 { return int64(s.Uint64() >> 1) }
