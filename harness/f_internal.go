package main

import (
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"sort"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
)

// Routines of package fieldElements that no exported function needs (alternative
// reductions, multiplications, exponentiations, the big.Int implementation of field
// elements), reached through the in-package bridge as far as it fits the tree.

// internalModular: alternative modular routines (F07).
func internalModular(c *Ctx, chk func(t *T, name string, z U256, want *big.Int, limit *big.Int, limitName string)) {
	if n := len(fe.VerifReductions); n > 0 {
		c.Run("alternative reductions", 200000, func(t *T) {
			o := fe.VerifReductions[t.Index%n]
			lim := bR
			if o.Below > 0 {
				lim = bmul(bP, bi(int64(o.Below)))
			}
			bx := genBelow(t.R, lim)
			x := U256(toWords(bx))
			t.Note("%s x=%s", o.Name, hex(bx))
			t.EvalH(hashStr(o.Name), hb(bx))
			t.Class(o.Name)
			o.Do(&x)
			chk(t, o.Name, x, bmod(bx, bP), bP, "f")
		})
		for _, o := range fe.VerifReductions {
			c.Need("alternative reductions/"+o.Name, 1000)
		}
	}
	if n := len(fe.VerifMonts); n > 0 {
		c.Run("alternative Montgomery multiplications", 200000, func(t *T) {
			r := t.R
			o := fe.VerifMonts[t.Index%n]
			bx, by := genBelow(r, bC), genBelow(r, bC)
			switch r.Intn(4) {
			case 0:
				by = genRelated(r, bx, bC)
			case 1: // product lands near a border
				if bmod(bx, bP).Sign() != 0 {
					by = mulP(mulP(genBelow(r, bP), bR), invP(bmod(bx, bP)))
					if r.Intn(2) == 0 && badd(by, bP).Cmp(bC) < 0 {
						by = badd(by, bP)
					}
				}
			case 2: // zero words
				w := toWords(by)
				for i := range w {
					if r.Intn(2) == 0 {
						w[i] = 0
					}
				}
				by = fromWords(w)
			}
			x, y := U256(toWords(bx)), U256(toWords(by))
			xi, yi := x, y
			t.Note("%s x=%s y=%s", o.Name, hex(bx), hex(by))
			t.EvalH(hashStr(o.Name), hb(bx), hb(by))
			t.Class(o.Name)
			want := mulP(mulP(bx, by), bRinv)
			z := rnd4(r)
			o.Do(&z, &x, &y)
			chk(t, o.Name, z, want, bC, "c")
			t.Check(x == xi && y == yi, o.Name+":operand", "%s changed an operand", o.Name)
			switch r.Intn(3) {
			case 0:
				o.Do(&x, &x, &y)
				chk(t, o.Name, x, want, bC, "c")
			case 1:
				o.Do(&y, &x, &y)
				chk(t, o.Name, y, want, bC, "c")
			default:
				o.Do(&x, &x, &x)
				chk(t, o.Name, x, mulP(mulP(bx, bx), bRinv), bC, "c")
			}
		})
		for _, o := range fe.VerifMonts {
			c.Need("alternative Montgomery multiplications/"+o.Name, 1000)
		}
	}
	if n := len(fe.VerifExpos); n > 0 {
		c.Run("alternative exponentiations", 12000, func(t *T) {
			r := t.R
			o := fe.VerifExpos[t.Index%n]
			bx, be := gen256(r), gen256(r)
			switch r.Intn(6) {
			case 0:
				be = bi(int64(r.Intn(130)))
			case 1:
				bx = bmul(bP, bi(int64(r.Intn(3))))
			case 2:
				be = bi(0)
				for i := 0; i <= r.Intn(6); i++ {
					be = new(big.Int).SetBit(be, r.Intn(256), 1)
				}
			case 3, 4: // all lengths: the window depends on it
				l := uint(1 + r.Intn(256))
				be = badd(bmod(be, new(big.Int).Lsh(bOne, l-1)), new(big.Int).Lsh(bOne, l-1))
			}
			x, e := U256(toWords(bx)), U256(toWords(be))
			xi, ei := x, e
			t.Note("%s x=%s e=%s", o.Name, hex(bx), hex(be))
			t.EvalH(hashStr(o.Name), hb(bx), hb(be))
			t.Class(o.Name)
			want := mulP(new(big.Int).Exp(mulP(bx, bRinv), be, bP), bR)
			z := rnd4(r)
			o.Do(&z, &x, &e)
			chk(t, o.Name, z, want, bP, "f")
			t.Check(x == xi && e == ei, o.Name+":operand", "%s changed an operand", o.Name)
			if r.Intn(2) == 0 {
				o.Do(&x, &x, &e)
				chk(t, o.Name, x, want, bP, "f")
				t.Check(e == ei, o.Name+":operand", "%s changed an operand", o.Name)
			} else {
				o.Do(&e, &x, &e)
				chk(t, o.Name, e, want, bP, "f")
				t.Check(x == xi, o.Name+":operand", "%s changed an operand", o.Name)
			}
		})
	}
	if fe.VerifModulus != nil {
		c.Run("reciprocals of moduli", 120000, func(t *T) {
			r := t.R
			bm := gen256(r)
			switch r.Intn(8) {
			case 0:
				bm = new(big.Int).Lsh(bOne, uint(192+r.Intn(64)))
			case 1:
				bm = badd(new(big.Int).Lsh(bOne, uint(192+r.Intn(64))), bi(int64(r.Intn(5))-2))
			case 2:
				bm = bsub(bR, bu(genWord(r)|1))
			case 3: // leading ones or leading 1 followed by zeros in the topmost words
				bm = badd(new(big.Int).Lsh(bu(uint64(1)<<63|uint64(r.Intn(3))), 192), bmod(gen256(r), new(big.Int).Lsh(bOne, uint(r.Intn(192)))))
				bm = bm.Rsh(bm, uint(r.Intn(64)))
			case 4: // a power of 2 and little more or less in a few places
				bm = new(big.Int).Lsh(bOne, uint(192+r.Intn(64)))
				for j := r.Intn(4); j >= 0; j-- {
					d := new(big.Int).Lsh(bi(int64(r.Intn(131072)-65536)), uint(r.Intn(200)))
					if d = badd(bm, d); d.Sign() > 0 && d.BitLen() <= 256 {
						bm = d
					}
				}
				if r.Intn(50) == 0 {
					bm = bP
				}
			case 5, 6:
				bm = new(big.Int).Rsh(bm, uint(r.Intn(64)))
			}
			m := U256(toWords(bm))
			t.Note("m=%s", hex(bm))
			t.EvalH(hb(bm))
			var back U256
			var re [5]uint64
			var mmu0, mmu1 [4]uint64
			v, p := PanicVal(func() { back, re, mmu0, mmu1 = fe.VerifModulus(m) })
			if m[3] == 0 {
				t.Class("below 2^192")
				t.Check(p, "modulus:small", "FromUint256 accepted a modulus below 2^192")
				return
			}
			if p {
				t.Failf("modulus:panic", "FromUint256(%s) panicked: %v", hex(bm), v)
				return
			}
			t.Check(back == m, "modulus:value", "ToUint256 gives %x, want %x", back, m)
			bre := badd(fromWords([4]uint64{re[0], re[1], re[2], re[3]}), new(big.Int).Lsh(bu(re[4]), 256))
			prod := bmul(bre, bm)
			pow2 := m[0]|m[1]|m[2]|(m[3]&(m[3]-1)) == 0
			if pow2 {
				t.Class("power of 2")
			}
			cmp := badd(prod, bm).Cmp(bR512)
			t.Check(prod.Cmp(bR512) < 0 && cmp >= 0 && (cmp == 0) == pow2, "modulus:reciprocal", "the reciprocal of %s is %s", hex(bm), hex(bre))
			q := new(big.Int).Div(bsub(bR, bOne), bm)
			w0 := bmul(q, bm)
			w1 := bmod(badd(w0, bm), bR)
			t.Check(beq(fromWords(mmu0), w0), "modulus:mmu0", "mmu0 of %s is %s, want %s", hex(bm), hex(fromWords(mmu0)), hex(w0))
			t.Check(beq(fromWords(mmu1), w1), "modulus:mmu1", "mmu1 of %s is %s, want %s", hex(bm), hex(fromWords(mmu1)), hex(w1))
		})
		c.Need("reciprocals of moduli/power of 2", 100)
		c.Need("reciprocals of moduli/below 2^192", 1)
	}
}

var bneg64 = new(big.Int).Neg(new(big.Int).Lsh(bOne, 64))

// internalWords: helpers on words (F06).
func internalWords(c *Ctx) {
	if fe.VerifMulWord == nil {
		return
	}
	c.Run("word helpers", 200000, func(t *T) {
		r := t.R
		bx, bt, w := gen256(r), gen256(r), genWord(r)
		x, tg := U256(toWords(bx)), U256(toWords(bt))
		xi := x
		t.Note("x=%s t=%s w=%x", hex(bx), hex(bt), w)
		t.EvalH(hb(bx), hb(bt), w)
		low, high := fe.VerifMulWord(&x, w)
		want := bmul(bx, bu(w))
		t.Check(beq(badd(new(big.Int).Lsh(fromWords(high), 64), bu(low)), want), "mul_four_one_64", "x*w = %s + 2^64*%x", hex(bu(low)), high)
		low = fe.VerifMulShift(&tg, &x, w)
		want = badd(bt, want)
		t.Check(beq(badd(new(big.Int).Lsh(fromWords(tg), 64), bu(low)), want), "add_mul_shift_64", "t+x*w = %s + 2^64*%x", hex(bu(low)), tg)
		tg = toWords(bt)
		q := genWord(r)
		fe.VerifMontStep(&tg, q)
		want = badd(badd(bt, new(big.Int).Rsh(bmul(bu(q), bP), 64)), bOne)
		if want.Cmp(bR) < 0 { // the caller guarantees this
			t.Class("step without overflow")
			t.Check(beq(fromWords(tg), want), "montgomery_step_64", "t + q*p/2^64 + 1 with q=%x is %s, want %s", q, hex(fromWords(tg)), hex(want))
		}
		// iteration: x c-reduced, and t within the bound that an iteration itself keeps
		bound := badd(badd(new(big.Int).Lsh(bC, 64), bP), bneg64)
		bx, bt = genBelow(r, bC), genBelow(r, bC)
		full := badd(new(big.Int).Lsh(bt, 64), bu(genWord(r)))
		switch r.Intn(6) {
		case 0:
			full = new(big.Int).Lsh(bt, 64)
		case 1, 2:
			full = bsub(bound, bmod(gen256(r), new(big.Int).Lsh(bOne, uint(1+r.Intn(200)))))
		}
		tw := toWords8(full)
		t5 := [5]uint64{tw[0], tw[1], tw[2], tw[3], tw[4]}
		x = toWords(bx)
		xi = x
		fe.VerifMontIter(&t5, &x, w)
		inv64 := invP(bmod(new(big.Int).Lsh(bOne, 64), bP))
		want = addP(mulP(full, inv64), mulP(bx, bu(w)))
		got := badd(new(big.Int).Lsh(fromWords([4]uint64{t5[1], t5[2], t5[3], t5[4]}), 64), bu(t5[0]))
		t.Check(beq(bmod(got, bP), want) && got.Cmp(bound) <= 0, "montgomery_iteration", "iteration of %s with x=%s w=%x gives %x", hex(full), hex(bx), w, t5)
		t.Check(x == xi, "montgomery_iteration:operand", "operand changed")
		if fe.VerifShiftLeft != nil {
			s := uint(r.Intn(64))
			z := fe.VerifShiftLeft(toWords(bt), s)
			t.Check(beq(fromWords(z), bmod(new(big.Int).Lsh(bt, s), bR)), "shiftleft256", "%s << %d = %x", hex(bt), s, z)
		}
	})
	c.Need("word helpers/step without overflow", 1000)
}

// internalRoots: the parts of the square root algorithm (F05).
func internalRoots(c *Ctx) {
	if fe.VerifSqrtOrder == nil {
		return
	}
	odd := new(big.Int).Rsh(bP, 32)
	half := new(big.Int).Rsh(odd, 1)
	var g *big.Int // of order 2^32
	for k := int64(2); ; k++ {
		if jacobiRef(bi(k)) == -1 {
			g = new(big.Int).Exp(bi(k), odd, bP)
			break
		}
	}
	c.Run("dyadic roots of unity", 20000, func(t *T) {
		r := t.R
		e := r.Uint64() & (1<<32 - 1)
		switch r.Intn(5) {
		case 0:
			e = uint64(1) << uint(r.Intn(32))
		case 1:
			e = (e << uint(r.Intn(32))) & (1<<32 - 1)
		case 2:
			e = uint64(r.Intn(512)) << uint(8*r.Intn(4)) & (1<<32 - 1)
		}
		v := new(big.Int).Exp(g, bu(e), bP)
		t.Note("g^%d", e)
		t.EvalH(e)
		order := 32
		for order > 0 && e&(1<<uint(32-order)) == 0 {
			order--
		}
		if e == 0 {
			order = 0
		}
		t.Classf("order 2^%d", order)
		for _, x := range feReps(v) {
			x := x
			keep := feVal(&x)
			got := fe.VerifSqrtOrder(&x)
			t.Check(got == order, "order", "the order of a primitive 2^%d'th root of unity is said to be 2^%d", order, got)
			t.Check(beq(feVal(&x), keep), "order:operand", "operand changed")
			ok := fe.VerifSqrtInv(&x)
			t.Check(ok == (order < 32), "invsqrt", "invSqrtEqDyadic(g^%d) = %v", e, ok)
			if ok {
				w := feVal(&x)
				t.Check(beq(mulP(mulP(w, w), v), bOne), "invsqrt:value", "invSqrtEqDyadic(g^%d) gives no inverse square root", e)
			} else {
				t.Check(beq(feVal(&x), v), "invsqrt:changed", "invSqrtEqDyadic changed an element without a root")
			}
		}
	})
	c.Run("powers for square roots", 8000, func(t *T) {
		x, v := genFE(t.R)
		t.Note("x=%s", hex(v))
		t.EvalH(hb(v))
		keep := feRawBytes(&x)
		z, _ := genFE(t.R)
		fe.VerifSqrtExpOdd(&z, &x)
		wo := new(big.Int).Exp(v, odd, bP)
		t.feEq("ExpOddOrder", &z, wo, "sqrtAlg_ExpOddOrder")
		a, _ := genFE(t.R)
		b, _ := genFE(t.R)
		fe.VerifSqrtPowers(&x, &a, &b)
		t.feEq("powers", &a, new(big.Int).Exp(v, badd(half, bOne), bP), "candidate of sqrtAlg_ComputeRelevantPowers")
		t.feEq("powers", &b, wo, "root of unity of sqrtAlg_ComputeRelevantPowers")
		t.Check(feRawBytes(&x) == keep, "powers:operand", "operand changed")
		y := feFrom(t.R, bi(0))
		_, p := PanicVal(func() { fe.VerifSqrtOrder(&y) })
		t.Check(p, "order:zero", "the order of 0 was computed")
	})
}

// refFields builds one group per further implementation of FieldElementInterface: every
// method it has is driven through reflection.
type refElem struct {
	p  reflect.Value
	re fe.FieldElementInterface_common
}

func newRef(mk func() interface{}) (refElem, bool) {
	x := mk()
	re, ok := x.(fe.FieldElementInterface_common)
	return refElem{reflect.ValueOf(x), re}, ok
}
func (e refElem) val() *big.Int { return e.re.ToBigInt() }
func (e refElem) call(name string, args ...interface{}) []reflect.Value {
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if q, ok := a.(refElem); ok {
			in[i] = q.p
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	return e.p.MethodByName(name).Call(in)
}

type refOp struct {
	name string
	kind string // zxy, zx, z, zy, zxI, zxU, zxE
	ref  func(x, y *big.Int) *big.Int
}

var refOps = []refOp{
	{"Add", "zxy", addP}, {"Sub", "zxy", subP}, {"Mul", "zxy", mulP}, {"Divide", "zxy", divRef},
	{"AddEq", "zy", addP}, {"SubEq", "zy", subP}, {"MulEq", "zy", mulP}, {"DivideEq", "zy", divRef},
	{"Double", "zx", func(x, _ *big.Int) *big.Int { return addP(x, x) }},
	{"Square", "zx", func(x, _ *big.Int) *big.Int { return mulP(x, x) }},
	{"MulFive", "zx", func(x, _ *big.Int) *big.Int { return mulP(x, bi(5)) }},
	{"Neg", "zx", func(x, _ *big.Int) *big.Int { return negP(x) }},
	{"Inv", "zx", func(x, _ *big.Int) *big.Int { return divRef(bOne, x) }},
	{"DoubleEq", "z", func(x, _ *big.Int) *big.Int { return addP(x, x) }},
	{"SquareEq", "z", func(x, _ *big.Int) *big.Int { return mulP(x, x) }},
	{"MulEqFive", "z", func(x, _ *big.Int) *big.Int { return mulP(x, bi(5)) }},
	{"NegEq", "z", func(x, _ *big.Int) *big.Int { return negP(x) }},
	{"InvEq", "z", func(x, _ *big.Int) *big.Int { return divRef(bOne, x) }},
	{"AddInt64", "zxI", addP}, {"SubInt64", "zxI", subP}, {"MulInt64", "zxI", mulP}, {"DivideInt64", "zxI", divRef},
	{"AddUint64", "zxU", addP}, {"SubUint64", "zxU", subP}, {"MulUint64", "zxU", mulP}, {"DivideUint64", "zxU", divRef},
	{"Exp", "zxE", func(x, y *big.Int) *big.Int { return new(big.Int).Exp(x, y, bP) }},
}

func divRef(x, y *big.Int) *big.Int {
	if bmod(y, bP).Sign() == 0 {
		return nil
	}
	return mulP(x, invP(bmod(y, bP)))
}

func refNames() (names []string) {
	for n := range fe.VerifFieldTypes {
		names = append(names, n)
	}
	sort.Strings(names)
	return
}

// internalArith (F01): arithmetic of the other implementations of field elements.
func internalArith(c *Ctx) {
	for _, name := range refNames() {
		mk := fe.VerifFieldTypes[name]
		if _, ok := newRef(mk); !ok {
			continue
		}
		c.Run("arithmetic of the "+name, 60000, func(t *T) {
			r := t.R
			op := refOps[t.Index%len(refOps)]
			vx, vy := genResidue(r), genResidue(r)
			if r.Intn(4) == 0 {
				vy = genRelated(r, vx, bP)
			}
			x, _ := newRef(mk)
			y, _ := newRef(mk)
			z, _ := newRef(mk)
			x.re.SetBigInt(vx)
			y.re.SetBigInt(vy)
			z.re.SetBigInt(genResidue(r))
			t.Note("%s x=%s y=%s", op.name, hex(vx), hex(vy))
			t.EvalH(hashStr(op.name), hb(vx), hb(vy))
			t.Class(op.name)
			res, second := z, vy
			var f func()
			keepX := true
			switch op.kind {
			case "zxy":
				switch r.Intn(4) {
				case 0:
					res, keepX = x, false
				case 1:
					res = y
				case 2:
					y, second = x, vx
				}
				f = func() { res.call(op.name, x, y) }
			case "zy":
				res, keepX = x, false
				if r.Intn(4) == 0 {
					y, second = x, vx
				}
				f = func() { res.call(op.name, y) }
			case "zx":
				second = vx
				if r.Intn(2) == 0 {
					res, keepX = x, false
				}
				f = func() { res.call(op.name, x) }
			case "z":
				res, second, keepX = x, vx, false
				f = func() { res.call(op.name) }
			case "zxI", "zxU":
				w := genWord(r)
				if op.kind == "zxI" {
					second = bmod(bi(int64(w)), bP)
				} else {
					second = bu(w)
				}
				if r.Intn(2) == 0 {
					res, keepX = x, false
				}
				f = func() {
					if op.kind == "zxI" {
						res.call(op.name, x, int64(w))
					} else {
						res.call(op.name, x, w)
					}
				}
			case "zxE":
				second = gen256(r)
				if r.Intn(3) == 0 {
					second = bi(int64(r.Intn(5)))
				}
				e := U256(toWords(second))
				if r.Intn(2) == 0 {
					res, keepX = x, false
				}
				f = func() { res.call(op.name, x, &e) }
			}
			want := op.ref(vx, second)
			if want == nil {
				t.Class("division by zero")
				divByZero(t, name+"."+op.name, f)
				return
			}
			f()
			g := res.val()
			t.Check(beq(g, want), op.name, "%s of the %s gives %s, want %s", op.name, name, hex(g), hex(want))
			if keepX {
				t.Check(beq(x.val(), vx), op.name+":operand", "%s of the %s changed its operand", op.name, name)
			}
			t.Check(beq(x.val(), vx) || res == x, op.name+":operand", "%s changed its operand", op.name)
		})
		c.Need("arithmetic of the "+name+"/division by zero", 100)
	}
}

// internalObservers (F02).
func internalObservers(c *Ctx) {
	for _, name := range refNames() {
		mk := fe.VerifFieldTypes[name]
		if _, ok := newRef(mk); !ok {
			continue
		}
		c.Run("observers of the "+name, 30000, func(t *T) {
			r := t.R
			va := genResidue(r)
			vb := genRelated(r, va, bP)
			switch r.Intn(5) {
			case 0:
				vb = negP(va)
			case 1:
				vb = bcopy(va)
			}
			a, _ := newRef(mk)
			b, _ := newRef(mk)
			a.re.SetBigInt(va)
			b.re.SetBigInt(vb)
			t.Note("a=%s b=%s", hex(va), hex(vb))
			t.EvalH(hb(va), hb(vb))
			t.Check(a.re.IsZero() == (va.Sign() == 0) && a.re.IsOne() == beq(va, bOne), "IsZero", "IsZero or IsOne of %s", hex(va))
			t.Check(a.re.Sign() == signP(va), "Sign", "Sign(%s)=%d", hex(va), a.re.Sign())
			t.Check(a.re.Jacobi() == jacobiRef(va), "Jacobi", "Jacobi(%s)=%d", hex(va), a.re.Jacobi())
			eq := a.call("IsEqual", b)[0].Bool()
			t.Check(eq == beq(va, vb), "IsEqual", "IsEqual(%s,%s)=%v", hex(va), hex(vb), eq)
			o := a.call("CmpAbs", b)
			t.Check(o[1].Bool() == beq(va, vb) && o[0].Bool() == (beq(va, vb) || beq(va, negP(vb))), "CmpAbs", "CmpAbs(%s,%s)=%v,%v", hex(va), hex(vb), o[0], o[1])
			b.re.Normalize()
			b.re.RerandomizeRepresentation(r.Uint64())
			t.Check(beq(b.val(), vb), "Normalize", "Normalize or RerandomizeRepresentation changed the value")
			n := a.re.BytesLength()
			buf := make([]byte, n)
			a.re.ToBytes(buf)
			z, _ := newRef(mk)
			z.re.SetBytes(buf)
			t.Check(beq(z.val(), va), "SetBytes", "ToBytes and SetBytes make %s of %s", hex(z.val()), hex(va))
			t.Check(beq(a.val(), va), "operand", "an observer changed its receiver")
			// square roots leave their receiver alone if there is none
			vz := genResidue(r)
			z.re.SetBigInt(vz)
			sq := z.call("SquareRoot", a)[0].Bool()
			t.Check(sq == (jacobiRef(va) >= 0), "SquareRoot", "SquareRoot(%s)=%v", hex(va), sq)
			if sq {
				t.Class("square")
				w := z.val()
				t.Check(beq(mulP(w, w), va), "SquareRoot:value", "SquareRoot(%s) is %s", hex(va), hex(w))
			} else {
				t.Check(beq(z.val(), vz), "SquareRoot:changed", "SquareRoot without a root changed its receiver")
			}
			z.re.SetRandomUnsafe(r)
			t.Check(z.val().Sign() >= 0 && z.val().Cmp(bP) < 0, "random", "SetRandomUnsafe gives %s", hex(z.val()))
			z.re.SetOne()
			t.Check(beq(z.val(), bOne), "SetOne", "SetOne gives %s", hex(z.val()))
			z.re.SetZero()
			t.Check(z.val().Sign() == 0, "SetZero", "SetZero gives %s", hex(z.val()))
		})
	}
}

// internalConversions (F03).
func internalConversions(c *Ctx) {
	for _, name := range refNames() {
		mk := fe.VerifFieldTypes[name]
		if _, ok := newRef(mk); !ok {
			continue
		}
		verbs := []string{"%v", "%d", "%x", "%X", "%#x", "%o", "%b", "%s", "%+d", "%080d", "% d"}
		c.Run("conversions of the "+name, 60000, func(t *T) {
			r := t.R
			x := genInt(r)
			t.Note("x=%s", x)
			t.EvalH(hb(x))
			keep := bcopy(x)
			v := bmod(x, bP)
			z, _ := newRef(mk)
			z.re.SetBigInt(genResidue(r))
			z.re.SetBigInt(x)
			t.Check(beq(x, keep), "SetBigInt:arg", "SetBigInt changed its argument")
			x.SetInt64(3)
			t.Check(beq(z.val(), v), "SetBigInt", "SetBigInt(%s) gives %s", keep, hex(z.val()))
			z.val().SetInt64(5)
			t.Check(beq(z.val(), v), "ToBigInt:alias", "mutating the result of ToBigInt changed the element")
			var u U256
			z.re.ToUint256(&u)
			t.Check(beq(fromWords(u), v), "ToUint256", "ToUint256 of %s gives %x", hex(v), u)
			verb := verbs[r.Intn(len(verbs))]
			got, want := fmt.Sprintf(verb, z.p.Elem().Interface()), fmt.Sprintf(verb, v)
			t.Check(got == want, "Format", "%s of %s is %q, want %q", verb, hex(v), got, want)
			t.Check(z.re.String() == v.String(), "String", "String of %s is %q", hex(v), z.re.String())
			if keep.Sign() >= 0 && keep.BitLen() <= 256 {
				u = toWords(keep)
				u2 := u
				z.re.SetUint256(&u)
				t.Check(beq(z.val(), v) && u == u2, "SetUint256", "SetUint256(%s) gives %s", hex(keep), hex(z.val()))
			}
			refTo64(t, z, v)
			w := genWord(r)
			z.re.SetUint64(w)
			t.Check(beq(z.val(), bu(w)), "SetUint64", "SetUint64(%d) gives %s", w, hex(z.val()))
			refTo64(t, z, bu(w))
			z.re.SetInt64(int64(w))
			t.Check(beq(z.val(), bmod(bi(int64(w)), bP)), "SetInt64", "SetInt64(%d) gives %s", int64(w), hex(z.val()))
			refTo64(t, z, bmod(bi(int64(w)), bP))
		})
	}
	if fe.VerifFromBigInt != nil {
		c.Run("further conversion from big.Int", 60000, func(t *T) {
			x := genInt(t.R)
			if t.R.Intn(8) == 0 {
				x = bmul(bP, bi(int64(t.R.Intn(7))-3))
			}
			t.Note("x=%s", x)
			t.EvalH(hb(x))
			keep := bcopy(x)
			z, _ := genFE(t.R)
			fe.VerifFromBigInt(&z, x)
			t.Check(beq(x, keep), "_fromBigInt:arg", "_fromBigInt changed its argument")
			x.SetInt64(9)
			t.feEq("_fromBigInt", &z, bmod(keep, bP), "_fromBigInt(%s)", keep)
			y := z
			y.Normalize()
			t.Check(feRawBytes(&y) == feRawBytes(&z), "_fromBigInt:normal", "_fromBigInt(%s) is not normalized", keep)
		})
	}
}

func refTo64(t *T, z refElem, v *big.Int) {
	g, err := z.re.ToUint64()
	t.Check((err == nil) == v.IsUint64() && (err != nil || g == v.Uint64()), "ToUint64", "ToUint64 of %s: %d, %v", hex(v), g, err)
	refReprErr(t, z, "ToUint64", err)
	s := v
	if signP(v) < 0 {
		s = bsub(v, bP)
	}
	gi, err := z.re.ToInt64()
	t.Check((err == nil) == s.IsInt64() && (err != nil || gi == s.Int64()), "ToInt64", "ToInt64 of %s: %d, %v", s, gi, err)
	refReprErr(t, z, "ToInt64", err)
}

func refReprErr(t *T, z refElem, name string, err error) {
	if err == nil {
		return
	}
	t.Class("not representable")
	if !errors.Is(err, fe.ErrCannotRepresentFieldElement) {
		t.Failf(name+":err", "the error of %s does not wrap ErrCannotRepresentFieldElement: %v", name, err)
	}
	x, ok := errorsWithData.GetParameter(err, "FieldElement")
	if !ok || reflect.TypeOf(x) != z.p.Type().Elem() || !reflect.DeepEqual(x, z.p.Elem().Interface()) {
		t.Failf(name+":data", "the error of %s carries %v, not the element", name, x)
	}
}
