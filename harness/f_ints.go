package main

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
)

func init() {
	register("F03", 20, checkF03)
	register("F06", 20, checkF06)
	register("F07", 20, checkF07)
}

var fmtVerbs = []string{"%v", "%d", "%x", "%X", "%b", "%o", "%s", "%+d", "%#x", "%40d", "%-80d|", "%090d", "%O", "%.70d", "% d"}

func genInt(r *rand.Rand) *big.Int {
	var x *big.Int
	switch r.Intn(9) {
	case 0:
		x = bu(genWord(r))
	case 1: // multiples of p
		x = badd(bmul(bP, bi(int64(r.Intn(7)))), bi(int64(r.Intn(7))-3))
	case 2:
		x = badd(bmul(bP, gen256(r)), bi(int64(r.Intn(7))-3))
	case 3:
		x = badd(new(big.Int).Lsh(bOne, uint(r.Intn(600))), bi(int64(r.Intn(5))-2))
	case 4: // p - small power
		x = badd(bsub(bP, new(big.Int).Lsh(bOne, uint(62+r.Intn(4)))), bi(int64(r.Intn(5))-2))
	case 5:
		x = bmul(gen256(r), gen256(r))
	default:
		x = gen256(r)
	}
	if r.Intn(3) == 0 {
		x = new(big.Int).Neg(x)
	}
	return x
}

func checkF03(c *Ctx) {
	c.Rule("Integers around 0, 2^63, 2^64, p-2^63, multiples of p, powers of two, of both signs and up to 1000 bits, and residues in every representation are pushed through every conversion and compared with math/big; arguments are compared with copies, results are mutated and the source re-read. Distinct by conversion and value.")
	c.Assume("fmt and math/big format integers correctly")
	c.Run("from big.Int", 400000, func(t *T) {
		r := t.R
		x := genInt(r)
		t.Note("x=%s", x)
		t.Sample("x=%s", x)
		t.EvalH(hb(x))
		if x.Sign() < 0 {
			t.Class("negative")
		}
		if x.BitLen() > 256 {
			t.Class("more than 256 bits")
		}
		keep := bcopy(x)
		z, _ := genFE(r)
		z.SetBigInt(x)
		t.Check(beq(x, keep), "SetBigInt:arg", "SetBigInt changed its argument")
		x.SetInt64(12345) // must not be shared
		t.feEq("SetBigInt", &z, bmod(keep, bP), "SetBigInt")
		y := z.ToBigInt()
		y.SetInt64(-7)
		y = z.ToBigInt()
		t.Check(beq(y, bmod(keep, bP)), "ToBigInt:alias", "mutating a ToBigInt result changed the element")
		t.Keep("big integer", y.String)
		if keep.Sign() >= 0 && keep.BitLen() <= 256 {
			var u, u2 U256
			u = toWords(keep)
			u2 = u
			z, _ = genFE(r)
			z.SetUint256(&u)
			t.feEq("SetUint256", &z, bmod(keep, bP), "SetUint256")
			t.Check(u == u2, "SetUint256:arg", "SetUint256 changed its argument")
			t.Class("256 bit")
		}
	})
	c.Run("64 bit", 400000, func(t *T) {
		r := t.R
		w := genWord(r)
		t.EvalH(w)
		t.Note("w=%d", w)
		z, _ := genFE(r)
		z.SetUint64(w)
		t.feEq("SetUint64", &z, bu(w), "SetUint64(%d)", w)
		g, err := z.ToUint64()
		t.Check(err == nil && g == w, "ToUint64", "ToUint64 after SetUint64(%d): %d, %v", w, g, err)
		z, _ = genFE(r)
		z.SetInt64(int64(w))
		t.feEq("SetInt64", &z, bmod(bi(int64(w)), bP), "SetInt64(%d)", int64(w))
		gi, err := z.ToInt64()
		t.Check(err == nil && gi == int64(w), "ToInt64", "ToInt64 after SetInt64(%d): %d, %v", int64(w), gi, err)
	})
	c.Run("to 64 bit", 300000, func(t *T) {
		r := t.R
		v := genResidue(r)
		switch r.Intn(3) {
		case 0:
			v = bmod(bi(int64(genWord(r))), bP)
		case 1:
			v = bmod(badd(new(big.Int).Lsh(bi([]int64{1, -1}[r.Intn(2)]), uint(62+r.Intn(4))), bi(int64(r.Intn(9))-4)), bP)
		}
		for i, x := range feReps(v) {
			t.Note("v=%s rep %d", hex(v), i)
			t.EvalH(hb(v), uint64(i))
			g, err := x.ToUint64()
			if v.IsUint64() {
				t.Class("uint64 ok")
				t.Check(err == nil && g == v.Uint64(), "ToUint64", "ToUint64(%s)=%d,%v", hex(v), g, err)
			} else {
				t.Class("uint64 error")
				checkReprErr(t, "ToUint64", err, v)
			}
			s := v
			if bsub(v, bP).IsInt64() {
				s = bsub(v, bP)
			}
			gi, err := x.ToInt64()
			if s.IsInt64() {
				t.Classf("int64 ok sign %d", s.Sign())
				t.Check(err == nil && gi == s.Int64(), "ToInt64", "ToInt64(%s)=%d,%v want %s", hex(v), gi, err, s)
			} else {
				t.Class("int64 error")
				checkReprErr(t, "ToInt64", err, v)
			}
			var u U256
			u = toWords(gen256(r))
			x.ToUint256(&u)
			t.Check(beq(fromWords(u), v), "ToUint256", "ToUint256(%s)=%s", hex(v), hex(fromWords(u)))
			t.feEq("to:operand", &x, v, "after conversions")
			var u2 U256
			u2 = toWords(v)
			if !fe.IsEqualAsUint256(&x, &u2) {
				t.Failf("IsEqualAsUint256", "IsEqualAsUint256 says %s differs from itself", hex(v))
			}
			w := genResidue(r)
			u2 = toWords(w)
			if fe.IsEqualAsUint256(&x, &u2) != beq(v, w) {
				t.Failf("IsEqualAsUint256", "IsEqualAsUint256(%s,%s) wrong", hex(v), hex(w))
			}
		}
	})
	c.Run("text", 60000, func(t *T) {
		r := t.R
		x, v := genFE(r)
		f := fmtVerbs[r.Intn(len(fmtVerbs))]
		t.EvalH(hashStr(f), hb(v))
		t.Note("v=%s format %s", hex(v), f)
		if got, want := fmt.Sprintf(f, x), fmt.Sprintf(f, v); got != want {
			t.Failf("Format", "Sprintf(%q) = %q, want %q", f, got, want)
		}
		if got := fmt.Sprintf(f, &x); got != fmt.Sprintf(f, v) {
			t.Failf("Format", "Sprintf(%q) on pointer = %q", f, got)
		}
		t.Check(x.String() == v.String(), "String", "String()=%s want %s", x.String(), v)
		t.feEq("Format:operand", &x, v, "after formatting")
		n := genInt(r)
		s := ""
		switch r.Intn(4) {
		case 0:
			s = n.String()
		case 1:
			s = fmt.Sprintf("%#x", n)
		case 2:
			s = fmt.Sprintf("%#b", n)
		case 3:
			s = fmt.Sprintf("%O", n)
		}
		z := fe.InitFieldElementFromString[FE](s)
		t.feEq("InitFieldElementFromString", &z, bmod(n, bP), "InitFieldElementFromString(%s)", s)
		y := z
		y.Normalize()
		t.Check(feRawBytes(&y) == feRawBytes(&z), "InitFieldElementFromString:normalized", "result for %s is not normalized", s)
		t.Class("parsed")
		if r.Intn(20) == 0 {
			bad := []string{"", "abc", "0xg", "12 ", " 12", "1.5", "--1", "0x", "1e5", "0b2", "٣"}[r.Intn(11)]
			t.Class("rejected")
			t.MustPanic("InitFieldElementFromString:bad", func() { fe.InitFieldElementFromString[FE](bad) }, "InitFieldElementFromString(%q)", bad)
		}
	})
	c.Need("to 64 bit/int64 error", 1000)
	c.Need("to 64 bit/int64 ok sign -1", 1000)
	c.Need("text/rejected", 50)
	internalConversions(c)
}

func checkReprErr(t *T, name string, err error, v *big.Int) {
	if err == nil {
		t.Failf(name+":noerror", "%s(%s): no error", name, hex(v))
		return
	}
	t.Check(errors.Is(err, fe.ErrCannotRepresentFieldElement), name+":error", "%s(%s): error %v does not wrap ErrCannotRepresentFieldElement", name, hex(v), err)
	d, ok := errorsWithData.GetParameter(err, "FieldElement")
	if !ok {
		t.Failf(name+":error", "%s(%s): error lacks FieldElement", name, hex(v))
		return
	}
	switch x := d.(type) {
	case FE:
		t.feEq(name+":error", &x, v, "FieldElement in error")
	case *FE:
		t.feEq(name+":error", x, v, "FieldElement in error")
	default:
		t.Failf(name+":error", "FieldElement in error has type %T", d)
	}
}

func rnd4(r *rand.Rand) U256 { return U256(toWords(gen256(r))) }

func checkF06(c *Ctx) {
	c.Rule("Operands are 256-bit numbers with edge words (all ones, zero, single bits, modulus words) and pairs related so that sums and differences carry through all words; every operation runs in every alias pattern and is compared with math/big. Distinct by operation and operands.")
	m256 := func(x *big.Int) *big.Int { return bmod(x, bR) }
	c.Run("add sub mul", 700000, func(t *T) {
		r := t.R
		bx := gen256(r)
		by := gen256(r)
		if r.Intn(3) == 0 {
			by = genRelated(r, bx, bR)
		}
		if r.Intn(8) == 0 { // complement: x+y = 2^256-1 (+-1)
			by = m256(badd(bsub(bsub(bR, bOne), bx), bi(int64(r.Intn(3))-1)))
			t.Class("complement")
		}
		x, y := U256(toWords(bx)), U256(toWords(by))
		xi, yi := x, y
		t.Note("x=%s y=%s", hex(bx), hex(by))
		t.Sample("x=%s y=%s", hex(bx), hex(by))
		t.EvalH(hb(bx), hb(by))
		sum, dif, prod := badd(bx, by), bsub(bx, by), bmul(bx, by)
		if sum.Cmp(bR) >= 0 {
			t.Class("carry")
		}
		if dif.Sign() < 0 {
			t.Class("borrow")
		}
		eq := func(name string, z U256, want *big.Int) {
			if !beq(fromWords(z), m256(want)) {
				t.Failf(name, "%s = %s, want %s", name, hex(fromWords(z)), hex(m256(want)))
			}
		}
		for a := 0; a < 3; a++ { // alias pattern of z: fresh, x, y
			x, y = xi, yi
			var zz U256 = rnd4(r)
			z := &zz
			if a == 1 {
				z = &x
			} else if a == 2 {
				z = &y
			}
			chk := func(name string, want *big.Int) {
				eq(name, *z, want)
				if a != 1 && x != xi || a != 2 && y != yi {
					t.Failf(name+":operand", "%s changed an operand (alias pattern %d)", name, a)
				}
				x, y = xi, yi
			}
			z.Add(&x, &y)
			chk("Add", sum)
			z.Sub(&x, &y)
			chk("Sub", dif)
			z.Mul(&x, &y)
			chk("Mul", prod)
			cy := z.AddAndReturnCarry(&x, &y)
			chk("AddAndReturnCarry", sum)
			t.Check(cy == new(big.Int).Rsh(sum, 256).Uint64(), "AddAndReturnCarry:carry", "carry %d for %s+%s", cy, hex(bx), hex(by))
			b := z.SubAndReturnBorrow(&x, &y)
			chk("SubAndReturnBorrow", dif)
			t.Check((b == 1) == (dif.Sign() < 0) && b <= 1, "SubAndReturnBorrow:borrow", "borrow %d for %s-%s", b, hex(bx), hex(by))
			if a < 2 {
				z.Increment(&x)
				chk("Increment", badd(bx, bOne))
				z.Decrement(&x)
				chk("Decrement", bsub(bx, bOne))
				z.SetUint256(&x)
				chk("SetUint256", bx)
				x.ToUint256(z)
				chk("ToUint256", bx)
			}
		}
		z := xi
		z.Add(&z, &z)
		eq("Add:xx", z, bmul(bx, bTwo))
		z = xi
		z.Sub(&z, &z)
		eq("Sub:xx", z, bZero)
		z = xi
		z.Mul(&z, &z)
		eq("Mul:xx", z, bmul(bx, bx))
		z = xi
		cy := z.AddAndReturnCarry(&z, &z)
		eq("AddAndReturnCarry:xx", z, bmul(bx, bTwo))
		t.Check(cy == uint64(bx.Bit(255)), "AddAndReturnCarry:carry", "carry %d of doubling %s", cy, hex(bx))
		z = xi
		z.IncrementEq()
		eq("IncrementEq", z, badd(bx, bOne))
		z = xi
		z.DecrementEq()
		eq("DecrementEq", z, bsub(bx, bOne))
	})
	c.Run("compare", 400000, func(t *T) {
		r := t.R
		bx := gen256(r)
		by := gen256(r)
		if r.Intn(2) == 0 { // differ in one word only
			w := toWords(bx)
			w[r.Intn(4)] = edgeWord(r, 0)
			by = fromWords(w)
		}
		x, y := U256(toWords(bx)), U256(toWords(by))
		t.Note("x=%s y=%s", hex(bx), hex(by))
		t.EvalH(hb(bx), hb(by))
		t.Classf("cmp %d", bx.Cmp(by))
		t.Check(x.Cmp(&y) == bx.Cmp(by), "Cmp", "Cmp(%s,%s)=%d", hex(bx), hex(by), x.Cmp(&y))
		t.Check(x.IsLessThan(&y) == (bx.Cmp(by) < 0), "IsLessThan", "IsLessThan(%s,%s)=%v", hex(bx), hex(by), x.IsLessThan(&y))
		t.Check(x.Cmp(&x) == 0 && !x.IsLessThan(&x), "Cmp", "x vs x")
		t.Check(x.IsZero() == (bx.Sign() == 0), "IsZero", "IsZero(%s)", hex(bx))
		t.Check(x.IsOne() == beq(bx, bOne), "IsOne", "IsOne(%s)", hex(bx))
		t.Check(x.BitLen() == bx.BitLen(), "BitLen", "BitLen(%s)=%d", hex(bx), x.BitLen())
		t.Check(fe.IsEqualAsUint256(&x, &y) == beq(bx, by), "IsEqualAsUint256", "IsEqualAsUint256(%s,%s)", hex(bx), hex(by))
		var e [5]uint64
		w := genWord(r)
		fe.LongMulUint64(&e, &x, w)
		want := bmul(bx, bu(w))
		got := badd(fromWords([4]uint64{e[0], e[1], e[2], e[3]}), new(big.Int).Lsh(bu(e[4]), 256))
		t.Check(beq(got, want), "LongMulUint64", "LongMulUint64(%s,%d)=%s want %s", hex(bx), w, hex(got), hex(want))
		var l fe.Uint512
		l.LongMul(&x, &y)
		t.Check(beq(fromWords8(l), bmul(bx, by)), "LongMul", "LongMul(%s,%s)=%s", hex(bx), hex(by), hex(fromWords8(l)))
		l.LongMul(&x, &x)
		t.Check(beq(fromWords8(l), bmul(bx, bx)), "LongMul", "LongMul(%s,itself)=%s", hex(bx), hex(fromWords8(l)))
		l.LongSquare(&x)
		t.Check(beq(fromWords8(l), bmul(bx, bx)), "LongSquare", "LongSquare(%s)=%s", hex(bx), hex(fromWords8(l)))
		t.Check(beq(fromWords(x), bx) && beq(fromWords(y), by), "operand", "an operand was changed")
		// shifts
		z := x
		o := z.ShiftLeftEq_64()
		sh := new(big.Int).Lsh(bx, 64)
		t.Check(beq(fromWords(z), m256(sh)) && o == new(big.Int).Rsh(sh, 256).Uint64(), "ShiftLeftEq_64", "ShiftLeftEq_64(%s)=%s out %x", hex(bx), hex(fromWords(z)), o)
		z = x
		o = z.ShiftRightEq_64()
		t.Check(beq(fromWords(z), new(big.Int).Rsh(bx, 64)) && o == x[0], "ShiftRightEq_64", "ShiftRightEq_64(%s)=%s out %x", hex(bx), hex(fromWords(z)), o)
		z = x
		k := uint(r.Intn(65))
		if r.Intn(4) == 0 {
			k = []uint{0, 1, 63, 64}[r.Intn(4)]
		}
		z.ShiftRightEq(k)
		t.Check(beq(fromWords(z), new(big.Int).Rsh(bx, k)), "ShiftRightEq", "ShiftRightEq(%s, %d)=%s", hex(bx), k, hex(fromWords(z)))
	})
	c.Run("convert", 150000, func(t *T) {
		r := t.R
		n := genInt(r)
		if r.Intn(3) == 0 {
			n = badd(new(big.Int).Lsh(bOne, []uint{256, 512}[r.Intn(2)]), bi(int64(r.Intn(7))-3))
		}
		keep := bcopy(n)
		t.Note("n=%s", n)
		t.EvalH(hb(n))
		fits := func(bits int) bool { return n.Sign() >= 0 && n.BitLen() <= bits }
		z := rnd4(r)
		z0 := z
		if fits(256) {
			t.Class("fits 256")
			z.SetBigInt(n)
			t.Check(beq(fromWords(z), n) && fe.BigIntToUInt256(n) == z, "SetBigInt", "Uint256.SetBigInt(%s)=%s", n, hex(fromWords(z)))
			b := z.ToBigInt()
			t.Check(beq(b, n), "ToBigInt", "ToBigInt %s", b)
			b.Add(b, bOne)
			t.Check(beq(fromWords(z), n), "ToBigInt", "ToBigInt result aliases")
			t.Keep("big integer", b.String)
			f := fmtVerbs[r.Intn(len(fmtVerbs))]
			t.Check(fmt.Sprintf(f, z) == fmt.Sprintf(f, n), "Format", "Sprintf(%q, %s)=%q", f, n, fmt.Sprintf(f, z))
			t.Check(z.String() == n.String(), "String", "String %s", z)
			s := []string{n.String(), fmt.Sprintf("%#x", n), fmt.Sprintf("%#b", n)}[r.Intn(3)]
			t.Check(fe.InitUint256FromString(s) == z, "InitUint256FromString", "InitUint256FromString(%s)", s)
		} else {
			t.Class("does not fit 256")
			t.MustPanic("SetBigInt:panic", func() { z.SetBigInt(n) }, "Uint256.SetBigInt(%s)", n)
			t.Check(z == z0, "SetBigInt:panic", "failed SetBigInt changed its receiver")
			t.MustPanic("BigIntToUInt256:panic", func() { fe.BigIntToUInt256(n) }, "BigIntToUInt256(%s)", n)
			t.MustPanic("InitUint256FromString:panic", func() { fe.InitUint256FromString(n.String()) }, "InitUint256FromString(%s)", n)
		}
		var l fe.Uint512
		if fits(512) {
			l.SetBigInt(n)
			t.Check(beq(fromWords8(l), n) && fe.BigIntToUint512(n) == l, "Uint512.SetBigInt", "Uint512.SetBigInt(%s)=%s", n, hex(fromWords8(l)))
			t.Check(beq(l.ToBigInt(), n), "Uint512.ToBigInt", "Uint512.ToBigInt %s", l.ToBigInt())
			f := fmtVerbs[r.Intn(len(fmtVerbs))]
			t.Check(fmt.Sprintf(f, l) == fmt.Sprintf(f, n) && l.String() == n.String(), "Uint512.Format", "Sprintf(%q, %s)=%q", f, n, fmt.Sprintf(f, l))
			z = z0
			if fits(256) {
				l.ToUint256(&z)
				t.Check(beq(fromWords(z), n), "Uint512.ToUint256", "Uint512.ToUint256(%s)=%s", n, hex(fromWords(z)))
				l = fe.Uint512{1, 2, 3, 4, 5, 6, 7, 8}
				l.SetUint256(&z)
				t.Check(beq(fromWords8(l), n), "Uint512.SetUint256", "Uint512.SetUint256(%s)=%s", n, hex(fromWords8(l)))
			} else {
				t.Class("does not fit back")
				t.MustPanic("Uint512.ToUint256:panic", func() { l.ToUint256(&z) }, "Uint512.ToUint256(%s)", n)
			}
		} else {
			t.Class("does not fit 512")
			t.MustPanic("Uint512.SetBigInt:panic", func() { l.SetBigInt(n) }, "Uint512.SetBigInt(%s)", n)
			t.MustPanic("BigIntToUint512:panic", func() { fe.BigIntToUint512(n) }, "BigIntToUint512(%s)", n)
		}
		t.Check(beq(n, keep), "SetBigInt:arg", "argument changed")
		w := genWord(r)
		z.SetUint64(w)
		l.SetUint64(w)
		t.Check(beq(fromWords(z), bu(w)) && beq(fromWords8(l), bu(w)), "SetUint64", "SetUint64(%d)", w)
		z.SetOne()
		t.Check(beq(fromWords(z), bOne), "SetOne", "SetOne")
		z.SetZero()
		t.Check(beq(fromWords(z), bZero), "SetZero", "SetZero")
	})
	// sliding windows
	ety := reflect.TypeOf((*U256).SlidingWindowDecomposition).Out(0).Elem()
	if _, ok := ety.FieldByName("exp"); ok {
		if _, ok = ety.FieldByName("pos"); ok {
			c.Run("sliding window", 60000, func(t *T) {
				r := t.R
				n := gen256(r)
				if r.Intn(3) == 0 { // sparse
					n = bi(0)
					for i := 0; i <= r.Intn(6); i++ {
						n = new(big.Int).SetBit(n, r.Intn(256), 1)
					}
				}
				w := uint8(1 + r.Intn(63))
				if r.Intn(2) == 0 {
					w = uint8(1 + r.Intn(6))
				}
				z := U256(toWords(n))
				t.Note("n=%s window %d", hex(n), w)
				t.EvalH(hb(n), uint64(w))
				d := reflect.ValueOf(z.SlidingWindowDecomposition(w))
				t.Check(beq(fromWords(z), n), "SlidingWindow:arg", "receiver changed")
				t.Keep("window decomposition", func() string { return fmt.Sprint(d) })
				sum := bi(0)
				last := uint64(1 << 20)
				for i := 0; i < d.Len(); i++ {
					e, p := d.Index(i).FieldByName("exp").Uint(), d.Index(i).FieldByName("pos").Uint()
					sum.Add(sum, new(big.Int).Lsh(bu(e), uint(p)))
					if e%2 == 0 || e >= 1<<w || p >= last {
						t.Failf("SlidingWindow:entry", "entry %d: exp %d pos %d (previous pos %d) for window %d", i, e, p, last, w)
					}
					last = p
				}
				t.Check(beq(sum, n), "SlidingWindow", "decomposition of %s (window %d) sums to %s", hex(n), w, hex(sum))
				if r.Intn(500) == 0 {
					t.MustPanic("SlidingWindow:panic", func() { z.SlidingWindowDecomposition(0) }, "window 0")
					t.MustPanic("SlidingWindow:panic", func() { z.SlidingWindowDecomposition(uint8(64 + r.Intn(192))) }, "window >= 64")
				}
			})
		}
	}
	c.Need("add sub mul/carry", 1000)
	c.Need("add sub mul/borrow", 1000)
	c.Need("convert/does not fit 256", 1000)
	c.Need("convert/does not fit 512", 100)
	internalWords(c)
}

func checkF07(c *Ctx) {
	c.Rule("Inputs are drawn within each routine's documented input range with edge structure (range borders p, 2p, 2^256-p, 2^256, words of these, related pairs hitting borders with sums and differences); the oracle is math/big plus the promised output range. Distinct by routine and inputs.")
	type rng struct {
		name string
		m    *big.Int
	}
	a, b, cc, f := rng{"a", bR}, rng{"b", b2P}, rng{"c", bC}, rng{"f", bP}
	type bin struct {
		name    string
		in, out rng
		f       func(z, x, y *U256)
		eq      func(z, y *U256)
		ref     func(x, y *big.Int) *big.Int
	}
	bins := []bin{
		{"AddAndReduce_b", b, b, (*U256).AddAndReduce_b, nil, addP},
		{"AddAndReduce_c", cc, cc, (*U256).AddAndReduce_c, nil, addP},
		{"AddEqAndReduce_a", a, a, nil, (*U256).AddEqAndReduce_a, addP},
		{"SubAndReduce_b", b, b, (*U256).SubAndReduce_b, nil, subP},
		{"SubAndReduce_c", cc, cc, (*U256).SubAndReduce_c, nil, subP},
		{"SubEqAndReduce_a", a, a, nil, (*U256).SubEqAndReduce_a, subP},
		{"MulAndReduce_a", a, a, (*U256).MulAndReduce_a, (*U256).MulEqAndReduce_a, mulP},
		{"MulMontgomery_c", cc, cc, (*U256).MulMontgomery_c, nil, func(x, y *big.Int) *big.Int { return mulP(mulP(x, y), bRinv) }},
	}
	type un struct {
		name    string
		in, out rng
		f       func(z, x *U256)
		eq      func(z *U256)
		ref     func(x *big.Int) *big.Int
	}
	id := func(x *big.Int) *big.Int { return bmod(x, bP) }
	uns := []un{
		{"Reduce", a, f, nil, (*U256).Reduce, id},
		{"Reduce_fa", a, f, nil, (*U256).Reduce_fa, id},
		{"Reduce_ca", a, cc, nil, (*U256).Reduce_ca, id},
		{"Reduce_fb", b, f, nil, (*U256).Reduce_fb, id},
		{"DoubleEqAndReduce_a", a, a, nil, (*U256).DoubleEqAndReduce_a, func(x *big.Int) *big.Int { return addP(x, x) }},
		{"SquareAndReduce_a", a, a, (*U256).SquareAndReduce_a, (*U256).SquareEqAndReduce_a, func(x *big.Int) *big.Int { return mulP(x, x) }},
		{"SquareMontgomery_c", cc, cc, (*U256).SquareMontgomery_c, nil, func(x *big.Int) *big.Int { return mulP(mulP(x, x), bRinv) }},
		{"FromMontgomeryRepresentation_fc", cc, f, (*U256).FromMontgomeryRepresentation_fc, nil, func(x *big.Int) *big.Int { return mulP(x, bRinv) }},
		{"ConvertToMontgomeryRepresentation_c", cc, cc, (*U256).ConvertToMontgomeryRepresentation_c, nil, func(x *big.Int) *big.Int { return mulP(x, bR) }},
		{"ToNonMontgomery_fc", cc, f, func(z, x *U256) { *z = x.ToNonMontgomery_fc() }, nil, func(x *big.Int) *big.Int { return mulP(x, bRinv) }},
		{"ComputeModularNegative_Weak_a", a, a, func(z, x *U256) { *z = x.ComputeModularNegative_Weak_a() }, nil, negP},
	}
	chk := func(t *T, name string, z U256, want *big.Int, out rng, what string) {
		g := fromWords(z)
		if !beq(bmod(g, bP), want) {
			t.Failf(name, "%s %s: got %s = %s mod p, want %s", name, what, hex(g), hex(bmod(g, bP)), hex(want))
		} else if g.Cmp(out.m) >= 0 {
			t.Failf(name+":range", "%s %s: result %s is not %s-reduced", name, what, hex(g), out.name)
		}
	}
	c.Run("binary", 1500000, func(t *T) {
		r := t.R
		o := bins[r.Intn(len(bins))]
		bx := genBelow(r, o.in.m)
		by := genBelow(r, o.in.m)
		if r.Intn(2) == 0 {
			by = genRelated(r, bx, o.in.m)
		}
		if o.name == "MulMontgomery_c" && r.Intn(3) == 0 && bmod(bx, bP).Sign() != 0 { // product lands near a border
			by = mulP(mulP(badd(genBelow(r, bP), bZero), bR), invP(bmod(bx, bP)))
			if r.Intn(2) == 0 && badd(by, bP).Cmp(bC) < 0 {
				by = badd(by, bP)
			}
		}
		x, y := U256(toWords(bx)), U256(toWords(by))
		xi, yi := x, y
		want := o.ref(bmod(bx, bP), bmod(by, bP))
		t.Note("%s x=%s y=%s", o.name, hex(bx), hex(by))
		t.Sample("%s x=%s y=%s", o.name, hex(bx), hex(by))
		t.EvalH(hashStr(o.name), hb(bx), hb(by))
		t.Class(o.name)
		if o.f != nil {
			z := rnd4(r)
			o.f(&z, &x, &y)
			chk(t, o.name, z, want, o.out, "z(x,y)")
			t.Check(x == xi && y == yi, o.name+":operand", "%s changed an operand", o.name)
			o.f(&x, &x, &y)
			chk(t, o.name, x, want, o.out, "x(x,y)")
			t.Check(y == yi, o.name+":operand", "%s changed an operand", o.name)
			x = xi
			o.f(&y, &x, &y)
			chk(t, o.name, y, want, o.out, "y(x,y)")
			t.Check(x == xi, o.name+":operand", "%s changed an operand", o.name)
			x = xi
			o.f(&x, &x, &x)
			chk(t, o.name, x, o.ref(bmod(bx, bP), bmod(bx, bP)), o.out, "x(x,x)")
		}
		if o.eq != nil {
			x, y = xi, yi
			o.eq(&x, &y)
			chk(t, o.name, x, want, o.out, "Eq")
			t.Check(y == yi, o.name+":operand", "%s changed an operand", o.name)
			x = xi
			o.eq(&x, &x)
			chk(t, o.name, x, o.ref(bmod(bx, bP), bmod(bx, bP)), o.out, "Eq with itself")
		}
	})
	c.Run("unary", 900000, func(t *T) {
		r := t.R
		o := uns[r.Intn(len(uns))]
		bx := genBelow(r, o.in.m)
		x := U256(toWords(bx))
		xi := x
		want := o.ref(bmod(bx, bP))
		t.Note("%s x=%s", o.name, hex(bx))
		t.EvalH(hashStr(o.name), hb(bx))
		t.Class(o.name)
		if o.f != nil {
			z := rnd4(r)
			o.f(&z, &x)
			chk(t, o.name, z, want, o.out, "z(x)")
			t.Check(x == xi, o.name+":operand", "%s changed its operand", o.name)
			o.f(&x, &x)
			chk(t, o.name, x, want, o.out, "x(x)")
		}
		if o.eq != nil {
			x = xi
			o.eq(&x)
			chk(t, o.name, x, want, o.out, "Eq")
		}
	})
	c.Run("predicates", 500000, func(t *T) {
		bx := gen256(t.R)
		x := U256(toWords(bx))
		t.Note("x=%s", hex(bx))
		t.EvalH(hb(bx))
		t.Classf("range %v%v%v", bx.Cmp(bP) < 0, bx.Cmp(bC) < 0, bx.Cmp(b2P) < 0)
		t.Check(x.IsReduced_a(), "IsReduced_a", "IsReduced_a(%s)", hex(bx))
		t.Check(x.IsReduced_b() == (bx.Cmp(b2P) < 0), "IsReduced_b", "IsReduced_b(%s)=%v", hex(bx), x.IsReduced_b())
		t.Check(x.IsReduced_c() == (bx.Cmp(bC) < 0), "IsReduced_c", "IsReduced_c(%s)=%v", hex(bx), x.IsReduced_c())
		t.Check(x.IsReduced_f() == (bx.Cmp(bP) < 0), "IsReduced_f", "IsReduced_f(%s)=%v", hex(bx), x.IsReduced_f())
	})
	c.Run("barrett", 400000, func(t *T) {
		r := t.R
		var n *big.Int
		switch r.Intn(4) {
		case 0:
			n = badd(bmul(gen256(r), bR), gen256(r))
		case 1: // multiples of p plus minus little
			n = badd(bmul(gen256(r), bP), bi(int64(r.Intn(9))-4))
		case 2: // near 2^512
			n = bsub(bR512, badd(bu(genWord(r)), bOne))
		default:
			n = bmul(gen256(r), gen256(r))
		}
		if n.Sign() < 0 {
			n = bi(0)
		}
		x := fe.Uint512(toWords8(n))
		t.Note("n=%s", hex(n))
		t.EvalH(hb(n))
		z := rnd4(r)
		z.ReduceUint512ToUint256_a(x)
		chk(t, "ReduceUint512ToUint256_a", z, bmod(n, bP), a, "")
	})
	inverse := func(t *T, r *rand.Rand, bx *big.Int) {
		x := U256(toWords(bx))
		xi := x
		t.Note("x=%s", hex(bx))
		t.EvalH(hb(bx))
		v := bmod(bx, bP)
		z := rnd4(r)
		z0 := z
		ok := z.ModularInverse_a_NAIVEHAC(&x)
		t.Check(ok == (v.Sign() != 0), "ModularInverse:ok", "ModularInverse_a_NAIVEHAC(%s)=%v", hex(bx), ok)
		t.Check(x == xi, "ModularInverse:operand", "operand changed")
		if v.Sign() != 0 {
			chk(t, "ModularInverse", z, invP(v), a, "z(x)")
			x.ModularInverse_a_NAIVEHAC(&x)
			chk(t, "ModularInverse", x, invP(v), a, "x(x)")
			t.Class("invertible")
		} else {
			t.Class("not invertible")
			_ = z0
		}
	}
	c.Run("inverse", 50000, func(t *T) {
		r := t.R
		bx := gen256(r)
		if r.Intn(10) == 0 {
			bx = bmul(bP, bi(int64(r.Intn(3))))
		}
		inverse(t, r, bx)
		if r.Intn(6) == 0 {
			ks := kin(r, bx, bR)
			for i := 0; i < 6; i++ {
				inverse(t, r, ks[r.Intn(len(ks))])
			}
		}
	})
	exponentiation := func(t *T, r *rand.Rand, bx, be *big.Int) {
		x, e := U256(toWords(bx)), U256(toWords(be))
		xi, ei := x, e
		t.Note("x=%s e=%s", hex(bx), hex(be))
		t.EvalH(hb(bx), hb(be))
		want := new(big.Int).Exp(bmod(bx, bP), be, bP)
		wantM := mulP(new(big.Int).Exp(mulP(bx, bRinv), be, bP), bR)
		z := rnd4(r)
		z.ModularExponentiation_fa(&x, &e)
		chk(t, "ModularExponentiation_fa", z, want, f, "z(x)")
		t.Check(x == xi && e == ei, "ModularExponentiation_fa:operand", "operand changed")
		x.ModularExponentiation_fa(&x, &e)
		chk(t, "ModularExponentiation_fa", x, want, f, "x(x)")
		x = xi
		z.ModularExponentiationMontgomery_fa(&x, &e)
		chk(t, "ModularExponentiationMontgomery_fa", z, wantM, f, "z(x)")
		t.Check(x == xi && e == ei, "ModularExponentiationMontgomery_fa:operand", "operand changed")
		x.ModularExponentiationMontgomery_fa(&x, &e)
		chk(t, "ModularExponentiationMontgomery_fa", x, wantM, f, "x(x)")
	}
	c.Run("exponentiation", 60000, func(t *T) {
		r := t.R
		bx, be := gen256(r), gen256(r)
		switch r.Intn(6) {
		case 0:
			be = bi(int64(r.Intn(70)))
		case 1:
			bx = bmul(bP, bi(int64(r.Intn(3))))
			t.Class("base 0 mod p")
		case 2:
			be = bi(0)
			for i := 0; i <= r.Intn(6); i++ {
				be = new(big.Int).SetBit(be, r.Intn(256), 1)
			}
		case 3: // exponents of a given length, all window choices
			be = bmod(be, new(big.Int).Lsh(bOne, uint(1+r.Intn(256))))
		}
		exponentiation(t, r, bx, be)
		if r.Intn(6) == 0 {
			ks, es := kin(r, bx, bR), kin(r, be, bR)
			for i := 0; i < 6; i++ {
				exponentiation(t, r, ks[r.Intn(len(ks))], es[r.Intn(len(es))])
			}
		}
	})
	internalModular(c, func(t *T, name string, z U256, want *big.Int, limit *big.Int, limitName string) {
		chk(t, name, z, want, rng{limitName, limit}, "")
	})
	for _, o := range bins {
		c.Need("binary/"+o.name, 1000)
	}
	for _, o := range uns {
		c.Need("unary/"+o.name, 1000)
	}
	c.Need("inverse/not invertible", 100)
}
