package main

// C06: constructing curve points from coordinates.

import (
	"errors"
	"fmt"
	"math/big"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
)

func init() {
	register("C06", 12, runC06)
}

// expectation for one constructor call
type ctorCase struct {
	name   string
	pt     PT
	err    error // plain: nil if the library returned nil
	valid  bool
	want   *rp
	xy     [2]*big.Int // want by coordinates (if want is nil)
	sub    bool
	causes []error // acceptable if !valid
	data   func() string
}

func (t *T) ctor(c *ctorCase) {
	if c.valid {
		if c.err != nil {
			t.Failf(c.name+"/rejects", "%s refused valid input: %v", c.name, c.err)
			return
		}
		if c.pt.IsNaP() {
			t.Failf(c.name+"/nap", "%s returned a NaP without error", c.name)
			return
		}
		w := c.want
		if w == nil {
			w = &rp{bZero, 0, c.xy[0], c.xy[1]}
		}
		if !validatePt(c.pt) {
			t.Failf(c.name+"/invalid", "%s: result does not pass Validate", c.name)
		}
		t.isPt(c.name+"/point", c.pt, w, "result of %s", c.name)
		return
	}
	if c.err == nil {
		t.Failf(c.name+"/accepts", "%s accepted invalid input (must fail with %v)", c.name, c.causes)
		return
	}
	ok := false
	for _, e := range c.causes {
		ok = ok || errors.Is(c.err, e)
	}
	if !ok {
		t.Failf(c.name+"/reason", "%s: error is %q, want one of %v", c.name, c.err, c.causes)
	}
	if bad := c.data(); bad != "" {
		t.Failf(c.name+"/data", "%s: error data: %s", c.name, bad)
	}
	if v, ok := c.err.(errData); ok {
		if e := v.ValidateError_Final(); e != nil {
			t.Failf(c.name+"/message", "%s: error message cannot be printed properly: %v; message is %q", c.name, e, c.err.Error())
		}
	}
	if c.err.Error() == "" {
		t.Failf(c.name+"/message", "%s: empty error message", c.name)
	}
	t.KeepErr(c.err)
}

func feIs(name string, got FE, want *big.Int) string {
	if g := feVal(&got); g.Cmp(want) != 0 {
		return fmt.Sprintf("%s = %s, want %s; ", name, hex(g), hex(want))
	}
	return ""
}
func signIs(got, want int) string {
	if got != want {
		return fmt.Sprintf("sign = %d, want %d; ", got, want)
	}
	return ""
}

// subRep: the representative of {P, P+A} in the subgroup, by coordinates.
func subRep(p *rp, x, y *big.Int) [2]*big.Int {
	if cosetOf(p, x, y) == torA {
		return [2]*big.Int{negP(x), negP(y)}
	}
	return [2]*big.Int{x, y}
}

func runC06(c *Ctx) {
	if !needRef(c) {
		return
	}
	c.Rule("A case is a pair of coordinate values (coordinates of reference points of all four cosets, perturbed ones, border values, arbitrary ones), a sign and a trust level given to one constructor; acceptance, resulting point, failure reason and error data are compared with the curve equation and coset membership over math/big.")
	signs := []int{1, -1, 0, 2, -2, 1 << 40, -1 << 62}
	c.Run("constructors", 15000, func(t *T) {
		r := t.R
		p, x, y, how := genXY(r)
		fx, fy := feFrom(r, x), feFrom(r, y)
		sign := []int{1, -1}[r.Intn(2)]
		if r.Intn(3) == 0 {
			sign = signs[r.Intn(len(signs))]
		}
		if t.Index < len(ctorEdges)*len(signs) { // edges with every sign
			p, how = nil, "edges"
			x = ctorEdges[t.Index%len(ctorEdges)]
			y = x
			fx, fy = feFrom(r, x), feFrom(r, y)
			sign = signs[t.Index/len(ctorEdges)]
		}
		on := onCurve(x, y)
		cos := -1
		if on {
			cos = cosetOf(p, x, y)
		}
		t.Note("%s: x=%s y=%s sign=%d on curve: %v coset %d", how, hex(x), hex(y), sign, on, cos)
		t.Sample("%s: x=%s y=%s sign=%d", how, hex(x), hex(y), sign)
		t.Classf("xy/%s", how)
		t.EvalH(hb(x), hb(y), uint64(int64(sign)))
		sx, sy := fx, fy

		// X, Y
		{
			valid := on
			causes := []error{be.ErrNotOnCurve}
			if x.Sign() == 0 && y.Sign() == 0 {
				causes = []error{be.ErrCannotDeserializeXYAllZero}
			}
			pt, err := cp.CurvePointFromXYAffine_full(&fx, &fy, common.UntrustedInput)
			t.ctor(&ctorCase{name: "XYAffine_full", pt: &pt, err: err, valid: valid, xy: [2]*big.Int{x, y}, causes: causes, data: func() string {
				d := err.GetData_struct()
				return feIs("X", d.X, x) + feIs("Y", d.Y, y)
			}})
			if err == nil {
				t.Class("XY_full/ok")
			} else if x.Sign() == 0 && y.Sign() == 0 {
				t.Class("XY_full/zero")
				if !errors.Is(err, be.ErrCannotDeserializeNaP) {
					t.Failf("XYAffine_full/reason", "x=y=0: error does not wrap ErrCannotDeserializeNaP")
				}
			} else {
				t.Class("XY_full/not on curve")
			}
			if on && cos != torN {
				causes = []error{be.ErrNotInSubgroup}
			}
			ps, errs := cp.CurvePointFromXYAffine_subgroup(&fx, &fy, common.UntrustedInput)
			t.ctor(&ctorCase{name: "XYAffine_subgroup", pt: &ps, err: errs, valid: cos == torN, xy: [2]*big.Int{x, y}, causes: causes, data: func() string {
				d := errs.GetData_struct()
				return feIs("X", d.X, x) + feIs("Y", d.Y, y)
			}})
			t.Classf("XY_subgroup/coset %d", cos)
			if on {
				pt, err := cp.CurvePointFromXYAffine_full(&fx, &fy, common.TrustedInput)
				t.ctor(&ctorCase{name: "XYAffine_full trusted", pt: &pt, err: err, valid: true, xy: [2]*big.Int{x, y}})
			}
			if cos == torN {
				pt, err := cp.CurvePointFromXYAffine_subgroup(&fx, &fy, common.TrustedInput)
				t.ctor(&ctorCase{name: "XYAffine_subgroup trusted", pt: &pt, err: err, valid: true, xy: [2]*big.Int{x, y}})
			}
		}

		// X and sign of Y
		{
			ry := y
			if !on {
				ry = yOf(x)
			}
			okSign := sign == 1 || sign == -1
			valid := ry != nil && okSign
			var causes []error
			if !okSign {
				causes = append(causes, be.ErrInvalidSign)
			}
			if ry == nil {
				causes = append(causes, be.ErrXNotOnCurve)
			}
			var wy *big.Int
			wcos := -1
			if valid {
				wy = withSign(ry, sign)
				wcos = cosetOf(p, x, wy)
			}
			pt, err := cp.CurvePointFromXAndSignY_full(&fx, sign, common.UntrustedInput)
			t.ctor(&ctorCase{name: "XAndSignY_full", pt: &pt, err: err, valid: valid, xy: [2]*big.Int{x, wy}, causes: causes, data: func() string {
				d := err.GetData_struct()
				return feIs("X", d.X, x) + signIs(d.SignY, sign)
			}})
			t.Classf("XSignY/sign ok %v, on curve %v, coset %d", okSign, ry != nil, wcos)
			if wcos > torN {
				causes = append(causes, be.ErrNotInSubgroup)
			}
			if wcos >= torE1 {
				causes = append(causes, be.ErrXNotInSubgroup)
			}
			if ry != nil && !okSign && cosetOf(p, x, ry) >= torE1 {
				causes = append(causes, be.ErrXNotInSubgroup)
			}
			ps, errs := cp.CurvePointFromXAndSignY_subgroup(&fx, sign, common.UntrustedInput)
			t.ctor(&ctorCase{name: "XAndSignY_subgroup", pt: &ps, err: errs, valid: wcos == torN, xy: [2]*big.Int{x, wy}, causes: causes, data: func() string {
				d := errs.GetData_struct()
				return feIs("X", d.X, x) + signIs(d.SignY, sign)
			}})
			if valid {
				pt, err := cp.CurvePointFromXAndSignY_full(&fx, sign, common.TrustedInput)
				t.ctor(&ctorCase{name: "XAndSignY_full trusted", pt: &pt, err: err, valid: true, xy: [2]*big.Int{x, wy}})
			}
			if wcos == torN {
				pt, err := cp.CurvePointFromXAndSignY_subgroup(&fx, sign, common.TrustedInput)
				t.ctor(&ctorCase{name: "XAndSignY_subgroup trusted", pt: &pt, err: err, valid: true, xy: [2]*big.Int{x, wy}})
			}
		}

		// Y and sign of X
		{
			rx := x
			if !on {
				rx = xOf(y)
			}
			okSign := sign == 1 || sign == -1 || sign == 0
			zeroOK := sign != 0 || (rx != nil && rx.Sign() == 0)
			valid := rx != nil && okSign && zeroOK
			var causes []error
			if !okSign {
				causes = append(causes, be.ErrInvalidSign)
			}
			if !zeroOK {
				causes = append(causes, be.ErrInvalidZeroSignX)
			}
			if rx == nil {
				causes = append(causes, be.ErrYNotOnCurve)
			}
			var wx *big.Int
			wcos := -1
			if valid {
				wx = rx
				if rx.Sign() != 0 {
					wx = withSign(rx, sign)
				}
				wcos = cosetOf(p, wx, y)
			}
			pt, err := cp.CurvePointFromYAndSignX_full(&fy, sign, common.UntrustedInput)
			t.ctor(&ctorCase{name: "YAndSignX_full", pt: &pt, err: err, valid: valid, xy: [2]*big.Int{wx, y}, causes: causes, data: func() string {
				d := err.GetData_struct()
				return feIs("Y", d.Y, y) + signIs(d.SignX, sign)
			}})
			xzero := rx != nil && rx.Sign() == 0
			t.Classf("YSignX/sign ok %v, on curve %v, zero x %v, zero sign %v, coset %d", okSign, rx != nil, xzero, sign == 0, wcos)
			if wcos > torN {
				causes = append(causes, be.ErrNotInSubgroup)
			}
			ps, errs := cp.CurvePointFromYAndSignX_subgroup(&fy, sign, common.UntrustedInput)
			t.ctor(&ctorCase{name: "YAndSignX_subgroup", pt: &ps, err: errs, valid: wcos == torN, xy: [2]*big.Int{wx, y}, causes: causes, data: func() string {
				d := errs.GetData_struct()
				return feIs("Y", d.Y, y) + signIs(d.SignX, sign)
			}})
			if valid {
				pt, err := cp.CurvePointFromYAndSignX_full(&fy, sign, common.TrustedInput)
				t.ctor(&ctorCase{name: "YAndSignX_full trusted", pt: &pt, err: err, valid: true, xy: [2]*big.Int{wx, y}})
			}
			if wcos == torN {
				pt, err := cp.CurvePointFromYAndSignX_subgroup(&fy, sign, common.TrustedInput)
				t.ctor(&ctorCase{name: "YAndSignX_subgroup trusted", pt: &pt, err: err, valid: true, xy: [2]*big.Int{wx, y}})
			}
		}

		// X*sign(Y)
		{
			ry := y
			if !on {
				ry = yOf(x)
			}
			var want [2]*big.Int
			valid := false
			causes := []error{be.ErrXNotOnCurve}
			if ry != nil {
				causes = []error{be.ErrXNotInSubgroup}
				wy := withSign(ry, 1)
				if cs := cosetOf(p, x, wy); cs <= torA {
					valid = true
					want = [2]*big.Int{x, wy}
					if cs == torA {
						want = [2]*big.Int{negP(x), negP(wy)}
					}
				}
			}
			t.Classf("XTimesSignY/on curve %v valid %v", ry != nil, valid)
			pt, err := cp.CurvePointFromXTimesSignY_subgroup(&fx, common.UntrustedInput)
			t.ctor(&ctorCase{name: "XTimesSignY_subgroup", pt: &pt, err: err, valid: valid, xy: want, causes: causes, data: func() string {
				d := err.GetData_struct()
				if feIs("X", d.X, x) == "" {
					return ""
				}
				return feIs("X", d.X, negP(x))
			}})
			if valid {
				pt, err := cp.CurvePointFromXTimesSignY_subgroup(&fx, common.TrustedInput)
				t.ctor(&ctorCase{name: "XTimesSignY_subgroup trusted", pt: &pt, err: err, valid: true, xy: want})
			}
		}

		// X*sign(Y), Y*sign(Y)
		{
			wrongSign := signP(y) <= 0
			valid := on && !wrongSign && cos <= torA
			var causes []error
			if wrongSign {
				causes = append(causes, be.ErrWrongSignY)
			}
			if !on {
				causes = append(causes, be.ErrNotOnCurve)
			} else if cos > torA {
				causes = append(causes, be.ErrNotInSubgroup)
			}
			var want [2]*big.Int
			if valid {
				want = subRep(p, x, y)
			}
			t.Classf("XYTimesSignY/sign %d, coset %d", signP(y), cos)
			for _, swap := range []bool{false, true} {
				name, f := "XYTimesSignY_subgroup", cp.CurvePointFromXYTimesSignY_subgroup
				a, b := &fx, &fy
				if swap {
					name, f = "YXTimesSignY_subgroup", cp.CurvePointFromYXTimesSignY_subgroup
					a, b = b, a
				}
				pt, err := f(a, b, common.UntrustedInput)
				t.ctor(&ctorCase{name: name, pt: &pt, err: err, valid: valid, xy: want, causes: causes, data: func() string {
					d := err.GetData_struct()
					return feIs("XSignY", d.XSignY, x) + feIs("YSignY", d.YSignY, y)
				}})
				if valid {
					pt, err := f(a, b, common.TrustedInput)
					t.ctor(&ctorCase{name: name + " trusted", pt: &pt, err: err, valid: true, xy: want})
				}
			}
		}
		if feVal(&sx).Cmp(feVal(&fx)) != 0 || feVal(&sy).Cmp(feVal(&fy)) != 0 {
			t.Failf("input modified", "a constructor changed its input")
		}
	})
	c.Need("constructors/XY_full/zero", 1)
	c.Need("constructors/XY_full/not on curve", 100)
	for cos := 0; cos < 4; cos++ {
		c.Need(fmt.Sprintf("constructors/XY_subgroup/coset %d", cos), 100)
	}
	c.Need("constructors/XTimesSignY/on curve true valid false", 100)
	c.Need("constructors/XTimesSignY/on curve false valid false", 50)
	c.Need("constructors/YSignX/sign ok true, on curve true, zero x true, zero sign true, coset 0", 5)
	c.Need("constructors/YSignX/sign ok true, on curve true, zero x true, zero sign true, coset 1", 5)
	c.Need("constructors/YSignX/sign ok true, on curve false, zero x false, zero sign true, coset -1", 5)
}
