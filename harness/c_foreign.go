package main

import (
	"fmt"
	"math/rand"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
)

func init() {
	register("C07", 10, runC07)
}

// operand is a point of a library type, of a library type in disguise, or of a
// type implemented outside the library.
type operand struct {
	name          string
	sub, inf, ext bool
	lib           bool
	pt            PT
	p             *rp
}

func (o *operand) String() string { return fmt.Sprintf("%s %v", o.name, o.p) }

const nOperandKinds = 18

// mkOperand: kinds 0..5 own implementations, 6..11 disguised library types, 12..17 library types
func mkOperand(r *rand.Rand, kind int, p *rp) *operand {
	switch {
	case kind < 6:
		k := &frKinds[kind]
		if !k.holds(p) {
			p = toSub(p)
		}
		return &operand{k.name, k.sub, k.inf, k.ext, false, frMake(r, k, p), p}
	default:
		k := &ptKinds[kind%6]
		if !k.holds(p) {
			p = toSub(p)
		}
		o := &operand{k.name, k.sub, k.inf, true, true, ptMake(r, k, p), p}
		if kind < 12 {
			o.name, o.lib, o.ext, o.pt = "hidden_"+k.name, false, false, frHide(o.pt)
		}
		return o
	}
}

func nilOperand(r *rand.Rand, kind int) *operand {
	if kind < 6 {
		k := &frKinds[kind]
		return &operand{k.name, k.sub, k.inf, k.ext, false, frMake(r, k, nil), nil}
	}
	k := &ptKinds[kind%6]
	o := &operand{k.name, k.sub, k.inf, true, true, k.mk(), nil}
	if kind < 12 {
		o.name, o.lib, o.ext, o.pt = "hidden_"+k.name, false, false, frHide(o.pt)
	}
	return o
}

// isOperand requires that an operand still denotes its point.
func (t *T) isOperand(key string, o *operand, what string, a ...interface{}) {
	if f, ok := o.pt.(interface{ core() *foreign }); ok {
		t.Check(f.core().p == o.p, key, "%s: now %v, was %v", fmt.Sprintf(what, a...), f.core().p, o.p)
		return
	}
	t.isPt(key, o.pt, o.p, what, a...)
}

// notImplemented: storing a point at infinity of a type without T coordinates in
// a Point_xtw_full is documented in the code as not implemented (it panics).
func infNoT(o *operand) bool { return o != nil && !o.lib && !o.ext && o.p != nil && o.p.inf() }

func runC07(c *Ctx) {
	if !needRef(c) {
		return
	}
	c.Rule("Operands are points of six point types implemented in the harness on the reference model (every freedom the interface leaves is drawn at random), library points whose type is hidden by embedding, and library points; receivers are the six library types. Oracle: the complete group law over math/big and the mathematical predicates.")
	c.Assume("math/big is correct; the reference law passes its self check")
	c.Run("operations", 40000, func(t *T) {
		r := t.R
		zk := &ptKinds[r.Intn(6)]
		zp := genSub(r)
		if !zk.sub {
			if zp = genRP(r); !zk.holds(zp) {
				zp = toSub(zp)
			}
		}
		z := ptMake(r, zk, zp)
		op := &gops[t.Index%12]
		if op.n == 0 {
			op = &gops[r.Intn(2)]
		}
		kind := func(foreign bool) int {
			n := 18
			if foreign {
				n = 12
			}
			k := r.Intn(n)
			if zk.sub && r.Intn(8) != 0 {
				k = []int{2, 5, 7, 9, 11, 13, 15, 17}[r.Intn(8)]
				if foreign && k > 11 {
					k -= 6
				}
			}
			return k
		}
		xf := r.Intn(3) != 0 || op.n < 2
		px := genRP(r)
		x := mkOperand(r, kind(xf), px)
		y := x
		if op.n == 2 {
			py := genRelatedRP(r, px)
			if r.Intn(3) == 0 {
				py = genRP(r)
			}
			if !xf || r.Intn(8) != 0 {
				y = mkOperand(r, kind(!xf || r.Intn(2) == 0), py)
			}
		}
		args := x.name
		ops := []*operand{x}
		if op.n == 2 {
			args += "," + y.name
			ops = append(ops, y)
		}
		if op.eq && r.Intn(2) == 0 && (zk.holds(rpNeg(x.p)) || !zk.sub) {
			if q := genRelatedRP(r, x.p); zk.holds(q) {
				zp = q
				z = ptMake(r, zk, zp)
			}
		}
		key := fmt.Sprintf("%s.%s(%s)", zk.name, op.name, args)
		allowed, unimpl := true, false
		for _, o := range ops {
			if zk.sub && !o.sub && !op.any {
				allowed = false
			}
			unimpl = unimpl || infNoT(o)
		}
		var want *rp
		if allowed {
			want = op.ref(zp, x.p, y.p)
			if !zk.holds(want) {
				want = nil
			}
		}
		t.EvalH(append(rhash(zp, x.p, y.p), hashStr(key))...)
		_, panicked := PanicVal(func() { op.do(z, x.pt, y.pt) })
		desc := fmt.Sprintf("%s with receiver %v, operands %v", key, zp, ops)
		switch {
		case want == nil:
			t.Class("must-panic")
			t.Check(panicked, key+"/nopanic", "%s did not panic (allowed types: %v)", desc, allowed)
		case unimpl && panicked:
			t.Class("infinite operand without T refused")
		case panicked:
			t.Failf(key+"/panic", "%s panicked", desc)
		default:
			t.Classf("%s %s", zk.name, op.name)
			if want.inf() {
				t.Class("result-infinite")
			}
			if x.p.inf() || y.p.inf() {
				t.Class("operand-infinite")
			}
			t.isPt(key, z, want, "%s", desc)
		}
		for _, o := range ops {
			t.isOperand(key+"/operand", o, "operand after %s", desc)
		}
		if t.Index < 3 {
			t.Sample("%s", desc)
		}
	})
	for i := range ptKinds {
		for _, o := range []string{"Add", "Sub", "Neg", "Double", "Endo", "SetFrom", "AddEq", "SubEq"} {
			c.Need("operations/"+ptKinds[i].name+" "+o, 50)
		}
	}
	c.Need("operations/must-panic", 100)
	c.Need("operations/result-infinite", 20)
	c.Need("operations/operand-infinite", 100)

	// comparing library points with points of foreign types
	c.Run("comparisons", 30000, func(t *T) {
		r := t.R
		px := genRP(r)
		x := mkOperand(r, 12+r.Intn(6), px)
		py := x.p
		if r.Intn(3) != 0 {
			py = genRelatedRP(r, x.p)
		}
		y := mkOperand(r, r.Intn(12), py)
		want := x.p.eq(y.p)
		key := "IsEqual/" + x.name + "/" + y.name
		t.EvalH(x.p.h(), y.p.h(), hashStr(key))
		t.Classf("%s %v", x.name, want)
		got := x.pt.IsEqual(y.pt)
		t.Check(got == want, key, "(%v).IsEqual(%v) = %v", x, y, got)
		t.isPt(key+"/receiver", x.pt, x.p, "receiver after comparing with %s", y.name)
		t.isOperand(key+"/operand", y, "operand after comparing with %s", x.name)
	})
	for i := range ptKinds {
		c.Need("comparisons/"+ptKinds[i].name+" true", 100)
		c.Need("comparisons/"+ptKinds[i].name+" false", 100)
	}

	// SetFromSubgroupPoint, trusted or not
	c.Run("subgroup conversions", 8000, func(t *T) {
		r := t.R
		zk := &ptKinds[r.Intn(6)]
		zp := genSub(r)
		z := ptMake(r, zk, zp)
		tr := common.UntrustedInput
		px := genRP(r)
		if r.Intn(3) == 0 {
			tr = common.TrustedInput
			px = genSub(r)
		}
		x := mkOperand(r, r.Intn(12), px)
		key := "SetFromSubgroupPoint/" + zk.name + "/" + x.name
		t.EvalH(x.p.h(), zp.h(), hashStr(key))
		ok := z.SetFromSubgroupPoint(x.pt, tr)
		t.Classf("trusted %v accepted %v", tr.Bool(), ok)
		t.Check(ok == x.p.sub(), key, "%s.SetFromSubgroupPoint(%v, trusted %v) = %v", zk.name, x, tr.Bool(), ok)
		want := zp
		if ok {
			want = x.p
		}
		t.isPt(key+"/receiver", z, want, "receiver after SetFromSubgroupPoint of %v = %v", x, ok)
		t.isOperand(key+"/operand", x, "operand after SetFromSubgroupPoint")
	})
	c.Need("subgroup conversions/trusted false accepted false", 50)
	c.Need("subgroup conversions/trusted false accepted true", 100)
	c.Need("subgroup conversions/trusted true accepted true", 100)

	// invalid points of foreign types
	c.RunSeq("invalid operands", 400, func(t *T) {
		r := t.R
		calls := 0
		old := cp.SetNaPErrorHandler(func(s string, cmp bool, pts ...cp.CurvePointPtrInterfaceBaseRead) bool { calls++; return false })
		defer cp.SetNaPErrorHandler(old)
		for i := 0; i < 12; i++ {
			zk := &ptKinds[r.Intn(6)]
			zp := genSub(r)
			z := ptMake(r, zk, zp)
			op := &gops[i]
			if op.n == 0 {
				op = &gops[r.Intn(2)]
			}
			kind := func() int {
				if zk.sub {
					return []int{2, 5, 7, 9, 11}[r.Intn(5)]
				}
				return r.Intn(12)
			}
			x := nilOperand(r, kind())
			y := x
			if op.n == 2 && r.Intn(3) > 0 {
				y = mkOperand(r, 12+kind()%6, genRP(r))
				if r.Intn(2) == 0 {
					x, y = y, x
				}
			}
			key := fmt.Sprintf("nap/%s.%s(%s,%s)", zk.name, op.name, x.name, y.name)
			t.EvalH(hashStr(key), uint64(t.Index))
			_, panicked := PanicVal(func() { op.do(z, x.pt, y.pt) })
			if panicked {
				t.Class("refused")
				continue
			}
			t.Class("performed")
			t.Check(z.IsNaP(), key, "%s with an invalid operand gives the valid point %v", key, z)
		}
		// comparing: the handler is told, the answer is the handler's
		x := mkOperand(r, 12+r.Intn(6), genRP(r))
		y := nilOperand(r, r.Intn(12))
		calls = 0
		got := x.pt.IsEqual(y.pt)
		t.Check(!got && calls > 0, "nap/IsEqual/"+x.name+"/"+y.name, "(%v).IsEqual(invalid %s) = %v with %d calls of the handler", x, y.name, got, calls)
		t.isPt("nap/IsEqual/changed/"+x.name, x.pt, x.p, "receiver after comparing with an invalid point")
	})
	c.Need("invalid operands/performed", 100)
}
