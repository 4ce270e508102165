package main

import (
	"fmt"

	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
)

func init() {
	register("C01", 10, runC01)
}

type pvar struct {
	k  *ptKind
	pt PT
	p  *rp
}

func (v *pvar) String() string { return fmt.Sprintf("%s %v", v.k.name, v.p) }

// doOp performs op on receiver and operands and tells the expected outcome:
// want nil means the operation must panic.
type gop struct {
	name string
	n    int // operands
	eq   bool
	do   func(z PT, x, y PT)
	ref  func(z, x, y *rp) *rp
	any  bool // permitted for all operand types
}

var gops = []gop{
	{"Add", 2, false, func(z, x, y PT) { z.Add(x, y) }, func(z, x, y *rp) *rp { return rpAdd(x, y) }, false},
	{"Sub", 2, false, func(z, x, y PT) { z.Sub(x, y) }, func(z, x, y *rp) *rp { return rpSub(x, y) }, false},
	{"Double", 1, false, func(z, x, y PT) { z.Double(x) }, func(z, x, y *rp) *rp { return rpAdd(x, x) }, true},
	{"Neg", 1, false, func(z, x, y PT) { z.Neg(x) }, func(z, x, y *rp) *rp { return rpNeg(x) }, false},
	{"SetFrom", 1, false, func(z, x, y PT) { z.SetFrom(x) }, func(z, x, y *rp) *rp { return x }, false},
	{"AddEq", 1, true, func(z, x, y PT) { z.AddEq(x) }, func(z, x, y *rp) *rp { return rpAdd(z, x) }, false},
	{"SubEq", 1, true, func(z, x, y PT) { z.SubEq(x) }, func(z, x, y *rp) *rp { return rpSub(z, x) }, false},
	{"DoubleEq", 0, true, func(z, x, y PT) { z.DoubleEq() }, func(z, x, y *rp) *rp { return rpAdd(z, z) }, false},
	{"NegEq", 0, true, func(z, x, y PT) { z.NegEq() }, func(z, x, y *rp) *rp { return rpNeg(z) }, false},
	{"SetNeutral", 0, false, func(z, x, y PT) { z.SetNeutral() }, func(z, x, y *rp) *rp { return rpN }, false},
	{"Endo", 1, false, func(z, x, y PT) { z.Endo(x) }, func(z, x, y *rp) *rp { return rpEndo(x) }, false},
	{"EndoEq", 0, true, func(z, x, y PT) { z.EndoEq() }, func(z, x, y *rp) *rp { return rpEndo(z) }, false},
}

// applyOp runs op and checks outcome; vars are the receiver and operands (may coincide).
func (t *T) applyOp(op *gop, z *pvar, x, y *pvar, reinit func(v *pvar)) bool {
	allowed := true
	args := ""
	ops := []*pvar{}
	if op.n >= 1 {
		ops = append(ops, x)
		args = x.k.name
	}
	if op.n >= 2 {
		ops = append(ops, y)
		args += "," + y.k.name
	}
	for _, o := range ops {
		if z.k.sub && !o.k.sub && !op.any {
			allowed = false
		}
	}
	var want *rp
	var px, py *rp
	if x != nil {
		px = x.p
	}
	if y != nil {
		py = y.p
	}
	if allowed {
		want = op.ref(z.p, px, py)
		if !z.k.holds(want) {
			want = nil
		}
	}
	key := fmt.Sprintf("%s.%s(%s)", z.k.name, op.name, args)
	oldz := z.p
	_, panicked := PanicVal(func() {
		var xp, yp PT
		if x != nil {
			xp = x.pt
		}
		if y != nil {
			yp = y.pt
		}
		op.do(z.pt, xp, yp)
	})
	alias := ""
	if x == z && op.n >= 1 || y == z && op.n >= 2 {
		alias = " aliasing the receiver"
	} else if op.n == 2 && x == y {
		alias = " aliasing each other"
	}
	desc := fmt.Sprintf("%s%s with receiver %v", key, alias, oldz)
	for _, o := range ops {
		desc += fmt.Sprintf(", operand %v", o.p)
	}
	if !allowed {
		t.Class("forbidden-types")
		if !panicked {
			t.Failf(key+"/nopanic", "%s did not panic although the receiver can only hold subgroup points", desc)
			return false
		}
	} else if want == nil {
		t.Class("result-not-representable")
		if !panicked {
			t.Failf(key+"/nopanic", "%s did not panic although the result is at infinity", desc)
			return false
		}
	} else if panicked {
		v, _ := PanicVal(func() {})
		_ = v
		t.Failf(key+"/panic", "%s panicked", desc)
		return false
	} else {
		t.Class("ok-" + op.name)
		if want.inf() {
			t.Class("result-infinite")
		}
		z.p = want
		if !t.isPt(key, z.pt, want, desc) {
			return false
		}
	}
	// operands other than the receiver keep their value
	for _, o := range ops {
		if o != z {
			if !t.isPt(key+"/operand", o.pt, o.p, "operand after "+desc) {
				return false
			}
		}
	}
	if panicked {
		reinit(z)
	}
	return true
}

func runC01(c *Ctx) {
	if !needRef(c) {
		return
	}
	c.Rule("A case is an operation history over variables of all six point types, or one cell of the enumeration receiver type x operand types x special points x alias pattern; the oracle is the complete Bernstein-Lange group law over math/big.")
	c.Assume("math/big is correct; the reference law passes its self check (associativity, group order, torsion, eigenvalue)")
	groupHistory(c, "histories", 60000, 10)
	formulaGroups(c)
	c.Need("histories/forbidden-types", 100)
	c.Need("histories/result-not-representable", 10)
	c.Need("histories/result-infinite", 100)
	for _, o := range []string{"Add", "Sub", "Double", "Neg", "AddEq", "SubEq", "DoubleEq", "NegEq", "SetFrom"} {
		c.Need("histories/ok-"+o, 1000)
	}
	opMatrix(c, "type-matrix", []string{"Add", "Sub", "Double", "Neg", "SetFrom", "AddEq", "SubEq", "DoubleEq", "NegEq"})
	// long chains: one accumulator of each type, thousands of additions without rebuilding
	c.Run("chains", 200, func(t *T) {
		r := t.R
		k := &ptKinds[t.Index%6]
		acc := &pvar{k, nil, genSub(r)}
		acc.pt = ptMake(r, k, acc.p)
		var ops []*pvar
		for i := 0; i < 5; i++ {
			ok := &ptKinds[r.Intn(6)]
			if k.sub {
				ok = &ptKinds[1+2*r.Intn(3)]
			}
			p := genSub(r)
			ops = append(ops, &pvar{ok, ptMake(r, ok, p), p})
		}
		for i := 0; i < 400; i++ {
			o := ops[r.Intn(len(ops))]
			switch r.Intn(5) {
			case 0, 1:
				acc.pt.AddEq(o.pt)
				acc.p = rpAdd(acc.p, o.p)
			case 2:
				acc.pt.SubEq(o.pt)
				acc.p = rpSub(acc.p, o.p)
			case 3:
				acc.pt.DoubleEq()
				acc.p = rpAdd(acc.p, acc.p)
			case 4:
				acc.pt.NegEq()
				acc.p = rpNeg(acc.p)
			}
			if i%50 == 49 {
				t.EvalH(rhash(acc.p)...)
				if !t.isPt("chain/"+k.name, acc.pt, acc.p, "accumulator of type %s after %d operations", k.name, i+1) {
					return
				}
			}
		}
		t.Class("chain-" + k.name)
	})
	// exported constants are not changed by using them
	c.RunSeq("constants", 1, func(t *T) {
		g := cp.SubgroupGenerator_xtw_subgroup
		t.isPt("constants/generator", &g, rpG, "SubgroupGenerator")
	})
}

func groupHistory(c *Ctx, group string, n int, nops int) {
	c.Run(group, n, func(t *T) {
		r := t.R
		var vars []*pvar
		init1 := func(v *pvar) {
			if v.k.sub {
				v.p = genSub(r)
			} else {
				v.p = genRP(r)
				if len(vars) > 0 && r.Intn(2) == 0 {
					v.p = genRelatedRP(r, vars[r.Intn(len(vars))].p)
				}
				if !v.k.holds(v.p) {
					v.p = toSub(v.p)
				}
			}
			v.pt = ptMake(r, v.k, v.p)
		}
		subOnly := r.Intn(3) == 0
		for i := 0; i < 5; i++ {
			v := &pvar{k: &ptKinds[r.Intn(6)]}
			if subOnly {
				v.k = &ptKinds[1+2*r.Intn(3)]
			}
			init1(v)
			vars = append(vars, v)
			t.Note("var %d: %v", i, v)
		}
		for s := 0; s < 14; s++ {
			op := &gops[r.Intn(nops)]
			zi, xi, yi := r.Intn(5), r.Intn(5), r.Intn(5)
			if r.Intn(4) == 0 {
				xi = zi
			}
			if r.Intn(4) == 0 {
				yi = zi
			}
			if r.Intn(5) == 0 {
				yi = xi
			}
			z, x, y := vars[zi], vars[xi], vars[yi]
			if z.k.sub && (!x.k.sub || op.n == 2 && !y.k.sub) && op.n > 0 && !op.any && r.Intn(5) != 0 {
				continue // mostly avoid forbidden combinations
			}
			t.Note("step %d: v%d.%s(v%d,v%d)", s, zi, op.name, xi, yi)
			t.EvalH(append(rhash(z.p, x.p, y.p), hashStr(op.name, z.k.name, x.k.name, y.k.name))...)
			if !t.applyOp(op, z, x, y, init1) {
				return
			}
			if r.Intn(3) == 0 {
				ptShake(r, z.pt, z.p)
			}
		}
		for i, v := range vars {
			if !t.isPt("history/final", v.pt, v.p, "variable %d (%s) at the end of the history", i, v.k.name) {
				return
			}
		}
		if t.Index < 3 {
			t.Sample("%v", t.notes)
		}
	})
}

// opMatrix enumerates receiver type x operand types x special points x alias patterns.
func opMatrix(c *Ctx, group string, names []string) {
	poolOnce.Do(poolInit)
	var special []*rp
	special = append(special, pool[:20]...) // 0, -1, 1, -2, 2 on all cosets
	special = append(special, pool[15*4:15*4+4]...)
	type cell struct{ zk, xk, yk int }
	var cells []cell
	for z := range ptKinds {
		for x := range ptKinds {
			for y := range ptKinds {
				cells = append(cells, cell{z, x, y})
			}
		}
	}
	rounds := 1
	if c.scale > 1 {
		rounds = int(c.scale)
	}
	c.RunN(group, len(cells)*rounds, func(t *T) {
		r := t.R
		ce := cells[t.Index%len(cells)]
		zk, xk, yk := &ptKinds[ce.zk], &ptKinds[ce.xk], &ptKinds[ce.yk]
		for oi := range gops {
			op := &gops[oi]
			in := false
			for _, n := range names {
				in = in || n == op.name
			}
			if !in || (op.n < 2 && ce.yk != 0) || (op.n < 1 && ce.xk != 0) {
				continue
			}
			pick := func(k *ptKind, p *rp) *pvar {
				if !k.holds(p) {
					return nil
				}
				return &pvar{k, ptMake(r, k, p), p}
			}
			re := func(v *pvar) {}
			for _, px := range special {
				if op.n == 0 {
					z := pick(zk, px)
					if z == nil {
						continue
					}
					t.EvalH(px.h(), hashStr(op.name, zk.name))
					if !t.applyOp(op, z, z, z, re) {
						return
					}
					continue
				}
				x := pick(xk, px)
				if x == nil {
					continue
				}
				if op.n == 1 && !op.eq {
					z := pick(zk, genSub(r))
					t.EvalH(px.h(), hashStr(op.name, zk.name, xk.name))
					if !t.applyOp(op, z, x, x, re) {
						return
					}
					if ce.zk == ce.xk {
						if !t.applyOp(op, x, x, x, re) {
							return
						}
					}
					continue
				}
				for _, py := range special {
					if op.n == 2 && r.Intn(2) == 0 {
						continue // half of the pairs per round; thorough rounds fill in
					}
					x := pick(xk, px)
					if op.n == 1 { // AddEq, SubEq
						z := pick(zk, py)
						if z == nil {
							continue
						}
						t.EvalH(px.h(), py.h(), hashStr(op.name, zk.name, xk.name))
						if !t.applyOp(op, z, x, x, re) {
							return
						}
						continue
					}
					y := pick(yk, py)
					if y == nil {
						continue
					}
					z := pick(zk, genSub(r))
					t.EvalH(px.h(), py.h(), hashStr(op.name, zk.name, xk.name, yk.name))
					if !t.applyOp(op, z, x, y, re) {
						return
					}
					if ce.zk == ce.xk {
						x = pick(xk, px)
						if !t.applyOp(op, x, x, y, re) {
							return
						}
					}
					if ce.zk == ce.yk {
						y, x = pick(yk, py), pick(xk, px)
						if !t.applyOp(op, y, x, y, re) {
							return
						}
					}
					if ce.xk == ce.yk && px == py && ce.zk == ce.xk {
						x = pick(xk, px)
						if !t.applyOp(op, x, x, x, re) {
							return
						}
					}
				}
			}
		}
	})
}
