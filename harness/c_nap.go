package main

import (
	"fmt"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
)

func init() {
	register("C05", 12, runC05)
}

// a recording NaP handler
type napRec struct {
	answer bool
	panics interface{}
	calls  int
	cmp    int
	points int
}

func (n *napRec) handle(reason string, comparison bool, points ...cp.CurvePointPtrInterfaceBaseRead) bool {
	n.calls++
	if comparison {
		n.cmp++
	}
	n.points += len(points)
	if n.panics != nil {
		panic(n.panics)
	}
	return n.answer
}
func (n *napRec) reset() { n.calls, n.cmp, n.points = 0, 0, 0 }

// makeNaP builds an invalid point of the kind in one of the ways a program can get one.
func makeNaP(t *T, k *ptKind) PT {
	r := t.R
	p := k.mk()
	switch r.Intn(6) {
	case 0, 1: // uninitialized
	case 2, 3: // the library's own test samples of NaP representations
		cp.VerifNaP(p, r, r.Intn(12))
	case 4: // result of an operation with an uninitialized point
		k2 := k
		if !k.sub {
			k2 = &ptKinds[r.Intn(6)]
		} else {
			k2 = &ptKinds[1+2*r.Intn(3)]
		}
		q := ptMake(r, &ptKinds[1+2*r.Intn(3)], genSub(r))
		if r.Intn(2) == 0 {
			p.Add(k2.mk(), q)
		} else {
			p.Sub(q, k2.mk())
		}
	case 5:
		p.Double(ptKinds[r.Intn(6)].mk())
	}
	return p
}

func runC05(c *Ctx) {
	if !needRef(c) {
		return
	}
	c.Rule("A case is an operation with uninitialized or otherwise invalid operands at every operand position under one of the handlers (answering false, answering true, panicking); the recorded handler calls, the answers and the validity of the result are checked.")
	c.Assume("sampleNaP (the library's test helper) yields representations the library calls NaPs; zero values are the primary case")
	def := cp.GetNaPErrorHandler()
	rec := &napRec{}
	if h := cp.SetNaPErrorHandler(rec.handle); h == nil {
		c.inconcl = append(c.inconcl, "no NaP handler installed at start")
	}
	defer cp.SetNaPErrorHandler(def)

	// every operation x receiver type x operand types x position of NaPs
	type cell struct{ op, z, x, y, mask int }
	var cells []cell
	for oi := range gops {
		op := &gops[oi]
		if op.n == 0 && !op.eq {
			continue
		}
		for zi := range ptKinds {
			for xi := range ptKinds {
				for yi := range ptKinds {
					if op.n < 2 && yi > 0 || op.n < 1 && xi > 0 {
						continue
					}
					zk, xk, yk := &ptKinds[zi], &ptKinds[xi], &ptKinds[yi]
					if zk.sub && (op.n > 0 && !xk.sub || op.n > 1 && !yk.sub) && !op.any {
						continue
					}
					for mask := 1; mask < 8; mask++ {
						if op.n < 2 && mask&2 != 0 || op.n < 1 && mask&1 != 0 || !op.eq && mask&4 != 0 {
							continue
						}
						cells = append(cells, cell{oi, zi, xi, yi, mask})
					}
				}
			}
		}
	}
	rounds := 24
	if c.scale > 1 {
		rounds = int(24 * c.scale)
	}
	c.RunSeq("operations", len(cells)*rounds, func(t *T) {
		r := t.R
		ce := cells[t.Index%len(cells)]
		op := &gops[ce.op]
		zk, xk, yk := &ptKinds[ce.z], &ptKinds[ce.x], &ptKinds[ce.y]
		mk := func(k *ptKind, nap bool) PT {
			if nap {
				if t.Index < len(cells) {
					return k.mk()
				}
				return makeNaP(t, k)
			}
			p := genRP(r)
			if !k.holds(p) || r.Intn(3) == 0 {
				p = toSub(p)
			}
			return ptMake(r, k, p)
		}
		rec.answer, rec.panics = r.Intn(2) == 0, nil
		x, y, z := mk(xk, ce.mask&1 != 0), mk(yk, ce.mask&2 != 0), mk(zk, ce.mask&4 != 0)
		// alias patterns
		if op.n >= 1 && ce.z == ce.x && !op.eq && r.Intn(3) == 0 {
			z = x
		}
		if op.n == 2 && ce.x == ce.y && ce.mask&3 == 3 && r.Intn(3) == 0 {
			y = x
		}
		rec.reset()
		args := ""
		if op.n > 0 {
			args = xk.name
		}
		if op.n > 1 {
			args += "," + yk.name
		}
		key := fmt.Sprintf("%s.%s(%s)", zk.name, op.name, args)
		t.EvalH(uint64(t.Index%len(cells)), r.Uint64())
		t.Class(op.name)
		v, panicked := PanicVal(func() { op.do(z, x, y) })
		if panicked {
			t.Class("panicked")
			_ = v
			return // refusing is no silent conversion
		}
		isNaP := true
		if v, p := PanicVal(func() { isNaP = z.IsNaP() }); p {
			t.Failf(key+"/IsNaP", "IsNaP panics on the result of %s: %v", key, v)
			return
		}
		t.Check(isNaP, key, "%s with NaPs at positions %03b (yxz: 2 y, 1 x, 4 receiver) gave the valid point %v", key, ce.mask, ptCoordsSafe(z))
		if rec.calls > 0 {
			t.Class("reported")
		}
	})

	// comparisons
	c.RunSeq("comparisons", scaled(c, 30000), func(t *T) {
		r := t.R
		a, b := &ptKinds[t.Index%6], &ptKinds[t.Index/6%6]
		mode := r.Intn(3)
		rec.answer, rec.panics = mode == 1, nil
		if mode == 2 {
			rec.panics = fmt.Sprintf("nap %d", t.Index)
		}
		which := 1 + r.Intn(3)
		var x, y PT
		build := func(k *ptKind, nap bool) PT {
			if nap {
				save := *rec
				rec.panics = nil
				defer func() { *rec = save }()
				return makeNaP(t, k)
			}
			p := genRP(r)
			if !k.holds(p) || r.Intn(3) == 0 {
				p = toSub(p)
			}
			return ptMake(r, k, p)
		}
		x, y = build(a, which&1 != 0), build(b, which&2 != 0)
		if which == 3 && t.Index%6 == t.Index/6%6 && r.Intn(2) == 0 {
			y = x
		}
		rec.reset()
		neutral := r.Intn(4) == 0
		name := a.name + ".IsEqual(" + b.name + ")"
		if neutral {
			which = 1
			if !x.IsNaP() {
				x = a.mk()
			}
			name = a.name + ".IsNeutralElement"
		}
		if rec.calls != 0 {
			t.Failf("IsNaP/handler", "IsNaP called the handler")
			return
		}
		var got bool
		v, panicked := PanicVal(func() {
			if neutral {
				got = x.IsNeutralElement()
			} else {
				got = x.IsEqual(y)
			}
		})
		t.EvalH(uint64(t.Index%36), uint64(mode), uint64(which), hashStr(name), r.Uint64()%64)
		t.Classf("mode-%d", mode)
		if rec.calls == 0 || rec.cmp == 0 {
			t.Failf(name+"/report", "%s with NaP (mask %d) did not report a comparison to the handler", name, which)
			return
		}
		if mode == 2 {
			t.Check(panicked && v == rec.panics, name+"/panic", "%s: the handler panicked with %v, the caller saw %v", name, rec.panics, v)
			return
		}
		if panicked {
			t.Failf(name+"/panics", "%s with NaP panicked: %v", name, v)
			return
		}
		t.Check(got == rec.answer, name+"/answer", "%s with NaP (mask %d): handler says %v, result %v", name, which, rec.answer, got)
		for i, p := range []PT{x, y} {
			if which>>uint(i)&1 != 0 {
				t.Check(p.IsNaP(), name+"/valid", "the NaP operand is valid after %s", name)
			}
		}
	})
	c.Need("comparisons/mode-0", 1000)
	c.Need("comparisons/mode-1", 1000)
	c.Need("comparisons/mode-2", 1000)

	// predicates and conversions answering false under the default handler
	c.RunSeq("predicates", scaled(c, 24000), func(t *T) {
		r := t.R
		k := &ptKinds[t.Index%6]
		rec.answer, rec.panics = false, nil
		useDefault := r.Intn(4) == 0
		p := makeNaP(t, k)
		if useDefault {
			cp.SetNaPErrorHandler(def)
			defer cp.SetNaPErrorHandler(rec.handle)
		}
		rec.reset()
		t.Check(p.IsNaP(), "IsNaP/"+k.name, "a %s NaP is not recognized", k.name)
		t.Check(rec.calls == 0, "IsNaP/handler", "IsNaP called the handler")
		type q struct {
			name string
			f    func() bool
		}
		qs := []q{
			{"IsAtInfinity", func() bool { return p.IsAtInfinity() }},
			{"IsInSubgroup", func() bool { return p.IsInSubgroup() }},
			{"IsNeutralElement", func() bool { return p.IsNeutralElement() }},
		}
		if n, ok := p.(cp.NormalizerForZ); ok {
			qs = append(qs, q{"NormalizeForZ", n.NormalizeForZ})
		}
		if n, ok := p.(cp.NormalizerForY); ok {
			qs = append(qs, q{"NormalizeForY", n.NormalizeForY})
		}
		to := &ptKinds[r.Intn(6)]
		trust := common.UntrustedInput
		if r.Intn(2) == 0 {
			trust = common.TrustedInput
		}
		qs = append(qs, q{"SetFromSubgroupPoint", func() bool { return to.mk().SetFromSubgroupPoint(p, trust) }})
		if e, ok := p.(cp.CurvePointPtrInterfaceDistinguishInfinity); ok && k.inf {
			qs = append(qs, q{"IsE1", e.IsE1}, q{"IsE2", e.IsE2})
		}
		x := qs[r.Intn(len(qs))]
		rec.reset()
		got := true
		v, panicked := PanicVal(func() { got = x.f() })
		key := x.name + "/" + k.name
		t.EvalH(hashStr(key), r.Uint64()%256)
		t.Class(x.name)
		if panicked {
			t.Failf(key+"/panic", "%s of a %s NaP panicked: %v", x.name, k.name, v)
			return
		}
		t.Check(!got, key, "%s of a %s NaP (default handler: %v) = true", x.name, k.name, useDefault)
		t.Check(useDefault || rec.calls > 0, key+"/report", "%s of a %s NaP did not report to the handler", x.name, k.name)
		t.Check(p.IsNaP(), key+"/valid", "the NaP is a valid %s point after %s", k.name, x.name)
		// queries without an answer must not make it valid either
		PanicVal(func() { _ = fmt.Sprint(p) })
		PanicVal(func() { validatePt(p) })
		t.Check(p.Clone().IsNaP(), "Clone/NaP/"+k.name, "clone of a NaP is valid")
		t.MustPanic("Map/"+k.name, func() { cp.MapToFieldElement(p) }, "MapToFieldElement of a %s NaP", k.name)
		PanicVal(func() { p.XY_affine() })
		PanicVal(func() { p.XYZ_projective() })
		t.Check(p.IsNaP(), "queries/valid/"+k.name, "the NaP is a valid %s point after queries", k.name)
		if t.Index < 6 {
			t.Check(!validatePt(k.mk()), "Validate/NaP/"+k.name, "Validate of a zero-value %s is true", k.name)
		}
	})
	for _, n := range []string{"IsAtInfinity", "IsInSubgroup", "IsNeutralElement", "NormalizeForZ", "NormalizeForY", "SetFromSubgroupPoint", "IsE1", "IsE2"} {
		c.Need("predicates/"+n, 50)
	}

	// valid points never call the handler
	c.RunSeq("valid", scaled(c, 10000), func(t *T) {
		r := t.R
		v := &pvar{k: &ptKinds[t.Index%6]}
		v.p = genRP(r)
		if !v.k.holds(v.p) {
			v.p = toSub(v.p)
		}
		rec.panics = nil
		rec.reset()
		v.pt = ptMake(r, v.k, v.p)
		for i := 0; i < 6; i++ {
			q := &queries[r.Intn(len(queries))]
			q.do(t, v)
			t.EvalH(v.p.h(), hashStr(q.name, v.k.name))
			if rec.calls != 0 {
				t.Failf("spurious/"+q.name+"/"+v.k.name, "query %s of the valid point %v called the NaP handler", q.name, v)
				return
			}
		}
		if r.Intn(2) == 0 {
			k2 := &ptKinds[1+2*r.Intn(3)]
			o := ptMake(r, k2, genSub(r))
			w := v.pt.Clone()
			PanicVal(func() { w.AddEq(o); w.Sub(w, o); w.EndoEq(); w.IsEqual(o) })
			t.Check(rec.calls == 0, "spurious/arithmetic/"+v.k.name, "arithmetic with valid points called the NaP handler")
		}
	})

	// the handler itself
	c.RunSeq("handler", scaled(c, 300), func(t *T) {
		r := t.R
		n := 2 + r.Intn(4)
		recs := make([]*napRec, n)
		for i := range recs {
			recs[i] = &napRec{answer: r.Intn(2) == 0}
		}
		base := cp.GetNaPErrorHandler()
		cur := -1
		for s := 0; s < 12; s++ {
			i := r.Intn(n)
			old := cp.SetNaPErrorHandler(recs[i].handle)
			// the returned handler is the one that was installed
			if cur >= 0 {
				recs[cur].reset()
				a := old("probe", true)
				t.Check(recs[cur].calls == 1 && a == recs[cur].answer, "handler/old", "SetNaPErrorHandler did not return the handler installed before")
			}
			cur = i
			for _, q := range recs {
				q.reset()
			}
			g := cp.GetNaPErrorHandler()
			g("probe", true)
			t.Check(recs[cur].calls == 1, "handler/get", "GetNaPErrorHandler did not return the installed handler")
			k := &ptKinds[r.Intn(6)]
			got := k.mk().IsNeutralElement()
			t.Check(recs[cur].calls > 1 && got == recs[cur].answer, "handler/used", "a NaP was not reported to the installed handler")
			for j, q := range recs {
				if j != cur {
					t.Check(q.calls == 0, "handler/other", "a NaP was reported to a handler that is not installed")
				}
			}
			t.EvalH(uint64(i), uint64(s), r.Uint64())
			t.Class("switch")
		}
		cp.SetNaPErrorHandler(base)
	})
	// watching a piece of code for NaPs (internal, as far as the bridge fits)
	if cp.VerifWatch != nil {
		c.RunSeq("watch", scaled(c, 400), func(t *T) {
			r := t.R
			rec.reset()
			rec.answer, rec.panics = r.Intn(2) == 0, nil
			k := &ptKinds[r.Intn(6)]
			bad, boom := r.Intn(2) == 0, r.Intn(3) == 0
			var got, ans, inner bool
			_, panicked := PanicVal(func() {
				got = cp.VerifWatch(func() {
					p := k.mk()
					if r.Intn(2) == 0 { // watched pieces may be nested
						inner = cp.VerifWatch(func() { _ = ptMake(r, k, genSub(r)).IsNeutralElement() })
					}
					if bad {
						ans = p.IsNeutralElement()
					} else {
						p.SetFrom(ptMake(r, &ptKinds[1], genSub(r)))
						ans = p.IsNeutralElement()
					}
					if boom {
						panic("stop")
					}
				})
			})
			t.Classf("bad=%v panics=%v", bad, boom)
			t.EvalH(r.Uint64())
			t.Check(panicked == boom, "watch/panic", "panicked: %v", panicked)
			t.Check(!inner, "watch/inner", "reported a NaP where there is none")
			if !boom {
				t.Check(got == bad, "watch/result", "reported %v, NaPs: %v", got, bad)
			}
			if bad {
				t.Check(rec.calls == 1 && (boom || ans == rec.answer), "watch/handler", "the handler installed before was called %d times, answer %v", rec.calls, ans)
			}
			rec.reset()
			k.mk().IsNeutralElement()
			t.Check(rec.calls == 1, "watch/restored", "the handler installed before is not restored (panic: %v)", boom)
			if rec.calls != 1 {
				cp.SetNaPErrorHandler(rec.handle)
			}
		})
	}
	if cp.VerifPanicHandler != nil {
		c.RunSeq("panicking handler", scaled(c, 200), func(t *T) {
			h := cp.SetNaPErrorHandler(cp.VerifPanicHandler)
			k := &ptKinds[t.Index%6]
			p := k.mk()
			v, panicked := PanicVal(func() {
				if t.Index/6%2 == 0 {
					p.IsNeutralElement()
				} else {
					p.Neg(k.mk())
				}
			})
			cp.SetNaPErrorHandler(h)
			t.EvalH(uint64(t.Index % 12))
			s, _ := v.(string)
			t.Check(!panicked || s != "", "panicking handler", "panicked with %v", v)
			if t.Index/6%2 == 0 {
				t.Check(panicked, "panicking handler", "IsNeutralElement of a NaP does not panic with the panicking handler")
			}
		})
	}
	// a handler may use the library itself, e.g. look at the points it is given
	// (which may be NaPs) and hand on to the handler installed before it
	c.RunSeq("nested", scaled(c, 600), func(t *T) {
		r := t.R
		k, k2 := &ptKinds[r.Intn(6)], &ptKinds[r.Intn(6)]
		depth, limit := 0, 1+r.Intn(3)
		answer := r.Intn(2) == 0
		mode := t.Index % 4
		rec.reset()
		rec.answer, rec.panics = answer, nil
		var before cp.NaPErrorHandler
		var mine func(reason string, comparison bool, points ...cp.CurvePointPtrInterfaceBaseRead) bool
		mine = func(reason string, comparison bool, points ...cp.CurvePointPtrInterfaceBaseRead) bool {
			depth++
			if depth > limit {
				return before(reason, comparison, points...)
			}
			switch mode {
			case 0: // replaces itself
				h := cp.SetNaPErrorHandler(before)
				defer cp.SetNaPErrorHandler(h)
			case 1: // works with another NaP
				p := makeNaP(t, k2)
				t.Check(p.IsNeutralElement() == answer, "nested/answer", "the answer for a NaP met inside the handler is lost")
			case 2: // looks at the points
				for _, p := range points {
					if p, ok := p.(PT); ok {
						_ = p.IsNaP()
						PanicVal(func() { _ = fmt.Sprint(p) })
					}
				}
			case 3:
				g := cp.GetNaPErrorHandler()
				if depth < 20 {
					return g(reason, comparison, points...)
				}
			}
			return before(reason, comparison, points...)
		}
		before = cp.SetNaPErrorHandler(mine)
		p := k.mk()
		var got bool
		if r.Intn(2) == 0 {
			q := &ptKinds[1+2*r.Intn(3)]
			got = p.IsEqual(ptMake(r, q, genSub(r)))
		} else {
			got = p.IsNeutralElement()
		}
		cp.SetNaPErrorHandler(before)
		t.EvalH(uint64(mode), uint64(limit), hashStr(k.name, k2.name))
		t.Classf("mode-%d", mode)
		t.Check(got == answer && rec.calls > 0, "nested/result", "comparison of a %s NaP under a handler which itself uses the library: %v, want %v (calls of the inner handler: %d)", k.name, got, answer, rec.calls)
	})
	for i := 0; i < 4; i++ {
		c.Need(fmt.Sprintf("nested/mode-%d", i), 50)
	}
	c.RunSeq("default", 1, func(t *T) {
		t.Eval("default")
		old := cp.SetNaPErrorHandler(def)
		for i := range ptKinds {
			k := &ptKinds[i]
			t.Check(!k.mk().IsEqual(k.mk()) && !k.mk().IsNeutralElement(), "default/"+k.name, "NaPs compare true under the default handler")
			t.Class("default")
		}
		cp.SetNaPErrorHandler(old)
	})
}

func ptCoordsSafe(p PT) (s string) {
	s = "?"
	PanicVal(func() { s = fmt.Sprint(ptCoords(p)) })
	return
}
