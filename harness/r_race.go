package main

// M01: concurrent uses that the documentation permits, under the race detector.
//
// The goroutines of a case share nothing but the object under test: they start
// together, write their results to memory of their own, and take time stamps (which
// order nothing for the race detector). Results are compared after all have ended.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	ex "github.com/GottfriedHerold/Bandersnatch/bandersnatch/exponents"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
)

func init() { register("M01", 12, runM01) }

// racer is what a goroutine of a case has of its own.
type racer struct {
	b     strings.Builder
	r     *rand.Rand // drives what it does; equal seeds give equal programs
	yield *rand.Rand // schedule perturbation only; nil in sequential runs
	at    [][2]int64 // start and end of each step
	zero  time.Time
	ev    []interface{}
}

func (g *racer) now() int64 { return int64(time.Since(g.zero)) }

// step runs one operation.
func (g *racer) step(f func()) (start, end int64) {
	if g.yield != nil {
		switch g.yield.Intn(6) {
		case 0:
			runtime.Gosched()
		case 1:
			for i := g.yield.Intn(200); i > 0; i-- {
				_ = g.yield
			}
		}
		start = g.now()
	}
	f()
	if g.yield != nil {
		end = g.now()
		g.at = append(g.at, [2]int64{start, end})
	}
	return
}
func (g *racer) say(f string, a ...interface{}) { fmt.Fprintf(&g.b, f, a...); g.b.WriteByte(' ') }
func (g *racer) fe(n string, x *FE)             { g.say("%s=%x", n, feVal(x)) }
func (g *racer) try(n string, f func()) {
	if v, p := PanicVal(f); p {
		g.say("%s panics: %v", n, v)
	}
}

// together runs n goroutines and measures how they interleaved.
func (t *T) together(n int, prog func(id int, g *racer)) []*racer {
	gs := make([]*racer, n)
	zero := time.Now()
	seed := t.R.Uint64()
	for i := range gs {
		gs[i] = &racer{zero: zero, yield: newRand(seed + uint64(i))}
	}
	var ready int32
	var wg sync.WaitGroup
	wg.Add(n)
	panics := make([]string, n)
	for i := range gs {
		go func(i int) {
			defer wg.Done()
			g := gs[i]
			atomic.AddInt32(&ready, 1)
			for atomic.LoadInt32(&ready) < int32(n) {
				runtime.Gosched()
			}
			if v, p := PanicVal(func() { prog(i, g) }); p {
				panics[i] = fmt.Sprint(v)
			}
		}(i)
	}
	wg.Wait()
	type ev struct {
		at int64
		g  int
	}
	var evs []ev
	overlap, steps := int64(0), int64(0)
	for i, g := range gs {
		if panics[i] != "" {
			t.Failf("panic in goroutine", "goroutine %d panicked: %s", i, panics[i])
		}
		for _, a := range g.at {
			evs = append(evs, ev{a[0], i})
			steps++
			for j := 0; j < i; j++ {
				l := gs[j].at
				// first step of j that ends after this one starts
				k := sort.Search(len(l), func(k int) bool { return l[k][1] > a[0] })
				for ; k < len(l) && l[k][0] < a[1]; k++ {
					overlap++
				}
			}
		}
	}
	sort.Slice(evs, func(a, b int) bool { return evs[a].at < evs[b].at })
	h := []uint64{uint64(t.Index)}
	switches := int64(0)
	for i, e := range evs {
		h = append(h, uint64(e.g))
		if i > 0 && e.g != evs[i-1].g {
			switches++
		}
	}
	t.EvalH(h...)
	t.classes[t.Group+"/steps"] += steps
	t.classes[t.Group+"/overlapping pairs of steps"] += overlap
	t.classes[t.Group+"/switches"] += switches
	return gs
}

// shared runs the same kind of program in several goroutines on shared and compares
// with runs one after another on private.
func (t *T) shared(key string, n int, prog func(id int, g *racer, private bool)) {
	seed := t.R.Uint64()
	par := t.together(n, func(id int, g *racer) {
		g.r = newRand(seed + uint64(id))
		prog(id, g, false)
	})
	for id, p := range par {
		g := &racer{r: newRand(seed + uint64(id))}
		prog(id, g, true)
		if p.b.String() != g.b.String() {
			t.Failf(key, "goroutine %d got\n  %s\nand alone\n  %s", id, firstDiff(p.b.String(), g.b.String()), firstDiff(g.b.String(), p.b.String()))
		}
	}
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	hi := i + 160
	if hi > len(a) {
		hi = len(a)
	}
	return fmt.Sprintf("[%d] ...%s", i, a[lo:hi])
}

// --- field elements ------------------------------------------------------------

// raceFE builds a normalized field element, preferring those whose words look like
// the modulus' words.
func raceFE(r *rand.Rand) (x FE) {
	switch {
	case feRaw && r.Intn(3) == 0: // same top words as p
		w := bsub(bP, badd(bOne, bmod(gen256(r), new(big.Int).Lsh(bOne, uint([]int{32, 64, 128, 190}[r.Intn(4)])))))
		feSetWords(&x, w)
	case feRaw && r.Intn(3) == 0: // small words
		feSetWords(&x, bmod(gen256(r), new(big.Int).Lsh(bOne, uint([]int{8, 64, 128, 192}[r.Intn(4)]))))
	case r.Intn(6) == 0:
		x.SetInt64(int64(r.Intn(7) - 3))
	default:
		x, _ = genFE(r)
	}
	x.Normalize()
	return
}

// fieldProg uses the shared elements as operands and observes them.
func fieldProg(g *racer, sh []*FE, u []*U256) {
	r := g.r
	var own [4]FE
	for i := range own {
		own[i], _ = genFE(r)
	}
	S := func() *FE { return sh[r.Intn(len(sh))] }
	A := func() *FE { // any operand
		if r.Intn(4) == 0 {
			return &own[r.Intn(4)]
		}
		return S()
	}
	for k := 0; k < 30; k++ {
		x, y, s := A(), S(), S()
		z := &own[r.Intn(4)]
		op := r.Intn(44)
		e, yy := endis[r.Intn(2)], r.Uint64()
		g.say("%d:", op)
		g.step(func() {
			switch op {
			case 0:
				z.Add(x, y)
			case 1:
				z.Sub(x, y)
			case 2:
				z.Mul(x, y)
			case 3:
				z.Square(y)
			case 4:
				z.Neg(y)
			case 5:
				z.Double(y)
			case 6:
				z.MulFive(y)
			case 7:
				g.try("inv", func() { z.Inv(y) })
			case 8:
				g.try("div", func() { z.Divide(x, y) })
			case 9:
				z.AddEq(y)
			case 10:
				z.SubEq(y)
			case 11:
				z.MulEq(y)
			case 12:
				g.try("diveq", func() { z.DivideEq(y) })
			case 13:
				g.say("jac=%d", y.Jacobi())
			case 14:
				g.say("sign=%d", y.Sign())
			case 15, 16:
				g.say("zero=%v one=%v", y.IsZero(), y.IsOne())
			case 17, 18, 19, 20:
				g.say("eq=%v %v", s.IsEqual(y), y.IsEqual(s))
			case 21, 22:
				a, b := s.CmpAbs(y)
				g.say("abs=%v %v", a, b)
			case 23, 24:
				var q FE
				ok := q.SquareRoot(y)
				g.say("root=%v", ok)
				if ok {
					g.say("sgn=%d", q.Sign()*0)
					q.SquareEq()
					g.fe("q2", &q)
				}
			case 25:
				g.say("str=%s", y.String())
			case 26:
				g.say("fmt=%x", y)
			case 27:
				g.say("big=%x", y.ToBigInt())
			case 28:
				v, err := y.ToUint64()
				g.say("u64=%d %v", v, err != nil)
			case 29:
				v, err := y.ToInt64()
				g.say("i64=%d %v", v, err != nil)
			case 30:
				var w U256
				y.ToUint256(&w)
				g.say("w=%x", w.ToBigInt())
			case 31, 32:
				var buf bytes.Buffer
				n, err := y.Serialize(&buf, e.e)
				g.say("ser=%d %x %v", n, buf.Bytes(), err)
			case 33:
				var buf bytes.Buffer
				h, _, _ := genHeader(r)
				n, err := y.SerializeWithPrefix(&buf, h, e.e)
				g.say("pser=%d %x %v", n, buf.Bytes(), err != nil)
			case 34:
				b := make([]byte, y.BytesLength())
				y.ToBytes(b)
				g.say("raw=%x", b)
			case 35:
				z.AddInt64(y, int64(yy))
			case 36:
				z.SubUint64(y, yy)
			case 37:
				z.MulInt64(y, int64(yy))
			case 38:
				z.DivideUint64(y, yy|1)
			case 39:
				z.Exp(y, u[r.Intn(len(u))])
			case 40: // batch inversion of copies
				l := []FE{*s, *y, own[0], *x}
				idx := fe.MultiInvertEqSliceSkipZeros(l)
				g.say("zeros=%v", idx)
				for i := range l {
					g.fe("l", &l[i])
				}
			case 41: // a failing batch inversion reports data about the elements
				l := []FE{*s, {}, *y}
				err := fe.MultiInvertEqSlice(l)
				g.say("err=%v", err)
			case 42:
				g.say("copy=%v", raceCopy(s) == raceCopy(y))
			case 43:
				g.say("u=%v %v %s", fe.IsEqualAsUint256(y, s), u[0].IsLessThan(u[1]), u[0].String())
			}
		})
		g.fe("z", z)
	}
}

func runRaceFields(c *Ctx) {
	c.Run("field elements", 450, func(t *T) {
		r := t.R
		n := 10
		sh, pr := make([]*FE, n), make([]*FE, n)
		raw := make([]string, n)
		for i := range sh {
			x := raceFE(r)
			if i == 1 && feRaw { // with the same top word as the modulus and without any
				feSetWords(&x, bsub(bP, badd(bOne, bmod(gen256(r), new(big.Int).Lsh(bOne, 64)))))
				x.Normalize()
			}
			y := x
			sh[i], pr[i] = &x, &y
			raw[i] = feRawBytes(&x)
		}
		// exported constants are shared by everybody
		sh = append(sh, &fe.FieldElementOne, &fe.FieldElementZero, &fe.FieldElementMinusOne, &fe.FieldElementTwo)
		for _, x := range []*FE{&fe.FieldElementOne, &fe.FieldElementZero, &fe.FieldElementMinusOne, &fe.FieldElementTwo} {
			y := *x
			pr = append(pr, &y)
		}
		us, up := []*U256{}, []*U256{}
		for i := 0; i < 3; i++ {
			a := fe.BigIntToUInt256(gen256(r))
			b := a
			us, up = append(us, &a), append(up, &b)
		}
		t.Note("shared: %v", sh)
		t.Sample("shared: %v", sh[:4])
		t.shared("field/result", 8, func(id int, g *racer, private bool) {
			if private {
				fieldProg(g, pr, up)
			} else {
				fieldProg(g, sh, us)
			}
		})
		for i := 0; i < n; i++ {
			t.Check(feRawBytes(sh[i]) == raw[i], "field/changed", "shared normalized element %v has another representation after being read", sh[i])
		}
	})
	c.Need("field elements/overlapping pairs of steps", 1000)
}

func raceCopy(x *FE) string { y := *x; return feRawBytes(&y) }

// --- curve points --------------------------------------------------------------

func curveProg(g *racer) {
	r := g.r
	var v [4]PT
	show := func(i int) {
		cs := ptCoords(v[i])
		if cs.Z.Sign() == 0 {
			g.say("p=%x:%x:%x:0", cs.X, cs.Y, cs.T)
			return
		}
		x, y := v[i].Clone().XY_affine()
		g.say("p=%x,%x", feVal(&x), feVal(&y))
	}
	fresh := func(i int) {
		switch r.Intn(8) {
		case 0:
			p := cp.SubgroupGenerator_xtw_subgroup
			v[i] = &p
		case 1:
			p := cp.NeutralElement_axtw_subgroup
			v[i] = &p
		case 2:
			p := cp.NeutralElement_efgh_subgroup
			v[i] = &p
		case 3:
			p := cp.NeutralElement_xtw_subgroup
			v[i] = &p
		case 4:
			p := cp.MakeRandomPointUnsafe_xtw_subgroup(r)
			v[i] = &p
		default:
			k := &ptKinds[r.Intn(6)]
			v[i] = ptMake(r, k, genSub(r))
		}
	}
	for i := range v {
		fresh(i)
	}
	for k := 0; k < 14; k++ {
		i, j, l := r.Intn(4), r.Intn(4), r.Intn(4)
		op := r.Intn(16)
		g.say("%d:", op)
		g.step(func() {
			switch op {
			case 0, 1, 2:
				z := []PT{new(cp.Point_xtw_subgroup), new(cp.Point_axtw_subgroup), new(cp.Point_efgh_subgroup)}[r.Intn(3)]
				z.Add(subOf(v[i]), subOf(v[j]))
				v[l] = z
			case 3:
				z := ptKinds[[]int{0, 2, 4}[r.Intn(3)]].mk()
				z.Sub(v[i], v[j])
				v[l] = z
			case 4:
				v[i].DoubleEq()
			case 5:
				v[i].NegEq()
			case 6:
				v[i].EndoEq()
			case 7:
				g.say("eq=%v", v[i].IsEqual(v[j]))
			case 8:
				g.say("sub=%v neutral=%v", v[i].IsInSubgroup(), v[i].IsNeutralElement())
			case 9:
				g.say("str=%v", len(v[i].String()) > 0)
			case 10, 11: // constructors
				x, y := v[i].Clone().XY_affine()
				q, err := cp.CurvePointFromXYAffine_full(&x, &y, common.UntrustedInput)
				g.say("%v %v", err == nil, err == nil && q.IsEqual(v[i]))
				y.AddEq(&fe.FieldElementOne)
				_, err = cp.CurvePointFromXYAffine_subgroup(&x, &y, common.UntrustedInput)
				g.say("%v", err != nil)
			case 12:
				x, _ := v[i].Clone().XY_affine()
				q, err := cp.CurvePointFromXAndSignY_full(&x, 1, common.UntrustedInput)
				g.say("%v", err)
				v[l] = &q
			case 13: // batch normalization
				s := make([]cp.Point_xtw_full, 4)
				for m := range s {
					s[m].SetFrom(v[m])
				}
				idx := cp.CurvePointSlice_xtw_full(s).BatchNormalizeForZ()
				g.say("idx=%v", idx)
				v[l] = &s[j]
			case 14: // an uninitialized point: the handler is consulted
				var nap cp.Point_axtw_full
				g.say("nap=%v %v", nap.IsEqual(v[i]), nap.IsNaP())
			case 15:
				x := cp.MapToFieldElement(v[i].Clone())
				g.say("map=%x", feVal(&x))
			}
		})
		show(i)
		show(l)
	}
}

// subOf makes a point of a subgroup type with the same value as pt, or with value 0.
func subOf(pt PT) PT {
	var q cp.Point_xtw_subgroup
	if !q.SetFromSubgroupPoint(pt, common.UntrustedInput) {
		q.SetNeutral()
	}
	return &q
}

func runRaceCurve(c *Ctx) {
	c.Run("curve points", 130, func(t *T) {
		t.Sample("independent points in 8 goroutines")
		t.shared("curve/result", 8, func(id int, g *racer, private bool) { curveProg(g) })
	})
	c.Need("curve points/overlapping pairs of steps", 500)
}

// --- serializers ---------------------------------------------------------------

func serProg(g *racer, in *sInst, seed uint64) {
	r := g.r
	for k := 0; k < 5; k++ {
		f := in.f
		ser, des := in.ser, in.des[r.Intn(len(in.des))].d
		if r.Intn(3) == 0 { // a serializer of its own, derived from the shared one
			s := genSetting(r, &f, "")
			g.step(func() {
				ser = s.derive(r, ser)
				if r.Intn(2) == 0 {
					ser = ser.Clone()
				}
				des = ser.AsDeserializer()
			})
			s.apply(&f)
		}
		g.step(func() {
			g.say("len=%d par=%v", ser.OutputLength(), len(ser.(interface{ RecognizedParameters() []string }).RecognizedParameters()))
			for _, p := range f.params() {
				g.say("%v", ser.GetParameter(p))
			}
		})
		n := 1 + r.Intn(3)
		pts := make([]cp.Point_xtw_subgroup, n)
		for i := range pts {
			p := genFitting(r, &f, true)
			x, y := feFrom(r, p.x), feFrom(r, p.y)
			q, err := cp.CurvePointFromXYAffine_subgroup(&x, &y, common.UntrustedInput)
			if err != nil {
				panic(err)
			}
			pts[i].SetFrom(&q)
		}
		var buf bytes.Buffer
		g.step(func() {
			w, err := ser.SerializeCurvePoint(&buf, &pts[0])
			g.say("single %d %x %v", w, buf.Bytes(), err)
		})
		single := append([]byte(nil), buf.Bytes()...)
		if r.Intn(3) == 0 && len(single) > 0 {
			single[r.Intn(len(single))] ^= byte(1 << uint(r.Intn(8)))
		}
		if r.Intn(5) == 0 {
			single = single[:r.Intn(len(single)+1)]
		}
		g.step(func() {
			var q cp.Point_xtw_full
			rd, err := des.DeserializeCurvePoint(bytes.NewReader(single), common.UntrustedInput, &q)
			g.say("back %d %v", rd, err)
			if err == nil {
				x, y := q.XY_affine()
				g.say("%x,%x", feVal(&x), feVal(&y))
			}
		})
		if r.Intn(2) == 0 {
			var b2 bytes.Buffer
			g.step(func() {
				w, err := ser.(interface {
					SerializeSlice(io.Writer, cp.CurvePointSlice) (int, ps.BatchSerializationError)
				}).SerializeSlice(&b2, cp.CurvePointSlice_xtw_subgroup(pts))
				g.say("slice %d %x %v", w, b2.Bytes(), err)
			})
			g.step(func() {
				out, rd, err := des.DeserializeSlice(&b2, common.UntrustedInput, ps.CreateNewSlice[cp.Point_axtw_subgroup, *cp.Point_axtw_subgroup])
				g.say("slice back %d %v", rd, err)
				if l, ok := out.([]cp.Point_axtw_subgroup); ok {
					for i := range l {
						x, y := l[i].XY_affine()
						g.say("%x,%x", feVal(&x), feVal(&y))
					}
				}
			})
		}
	}
}

func runRaceSer(c *Ctx) {
	c.Run("serializers", 220, func(t *T) {
		seed := t.R.Uint64()
		base := sBases[t.Index%2]
		in := genInst(newRand(seed), base)
		alone := genInst(newRand(seed), base)
		t.Note("shared serializer %v (set by%s)", in, in.steps)
		t.Sample("shared serializer %v", in)
		t.shared("serializer/result", 8, func(id int, g *racer, private bool) {
			if private {
				serProg(g, alone, seed)
			} else {
				serProg(g, in, seed)
			}
		})
	})
	c.Need("serializers/overlapping pairs of steps", 300)
}

// --- errors with data ----------------------------------------------------------

// pool makes a family of errors; none of them has been printed or validated yet,
// except where another error made from it needed that.
func racePool(t *T, seed uint64) *eWorld {
	u := &T{c: t.c, Group: t.Group, Index: t.Index, classes: map[string]int64{}, R: newRand(seed)}
	w := &eWorld{t: u, flavours: 3}
	for i := 0; i < 3; i++ {
		tower(u, w, []int{0, 0, 1, 2}[u.R.Intn(4)])
	}
	// typed errors and boxes on top
	var typed []*em
	for i := 0; i < 3; i++ {
		b := w.pool[u.R.Intn(len(w.pool))]
		o := eStructs[u.R.Intn(len(eStructs))]
		vals := o.gen(u.R)
		e := ours(b, "", nil, o)
		if _, p := PanicVal(func() {
			err, _ := o.newStruct(b.error(), e.fmtStr, vals)
			e.err = err
		}); p || e.err == nil {
			continue
		}
		e.params, _ = eMerge(b.unboxed().data(), vals, mReplace)
		typed = append(typed, e)
	}
	w.pool = append(w.pool, typed...)
	t.failed = append(t.failed, u.failed...)
	return w
}

func errProg(g *racer, pool []*em) {
	r := g.r
	val := func(v interface{}) string { // pointers differ between the two runs
		s := fmt.Sprintf("%T", v)
		if v != nil {
			switch v.(type) {
			case int, string, bool, float64, namedInt, MyInt:
				s += fmt.Sprint(v)
			}
		}
		return s
	}
	for k := 0; k < 16; k++ {
		e := pool[len(pool)-1-r.Intn(len(pool))]
		o := eStructs[r.Intn(len(eStructs))]
		name := eNames[r.Intn(len(eNames))]
		passed := pmap{}
		for i := r.Intn(3); i > 0; i-- {
			passed[eNames[r.Intn(len(eNames))]] = r.Intn(100)
		}
		op := r.Intn(17)
		a, isAny := e.err.(ewd.ErrorWithData_any)
		g.say("%d:", op)
		msg := func(s string) { g.say("%q", hideAddresses(s)) }
		g.step(func() {
			switch op {
			case 0, 1, 2, 3:
				msg(e.err.Error())
			case 4:
				if isAny {
					msg(a.Error_interpolate(passed))
				}
			case 5:
				if isAny {
					g.say("%v", a.ValidateError_Final() == nil)
				}
			case 6:
				if isAny {
					g.say("%v", a.ValidateError_Base() == nil)
				}
			case 7:
				if isAny {
					g.say("%v %v", a.ValidateSyntax() == nil, a.ValidateError_Params(passed) == nil)
				}
			case 8:
				v, ok := ewd.GetParameter(e.err, name)
				g.say("%s=%v,%v %v", name, val(v), ok, ewd.HasParameter(e.err, name))
			case 9:
				m := ewd.GetData_map(e.err)
				for _, k := range sortedKeys(m) {
					g.say("%s:%s", k, val(m[k]))
				}
				if m != nil {
					m[name] = "overwritten by this goroutine"
				}
			case 10:
				g.say("has %s=%v", o.name, o.hasData(e.err))
				if o.hasData(e.err) {
					m := o.getStruct(e.err, ewd.EnsureDataIsPresent)
					for _, k := range sortedKeys(m) {
						g.say("%s:%s", k, val(m[k]))
					}
				}
			case 11: // derive from the shared error
				d := ewd.NewErrorWithData_any_params(e.err, "derived %v{"+name+"}: %w", ewd.ReplacePreviousData, name, k)
				msg(d.Error())
				g.say("%v", errors.Is(d, e.err))
			case 12:
				d := ewd.AddDataToError_any_params(e.err, ewd.ReplacePreviousData, name, k)
				msg(d.Error())
				v, _ := d.GetParameter(name)
				g.say("%v", v)
			case 13:
				g.try("delete", func() {
					d := ewd.DeleteParameterFromError_any(e.err, name)
					msg(d.Error())
					g.say("%v", d.HasParameter(name))
				})
			case 14:
				g.say("%v", errors.Unwrap(e.err) != nil)
				var t ewd.ErrorWithData_any
				g.say("%v", errors.As(e.err, &t))
			case 15:
				if isAny && e.unboxed().interpolater() {
					b := ewd.MakeErrorIncomparable_any(a)
					msg(b.Error())
					g.say("%v", ewd.UnboxError(b) == ewd.UnboxError(e.err))
				}
			case 16:
				c, ok := o.as(e.err, ewd.MissingDataAsZero)
				g.say("as %v", ok)
				if ok && c != nil {
					msg(c.Error())
				}
			}
		})
	}
}

// hideAddresses blanks hexadecimal addresses.
func hideAddresses(s string) string {
	for i := 0; i+4 < len(s); i++ {
		if s[i:i+3] == "0xc" {
			j := i + 3
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'f') {
				j++
			}
			s = s[:i] + "PTR" + s[j:]
		}
	}
	return s
}

// pointers of other shapes (and other renderings of addresses): compare only runs
// on the same objects
func (t *T) sameErrors(gs []*racer, seed uint64, pool []*em) {
	for id, p := range gs {
		g := &racer{r: newRand(seed + uint64(id))}
		errProg(g, pool)
		if p.b.String() != g.b.String() {
			t.Failf("errors/result", "goroutine %d got\n  %s\nand the same calls afterwards\n  %s", id, firstDiff(p.b.String(), g.b.String()), firstDiff(g.b.String(), p.b.String()))
		}
	}
}

type g2[X, Y any] struct {
	A X
	B Y
}
type g3[X, Y any] struct {
	g2x[X]
	C Y
	D *X
}
type g2x[X any] struct{ E X }
type G4[X, Y any] struct {
	F X
	g *Y // not allowed
}

// firstUse is one struct type that the package has not seen before.
type firstUse struct {
	name string
	use  func(g *racer, v int)
}

func mkFirstUse[S any](name string, set func(s *S, v int)) firstUse {
	return firstUse{name, func(g *racer, v int) {
		g.step(func() { g.say("%s suitable=%v", name, ewd.StructSuitableForErrorsWithData[S]()) })
		if set == nil {
			g.try("New", func() { ewd.NewErrorWithData_struct(nil, "x", new(S)) })
			return
		}
		var s S
		set(&s, v)
		var e ewd.ErrorWithData[S]
		g.step(func() { e = ewd.NewErrorWithData_struct(nil, "data", &s) })
		g.step(func() {
			back := e.GetData_struct()
			g.say("%v %v", fmt.Sprintf("%+v", back) == fmt.Sprintf("%+v", s), len(e.GetData_map()))
			g.say("%v", ewd.HasData[S](e))
			d := ewd.GetData_struct[S](errors.New("nothing"), ewd.MissingDataAsZero)
			var z S
			g.say("%v", fmt.Sprintf("%+v", d) == fmt.Sprintf("%+v", z))
		})
	}}
}

func firstUsesFor[X, Y any](name string) []firstUse {
	return []firstUse{
		mkFirstUse(name+"/g2", func(s *g2[X, Y], v int) {
			if p, ok := interface{}(&s.A).(*int); ok {
				*p = v
			}
		}),
		mkFirstUse(name+"/g3", func(s *g3[X, Y], v int) { s.D = new(X) }),
		mkFirstUse[G4[X, Y]](name+"/G4", nil),
	}
}
func firstUsesRow[X any](n string) (l []firstUse) {
	l = append(l, firstUsesFor[X, int](n+",int")...)
	l = append(l, firstUsesFor[X, string](n+",string")...)
	l = append(l, firstUsesFor[X, []byte](n+",[]byte")...)
	l = append(l, firstUsesFor[X, [3]uint16](n+",[3]uint16")...)
	l = append(l, firstUsesFor[X, error](n+",error")...)
	return
}
func firstUsesAll() (l []firstUse) {
	l = append(l, firstUsesRow[int]("int")...)
	l = append(l, firstUsesRow[uint8]("uint8")...)
	l = append(l, firstUsesRow[bool]("bool")...)
	l = append(l, firstUsesRow[string]("string")...)
	l = append(l, firstUsesRow[[2]int]("[2]int")...)
	l = append(l, firstUsesRow[[]string]("[]string")...)
	l = append(l, firstUsesRow[map[string]int]("map")...)
	l = append(l, firstUsesRow[interface{}]("any")...)
	return
}

func runRaceErrors(c *Ctx) {
	c.Run("errors", 500, func(t *T) {
		seed := t.R.Uint64()
		w := racePool(t, seed)
		ps := t.R.Uint64()
		t.Note("shared errors: %s", strings.Join(w.log, "; "))
		t.Sample("shared errors: %s", strings.Join(w.log, "; "))
		gs := t.together(8, func(id int, g *racer) {
			g.r = newRand(ps + uint64(id))
			errProg(g, w.pool)
		})
		t.sameErrors(gs, ps, w.pool)
		for _, e := range w.pool {
			if e.ours && e.params != nil && e.typed == nil {
				t.Check(sameMap(ewd.GetData_map(e.err), e.params), "errors/data", "data of a shared error are %s after concurrent use, want %s", showMap(ewd.GetData_map(e.err)), showMap(e.params))
			}
		}
		// the messages also agree with the reference
		for _, e := range w.pool {
			if e.ours && e.typed == nil {
				t.checkMessage(e, e.err.Error(), nil, "after concurrent use")
			}
		}
	})
	all := firstUsesAll()
	per := 3
	c.RunN("first use of struct types", len(all)/per, func(t *T) {
		l := all[t.Index*per : (t.Index+1)*per]
		t.Sample("types %s, %s, %s", l[0].name, l[1].name, l[2].name)
		v := t.R.Intn(1000)
		perm := make([][]int, 8)
		for i := range perm {
			perm[i] = t.R.Perm(per)
			if i < 5 {
				perm[i] = perm[0]
			}
		}
		t.shared("first use/result", 8, func(id int, g *racer, private bool) {
			for _, i := range perm[id] {
				l[i].use(g, v)
			}
		})
	})
	c.Need("errors/overlapping pairs of steps", 500)
	c.Need("first use of struct types/overlapping pairs of steps", 50)
}

// --- NaP handler ---------------------------------------------------------------

type handlerID struct{ id int }

type swap struct {
	start, end int64
	set        bool
	id, old    int // what was installed and what was found
}

func runRaceHandler(c *Ctx) {
	const who = "harness: who are you"
	c.RunSeq("NaP handler", scaled(c, 250), func(t *T) {
		const G, K = 6, 8
		calls := make([]int64, G*K+1)
		mk := func(id int) cp.NaPErrorHandler {
			return func(reason string, comparison bool, points ...cp.CurvePointPtrInterfaceBaseRead) bool {
				if reason == who {
					panic(handlerID{id})
				}
				atomic.AddInt64(&calls[id], 1)
				return id%2 == 0
			}
		}
		idOf := func(h cp.NaPErrorHandler) int {
			if h == nil {
				return -1
			}
			v, _ := PanicVal(func() { h(who, false) })
			if i, ok := v.(handlerID); ok {
				return i.id
			}
			return -1
		}
		event := func() bool {
			var a, b cp.Point_axtw_full
			return a.IsEqual(&b)
		}
		original := cp.SetNaPErrorHandler(mk(0))
		defer cp.SetNaPErrorHandler(original)
		event()
		perEvent := atomic.LoadInt64(&calls[0])
		t.Check(perEvent >= 1, "handler/not called", "a comparison of uninitialized points does not call the handler")
		calls[0] = 0
		logs := make([][]swap, G)
		events := make([]int64, G)
		seed := t.R.Uint64()
		t.together(G, func(id int, g *racer) {
			r := newRand(seed + uint64(id))
			for k := 0; k < K; {
				var h cp.NaPErrorHandler
				s := swap{}
				switch r.Intn(3) {
				case 0:
					k++
					s.set, s.id = true, id*K+k
					mine := mk(s.id)
					s.start, s.end = g.step(func() { h = cp.SetNaPErrorHandler(mine) })
				case 1:
					s.start, s.end = g.step(func() { h = cp.GetNaPErrorHandler() })
				default:
					g.step(func() { event() })
					events[id]++
					continue
				}
				s.old = idOf(h)
				logs[id] = append(logs[id], s)
			}
		})
		final := idOf(cp.GetNaPErrorHandler())
		// every handler ever installed was replaced by exactly one other
		by := map[int]swap{0: {end: -1}} // who installed
		next := map[int]swap{}           // who replaced
		sets := 0
		for _, l := range logs {
			for _, s := range l {
				if s.set {
					by[s.id] = s
					sets++
				}
			}
		}
		for _, l := range logs {
			for _, s := range l {
				if _, ok := by[s.old]; !ok {
					t.Failf("handler/unknown", "an exchange or query returned a handler that was never installed")
					return
				}
				if !s.set {
					continue
				}
				if _, dup := next[s.old]; dup {
					t.Failf("handler/lost", "two exchanges both replaced handler %d: one installed handler was lost", s.old)
					return
				}
				next[s.old] = s
			}
		}
		order := []int{0}
		for at := 0; ; {
			s, ok := next[at]
			if !ok {
				break
			}
			at = s.id
			order = append(order, at)
		}
		t.Check(len(order) == sets+1 && order[len(order)-1] == final, "handler/chain", "the exchanges do not form one history ending with the installed handler: %v, installed %d", order, final)
		// nor does that history contradict the order in which the calls happened
		for i := 1; i+1 < len(order); i++ {
			for j := i + 1; j < len(order); j++ {
				if by[order[j]].end < by[order[i]].start {
					t.Failf("handler/order", "exchange %d ended before exchange %d started, but took effect after it", order[j], order[i])
				}
			}
		}
		gets := 0
		for _, l := range logs {
			for _, s := range l {
				if s.set {
					continue
				}
				gets++
				if by[s.old].start > s.end {
					t.Failf("handler/get", "a query returned handler %d before it was installed", s.old)
				}
				if n, ok := next[s.old]; ok && n.end < s.start {
					t.Failf("handler/get", "a query returned handler %d after it was replaced", s.old)
				}
			}
		}
		total, ev := int64(0), int64(0)
		for i := range calls {
			total += calls[i]
		}
		for i := range events {
			ev += events[i]
		}
		t.Check(total == ev*perEvent, "handler/calls", "%d events, each consulting the handler %d times, led to %d calls", ev, perEvent, total)
		t.classes["NaP handler/exchanges"] += int64(sets)
		t.classes["NaP handler/queries"] += int64(gets)
		t.classes["NaP handler/events"] += ev
		t.Sample("history of exchanges %v", order)
	})
	c.Need("NaP handler/exchanges", 500)
	c.Need("NaP handler/overlapping pairs of steps", 200)
}

// --- precomputed caches --------------------------------------------------------

type cached struct{ v, key int }

func runRaceCache(c *Ctx) {
	c.Run("precomputed cache", 700, func(t *T) {
		r := t.R
		nk := 1 + r.Intn(3)
		create := func(rng *rand.Rand, key int64) *cached { return &cached{rng.Intn(1 << 30), int(key)} }
		pc := testutils.MakePrecomputedCache[int64, *cached](
			testutils.DefaultCreateRandFromSeed, create,
			func(x *cached) *cached { y := *x; return &y })
		type got struct {
			key   int64
			n     int
			v     []int
			ptrs  []*cached
			s, e  int64
			prep  bool
			fails bool
		}
		logs := make([][]got, 7)
		seed := r.Uint64()
		prepop := r.Intn(2) == 0
		t.together(7, func(id int, g *racer) {
			r := newRand(seed + uint64(id))
			for k := 0; k < 9; k++ {
				x := got{key: int64(r.Intn(nk)), n: r.Intn(9)}
				if prepop && k < 2 && r.Intn(2) == 0 {
					x.prep = true
					var l []*cached
					for i := 0; i < x.n; i++ {
						l = append(l, &cached{-(id*100 + k*10 + i), int(x.key)})
						x.v = append(x.v, l[i].v)
					}
					x.s, x.e = g.step(func() {
						_, x.fails = PanicVal(func() { pc.PrepopulateCache(x.key, l) })
					})
					for i := range l { // the cache has copies
						l[i].v = 7777777
					}
				} else {
					x.s, x.e = g.step(func() { x.ptrs = pc.GetElements(x.key, x.n) })
					for _, p := range x.ptrs {
						x.v = append(x.v, p.v)
						p.v = 8888888
					}
				}
				logs[id] = append(logs[id], x)
			}
		})
		for key := int64(0); key < int64(nk); key++ {
			var want []int
			winner, tried := 0, 0
			max := 0
			for _, l := range logs {
				for _, x := range l {
					if x.key != key {
						continue
					}
					if x.prep {
						tried++
						if !x.fails {
							winner++
							want = append([]int(nil), x.v...)
						}
					} else if x.n > max {
						max = x.n
					}
				}
			}
			if tried > 0 {
				t.Class("prepopulated concurrently")
			}
			if winner > 1 {
				t.Failf("cache/winners", "%d calls of PrepopulateCache for one key succeeded", winner)
				return
			}
			if tried > 0 && winner == 0 && max == 0 {
				t.Failf("cache/winners", "no call of PrepopulateCache succeeded for a key without other uses")
			}
			if winner > 0 {
				t.Class("prepopulation won")
			}
			rng := testutils.DefaultCreateRandFromSeed(key)
			for len(want) < max {
				want = append(want, create(rng, key).v)
			}
			seen := map[*cached]bool{}
			for id, l := range logs {
				for _, x := range l {
					if x.key != key || x.prep {
						continue
					}
					ok := len(x.v) == x.n
					for i := 0; ok && i < x.n; i++ {
						ok = x.v[i] == want[i]
					}
					t.Check(ok, "cache/elements", "goroutine %d got %v for key %d, want a prefix of length %d of %v (prepopulated: %v)", id, x.v, key, x.n, want, winner > 0)
					for _, p := range x.ptrs {
						t.Check(!seen[p], "cache/copies", "two results of GetElements share an element")
						seen[p] = true
					}
				}
			}
		}
		t.Sample("%d keys, 7 goroutines, prepopulation %v", nk, prepop)
	})
	c.Need("precomputed cache/prepopulation won", 50)
	c.Need("precomputed cache/overlapping pairs of steps", 500)
}

// --- exponents -----------------------------------------------------------------

func runRaceExp(c *Ctx) {
	c.Run("exponents", 250, func(t *T) {
		r := t.R
		var sh, pr []EX
		for i := 0; i < 6; i++ {
			e, _ := exSet(r, genExp(r))
			sh, pr = append(sh, e), append(pr, e)
		}
		t.Sample("shared exponents %v", sh)
		t.shared("exponents/result", 8, func(id int, g *racer, private bool) {
			l := sh
			if private {
				l = pr
			}
			r := g.r
			var z EX
			for k := 0; k < 16; k++ {
				x, y := &l[r.Intn(6)], &l[r.Intn(6)]
				op := r.Intn(9)
				g.step(func() {
					switch op {
					case 0:
						z.Add(x, y)
					case 1:
						z.Sub(x, y)
					case 2:
						z.Mul(x, y)
					case 3:
						z.Neg(x)
					case 4, 5:
						q := ex.GLV_representation(x)
						g.say("glv=%v,%v", q.U.ToBigInt(), q.V.ToBigInt())
					case 6:
						g.say("%v %v %v %v", x.IsZero_Full(), x.IsOne_Full(), x.IsZero_Subgroup(), x.IsOne_Subgroup())
					case 7:
						g.say("%v %v %s", x.ToBigInt_Full(), x.ToBigInt_Subgroup(), x.String())
					case 8:
						z.SetBigInt(x.ToBigInt_Full())
					}
				})
				g.say("%d=%v", op, z.ToBigInt_Full())
			}
		})
	})
	c.Need("exponents/overlapping pairs of steps", 300)
}

func runM01(c *Ctx) {
	if !needRef(c) {
		return
	}
	c.Rule("A case is a set of goroutines with their programs on one shared object (or on objects of their own). It is checked under the race detector; results are compared with the same programs run alone, exchanges of handlers and prepopulations of caches with the sequential specification. Distinct by the order in which the steps of the goroutines started.")
	c.Assume("the race detector orders accesses by synchronization only, so a race is reported in whatever order the accesses happen to run; it is limited to code that ran")
	runRaceApart(c)
	runRaceFields(c)
	runRaceCurve(c)
	runRaceSer(c)
	runRaceErrors(c)
	runRaceHandler(c)
	runRaceCache(c)
	runRaceExp(c)
}

// runRaceApart runs the workloads of the other properties on goroutines that have
// nothing in common. Only the race detector judges here.
func runRaceApart(c *Ctx) {
	if c.onlyGroup != "" {
		return
	}
	var names []string
	for name := range checks {
		if name[0] != 'M' && name != "C05" { // C05 exchanges the handler, which is global, in sequence
			names = append(names, name)
		}
	}
	sort.Strings(names)
	for _, name := range names {
		ck := checks[name]
		sub := &Ctx{prop: name, tier: c.tier, seed: c.seed, scale: 1, onlyIndex: -1, apart: 0.04 * c.scale, classes: map[string]int64{}, distinct: map[uint64]struct{}{},
			sampled: map[string]int{}, knownHit: map[string]violation{}, level: ck.level, extra: map[string]interface{}{}}
		ck.run(sub)
		c.classes["independent workloads/"+name] += sub.classes["cases"]
		c.evals += sub.evals
		c.Need("independent workloads/"+name, 60)
	}
}
