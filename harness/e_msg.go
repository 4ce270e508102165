package main

// E03: messages. E04: validation.

import (
	"fmt"
	"strings"

	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
)

func init() {
	register("E03", 20, checkE03)
	register("E04", 20, checkE04)
}

// tower builds a chain of errors with data with the given string flavours.
// top is the last one; it is always made by the package.
func tower(t *T, w *eWorld, topFlavour int) *em {
	r := t.R
	var base *em
	depth := r.Intn(5)
	if depth > 0 && r.Intn(3) == 0 {
		base = w.add(w.foreign())
	}
	for i := 0; i < depth; i++ {
		switch k := r.Intn(12); {
		case k == 0 && base != nil:
			base = w.add(w.wrapForeign(base))
			continue
		case k == 1 && base != nil:
			if b := w.box(base); b != nil {
				base = w.add(b)
				continue
			}
		}
		fl := 0
		if r.Intn(6) == 0 {
			fl = 1 + r.Intn(2)
		}
		base = w.make(base, fl, r.Intn(3) == 0 && base != nil)
	}
	return w.make(base, topFlavour, base != nil && topFlavour == 0 && r.Intn(8) == 0)
}

// make creates one error with data over base.
func (w *eWorld) make(base *em, flavour int, deflt bool) *em {
	r := w.t.R
	s := ""
	old := base.unboxed().data()
	add := pmap{}
	var pairs []interface{}
	for k := r.Intn(5) - r.Intn(3); k > 0; k-- {
		n, v := eNames[r.Intn(len(eNames))], eVal(r)
		add[n] = v
		pairs = append(pairs, n, v)
	}
	want, _ := eMerge(old, add, mReplace)
	if !deflt {
		names := eNames
		if len(want) > 0 && r.Intn(3) > 0 { // mostly variables that exist
			names = nil
			for _, k := range sortedKeys(want) {
				if eValidName(k) {
					names = append(names, k)
				}
			}
			if len(names) == 0 {
				names = eNames
			} else if r.Intn(2) == 0 {
				names = append(names, "Zz9")
			}
		}
		s = eGenString(r, flavour, names)
	}
	e := ours(base, s, want, nil)
	if v, p := PanicVal(func() {
		if r.Intn(2) == 0 {
			e.err = ewd.NewErrorWithData_any_params(base.error(), s, ewd.ReplacePreviousData, pairs...)
		} else {
			e.err = ewd.NewErrorWithData_map[struct{}](base.error(), s, ewd.ReplacePreviousData, ewd.EnsureDataIsPresent, add)
		}
	}); p {
		w.t.Failf("create:panic", "creating an error with the interpolation string %q panicked: %v", s, v)
		panic("no error made")
	}
	e.desc = fmt.Sprintf("e%d", len(w.pool))
	w.pool = append(w.pool, e)
	bd := "nil"
	if base != nil {
		bd = base.desc
	}
	w.note("%s = New(base %s, %q) with data %s", e.desc, bd, s, showMap(want))
	return e
}

func (t *T) eClass(e *em) {
	switch {
	case e.semOK:
		t.Class("well-formed")
	case e.parseOK:
		t.Class("violates a syntax condition")
	default:
		t.Class("does not parse")
	}
}

// checkMessage compares a message with the reference.
func (t *T) checkMessage(e *em, got string, passed pmap, how string) {
	if !e.parseOK || !e.semOK {
		t.Check(eMarked(got), "message:unreported", "%s of %s: the interpolation string %q is not well-formed, but nothing is reported:\n%q", how, e.desc, e.fmtStr, got)
		if !e.parseOK {
			if e.base != nil {
				t.Check(strings.Contains(got, e.base.err.Error()), "message:parse error hides base", "%s of %s (parse error): the message of the wrapped error does not appear:\n%q\n%q", how, e.desc, got, e.base.err.Error())
			}
			if len(e.params) > 0 {
				t.Check(strings.Contains(got, fmt.Sprintf("%v", e.params)), "message:parse error hides data", "%s of %s (parse error): the data do not appear:\n%q", how, e.desc, got)
			}
			if len(passed) > 0 {
				t.Check(strings.Contains(got, fmt.Sprintf("%v", passed)), "message:parse error hides passed data", "%s of %s (parse error): the parameters passed do not appear:\n%q", how, e.desc, got)
			}
		}
		return
	}
	want := e.message(passed)
	if !eMatch(got, want) {
		t.Failf("message", "%s of %s, interpolation string %q, data %s, passed %s:\ngot  %q\nwant %q", how, e.desc, e.fmtStr, showMap(e.params), showMap(passed), got, segString(want))
	}
	t.Classf("reports a problem %v", hasHole(want))
	if len(want) == 0 {
		t.Class("empty message")
	}
}

func genPassed(t *T, e *em) pmap {
	r := t.R
	if r.Intn(5) == 0 {
		return pmap{}
	}
	p := pmap{}
	for k := 1 + r.Intn(6); k > 0; k-- {
		p[eNames[r.Intn(len(eNames))]] = eVal(r)
	}
	return p
}

func checkE03(c *Ctx) {
	c.level = "exploration"
	c.Rule("Chains of up to 5 errors with random interpolation strings (generated well-formed ones, damaged ones, and token soup), data and foreign errors between; each message (Error, and Error_interpolate with other parameters) is compared with an interpreter written from the documentation: exact text, with an in-band report required exactly where a variable or wrapped error is missing.")
	c.Assume("a problem report is recognised by one of the markers !<, <!, (<nil>), <$w")
	for fl, name := range []string{"well-formed", "damaged", "soup"} {
		fl := fl
		c.Run(name, 30000, func(t *T) {
			w := &eWorld{t: t}
			e := tower(t, w, fl)
			t.eClass(e)
			t.checkMessage(e, e.err.Error(), nil, "Error()")
			x := e.err.(ewd.ErrorWithData_any)
			t.checkMessage(e, x.Error_interpolate(nil), nil, "Error_interpolate(nil)")
			p := genPassed(t, e)
			t.checkMessage(e, x.Error_interpolate(p), p, "Error_interpolate")
			// printing is repeatable, and validation does not change it
			m := e.err.Error()
			_ = x.ValidateSyntax()
			_ = x.ValidateError_Base()
			_ = x.ValidateError_Final()
			t.Check(e.err.Error() == m, "message:unstable", "the message of %s changed: %q, was %q", e.desc, e.err.Error(), m)
			t.Eval(e.fmtStr, fmt.Sprint(len(e.params)))
			t.Sample("%q -> %q", e.fmtStr, m)
		})
		_ = name
	}
	// raw bytes, including invalid UTF-8: never a panic
	c.Run("bytes", 10000, func(t *T) {
		r := t.R
		b := make([]byte, 1+r.Intn(24))
		for i := range b {
			switch r.Intn(3) {
			case 0:
				b[i] = "%${}\\!w"[r.Intn(7)]
			case 1:
				b[i] = byte(r.Intn(256))
			default:
				b[i] = "m>0=Av {}"[r.Intn(9)]
			}
		}
		s := string(b)
		var base error
		if r.Intn(2) == 0 {
			base = codeErr{7}
		}
		v, p := PanicVal(func() {
			e := ewd.NewErrorWithData_any_params(base, s, ewd.ReplacePreviousData, "A", 1)
			_ = e.Error()
			_ = e.Error_interpolate(pmap{})
			_ = e.ValidateSyntax()
			_ = e.ValidateError_Base()
			_ = e.ValidateError_Final()
			_ = e.ValidateError_Params(pmap{"B": 1})
			d := ewd.AddDataToError_any_params(e, ewd.ReplacePreviousData, "B", 2)
			_ = d.Error()
			_ = d.ValidateError_Final()
			_, ok := eParse(s)
			if !ok {
				t.Check(e.ValidateSyntax() != nil && eMarked(e.Error()), "bytes:unreported", "%q does not parse, but ValidateSyntax = %v, Error() = %q", s, e.ValidateSyntax(), e.Error())
			}
			t.Classf("parses %v", ok)
		})
		t.Check(!p, "bytes:panic", "interpolation string %q: panic %v", s, v)
		t.Eval(s)
	})
	// every short combination of tokens
	toks := []string{"%", "$", "{", "}", "%w", "$w", "%!", "$!", "a", "A", "m>0", "%%", `\`}
	n := 1
	L := 4
	for i := 0; i < L; i++ {
		n *= len(toks)
	}
	c.RunN("all short strings", n/len(toks), func(t *T) {
		for last := 0; last < len(toks); last++ {
			x := t.Index
			s := ""
			for i := 0; i < L-1; i++ {
				s += toks[x%len(toks)]
				x /= len(toks)
			}
			s += toks[last]
			base := &em{err: codeErr{3}, text: "code 3"}
			e := ours(base, s, pmap{"A": 1, "Am": "x"}, nil)
			v, p := PanicVal(func() {
				e.err = ewd.NewErrorWithData_any_params(base.err, s, ewd.ReplacePreviousData, "A", 1, "Am", "x")
				e.desc = "e"
				t.eClass(e)
				t.checkMessage(e, e.err.Error(), nil, "Error()")
				d := ours(e, "", pmap{"A": 2, "Am": "x"}, nil)
				d.err = ewd.NewErrorWithData_any_params(e.err, "", ewd.ReplacePreviousData, "A", 2)
				d.desc = "d"
				t.checkMessage(d, d.err.Error(), nil, "Error()")
				t.checkValid(e)
			})
			t.Check(!p, "short:panic", "interpolation string %q: panic %v", s, v)
			t.Eval(s)
		}
	})
	c.Need("well-formed/well-formed", int64(scaled(c, 25000)))
	c.Need("well-formed/reports a problem true", int64(scaled(c, 3000)))
	c.Need("well-formed/reports a problem false", int64(scaled(c, 3000)))
	c.Need("damaged/does not parse", int64(scaled(c, 3000)))
	c.Need("damaged/violates a syntax condition", int64(scaled(c, 500)))
	c.Need("damaged/well-formed", int64(scaled(c, 3000)))
	c.Need("soup/does not parse", int64(scaled(c, 3000)))
	c.Need("all short strings/well-formed", 300)
	c.Need("all short strings/does not parse", 3000)
}

// checkValid compares all validations of one error with the reference.
func (t *T) checkValid(e *em) {
	x := e.err.(ewd.ErrorWithData_any)
	desc := fmt.Sprintf("%s = %q with data %s", e.desc, e.fmtStr, showMap(e.params))
	wf := e.wellFormed()
	verr := x.ValidateSyntax()
	t.Check((verr == nil) == wf, "ValidateSyntax", "%s: well-formed %v, but ValidateSyntax() = %v", desc, wf, verr)
	final := e.validFinal(nil)
	verr = x.ValidateError_Final()
	t.Check((verr == nil) == final, "ValidateError_Final", "%s: ValidateError_Final() = %v, must succeed: %v", desc, verr, final)
	verr = x.ValidateError_Params(nil)
	t.Check((verr == nil) == final, "ValidateError_Params(nil)", "%s: ValidateError_Params(nil) = %v, must succeed: %v", desc, verr, final)
	vb := e.validBase()
	verr = x.ValidateError_Base()
	if vb != vOpen {
		t.Check((verr == nil) == (vb == vGood), "ValidateError_Base", "%s: ValidateError_Base() = %v, must succeed: %v", desc, verr, vb == vGood)
	}
	t.Classf("well-formed %v final %v base %v", wf, final, []string{"bad", "open", "good"}[vb])
	for k := 0; k < 2; k++ {
		p := genPassed(t, e)
		want := e.validFinal(p)
		verr := x.ValidateError_Params(p)
		t.Check((verr == nil) == want, "ValidateError_Params", "%s: ValidateError_Params(%s) = %v, must succeed: %v", desc, showMap(p), verr, want)
		t.Classf("params %v", want)
	}
	// the oracle's two halves agree: valid means nothing is reported in-band
	if final && e.allOurs() && hasHole(e.message(nil)) {
		t.Failf("oracle", "the reference is inconsistent on %s", desc)
	}
	_, p1 := PanicVal(func() { ewd.EnsureErrorsValid_Syntax(x) })
	_, p2 := PanicVal(func() { ewd.EnsureErrorsValid_Final(x) })
	_, p3 := PanicVal(func() { ewd.EnsureErrorsValid_Base(x) })
	t.Check(p1 == !wf && p2 == !final && (vb == vOpen || p3 == (vb != vGood)), "EnsureErrorsValid", "%s: EnsureErrorsValid_{Syntax,Final,Base} panicked: %v %v %v", desc, p1, p2, p3)
}

// allOurs: nothing in the chain hides problems from validation.
func (e *em) allOurs() bool {
	for x := e; x != nil; x = x.base {
		if !x.unboxed().ours {
			return false
		}
	}
	return true
}

func checkE04(c *Ctx) {
	c.level = "exploration"
	c.Rule("Chains of up to 5 errors as for E03; ValidateSyntax, ValidateError_Final, ValidateError_Params (several parameter maps) and ValidateError_Base, and EnsureErrorsValid_*, of every error in the chain are compared with a reference validator, and messages must not change by validating.")
	for fl, name := range []string{"well-formed", "damaged", "soup"} {
		fl := fl
		c.Run(name, 20000, func(t *T) {
			w := &eWorld{t: t}
			e := tower(t, w, fl)
			msg := e.err.Error()
			for _, x := range w.pool {
				if x.ours {
					v, p := PanicVal(func() { t.checkValid(x) })
					t.Check(!p, "validate:panic", "validating %s = %q panicked: %v", x.desc, x.fmtStr, v)
				}
			}
			t.Check(e.err.Error() == msg, "validate:changes", "validating changed the message of %s from %q to %q", e.desc, msg, e.err.Error())
			// all at once: one bad error among good ones is found
			var xs []ewd.ErrorWithData_any
			bad := false
			for _, x := range w.pool {
				if x.ours {
					xs = append(xs, x.err.(ewd.ErrorWithData_any))
					bad = bad || !x.validFinal(nil)
				}
			}
			_, p := PanicVal(func() { ewd.EnsureErrorsValid_Final(xs...) })
			t.Check(p == bad, "EnsureErrorsValid_Final:list", "EnsureErrorsValid_Final on %d errors panicked: %v, an invalid one among them: %v", len(xs), p, bad)
			t.Eval(e.fmtStr, fmt.Sprint(len(e.chain())))
			t.Sample("%v", w.log)
		})
		_ = name
	}
	c.Need("well-formed/well-formed true final true base good", int64(scaled(c, 3000)))
	c.Need("well-formed/well-formed true final false base good", int64(scaled(c, 300)))
	c.Need("well-formed/well-formed true final false base bad", int64(scaled(c, 3000)))
	c.Need("well-formed/params true", int64(scaled(c, 3000)))
	c.Need("well-formed/params false", int64(scaled(c, 3000)))
	c.Need("damaged/well-formed false final false base bad", int64(scaled(c, 3000)))
}
