package main

// E02: immutability, nil errors, errors.Is/As/Unwrap, boxing.

import (
	"errors"
	"fmt"
	"reflect"

	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
)

func init() { register("E02", 20, checkE02) }

func (w *eWorld) intact(e *em, after string) {
	t := w.t
	if got := e.err.Error(); got != e.snap {
		t.Failf("immutable:message", "message of %s changed after %s:\nwas %q\nnow %q", e.desc, after, e.snap, got)
	}
	if !e.plain {
		if m := ewd.GetData_map(e.err); !sameMap(m, e.data()) {
			t.Failf("immutable:data", "data of %s changed after %s:\nwas %s\nnow %s", e.desc, after, showMap(e.data()), showMap(m))
		}
	}
	if e.ours {
		want := e.base.error()
		if got := errors.Unwrap(e.err); !eEqual(got, want) {
			t.Failf("immutable:unwrap", "errors.Unwrap(%s) = %v (%T), want %v (%T)", e.desc, got, got, want, want)
		}
		if e.typed != nil {
			if _, p := PanicVal(func() { e.typed.ownStruct(e.err) }); p {
				t.Failf("immutable:struct", "%s.GetData_struct() panics after %s", e.desc, after)
			}
		}
	}
	t.Eval(e.snap, after)
}

func checkE02(c *Ctx) {
	c.level = "exploration"
	c.Rule("Random histories of operations on a pool of errors; after every step everything the caller still holds (maps and structs passed in, maps handed out, parameter slices, passed-parameter maps) is modified and queries and validations are run; then message, data and wrapped error of every error in the pool are compared with their state at creation. errors.Is is compared with a reference chain for all pairs, errors.As for every target type.")

	c.Run("histories", 12000, func(t *T) {
		w := &eWorld{t: t, flavours: 3}
		w.add(w.foreign())
		for i := 0; i < 12 && len(t.failed) == 0; i++ {
			e := w.step()
			op := "creation"
			if e == nil {
				op = "an operation that yields no error"
			}
			for _, x := range w.pool {
				w.intact(x, op)
			}
			for _, f := range w.mutators {
				f()
			}
			t.Class("modified what was passed in")
			x := w.pool[t.R.Intn(len(w.pool))]
			w.intact(x, "modifying what was passed in")
			// maps handed out
			m := ewd.GetData_map(x.err)
			for k := range m {
				m[k] = "changed"
			}
			m["A"] = "changed"
			m["New"] = 1
			if y, ok := x.err.(ewd.ErrorWithData_any); ok {
				m := y.GetData_map()
				for k := range m {
					delete(m, k)
				}
				m["B"] = "changed"
				w.intact(x, "modifying a map handed out")
				t.Class("modified map handed out")
				// passed parameters
				p := pmap{}
				for k := t.R.Intn(4); k > 0; k-- {
					p[eNames[t.R.Intn(len(eNames))]] = eVal(t.R)
				}
				if t.R.Intn(4) == 0 {
					p = nil
				}
				keep := cloneMap(p)
				y.Error_interpolate(p)
				_ = y.ValidateSyntax()
				_ = y.ValidateError_Base()
				_ = y.ValidateError_Final()
				_ = y.ValidateError_Params(p)
				t.Check(sameMap(p, keep), "immutable:passed", "printing or validating %s changed the parameters passed: %s, were %s", x.desc, showMap(p), showMap(keep))
				for k := range p {
					p[k] = "changed"
				}
				w.intact(x, "printing and validating")
				t.Class("printed and validated")
			}
		}
		if len(t.failed) > 0 {
			return
		}
		for _, x := range w.pool {
			w.intact(x, "the whole history")
		}
		// errors.Is for all pairs
		for _, a := range w.pool {
			ch := a.chain()
			for _, b := range w.pool {
				want := false
				for _, x := range ch {
					if eEqual(x.err, b.unboxed().err) {
						want = true
					}
				}
				// the box itself is transparent: what its contents wrap is not required to be seen through it
				open := a.boxed != nil && !eEqual(a.boxed.err, b.unboxed().err)
				for x := a.base; x != nil; x = x.base {
					if x.boxed != nil {
						open = true
					}
				}
				if a.boxed == nil {
					for x := a; x != nil; x = x.base {
						if x.boxed != nil && eEqual(x.boxed.err, b.unboxed().err) {
							open = false
						}
					}
				}
				got := errors.Is(a.err, b.err)
				if open {
					t.Class("errors.Is through a box")
					t.Check(!got || want, "is:spurious", "errors.Is(%s, %s) although it is not in the chain", a.desc, b.desc)
					continue
				}
				t.Check(got == want, "is", "errors.Is(%s, %s) = %v, want %v (%T, %T)", a.desc, b.desc, got, want, a.err, b.err)
				t.Classf("errors.Is %v boxed target %v", want, b.boxed != nil)
			}
			w.checkAs(a)
		}
		t.Sample("%v", w.log)
	})

	c.Run("boxing", 5000, func(t *T) {
		w := &eWorld{t: t, flavours: 1}
		w.add(w.foreign())
		var e *em
		for n := 0; e == nil || !e.ours && e.user == nil || n < 4; n++ {
			if x := w.step(); x != nil && x.boxed == nil && (x.ours || x.user != nil) {
				e = x
			}
		}
		b := w.box(e)
		w.add(b)
		u := ewd.UnboxError(b.err)
		t.Check(u == e.err, "unbox", "UnboxError of the boxed %s is another error", e.desc)
		t.Check(ewd.UnboxError(e.err) == e.err, "unbox unboxed", "UnboxError(%s) is another error", e.desc)
		t.Check(b.err.Error() == e.err.Error(), "box message", "the box of %s prints %q, not %q", e.desc, b.err.Error(), e.err.Error())
		t.Check(!reflect.TypeOf(b.err).Comparable(), "box comparable", "%T is comparable", b.err)
		t.Check(errors.Is(e.err, b.err) && errors.Is(b.err, e.err) && errors.Is(b.err, b.err), "box is", "errors.Is does not identify %s and its box", e.desc)
		bb := w.box(b)
		t.Check(ewd.UnboxError(bb.err) == e.err, "rebox", "boxing twice is not undone by UnboxError")
		t.Check(errors.Is(fmt.Errorf("w: %w", e.err), b.err), "box is wrapped", "errors.Is(wrapped %s, box) = false", e.desc)
		if x, ok := b.err.(ewd.ErrorWithData_any); ok {
			t.Check(sameMap(x.GetData_map(), e.data()), "box data", "the box of %s has data %s", e.desc, showMap(x.GetData_map()))
			p := pmap{"A": 5}
			t.Check(x.Error_interpolate(p) == e.err.(ewd.ErrorWithData_any).Error_interpolate(p), "box interpolate", "box prints otherwise")
			t.Check(ewd.UnboxError_any(x) == e.err.(ewd.ErrorWithData_any), "unbox any", "UnboxError_any yields another error")
			t.Class("box any")
		}
		if e.typed != nil && e.typed.isTyped(b.err) {
			t.Check(e.typed.unboxStruct(b.err) == e.err, "unbox struct", "UnboxError_struct yields another error")
			t.Check(sameMap(e.typed.ownStruct(b.err), e.typed.project(e.data())), "box struct", "the box of %s has other data", e.desc)
			t.Class("box struct")
		}
		// the box as base error
		derived := ewd.NewErrorWithData_any_params(b.err, "", ewd.ReplacePreviousData, "A", 77)
		t.Check(errors.Unwrap(derived) == e.err, "box as base", "an error based on a box wraps %T", errors.Unwrap(derived))
		t.Check(errors.Is(derived, b.err) && errors.Is(derived, e.err), "box as base is", "errors.Is(derived, box) = false")
		want := cloneMap(e.data())
		want["A"] = 77
		t.Check(sameMap(ewd.GetData_map(derived), want), "box as base data", "an error based on a box has data %s, want %s", showMap(ewd.GetData_map(derived)), showMap(want))
		same := ewd.NewErrorWithData_any_params(e.err, "", ewd.ReplacePreviousData, "A", 77)
		t.Check(derived.Error() == same.Error(), "box as base message", "based on the box: %q, on the error itself: %q", derived, same)
		t.Eval(e.snap)
	})

	// operations on the nil error
	type res struct {
		name string
		f    func() bool
	}
	isNil := func(e ewd.ErrorWithData_any) bool { return e == nil }
	P, E, Z := ewd.ReplacePreviousData, ewd.EnsureDataIsPresent, ewd.MissingDataAsZero
	var nils []res
	add := func(name string, f func() bool) { nils = append(nils, res{name, f}) }
	for _, mode := range eModes {
		mode := mode
		add("AddDataToError_any_params", func() bool { return isNil(ewd.AddDataToError_any_params(nil, mode, "A", 1)) })
		add("AddDataToError_any_map", func() bool { return isNil(ewd.AddDataToError_any_map(nil, mode, pmap{"A": 1})) })
	}
	add("AddDataToError_any_params without data", func() bool { return isNil(ewd.AddDataToError_any_params(nil, P)) })
	add("DeleteParameterFromError_any", func() bool { return isNil(ewd.DeleteParameterFromError_any(nil, "A")) })
	for _, o := range eStructs {
		o := o
		for _, miss := range []ewd.MissingDataTreatment{E, Z} {
			miss := miss
			add("AddDataToError_params "+o.name, func() bool { return isNil(o.addParams(nil, P, miss, "A", "x")) })
			add("AddDataToError_map "+o.name, func() bool { return isNil(o.addMap(nil, P, miss, pmap{"A": "x"})) })
			add("DeleteParameterFromError "+o.name, func() bool { return isNil(o.del(nil, "A", miss)) })
			add("AsErrorWithData "+o.name, func() bool { e, ok := o.as(nil, miss); return isNil(e) && ok })
		}
		add("AddDataToError_struct "+o.name, func() bool { e, _ := o.addStruct(nil, pmap{}); return isNil(e) })
		add("HasData "+o.name, func() bool { return o.hasData(nil) == (len(o.fields) == 0) })
		add("GetData_struct zero "+o.name, func() bool { return sameMap(o.getStruct(nil, Z), o.project(pmap{})) })
		add("GetData_struct "+o.name, func() bool {
			_, p := PanicVal(func() { o.getStruct(nil, E) })
			return p == (len(o.fields) > 0)
		})
	}
	add("UnboxError", func() bool { return ewd.UnboxError(nil) == nil })
	add("UnboxError_any", func() bool { return ewd.UnboxError_any(nil) == nil })
	add("UnboxError_struct", func() bool { return ewd.UnboxError_struct[sT1](nil) == nil })
	add("GetData_map", func() bool { m := ewd.GetData_map(nil); return m != nil && len(m) == 0 })
	add("GetData_map is fresh", func() bool { ewd.GetData_map(nil)["A"] = 1; return len(ewd.GetData_map(nil)) == 0 })
	add("HasParameter", func() bool { return !ewd.HasParameter(nil, "A") && !ewd.HasParameter(nil, "") })
	add("GetParameter", func() bool { v, ok := ewd.GetParameter(nil, "A"); return v == nil && !ok })
	c.RunN("nil", len(nils), func(t *T) {
		n := nils[t.Index]
		var ok bool
		v, p := PanicVal(func() { ok = n.f() })
		t.Check(ok && !p, "nil:"+n.name, "%s on the nil error (panic: %v)", n.name, v)
		t.Eval(fmt.Sprint(t.Index))
	})

	// plain errors without data
	c.RunN("plain", 4, func(t *T) {
		e := []error{codeErr{1}, errors.New("x"), fmt.Errorf("w %w", codeErr{2}), &lazyWrap{"l", codeErr{3}}}[t.Index]
		m := ewd.GetData_map(e)
		t.Check(m != nil && len(m) == 0, "plain", "GetData_map(%T) = %v", e, m)
		d := ewd.DeleteParameterFromError_any(e, "A")
		t.Check(d != nil && d.Error() == e.Error() && errors.Unwrap(d) == e, "plain", "deleting from %T", e)
		a := ewd.AddDataToError_any_params(e, P, "A", 1)
		t.Check(a != nil && a.Error() == e.Error() && errors.Is(a, e) && len(ewd.GetData_map(e)) == 0, "plain", "adding to %T", e)
		t.Eval(fmt.Sprint(t.Index))
	})
	c.Need("histories/modified what was passed in", int64(scaled(c, 10000)))
	c.Need("histories/modified map handed out", int64(scaled(c, 5000)))
	c.Need("histories/printed and validated", int64(scaled(c, 5000)))
	c.Need("histories/errors.Is true boxed target true", int64(scaled(c, 100)))
	c.Need("histories/errors.Is false boxed target true", int64(scaled(c, 100)))
	c.Need("histories/errors.Is true boxed target false", int64(scaled(c, 1000)))
	c.Need("histories/errors.As found", int64(scaled(c, 500)))
	c.Need("boxing/box any", int64(scaled(c, 300)))
	c.Need("boxing/box struct", int64(scaled(c, 50)))
}

// checkAs: errors.As finds the first suitable error in the chain.
func (w *eWorld) checkAs(a *em) {
	t := w.t
	if a.boxed != nil {
		return
	}
	for x := a; x != nil; x = x.base {
		if x.boxed != nil {
			return // a box deep in a foreign chain
		}
	}
	ch := a.chain()
	first := func(ok func(x *em) bool) error {
		for _, x := range ch {
			if ok(x) {
				return x.err
			}
		}
		return nil
	}
	cmp := func(what string, found bool, got, want error) {
		t.Check(found == (want != nil) && (!found || eEqual(got, want)), "as:"+what, "errors.As(%s, %s) = %v, %v; want %v", a.desc, what, got, found, want)
		if found {
			t.Class("errors.As found")
		} else {
			t.Class("errors.As not found")
		}
	}
	var ce codeErr
	ok := errors.As(a.err, &ce)
	cmp("codeErr", ok, ce, first(func(x *em) bool { _, is := x.err.(codeErr); return is }))
	var op *opaque
	ok = errors.As(a.err, &op)
	var ope error
	if ok {
		ope = op
	}
	cmp("*opaque", ok, ope, first(func(x *em) bool { _, is := x.err.(*opaque); return is }))
	var ue *userErr
	ok = errors.As(a.err, &ue)
	var uee error
	if ok {
		uee = ue
	}
	cmp("*userErr", ok, uee, first(func(x *em) bool { return x.user != nil }))
	var any ewd.ErrorWithData_any
	ok = errors.As(a.err, &any)
	var anye error
	if ok {
		anye = any
	}
	cmp("ErrorWithData_any", ok, anye, first(func(x *em) bool { return x.interpolater() }))
	for _, o := range eStructs {
		got, found := o.asTyped(a.err)
		promised := first(func(x *em) bool { return x.typed == o })
		if !found {
			t.Check(promised == nil, "as:ErrorWithData["+o.name+"]", "errors.As(%s) finds no ErrorWithData[%s]", a.desc, o.name)
			continue
		}
		want := first(func(x *em) bool { return o.isTyped(x.err) })
		t.Check(eEqual(got, want), "as:ErrorWithData["+o.name+"]", "errors.As(%s) finds another ErrorWithData[%s]", a.desc, o.name)
		t.Class("errors.As found typed")
	}
}
