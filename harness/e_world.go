package main

// Random histories of operations on errors with data, each step together with
// what the documentation says it must yield.

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"

	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
)

type eWorld struct {
	t        *T
	pool     []*em
	mutators []func() // change whatever the caller still holds of the inputs
	log      []string
	flavours int // interpolation strings: 1 well-formed only, 3 all flavours
	nextID   int
}

func (w *eWorld) note(f string, a ...interface{}) {
	if len(w.log) < 40 {
		w.log = append(w.log, fmt.Sprintf(f, a...))
	}
	w.t.Note(f, a...)
}

// pick a base error; nil with probability 1/8.
func (w *eWorld) pickBase() *em {
	if len(w.pool) == 0 || w.t.R.Intn(8) == 0 {
		return nil
	}
	// prefer recent errors: longer chains
	if w.t.R.Intn(2) == 0 {
		return w.pool[len(w.pool)-1]
	}
	return w.pool[w.t.R.Intn(len(w.pool))]
}

func (e *em) error() error {
	if e == nil {
		return nil
	}
	return e.err
}

func (e *em) unboxed() *em {
	if e != nil && e.boxed != nil {
		return e.boxed
	}
	return e
}

func (e *em) data() pmap {
	if e == nil || e.params == nil {
		return pmap{}
	}
	return e.params
}

func (w *eWorld) add(e *em) *em {
	if e.params == nil {
		e.params = pmap{}
	}
	e.snap = e.err.Error()
	e.desc = fmt.Sprintf("e%d", len(w.pool))
	w.pool = append(w.pool, e)
	return e
}

func (w *eWorld) foreign() *em {
	r := w.t.R
	w.nextID++
	switch r.Intn(4) {
	case 0:
		c := codeErr{r.Intn(5)}
		return &em{err: c, text: c.Error()}
	case 1:
		s := fmt.Sprintf("opaque %d", w.nextID)
		return &em{err: &opaque{s}, text: s}
	case 2:
		s := fmt.Sprintf("plain %d %%w {", w.nextID)
		return &em{err: errors.New(s), text: s}
	}
	return w.user(nil)
}

func (w *eWorld) user(inner *em) *em {
	r := w.t.R
	w.nextID++
	u := &userErr{id: w.nextID, data: pmap{}, bad: r.Intn(3) == 0}
	if inner != nil {
		u.inner = inner.err
		u.data = cloneMap(inner.data())
	}
	for k := r.Intn(3); k > 0; k-- {
		u.data[eNames[r.Intn(len(eNames))]] = eVal(r)
	}
	return &em{err: u, user: u, params: cloneMap(u.data), base: inner}
}

// wrapForeign wraps an error without the package's help.
func (w *eWorld) wrapForeign(b *em) *em {
	r := w.t.R
	if b.plain {
		b = b.boxed
	}
	w.nextID++
	switch r.Intn(3) {
	case 0:
		pre := fmt.Sprintf("wrapped %d: ", w.nextID)
		return &em{err: fmt.Errorf(pre+"%w", b.err), base: b, params: cloneMap(b.data()), eager: append([]eseg{{lit: pre}}, b.message(nil)...)}
	case 1:
		pre := fmt.Sprintf("lazy %d: ", w.nextID)
		return &em{err: &lazyWrap{pre, b.err}, base: b, params: cloneMap(b.data()), text: pre, lazy: true}
	}
	return w.user(b)
}

// box makes an incomparable variant of the error (nil if it cannot be boxed).
func (w *eWorld) box(b *em) *em {
	u := b.unboxed()
	if !u.interpolater() {
		return nil
	}
	from := b
	if b.plain {
		from = u
	}
	a := from.err.(ewd.ErrorWithData_any)
	switch k := w.t.R.Intn(3); {
	case k == 0:
		return &em{err: ewd.MakeErrorIncomparable(a), boxed: u, base: u.base, params: u.params, plain: true}
	case k == 1 && u.typed != nil && u.typed.isTyped(a):
		return &em{err: u.typed.boxStruct(a), boxed: u, base: u.base, params: u.params, typed: u.typed}
	}
	return &em{err: ewd.MakeErrorIncomparable_any(a), boxed: u, base: u.base, params: u.params}
}

func (w *eWorld) names() []string { return eNames }

// genAdd: new parameters as ordered pairs (names may repeat) and the map they
// amount to; o != nil: likely to complete that struct on top of old.
func (w *eWorld) genAdd(old pmap, o *structOps, mode int) (pairs []interface{}, m pmap) {
	r := w.t.R
	m = pmap{}
	put := func(k string, v interface{}) {
		pairs = append(pairs, k, v)
		m[k] = v
	}
	for k := r.Intn(4); k > 0; k-- {
		name := eNames[r.Intn(len(eNames))]
		if r.Intn(12) == 0 {
			name = []string{"", "lower", "!m", "A B", "MyInt"}[r.Intn(5)]
		}
		if v, ok := old[name]; ok && (mode == mAssert || r.Intn(4) == 0) && r.Intn(6) != 0 {
			put(name, v) // the value already there
		} else if o != nil && r.Intn(3) > 0 {
			continue
		} else {
			put(name, eVal(r))
		}
	}
	if o != nil && r.Intn(5) > 0 {
		_, ill := o.fits(old)
		for _, f := range o.fields {
			v, had := old[f.name]
			if !had || ill || r.Intn(4) == 0 {
				if had && mode == mAssert && r.Intn(8) > 0 {
					put(f.name, v)
				} else if r.Intn(12) > 0 {
					put(f.name, eValOf(r, f.typ))
				}
			}
		}
	}
	return
}

func (w *eWorld) genFmt(base *em) string {
	r := w.t.R
	if base != nil && r.Intn(4) == 0 {
		return ""
	}
	fl := 0
	if w.flavours > 1 && r.Intn(3) == 0 {
		fl = 1 + r.Intn(w.flavours-1)
	}
	return eGenString(r, fl, w.names())
}

// ours builds the reference for an error made by the package.
func ours(base *em, s string, params pmap, o *structOps) *em {
	base = base.unboxed()
	if s == "" {
		s = "%w"
		if base.interpolater() {
			s = "$w"
		}
	}
	e := &em{base: base, params: params, fmtStr: s, ours: true, typed: o}
	e.parsed, e.parseOK = eParse(s)
	e.semOK = e.parseOK && eSemOK(e.parsed)
	return e
}

var eOpNames = []string{"New_any_params", "New_any_map", "New_params", "New_map", "New_struct", "Add_any_params", "Add_any_map", "Add_params", "Add_map", "Add_struct", "Delete_any", "Delete", "As", "foreign", "wrap foreign", "box"}

// step performs one random operation. It returns the new error's reference, or
// nil if the operation panicked as it must or yielded nil as it must.
func (w *eWorld) step() *em {
	t, r := w.t, w.t.R
	op := r.Intn(len(eOpNames))
	base := w.pickBase()
	opn := eOpNames[op]
	if op == 13 || base == nil && op > 13 {
		e := w.add(w.foreign())
		w.note("%s = %T %q", e.desc, e.err, e.snap)
		return e
	}
	switch op {
	case 14:
		e := w.add(w.wrapForeign(base))
		w.note("%s = %T wrapping %s", e.desc, e.err, base.desc)
		return e
	case 15:
		e := w.box(base)
		if e == nil {
			return nil
		}
		w.add(e)
		w.note("%s = box of %s", e.desc, base.desc)
		t.Class("op box")
		return e
	}
	mode := r.Intn(3)
	asZero := r.Intn(3) == 0
	miss := ewd.EnsureDataIsPresent
	if asZero {
		miss = ewd.MissingDataAsZero
	}
	var o *structOps
	switch opn {
	case "New_params", "New_map", "New_struct", "Add_params", "Add_map", "Add_struct", "Delete", "As":
		o = eStructs[r.Intn(len(eStructs))]
	}
	old := base.data()
	if base != nil {
		old = base.unboxed().data()
	}
	s := w.genFmt(base)
	pairs, add := w.genAdd(old, o, mode)
	var modeArg []ewd.PreviousDataTreatment
	if opn == "New_struct" || opn == "Add_struct" {
		add = o.gen(r)
		if mode == mAssert && r.Intn(4) > 0 { // mostly agree with the old data
			for _, f := range o.fields {
				if v, ok := old[f.name]; ok && v != nil {
					if _, ill := (&structOps{fields: []eField{f}}).fits(pmap{f.name: v}); !ill {
						add[f.name] = v
					}
				}
			}
		}
		modeArg = []ewd.PreviousDataTreatment{eModes[mode]}
		if mode == mReplace && r.Intn(2) == 0 {
			modeArg = nil
		}
	}
	delName := eNames[r.Intn(len(eNames))]
	if ks := sortedKeys(old); len(ks) > 0 && r.Intn(3) > 0 {
		delName = ks[r.Intn(len(ks))]
	}
	callerMap := cloneMap(add)
	if len(callerMap) == 0 && r.Intn(2) == 0 {
		callerMap = nil
	}
	be := base.error()
	bd := "nil"
	if base != nil {
		bd = base.desc
	}

	// what must happen
	var want pmap
	ok := true
	wantNil := base == nil && op >= 5 && op <= 12
	if op >= 5 {
		s = ""
	}
	if base == nil && s == "" && !wantNil {
		ok = false
	}
	if ok && !wantNil {
		switch opn {
		case "Delete_any", "Delete":
			want = cloneMap(old)
			delete(want, delName)
		case "As":
			want = cloneMap(old)
		default:
			want, ok = eMerge(old, add, mode)
		}
		if ok && o != nil {
			want, ok = o.complete(want, asZero)
		}
	}

	// do it
	var got ewd.ErrorWithData_any
	var wipe func()
	asOK := true
	var real error
	desc := fmt.Sprintf("%s(base %s, %q, mode %v, missing %v, add %s, delete %q)", opn, bd, s, eModes[mode], miss, showMap(add), delName)
	if o != nil {
		desc = o.name + "." + desc
	}
	val, panicked := PanicVal(func() {
		switch opn {
		case "New_any_params":
			got = ewd.NewErrorWithData_any_params(be, s, eModes[mode], pairs...)
		case "New_any_map":
			got = ewd.NewErrorWithData_any_map(be, s, eModes[mode], callerMap)
		case "New_params":
			got = o.newParams(be, s, eModes[mode], miss, pairs...)
		case "New_map":
			got = o.newMap(be, s, eModes[mode], miss, callerMap)
		case "New_struct":
			got, wipe = o.newStruct(be, s, add, modeArg...)
		case "Add_any_params":
			got = ewd.AddDataToError_any_params(be, eModes[mode], pairs...)
		case "Add_any_map":
			got = ewd.AddDataToError_any_map(be, eModes[mode], callerMap)
		case "Add_params":
			got = o.addParams(be, eModes[mode], miss, pairs...)
		case "Add_map":
			got = o.addMap(be, eModes[mode], miss, callerMap)
		case "Add_struct":
			got, wipe = o.addStruct(be, add, modeArg...)
		case "Delete_any":
			got = ewd.DeleteParameterFromError_any(be, delName)
		case "Delete":
			got = o.del(be, delName, miss)
		case "As":
			got, asOK = o.as(be, miss)
		}
	})
	if !panicked && got != nil {
		real = got
	}
	if opn == "As" && !panicked {
		if !ok || wantNil {
			t.Check(asOK == wantNil, "op:As:ok", "%s: ok = %v, want %v (data %s)", desc, asOK, wantNil, showMap(old))
			t.Check(!wantNil || got == nil, "op:As:nil", "%s = %v, want nil", desc, got)
			t.Classf("op As ok %v nil %v", asOK, wantNil)
			return nil
		}
		t.Check(asOK, "op:As:ok", "%s: conversion failed on data %s", desc, showMap(old))
		if !asOK {
			return nil
		}
	}
	if opn == "As" && panicked {
		t.Failf("op:As:panic", "%s panicked: %v", desc, val)
		return nil
	}
	t.Classf("op %s ok %v nil %v", opn, ok, wantNil)
	if !ok {
		t.Check(panicked, "op:"+opn+":nopanic", "%s on data %s must panic, but returned %v", desc, showMap(old), real)
		return nil
	}
	if panicked {
		t.Failf("op:"+opn+":panic", "%s on data %s panicked: %v", desc, showMap(old), val)
		return nil
	}
	if wantNil {
		t.Check(got == nil, "op:"+opn+":nil", "%s = %v, want nil", desc, got)
		return nil
	}
	if got == nil {
		t.Failf("op:"+opn+":gotnil", "%s = nil", desc)
		return nil
	}
	e := ours(base, s, want, o)
	e.err = real
	w.add(e)
	w.note("%s = %s", e.desc, desc)
	t.Check(o == nil || o.isTyped(real), "op:"+opn+":type", "%s: the result is not an ErrorWithData[%v]", desc, o)
	w.mutators = append(w.mutators, func() {
		for k := range callerMap {
			callerMap[k] = "changed by the caller"
		}
		if callerMap != nil {
			callerMap["Added"] = 1
			delete(callerMap, "A")
		}
		for i := range pairs {
			pairs[i] = "changed by the caller"
		}
		if wipe != nil {
			wipe()
		}
	})
	return e
}

func sortedKeys(m pmap) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// verifyData compares every query on the error with the reference data.
func (w *eWorld) verifyData(e *em) {
	t := w.t
	if e.plain {
		return
	}
	want := e.data()
	m := ewd.GetData_map(e.err)
	t.Check(m != nil && sameMap(m, want), "data:GetData_map", "GetData_map(%s) = %s, want %s", e.desc, showMap(m), showMap(want))
	names := append([]string{"", "Nope", "lower", "MyInt", "!m"}, eNames...)
	for _, n := range names {
		wv, wok := want[n]
		v, ok := ewd.GetParameter(e.err, n)
		t.Check(ok == wok && eSame(v, wv), "data:GetParameter", "GetParameter(%s, %q) = %v, %v; want %v, %v", e.desc, n, v, ok, wv, wok)
		h := ewd.HasParameter(e.err, n)
		t.Check(h == wok, "data:HasParameter", "HasParameter(%s, %q) = %v, want %v", e.desc, n, h, wok)
		if x, is := e.err.(ewd.ErrorWithData_any); is {
			v, ok = x.GetParameter(n)
			t.Check(ok == wok && eSame(v, wv) && x.HasParameter(n) == wok, "data:methods", "%s.GetParameter(%q) = %v, %v, HasParameter %v; want %v, %v", e.desc, n, v, ok, x.HasParameter(n), wv, wok)
		}
	}
	if x, is := e.err.(ewd.ErrorWithData_any); is {
		mm := x.GetData_map()
		t.Check(mm != nil && sameMap(mm, want), "data:map method", "%s.GetData_map() = %s, want %s", e.desc, showMap(mm), showMap(want))
	}
	for _, o := range eStructs {
		missing, ill := o.fits(want)
		good := len(missing) == 0 && !ill
		t.Check(o.hasData(e.err) == good, "data:HasData", "HasData[%s](%s) = %v with data %s", o.name, e.desc, !good, showMap(want))
		for _, asZero := range []bool{false, true} {
			mode := ewd.EnsureDataIsPresent
			if asZero {
				mode = ewd.MissingDataAsZero
			}
			var s pmap
			_, p := PanicVal(func() { s = o.getStruct(e.err, mode) })
			wantPanic := ill || !asZero && len(missing) > 0
			t.Check(p == wantPanic, "data:GetData_struct:panic", "GetData_struct[%s](%s, %v) panicked: %v with data %s", o.name, e.desc, mode, p, showMap(want))
			if !p {
				t.Check(sameMap(s, o.project(want)), "data:GetData_struct", "GetData_struct[%s](%s, %v) = %s, want %s", o.name, e.desc, mode, showMap(s), showMap(o.project(want)))
			}
		}
		t.Classf("struct %s good %v ill %v", o.name, good, ill)
	}
	if e.typed != nil && e.typed.isTyped(e.err) {
		var s pmap
		v, p := PanicVal(func() { s = e.typed.ownStruct(e.err) })
		if p {
			t.Failf("data:GetData_struct method", "%s.GetData_struct() for %s panicked: %v (data %s)", e.desc, e.typed.name, v, showMap(want))
		} else {
			t.Check(sameMap(s, e.typed.project(want)), "data:GetData_struct method", "%s.GetData_struct() for %s = %s, want %s", e.desc, e.typed.name, showMap(s), showMap(e.typed.project(want)))
		}
	}
	t.Eval(showMapTypes(want), fmt.Sprint(len(e.chain())))
}

// showMapTypes is showMap without addresses.
func showMapTypes(m pmap) string {
	s := ""
	for _, k := range sortedKeys(m) {
		v := m[k]
		switch v.(type) {
		case *int, func(), dynVal, grumpy:
			s += fmt.Sprintf("%s:%T ", k, v)
		default:
			s += fmt.Sprintf("%s:%T(%v) ", k, v, v)
		}
	}
	return s
}

var _ = rand.Int
