package main

// E01: data and merge rules.

import (
	"fmt"
	"reflect"

	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
)

func init() { register("E01", 20, checkE01) }

type unexp struct{ a int }
type badUnexp struct {
	A int
	b int
}
type badPtr struct {
	*sT1
	B int
}
type badAmb struct {
	sT1
	other1
}
type other1 struct{ A string }
type badShadow struct { // S of the documentation
	sT1
	wrap9
}
type badDeep struct{ inbad }
type inbad struct {
	A    int
	priv bool
}
type okDeepShadow struct {
	lvl1
	A string
}
type lvl1 struct {
	lvl2
	B int
}
type lvl2 struct {
	A int
	B string
}
type PInt *int
type okPtr struct{ *MyInt }
type badAmb3 struct { // same depth through different paths, deeper down
	wrapA
	wrapB
}
type wrapA struct{ sT1 }
type wrapB struct{ other1 }
type okSaved struct {
	wrapA
	wrapB
	A []int
}
type badSiblingShadow struct { // A of lvl2 is not below sT1
	sT1
	lvl1
}
type badEmbeddedLower struct{ lowerInt }
type lowerInt int

func checkE01(c *Ctx) {
	c.level = "exploration"
	c.Rule("Random histories of 12 operations (create, add, delete, convert, wrap by foreign errors, box) on a growing pool of errors; a reference model of the parameter map decides what each must yield (or that it must panic); then every query function is compared with the reference on the new error and on a random old one. 11 struct types; evaluations are counted as distinct per data contents and chain length.")
	c.Assume("values are compared by type and identity of what they refer to")

	c.Run("histories", 20000, func(t *T) {
		w := &eWorld{t: t, flavours: 1}
		w.add(w.foreign())
		for i := 0; i < 14; i++ {
			if e := w.step(); e != nil {
				w.verifyData(e)
				if !e.plain {
					t.Classf("chain length %d", len(e.chain()))
				}
			}
			if len(t.failed) > 0 {
				return
			}
		}
		w.verifyData(w.pool[t.R.Intn(len(w.pool))])
		t.Sample("%v", w.log)
	})

	manyTypesGroup(c)

	// struct types of many shapes: every field comes back from where it was put
	c.Run("shapes", 150*len(eShapes), func(t *T) { shapeCase(t, eShapes[t.Index%len(eShapes)]) })
	for _, o := range eShapes {
		c.Need("shapes/"+o.name, int64(scaled(c, 100)))
	}

	// struct types: which are suitable, and their field names
	type row struct {
		name   string
		get    func() error
		good   bool
		fields []string
		all    func([]string)
		one    func(string)
	}
	rows := []row{
		{"int", ewd.StructSuitableForErrorsWithData[int], false, nil, nil, nil},
		{"pointer", ewd.StructSuitableForErrorsWithData[*sT1], false, nil, nil, nil},
		{"interface", ewd.StructSuitableForErrorsWithData[error], false, nil, nil, nil},
		{"map", ewd.StructSuitableForErrorsWithData[map[string]int], false, nil, nil, nil},
		{"only unexported", ewd.StructSuitableForErrorsWithData[unexp], false, nil, nil, nil},
		{"one unexported", ewd.StructSuitableForErrorsWithData[badUnexp], false, nil, nil, nil},
		{"embedded struct pointer", ewd.StructSuitableForErrorsWithData[badPtr], false, nil, nil, nil},
		{"ambiguous", ewd.StructSuitableForErrorsWithData[badAmb], false, nil, nil, nil},
		{"shadowing elsewhere", ewd.StructSuitableForErrorsWithData[badShadow], false, nil, nil, nil},
		{"unexported, deep", ewd.StructSuitableForErrorsWithData[badDeep], false, nil, nil, nil},
		{"ambiguous, deep", ewd.StructSuitableForErrorsWithData[badAmb3], false, nil, nil, nil},
		{"shadowing a sibling's subtree", ewd.StructSuitableForErrorsWithData[badSiblingShadow], false, nil, nil, nil},
		{"embedded unexported non-struct", ewd.StructSuitableForErrorsWithData[badEmbeddedLower], false, nil, nil, nil},
		{"deep shadowing", ewd.StructSuitableForErrorsWithData[okDeepShadow], true, []string{"A", "B"}, ewd.CheckParametersForStruct_all[okDeepShadow], ewd.CheckParameterForStruct[okDeepShadow]},
		{"embedded pointer to non-struct", ewd.StructSuitableForErrorsWithData[okPtr], true, []string{"MyInt"}, ewd.CheckParametersForStruct_all[okPtr], ewd.CheckParameterForStruct[okPtr]},
		{"ambiguity resolved above", ewd.StructSuitableForErrorsWithData[okSaved], true, []string{"A"}, ewd.CheckParametersForStruct_all[okSaved], ewd.CheckParameterForStruct[okSaved]},
	}
	for _, o := range append(append([]*structOps(nil), eStructs...), eShapes...) {
		r := row{o.name, o.suitable, true, nil, o.checkAll, o.checkOne}
		for _, f := range o.fields {
			r.fields = append(r.fields, f.name)
		}
		rows = append(rows, r)
	}
	c.RunN("struct types", len(rows), func(t *T) {
		r := rows[t.Index]
		for k := 0; k < 2; k++ { // the second call is answered from the cache
			err := r.get()
			t.Check((err == nil) == r.good, "suitable:"+r.name, "StructSuitableForErrorsWithData for %s: %v", r.name, err)
		}
		t.Eval(r.name)
		t.Classf("suitable %v", r.good)
		if !r.good || len(t.failed) > 0 {
			return
		}
		call := func(f func()) bool { _, p := PanicVal(f); return !p }
		rev := append([]string(nil), r.fields...)
		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		t.Check(call(func() { r.all(r.fields) }) && call(func() { r.all(rev) }), "checkall:"+r.name, "CheckParametersForStruct_all[%s](%v) panics", r.name, r.fields)
		t.Check(!call(func() { r.all(append([]string{"Nope"}, r.fields...)) }), "checkall extra:"+r.name, "CheckParametersForStruct_all[%s] accepts an additional name", r.name)
		for i, f := range r.fields {
			less := append(append([]string(nil), r.fields[:i]...), r.fields[i+1:]...)
			t.Check(!call(func() { r.all(less) }), "checkall less:"+r.name, "CheckParametersForStruct_all[%s](%v) accepts a missing %s", r.name, less, f)
			t.Check(!call(func() { r.all(append(less, "Nope")) }), "checkall swap:"+r.name, "CheckParametersForStruct_all[%s] accepts another name for %s", r.name, f)
			t.Check(!call(func() { r.all(append(append([]string(nil), r.fields...), f)) }), "checkall dup:"+r.name, "CheckParametersForStruct_all[%s] accepts %s twice", r.name, f)
			t.Check(call(func() { r.one(f) }), "checkone:"+r.name, "CheckParameterForStruct[%s](%s) panics", r.name, f)
		}
		for _, f := range []string{"Nope", "", "sT1", "sT2", "lvl1", "wrapA"} {
			t.Check(!call(func() { r.one(f) }), "checkone other:"+r.name, "CheckParameterForStruct[%s](%q) does not panic", r.name, f)
		}
	})
	subs := []struct {
		name string
		f    func()
		ok   bool
	}{
		{"T0<T1", ewd.CheckIsSubtype[sT0, sT1], true}, {"T1<T2", ewd.CheckIsSubtype[sT1, sT2], true},
		{"T2<T1", ewd.CheckIsSubtype[sT2, sT1], false}, {"T1<T3", ewd.CheckIsSubtype[sT1, sT3], true},
		{"T3<T1", ewd.CheckIsSubtype[sT3, sT1], false}, {"T4<T2 (names only)", ewd.CheckIsSubtype[sT4, sT2], true},
		{"T2<T4", ewd.CheckIsSubtype[sT2, sT4], true}, {"T5<T6", ewd.CheckIsSubtype[sT5, sT6], true}, {"T6<T5", ewd.CheckIsSubtype[sT6, sT5], false},
		{"T10<T7", ewd.CheckIsSubtype[sT10, sT7], false},
	}
	c.RunN("subtypes", len(subs), func(t *T) {
		s := subs[t.Index]
		_, p := PanicVal(s.f)
		t.Check(!p == s.ok, "subtype:"+s.name, "CheckIsSubtype %s: panicked %v", s.name, p)
		t.Eval(s.name)
	})

	// misuse that is documented to panic
	base := ewd.NewErrorWithData_any_params(nil, "base", ewd.ReplacePreviousData, "A", 1)
	var zeroMode ewd.PreviousDataTreatment
	var zeroMiss ewd.MissingDataTreatment
	two := []ewd.PreviousDataTreatment{ewd.ReplacePreviousData, ewd.PreferPreviousData}
	P, E := ewd.ReplacePreviousData, ewd.EnsureDataIsPresent
	mis := []struct {
		name string
		f    func()
	}{
		{"odd params", func() { ewd.NewErrorWithData_any_params(base, "x", P, "A") }},
		{"odd params T", func() { ewd.NewErrorWithData_params[sT1](base, "x", P, E, "A", 1, "B") }},
		{"odd params add", func() { ewd.AddDataToError_any_params(base, P, "A", 1, "B") }},
		{"non-string name", func() { ewd.NewErrorWithData_any_params(base, "x", P, 1, "A") }},
		{"non-string name 2", func() { ewd.AddDataToError_params[sT1](base, P, E, "A", 1, 5, 5) }},
		{"nil name", func() { ewd.NewErrorWithData_any_params(base, "x", P, nil, "A") }},
		{"nothing to say", func() { ewd.NewErrorWithData_any_params(nil, "", P) }},
		{"nothing to say map", func() { ewd.NewErrorWithData_any_map(nil, "", P, pmap{"A": 1}) }},
		{"nothing to say struct", func() { ewd.NewErrorWithData_struct(nil, "", &sT1{1}) }},
		{"nothing to say T", func() { ewd.NewErrorWithData_params[sT1](nil, "", P, E, "A", 1) }},
		{"nothing to say map T", func() { ewd.NewErrorWithData_map[sT1](nil, "", P, E, pmap{"A": 1}) }},
		{"two modes", func() { ewd.NewErrorWithData_struct(base, "x", &sT1{1}, two...) }},
		{"two modes add", func() { ewd.AddDataToError_struct(base, &sT1{1}, two...) }},
		{"zero mode params", func() { ewd.NewErrorWithData_any_params(base, "x", zeroMode, "A", 1) }},
		{"zero mode map", func() { ewd.AddDataToError_any_map(base, zeroMode, pmap{"A": 1}) }},
		{"zero mode struct", func() { ewd.NewErrorWithData_struct(base, "x", &sT1{1}, zeroMode) }},
		{"zero missing mode", func() { ewd.NewErrorWithData_params[sT2](base, "x", P, zeroMiss) }},
		{"zero missing mode get", func() { ewd.GetData_struct[sT2](base, zeroMiss) }},
		{"zero missing mode as", func() { ewd.AsErrorWithData[sT2](base, zeroMiss) }},
		{"unsuitable new", func() { ewd.NewErrorWithData_struct(base, "x", &badUnexp{}) }},
		{"unsuitable params", func() { ewd.NewErrorWithData_params[badAmb](base, "x", P, E) }},
		{"unsuitable map", func() { ewd.NewErrorWithData_map[badShadow](base, "x", P, ewd.MissingDataAsZero, nil) }},
		{"unsuitable get", func() { ewd.GetData_struct[badUnexp](base, ewd.MissingDataAsZero) }},
		{"unsuitable has", func() { ewd.HasData[badPtr](base) }},
		{"unsuitable as", func() { ewd.AsErrorWithData[badUnexp](base, ewd.MissingDataAsZero) }},
		{"unsuitable int", func() { ewd.NewErrorWithData_struct(base, "x", new(int)) }},
		{"unsuitable check", func() { ewd.CheckParameterForStruct[badUnexp]("A") }},
		{"unsuitable check all", func() { ewd.CheckParametersForStruct_all[badUnexp]([]string{"A", "b"}) }},
	}
	c.RunN("misuse", len(mis), func(t *T) {
		m := mis[t.Index]
		t.MustPanic("misuse:"+m.name, m.f, "%s", m.name)
		t.Check(sameMap(ewd.GetData_map(base), pmap{"A": 1}) && base.Error() == "base", "misuse changed:"+m.name, "misuse changed the base error")
		t.Eval(m.name)
	})
	for _, op := range eOpNames[:12] {
		c.Need("histories/op "+op+" ok true nil false", int64(scaled(c, 500)))
		if op[:2] != "De" && op != "Delete_any" {
			c.Need("histories/op "+op+" ok false nil false", int64(scaled(c, 50)))
		}
	}
	for _, o := range eStructs {
		c.Need(fmt.Sprintf("histories/struct %s good true ill false", o.name), int64(scaled(c, 100)))
		if len(o.fields) > 0 {
			c.Need(fmt.Sprintf("histories/struct %s good false ill true", o.name), int64(scaled(c, 10)))
		}
	}
	c.Need("histories/op As ok true nil false", 100)
	c.Need("histories/op As ok false nil false", 50)
}

func shapeCase(t *T, o *structOps) {
	r := t.R
	P, E := ewd.ReplacePreviousData, ewd.EnsureDataIsPresent
	vals := o.gen(r)
	var list []interface{}
	for _, i := range r.Perm(len(o.fields)) {
		list = append(list, o.fields[i].name, vals[o.fields[i].name])
	}
	var e ewd.ErrorWithData_any
	how := r.Intn(5)
	want := cloneMap(vals)
	switch how {
	case 0:
		var wipe func()
		e, wipe = o.newStruct(nil, "text", vals)
		wipe() // the error holds a copy
	case 1:
		e = o.newParams(nil, "text", P, E, list...)
	case 2:
		m := cloneMap(vals)
		e = o.newMap(nil, "text", P, E, m)
		for k := range m {
			delete(m, k)
		}
	case 3:
		base := ewd.NewErrorWithData_any_params(nil, "base", P, "Extra", 7)
		e, _ = o.addStruct(base, vals)
		want["Extra"] = 7
	default: // some fields from an earlier error
		k := r.Intn(len(o.fields)+1) * 2
		base := ewd.NewErrorWithData_any_params(nil, "base", P, list[:k]...)
		e = o.addParams(base, P, E, list[k:]...)
	}
	t.Note("%s how %d: %s", o.name, how, showMap(vals))
	check := func(e error, want pmap, what string) {
		t.Check(sameMap(ewd.GetData_map(e), want), "shape map", "%s (%s): data %s, want %s", o.name, what, showMap(ewd.GetData_map(e)), showMap(want))
		proj := o.project(want)
		t.Check(sameMap(o.getStruct(e, E), proj), "shape struct", "%s (%s): struct %s, want %s", o.name, what, showMap(o.getStruct(e, E)), showMap(proj))
		for _, f := range o.fields {
			v, ok := ewd.GetParameter(e, f.name)
			t.Check(ok && ewd.HasParameter(e, f.name) && eSame(v, want[f.name]), "shape param", "%s (%s): parameter %s is %v (present %v), want %v", o.name, what, f.name, v, ok, want[f.name])
		}
		if o.isTyped(e) {
			t.Check(sameMap(o.ownStruct(e), proj), "shape own struct", "%s (%s): GetData_struct method %s, want %s", o.name, what, showMap(o.ownStruct(e)), showMap(proj))
		}
	}
	check(e, want, "created")
	t.Class(o.name)
	t.Classf("how %d", how)
	t.Eval(showMap(vals), fmt.Sprint(how))
	if len(t.failed) > 0 || len(o.fields) == 0 {
		return
	}
	// change one field and convert back
	f := o.fields[r.Intn(len(o.fields))]
	v := eValOf(r, f.typ)
	if v == nil {
		v = reflect.Zero(f.typ).Interface()
	}
	want2 := cloneMap(want)
	want2[f.name] = v
	e2, ok := o.as(ewd.AddDataToError_any_params(e, P, f.name, v), E)
	if !ok {
		t.Failf("shape as", "%s: not convertible after changing %s to %v", o.name, f.name, v)
		return
	}
	check(e2, want2, "one changed")
	check(e, want, "after a change of another")
	// remove it: no longer convertible, zero on request
	e3 := ewd.DeleteParameterFromError_any(e2, f.name)
	if _, ok := o.as(e3, E); ok {
		t.Failf("shape delete", "%s: still convertible without %s", o.name, f.name)
	}
	delete(want2, f.name)
	t.Check(sameMap(ewd.GetData_map(e3), want2), "shape delete map", "%s: data without %s: %s, want %s", o.name, f.name, showMap(ewd.GetData_map(e3)), showMap(want2))
	t.Check(sameMap(o.getStruct(e3, ewd.MissingDataAsZero), o.project(want2)), "shape zero", "%s: struct with zero %s", o.name, f.name)
}
