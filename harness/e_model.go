package main

// Reference model of errors with data: every error the harness makes is an *em
// holding the real error and what the documentation says about it.

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
)

type pmap = map[string]interface{}

type em struct {
	desc   string
	err    error
	base   *em  // what it wraps (after unboxing)
	params pmap // data found when starting from this error
	// message
	text    string     // exact message prefix of foreign errors
	fmtStr  string     // interpolation string, for errors made by the package
	parsed  []*enode   // its parse
	parseOK bool       // no parse error
	semOK   bool       // no violated syntax condition
	ours    bool       // made by the package
	user    *userErr   // user-defined ErrorWithData_any
	eager   []eseg     // message frozen at creation (fmt.Errorf)
	lazy    bool       // lazyWrap
	boxed   *em        // what the box holds
	plain   bool       // a box that only promises the error interface: its data are not specified
	typed   *structOps // made as ErrorWithData of this type
	snap    string     // message at creation
}

func (e *em) interpolater() bool { return e.ours || e.user != nil }

// message: the expected message, printed with the given passed parameters
// (nil: none, i.e. its own).
func (e *em) message(passed pmap) []eseg {
	switch {
	case e.boxed != nil:
		return e.boxed.message(passed)
	case e.ours:
		if passed == nil {
			passed = e.params
		}
		if !e.parseOK || !e.semOK {
			return []eseg{{hole: true}}
		}
		return eEval(e.parsed, e.params, passed, e.base)
	case e.user != nil:
		return []eseg{{lit: e.user.Error_interpolate(passed)}}
	case e.eager != nil:
		return e.eager
	case e.lazy:
		return append([]eseg{{lit: e.text}}, e.base.message(nil)...)
	}
	return []eseg{{lit: e.text}}
}

func (e *em) wellFormed() bool { return e.parseOK && e.semOK }

// validFinal: ValidateError_Params(passed) (nil: own parameters) must succeed.
func (e *em) validFinal(passed pmap) bool {
	switch {
	case e.boxed != nil:
		return e.boxed.validFinal(passed)
	case e.user != nil:
		return e.user.validParams(passed) == nil
	}
	if passed == nil {
		passed = e.params
	}
	return e.wellFormed() && eFinal(e.parsed, e.params, passed, e.base)
}

func (e *em) validBase() int {
	switch {
	case e.boxed != nil:
		return e.boxed.validBase()
	case e.user != nil:
		if e.user.ValidateError_Base() == nil {
			return vGood
		}
		return vBad
	}
	if !e.wellFormed() {
		return vBad
	}
	return eBase(e.parsed, e.params, e.base)
}

// chain lists e and what it wraps, in order.
func (e *em) chain() (out []*em) {
	if e.boxed != nil {
		e = e.boxed
	}
	for ; e != nil; e = e.base {
		if e.boxed != nil {
			e = e.boxed
		}
		out = append(out, e)
	}
	return
}

// ---- foreign errors ----

// codeErr is a comparable plain error.
type codeErr struct{ N int }

func (c codeErr) Error() string { return fmt.Sprintf("code %d", c.N) }

// lazyWrap asks the wrapped error for its message on every call.
type lazyWrap struct {
	pre   string
	inner error
}

func (l *lazyWrap) Error() string { return l.pre + l.inner.Error() }
func (l *lazyWrap) Unwrap() error { return l.inner }

// userErr is a user-defined ErrorWithData_any.
type userErr struct {
	id    int
	data  pmap
	inner error
	bad   bool // its validation fails for passed parameters without key "A"
}

func showKeys(m pmap) string {
	if m == nil {
		return "none"
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}
func (u *userErr) Error() string { return u.Error_interpolate(nil) }
func (u *userErr) Error_interpolate(p pmap) string {
	return fmt.Sprintf("user %d (passed %s)", u.id, showKeys(p))
}
func (u *userErr) HasParameter(n string) bool                     { _, ok := u.data[n]; return ok }
func (u *userErr) GetParameter(n string) (v interface{}, ok bool) { v, ok = u.data[n]; return }
func (u *userErr) GetData_map() pmap {
	m := pmap{}
	for k, v := range u.data {
		m[k] = v
	}
	return m
}
func (u *userErr) Unwrap() error         { return u.inner }
func (u *userErr) ValidateSyntax() error { return nil }
func (u *userErr) ValidateError_Final() error {
	return u.validParams(nil)
}
func (u *userErr) ValidateError_Base() error { return nil }
func (u *userErr) validParams(p pmap) error {
	if !u.bad {
		return nil
	}
	if p == nil {
		p = u.data
	}
	if _, ok := p["A"]; !ok {
		return errors.New("user error needs A")
	}
	return nil
}
func (u *userErr) ValidateError_Params(p pmap) error { return u.validParams(p) }
func (u *userErr) Is(target error) bool              { return error(u) == ewd.UnboxError(target) }
func (u *userErr) CanMakeIncomparable()              {}

var _ ewd.ErrorWithData_any = (*userErr)(nil)

// opaque has no Unwrap.
type opaque struct{ s string }

func (o *opaque) Error() string { return o.s }

// ---- values ----

type namedInt int
type pairVal struct {
	P int
	Q string
}
type loud struct{ s string }

func (l loud) String() string { return "loud:" + l.s }

type grumpy struct{}

func (grumpy) String() string { panic("grumpy") }

type dynVal struct{ V interface{} }

// errors as values: fmt treats them, their Format method, and panics of nil receivers specially
type ptrErr struct{ s string }

func (p *ptrErr) Error() string { return "ptr:" + p.s }

type fmtErr struct{ s string }

func (f fmtErr) Error() string { return "Error() of " + f.s }
func (f fmtErr) Format(s fmt.State, verb rune) {
	_, plus := s.Precision()
	fmt.Fprintf(s, "formatted %s %c %v", f.s, verb, plus)
}

type grumpyErr struct{}

func (grumpyErr) Error() string { panic("grumpy error") }

type goStr struct{}

func (goStr) GoString() string { return "go string" }

var somePtrErr = &ptrErr{"e"}

var somePtr = new(int)
var otherPtr = new(int)
var someSlice = []byte{1, 2, 3}
var someFunc = func() {}
var someMap = map[string]int{"k": 1}

// eVals: values by name of the type wanted ("" any).
func eVal(r *rand.Rand) interface{} {
	switch r.Intn(21) {
	case 0, 1, 2:
		return r.Intn(4)
	case 3, 4:
		return []string{"", "x", "two words", "%v{A}", "日本"}[r.Intn(5)]
	case 5:
		return nil
	case 6:
		return somePtr
	case 7:
		return (*int)(nil)
	case 8:
		return someSlice
	case 9:
		return []byte(nil)
	case 10:
		return r.Intn(2) == 0
	case 11:
		return 1.5
	case 12:
		return namedInt(r.Intn(3))
	case 13:
		return pairVal{r.Intn(2), "q"}
	case 14:
		return io.EOF
	case 15:
		return loud{"s"}
	case 16:
		return []int{r.Intn(9), r.Intn(9)}
	case 17:
		return uint8(r.Intn(3))
	case 18:
		return someMap
	}
	switch r.Intn(10) {
	case 4:
		return (*ptrErr)(nil)
	case 5:
		return somePtrErr
	case 6:
		return fmtErr{[]string{"f", "%d"}[r.Intn(2)]}
	case 7:
		return grumpyErr{}
	case 8:
		return goStr{}
	case 9:
		return codeErr{r.Intn(3)}
	case 0:
		return grumpy{}
	case 1:
		return dynVal{[]int{1}}
	case 2:
		return otherPtr
	}
	return someFunc
}

// eValOf: a value of exactly the type (or assignable, for interfaces).
func eValOf(r *rand.Rand, ty reflect.Type) interface{} {
	if ty.Kind() == reflect.Interface && ty.NumMethod() > 0 { // error or Stringer
		if ty == reflect.TypeOf((*error)(nil)).Elem() {
			return []interface{}{io.EOF, codeErr{r.Intn(3)}, nil, (*ptrErr)(nil), fmtErr{"g"}, grumpyErr{}}[r.Intn(6)]
		}
		return []interface{}{loud{"a"}, loud{"b"}, nil}[r.Intn(3)]
	}
	if ty.Kind() == reflect.Interface {
		return eVal(r)
	}
	switch reflect.Zero(ty).Interface().(type) {
	case int:
		return r.Intn(5)
	case string:
		return []string{"", "s", "long string", "%w"}[r.Intn(4)]
	case bool:
		return r.Intn(2) == 0
	case []byte:
		return [][]byte{nil, {}, {7}, {1, 2}}[r.Intn(4)]
	case *int:
		return []*int{nil, somePtr, otherPtr}[r.Intn(3)]
	case namedInt:
		return namedInt(r.Intn(4))
	case uint8:
		return uint8(r.Intn(4))
	case float64:
		return float64(r.Intn(4)) / 2
	case pairVal:
		return pairVal{r.Intn(3), "pq"}
	case map[string]int:
		return []map[string]int{nil, someMap}[r.Intn(2)]
	case MyInt:
		return MyInt(r.Intn(5))
	case func():
		return []func(){nil, someFunc}[r.Intn(2)]
	case [2]uint16:
		return [2]uint16{uint16(r.Intn(3)), 9}
	}
	return reflect.Zero(ty).Interface()
}

// eEqual is ==, false if the values cannot be compared.
func eEqual(a, b interface{}) (eq bool) {
	defer func() { _ = recover() }()
	return a == b
}

// eSame: indistinguishable values (same type, and same contents by reference).
func eSame(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
	if ta != tb {
		return false
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch ta.Kind() {
	case reflect.Slice:
		return va.IsNil() == vb.IsNil() && va.Len() == vb.Len() && va.Cap() == vb.Cap() && va.Pointer() == vb.Pointer()
	case reflect.Map, reflect.Func:
		return va.Pointer() == vb.Pointer()
	}
	if ta.Comparable() {
		if d, ok := a.(dynVal); ok {
			return eSame(d.V, b.(dynVal).V)
		}
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

func sameMap(a, b pmap) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !eSame(v, w) {
			return false
		}
	}
	return true
}

func cloneMap(m pmap) pmap {
	out := pmap{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

func showMap(m pmap) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s:%T(%v) ", k, m[k], m[k])
	}
	return "{" + strings.TrimSpace(b.String()) + "}"
}

// ---- struct types ----

type sT0 struct{}
type sT1 struct{ A int }
type sT2 struct {
	A int
	B string
}
type sT3 struct { // embedded exported struct
	sT1
	Data []byte
}
type sT4 struct { // shadows A of the embedded struct
	sT2
	A bool
}
type sT5 struct { // interface fields
	A  interface{}
	Cc error
	B  fmt.Stringer
}
type sT6 struct { // nilable fields
	A    *int
	B    []byte
	Cc   map[string]int
	Data func()
}
type sT7 struct { // deep embedding: A from sT1, B from sT2's shadowing wrapper
	inner7
	Zz9 float64
}
type inner7 struct {
	deeper7
	X_1 uint8
}
type deeper7 struct {
	Data pairVal
	A    namedInt
}
type MyInt int
type sT8 struct { // embedded non-struct type and array
	MyInt
	Cc [2]uint16
}
type sT9 struct { // S of the documentation with its own field: X shadows both
	sT1
	wrap9
	A string
}
type wrap9 struct{ sT1 }
type sT10 struct {
	Ünicode int
	X_1     uint8
}

// eField is a field as the documentation flattens it.
type eField struct {
	name string
	typ  reflect.Type
}

// structOps is the struct API instantiated with one type.
type structOps struct {
	name   string
	fields []eField

	newStruct   func(base error, s string, vals pmap, mode ...ewd.PreviousDataTreatment) (ewd.ErrorWithData_any, func())
	newParams   func(base error, s string, mode ewd.PreviousDataTreatment, miss ewd.MissingDataTreatment, params ...interface{}) ewd.ErrorWithData_any
	newMap      func(base error, s string, mode ewd.PreviousDataTreatment, miss ewd.MissingDataTreatment, m pmap) ewd.ErrorWithData_any
	addStruct   func(base error, vals pmap, mode ...ewd.PreviousDataTreatment) (ewd.ErrorWithData_any, func())
	addParams   func(base error, mode ewd.PreviousDataTreatment, miss ewd.MissingDataTreatment, params ...interface{}) ewd.ErrorWithData_any
	addMap      func(base error, mode ewd.PreviousDataTreatment, miss ewd.MissingDataTreatment, m pmap) ewd.ErrorWithData_any
	del         func(base error, name string, miss ewd.MissingDataTreatment) ewd.ErrorWithData_any
	as          func(base error, miss ewd.MissingDataTreatment) (ewd.ErrorWithData_any, bool)
	getStruct   func(e error, miss ewd.MissingDataTreatment) pmap
	hasData     func(e error) bool
	isTyped     func(e error) bool // e is an ErrorWithData of this type
	ownStruct   func(e error) pmap // its GetData_struct method
	asTyped     func(e error) (error, bool)
	suitable    func() error
	checkAll    func(names []string)
	checkOne    func(name string)
	boxStruct   func(e ewd.ErrorWithData_any) error
	unboxStruct func(e error) error
}

// nilify turns a typed nil error interface into a plain nil.
func anyOf[S any](e ewd.ErrorWithData[S]) ewd.ErrorWithData_any {
	if e == nil {
		return nil
	}
	return e
}

func mkOps[S any](name string) *structOps {
	o := &structOps{name: name}
	ty := reflect.TypeOf((*S)(nil)).Elem()
	// the visible fields by Go's own promotion rules
	for _, f := range reflect.VisibleFields(ty) {
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			continue
		}
		if g, ok := ty.FieldByName(f.Name); !ok || !reflect.DeepEqual(g.Index, f.Index) {
			continue
		}
		o.fields = append(o.fields, eField{f.Name, f.Type})
	}
	fill := func(vals pmap) *S {
		var s S
		rv := reflect.ValueOf(&s).Elem()
		for _, f := range o.fields {
			v, ok := vals[f.name]
			if !ok {
				continue
			}
			if v == nil {
				rv.FieldByName(f.name).Set(reflect.Zero(f.typ))
			} else {
				rv.FieldByName(f.name).Set(reflect.ValueOf(v))
			}
		}
		return &s
	}
	read := func(s S) pmap {
		m := pmap{}
		rv := reflect.ValueOf(&s).Elem()
		for _, f := range o.fields {
			m[f.name] = rv.FieldByName(f.name).Interface()
		}
		return m
	}
	wipe := func(s *S) func() {
		return func() {
			var z S
			*s = z
		}
	}
	o.newStruct = func(base error, str string, vals pmap, mode ...ewd.PreviousDataTreatment) (ewd.ErrorWithData_any, func()) {
		s := fill(vals)
		return anyOf[S](ewd.NewErrorWithData_struct(base, str, s, mode...)), wipe(s)
	}
	o.addStruct = func(base error, vals pmap, mode ...ewd.PreviousDataTreatment) (ewd.ErrorWithData_any, func()) {
		s := fill(vals)
		return anyOf[S](ewd.AddDataToError_struct(base, s, mode...)), wipe(s)
	}
	o.newParams = func(base error, str string, mode ewd.PreviousDataTreatment, miss ewd.MissingDataTreatment, params ...interface{}) ewd.ErrorWithData_any {
		return anyOf[S](ewd.NewErrorWithData_params[S](base, str, mode, miss, params...))
	}
	o.newMap = func(base error, str string, mode ewd.PreviousDataTreatment, miss ewd.MissingDataTreatment, m pmap) ewd.ErrorWithData_any {
		return anyOf[S](ewd.NewErrorWithData_map[S](base, str, mode, miss, m))
	}
	o.addParams = func(base error, mode ewd.PreviousDataTreatment, miss ewd.MissingDataTreatment, params ...interface{}) ewd.ErrorWithData_any {
		return anyOf[S](ewd.AddDataToError_params[S](base, mode, miss, params...))
	}
	o.addMap = func(base error, mode ewd.PreviousDataTreatment, miss ewd.MissingDataTreatment, m pmap) ewd.ErrorWithData_any {
		return anyOf[S](ewd.AddDataToError_map[S](base, mode, miss, m))
	}
	o.del = func(base error, name string, miss ewd.MissingDataTreatment) ewd.ErrorWithData_any {
		return anyOf[S](ewd.DeleteParameterFromError[S](base, name, miss))
	}
	o.as = func(base error, miss ewd.MissingDataTreatment) (ewd.ErrorWithData_any, bool) {
		e, ok := ewd.AsErrorWithData[S](base, miss)
		return anyOf[S](e), ok
	}
	o.getStruct = func(e error, miss ewd.MissingDataTreatment) pmap { return read(ewd.GetData_struct[S](e, miss)) }
	o.hasData = func(e error) bool { return ewd.HasData[S](e) }
	o.isTyped = func(e error) bool { _, ok := e.(ewd.ErrorWithData[S]); return ok }
	o.ownStruct = func(e error) pmap { return read(e.(ewd.ErrorWithData[S]).GetData_struct()) }
	o.asTyped = func(e error) (error, bool) {
		var target ewd.ErrorWithData[S]
		ok := errors.As(e, &target)
		return target, ok
	}
	o.suitable = func() error { return ewd.StructSuitableForErrorsWithData[S]() }
	o.checkAll = func(names []string) { ewd.CheckParametersForStruct_all[S](names) }
	o.checkOne = func(name string) { ewd.CheckParameterForStruct[S](name) }
	o.boxStruct = func(e ewd.ErrorWithData_any) error {
		return ewd.MakeErrorIncomparable_struct[S](e.(ewd.ErrorWithData[S]))
	}
	o.unboxStruct = func(e error) error { return ewd.UnboxError_struct[S](e.(ewd.ErrorWithData[S])) }
	return o
}

var eStructs = []*structOps{
	mkOps[sT0]("T0"), mkOps[sT1]("T1"), mkOps[sT2]("T2"), mkOps[sT3]("T3"), mkOps[sT4]("T4"), mkOps[sT5]("T5"),
	mkOps[sT6]("T6"), mkOps[sT7]("T7"), mkOps[sT8]("T8"), mkOps[sT9]("T9"), mkOps[sT10]("T10"),
}

// fits: data can serve as this struct. missing lists absent fields; ill is set
// if a present entry has the wrong type.
func (o *structOps) fits(m pmap) (missing []eField, ill bool) {
	for _, f := range o.fields {
		v, ok := m[f.name]
		if !ok {
			missing = append(missing, f)
			continue
		}
		if v == nil {
			switch f.typ.Kind() {
			case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Func, reflect.Interface, reflect.Chan, reflect.UnsafePointer:
			default:
				ill = true
			}
			continue
		}
		if f.typ.Kind() == reflect.Interface {
			if !reflect.TypeOf(v).AssignableTo(f.typ) {
				ill = true
			}
		} else if reflect.TypeOf(v) != f.typ {
			ill = true
		}
	}
	return
}

// as struct: the expected field values.
func (o *structOps) project(m pmap) pmap {
	out := pmap{}
	for _, f := range o.fields {
		v, ok := m[f.name]
		if !ok || v == nil {
			v = reflect.Zero(f.typ).Interface()
		}
		out[f.name] = v
	}
	return out
}

func (o *structOps) gen(r *rand.Rand) pmap {
	m := pmap{}
	for _, f := range o.fields {
		v := eValOf(r, f.typ)
		if v == nil { // as a struct field it becomes a typed nil
			v = reflect.Zero(f.typ).Interface()
		}
		m[f.name] = v
	}
	return m
}

// ---- merging ----

var eModes = []ewd.PreviousDataTreatment{ewd.PreferPreviousData, ewd.ReplacePreviousData, ewd.AssertDataIsNotReplaced}

const (
	mPrefer = iota
	mReplace
	mAssert
)

// eMerge: expected data, or ok == false if the mode demands a panic.
func eMerge(old, add pmap, mode int) (pmap, bool) {
	out := cloneMap(old)
	for k, v := range add {
		prev, had := old[k]
		switch {
		case !had || mode == mReplace:
			out[k] = v
		case mode == mAssert && !eEqual(prev, v):
			return nil, false
		}
	}
	return out, true
}

// complete applies the missing-data rule; ok == false if a panic (or failed
// conversion) is demanded.
func (o *structOps) complete(m pmap, asZero bool) (pmap, bool) {
	missing, ill := o.fits(m)
	if ill || len(missing) > 0 && !asZero {
		return nil, false
	}
	out := cloneMap(m)
	for _, f := range missing {
		out[f.name] = reflect.Zero(f.typ).Interface()
	}
	return out, true
}
