package main

// M03: internal containers, caches, list and reflection helpers, test streams.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"reflect"
	"sort"

	"github.com/GottfriedHerold/Bandersnatch/internal/stack"
	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
	"github.com/GottfriedHerold/Bandersnatch/internal/utils"
)

func init() {
	register("M03", 15, runM03)
}

// stackHistory runs one history on a stack with elements made by mk.
func stackHistory[T comparable](t *T_, mk func() T) {
	r := t.R
	var st *stack.Stack[T]
	if r.Intn(2) == 0 {
		st = stack.NewStack[T]()
	} else {
		s := stack.MakeStack[T]()
		st = &s
	}
	var m []T // model; top is last
	pops, grows := 0, 0
	n := 5 + r.Intn(60)
	big := t.Index%25 == 0 // large stacks: fill up, then mostly pop
	target := 0
	if big {
		target = 200 + r.Intn(4000)
		for len(m) < target {
			v := mk()
			if r.Intn(4) == 0 {
				st.PushPtr(&v)
			} else {
				st.Push(v)
			}
			m = append(m, v)
		}
		t.Class("large stack")
		for keep := r.Intn(target); len(m) > keep; {
			got := st.Pop()
			if got != m[len(m)-1] {
				t.Failf("stack pop", "Pop from a stack of %d (largest size %d) gives %v, want %v", len(m), target, got, m[len(m)-1])
				return
			}
			m = m[:len(m)-1]
		}
	}
	for ; n > 0; n-- {
		op := r.Intn(12)
		if r.Intn(3) == 0 && len(m) > 0 && t.Index%3 == 0 {
			op = 5 // shrink-biased histories
		}
		switch op {
		case 0, 1, 2:
			v := mk()
			st.Push(v)
			m = append(m, v)
			grows++
			t.Note("Push(%v)", v)
		case 3:
			v := mk()
			keep := v
			st.PushPtr(&v)
			m = append(m, keep)
			v = mk() // it must have been copied
			t.Note("PushPtr(%v)", keep)
		case 4: // push an element of the stack itself, while it may grow
			if len(m) == 0 {
				continue
			}
			i := r.Intn(len(m))
			st.PushPtr(st.Peek(i))
			m = append(m, m[len(m)-1-i])
			t.Note("PushPtr(Peek(%d))", i)
			t.Class("pushed own element")
		case 5, 6, 7:
			if len(m) == 0 {
				t.MustPanic("stack empty", func() { st.Pop() }, "Pop of an empty stack")
				t.Class("pop empty")
				t.Note("Pop on empty")
				continue
			}
			got, want := st.Pop(), m[len(m)-1]
			m = m[:len(m)-1]
			pops++
			t.Note("Pop() = %v", got)
			t.Check(got == want, "stack pop", "Pop gives %v, want %v", got, want)
		case 8:
			if len(m) == 0 {
				t.MustPanic("stack empty", func() { st.Top() }, "Top of an empty stack")
				continue
			}
			p := st.Top()
			t.Check(*p == m[len(m)-1], "stack top", "Top gives %v, want %v", *p, m[len(m)-1])
			*p = mk()
			m[len(m)-1] = *p
			t.Note("*Top() = %v", *p)
			t.Class("modified in place")
		case 9:
			i := r.Intn(len(m)+5) - 2
			if r.Intn(6) == 0 {
				i = []int{-1, len(m), len(m) + 1, -1 << 63, 1<<63 - 1, cap(m)}[r.Intn(6)]
			}
			if i < 0 || i >= len(m) {
				t.MustPanic("stack peek", func() { st.Peek(i) }, "Peek(%d) at a stack of length %d", i, len(m))
				t.Class("peek outside")
				continue
			}
			p := st.Peek(i)
			t.Check(*p == m[len(m)-1-i], "stack peek", "Peek(%d) gives %v, want %v", i, *p, m[len(m)-1-i])
			*p = mk()
			m[len(m)-1-i] = *p
			t.Note("*Peek(%d) = %v", i, *p)
		default:
		}
		t.Check(st.Len() == len(m) && st.IsEmpty() == (len(m) == 0), "stack len", "Len() = %d, IsEmpty() = %v, want length %d", st.Len(), st.IsEmpty(), len(m))
		for i := range m {
			if p := st.Peek(len(m) - 1 - i); *p != m[i] {
				t.Failf("stack content", "entry %d from the bottom is %v, want %v", i, *p, m[i])
				return
			}
		}
		t.evals++
	}
	t.Classf("pops>0:%v grows>0:%v", pops > 0, grows > 0)
	t.EvalH(uint64(t.Index), uint64(pops), uint64(grows))
	for len(m) > 0 {
		if st.Pop() != m[len(m)-1] {
			t.Failf("stack pop", "wrong element when emptying the stack")
		}
		m = m[:len(m)-1]
	}
	t.MustPanic("stack empty", func() { st.Pop() }, "Pop of an emptied stack")
}

type T_ = T

// caches of slices, so that shared memory shows
type cacheElem []uint64

type cacheModel struct {
	rng     *rand.Rand
	elems   []cacheElem
	created int
}

func runM03(c *Ctx) {
	c.Rule("A case is a history of stack or cache operations replayed on a model, or one call of a helper compared with its definition; distinct cases differ in the history or the arguments.")
	type rec struct {
		a int
		b string
	}
	c.Run("stack", 3000, func(t *T) {
		r := t.R
		n := 0
		switch t.Index % 4 {
		case 0:
			stackHistory(t, func() int { n++; return r.Intn(3)*1000 + n })
		case 1:
			stackHistory(t, func() string { n++; return fmt.Sprint("s", n) })
		case 2:
			stackHistory(t, func() rec { n++; return rec{n, fmt.Sprint(n % 3)} })
		case 3:
			stackHistory(t, func() *int { n++; k := n; return &k })
		}
	})
	c.Need("stack/pushed own element", 100)
	c.Need("stack/pop empty", 50)
	c.Need("stack/peek outside", 50)

	c.Run("cache", 800, func(t *T) { cacheHistory(t) })
	c.Need("cache/extended", 100)
	c.Need("cache/prefix", 100)
	c.Need("cache/prepopulated", 50)
	c.Need("cache/refused", 20)
	c.Run("default rng", 50, func(t *T) {
		seed := int64(t.R.Uint64())
		if t.Index < 3 {
			seed = int64(t.Index) - 1
		}
		a, b := testutils.DefaultCreateRandFromSeed(seed), rand.New(rand.NewSource(seed))
		for i := 0; i < 20; i++ {
			t.EvalH(uint64(seed), uint64(i))
			t.Check(a.Uint64() == b.Uint64(), "default rng", "DefaultCreateRandFromSeed(%d) differs from math/rand", seed)
		}
	})

	c.Run("integers", 6000, func(t *T) {
		r := t.R
		var w [4]uint64
		for i := range w {
			w[i] = edgeWord(r, i)
		}
		v := fromWords(w)
		t.EvalH(w[0], w[1], w[2], w[3])
		keep := w
		got := utils.UIntarrayToInt(&w)
		t.Check(got.Cmp(v) == 0 && w == keep, "UIntarrayToInt", "UIntarrayToInt(%x) = %#x", w, got)
		back := utils.BigIntToUIntArray(got)
		t.Check(back == w && got.Cmp(v) == 0, "BigIntToUIntArray", "BigIntToUIntArray(%#x) = %x", v, back)
		got.SetInt64(5)
		t.Check(w == keep, "UIntarrayToInt", "result shares memory with the argument")
		// outside of the range
		out := new(big.Int).Neg(badd(v, bOne))
		switch r.Intn(4) {
		case 0:
			out = badd(bR, v)
		case 1:
			out = new(big.Int).Lsh(badd(v, bOne), 256)
		case 2:
			out = new(big.Int).Set(bR)
		}
		t.MustPanic("BigIntToUIntArray", func() { utils.BigIntToUIntArray(out) }, "BigIntToUIntArray(%#x)", out)
		// strings
		s := v.Text(10)
		switch r.Intn(6) {
		case 0:
			s = "0x" + v.Text(16)
		case 1:
			s = "0b" + v.Text(2)
		case 2:
			s = "0o" + v.Text(8)
		case 3:
			s = "-" + s
		case 4:
			s = "+" + s
		}
		want, ok := new(big.Int).SetString(s, 0)
		if !ok {
			panic("harness")
		}
		t.Check(utils.InitIntFromString(s).Cmp(want) == 0, "InitIntFromString", "InitIntFromString(%q)", s)
		bad := []string{"", " 1", "1 ", "abc", "0xg", "1.0", "1e3", "--1", "0b2", "1__0", "_1", "0x", s + "z", s + " "}[r.Intn(14)]
		if _, ok := new(big.Int).SetString(bad, 0); !ok {
			t.MustPanic("InitIntFromString", func() { utils.InitIntFromString(bad) }, "InitIntFromString(%q)", bad)
		}
		x, _ := genFE(r)
		y, vy := genFE(r)
		if r.Intn(2) == 0 {
			y = feFrom(r, feVal(&x))
			vy = feVal(&x)
		}
		t.Check(utils.IsEqualAsBigInt(&x, &y) == (feVal(&x).Cmp(vy) == 0), "IsEqualAsBigInt", "IsEqualAsBigInt")
	})

	c.Run("lists", 6000, func(t *T) { listCase(t) })
	c.Run("maps", 2000, func(t *T) { mapCase(t) })
	c.Run("fields of structs", 1200, func(t *T) { fieldsCase(t) })
	c.Need("fields of structs/embedded struct", 100)
	c.Need("fields of structs/embedded pointer", 50)
	c.RunN("methods and types", 1, methodsCase)
	c.Run("faulty buffer", 3000, func(t *T) { faultyCase(t) })
	c.Run("test helpers", 500, func(t *T) { helperCase(t) })
}

func cacheHistory(t *T) {
	r := t.R
	nilCopy, nilRand, nilCreate := r.Intn(4) == 0, r.Intn(8) == 0, false
	salt := r.Uint64()
	created := map[int64]int{}
	mkRand := func(k int64) *rand.Rand { return rand.New(rand.NewSource(k ^ int64(salt))) }
	gen := func(rng *rand.Rand, k int64) cacheElem {
		e := cacheElem{uint64(k)}
		if rng != nil {
			for n := rng.Intn(3); n >= 0; n-- { // uses a varying amount of randomness
				e = append(e, rng.Uint64())
			}
		}
		return e
	}
	create := func(rng *rand.Rand, k int64) cacheElem {
		created[k]++
		return gen(rng, k)
	}
	cp := func(e cacheElem) cacheElem { return append(cacheElem(nil), e...) }
	var mkRandArg func(int64) *rand.Rand = mkRand
	if nilRand {
		mkRandArg, mkRand = nil, func(int64) *rand.Rand { return nil }
	}
	createArg := create
	if r.Intn(8) == 0 {
		createArg, nilCreate = nil, true
	}
	copyArg := cp
	if nilCopy {
		copyArg = nil
	}
	pc := testutils.MakePrecomputedCache[int64, cacheElem](mkRandArg, createArg, copyArg)
	other := testutils.MakePrecomputedCache[int64, cacheElem](mkRandArg, createArg, copyArg) // must not share anything
	model := map[int64]*cacheModel{}
	need := func(m *cacheModel, k int64, n int) {
		for len(m.elems) < n {
			m.elems = append(m.elems, gen(m.rng, k))
			m.created++
		}
	}
	keys := []int64{0, 1, -1, 1 << 62, int64(r.Uint64())}[:1+r.Intn(5)]
	steps, large := 4+r.Intn(25), t.Index%50 == 0
	if t.Index%40 == 1 { // many keys
		for i := 20 + r.Intn(300); i > 0; i-- {
			keys = append(keys, int64(i*i))
		}
		steps = 2 * len(keys)
		t.Class("many keys")
	}
	check := func(k int64, m *cacheModel, got []cacheElem, n int) {
		if got == nil || len(got) != n {
			t.Failf("cache length", "GetElements(%d, %d) has length %d (nil: %v)", k, n, len(got), got == nil)
			return
		}
		for i := range got {
			if !sameWords(got[i], m.elems[i]) {
				t.Failf("cache element", "GetElements(%d, %d)[%d] = %v, want %v", k, n, i, got[i], m.elems[i])
				return
			}
		}
	}
	for n := steps; n > 0; n-- {
		k := keys[r.Intn(len(keys))]
		m := model[k]
		if r.Intn(6) == 0 {
			entries := make([]cacheElem, r.Intn(6))
			for i := range entries {
				entries[i] = cacheElem{7, r.Uint64()}
			}
			t.Note("PrepopulateCache(%d, %v)", k, entries)
			if m != nil {
				t.MustPanic("cache repopulate", func() { pc.PrepopulateCache(k, entries) }, "PrepopulateCache of a key in use")
				t.Class("refused")
				continue
			}
			pc.PrepopulateCache(k, entries)
			m = &cacheModel{rng: mkRand(k)}
			for _, e := range entries {
				m.elems = append(m.elems, cp(e))
			}
			model[k] = m
			// the cache must hold its own copies
			for i := range entries {
				if !nilCopy {
					entries[i][1]++
				}
				entries[i] = nil
			}
			t.Class("prepopulated")
			continue
		}
		amount := []int{0, 1, 2, r.Intn(10), r.Intn(40), 33}[r.Intn(6)]
		if large && r.Intn(4) == 0 {
			amount = []int{127, 128, 129, 256, 257, 1000 + r.Intn(100), 1024, 2049, 4097, 5000}[r.Intn(10)]
			t.Class("large amounts")
		}
		if m != nil && r.Intn(3) == 0 {
			amount = len(m.elems) + r.Intn(3) - 1
			if amount < 0 {
				amount = 0
			}
		}
		if nilCreate && (m == nil || amount > len(m.elems)) {
			continue
		}
		t.Note("GetElements(%d, %d)", k, amount)
		var got []cacheElem
		got = pc.GetElements(k, amount)
		if amount == 0 {
			t.Check(got != nil && len(got) == 0, "cache length", "GetElements(%d, 0) = %v", k, got)
			continue
		}
		if m == nil {
			m = &cacheModel{rng: mkRand(k)}
			model[k] = m
		}
		if amount > len(m.elems) {
			t.Class("extended")
		} else {
			t.Class("prefix")
		}
		need(m, k, amount)
		check(k, m, got, amount)
		t.EvalH(uint64(t.Index), uint64(n), uint64(amount), uint64(k))
		if created[k] == m.created {
			t.Class("no element created twice or in vain")
		}
		// hostile user: overwrites everything it got
		if !nilCopy && r.Intn(2) == 0 {
			for i := range got {
				for j := range got[i] {
					got[i][j] = ^got[i][j]
				}
			}
		}
		for i := range got {
			if r.Intn(2) == 0 {
				got[i] = nil
			}
		}
		if r.Intn(3) == 0 && !nilCreate {
			k2 := keys[r.Intn(len(keys))]
			a := 1 + r.Intn(5)
			keep := created[k2]
			og := other.GetElements(k2, a)
			mo := &cacheModel{rng: mkRand(k2)}
			need(mo, k2, a)
			check(k2, mo, og, a)
			created[k2] = keep
		}
	}
	for k, m := range model {
		if len(m.elems) > 0 {
			check(k, m, pc.GetElements(k, len(m.elems)), len(m.elems))
		}
	}
}

func listCase(t *T) {
	r := t.R
	mk := func() []int {
		if r.Intn(12) == 0 {
			return nil
		}
		l := make([]int, r.Intn(9))
		for i := range l {
			l[i] = r.Intn(7) - 3
		}
		if r.Intn(3) == 0 { // with spare capacity
			l = append(l, 99)[:len(l)]
		}
		return l
	}
	l1, l2 := mk(), mk()
	k1, k2 := append([]int(nil), l1...), append([]int(nil), l2...)
	norms := []func(int) int{nil, func(x int) int {
		if x < 0 {
			return -x
		}
		return x
	}, func(x int) int { return x & 1 }, func(x int) int { return 0 }, utils.Identity[int]}
	ni := r.Intn(len(norms))
	nf := norms[ni]
	eff := nf
	if eff == nil {
		eff = func(x int) int { return x }
	}
	var args []func(int) int
	if nf != nil {
		args = append(args, nf)
	}
	e := r.Intn(9) - 4
	want := false
	for _, v := range l1 {
		want = want || eff(v) == eff(e)
	}
	t.Eval(fmt.Sprint(l1, l2, e, ni))
	t.Check(utils.ElementInList(e, l1, args...) == want, "ElementInList", "ElementInList(%d, %v) with normalizer %d is %v", e, l1, ni, !want)
	seen := map[int]bool{}
	wl := []int{}
	for _, v := range append(append([]int(nil), l1...), l2...) {
		if !seen[eff(v)] {
			seen[eff(v)] = true
			wl = append(wl, v)
		}
	}
	res := utils.ConcatenateListsWithoutDuplicates(l1, l2, args...)
	if fmt.Sprint(res) != fmt.Sprint(wl) || res == nil {
		t.Failf("Concatenate", "ConcatenateListsWithoutDuplicates(%v, %v), normalizer %d = %v, want %v", l1, l2, ni, res, wl)
	}
	for i := range res {
		res[i] = 1000
	}
	_ = append(res, 5, 6, 7)
	t.Check(fmt.Sprint(l1, l2) == fmt.Sprint(k1, k2), "Concatenate alias", "the result shares memory with an argument")
	if r.Intn(20) == 0 {
		t.MustPanic("two normalizers", func() { utils.ElementInList(e, l1, norms[1], norms[2]) }, "ElementInList with two normalizers")
		t.MustPanic("two normalizers", func() { utils.ConcatenateListsWithoutDuplicates(l1, l2, norms[1], norms[2]) }, "Concatenate with two normalizers")
	}
	// comparison
	a, b := l1, l2
	switch r.Intn(4) {
	case 0:
		b = k1
		if l1 != nil && b == nil {
			b = []int{}
		}
	case 1:
		if len(l1) > 0 {
			b = append([]int(nil), l1...)
			b[r.Intn(len(b))]++
		}
	case 2:
		b = append(append([]int{}, l1...), 0)
	}
	eq := (a == nil) == (b == nil) && len(a) == len(b)
	for i := 0; eq && i < len(a); i++ {
		eq = a[i] == b[i]
	}
	t.Classf("equal:%v", eq)
	t.Check(utils.CompareSlices(a, b) == eq && utils.CompareSlices(b, a) == eq, "CompareSlices", "CompareSlices(%v, %v) is not %v (nil: %v %v)", a, b, eq, a == nil, b == nil)
	_, p := PanicVal(func() { utils.AssertSliceEquals(a, b...) })
	same := a != nil && len(a) == len(b) && fmt.Sprint(a) == fmt.Sprint(b)
	t.Check(p == !same, "AssertSliceEquals", "AssertSliceEquals(%v, %v) panics: %v", a, b, p)
	// aliases
	x := make([]int, 3+r.Intn(5), 12)
	y := x[r.Intn(len(x)):]
	if r.Intn(2) == 0 {
		y = y[:r.Intn(len(y)+1)]
	}
	z := append([]int(nil), x...)
	t.Check(testutils.CheckSliceAlias(x, y) && testutils.CheckSliceAlias(y, x) && !testutils.CheckSliceAlias(x, z) && !testutils.CheckSliceAlias(x, nil) && !testutils.CheckSliceAlias(nil, x) && !testutils.CheckSliceAlias[int](nil, nil) && !testutils.CheckSliceAlias(x, []int{}), "CheckSliceAlias", "CheckSliceAlias is wrong")
	q := utils.AddressOfCopy(e)
	*q++
	t.Check(*q == e+1 && utils.Identity(e) == e, "AddressOfCopy", "AddressOfCopy")
}

func mapCase(t *T) {
	r := t.R
	mk := func() map[string]int {
		if r.Intn(8) == 0 {
			return nil
		}
		m := map[string]int{}
		for n := r.Intn(5); n > 0; n-- {
			m[string(rune('a'+r.Intn(4)))] = r.Intn(2)
		}
		return m
	}
	a, b := mk(), mk()
	if r.Intn(2) == 0 && a != nil {
		b = map[string]int{}
		for k, v := range a {
			b[k] = v
		}
		switch r.Intn(4) {
		case 0:
			b["z"] = 0
		case 1:
			for k := range b {
				b[k]++
				break
			}
		case 2:
			for k, v := range b {
				delete(b, k)
				b["y"] = v
				break
			}
		}
	}
	eq := reflect.DeepEqual(a, b)
	t.Classf("equal:%v", eq)
	t.Eval(fmt.Sprint(a, b, a == nil, b == nil))
	t.Check(utils.CompareMaps(a, b) == eq && utils.CompareMaps(b, a) == eq, "CompareMaps", "CompareMaps(%v, %v) is not %v", a, b, eq)
	conv := func(m map[string]int) map[string]interface{} {
		if m == nil {
			return nil
		}
		res := map[string]interface{}{}
		for k, v := range m {
			switch r.Intn(3) * 0 {
			default:
				res[k] = v
			}
			if v == 0 && k == "b" {
				res[k] = nil
			}
		}
		return res
	}
	ca, cb := conv(a), conv(b)
	t.Check(utils.CompareParamMaps(ca, cb) == reflect.DeepEqual(ca, cb) && utils.CompareParamMaps(cb, ca) == reflect.DeepEqual(cb, ca), "CompareParamMaps", "CompareParamMaps(%v, %v) is wrong", ca, cb)
	if ca != nil && len(ca) > 0 {
		cc := map[string]interface{}{}
		for k, v := range ca {
			cc[k] = v
		}
		for k, v := range cc {
			if i, ok := v.(int); ok { // equal number, other type
				cc[k] = int64(i)
				t.Check(!utils.CompareParamMaps(ca, cc), "CompareParamMaps", "CompareParamMaps identifies values of different types")
			}
			break
		}
	}
}

type embedA struct {
	P int
	q string
}
type embedB struct {
	embedA
	R float64
}
type embedC struct {
	*embedA
	embedB
	S error
}
type embedInt int
type embedD struct {
	embedInt
	error
	X embedC
}
type embedRec struct {
	*embedRec
	Y int
}

// random struct types with exported embedded structs
func genStruct(r *rand.Rand, depth int) reflect.Type {
	basic := []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf([]int{}), reflect.TypeOf(new(int)), reflect.TypeOf(map[string]int{}), reflect.TypeOf(struct{}{}), reflect.TypeOf(embedC{}), utils.TypeOfType[error]()}
	var fs []reflect.StructField
	for i, n := 0, r.Intn(4); i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d_%d", depth, i), Type: basic[r.Intn(len(basic))]}
		if depth > 0 && r.Intn(2) == 0 {
			f.Type = genStruct(r, depth-1)
			f.Anonymous = r.Intn(3) > 0
			if f.Anonymous && r.Intn(4) == 0 && i == 0 {
				f.Type = reflect.PtrTo(f.Type)
			}
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// a chain of embedded structs with several fields on each level
func genChain(r *rand.Rand, depth int) reflect.Type {
	basic := []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(embedC{}), utils.TypeOfType[error]()}
	at := r.Intn(3)
	var fs []reflect.StructField
	for i := 0; i < 3; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d_%d", depth, i), Type: basic[r.Intn(len(basic))]}
		if i == at && depth > 0 {
			f.Type, f.Anonymous = genChain(r, depth-1), true
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

type fieldSpec struct {
	name  string
	typ   reflect.Type
	index string
}

func specFields(ty reflect.Type, prefix []int, out *[]fieldSpec) (ptr bool) {
	for i := 0; i < ty.NumField(); i++ {
		f := ty.Field(i)
		idx := append(append([]int{}, prefix...), i)
		*out = append(*out, fieldSpec{f.Name, f.Type, fmt.Sprint(idx)})
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			if specFields(f.Type, idx, out) {
				ptr = true
			}
		}
		if f.Anonymous && f.Type.Kind() == reflect.Ptr && f.Type.Elem().Kind() == reflect.Struct {
			ptr = true
		}
	}
	return
}

func fieldsCase(t *T) {
	r := t.R
	static := []reflect.Type{reflect.TypeOf(embedA{}), reflect.TypeOf(embedB{}), reflect.TypeOf(embedC{}), reflect.TypeOf(embedD{}), reflect.TypeOf(embedRec{}), reflect.TypeOf(struct{}{}), reflect.TypeOf(struct {
		embedB
		embedD
	}{})}
	var ty reflect.Type
	if t.Index < len(static) {
		ty = static[t.Index]
	} else if _, p := PanicVal(func() {
		if t.Index%4 == 0 {
			d := 2 + r.Intn(9)
			ty = genChain(r, d)
			t.Classf("depth %d", d)
		} else {
			ty = genStruct(r, 3)
		}
	}); p {
		t.Class("type not constructible")
		return
	}
	var want []fieldSpec
	wp := specFields(ty, nil, &want)
	got, gp := utils.AllFields(ty)
	t.Eval(ty.String())
	for _, f := range want {
		if len(f.index) > 3 {
			t.Class("embedded struct")
			break
		}
	}
	if wp {
		t.Class("embedded pointer")
	}
	if gp != wp || len(got) != len(want) || got == nil {
		t.Failf("AllFields", "AllFields(%v): %d fields, embedded pointer %v; want %d, %v", ty, len(got), gp, len(want), wp)
		return
	}
	// the order of fields is not promised beyond each appearing once
	var a, b []string
	for i := range want {
		a = append(a, want[i].index+want[i].name+want[i].typ.String())
		b = append(b, fmt.Sprint(got[i].Index)+got[i].Name+got[i].Type.String())
		f := ty.FieldByIndex(got[i].Index)
		t.Check(f.Name == got[i].Name && f.Type == got[i].Type, "AllFields", "AllFields(%v): index %v belongs to another field", ty, got[i].Index)
	}
	sort.Strings(a)
	sort.Strings(b)
	t.Check(fmt.Sprint(a) == fmt.Sprint(b), "AllFields", "AllFields(%v) = %v, want %v", ty, b, a)
	// index slices must be independent
	for i := range got {
		for j := range got[i].Index {
			got[i].Index[j] = -7
		}
		_ = append(got[i].Index, 3)
	}
	got2, _ := utils.AllFields(ty)
	b = nil
	for i := range got2 {
		b = append(b, fmt.Sprint(got2[i].Index)+got2[i].Name+got2[i].Type.String())
	}
	sort.Strings(b)
	t.Check(fmt.Sprint(a) == fmt.Sprint(b), "AllFields", "AllFields(%v) shares index slices", ty)
	if t.Index == 0 {
		for _, x := range []interface{}{3, "", []int{}, &embedA{}, map[int]int{}} {
			x := x
			t.MustPanic("AllFields", func() { utils.AllFields(reflect.TypeOf(x)) }, "AllFields of %T", x)
		}
	}
}

type mImpl struct{}

func (mImpl) Val(int, string) (error, bool) { return nil, false }
func (*mImpl) Ptr(io.Reader) *bytes.Buffer  { return nil }
func (mImpl) None()                         {}
func (*mImpl) Many(interface{}, *mImpl, []int) (int, interface{}, error) {
	return 0, nil, nil
}

type mIface interface {
	Val(int, string) (error, bool)
	None()
}
type mNamed []int

func (mNamed) Sum(int) int { return 0 }

func methodsCase(t *T) {
	tys := []reflect.Type{reflect.TypeOf(mImpl{}), reflect.TypeOf(&mImpl{}), utils.TypeOfType[mIface](), reflect.TypeOf(mNamed{}), reflect.TypeOf(3), utils.TypeOfType[error](), reflect.TypeOf(&bytes.Buffer{})}
	names := []string{"Val", "Ptr", "None", "Many", "Sum", "Error", "Missing", "Len", "Write"}
	pool := []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), utils.TypeOfType[error](), reflect.TypeOf(true), utils.TypeOfType[interface{}](), utils.TypeOfType[io.Reader](), reflect.TypeOf(&bytes.Buffer{}), reflect.TypeOf(&mImpl{}), reflect.TypeOf([]int{}), reflect.TypeOf(mNamed{}), reflect.TypeOf([]byte{})}
	r := t.R
	for _, ty := range tys {
		for _, name := range names {
			// actual signature, without receiver
			var ins, outs []reflect.Type
			m, exists := ty.MethodByName(name)
			if exists {
				skip := 1
				if ty.Kind() == reflect.Interface {
					skip = 0
				}
				for i := skip; i < m.Type.NumIn(); i++ {
					ins = append(ins, m.Type.In(i))
				}
				for i := 0; i < m.Type.NumOut(); i++ {
					outs = append(outs, m.Type.Out(i))
				}
			}
			for k := 0; k < 60; k++ {
				ai, ao := append([]reflect.Type{}, ins...), append([]reflect.Type{}, outs...)
				switch {
				case k == 0:
				case k < 30: // change one
					if n := len(ai) + len(ao); n > 0 {
						p := r.Intn(n)
						if p < len(ai) {
							ai[p] = pool[r.Intn(len(pool))]
						} else {
							ao[p-len(ai)] = pool[r.Intn(len(pool))]
						}
					}
				case k < 40:
					ai = append(ai, pool[r.Intn(len(pool))])
				case k < 45:
					if len(ai) > 0 {
						ai = ai[:len(ai)-1]
					}
				case k < 50:
					ao = append(ao, pool[r.Intn(len(pool))])
				case k < 55:
					if len(ao) > 0 {
						ao = ao[1:]
					}
				default:
					ai, ao = nil, nil
				}
				want := exists && len(ai) == len(ins) && len(ao) == len(outs)
				for i := 0; want && i < len(ai); i++ {
					want = ai[i].AssignableTo(ins[i])
				}
				for i := 0; want && i < len(ao); i++ {
					want = outs[i].AssignableTo(ao[i])
				}
				t.Eval(ty.String(), name, fmt.Sprint(ai, ao))
				t.Classf("exists:%v good:%v", exists, want)
				good, reason := utils.DoesMethodExist(ty, name, ai, ao)
				if good != want || (reason == "") != good {
					t.Failf("DoesMethodExist", "DoesMethodExist(%v, %s, %v, %v) = %v, %q; want %v", ty, name, ai, ao, good, reason, want)
				}
			}
		}
	}
	type named struct{}
	if utils.NameOfType[named]() != "named" || utils.NameOfType[*named]() != "*named" || utils.NameOfType[[]*named]() != "[]*named" || utils.NameOfType[[3][]named]() != "[3][]named" || utils.NameOfType[error]() != "error" || utils.NameOfType[int]() != "int" {
		t.Failf("NameOfType", "names of types: %q %q %q %q", utils.NameOfType[named](), utils.NameOfType[*named](), utils.NameOfType[[]*named](), utils.NameOfType[[3][]named]())
	}
	nil1 := utils.IsTypeNilable[error]() && utils.IsTypeNilable[*int]() && utils.IsTypeNilable[chan int]() && utils.IsTypeNilable[func()]() && utils.IsTypeNilable[[]int]() && utils.IsTypeNilable[map[int]int]() && utils.IsTypeNilable[mNamed]() && utils.IsTypeNilable[interface{}]()
	nil2 := utils.IsTypeNilable[int]() || utils.IsTypeNilable[string]() || utils.IsTypeNilable[[2]*int]() || utils.IsTypeNilable[named]() || utils.IsTypeNilable[bool]() || utils.IsTypeNilable[complex64]() || utils.IsTypeNilable[uintptr]()
	t.Check(nil1 && !nil2, "IsNilable", "IsNilable is wrong")
	t.Check(utils.TypeOfType[int]() == reflect.TypeOf(0) && utils.TypeOfType[error]().Kind() == reflect.Interface, "TypeOfType", "TypeOfType is wrong")
	t.Class("types")
}

// a buffer that fails after some bytes against a model
func faultyCase(t *T) {
	r := t.R
	thr := r.Intn(20)
	de := errors.New("designated")
	fb := testutils.NewFaultyBuffer(thr, de)
	content := make([]byte, thr+r.Intn(10))
	r.Read(content)
	wmode := r.Intn(2) == 0
	t.EvalH(uint64(t.Index), uint64(thr))
	for round := 0; round < 1+r.Intn(2); round++ {
		failed := false
		if wmode {
			fb.Reset()
			var want []byte
			for k := 0; k < 12; k++ {
				p := make([]byte, r.Intn(8))
				r.Read(p)
				keep := string(p)
				n, err := fb.Write(p)
				wn := len(p)
				wantErr := false
				if len(p) > 0 && failed {
					wn, wantErr = 0, true
				} else if len(want)+len(p) > thr {
					wn, wantErr = thr-len(want), true
					failed = true
				}
				want = append(want, p[:wn]...)
				if n != wn || (err != nil) != wantErr || wantErr && !errors.Is(err, de) || string(p) != keep {
					t.Failf("FaultyBuffer.Write", "threshold %d: writing %d bytes gives %d, %v; want %d, error: %v", thr, len(p), n, err, wn, wantErr)
				}
				t.Check(string(fb.Bytes()) == string(want), "FaultyBuffer.Bytes", "buffer holds %x, want %x", fb.Bytes(), want)
			}
		} else {
			fb.SetContent(content)
			t.Check(string(fb.Bytes()) == string(content), "FaultyBuffer.Bytes", "SetContent")
			pos := 0
			for k := 0; k < 12; k++ {
				p := make([]byte, r.Intn(8))
				n, err := fb.Read(p)
				wn, wantErr := len(p), false
				if len(p) > 0 && failed {
					wn, wantErr = 0, true
				} else if pos+len(p) > thr {
					wn, wantErr = thr-pos, true
					failed = true
				}
				// with an exactly exhausted buffer either kind of end may be told
				if wantErr && wn == 0 && !failed {
					break
				}
				if n != wn || (err != nil) != wantErr && !(err == io.EOF && wn == 0) || string(p[:n]) != string(content[pos:pos+n]) {
					t.Failf("FaultyBuffer.Read", "threshold %d, content %d: reading %d bytes at %d gives %d, %v; want %d, error: %v", thr, len(content), len(p), pos, n, err, wn, wantErr)
				}
				pos += n
			}
			if failed {
				t.Class("read failed")
			}
		}
		if failed && wmode {
			t.Class("write failed")
		}
	}
	if t.Index == 0 {
		var z testutils.FaultyBuffer
		t.MustPanic("FaultyBuffer", func() { testutils.NewFaultyBuffer(3, nil) }, "NewFaultyBuffer without error")
		t.MustPanic("FaultyBuffer", func() { z.Read(make([]byte, 1)) }, "zero FaultyBuffer")
		t.MustPanic("FaultyBuffer", func() { z.Write(make([]byte, 1)) }, "zero FaultyBuffer")
	}
}

func helperCase(t *T) {
	r := t.R
	v := r.Int()
	t.EvalH(uint64(t.Index), uint64(v))
	var got []int
	f := func(a, b, c2, d, e int) { got = []int{a, b, c2, d, e} }
	utils.Bind2345(f, 2, 3, 4, v)(1)
	ok := fmt.Sprint(got) == fmt.Sprint([]int{1, 2, 3, 4, v})
	utils.Bind234(func(a, b int, c2 string, d int) { got = []int{a, b, len(c2), d} }, 5, "abc", v)(7)
	ok = ok && fmt.Sprint(got) == fmt.Sprint([]int{7, 5, 3, v})
	utils.Bind23(func(a string, b, c2 int) { got = []int{len(a), b, c2} }, 6, v)("xx")
	ok = ok && fmt.Sprint(got) == fmt.Sprint([]int{2, 6, v})
	utils.Bind2(func(a int, b string) { got = []int{a, len(b)} }, "xyz")(v)
	ok = ok && fmt.Sprint(got) == fmt.Sprint([]int{v, 3})
	t.Check(ok, "Bind", "a Bind function passes arguments wrongly")

	var pv interface{}
	switch r.Intn(5) {
	case 0:
		pv = fmt.Sprint("text ", v)
	case 1:
		pv = errors.New("err")
	case 2:
		pv = v
	case 3:
		pv = big.NewInt(int64(v))
	case 4:
		pv = []int{1}
	}
	did, val := testutils.CheckPanic2(func(a int, b *int, c2 error) {
		if a%2 == 0 {
			panic(pv)
		}
		if b != nil || c2 != nil {
			panic("harness: arguments lost")
		}
	}, v, nil, nil)
	t.Classf("panicked:%v", did)
	t.Check(did == (v%2 == 0), "CheckPanic", "CheckPanic2 tells %v", did)
	if did {
		t.Check(reflect.DeepEqual(val, pv), "CheckPanic", "CheckPanic2 returns %v, the panic was with %v", val, pv)
	} else {
		t.Check(val == nil, "CheckPanic", "CheckPanic2 returns %v without a panic", val)
	}
	t.Check(testutils.CheckPanic(func() { panic(pv) }) && !testutils.CheckPanic(func() {}), "CheckPanic", "CheckPanic is wrong")
	t.MustPanic("CheckPanic", func() { testutils.CheckPanic(3) }, "CheckPanic of a non-function")
	t.MustPanic("CheckPanic", func() { testutils.CheckPanic(func(int) {}) }, "CheckPanic with too few arguments")
	t.MustPanic("CheckPanic", func() { testutils.CheckPanic(func(int) {}, nil) }, "CheckPanic with nil for an int")
	cond := r.Intn(2) == 0
	val, p := PanicVal(func() { testutils.Assert(cond, pv) })
	t.Check(p == !cond && (!p || reflect.DeepEqual(val, pv)), "Assert", "Assert(%v, %v) panics with %v", cond, pv, val)
	_, p = PanicVal(func() { testutils.Assert(cond) })
	t.Check(p == !cond, "Assert", "Assert(%v) panics: %v", cond, p)
	t.MustPanic("Assert", func() { testutils.Assert(true, 1, 2) }, "Assert with two errors")
	s := mNamed{1}
	out := testutils.CallMethodByName(big.NewInt(int64(v)), "Cmp", big.NewInt(0))
	t.Check(len(out) == 1 && out[0] == big.NewInt(int64(v)).Sign(), "CallMethodByName", "CallMethodByName gives %v", out)
	out = testutils.CallMethodByName(s, "Sum", 3)
	t.Check(len(out) == 1 && out[0] == 0, "CallMethodByName", "CallMethodByName gives %v", out)
	t.MustPanic("CallMethodByName", func() { testutils.CallMethodByName(s, "Missing") }, "CallMethodByName of a missing method")
}

func sameWords(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
