package main

import (
	"fmt"

	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
)

// Many struct types in one process: what the package remembers per type must
// stay right however many types there are and in whichever order they are used.

type gPair[A, B any] struct {
	X A
	Y B
}
type gNest[A, B any] struct {
	gPair[A, int8]
	Z B
}
type gFlip[A, B any] struct {
	Q [2]B
	P A
	R map[string]A
}

type manyType struct {
	name string
	make func(i int) (ewd.ErrorWithData_any, pmap) // from a struct
	back func(e error, m pmap) bool                // as that struct again
	has  func(e error) bool
	par  func(m pmap) ewd.ErrorWithData_any // from parameters
}

func manyOf[S any](out *[]manyType, val func(i int) (S, pmap)) {
	var z S
	_, zm := val(0)
	names := make([]string, 0, len(zm))
	for n := range zm {
		names = append(names, n)
	}
	*out = append(*out, manyType{
		name: fmt.Sprintf("%T", z),
		make: func(i int) (ewd.ErrorWithData_any, pmap) {
			s, m := val(i)
			return anyOf[S](ewd.NewErrorWithData_struct(nil, "many", &s)), m
		},
		back: func(e error, m pmap) bool {
			s := ewd.GetData_struct[S](e, ewd.EnsureDataIsPresent)
			return sameMap(ewd.GetData_map(ewd.NewErrorWithData_struct(nil, "again", &s)), m) && sameMap(ewd.GetData_map(e), m)
		},
		has: func(e error) bool { return ewd.HasData[S](e) },
		par: func(m pmap) ewd.ErrorWithData_any {
			return anyOf[S](ewd.NewErrorWithData_map[S](nil, "par", ewd.ReplacePreviousData, ewd.EnsureDataIsPresent, m))
		},
	})
}

func manyAB[A, B any](out *[]manyType, a func(int) A, b func(int) B) {
	manyOf(out, func(i int) (gPair[A, B], pmap) {
		s := gPair[A, B]{a(i), b(i + 1)}
		return s, pmap{"X": s.X, "Y": s.Y}
	})
	manyOf(out, func(i int) (gNest[A, B], pmap) {
		s := gNest[A, B]{gPair[A, int8]{a(i), int8(i)}, b(i)}
		return s, pmap{"X": s.X, "Y": s.Y, "Z": s.Z}
	})
	manyOf(out, func(i int) (gFlip[A, B], pmap) {
		s := gFlip[A, B]{[2]B{b(i), b(i + 3)}, a(i), nil}
		return s, pmap{"P": s.P, "Q": s.Q, "R": s.R}
	})
}

func manyA[A any](out *[]manyType, a func(int) A) {
	manyAB(out, a, func(i int) int { return i })
	manyAB(out, a, func(i int) string { return fmt.Sprint("s", i) })
	manyAB(out, a, func(i int) bool { return i%2 == 0 })
	manyAB(out, a, func(i int) uint8 { return uint8(i) })
	manyAB(out, a, func(i int) float64 { return float64(i) / 2 })
	manyAB(out, a, func(i int) [3]int16 { return [3]int16{int16(i), 2, int16(-i)} })
	manyAB(out, a, func(i int) complex128 { return complex(float64(i), 1) })
	manyAB(out, a, func(i int) uint64 { return uint64(i) << 40 })
	manyAB(out, a, func(i int) struct{ K, L int } { return struct{ K, L int }{i, -i} })
	manyAB(out, a, func(i int) rune { return rune(i) })
}

// types of the same name
func manySame1(out *[]manyType) {
	type same struct{ A, B int }
	manyOf(out, func(i int) (same, pmap) { s := same{i, i + 1}; return s, pmap{"A": s.A, "B": s.B} })
}
func manySame2(out *[]manyType) {
	type same struct{ B, A int }
	manyOf(out, func(i int) (same, pmap) { s := same{i, i + 1}; return s, pmap{"A": s.A, "B": s.B} })
}
func manySame3(out *[]manyType) {
	type same struct {
		C string
		B uint8
		A int
	}
	manyOf(out, func(i int) (same, pmap) {
		s := same{fmt.Sprint(i), uint8(i), i + 1}
		return s, pmap{"A": s.A, "B": s.B, "C": s.C}
	})
}
func manySame4(out *[]manyType) {
	type same struct{}
	manyOf(out, func(i int) (same, pmap) { return same{}, pmap{} })
}

func manyTypes() []manyType {
	var out []manyType
	manySame1(&out)
	manySame2(&out)
	manySame3(&out)
	manySame4(&out)
	manyA(&out, func(i int) int { return 1000 + i })
	manyA(&out, func(i int) string { return fmt.Sprint("t", i) })
	manyA(&out, func(i int) bool { return i%3 == 0 })
	manyA(&out, func(i int) uint16 { return uint16(3 * i) })
	manyA(&out, func(i int) [2]string { return [2]string{"u", fmt.Sprint(i)} })
	manyA(&out, func(i int) float32 { return float32(i) })
	manyA(&out, func(i int) int64 { return int64(-i) << 33 })
	manyA(&out, func(i int) struct{ M string } { return struct{ M string }{fmt.Sprint(i)} })
	manyA(&out, func(i int) uint { return uint(i) })
	manyA(&out, func(i int) uintptr { return uintptr(i) })
	return out
}

func manyTypesGroup(c *Ctx) {
	types := manyTypes()
	c.RunN("many types", scaled(c, 200), func(t *T) {
		r := t.R
		n := r.Intn(len(types)) + 1
		if t.Index%3 == 0 {
			n = len(types)
		}
		order := r.Perm(len(types))[:n]
		errs := make([]ewd.ErrorWithData_any, n)
		maps := make([]pmap, n)
		if t.Index%3 == 1 { // the types of the same name first
			for k, i := range order {
				if i < 4 {
					j := r.Intn(4)
					if j < n {
						order[k], order[j] = order[j], order[k]
					}
				}
			}
		}
		for k, i := range order {
			errs[k], maps[k] = types[i].make(k)
		}
		for _, k := range r.Perm(n) {
			ty := types[order[k]]
			t.Check(sameMap(ewd.GetData_map(errs[k]), maps[k]), "many map", "%s: data %s, want %s", ty.name, showMap(ewd.GetData_map(errs[k])), showMap(maps[k]))
			t.Check(ty.has(errs[k]), "many has", "%s: HasData is false for %s", ty.name, showMap(maps[k]))
			var ok bool
			_, p := PanicVal(func() { ok = ty.back(errs[k], maps[k]) })
			t.Check(ok && !p, "many back", "%s: %s does not come back from GetData_struct (panic %v)", ty.name, showMap(maps[k]), p)
			p2 := ty.par(maps[k])
			t.Check(sameMap(ewd.GetData_map(p2), maps[k]), "many params", "%s: from a map: %s, want %s", ty.name, showMap(ewd.GetData_map(p2)), showMap(maps[k]))
			o := order[r.Intn(n)]
			if p := types[o]; p.name != ty.name { // of another type: the data decides
				_, m := p.make(k)
				same := len(m) == len(maps[k])
				for name, v := range m {
					w, ok := maps[k][name]
					same = same && ok && fmt.Sprintf("%T", v) == fmt.Sprintf("%T", w)
				}
				if !same && len(m) == len(maps[k]) {
					t.Check(!p.has(errs[k]), "many other", "data of %s passes for %s", ty.name, p.name)
				}
			}
			if len(t.failed) > 0 {
				return
			}
		}
		for k := 0; k < n; k++ {
			t.Class("struct types used")
		}
		t.Eval(fmt.Sprint(order))
	})
	c.Need("many types/struct types used", int64(len(types)))
}
