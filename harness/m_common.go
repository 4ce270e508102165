package main

// M02: package common: byte orders, bit headers, small parameter types, constants.

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"reflect"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
)

func init() {
	register("M02", 20, runM02)
}

// foreign byte orders
type foreignOrder struct{ binary.ByteOrder }
type foreignSliceOrder struct {
	binary.ByteOrder
	s []int
}
type foreignNamed struct{ v bool }

func (foreignNamed) Uint16([]byte) uint16     { return 0 }
func (foreignNamed) Uint32([]byte) uint32     { return 0 }
func (foreignNamed) Uint64([]byte) uint64     { return 0 }
func (foreignNamed) PutUint16([]byte, uint16) {}
func (foreignNamed) PutUint32([]byte, uint32) {}
func (foreignNamed) PutUint64([]byte, uint64) {}
func (foreignNamed) String() string           { return "LittleEndian" }

// positional value of bytes
func byteVal(b []byte, be bool) *big.Int {
	if be {
		return new(big.Int).SetBytes(b)
	}
	return fromLE(b)
}

type cloneSame struct{ a, b int }
type cloneAny struct{ a, b int }
type cloneIface struct{ a, b int }
type cloneNone struct{ a int }
type cloneTwo struct{ a int }

func (c *cloneSame) Clone() *cloneSame { d := *c; return &d }
func (c *cloneAny) Clone() any         { d := *c; return &d }

type someIface interface{ Get() int }

func (c *cloneIface) Get() int          { return c.a }
func (c *cloneIface) Clone() someIface  { d := *c; return &d }
func (c *cloneTwo) Clone() (any, error) { d := *c; return &d, nil }

type cloneArg struct{ a int }

func (c *cloneArg) Clone(int) *cloneArg { return c }

func runM02(c *Ctx) {
	c.Rule("A case places integers into canary-surrounded buffers of every length in every byte order, or tries one header, byte order, flag or function argument; distinct cases differ in method, order, buffer length or value.")
	c.Assume("encoding/binary and math/big are right")

	type src struct {
		name string
		mk   func() (common.FieldElementEndianness, bool)
	}
	srcs := []src{
		{"LittleEndian", func() (common.FieldElementEndianness, bool) { return common.LittleEndian, false }},
		{"BigEndian", func() (common.FieldElementEndianness, bool) { return common.BigEndian, true }},
		{"set binary.LittleEndian", func() (e common.FieldElementEndianness, be bool) {
			e = common.BigEndian
			e.SetEndianness(binary.LittleEndian)
			return e, false
		}},
		{"set binary.BigEndian", func() (e common.FieldElementEndianness, be bool) {
			e.SetEndianness(binary.BigEndian)
			return e, true
		}},
		{"set FieldElementEndianness", func() (e common.FieldElementEndianness, be bool) {
			e.SetEndianness(common.BigEndian)
			e.SetEndianness(common.LittleEndian)
			f := e.GetEndianness()
			f.SetEndianness(common.BigEndian.GetEndianness())
			return f, true
		}},
		{"default", func() (common.FieldElementEndianness, bool) {
			return common.DefaultEndian, common.DefaultEndian.StartsWithMSB()
		}},
	}
	c.Run("byte orders", 6000, func(t *T) {
		r := t.R
		s := srcs[t.Index%len(srcs)]
		e, be := s.mk()
		t.Class(s.name)
		t.Check(e.StartsWithMSB() == be, "startswith", "%s: StartsWithMSB() = %v", s.name, e.StartsWithMSB())
		if want := map[bool]string{false: "LittleEndian", true: "BigEndian"}[be]; e.String() != want {
			t.Failf("string", "%s: String() = %q", s.name, e.String())
		}
		if _, p := PanicVal(func() { e.Validate() }); p {
			t.Failf("validate", "%s: Validate panics", s.name)
		}
		var o binary.ByteOrder = e
		n := (t.Index / len(srcs)) % 41 // length of the buffer
		for w := 0; w < 10; w++ {
			// canaries left and right; sometimes with extra capacity
			arena := make([]byte, 8+n+40)
			for i := range arena {
				arena[i] = byte(r.Uint32())
			}
			buf := arena[8 : 8+n : 8+n]
			if r.Intn(2) == 0 {
				buf = arena[8 : 8+n]
			}
			before := append([]byte(nil), arena...)
			var val [4]uint64
			for i := range val {
				val[i] = edgeWord(r, i)
			}
			v256 := fromWords(val)
			size, name := 0, ""
			var want *big.Int
			var put func()
			var get func() *big.Int
			switch w {
			case 0:
				size, name, want = 2, "Uint16", bu(val[0]&0xffff)
				put, get = func() { o.PutUint16(buf, uint16(val[0])) }, func() *big.Int { return bu(uint64(o.Uint16(buf))) }
			case 1:
				size, name, want = 4, "Uint32", bu(val[0]&0xffffffff)
				put, get = func() { o.PutUint32(buf, uint32(val[0])) }, func() *big.Int { return bu(uint64(o.Uint32(buf))) }
			case 2, 3:
				size, name, want = 8, "Uint64", bu(val[w-2])
				put, get = func() { o.PutUint64(buf, val[w-2]) }, func() *big.Int { return bu(o.Uint64(buf)) }
			case 4, 5:
				size, name, want = 32, "Uint256", v256
				put, get = func() { e.PutUint256(buf, val) }, func() *big.Int { return fromWords(e.Uint256(buf)) }
			case 6, 7:
				size, name, want = 32, "Uint256_ptr", v256
				keep := val
				put, get = func() { e.PutUint256_ptr(buf, &val) }, func() *big.Int {
					res := [4]uint64{1, 2, 3, 4}
					e.Uint256_indirect(buf, &res)
					if val != keep {
						t.Failf("argument", "PutUint256_ptr changed its argument")
					}
					return fromWords(res)
				}
			default:
				size, name, want = 32, "Uint256_array", v256
				if n < 32 {
					continue
				}
				arr := (*[32]byte)(buf[:32])
				put, get = func() { e.PutUint256_array(arr, &val) }, func() *big.Int {
					res := [4]uint64{1, 2, 3, 4}
					e.Uint256_array(arr, &res)
					return fromWords(res)
				}
			}
			t.EvalH(uint64(w), uint64(n), val[0], val[1]^val[2]<<1^val[3]<<2, uint64(t.Index%len(srcs)))
			if n < size {
				t.Class("too short")
				t.MustPanic("short put", put, "Put%s (%s) into %d bytes (capacity %d)", name, s.name, n, cap(buf))
				t.MustPanic("short get", func() { get() }, "%s (%s) from %d bytes (capacity %d)", name, s.name, n, cap(buf))
				t.Check(string(arena) == string(before), "short write", "Put%s into a too short buffer of %d bytes wrote something", name, n)
				continue
			}
			t.Class("fits")
			put()
			got := byteVal(buf[:size], be)
			if got.Cmp(want) != 0 {
				t.Failf("put:"+name, "%s: Put%s of %#x wrote bytes %x", s.name, name, want, buf[:size])
			}
			if string(arena[:8]) != string(before[:8]) || string(arena[8+size:]) != string(before[8+size:]) {
				t.Failf("outside:"+name, "%s: Put%s changed bytes outside of its %d bytes", s.name, name, size)
			}
			// reading: the bytes just written, and fresh ones
			snapshot := string(arena)
			if g := get(); g.Cmp(want) != 0 {
				t.Failf("get:"+name, "%s: reading back %s gives %#x, want %#x", s.name, name, g, want)
			}
			t.Check(string(arena) == snapshot, "get writes", "%s: %s changed its input", s.name, name)
			for i := 0; i < size; i++ {
				buf[i] = byte(r.Uint32())
			}
			want = byteVal(buf[:size], be)
			if g := get(); g.Cmp(want) != 0 {
				t.Failf("get:"+name, "%s: %s of %x gives %#x", s.name, name, buf[:size], g)
			}
		}
	})
	c.Need("byte orders/fits", 1000)
	c.Need("byte orders/too short", 1000)

	// one bit at a time: every byte position
	c.RunN("single bytes", 32*2, func(t *T) {
		e, be := common.LittleEndian, false
		if t.Index >= 32 {
			e, be = common.BigEndian, true
		}
		pos := t.Index % 32
		for b := 1; b < 256; b++ {
			var in [32]byte
			in[pos] = byte(b)
			w := e.Uint256(in[:])
			t.EvalH(uint64(t.Index), uint64(b))
			if want := byteVal(in[:], be); fromWords(w).Cmp(want) != 0 {
				t.Failf("single", "byte %d = %d read as %#x", pos, b, fromWords(w))
			}
			var w2, w3 [4]uint64
			e.Uint256_array(&in, &w2)
			e.Uint256_indirect(in[:], &w3)
			var o1, o2, o3 [32]byte
			e.PutUint256(o1[:], w)
			e.PutUint256_ptr(o2[:], &w)
			e.PutUint256_array(&o3, &w)
			t.Check(w2 == w && w3 == w && o1 == in && o2 == in && o3 == in, "single", "the 256-bit functions disagree on byte %d = %d (%s)", pos, b, e)
		}
	})

	c.RunN("set byte order", 12, func(t *T) {
		le, be := common.LittleEndian, common.BigEndian
		var nilP *common.FieldElementEndianness
		args := []struct {
			o    binary.ByteOrder
			ok   bool
			big  bool
			name string
		}{{binary.LittleEndian, true, false, "binary.LittleEndian"}, {binary.BigEndian, true, true, "binary.BigEndian"},
			{le, true, false, "common.LittleEndian"}, {be, true, true, "common.BigEndian"},
			{common.FieldElementEndianness{}, true, common.DefaultEndian.StartsWithMSB(), "zero value"},
			{nil, false, false, "nil"}, {foreignOrder{binary.LittleEndian}, false, false, "wrapped little endian"},
			{foreignOrder{binary.BigEndian}, false, false, "wrapped big endian"}, {foreignSliceOrder{binary.BigEndian, nil}, false, false, "incomparable order"},
			{foreignNamed{true}, false, false, "foreign type"}, {&foreignNamed{true}, false, false, "foreign pointer"}, {nilP, false, false, "nil pointer"}}
		a := args[t.Index]
		for _, start := range []common.FieldElementEndianness{le, be} {
			e := start
			t.Eval(a.name, start.String())
			if !a.ok {
				t.Class("refused")
				t.MustPanic("set", func() { e.SetEndianness(a.o) }, "SetEndianness(%s)", a.name)
				continue
			}
			t.Class("accepted")
			e.SetEndianness(a.o)
			t.Check(e.StartsWithMSB() == a.big && e == map[bool]common.FieldElementEndianness{false: le, true: be}[a.big], "set", "SetEndianness(%s) gives %v", a.name, e)
			t.Check(e.GetEndianness() == e, "get", "GetEndianness is not the identity")
		}
		t.Check(common.LittleEndian == le && common.BigEndian == be, "globals", "the package variables changed")
	})

	// all bit headers
	c.RunN("bit headers", 256, func(t *T) {
		l := t.Index // length
		r := t.R
		for b := 0; b < 256; b++ {
			t.EvalH(uint64(l), uint64(b))
			valid := l <= 8 && b>>uint(l) == 0
			var h, h2, h3 common.BitHeader
			_, p1 := PanicVal(func() { h = common.MakeBitHeader(common.PrefixBits(b), uint8(l)) })
			if r.Intn(2) == 0 {
				h2 = common.MakeBitHeader(0b101, 3)
			}
			_, p2 := PanicVal(func() { h2.SetBitHeader(common.PrefixBits(b), uint8(l)) })
			if p1 == valid || p2 == valid {
				t.Failf("bitheader", "prefix %#b of length %d: valid: %v, MakeBitHeader panics: %v, SetBitHeader panics: %v", b, l, valid, p1, p2)
				continue
			}
			if !valid {
				t.Class("invalid")
				continue
			}
			t.Class("valid")
			h3 = common.MakeBitHeader(0b11, 2)
			h3.SetBitHeaderFromBitHeader(h)
			h4 := h3.GetBitHeader()
			for i, x := range []*common.BitHeader{&h, &h2, &h3, &h4} {
				if x.PrefixBits() != common.PrefixBits(b) || x.PrefixLen() != uint8(l) || *x != h {
					t.Failf("bitheader", "prefix %#b of length %d: header %d holds %#b of length %d", b, l, i, x.PrefixBits(), x.PrefixLen())
				}
				x.Validate()
			}
			h4.SetBitHeader(0b1, 1) // a copy
			t.Check(h3 == h, "bitheader copy", "changing the result of GetBitHeader changes the header")
		}
	})
	c.RunN("zero values and flags", 16, func(t *T) {
		var h common.BitHeader
		h.Validate()
		t.Check(h.PrefixLen() == 0 && h.PrefixBits() == 0 && common.MaxLengthPrefixBits == 8, "zero", "zero BitHeader has a prefix")
		var sr common.SubgroupRestriction
		var so common.SubgroupOnly
		for i := 0; i < 4; i++ {
			b := t.Index>>uint(i)&1 != 0
			t.EvalH(uint64(t.Index), uint64(i))
			sr.SetSubgroupRestriction(b)
			sr.Validate()
			t.Check(sr.IsSubgroupOnly() == b, "restriction", "SetSubgroupRestriction(%v), then IsSubgroupOnly() = %v", b, sr.IsSubgroupOnly())
			_, p := PanicVal(func() { so.SetSubgroupRestriction(b) })
			so.Validate()
			t.Check(p == !b && so.IsSubgroupOnly(), "subgrouponly", "SubgroupOnly.SetSubgroupRestriction(%v): panic: %v", b, p)
			t.Check(common.TrustLevelFromBool(b).Bool() == b && (common.TrustLevelFromBool(b) == common.TrustedInput) == b && (common.TrustLevelFromBool(b) == common.UntrustedInput) == !b, "trust", "TrustLevelFromBool(%v)", b)
		}
		t.Check(common.TrustedInput.Bool() && !common.UntrustedInput.Bool(), "trust", "trust level constants")
	})

	c.RunN("constants", 1, func(t *T) {
		two := bi(2)
		ints := []struct {
			name string
			got  *big.Int
			want *big.Int
		}{
			{"BaseFieldSize_Int", common.BaseFieldSize_Int, bP}, {"GroupOrder_Int", common.GroupOrder_Int, bQ},
			{"BaseFieldSize_string", mustBig(common.BaseFieldSize_string), bP}, {"GroupOrder_string", mustBig(common.GroupOrder_string), bQ},
			{"Cofactor_Int", common.Cofactor_Int, bi(4)}, {"Cofactor_string", mustBig(common.Cofactor_string), bi(4)}, {"Cofactor", bi(common.Cofactor), bi(4)},
			{"CurveOrder_Int", common.CurveOrder_Int, bmul(bi(4), bQ)}, {"CurveOrder_string", mustBig(common.CurveOrder_string), bmul(bi(4), bQ)},
			{"CurveExponent_Int", common.CurveExponent_Int, bmul(two, bQ)}, {"CurveExponent_string", mustBig(common.CurveExponent_string), bmul(two, bQ)},
			{"EndomorphismEigenvalue_string", mustBig(common.EndomorphismEigenvalue_string), common.EndomorphismEigenvalue_Int},
			{"One_Int", common.One_Int, bi(1)}, {"Two_Int", common.Two_Int, two}, {"MinusOne_Int", common.MinusOne_Int, bi(-1)},
			{"TwoTo32_Int", common.TwoTo32_Int, new(big.Int).Exp(two, bi(32), nil)}, {"TwoTo64_Int", common.TwoTo64_Int, new(big.Int).Exp(two, bi(64), nil)},
			{"TwoTo128_Int", common.TwoTo128_Int, new(big.Int).Exp(two, bi(128), nil)}, {"TwoTo256_Int", common.TwoTo256_Int, bR}, {"TwoTo512_Int", common.TwoTo512_Int, bR512},
			// untyped constants, a word at a time
			{"BaseFieldSize", wordsOf(common.BaseFieldSize&0xffffffffffffffff, common.BaseFieldSize>>64&0xffffffffffffffff, common.BaseFieldSize>>128&0xffffffffffffffff, common.BaseFieldSize>>192), bP},
			{"BaseFieldSize_untyped", wordsOf(common.BaseFieldSize_untyped&0xffffffffffffffff, common.BaseFieldSize_untyped>>64&0xffffffffffffffff, common.BaseFieldSize_untyped>>128&0xffffffffffffffff, common.BaseFieldSize_untyped>>192), bP},
			{"GroupOrder", wordsOf(common.GroupOrder&0xffffffffffffffff, common.GroupOrder>>64&0xffffffffffffffff, common.GroupOrder>>128&0xffffffffffffffff, common.GroupOrder>>192), bQ},
			{"CurveOrder", wordsOf(common.CurveOrder&0xffffffffffffffff, common.CurveOrder>>64&0xffffffffffffffff, common.CurveOrder>>128&0xffffffffffffffff, common.CurveOrder>>192), bmul(bi(4), bQ)},
			{"CurveExponent", wordsOf(common.CurveExponent&0xffffffffffffffff, common.CurveExponent>>64&0xffffffffffffffff, common.CurveExponent>>128&0xffffffffffffffff, common.CurveExponent>>192), bmul(two, bQ)},
			{"EndomorphismEigenvalue", wordsOf(common.EndomorphismEigenvalue&0xffffffffffffffff, common.EndomorphismEigenvalue>>64&0xffffffffffffffff, common.EndomorphismEigenvalue>>128&0xffffffffffffffff, common.EndomorphismEigenvalue>>192), common.EndomorphismEigenvalue_Int},
			{"BaseFieldBitLength", bi(common.BaseFieldBitLength), bi(int64(bP.BitLen()))}, {"BaseFieldByteLength", bi(common.BaseFieldByteLength), bi(32)},
		}
		for _, x := range ints {
			t.Eval(x.name)
			t.Check(x.got.Cmp(x.want) == 0, "constant:"+x.name, "%s is %v, want %v", x.name, x.got, x.want)
		}
		l := common.EndomorphismEigenvalue_Int
		t.Check(bmod(badd(bmul(l, l), two), bQ).Sign() == 0 && l.Sign() > 0 && l.Cmp(bQ) < 0, "constant:eigenvalue", "EndomorphismEigenvalue_Int is no reduced square root of -2 modulo the group order")
		t.Check(bP.ProbablyPrime(20) && bQ.ProbablyPrime(20), "constant:prime", "not prime")
		t.Class("constants")
	})

	c.Run("clone", 400, func(t *T) {
		a, b := t.R.Int(), t.R.Int()
		if t.R.Intn(3) == 0 {
			a, b = 0, 0
		}
		t.EvalH(uint64(t.Index%5), uint64(a))
		switch t.Index % 5 {
		case 0:
			x := &cloneSame{a, b}
			y := common.Clone(x)
			t.Check(y != x && *y == *x, "clone", "Clone (own type)")
		case 1:
			x := &cloneAny{a, b}
			y := common.Clone(x)
			t.Check(y != x && *y == *x, "clone", "Clone (any)")
		case 2:
			x := &cloneIface{a, b}
			y := common.Clone(x)
			t.Check(y != x && *y == *x, "clone", "Clone (other interface)")
		case 3:
			t.MustPanic("clone", func() { common.Clone(&cloneNone{a}) }, "Clone of a type without Clone")
			t.MustPanic("clone", func() { common.Clone(&cloneTwo{a}) }, "Clone with two results")
		case 4:
			t.MustPanic("clone", func() { common.Clone(&cloneArg{a}) }, "Clone with an argument")
		}
	})

	// calls with nil arguments
	type pt struct{ x int }
	funs := []interface{}{
		func(a int, b *pt) string { return fmt.Sprint(a, b) },
		func(a interface{}, b error, c map[string]int) string {
			return fmt.Sprint(a, b, c, a == nil, b == nil, c == nil)
		},
		func(a []int, b func(), c chan int) string { return fmt.Sprint(a == nil, b == nil, c == nil, len(a)) },
		func() string { return "none" },
		func(a int) string { return fmt.Sprint(a) },
		func(a pt, b [2]int, c string) string { return fmt.Sprint(a, b, c) },
		func(a *pt, b fmt.Stringer, c *int, d []string) string {
			return fmt.Sprint(a == nil, b == nil, c == nil, d == nil)
		},
	}
	c.Run("calls with nil", 3000, func(t *T) {
		r := t.R
		f := reflect.ValueOf(funs[t.Index%len(funs)])
		ft := f.Type()
		in := make([]reflect.Value, ft.NumIn())
		direct := make([]reflect.Value, ft.NumIn())
		mustPanic := false
		for i := range in {
			at := ft.In(i)
			nilable := false
			switch at.Kind() {
			case reflect.Interface, reflect.Ptr, reflect.Chan, reflect.Func, reflect.Slice, reflect.Map:
				nilable = true
			}
			switch r.Intn(3) {
			case 0: // untyped nil
				if nilable || r.Intn(4) == 0 {
					in[i] = reflect.ValueOf(nil)
					direct[i] = reflect.Zero(at)
					mustPanic = mustPanic || !nilable
					t.Class("untyped nil")
					continue
				}
				fallthrough
			case 1:
				direct[i] = reflect.Zero(at)
			default:
				switch at.Kind() {
				case reflect.Int:
					direct[i] = reflect.ValueOf(r.Intn(9))
				case reflect.Slice:
					direct[i] = reflect.MakeSlice(at, 2, 2)
				case reflect.Ptr:
					direct[i] = reflect.New(at.Elem())
				case reflect.Map:
					direct[i] = reflect.MakeMap(at)
				default:
					direct[i] = reflect.Zero(at)
				}
			}
			in[i] = direct[i]
		}
		t.Eval(ft.String(), fmt.Sprint(in))
		if mustPanic {
			t.Class("not nilable")
			t.MustPanic("nil call", func() { common.CallFunction_FixNil(f, in) }, "call of %v with nil for a type without nil", ft)
			return
		}
		// pointers print as addresses: same arguments, so the same text
		want := f.Call(direct)[0].String()
		out := common.CallFunction_FixNil(f, in)
		if len(out) != 1 || out[0].String() != want {
			t.Failf("nil call", "call of %v gives %v, want %q", ft, out, want)
		}
		if t.Index%50 == 0 {
			t.MustPanic("nil call", func() { common.CallFunction_FixNil(reflect.ValueOf(3), nil) }, "call of a non-function")
		}
	})
	c.Need("calls with nil/untyped nil", 100)
	c.Need("calls with nil/not nilable", 20)
}

func wordsOf(a, b, c, d uint64) *big.Int { return fromWords([4]uint64{a, b, c, d}) }
