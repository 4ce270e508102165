package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
)

// The building blocks of the serializers: serializers for bare values (field elements, bits)
// with sub-byte headers and for single points without headers, reached through the
// in-package bridge as far as it fits the tree. They are driven by reflection.

// svObj is one such building block with its model.
type svObj struct {
	name string
	v    reflect.Value // pointer
	be   bool
	sub  bool
	pre  [2]uint
	l    [2]int
}

func (o *svObj) String() string {
	return fmt.Sprintf("%s(be=%v sub=%v headers=%b/%d,%b/%d)", o.name, o.be, o.sub, o.pre[0], o.l[0], o.pre[1], o.l[1])
}

func svNames(which string) (res []string) {
	for n := range ps.VerifParts {
		if strings.HasPrefix(n, which) {
			res = append(res, n)
		}
	}
	sort.Strings(res)
	return
}

func svNew(name string) *svObj {
	o := &svObj{name: name, v: reflect.ValueOf(ps.VerifParts[name]())}
	o.sub = name == "PXtS" || name == "PYXtS"
	o.be = common.DefaultEndian.StartsWithMSB()
	return o
}

func (o *svObj) params() []string {
	res := []string{"Endianness"}
	if o.name[0] == 'P' {
		res = append(res, "SubgroupOnly")
	}
	switch o.name {
	case "Vhf", "PXtS":
		res = append(res, "BitHeader")
	case "Vhfhf", "PXY", "PYXtS":
		res = append(res, "BitHeader", "BitHeader2")
	}
	return res
}

func (o *svObj) length() int {
	switch o.name {
	case "Vff", "Vhfhf", "PXY", "PYXtS":
		return 64
	}
	return 32
}

func (o *svObj) call(method string, args ...interface{}) []reflect.Value {
	m := o.v.MethodByName(method)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(m.Type().In(i))
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	return m.Call(in)
}

// errOf turns a possibly nil error into an ordinary one
func errOf(v reflect.Value) error {
	if v.IsNil() {
		return nil
	}
	return v.Interface().(error)
}

// set derives a new object with a parameter changed.
func (o *svObj) set(r *rand.Rand, param string) *svObj {
	n := *o
	var val interface{}
	var order binary.ByteOrder
	switch param {
	case "Endianness":
		n.be = r.Intn(2) == 0
		order = map[bool]binary.ByteOrder{false: binary.LittleEndian, true: binary.BigEndian}[n.be]
		if r.Intn(2) == 0 {
			order = map[bool]common.FieldElementEndianness{false: fe.LittleEndian, true: fe.BigEndian}[n.be]
		}
		val = order
	case "SubgroupOnly":
		n.sub = r.Intn(2) == 0 || o.name == "PXtS" || o.name == "PYXtS"
		val = n.sub
	default:
		i := len(param) - len("BitHeader")
		n.l[i] = r.Intn(9)
		if r.Intn(2) == 0 {
			n.l[i] = r.Intn(3)
		}
		n.pre[i] = uint(r.Intn(1 << uint(n.l[i])))
		val = common.MakeBitHeader(common.PrefixBits(n.pre[i]), uint8(n.l[i]))
	}
	if order != nil && o.name[0] == 'P' && r.Intn(2) == 0 {
		n.v = o.v.MethodByName("WithEndianness").Call([]reflect.Value{reflect.ValueOf(order)})[0]
		return &n
	}
	n.v = o.call("WithParameter", randCase(r, param), val)[0]
	return &n
}

func (t *T) svLook(r *rand.Rand, o *svObj, when string) {
	t.Check(o.v.Type() == reflect.TypeOf(ps.VerifParts[o.name]()), "block/type", "%s: %v has type %v", when, o, o.v.Type())
	var a, b []string
	for _, p := range o.params() {
		name := randCase(r, p)
		t.Check(o.call("HasParameter", name)[0].Bool(), "block/HasParameter", "%s: %v has no parameter %s", when, o, name)
		got := o.call("GetParameter", name)[0].Interface()
		ok := false
		switch g := got.(type) {
		case binary.ByteOrder:
			probe := make([]byte, 2)
			g.PutUint16(probe, 1)
			ok = p == "Endianness" && (probe[1] == 1) == o.be
		case bool:
			ok = p == "SubgroupOnly" && g == o.sub
		case common.BitHeader:
			if i := len(p) - len("BitHeader"); i == 0 || i == 1 {
				ok = uint(g.PrefixBits()) == o.pre[i] && int(g.PrefixLen()) == o.l[i]
			}
		}
		t.Check(ok, "block/"+p, "%s: parameter %s of %v is %v (%T)", when, name, o, got, got)
		b = append(b, strings.ToLower(p))
	}
	rec := o.call("RecognizedParameters")[0].Interface().([]string)
	for i, p := range rec {
		a = append(a, strings.ToLower(p))
		rec[i] = "overwritten"
	}
	sort.Strings(a)
	sort.Strings(b)
	t.Check(fmt.Sprint(a) == fmt.Sprint(b), "block/RecognizedParameters", "%s: %v recognizes %v, want %v", when, o, a, b)
	t.Check(int(o.call("OutputLength")[0].Int()) == o.length(), "block/OutputLength", "%s: OutputLength of %v is %v", when, o, o.call("OutputLength")[0].Int())
	o.call("Validate")
}

// svHistories: parameter changes of building blocks (S05).
func svHistories(c *Ctx) {
	names := append(svNames("V"), svNames("P")...)
	if len(names) == 0 {
		return
	}
	c.Run("building blocks", 4000, func(t *T) {
		r := t.R
		objs := []*svObj{svNew(names[t.Index%len(names)])}
		hist := uint64(0)
		for s := 4 + r.Intn(10); s > 0; s-- {
			o := objs[r.Intn(len(objs))]
			switch op := r.Intn(6); {
			case op < 4:
				ps := o.params()
				p := ps[r.Intn(len(ps))]
				n := o.set(r, p)
				t.Note("%d: %d with %s: %v", len(objs), op, p, n)
				t.Class("changed " + strings.ToLower(p))
				objs = append(objs, n)
				hist = hist*31 + hashStr(n.String())
			case op == 4:
				n := *o
				n.v = o.call("Clone")[0]
				if n.v.Kind() != reflect.Ptr { // a copy by value
					q := reflect.New(n.v.Type())
					q.Elem().Set(n.v)
					n.v = q
				}
				t.Check(n.v.Pointer() != o.v.Pointer(), "block/Clone", "Clone returned its receiver")
				t.Note("%d: clone", len(objs))
				t.Class("cloned")
				// setters work in place on the copy
				if m := n.v.MethodByName("SetEndianness"); m.IsValid() && r.Intn(2) == 0 {
					n.be = !n.be
					order := map[bool]binary.ByteOrder{false: binary.LittleEndian, true: binary.BigEndian}[n.be]
					m.Call([]reflect.Value{reflect.ValueOf(order)})
				}
				objs = append(objs, &n)
			default:
				bad := []string{"", "Endianess", "BitHeader3", "endianness ", "SinglePointHeader", "BitHeader", "BitHeader2", "SubgroupOnly"}[r.Intn(8)]
				known := false
				for _, p := range o.params() {
					known = known || strings.EqualFold(p, bad)
				}
				v := interface{}(common.MakeBitHeader(1, 1))
				if known {
					v = []interface{}{"1", 1.5, nil}[r.Intn(3)]
				} else {
					t.Check(!o.call("HasParameter", bad)[0].Bool(), "block/HasParameter", "%v has parameter %q", o, bad)
					t.MustPanic("block/GetParameter", func() { o.call("GetParameter", bad) }, "GetParameter(%q) of %v", bad, o)
				}
				t.Class("refused")
				t.MustPanic("block/invalid", func() { o.call("WithParameter", bad, v) }, "WithParameter(%q, %v) of %v", bad, v, o)
			}
			t.svLook(r, objs[r.Intn(len(objs))], "in between")
		}
		for i, o := range objs {
			t.svLook(r, o, fmt.Sprintf("end, object %d", i))
			if o.name[0] == 'V' {
				t.svRoundtrip(r, o)
			}
			t.EvalH(hist, uint64(i), hashStr(o.String()))
		}
	})
	for _, p := range []string{"changed endianness", "cloned", "refused"} {
		c.Need("building blocks/"+p, 200)
	}
}

type svVals struct {
	args []interface{}
	v    []*big.Int
	b    []bool
	want []byte
	end  []int // length of the complete values
	bad  int   // index of the first value the header does not leave room for, or -1
}

func (o *svObj) gen(r *rand.Rand, fit bool) (s svVals) {
	s.bad = -1
	header, hi := false, 0
	layout := o.name[1:]
	for i := 0; i < len(layout); i++ {
		switch layout[i] {
		case 'h':
			header = true
		case 'f':
			l, pre := 0, uint(0)
			bit := i+1 < len(layout) && layout[i+1] == 'b'
			if header {
				l, pre = o.l[hi], o.pre[hi]
				hi++
			}
			if bit {
				l, pre = 1, uint(r.Intn(2))
			}
			lim := new(big.Int).Lsh(bOne, uint(256-l))
			v := genResidue(r)
			switch r.Intn(4) {
			case 0:
				v = bmod(badd(lim, bi(int64(r.Intn(4)-2))), bP)
			case 1:
				v = bmod(v, lim)
			}
			if fit {
				v = bmod(v, lim)
			}
			if v.Cmp(lim) >= 0 && s.bad < 0 {
				s.bad = len(s.v)
			}
			x := feFrom(r, v)
			s.args = append(s.args, &x)
			s.v = append(s.v, v)
			if bit {
				s.args = append(s.args, pre == 1)
				s.b = append(s.b, pre == 1)
			}
			if s.bad < 0 {
				s.want = append(s.want, enc32(withPrefix(v, pre, l), o.be)...)
			}
			s.end = append(s.end, len(s.want))
			header = false
		}
	}
	return
}

func (t *T) svCompare(key string, o *svObj, s *svVals, out []reflect.Value) {
	nf, nb := 0, 0
	for _, x := range out {
		switch y := x.Interface().(type) {
		case FE:
			if nf < len(s.v) {
				t.Check(beq(feVal(&y), s.v[nf]), key+"/value", "%v: value %d is %s, want %s", o, nf, hex(feVal(&y)), hex(s.v[nf]))
			}
			nf++
		case bool:
			if nb < len(s.b) {
				t.Check(y == s.b[nb], key+"/bit", "%v: bit is %v", o, y)
			}
			nb++
		}
	}
	t.Check(nf == len(s.v) && nb == len(s.b), key+"/values", "%v: %d values, %d bits", o, nf, nb)
}

func (t *T) svRoundtrip(r *rand.Rand, o *svObj) {
	s := o.gen(r, true)
	buf := genSink(t.R)
	res := o.call("SerializeValues", append([]interface{}{buf.Writer}, s.args...)...)
	t.Check(errOf(res[1]) == nil && int(res[0].Int()) == len(s.want) && bytes.Equal(buf.Bytes(), s.want), "values/bytes", "%v writes %x (n=%d, %v), want %x", o, buf.Bytes(), res[0].Int(), errOf(res[1]), s.want)
	in := genStream(t.R, append(append([]byte(nil), s.want...), 1, 2, 3))
	res = o.call("DeserializeValues", in.Reader)
	if err := errOf(res[1]); err != nil {
		t.Failf("values/read", "%v does not read %x: %v", o, s.want, err)
		return
	}
	t.Check(int(res[0].Int()) == len(s.want) && in.used() == len(s.want), "values/consumed", "%v from %s: n=%d, %d bytes consumed", o, in.name, res[0].Int(), in.used())
	t.svCompare("values/read", o, &s, res[2:])
}

// svValues: what bare values are written as, and what is refused (S01).
func svValues(c *Ctx) {
	names := svNames("V")
	if len(names) == 0 {
		return
	}
	c.Run("bare values", 60000, func(t *T) {
		r := t.R
		o := svNew(names[t.Index%len(names)])
		for n := r.Intn(4); n > 0; n-- {
			ps := o.params()
			o = o.set(r, ps[r.Intn(len(ps))])
		}
		t.Class(o.name)
		s := o.gen(r, r.Intn(2) == 0)
		t.Note("%v, %d values %v", o, len(s.v), s.v)
		t.EvalH(hashStr(o.String()), hashStr(fmt.Sprint(s.v, s.b)))
		if s.bad < 0 {
			t.svRoundtrip(r, o)
		}
		buf := genSink(t.R)
		res := o.call("SerializeValues", append([]interface{}{buf.Writer}, s.args...)...)
		err := errOf(res[1])
		t.Check(int(res[0].Int()) == buf.Len() && bytes.Equal(buf.Bytes(), s.want), "values/bytes", "%v writes %x (n=%d, %v), want %x", o, buf.Bytes(), res[0].Int(), err, s.want)
		if s.bad >= 0 {
			t.Classf("does not fit")
			t.Check(err != nil && isAny(err, []error{fe.ErrPrefixDoesNotFit}), "values/fit", "%v: error %v for a value that does not leave room for its header", o, err)
		} else {
			t.Check(err == nil, "values/err", "%v: %v", o, err)
		}
		for i, v := range s.v {
			k := 0
			for _, a := range s.args {
				if x, ok := a.(*FE); ok {
					if k == i {
						t.Check(beq(feVal(x), v), "values/source", "%v changed its argument %d", o, i)
					}
					k++
				}
			}
		}
		if s.bad >= 0 {
			return
		}
		// arbitrary changes of the string are noticed exactly if they change a header or leave the field
		b := append([]byte(nil), s.want...)
		if r.Intn(2) == 0 {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		} else {
			copy(b[32*r.Intn(len(b)/32):], enc32(bmod(badd([]*big.Int{bP, b2P, bHalf, bZero, gen256(r), withPrefix(bP, uint(r.Intn(2)), 1)}[r.Intn(6)], bi(int64(r.Intn(5)-2))), bR), o.be))
		}
		w, bad, hi := svVals{}, 0, 0
		for i := 0; i < len(s.v) && bad == 0; i++ {
			x := dec32(b[32*i:32*i+32], o.be)
			l, pre, any := 0, uint(0), false
			if strings.Contains(o.name, "h") {
				l, pre = o.l[hi], o.pre[hi]
				hi++
			}
			if strings.HasSuffix(o.name, "b") {
				l, any = 1, true
			}
			top := uint(new(big.Int).Rsh(x, uint(256-l)).Uint64())
			low := bmod(x, new(big.Int).Lsh(bOne, uint(256-l)))
			switch {
			case !any && top != pre:
				bad = 1
			case low.Cmp(bP) >= 0:
				bad = 2
			}
			w.v = append(w.v, low)
			if any {
				w.b = append(w.b, top == 1)
			}
		}
		t.Note("reading %x", b)
		res = o.call("DeserializeValues", bytes.NewReader(b))
		err = errOf(res[1])
		switch bad {
		case 0:
			t.Class("changed string: other values")
			t.Check(err == nil, "values/changed", "%v does not read %x: %v", o, b, err)
			if err == nil {
				t.svCompare("values/changed", o, &w, res[2:])
			}
		case 1:
			t.Class("changed string: wrong header")
			t.Check(err != nil && isAny(err, []error{fe.ErrPrefixMismatch}), "values/header", "%v reads %x: %v", o, b, err)
		default:
			t.Class("changed string: not reduced")
			t.Check(err != nil && isAny(err, []error{fe.ErrNonNormalizedDeserialization}), "values/reduced", "%v reads %x: %v", o, b, err)
		}
	})
	for _, n := range names {
		c.Need("bare values/"+n, 1000)
	}
}

// svFaults: streams failing anywhere within bare values (S04). Which flags the error data carry
// is a matter of the serializers built on these and judged there.
func svFaults(c *Ctx) {
	names := svNames("V")
	if len(names) == 0 {
		return
	}
	c.Run("bare values", 3000, func(t *T) {
		r := t.R
		o := svNew(names[t.Index%len(names)])
		for n := r.Intn(4); n > 0; n-- {
			ps := o.params()
			o = o.set(r, ps[r.Intn(len(ps))])
		}
		s := o.gen(r, true)
		kind := r.Intn(8)
		for at := 0; at < len(s.want); at++ {
			ierr := injErrors(r)[kind]
			t.ResetNotes()
			t.Note("%v, values %v, stream fails after %d bytes with %v", o, s.v, at, ierr)
			t.EvalH(hashStr(o.String()), uint64(at), uint64(kind))
			rd := &faultReader{data: append(append([]byte(nil), s.want...), 1, 2), failAt: at, err: ierr, with: at > 0 && r.Intn(2) == 0, chunk: chunking(r.Intn(nChunkings), r), zeros: r.Intn(3)}
			if ierr == io.EOF {
				rd.data, rd.failAt = s.want[:at], -1
			}
			res := o.call("DeserializeValues", rd)
			n, err := int(res[0].Int()), errOf(res[1])
			t.Check(n == rd.pos && n == at, "values/fail/n", "%v: returned %d, transferred %d of %d", o, n, rd.pos, at)
			t.Check(err != nil && ioCause(err, kind, ierr, n, false), "values/fail/cause", "%v: error %v, want %v", o, err, ierr)
			early := r.Intn(2) == 0
			wr := &faultWriter{failAt: at, err: ierr, early: early}
			res = o.call("SerializeValues", append([]interface{}{wr}, s.args...)...)
			n, err = int(res[0].Int()), errOf(res[1])
			t.Check(n == len(wr.got) && bytes.Equal(wr.got, s.want[:n]), "values/failw/n", "%v: returned %d, wrote %x, want a prefix of %x", o, n, wr.got, s.want)
			t.Check(n == at, "values/failw/n", "%v: returned %d, the stream took %d", o, n, at)
			t.Check(err != nil && (isAny(err, []error{ierr}) || (kind == 1 || kind == 7) && isAny(err, []error{io.ErrUnexpectedEOF})), "values/failw/cause", "%v: error %v, want %v", o, err, ierr)
			t.Classf("failed in value %d", at/32)
		}
	})
	c.Need("bare values/failed in value 0", 1000)
	c.Need("bare values/failed in value 1", 1000)
}
