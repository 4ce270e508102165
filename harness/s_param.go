package main

// S05: immutability of serializers and parameter changes.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
)

func init() {
	register("S05", 15, runS05)
}

type sliceT = cp.CurvePointSlice

// sObj is a live (de-)serializer together with what it must be.
type sObj struct {
	id   int
	f    sfmt
	ser  ps.CurvePointSerializerModifyable // one of them
	des  ps.CurvePointDeserializerModifyable
	born string
}

func (o *sObj) d() ps.CurvePointDeserializer {
	if o.ser != nil {
		return o.ser
	}
	return o.des
}

// param is the value a parameter must have according to the model.
func (f *sfmt) param(name string) interface{} {
	switch name {
	case "Endianness":
		if f.be {
			return fe.BigEndian
		}
		return fe.LittleEndian
	case "SubgroupOnly":
		return f.sub
	case "BitHeader":
		return common.MakeBitHeader(common.PrefixBits(f.pre[0]), uint8(f.l[0]))
	case "BitHeader2":
		return common.MakeBitHeader(common.PrefixBits(f.pre[1]), uint8(f.l[1]))
	}
	for i, n := range sHeaderNames {
		if n == name {
			return []byte(f.h[i])
		}
	}
	panic("harness: parameter " + name)
}

func paramEqual(got, want interface{}) bool {
	switch w := want.(type) {
	case []byte:
		g, ok := got.([]byte)
		return ok && bytes.Equal(g, w)
	case common.FieldElementEndianness:
		g, ok := got.(common.FieldElementEndianness)
		return ok && g.StartsWithMSB() == w.StartsWithMSB()
	}
	return got == want
}

// look compares everything observable of a serializer with its model. Slices
// handed out are overwritten afterwards.
func (t *T) look(r *rand.Rand, o *sObj, when string) {
	d := o.d()
	for _, p := range o.f.params() {
		name := randCase(r, p)
		t.Check(d.HasParameter(name), "HasParameter", "%s: object %d (%s) has no parameter %s", when, o.id, o.born, name)
		got, want := d.GetParameter(name), o.f.param(p)
		if !paramEqual(got, want) {
			t.Failf("param/"+p, "%s: parameter %s of object %d (%s) is %v (%T), want %v", when, p, o.id, o.born, got, got, want)
		}
		if b, ok := got.([]byte); ok {
			scribble(r, b)
		}
	}
	rec := d.RecognizedParameters()
	var a, b []string
	for _, s := range rec {
		a = append(a, strings.ToLower(s))
	}
	for _, s := range o.f.params() {
		b = append(b, strings.ToLower(s))
	}
	sort.Strings(a)
	sort.Strings(b)
	t.Check(fmt.Sprint(a) == fmt.Sprint(b), "RecognizedParameters", "%s: recognized parameters of object %d (%s) are %v, want %v", when, o.id, o.born, rec, b)
	for i := range rec {
		rec[i] = "overwritten"
	}
	t.Check(int(d.OutputLength()) == o.f.singleLen(), "OutputLength", "%s: OutputLength of object %d (%s) is %d, want %d", when, o.id, o.born, d.OutputLength(), o.f.singleLen())
	n := int32(r.Intn(100))
	l, err := d.SliceOutputLength(n)
	t.Check(err == nil && int64(l) == o.f.sliceLen(int64(n)), "SliceOutputLength", "%s: SliceOutputLength(%d) of object %d (%s) is %d, %v, want %d", when, n, o.id, o.born, l, err, o.f.sliceLen(int64(n)))
	t.Check(d.GetFieldElementEndianness().StartsWithMSB() == o.f.be, "GetFieldElementEndianness", "%s: byte order of object %d (%s) is %v", when, o.id, o.born, d.GetFieldElementEndianness())
	t.Check(d.IsSubgroupOnly() == o.f.sub, "IsSubgroupOnly", "%s: IsSubgroupOnly of object %d (%s) is %v", when, o.id, o.born, d.IsSubgroupOnly())
}

// work lets the object write and read.
func (t *T) work(r *rand.Rand, o *sObj, when string) {
	p := genStrictFitting(r, &o.f, o.f.sub)
	if p == nil {
		return
	}
	ks := kindsFor(p)
	k := ks[r.Intn(len(ks))]
	for mode := mSingle; mode <= mSlice; mode += 2 {
		want := o.f.single(p)
		if mode == mSlice {
			want = o.f.slice([]*rp{p})
		}
		if o.ser != nil {
			var w bytes.Buffer
			var err error
			if mode == mSingle {
				_, e := o.ser.SerializeCurvePoint(&w, ptMake(r, k, p))
				if e != nil {
					err = e
				}
			} else {
				b := genBox(r, 9, 1, 0)
				b.put(r, 0, p)
				_, e := o.ser.(sliceSerializer).SerializeSlice(&w, b.cps)
				if e != nil {
					err = e
				}
			}
			t.Check(err == nil && bytes.Equal(w.Bytes(), want), "bytes/"+mNames[mode], "%s: object %d (%s) writes %x (%v), want %x", when, o.id, o.born, w.Bytes(), err, want)
		}
		var err error
		b := genBox(r, 9, 1, 0)
		if mode == mSingle {
			if _, e := o.d().DeserializeCurvePoint(bytes.NewReader(want), trusts[r.Intn(2)], b.at[0]); e != nil {
				err = e
			}
		} else {
			if _, _, e := o.d().DeserializeSlice(bytes.NewReader(want), trusts[r.Intn(2)], func(int32) (interface{}, sliceT, error) { return nil, b.cps, nil }); e != nil {
				err = e
			}
		}
		if err != nil {
			t.Failf("reads/"+mNames[mode], "%s: object %d (%s) does not read %x: %v", when, o.id, o.born, want, err)
			continue
		}
		t.isPt("reads/"+mNames[mode], b.at[0], p, "%s: object %d (%s) reading %x", when, o.id, o.born, want)
		// a wrong byte must still be noticed wherever the format has fixed bytes
		if hs := o.f.h[hSingleH]; mode == mSingle && hs != "" {
			bad := append([]byte(nil), want...)
			bad[r.Intn(len(hs))] ^= 1
			_, e := o.d().DeserializeCurvePoint(bytes.NewReader(bad), trusts[r.Intn(2)], b.at[0])
			t.Check(e != nil, "reads/wrong header", "%s: object %d (%s) reads %x", when, o.id, o.born, bad)
		}
	}
}

func scribble(r *rand.Rand, b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= byte(1 + r.Intn(255))
	}
}

// spoilErrors provokes errors and overwrites every byte slice among their data.
func (t *T) spoilErrors(r *rand.Rand, o *sObj) (done bool) {
	p := genStrictFitting(r, &o.f, o.f.sub)
	if p == nil {
		return
	}
	ks := kindsFor(p)
	k := ks[r.Intn(len(ks))]
	slice := r.Intn(2) == 0
	want := o.f.single(p)
	if slice {
		want = o.f.slice([]*rp{p})
	}
	spoil := func(err error) {
		if d, ok := err.(interface{ GetData_map() map[string]any }); ok {
			for _, v := range d.GetData_map() {
				if b, ok := v.([]byte); ok && len(b) > 0 {
					scribble(r, b)
					done = true
				}
			}
		}
	}
	at := r.Intn(len(want))
	if r.Intn(2) == 0 { // within the first or last few bytes: headers and footers
		at = r.Intn(1 + len(want)/5)
		if r.Intn(2) == 0 {
			at = len(want) - 1 - at
		}
	}
	t.Note("object %d failing at %d of %d bytes; error data overwritten", o.id, at, len(want))
	b := genBox(r, 9, 1, 0)
	read := func(in []byte) {
		if slice {
			_, _, e := o.d().DeserializeSlice(bytes.NewReader(in), common.UntrustedInput, func(l int32) (interface{}, sliceT, error) {
				if l != 1 {
					return nil, nil, fmt.Errorf("no room for %d points", l)
				}
				return nil, b.cps, nil
			})
			if e != nil {
				spoil(e)
			}
		} else if _, e := o.d().DeserializeCurvePoint(bytes.NewReader(in), common.UntrustedInput, b.at[0]); e != nil {
			spoil(e)
		}
	}
	read(want[:at])
	bad := append([]byte(nil), want...)
	bad[at] ^= byte(1 + r.Intn(255))
	read(bad)
	if o.ser != nil {
		w := &faultWriter{failAt: at, err: injErrors(r)[0], early: r.Intn(2) == 0}
		if slice {
			b2 := genBox(r, 9, 1, 0)
			b2.put(r, 0, p)
			if _, e := o.ser.(sliceSerializer).SerializeSlice(w, b2.cps); e != nil {
				spoil(e)
			}
		} else if _, e := o.ser.SerializeCurvePoint(w, ptMake(r, k, p)); e != nil {
			spoil(e)
		}
	}
	return
}

type fakeOrder struct{ binary.ByteOrder }

// badSetting gives a parameter change that must be refused.
func badSetting(r *rand.Rand, f *sfmt) (name string, v interface{}) {
	if r.Intn(3) == 0 {
		names := []string{"", "Endianess", "BitHeader3", "Header", "PerPointHeaders", "Endianness ", "validate", "Validate", "SetEndianness", "Clone"}
		if f.nHeaders() < 1 {
			names = append(names, "BitHeader", "bitheader")
		}
		if f.nHeaders() < 2 {
			names = append(names, "BitHeader2", "BITHEADER2")
		}
		return names[r.Intn(len(names))], []interface{}{nil, true, []byte{1}, common.MakeBitHeader(1, 1), binary.LittleEndian}[r.Intn(5)]
	}
	ps := f.params()
	p := ps[r.Intn(len(ps))]
	var vals []interface{}
	switch p {
	case "Endianness":
		vals = []interface{}{nil, "LittleEndian", 1, true, fakeOrder{binary.LittleEndian}, fakeOrder{binary.BigEndian}, []byte{1}}
	case "SubgroupOnly":
		vals = []interface{}{nil, "true", 1, []byte{1}, common.MakeBitHeader(0, 0)}
		if f.kind >= sXtS {
			vals = append(vals, false, false, false)
		}
	case "BitHeader", "BitHeader2":
		vals = []interface{}{nil, "1", 1, []byte{1}, true, common.PrefixBits(1), binary.LittleEndian}
	default:
		vals = []interface{}{1, true, []int{1}, common.MakeBitHeader(0, 0), [2]byte{1, 2}, binary.BigEndian}
	}
	return randCase(r, p), vals[r.Intn(len(vals))]
}

func runS05(c *Ctx) {
	if !needRef(c) {
		return
	}
	sBridgeNote(c)
	svHistories(c)
	c.Rule("A case is a history of parameter changes, copies, refused changes and overwriting of every byte slice passed in or handed out, over a growing family of serializers and deserializers with one origin; after each step some, at the end all members are compared with their models (all parameters, lengths, bytes written and read). Distinct by history.")
	c.Run("histories", 5000, func(t *T) {
		r := t.R
		base := sBases[t.Index%len(sBases)]
		objs := []*sObj{{0, base.model, base.ser, nil, base.name}}
		if base.des != nil {
			objs = append(objs, &sObj{1, base.model, nil, base.des, base.name + " as deserializer"})
		}
		add := func(o *sObj) {
			o.id = len(objs)
			objs = append(objs, o)
		}
		var given [][]byte // slices passed in
		hist := uint64(0)
		steps := 6 + r.Intn(20)
		t.Note("history:")
		for s := 0; s < steps; s++ {
			o := objs[r.Intn(len(objs))]
			if r.Intn(2) == 0 {
				o = objs[len(objs)-1]
			}
			switch op := r.Intn(14); {
			case op >= 12:
				if t.spoilErrors(r, o) {
					t.Class("error data overwritten")
				}
			case op < 6:
				set := genSetting(r, &o.f, "")
				passed := set.value
				if b, ok := passed.([]byte); ok && b != nil { // part of a larger array
					big := make([]byte, len(b)+6)
					r.Read(big)
					copy(big[3:], b)
					set.value = big[3 : 3+len(b)]
					given = append(given, big)
				}
				t.Note("object %d = object %d with %s = %v", len(objs), o.id, set.param, set.value)
				n := &sObj{f: o.f, born: fmt.Sprintf("from %d by %s", o.id, set.param)}
				set.apply(&n.f)
				if o.ser != nil {
					n.ser = set.derive(r, o.ser)
				} else {
					n.des = set.deriveD(r, o.des)
				}
				add(n)
				t.Class("changed " + strings.ToLower(set.param))
				hist = hist*31 + hashStr(strings.ToLower(set.param), n.f.String())
			case op == 6:
				n := &sObj{f: o.f, born: fmt.Sprintf("clone of %d", o.id)}
				if o.ser != nil {
					n.ser = o.ser.Clone()
				} else {
					n.des = o.des.Clone()
				}
				t.Note("object %d = clone of object %d", len(objs), o.id)
				add(n)
				t.Class("cloned")
			case op == 7 && o.ser != nil:
				t.Note("object %d = object %d as deserializer", len(objs), o.id)
				add(&sObj{f: o.f, des: o.ser.AsDeserializer(), born: fmt.Sprintf("deserializer of %d", o.id)})
				t.Class("as deserializer")
			case op == 8 && len(given) > 0:
				t.Note("overwriting a slice passed in")
				scribble(r, given[r.Intn(len(given))])
				t.Class("argument overwritten")
			case op <= 9:
				name, v := badSetting(r, &o.f)
				t.Note("object %d with %s = %v (%T), to be refused", o.id, name, v, v)
				t.Class("refused " + strings.ToLower(name))
				how := r.Intn(3)
				_, panicked := PanicVal(func() {
					order, isOrder := v.(binary.ByteOrder)
					switch {
					case strings.EqualFold(name, "Endianness") && isOrder && how == 0 && o.ser != nil:
						o.ser.WithEndianness(order)
					case strings.EqualFold(name, "Endianness") && isOrder && how == 0:
						o.des.WithEndianness(order)
					case how == 1 && o.ser != nil:
						ps.WithParameter(o.ser, name, v)
					case how == 1:
						ps.WithParameter(o.des, name, v)
					case o.ser != nil:
						o.ser.WithParameter(name, v)
					default:
						o.des.WithParameter(name, v)
					}
				})
				t.Check(panicked, "invalid", "setting %q to %v (%T) did not panic on %v", name, v, v, &o.f)
				if isParam(&o.f, name) {
					break
				}
				t.Check(!o.d().HasParameter(name), "HasParameter", "HasParameter(%q) on %v", name, &o.f)
				t.MustPanic("GetParameter", func() { o.d().GetParameter(name) }, "GetParameter(%q)", name)
			case op == 10:
				t.work(r, o, fmt.Sprintf("step %d", s))
			default:
				t.look(r, o, fmt.Sprintf("step %d", s))
			}
			hist = hist*31 + uint64(s)
			// someone else must not have been affected
			t.look(r, objs[r.Intn(len(objs))], fmt.Sprintf("after step %d", s))
		}
		for _, g := range given {
			scribble(r, g)
		}
		for _, o := range objs {
			t.EvalH(hist, uint64(o.id), hashStr(o.f.String()))
			t.look(r, o, "end")
			t.work(r, o, "end")
			t.look(r, o, "end, again")
			t.Class("objects")
		}
		t.Sample("%d steps from %s, %d objects, last %v", steps, base.name, len(objs), &objs[len(objs)-1].f)
	})
	for _, p := range append([]string{"endianness", "subgrouponly", "bitheader", "bitheader2"}, sHeaderNames...) {
		c.Need("histories/changed "+strings.ToLower(p), 100)
		c.Need("histories/refused "+strings.ToLower(p), 50)
	}
	for _, p := range []string{"cloned", "as deserializer", "argument overwritten", "error data overwritten", "refused "} {
		c.Need("histories/"+p, 100)
	}
}

func isParam(f *sfmt, name string) bool {
	for _, p := range f.params() {
		if strings.EqualFold(p, name) {
			return true
		}
	}
	return false
}
