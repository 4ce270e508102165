package main

// S03: batches and slices of points.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
)

func init() {
	register("S03", 15, runS03)
}

// ---------------------------------------------------------------------------
// collections of points

// userPoint is a point type of a user of the library
type userPoint struct {
	cp.Point_xtw_full
	tag int
}

type sliceKind struct {
	name string
	kind *ptKind
	user bool
	mk   func(n, extra int) *box // n entries, more behind them in the backing array
	// a maker for a new slice, and how to get at what it returned
	fresh func() (ps.DeserializeSliceMaker, func(interface{}) ([]PT, bool))
}

// box is a collection together with direct pointers to all entries of its
// backing store.
type box struct {
	kind     string
	cps      cp.CurvePointSlice
	at       []PT // including the entries beyond the end
	kinds    []*ptKind
	n        int
	old      []*rp
	repeat   func(i, j int)                       // makes entry j the same place as entry i; nil where there is no such thing
	existing func(n int) ps.DeserializeSliceMaker // UseExistingSlice of the first n entries; may be nil
	variadic func(d ps.CurvePointDeserializer, in io.Reader, tr common.IsInputTrusted) (int, ps.BatchDeserializationError)
}

func mkSliceKind[T any, P interface {
	*T
	cp.CurvePointPtrInterface
}](name string, ki int) sliceKind {
	k := &ptKinds[ki]
	return sliceKind{
		name: name, kind: k, user: name == "user",
		mk: func(n, extra int) *box {
			v := make([]T, n+extra)
			b := &box{kind: name, n: n, cps: cp.AsCurvePointSlice[T, P](v[:n])}
			var ptrs []P
			for i := range v {
				b.at = append(b.at, P(&v[i]))
				b.kinds = append(b.kinds, k)
				if i < n {
					ptrs = append(ptrs, P(&v[i]))
				}
			}
			b.existing = func(n int) ps.DeserializeSliceMaker { return ps.UseExistingSlice[T, P](v[:n]) }
			b.variadic = func(d ps.CurvePointDeserializer, in io.Reader, tr common.IsInputTrusted) (int, ps.BatchDeserializationError) {
				return ps.DeserializeCurvePoints_Variadic(d, in, tr, ptrs...)
			}
			return b
		},
		fresh: func() (ps.DeserializeSliceMaker, func(interface{}) ([]PT, bool)) {
			return ps.CreateNewSlice[T, P], func(out interface{}) (res []PT, ok bool) {
				v, ok := out.([]T)
				for i := range v {
					res = append(res, P(&v[i]))
				}
				return res, ok
			}
		},
	}
}

var sliceKinds = []sliceKind{
	mkSliceKind[cp.Point_xtw_full]("xtw_full", 0),
	mkSliceKind[cp.Point_xtw_subgroup]("xtw_subgroup", 1),
	mkSliceKind[cp.Point_axtw_full]("axtw_full", 2),
	mkSliceKind[cp.Point_axtw_subgroup]("axtw_subgroup", 3),
	mkSliceKind[cp.Point_efgh_full]("efgh_full", 4),
	mkSliceKind[cp.Point_efgh_subgroup]("efgh_subgroup", 5),
	mkSliceKind[userPoint]("user", 0),
}

const nBoxes = 10 // the slice kinds and three kinds of pointer collections

func genBox(r *rand.Rand, which, n, extra int) *box {
	if which < len(sliceKinds) {
		return sliceKinds[which].mk(n, extra)
	}
	b := &box{n: n}
	if which == 9 { // pointers of one type
		b.kind = "pointers"
		var ptrs []*cp.Point_xtw_full
		for i := 0; i < n+extra; i++ {
			ptrs = append(ptrs, new(cp.Point_xtw_full))
			b.at, b.kinds = append(b.at, ptrs[i]), append(b.kinds, &ptKinds[0])
		}
		b.cps = cp.AsCurvePointPtrSlice(ptrs[:n])
		b.variadic = func(d ps.CurvePointDeserializer, in io.Reader, tr common.IsInputTrusted) (int, ps.BatchDeserializationError) {
			return ps.DeserializeCurvePoints_Variadic(d, in, tr, ptrs[:n]...)
		}
		b.repeat = func(i, j int) {
			ptrs[j], b.at[j] = ptrs[i], b.at[i]
			b.cps = cp.AsCurvePointPtrSlice(ptrs[:n])
		}
		return b
	}
	for i := 0; i < n+extra; i++ {
		k := &ptKinds[r.Intn(len(ptKinds))]
		b.at, b.kinds = append(b.at, k.mk()), append(b.kinds, k)
	}
	b.variadic = func(d ps.CurvePointDeserializer, in io.Reader, tr common.IsInputTrusted) (int, ps.BatchDeserializationError) {
		return ps.DeserializeCurvePoints_Variadic(d, in, tr, b.at[:n]...)
	}
	view := func() {
		if which == 7 {
			b.kind, b.cps = "mixed pointers", cp.AsCurvePointPtrSlice(append([]PT(nil), b.at[:n]...))
		} else {
			b.kind, b.cps = "generic", cp.GenericPointSlice(append([]PT(nil), b.at[:n]...))
		}
	}
	view()
	b.repeat = func(i, j int) {
		b.at[j], b.kinds[j] = b.at[i], b.kinds[i]
		view()
	}
	return b
}

// put stores p in entry i.
func (b *box) put(r *rand.Rand, i int, p *rp) {
	b.at[i].SetFrom(ptMake(r, b.kinds[i], p))
	if b.kind != "user" {
		ptShake(r, b.at[i], p)
	}
}

// fill gives the entries some known contents, or leaves them uninitialized.
func (b *box) fill(r *rand.Rand) {
	b.old = make([]*rp, len(b.at))
	for i := range b.at {
		if r.Intn(3) == 0 {
			continue
		}
		p := genSub(r)
		if !b.kinds[i].sub && r.Intn(2) == 0 {
			p = genRP(r)
		}
		if b.kinds[i].holds(p) {
			b.put(r, i, p)
			b.old[i] = p
		}
	}
}

func (b *box) sub(i int) bool { return b.kinds[i].sub }

// ---------------------------------------------------------------------------
// what reading a sequence of points must give

const (
	mSingle = iota
	mBatch
	mSlice
)

var mNames = []string{"single", "batch", "slice"}

type seqWant struct {
	ok     bool
	size   int64 // number of points (announced); -1 if not known
	total  int64 // length of the whole encoding; -1 if not known
	pts    []*rp // points written
	causes []error
	any    bool // any error will do
	why    string
	lo, hi int  // bytes consumed
	trunc  bool // the stream ended
	noIO   bool // the stream did not end
}

// decSeq judges b as an untrusted encoding of L points (single, batch) or of a
// slice to be stored in at most L entries (L < 0: no limit).
func (f *sfmt) decSeq(b []byte, mode, L int, sub func(int) bool, hints []*rp) (d seqWant) {
	pos := 0
	d.size, d.total = int64(L), int64(L)*int64(f.singleLen())
	short := func(what string, causes []error) {
		d.causes, d.trunc, d.why = causes, true, "truncated in "+what
		d.lo, d.hi = len(b), len(b)
		if causes != nil {
			d.lo = pos
		}
	}
	expect := func(s, what string) bool {
		if len(b)-pos < len(s) {
			short(what, nil)
			return false
		}
		if string(b[pos:pos+len(s)]) != s {
			d.causes, d.noIO, d.why = []error{be.ErrDidNotReadExpectedString}, true, what
			d.lo, d.hi = pos+1, pos+len(s)
			return false
		}
		pos += len(s)
		return true
	}
	point := func(i int) *rp {
		pl := f.pointLen()
		if len(b)-pos < pl {
			c, _ := f.visible(b[pos:], nil, "")
			short("point", c)
			return nil
		}
		seg := b[pos : pos+pl]
		var hint *rp
		if i < len(hints) {
			hint = hints[i]
		}
		var q *rp
		if hint != nil && f.fits(hint) && (hint.sub() || !f.sub && !sub(i)) && bytes.Equal(seg, mustPoint(f, hint)) {
			q = hint
		} else {
			p := f.decPoint(seg, sub(i), hint)
			if !p.ok {
				d.causes, d.noIO, d.why = p.causes, true, p.why
				d.lo, d.hi = pos, pos+pl
				return nil
			}
			q = &rp{bi(-1), 0, p.x, p.y}
		}
		pos += pl
		return q
	}
	if mode != mSlice {
		for i := 0; i < L; i++ {
			if !expect(f.h[hSingleH], "header") {
				return
			}
			q := point(i)
			if q == nil || !expect(f.h[hSingleF], "footer") {
				return
			}
			d.pts = append(d.pts, q)
		}
		d.ok, d.lo, d.hi = true, pos, pos
		return
	}
	d.size, d.total = -1, -1
	if !expect(f.h[hGlobalH], "slice header") {
		return
	}
	if len(b)-pos < 4 {
		short("length", nil)
		return
	}
	n := int64(b[pos]) | int64(b[pos+1])<<8 | int64(b[pos+2])<<16 | int64(b[pos+3])<<24
	pos += 4
	if n > math.MaxInt32 {
		d.causes, d.noIO, d.why = []error{be.ErrSizeDoesNotFitInt32}, true, "length above MaxInt32"
		d.lo, d.hi = pos, pos
		return
	}
	d.size, d.total = n, f.sliceLen(n)
	switch {
	case d.total > math.MaxInt32:
		d.any, d.noIO, d.why = true, true, "overflow"
	case L >= 0 && n > int64(L):
		d.causes, d.noIO, d.why = []error{ps.ErrInsufficientBufferForDeserialization}, true, "buffer too small"
	}
	if d.why != "" {
		d.lo, d.hi = pos, pos
		return
	}
	for i := 0; i < int(n); i++ {
		if !expect(f.h[hPerH], "per point header") {
			return
		}
		q := point(i)
		if q == nil {
			return
		}
		d.pts = append(d.pts, q)
		if !expect(f.h[hPerF], "per point footer") {
			return
		}
	}
	if !expect(f.h[hGlobalF], "slice footer") {
		return
	}
	d.ok, d.lo, d.hi = true, pos, pos
	return
}

// ioCause: does err report the failure ierr of a stream that delivered n bytes?
// kind is the index in injErrors (1: io.EOF, 7: wrapped io.EOF).
func ioCause(err error, kind int, ierr error, n int, lax bool) bool {
	isU, isE := errors.Is(err, io.ErrUnexpectedEOF), errors.Is(err, io.EOF)
	switch {
	case kind == 7:
		return isU || errors.Is(err, ierr)
	case kind != 1:
		return errors.Is(err, ierr) && !isE
	case n > 0:
		return isU && !isE
	}
	return isE || lax && isU
}

// seqErr checks the error of a failed read of n bytes.
func (t *T) seqErr(key string, f *sfmt, mode int, w *seqWant, n int, err error, partial, ioflag bool, done, kind int, ierr error) {
	key = mNames[mode] + "/" + key
	good := w.any || isAny(err, w.causes) || w.trunc && ioCause(err, kind, ierr, n, mode == mSlice)
	t.Check(good, key+"/reason", "%s: error %q, want one of %v (stream failure: %v, %v)", w.why, err, w.causes, w.trunc, ierr)
	if !w.trunc && n > 0 {
		t.Check(!errors.Is(err, io.EOF), key+"/eof", "error is io.EOF after %d bytes", n)
	}
	t.Check(done == len(w.pts), key+"/PointsDeserialized", "%s: PointsDeserialized = %d, want %d", w.why, done, len(w.pts))
	wantPartial := n > 0 && (w.total < 0 || int64(n) < w.total)
	if mode == mBatch {
		wantPartial = n%f.singleLen() != 0
	}
	t.Check(partial == wantPartial, key+"/PartialRead", "%s: PartialRead = %v after %d bytes (whole encoding: %d)", w.why, partial, n, w.total)
	if w.noIO {
		t.Check(!ioflag, key+"/IoError", "%s: IoError set although the stream did not fail: %v", w.why, err)
	} else if w.causes == nil && !w.any {
		t.Check(ioflag, key+"/IoError", "%s: IoError not set although the stream failed: %v", w.why, err)
	}
	t.message(key, err)
}

// entries checks the contents of a box after reading.
func (t *T) entries(key string, b *box, w *seqWant) {
	for i := range b.at {
		if i < len(w.pts) {
			t.isPt(key+"/point", b.at[i], w.pts[i], "entry %d of %d (%s)", i, b.n, b.kind)
			if v, ok := b.at[i].(interface{ Validate() bool }); ok && !v.Validate() {
				t.Failf(key+"/valid", "entry %d does not pass Validate", i)
			}
		} else {
			t.unchanged(key+"/untouched", b.at[i], b.old[i], "entry %d, after %d points were read into %d entries (%s)", i, len(w.pts), b.n, b.kind)
		}
	}
}

func genLen(r *rand.Rand) int {
	switch r.Intn(10) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 8 + r.Intn(20)
	case 3:
		if r.Intn(12) == 0 { // beyond what fits into a byte, or near powers of two
			if r.Intn(24) == 0 {
				return []int{511, 512, 513, 600, 1023, 1024, 1025, 1100}[r.Intn(8)]
			}
			return []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 300}[r.Intn(14)]
		}
	}
	return 1 + r.Intn(6)
}

// fitting points for every entry of a box
func genEntries(r *rand.Rand, f *sfmt, b *box, n int) (ps []*rp) {
	for i := 0; i < n; i++ {
		p := genStrictFitting(r, f, f.sub || b.sub(i))
		if p == nil {
			return ps
		}
		ps = append(ps, p)
	}
	return
}

type sliceSerializer interface {
	SerializeSlice(io.Writer, cp.CurvePointSlice) (int, ps.BatchSerializationError)
}

// fakeSlice claims to hold many points.
type fakeSlice struct{ n int }

func (f fakeSlice) Len() int { return f.n }
func (f fakeSlice) GetByIndex(int) PT {
	panic("a point of a slice was accessed although its encoding would be too long")
}

func runS03(c *Ctx) {
	if !needRef(c) {
		return
	}
	sBridgeNote(c)
	c.Rule("A case is a serializer with random parameters, a collection of points (slices of each type, of a user-defined type, and of pointers) and one operation; bytes, points, every entry of the backing array, counts, error and error data are compared with an independent model that parses the same byte string. Distinct by format, collection and bytes.")
	c.Run("write", 12000, func(t *T) {
		r := t.R
		in := genInst(r, sBases[t.Index%len(sBases)])
		f := &in.f
		b := genBox(r, t.Index/7%nBoxes, genLen(r), 0)
		pts := genEntries(r, f, b, b.n)
		if len(pts) < b.n {
			t.Class("no fitting point")
			return
		}
		bad, badErrs := -1, []error(nil)
		if b.n > 0 && r.Intn(3) == 0 { // something that must be refused
			j := r.Intn(b.n)
			if r.Intn(3) == 0 {
				pts[j], bad, badErrs = nil, j, []error{be.ErrCannotSerializeNaP}
			} else if p := genRP(r); b.kinds[j].holds(p) {
				pts[j] = p
				if badErrs, _ = f.refuses(p); badErrs != nil {
					bad = j
				}
			}
		}
		if bad < 0 && b.n > 1 && b.repeat != nil && r.Intn(3) == 0 { // the same point several times
			for k := 1 + r.Intn(3); k > 0; k-- {
				if i, j := r.Intn(b.n), r.Intn(b.n); i != j {
					b.repeat(i, j)
					pts[j] = pts[i]
				}
			}
			for i := range pts { // entries sharing a place hold the same point
				for j := 0; j < i; j++ {
					if b.at[i] == b.at[j] {
						pts[i] = pts[j]
					}
				}
			}
			t.Class("repeated")
		}
		for i, p := range pts {
			if p != nil {
				b.put(r, i, p)
			}
		}
		t.Note("%v (set by%s)", in, in.steps)
		t.Note("%d points as %s: %v", b.n, b.kind, pts)
		t.Sample("%v: %d points as %s", in, b.n, b.kind)
		t.EvalH(hashStr(f.String(), b.kind), uint64(b.n), uint64(bad+1))
		t.Classf("as %s", b.kind)
		if bad >= 0 {
			t.Class("refused")
		} else {
			t.Class("written")
		}
		same := func() {
			for i, p := range pts {
				if p == nil {
					t.Check(b.at[i].IsNaP(), "source", "uninitialized entry %d became a point", i)
				} else {
					t.isPt("source", b.at[i], p, "entry %d after having been written", i)
				}
			}
		}
		// concatenation of encodings; on refusal up to the offending point
		var want []byte
		good := pts
		if bad >= 0 {
			good = pts[:bad]
		}
		badPart := ""
		if bad >= 0 && pts[bad] != nil {
			badPart = string(mustPoint(f, pts[bad]))
		}
		check := func(key string, got []byte, n int, err ps.BatchSerializationError, want []byte, part string) {
			t.Check(n == len(got), key+"/n", "returned %d, wrote %d", n, len(got))
			if bad < 0 {
				if err != nil {
					t.Failf(key+"/error", "%v", err)
				}
				t.Check(bytes.Equal(got, want), key+"/bytes", "wrote %x, want %x", got, want)
				return
			}
			if err == nil {
				t.Failf(key+"/accepts", "no error although entry %d (%v) must be refused", bad, pts[bad])
				return
			}
			t.Check(isAny(err, badErrs), key+"/reason", "error %q, want %v", err, badErrs)
			t.Check(bytes.HasPrefix(got, want) && bytes.HasPrefix([]byte(part), got[len(want):]) && len(got) < len(want)+f.pointLen()+len(f.h[hSingleH])+len(f.h[hPerH]), key+"/bytes", "wrote %x before refusing entry %d, want %x", got, bad, want)
			d := err.GetData_struct()
			t.Check(d.PointsSerialized == bad, key+"/PointsSerialized", "PointsSerialized = %d, refused entry %d", d.PointsSerialized, bad)
			t.Check(!d.IoError, key+"/IoError", "IoError set although the stream did not fail")
			if key == "batch" {
				t.Check(d.PartialWrite == (n%f.singleLen() != 0), key+"/PartialWrite", "PartialWrite = %v after %d bytes", d.PartialWrite, n)
			} else {
				t.Check(d.PartialWrite, key+"/PartialWrite", "PartialWrite not set")
			}
			t.message(key, err)
		}
		for _, p := range good {
			want = append(want, f.single(p)...)
		}
		w1 := genSink(r)
		t.Classf("to %s", w1.name)
		n, err := in.ser.SerializeCurvePoints(w1.Writer, b.cps)
		check("batch", w1.Bytes(), n, err, want, f.h[hSingleH]+badPart)
		same()

		sl := f.slice(good)
		if bad >= 0 {
			sl = []byte(f.h[hGlobalH] + string(le32(uint32(b.n))))
			for _, p := range good {
				sl = append(sl, f.h[hPerH]+string(mustPoint(f, p))+f.h[hPerF]...)
			}
		}
		w2 := genSink(r)
		n, err = in.ser.(sliceSerializer).SerializeSlice(w2.Writer, b.cps)
		check("slice", w2.Bytes(), n, err, sl, f.h[hPerH]+badPart)
		same()
		for _, d := range append([]namedDes{{"ser", in.ser}}, in.des...) {
			l, err := d.d.SliceOutputLength(int32(b.n))
			t.Check(err == nil && int64(l) == f.sliceLen(int64(b.n)), "SliceOutputLength", "%s.SliceOutputLength(%d) = %d, %v; want %d", d.name, b.n, l, err, f.sliceLen(int64(b.n)))
		}
	})

	// reading, from valid and hostile streams
	c.Run("read", 20000, func(t *T) {
		r := t.R
		in := genInst(r, sBases[t.Index%len(sBases)])
		f := &in.f
		mode := mBatch + r.Intn(2)
		n := genLen(r)
		size := n // entries available
		switch r.Intn(4) {
		case 0:
			size += 1 + r.Intn(4)
		case 1:
			if n > 0 && r.Intn(2) == 0 {
				size = r.Intn(n)
			}
		}
		extra := r.Intn(5)
		which := t.Index / 7 % nBoxes
		b := genBox(r, which, size, extra)
		var hints []*rp
		for i := 0; i < n; i++ {
			sub := f.sub || i < len(b.kinds) && b.sub(i)
			if r.Intn(12) == 0 {
				sub = false
			}
			p := genStrictFitting(r, f, sub)
			if p == nil {
				t.Class("no fitting point")
				return
			}
			hints = append(hints, p)
		}
		b.fill(r)
		var data []byte
		if mode == mSlice {
			data = f.slice(hints)
		} else {
			for _, p := range hints {
				data = append(data, f.single(p)...)
			}
		}
		how := "valid"
		if r.Intn(2) == 0 {
			data, how = sMutateSeq(r, f, mode, n, data)
		}
		tail := r.Intn(3) * r.Intn(30)
		rest := make([]byte, tail)
		r.Read(rest)
		if how == "truncated" {
			rest = nil
		}
		data = append(data, rest...)
		d := in.des[r.Intn(3)]
		rd := genStream(r, data)
		t.Classf("from %s", rd.name)
		t.Note("%v (set by%s), through %s", in, in.steps, d.name)
		t.Note("%s %s of %v: %x into %d entries (%s)", how, mNames[mode], hints, data, size, b.kind)
		t.Sample("%v: %s %s of %d points into %d entries (%s)", in, how, mNames[mode], n, size, b.kind)
		t.EvalH(hashStr(f.String(), b.kind, string(data)), uint64(mode), uint64(size))
		t.Classf("%s/%s", mNames[mode], how)
		trust := common.UntrustedInput

		if mode == mBatch {
			w := f.decSeq(data, mode, size, b.sub, hints)
			if w.ok && r.Intn(2) == 0 {
				trust = common.TrustedInput
			}
			var n, pts int
			var err ps.BatchDeserializationError
			how := r.Intn(3)
			switch {
			case how == 0 && b.variadic != nil:
				t.Class("variadic")
				n, err = b.variadic(d.d, rd.Reader, trust)
			case how == 1:
				t.Class("bounded")
				n, pts, err = ps.DeserializeCurvePoints_Bounded(d.d, rd.Reader, trust, b.cps)
				t.Check(pts == len(w.pts), "bounded/count", "reported %d points, wrote %d", pts, len(w.pts))
				if w.trunc && w.causes == nil && len(data)%f.singleLen() == 0 { // the stream ended between two points
					t.Class("bounded short")
					if err != nil {
						t.Failf("bounded/error", "error %v although the stream ended after %d complete points", err, len(w.pts))
					}
					t.Check(n == len(data) && rd.used() == n, "bounded/n", "returned %d, consumed %d of %d", n, rd.used(), len(data))
					t.entries("bounded", b, &w)
					return
				}
			default:
				n, err = d.d.DeserializeCurvePoints(rd.Reader, trust, b.cps)
			}
			t.Check(n == rd.used() && n >= w.lo && n <= w.hi, "batch/n", "returned %d, consumed %d, want %d..%d (%s)", n, rd.used(), w.lo, w.hi, w.why)
			if w.ok {
				t.Class("batch ok")
				if err != nil {
					t.Failf("batch/rejects", "%v", err)
				}
			} else {
				t.Classf("batch rejected: %s", w.why)
				if err == nil {
					t.Failf("batch/accepts", "accepted an invalid batch (%s)", w.why)
					return
				}
				data := err.GetData_struct()
				t.seqErr("read", f, mode, &w, n, err, data.PartialRead, data.IoError, data.PointsDeserialized, 1, io.EOF)
				t.stays("batch", rd, err)
			}
			t.entries("batch", b, &w)
			return
		}

		// slices
		limit := size
		var maker ps.DeserializeSliceMaker
		var get func(interface{}) ([]PT, bool)
		custom := false
		subAt := func(i int) bool { return b.sub(i) }
		style := r.Intn(3)
		switch {
		case style == 0 && which < len(sliceKinds) && how != "hostile length":
			limit = -1
			subAt = func(int) bool { return sliceKinds[which].kind.sub }
			maker, get = sliceKinds[which].fresh()
			t.Class("new slice")
		case style == 1 && b.existing != nil:
			maker = b.existing(size)
			t.Class("existing slice")
			// the same maker may have been used before: every call stands for itself
			for i := r.Intn(4); i > 0; i-- {
				l := r.Intn(size+3) - 1
				o, sl, err := maker(int32(l))
				if l > size {
					t.Check(isAny(err, []error{ps.ErrInsufficientBufferForDeserialization}), "existing/reused", "maker for %d entries called with %d: %v", size, l, err)
					continue
				}
				if t.Check(err == nil, "existing/reused", "maker for %d entries, called with %d: %v", size, l, err) {
					want := l
					if l == -1 {
						want = 0
					}
					t.Check(o == want && (l == -1 || sl.Len() == l), "existing/reused", "maker for %d entries called with %d gives %v", size, l, o)
				}
				t.Class("existing slice used again")
			}
		default:
			custom = true
			t.Class("own maker")
		}
		w := f.decSeq(data, mode, limit, subAt, hints)
		if w.ok && r.Intn(2) == 0 {
			trust = common.TrustedInput
		}
		errMaker := errors.New("refused by the maker of the slice")
		var asked []int32
		if custom {
			maker = func(l int32) (interface{}, cp.CurvePointSlice, error) {
				asked = append(asked, l)
				if l < 0 {
					return "none", nil, nil
				}
				if int(l) > size {
					return "small", nil, errMaker
				}
				return fmt.Sprint("got ", l), cp.GenericPointSlice(b.at[:l]), nil
			}
			if w.why == "buffer too small" {
				w.causes = []error{errMaker}
			}
		}
		out, k, err := d.d.DeserializeSlice(rd.Reader, trust, maker)
		t.Check(k == rd.used() && k >= w.lo && k <= w.hi, "slice/n", "returned %d, consumed %d, want %d..%d (%s)", k, rd.used(), w.lo, w.hi, w.why)
		if custom {
			wantAsk, wantOut := int32(w.size), interface{}(fmt.Sprint("got ", w.size))
			if w.size < 0 || w.why == "overflow" {
				wantAsk, wantOut = -1, "none"
			} else if w.size > int64(size) {
				wantOut = "small"
			}
			t.Check(len(asked) == 1 && asked[0] == wantAsk, "slice/maker", "maker was called with %v, want once with %d (%s)", asked, wantAsk, w.why)
			t.Check(out == wantOut, "slice/output", "output is %v, want %v", out, wantOut)
		}
		if w.ok {
			t.Class("slice ok")
			if err != nil {
				t.Failf("slice/rejects", "%v", err)
			}
		} else {
			t.Classf("slice rejected: %s", w.why)
			if err == nil {
				t.Failf("slice/accepts", "accepted an invalid slice (%s)", w.why)
				return
			}
			e := err.GetData_struct()
			t.seqErr("read", f, mode, &w, k, err, e.PartialRead, e.IoError, e.PointsDeserialized, 1, io.EOF)
			t.stays("slice", rd, err)
			if w.why == "buffer too small" && !custom {
				m := err.GetData_map()
				t.Check(m["BufferSize"] == size && m["ReadSliceLen"] == int(w.size) && m["BufferCapacity"] == size+extra, "slice/sizes", "error data on sizes are %v, %v, %v", m["BufferSize"], m["ReadSliceLen"], m["BufferCapacity"])
			}
		}
		switch {
		case get != nil:
			res, ok := get(out)
			t.Check(ok, "slice/type", "output has type %T", out)
			if w.ok && ok {
				t.Check(int64(len(res)) == w.size, "slice/len", "new slice has %d entries, want %d", len(res), w.size)
				for i := 0; i < len(res) && i < len(w.pts); i++ {
					t.isPt("slice/point", res[i], w.pts[i], "entry %d of new slice", i)
				}
				if n := len(res); n > 0 {
					a, b := res[0], res[n-1]
					t.Keep("slice of points", func() string { return fmt.Sprint(ptCoords(a), ptCoords(b)) })
				}
			}
			w.pts = nil // the box was not involved
		case !custom:
			m, ok := out.(int)
			t.Check(ok && (!w.ok || int64(m) == w.size), "slice/output", "output is %v (%T), want %d", out, out, w.size)
		}
		t.entries("slice", b, &w)
	})

	c.RunN("limits", 300, func(t *T) {
		r := t.R
		in := genInst(r, nil)
		f := &in.f
		t.Note("%v (set by%s)", in, in.steps)
		max := int64(math.MaxInt32)
		t.Eval(f.String())
		// SliceOutputLength around its limit
		edge := (max - f.sliceLen(0)) / int64(f.perLen())
		ns := []int64{0, 1, 2, edge - 1, edge, edge + 1, max, max - 1, max / 2, max / int64(f.perLen()), max/int64(f.perLen()) + 1, max / 32, max/32 + 1, max / 64}
		if o := int64(len(f.h[hPerH]) + len(f.h[hPerF])); o > 0 {
			ns = append(ns, (max-f.sliceLen(0))/o, (max-f.sliceLen(0))/o+1, max/o, max/o+1)
		}
		for i := 0; i < 6; i++ {
			ns = append(ns, r.Int63n(max+1))
		}
		for _, n := range ns {
			if n < 0 || n > max {
				continue
			}
			for _, d := range in.des {
				l, err := d.d.SliceOutputLength(int32(n))
				want := f.sliceLen(n)
				t.EvalH(hashStr(f.String(), "limit"), uint64(n))
				if want <= max {
					t.Class("length fits")
					t.Check(err == nil && int64(l) == want, "SliceOutputLength", "%s.SliceOutputLength(%d) = %d, %v; want %d", d.name, n, l, err, want)
				} else {
					t.Class("length overflows")
					if err == nil {
						t.Failf("SliceOutputLength/overflow", "%s.SliceOutputLength(%d) = %d, true length is %d", d.name, n, l, want)
						continue
					}
					t.Check(l == -1, "SliceOutputLength/overflow", "%s.SliceOutputLength(%d) = %d with error", d.name, n, l)
					t.message("SliceOutputLength", err)
				}
			}
			// the same length announced by a stream
			if want := f.sliceLen(n); want > max || n > 100 {
				var asked []int32
				rd := bytes.NewReader(append([]byte(f.h[hGlobalH]+string(le32(uint32(n)))), make([]byte, 200)...))
				stop := errors.New("stop")
				_, k, err := in.des[r.Intn(3)].d.DeserializeSlice(rd, trusts[r.Intn(2)], func(l int32) (interface{}, cp.CurvePointSlice, error) {
					asked = append(asked, l)
					return nil, nil, stop
				})
				if err == nil {
					t.Failf("announced", "slice of length %d read without error", n)
					continue
				}
				t.Check(k == len(f.h[hGlobalH])+4, "announced/n", "%d bytes read", k)
				if want > max {
					t.Check(len(asked) == 1 && asked[0] == -1 && !errors.Is(err, stop), "announced/overflow", "maker called with %v for announced length %d, error %v", asked, n, err)
				} else {
					t.Check(len(asked) == 1 && int64(asked[0]) == n && errors.Is(err, stop), "announced/asked", "maker called with %v for announced length %d, error %v", asked, n, err)
				}
				e := err.GetData_struct()
				t.Check(e.PartialRead && e.PointsDeserialized == 0 && !e.IoError, "announced/data", "error data %+v", e)
				t.message("announced", err)
			}
		}
		for _, d := range in.des {
			t.MustPanic("SliceOutputLength/negative", func() { d.d.SliceOutputLength(int32(-1 - r.Intn(1000))) }, "%s.SliceOutputLength of a negative number", d.name)
		}
		// collections too large to be written or read
		for _, n := range []int64{max/int64(f.singleLen()) + 1, max, max + 1, 1 << 40, max/int64(f.singleLen()) + 1 + r.Int63n(1<<20)} {
			var w bytes.Buffer
			fake := fakeSlice{int(n)}
			t.EvalH(hashStr(f.String(), "limit"), uint64(n))
			t.Class("too many points")
			v, p := PanicVal(func() { in.ser.SerializeCurvePoints(&w, fake) })
			t.Check(p && w.Len() == 0, "huge batch", "SerializeCurvePoints of %d points: panicked %v (%v), wrote %d bytes", n, p, v, w.Len())
			rd := &faultReader{data: make([]byte, 100), failAt: -1}
			d := in.des[r.Intn(3)]
			v, p = PanicVal(func() { d.d.DeserializeCurvePoints(rd, common.TrustedInput, fake) })
			t.Check(p && rd.pos == 0, "huge batch", "%s.DeserializeCurvePoints of %d points: panicked %v (%v), read %d bytes", d.name, n, p, v, rd.pos)
		}
		for _, n := range []int64{edge + 1, max, edge + 1 + r.Int63n(1<<20)} {
			if n > max {
				continue
			}
			var w bytes.Buffer
			k, err := in.ser.(sliceSerializer).SerializeSlice(&w, fakeSlice{int(n)})
			if err == nil {
				t.Failf("huge slice", "SerializeSlice of %d points: no error", n)
				continue
			}
			t.Class("too long slice")
			t.Check(errors.Is(err, be.ErrSizeDoesNotFitInt32), "huge slice/reason", "%v", err)
			e := err.GetData_struct()
			t.Check(k == 0 && w.Len() == 0 && !e.PartialWrite && e.PointsSerialized == 0, "huge slice", "returned %d, wrote %d bytes, data %+v", k, w.Len(), e)
			t.message("huge slice", err)
		}
	})
	for _, k := range []string{"batch/valid", "slice/valid", "slice/hostile length", "batch/truncated", "slice/truncated", "variadic", "bounded", "bounded short", "new slice", "existing slice", "own maker", "batch ok", "slice ok",
		"slice rejected: overflow", "slice rejected: length above MaxInt32", "slice rejected: buffer too small", "slice rejected: per point header", "slice rejected: per point footer", "slice rejected: slice footer", "slice rejected: slice header",
		"slice rejected: not in subgroup", "batch rejected: not in subgroup", "batch rejected: header", "batch rejected: footer"} {
		c.Need("read/"+k, 20)
	}
	c.Need("write/refused", 100)
	c.Need("write/written", 500)
	c.Need("write/repeated", 50)
	for _, k := range []string{"as xtw_full", "as user", "as generic", "as pointers", "as mixed pointers", "as axtw_subgroup"} {
		c.Need("write/"+k, 50)
	}
	c.Need("limits/length overflows", 500)
	c.Need("limits/too long slice", 100)
}

// sMutateSeq corrupts the encoding of a batch or slice.
func sMutateSeq(r *rand.Rand, f *sfmt, mode, n int, b []byte) ([]byte, string) {
	out := append([]byte(nil), b...)
	start, step, h := 0, f.singleLen(), len(f.h[hSingleH])
	if mode == mSlice {
		start, step, h = len(f.h[hGlobalH])+4, f.perLen(), len(f.h[hPerH])
	}
	xor := func(lo, hi int) bool {
		if hi <= lo {
			return false
		}
		out[lo+r.Intn(hi-lo)] ^= byte(1 + r.Intn(255))
		return true
	}
	i := 0
	if n > 0 {
		i = r.Intn(n)
	}
	at := start + i*step
	switch k := r.Intn(12); {
	case k < 2 && len(out) > 0:
		cut := r.Intn(len(out))
		if r.Intn(3) == 0 { // at a border
			cut = at
		}
		return out[:cut], "truncated"
	case k < 5 && mode == mSlice:
		v := uint64(0)
		switch r.Intn(8) {
		case 0:
			v = uint64(r.Uint32())
		case 1:
			v = uint64(math.MaxInt32) + uint64(r.Intn(3))
		case 2:
			v = math.MaxUint32 - uint64(r.Intn(3))
		case 3:
			v = (math.MaxInt32-uint64(f.sliceLen(0)))/uint64(f.perLen()) + uint64(r.Intn(3)) - 1
		case 4:
			v = math.MaxInt32 / uint64(f.perLen())
		case 5:
			v = uint64(n) << uint(8*(1+r.Intn(3))) // as if the byte order were different
		default:
			v = uint64(n + r.Intn(5) - 2)
			if int64(v) < 0 {
				v = 0
			}
			// a different but harmless length
			copy(out[start-4:], le32(uint32(v)))
			return out, "other length"
		}
		copy(out[start-4:], le32(uint32(v)))
		return out, "hostile length"
	case k < 6 && mode == mSlice && xor(0, start-4):
		return out, "slice header"
	case k < 7 && mode == mSlice && xor(len(out)-len(f.h[hGlobalF]), len(out)):
		return out, "slice footer"
	case k < 8 && n > 0 && xor(at, at+h):
		return out, "point header"
	case k < 9 && n > 0 && xor(at+h+f.pointLen(), at+step):
		return out, "point footer"
	case n > 0:
		g := *f
		g.h[hSingleH], g.h[hSingleF] = "", ""
		m, _ := sMutate(r, &g, out[at+h:at+h+f.pointLen()])
		if len(m) == f.pointLen() {
			copy(out[at+h:], m)
		}
		return out, "point"
	}
	return out, "valid"
}

var _ = big.NewInt
