package main

// Model of the point serialization formats: parameters, encoding, decoding.

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"strings"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
)

const (
	sXY   = iota // x || y
	sXSY         // x with sign of y
	sYSX         // y with sign of x
	sXtS         // x * sgn(y)
	sYXtS        // y * sgn(y) || x * sgn(y)
)

var sKindNames = []string{"XY", "XSY", "YSX", "XtS", "YXtS"}

// headers
const (
	hSingleH = iota
	hSingleF
	hGlobalH
	hGlobalF
	hPerH
	hPerF
)

var sHeaderNames = []string{"SinglePointHeader", "SinglePointFooter", "GlobalSliceHeader", "GlobalSliceFooter", "PerPointHeader", "PerPointFooter"}

type sfmt struct {
	kind int
	be   bool
	pre  [2]uint
	l    [2]int
	sub  bool
	h    [6]string
}

func (f sfmt) String() string {
	e := "LE"
	if f.be {
		e = "BE"
	}
	s := fmt.Sprintf("%s %s sub=%v", sKindNames[f.kind], e, f.sub)
	for i := 0; i < f.nHeaders(); i++ {
		s += fmt.Sprintf(" bits%d=%b/%d", i+1, f.pre[i], f.l[i])
	}
	for i, h := range f.h {
		if h != "" {
			s += fmt.Sprintf(" %s=%x", sHeaderNames[i], h)
		}
	}
	return s
}

// number of settable bit headers
func (f *sfmt) nHeaders() int { return []int{2, 0, 0, 1, 2}[f.kind] }
func (f *sfmt) nFE() int      { return []int{2, 1, 1, 1, 2}[f.kind] }
func (f *sfmt) pointLen() int { return 32 * f.nFE() }
func (f *sfmt) singleLen() int {
	return f.pointLen() + len(f.h[hSingleH]) + len(f.h[hSingleF])
}
func (f *sfmt) perLen() int { return f.pointLen() + len(f.h[hPerH]) + len(f.h[hPerF]) }
func (f *sfmt) sliceLen(n int64) int64 {
	return n*int64(f.perLen()) + 4 + int64(len(f.h[hGlobalH])+len(f.h[hGlobalF]))
}
func (f *sfmt) params() []string {
	res := []string{"Endianness", "SubgroupOnly"}
	if f.nHeaders() > 0 {
		res = append(res, "BitHeader")
	}
	if f.nHeaders() > 1 {
		res = append(res, "BitHeader2")
	}
	return append(res, sHeaderNames...)
}

type sVal struct {
	v   *big.Int
	pre uint
	l   int
}

func bitIf(b bool) uint {
	if b {
		return 1
	}
	return 0
}

// values a (finite) point is split into
func (f *sfmt) values(p *rp) []sVal {
	x, y := p.x, p.y
	xs, ys := x, y
	if signP(y) < 0 {
		xs, ys = negP(x), negP(y)
	}
	switch f.kind {
	case sXY:
		return []sVal{{x, f.pre[0], f.l[0]}, {y, f.pre[1], f.l[1]}}
	case sXSY:
		return []sVal{{x, bitIf(signP(y) < 0), 1}}
	case sYSX:
		return []sVal{{y, bitIf(signP(x) < 0), 1}}
	case sXtS:
		return []sVal{{xs, f.pre[0], f.l[0]}}
	}
	return []sVal{{ys, f.pre[0], f.l[0]}, {xs, f.pre[1], f.l[1]}}
}

// point encodes the coordinates; fits is false if a value is too large for its
// prefix (then b holds what precedes it).
func (f *sfmt) point(p *rp) (b []byte, fits bool) {
	for _, v := range f.values(p) {
		if v.v.BitLen() > 256-v.l {
			return b, false
		}
		b = append(b, enc32(withPrefix(v.v, v.pre, v.l), f.be)...)
	}
	return b, true
}

func (f *sfmt) fits(p *rp) bool {
	if p.inf() {
		return false
	}
	_, ok := f.point(p)
	return ok
}

// single is the documented encoding of one point.
func (f *sfmt) single(p *rp) []byte {
	b, ok := f.point(p)
	if !ok {
		panic("harness: point does not fit")
	}
	return []byte(f.h[hSingleH] + string(b) + f.h[hSingleF])
}

func (f *sfmt) slice(ps []*rp) []byte {
	s := f.h[hGlobalH] + string(le32(uint32(len(ps))))
	for _, p := range ps {
		b, ok := f.point(p)
		if !ok {
			panic("harness: point does not fit")
		}
		s += f.h[hPerH] + string(b) + f.h[hPerF]
	}
	return []byte(s + f.h[hGlobalF])
}

func le32(n uint32) []byte {
	b := make([]byte, 4)
	binary.LittleEndian.PutUint32(b, n)
	return b
}

// can the format carry p? nil: yes; else the acceptable errors. n is the number
// of bytes of the point itself written before the error.
func (f *sfmt) refuses(p *rp) (errs []error, n int) {
	if p.inf() {
		errs = append(errs, be.ErrCannotSerializePointAtInfinity)
	}
	if f.sub && !p.sub() {
		errs = append(errs, be.ErrWillNotSerializePointOutsideSubgroup)
	}
	if errs == nil {
		if b, ok := f.point(p); !ok {
			return []error{fe.ErrPrefixDoesNotFit}, len(b)
		}
	}
	return
}

// sDecoded is the reference's opinion on a byte string.
type sDecoded struct {
	ok     bool
	x, y   *big.Int
	causes []error // acceptable reasons of rejection
	why    string
	n      int // number of bytes that must have been consumed (rejections of truncated strings); -1: any
}

// decPoint interprets the values of a point. hint may name a reference point
// with the same coordinates up to sign.
func (f *sfmt) decPoint(b []byte, sub bool, hint *rp) (d sDecoded) {
	sub = sub || f.sub
	var v [2]*big.Int
	var bit uint
	for i := 0; i < f.nFE(); i++ {
		m := dec32(b[32*i:32*i+32], f.be)
		l, pre, free := f.l[i], f.pre[i], false
		if f.nHeaders() == 0 {
			l, free = 1, true
		}
		top := uint(new(big.Int).Rsh(m, uint(256-l)).Uint64())
		v[i] = bmod(m, new(big.Int).Lsh(bOne, uint(256-l)))
		if free {
			bit = top
		} else if top != pre {
			d.causes, d.why = append(d.causes, fe.ErrPrefixMismatch), "prefix"
		}
		if v[i].Cmp(bP) >= 0 {
			d.causes, d.why = append(d.causes, fe.ErrNonNormalizedDeserialization), "non-canonical"
		}
		if d.causes != nil {
			return
		}
	}
	bad := func(why string, e ...error) {
		d.causes = append(d.causes, e...)
		if d.why == "" {
			d.why = why
		}
	}
	x, y := v[0], v[1]
	switch f.kind {
	case sXY:
		switch {
		case x.Sign() == 0 && y.Sign() == 0:
			bad("zero", be.ErrCannotDeserializeXYAllZero)
		case !onCurve(x, y):
			bad("not on curve", be.ErrNotOnCurve)
		case sub && cosetOf(hint, x, y) != torN:
			bad("not in subgroup", be.ErrNotInSubgroup)
		}
	case sXSY:
		y = yOf(x)
		if y == nil {
			bad("not on curve", be.ErrXNotOnCurve)
			break
		}
		y = withSign(y, 1-2*int(bit))
		if sub {
			if cs := cosetOf(hint, x, y); cs != torN {
				bad("not in subgroup", be.ErrNotInSubgroup)
				if cs >= torE1 {
					bad("", be.ErrXNotInSubgroup)
				}
			}
		}
	case sYSX:
		y = v[0]
		x = xOf(y)
		if x == nil {
			bad("not on curve", be.ErrYNotOnCurve)
			break
		}
		if x.Sign() != 0 {
			x = withSign(x, 1-2*int(bit))
		} else if bit == 1 {
			bad("negative zero", be.ErrUnexpectedNegativeZero)
		}
		if sub && cosetOf(hint, x, y) != torN {
			bad("not in subgroup", be.ErrNotInSubgroup)
		}
	case sXtS:
		y = yOf(x)
		if y == nil {
			bad("not on curve", be.ErrXNotOnCurve)
			break
		}
		y = withSign(y, 1)
		switch cosetOf(hint, x, y) {
		case torN:
		case torA:
			x, y = negP(x), negP(y)
		default:
			bad("not in subgroup", be.ErrXNotInSubgroup)
		}
	case sYXtS:
		y, x = v[0], v[1]
		if signP(y) <= 0 {
			bad("sign", be.ErrWrongSignY)
		}
		if !onCurve(x, y) {
			bad("not on curve", be.ErrNotOnCurve)
			break
		}
		switch cosetOf(hint, x, y) {
		case torN:
		case torA:
			x, y = negP(x), negP(y)
		default:
			bad("not in subgroup", be.ErrNotInSubgroup)
		}
	}
	d.x, d.y, d.ok = x, y, d.causes == nil
	return
}

// visible collects reasons to reject a truncated point that can be seen before
// the end of the string.
func (f *sfmt) visible(b []byte, causes []error, why string) ([]error, string) {
	for i := 0; i < f.nFE() && len(b) > 32*i && f.nHeaders() > 0; i++ {
		v := append([]byte(nil), b[32*i:]...)
		full := len(v) >= 32
		for len(v) < 32 {
			v = append(v, 0)
		}
		m := dec32(v[:32], f.be)
		top := uint(new(big.Int).Rsh(m, uint(256-f.l[i])).Uint64())
		if top != f.pre[i] && (full || f.be) {
			causes, why = append(causes, fe.ErrPrefixMismatch), "truncated, prefix"
		}
		if full && bmod(m, new(big.Int).Lsh(bOne, uint(256-f.l[i]))).Cmp(bP) >= 0 {
			causes, why = append(causes, fe.ErrNonNormalizedDeserialization), "truncated, non-canonical"
		}
	}
	return causes, why
}

// decSingle judges a byte string as an untrusted encoding of one point.
func (f *sfmt) decSingle(b []byte, sub bool, hint *rp) (d sDecoded) {
	hl, L := len(f.h[hSingleH]), f.singleLen()
	d.n = -1
	if len(b) >= hl && string(b[:hl]) != f.h[hSingleH] {
		d.causes, d.why = append(d.causes, be.ErrDidNotReadExpectedString), "header"
	}
	if len(b) >= L && string(b[L-len(f.h[hSingleF]):L]) != f.h[hSingleF] {
		d.causes, d.why = append(d.causes, be.ErrDidNotReadExpectedString), "footer"
	}
	if len(b) >= hl+f.pointLen() {
		p := f.decPoint(b[hl:hl+f.pointLen()], sub, hint)
		if !p.ok {
			d.why = p.why
		}
		d.causes = append(d.causes, p.causes...)
		d.x, d.y = p.x, p.y
	} else if len(b) > hl {
		d.causes, d.why = f.visible(b[hl:], d.causes, d.why)
	}
	if len(b) < L {
		if len(d.causes) == 0 {
			d.n = len(b)
		}
		e := io.ErrUnexpectedEOF
		if len(b) == 0 {
			e = io.EOF
		}
		d.causes = append(d.causes, e)
		if d.why == "" {
			d.why = "truncated"
		}
	}
	d.ok = len(d.causes) == 0
	if d.ok {
		d.n = L
	}
	return
}

// ---------------------------------------------------------------------------

type sBase struct {
	name  string
	model sfmt
	ser   ps.CurvePointSerializerModifyable
	des   ps.CurvePointDeserializerModifyable // built as a deserializer from the start; may be nil
}

var sBases = []*sBase{
	{name: "BanderwagonShort", model: sfmt{kind: sXtS, pre: [2]uint{1, 0}, l: [2]int{1, 0}, sub: true}, ser: ps.BanderwagonShort},
	{name: "BanderwagonLong", model: sfmt{kind: sYXtS, pre: [2]uint{0, 1}, l: [2]int{2, 1}, sub: true}, ser: ps.BanderwagonLong},
}

type namedDes struct {
	name string
	d    ps.CurvePointDeserializer
}

// sInst is a serializer together with everything deserializing its format.
type sInst struct {
	f     sfmt
	base  *sBase
	ser   ps.CurvePointSerializerModifyable
	des   []namedDes
	steps string
}

// sSetting is one parameter change with its effect on the model.
type sSetting struct {
	param  string
	value  interface{}
	apply  func(*sfmt)
	endian binary.ByteOrder // if set through WithEndianness
}

func randCase(r *rand.Rand, s string) string {
	switch r.Intn(4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if b[i] >= 'A' && r.Intn(2) == 0 {
				b[i] ^= 0x20
			}
		}
		return string(b)
	}
	return s
}

func genBytes(r *rand.Rand) []byte {
	n := 0
	switch r.Intn(8) {
	case 0, 1:
	case 2:
		n = 1
	case 3:
		n = 30 + r.Intn(60)
		switch r.Intn(24) { // cross the borders of buffers and of small integer types
		case 0:
			n = 250 + r.Intn(12)
		case 1:
			n = []int{511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 5000}[r.Intn(10)]
		}
	default:
		n = 1 + r.Intn(6)
	}
	b := make([]byte, n)
	r.Read(b)
	if r.Intn(4) == 0 {
		for i := range b {
			b[i] = []byte{0, 0xff, '%', '{', 'w'}[r.Intn(5)]
		}
	}
	return b
}

// genSetting draws a change of a given parameter ("" for any).
func genSetting(r *rand.Rand, f *sfmt, param string) (s sSetting) {
	if param == "" {
		ps := f.params()
		param = ps[r.Intn(len(ps))]
	}
	s.param = randCase(r, param)
	switch param {
	case "Endianness":
		be := r.Intn(2) == 0
		var o binary.ByteOrder = binary.LittleEndian
		if be {
			o = binary.BigEndian
		}
		if r.Intn(2) == 0 {
			o = common.FieldElementEndianness(fe.LittleEndian)
			if be {
				o = fe.BigEndian
			}
		}
		s.value = o
		if r.Intn(2) == 0 {
			s.endian = o
		}
		s.apply = func(f *sfmt) { f.be = be }
	case "SubgroupOnly":
		v := r.Intn(2) == 0 || f.kind >= sXtS
		s.value = v
		s.apply = func(f *sfmt) { f.sub = v }
	case "BitHeader", "BitHeader2":
		i := 0
		if param == "BitHeader2" {
			i = 1
		}
		l := []int{0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8}[r.Intn(12)]
		if r.Intn(3) > 0 {
			l = r.Intn(2)
		}
		pre := uint(r.Intn(1 << uint(l)))
		s.value = common.MakeBitHeader(common.PrefixBits(pre), uint8(l))
		s.apply = func(f *sfmt) { f.pre[i], f.l[i] = pre, l }
	default:
		for i, n := range sHeaderNames {
			if n == param {
				i := i
				b := genBytes(r)
				str := string(b)
				s.value = b
				switch {
				case r.Intn(3) == 0:
					s.value = str
				case len(b) == 0 && r.Intn(2) == 0:
					s.value = []byte(nil)
				}
				s.apply = func(f *sfmt) { f.h[i] = str }
				return
			}
		}
		panic("harness: unknown parameter " + param)
	}
	return
}

// derive applies a setting to a serializer, through one of the equivalent ways.
func (s *sSetting) derive(r *rand.Rand, ser ps.CurvePointSerializerModifyable) ps.CurvePointSerializerModifyable {
	switch {
	case s.endian != nil:
		return ser.WithEndianness(s.endian)
	case r.Intn(3) == 0:
		return ps.WithParameter(ser, s.param, s.value)
	}
	return ser.WithParameter(s.param, s.value)
}
func (s *sSetting) deriveD(r *rand.Rand, d ps.CurvePointDeserializerModifyable) ps.CurvePointDeserializerModifyable {
	switch {
	case s.endian != nil:
		return d.WithEndianness(s.endian)
	case r.Intn(3) == 0:
		return ps.WithParameter(d, s.param, s.value)
	}
	return d.WithParameter(s.param, s.value)
}

// genInst draws a serializer with random settings. Settings enter the serializer
// and two deserializers, one of which is built by settings made on deserializers.
func genInst(r *rand.Rand, base *sBase) *sInst {
	if base == nil {
		base = sBases[r.Intn(len(sBases))]
	}
	in := &sInst{f: base.model, base: base, ser: base.ser}
	d := base.des
	if d == nil || r.Intn(2) == 0 {
		d = base.ser.AsDeserializer()
	}
	for n := []int{0, 1, 2, 4, 8, 12}[r.Intn(6)]; n > 0; n-- {
		s := genSetting(r, &in.f, "")
		in.ser = s.derive(r, in.ser)
		d = s.deriveD(r, d)
		s.apply(&in.f)
		in.steps += fmt.Sprintf(" %s=%v", s.param, s.value)
		if b, ok := s.value.([]byte); ok { // what happens to the slice later must not matter
			r.Read(b)
		}
		if r.Intn(6) == 0 {
			in.ser, d = in.ser.Clone(), d.Clone()
		}
	}
	in.des = []namedDes{{"ser", in.ser}, {"ser.AsDeserializer", in.ser.AsDeserializer()}, {"des", d}}
	return in
}

func (in *sInst) String() string { return in.base.name + ": " + in.f.String() }

// ---------------------------------------------------------------------------
// points for formats

var smallPool [4][]*rp // by coset; points with small x, x*sgn(y), or y

func init() {
	add := func(x, y *big.Int) {
		for _, q := range [][2]*big.Int{{x, y}, {negP(x), y}, {x, negP(y)}, {negP(x), negP(y)}} {
			c := cosetOf(nil, q[0], q[1])
			smallPool[c] = append(smallPool[c], &rp{bi(-1), c, q[0], q[1]})
		}
	}
	for i := int64(1); len(smallPool[0]) < 24; i++ {
		if y := yOf(bi(i)); y != nil {
			add(bi(i), y)
		}
		if x := xOf(bi(i + 1)); x != nil {
			add(x, bi(i+1))
		}
	}
	for s := uint(240); s < 255; s++ { // around the sizes at which prefixes stop fitting
		for i, n := int64(-40), 0; i < 40 && n < 2; i++ {
			v := badd(new(big.Int).Lsh(bOne, s), bi(i))
			if v.Cmp(bP) >= 0 {
				break
			}
			if y := yOf(v); y != nil && i%3 != 0 {
				add(v, y)
				n++
			}
			if x := xOf(v); x != nil && i%3 == 0 {
				add(x, v)
				n++
			}
		}
	}
}

// genFitting draws a finite point, mostly one that fits the format's prefixes.
// sub: restricted to the subgroup.
func genFitting(r *rand.Rand, f *sfmt, sub bool) *rp {
	long := f.nHeaders() > 0 && (f.l[0] > 1 || f.l[1] > 1)
	for try := 0; ; try++ {
		var p *rp
		switch {
		case (long && try > 1 || r.Intn(8) == 0) && try < 40:
			c := 0
			if !sub {
				c = r.Intn(3)
			}
			p = smallPool[c][r.Intn(len(smallPool[c]))]
		case sub:
			p = genSub(r)
		default:
			p = genRP(r)
		}
		if p.inf() {
			continue
		}
		if f.fits(p) || (try > 40 && r.Intn(2) == 0) {
			return p
		}
	}
}

// genStrictFitting never returns a point that does not fit; nil if it found none.
func genStrictFitting(r *rand.Rand, f *sfmt, sub bool) *rp {
	for i := 0; i < 6; i++ {
		if p := genFitting(r, f, sub); f.fits(p) {
			return p
		}
	}
	for _, i := range r.Perm(len(smallPool[0])) {
		if f.fits(smallPool[0][i]) {
			return smallPool[0][i]
		}
	}
	return nil
}

// kinds able to hold p
func kindsFor(p *rp) (res []*ptKind) {
	for i := range ptKinds {
		if ptKinds[i].holds(p) {
			res = append(res, &ptKinds[i])
		}
	}
	return
}

// genTarget builds a target point with known content: another valid point, or an
// uninitialized one (old == nil).
func genTarget(r *rand.Rand, k *ptKind) (pt PT, old *rp) {
	if r.Intn(4) == 0 {
		return k.mk(), nil
	}
	for {
		old = genRP(r)
		if k.sub {
			old = genSub(r)
		}
		if k.holds(old) {
			return ptMake(r, k, old), old
		}
	}
}

// unchanged requires that a target still has its old content.
func (t *T) unchanged(key string, pt PT, old *rp, what string, a ...interface{}) {
	if old == nil {
		t.Check(pt.IsNaP(), key, "%s: the uninitialized target became a point", fmt.Sprintf(what, a...))
		return
	}
	t.isPt(key, pt, old, what, a...)
}

func isAny(err error, causes []error) bool {
	for _, e := range causes {
		if errors.Is(err, e) {
			return true
		}
	}
	return false
}

// message requires that the text of an error can be produced without problems.
func (t *T) message(key string, err error) {
	if v, ok := err.(errData); ok {
		if e := v.ValidateError_Final(); e != nil {
			t.Failf(key+"/message", "the message of the error refers to missing data or has syntax errors: %v; message is %q", e, err.Error())
		}
	}
	if err.Error() == "" {
		t.Failf(key+"/message", "empty error message")
	}
	t.KeepErr(err)
}

var trusts = []common.IsInputTrusted{common.TrustedInput, common.UntrustedInput}

func trustName(tr common.IsInputTrusted) string {
	if tr.Bool() {
		return "trusted"
	}
	return "untrusted"
}

var _ cp.CurvePointSlice
