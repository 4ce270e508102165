package main

// S01 (round trips, fixed encodings) and S02 (untrusted decoding).

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
)

func init() {
	register("S01", 15, runS01)
	register("S02", 15, runS02)
}

func sBridgeNote(c *Ctx) {
	if len(sBases) < 7 {
		c.Assume("built without the in-package bridge: only the exported serializers were exercised")
	}
}

func runS01(c *Ctx) {
	if !needRef(c) {
		return
	}
	sBridgeNote(c)
	svValues(c)
	c.Rule("A case is a serializer with randomly changed parameters and six points (each in some point type and representation); the bytes written, all three deserializers of the format, both trust levels, all target types and the refusals of points that the format cannot carry are compared with an independently written model of the formats. Distinct by format and point.")
	c.Run("round trip", 9000, func(t *T) {
		r := t.R
		in := genInst(r, sBases[t.Index%len(sBases)])
		f := &in.f
		t.Note("%v (set by%s)", in, in.steps)
		t.Sample("%v", in)
		t.Classf("base %s", in.base.name)
		if f.be {
			t.Class("big endian")
		}
		t.Check(int(in.ser.OutputLength()) == f.singleLen(), "OutputLength", "%v: OutputLength() = %d, want %d", in, in.ser.OutputLength(), f.singleLen())
		for _, d := range in.des {
			t.Check(int(d.d.OutputLength()) == f.singleLen(), "OutputLength", "%v: OutputLength() of %s = %d, want %d", in, d.name, d.d.OutputLength(), f.singleLen())
		}
		last := map[*ptKind]PT{}
		for i := 0; i < 6; i++ {
			var p *rp
			if i < 4 {
				p = genFitting(r, f, f.sub)
			} else {
				p = genRP(r)
			}
			ks := kindsFor(p)
			k := ks[r.Intn(len(ks))]
			pt := ptMake(r, k, p)
			if old := last[k]; old != nil && r.Intn(2) == 0 { // the same variable with a new value
				old.SetFrom(pt)
				pt = old
				t.Class("written from a variable used before")
			}
			last[k] = pt
			t.ResetNotes()
			t.Note("%v (set by%s)", in, in.steps)
			t.Note("point %v as %s", p, k.name)
			if p.inf() {
				t.EvalH(uint64(p.tor), hashStr(f.String(), k.name))
			} else {
				t.EvalH(hb(p.x), hb(p.y), hashStr(f.String(), k.name))
			}
			buf := genSink(r)
			n, err := in.ser.SerializeCurvePoint(buf.Writer, pt)
			t.isPt("source", pt, p, "%v: the point after being serialized", in)
			causes, wrote := f.refuses(p)
			if causes != nil {
				t.Classf("refused %s", f.kindOfRefusal(p))
				if err == nil {
					t.Failf("accepts", "%v wrote %v, which it must refuse (%v)", in, p, causes)
					continue
				}
				t.Check(isAny(err, causes), "reason", "%v refused %v with %q, want %v", in, p, err, causes)
				t.Check(n == buf.Len() && n < f.singleLen() && bytes.HasPrefix([]byte(f.h[hSingleH]+string(mustPoint(f, p))), buf.Bytes()), "refused/bytes", "%v refusing %v: wrote %x, returned %d", in, p, buf.Bytes(), n)
				d := err.GetData_struct()
				t.Check(d.PartialWrite == (n > 0), "refused/PartialWrite", "%v refusing %v: PartialWrite = %v after %d bytes", in, p, d.PartialWrite, n)
				t.Check(!d.IoError, "refused/IoError", "%v refusing %v: IoError is set", in, p)
				_ = wrote
				t.message("refused", err)
				continue
			}
			if err != nil {
				t.Failf("refuses", "%v refuses %v: %v", in, p, err)
				continue
			}
			want := f.single(p)
			t.Class("written")
			t.Classf("written coset %d", p.tor)
			t.Check(n == len(want) && buf.Len() == n, "length", "%v: wrote %d bytes, returned %d, want %d", in, buf.Len(), n, len(want))
			if !t.Check(bytes.Equal(buf.Bytes(), want), "encoding", "%v: encoding of %v is %x, want %x", in, p, buf.Bytes(), want) {
				continue
			}
			for _, d := range in.des {
				for _, tr := range trusts {
					k2 := &ptKinds[r.Intn(len(ptKinds))]
					if !k2.holds(p) {
						k2 = ks[r.Intn(len(ks))]
					}
					target, _ := genTarget(r, k2)
					rest := make([]byte, r.Intn(40))
					r.Read(rest)
					rd := genStream(r, append(append([]byte(nil), want...), rest...))
					n, err := d.d.DeserializeCurvePoint(rd.Reader, tr, target)
					if err != nil {
						t.Failf("read/"+trustName(tr), "%v, %s input: %s refuses its own encoding %x of %v into %s: %v", in, trustName(tr), d.name, want, p, k2.name, err)
						continue
					}
					t.Check(n == len(want) && rd.used() == n, "read/consumed", "%v (%s, %s): consumed %d bytes, returned %d, want %d", in, d.name, rd.name, rd.used(), n, len(want))
					t.isPt("read/point", target, p, "%v (%s, %s, into %s): reading %x", in, d.name, trustName(tr), k2.name, want)
					if !validatePt(target) {
						t.Failf("read/valid", "%v (%s, %s, into %s): the point read does not pass Validate", in, d.name, trustName(tr), k2.name)
					}
					t.Classf("read into %s", k2.name)
				}
			}
		}
	})
	// points of types implemented outside the library, as source and as target
	c.Run("foreign", 3000, func(t *T) {
		r := t.R
		in := genInst(r, sBases[t.Index%len(sBases)])
		f := &in.f
		t.Note("%v (set by%s)", in, in.steps)
		for i := 0; i < 4; i++ {
			p := genFitting(r, f, f.sub)
			if i == 3 {
				p = genRP(r)
			}
			var src PT
			name := "library type in disguise"
			if k := &frKinds[r.Intn(len(frKinds))]; k.holds(p) && r.Intn(4) > 0 {
				src, name = frMake(r, k, p), k.name
			} else {
				ks := kindsFor(p)
				src = frHide(ptMake(r, ks[r.Intn(len(ks))], p))
			}
			if p.inf() {
				t.EvalH(uint64(p.tor), hashStr(f.String(), name))
			} else {
				t.EvalH(hb(p.x), hb(p.y), hashStr(f.String(), name))
			}
			var buf bytes.Buffer
			n, err := in.ser.SerializeCurvePoint(&buf, src)
			causes, _ := f.refuses(p)
			if causes != nil {
				t.Check(err != nil && isAny(err, causes), "foreign/refused", "%v writing %v (%s): %v, want %v", in, p, name, err, causes)
				t.Classf("refused %s", f.kindOfRefusal(p))
				continue
			}
			if err != nil {
				t.Failf("foreign/refuses", "%v refuses %v as %s: %v", in, p, name, err)
				continue
			}
			want := f.single(p)
			if !t.Check(n == len(want) && bytes.Equal(buf.Bytes(), want), "foreign/encoding", "%v: encoding of %v (%s) is %x (returned %d), want %x", in, p, name, buf.Bytes(), n, want) {
				continue
			}
			t.Classf("written %s", name)
			for _, d := range in.des {
				for _, tr := range trusts {
					var target PT
					tname := "library type in disguise"
					if k := &frKinds[r.Intn(len(frKinds))]; k.holds(p) && r.Intn(4) > 0 {
						target, tname = frMake(r, k, nil), k.name
					} else {
						ks := kindsFor(p)
						pt, _ := genTarget(r, ks[r.Intn(len(ks))])
						target = frHide(pt)
					}
					n, err := d.d.DeserializeCurvePoint(bytes.NewReader(want), tr, target)
					if err != nil {
						t.Failf("foreign/read", "%v, %s input: %s refuses its own encoding %x of %v into %s: %v", in, trustName(tr), d.name, want, p, tname, err)
						continue
					}
					t.Check(n == len(want), "foreign/consumed", "%v (%s): returned %d, want %d", in, d.name, n, len(want))
					var q *rp
					if g, ok := target.(interface{ core() *foreign }); ok {
						q = g.core().p
						t.Check(frSame(q, p), "foreign/point", "%v (%s, %s, into %s): reading %x gives another point than %v", in, d.name, trustName(tr), tname, want, p)
					} else {
						t.isPt("foreign/point", frShow(target), p, "%v (%s, %s, into %s): reading %x", in, d.name, trustName(tr), tname, want)
					}
					t.Classf("read into %s", tname)
				}
			}
		}
	})
	// several points in one stream, read back one after another
	c.Run("streams", 1500, func(t *T) {
		r := t.R
		type item struct {
			in *sInst
			p  *rp
		}
		var items []item
		var buf bytes.Buffer
		for i := 0; i < 8; i++ {
			in := genInst(r, nil)
			p := genStrictFitting(r, &in.f, in.f.sub)
			if p == nil {
				continue
			}
			ks := kindsFor(p)
			if _, err := in.ser.SerializeCurvePoint(&buf, ptMake(r, ks[r.Intn(len(ks))], p)); err != nil {
				t.Failf("stream/write", "%v: %v", in, err)
				return
			}
			items = append(items, item{in, p})
		}
		rd := &faultReader{data: buf.Bytes(), failAt: -1, chunk: chunking(r.Intn(nChunkings), r)}
		for i, it := range items {
			ks := kindsFor(it.p)
			k := ks[r.Intn(len(ks))]
			target, _ := genTarget(r, k)
			n, err := it.in.des[r.Intn(3)].d.DeserializeCurvePoint(rd, trusts[r.Intn(2)], target)
			t.EvalH(hb(it.p.x), uint64(i), hashStr(it.in.f.String()))
			if err != nil || n != it.in.f.singleLen() {
				t.Failf("stream/read", "item %d, %v: n=%d, error %v", i, it.in, n, err)
				return
			}
			t.isPt("stream/point", target, it.p, "item %d, %v", i, it.in)
		}
		t.Check(rd.pos == buf.Len(), "stream/rest", "%d bytes left", buf.Len()-rd.pos)
	})
	// NaPs
	c.Run("uninitialized", 1500, func(t *T) {
		r := t.R
		in := genInst(r, sBases[t.Index%len(sBases)])
		for i := range ptKinds {
			pt := ptKinds[i].mk()
			cp.VerifNaP(pt, newRand(r.Uint64()), r.Intn(4))
			if !pt.IsNaP() {
				pt = ptKinds[i].mk()
			}
			t.Eval(in.f.String(), ptKinds[i].name)
			var buf bytes.Buffer
			n, err := in.ser.SerializeCurvePoint(&buf, pt)
			if err == nil {
				t.Failf("nap", "%v wrote an uninitialized %s as %x", in, ptKinds[i].name, buf.Bytes())
				continue
			}
			t.Class("nap refused")
			t.Check(errors.Is(err, be.ErrCannotSerializeNaP), "nap/reason", "%v refused an uninitialized point with %q", in, err)
			t.Check(n == buf.Len() && buf.String() == in.f.h[hSingleH][:n], "nap/bytes", "%v refusing an uninitialized point wrote %x, returned %d", in, buf.Bytes(), n)
			t.message("nap", err)
		}
	})
	for _, b := range sBases {
		c.Need("round trip/base "+b.name, 100)
	}
	for i := 0; i < 4; i++ {
		if len(sBases) == 7 || i == 0 {
			c.Need(fmt.Sprintf("round trip/written coset %d", i), 100)
		}
	}
	c.Need("uninitialized/nap refused", 1000)
	for i := range frKinds {
		c.Need("foreign/written "+frKinds[i].name, 100)
		c.Need("foreign/read into "+frKinds[i].name, 500)
	}
}

func (f *sfmt) kindOfRefusal(p *rp) string {
	switch {
	case p.inf():
		return "infinite"
	case f.sub && !p.sub():
		return "outside subgroup"
	}
	return "prefix does not fit"
}

func mustPoint(f *sfmt, p *rp) []byte {
	if p.inf() {
		return nil
	}
	b, _ := f.point(p)
	return b
}

// sMutate turns an encoding (header, values, footer) into a hostile string.
func sMutate(r *rand.Rand, f *sfmt, b []byte) (out []byte, how string) {
	out = append([]byte(nil), b...)
	hl := len(f.h[hSingleH])
	fi := r.Intn(f.nFE())
	seg := out[hl+32*fi : hl+32*fi+32]
	l := f.l[fi]
	if f.nHeaders() == 0 {
		l = 1
	}
	m := dec32(seg, f.be)
	lim := new(big.Int).Lsh(bOne, uint(256-l))
	v, top := bmod(m, lim), uint(new(big.Int).Rsh(m, uint(256-l)).Uint64())
	put := func(v *big.Int, top uint) {
		if v.Cmp(lim) < 0 {
			copy(seg, enc32(withPrefix(v, top, l), f.be))
		} else {
			copy(seg, enc32(bmod(v, new(big.Int).Lsh(bOne, 256)), f.be))
		}
	}
	switch r.Intn(16) {
	case 0, 1, 2:
		return out, "valid"
	case 3:
		out[hl+r.Intn(f.pointLen())] ^= 1 << uint(r.Intn(8))
		return out, "bit flip"
	case 4:
		put(badd(v, bP), top)
		return out, "value + p"
	case 5:
		put(ctorEdges[r.Intn(len(ctorEdges))], top)
		return out, "edge value"
	case 6:
		if l == 0 {
			seg[31] ^= 0x80
			seg[0] ^= 0x80
			return out, "top bit"
		}
		put(v, top^(1<<uint(r.Intn(l))))
		return out, "prefix bit"
	case 7:
		put(negP(v), top)
		return out, "value negated"
	case 8:
		if f.nFE() == 2 {
			a, b := out[hl:hl+32], out[hl+32:hl+64]
			for i := range a {
				a[i], b[i] = b[i], a[i]
			}
			return out, "values swapped"
		}
		fallthrough
	case 9:
		put(genResidue(r), top)
		return out, "arbitrary value"
	case 10:
		r.Read(out[hl : hl+f.pointLen()])
		return out, "random bytes"
	case 11:
		return out[:r.Intn(len(out))], "truncated"
	case 12:
		if hl > 0 {
			out[r.Intn(hl)] ^= byte(1 + r.Intn(255))
			return out, "header"
		}
		fallthrough
	case 13:
		if fl := len(f.h[hSingleF]); fl > 0 {
			out[len(out)-1-r.Intn(fl)] ^= byte(1 + r.Intn(255))
			return out, "footer"
		}
		fallthrough
	case 14: // the wrong byte order
		for i := 0; i < 16; i++ {
			seg[i], seg[31-i] = seg[31-i], seg[i]
		}
		return out, "byte order"
	}
	for i := range seg {
		seg[i] = []byte{0, 0xff}[r.Intn(2)] & byte(0-bitIf(i%7 == 0 || r.Intn(2) == 0))
	}
	if r.Intn(2) == 0 {
		fill := []byte{0, 0xff, 1}[r.Intn(3)]
		for i := hl; i < hl+f.pointLen(); i++ {
			out[i] = fill
		}
	}
	return out, "pattern"
}

// judgeString lets d read the string b into a point of kind k and judges everything observable.
func (t *T) judgeString(r *rand.Rand, in *sInst, d namedDes, k *ptKind, b []byte, how string, p *rp) {
	f := &in.f
	want := f.decSingle(b, k.sub, p)
	t.ResetNotes()
	t.Note("%v (set by%s)", in, in.steps)
	t.Note("%s of %v: %x into %s", how, p, b, k.name)
	t.Sample("%v: %s", in, how)
	t.EvalH(hashStr(f.String(), string(b), k.name))
	t.Classf("%s/%s", how, map[bool]string{true: "valid", false: "invalid"}[want.ok])
	target, old := genTarget(r, k)
	rd := genStream(r, b)
	n, err := d.d.DeserializeCurvePoint(rd.Reader, common.UntrustedInput, target)
	t.Classf("from %s", rd.name)
	t.Check(n == rd.used(), "n", "%s from %s: returned %d, consumed %d", d.name, rd.name, n, rd.used())
	if want.n >= 0 {
		t.Check(n == want.n, "n", "%s: returned %d, want %d", d.name, n, want.n)
	}
	if want.ok {
		t.Classf("accepted %s sub=%v", sKindNames[f.kind], f.sub || k.sub)
		if err != nil {
			t.Failf("rejects valid/"+how, "%s rejects a valid encoding: %v", d.name, err)
			return
		}
		t.isPt("point", target, &rp{bZero, 0, want.x, want.y}, "%s: point decoded", d.name)
		if !validatePt(target) {
			t.Failf("valid", "%s: the point read does not pass Validate", d.name)
		}
		// the only string that decodes to this point
		var w bytes.Buffer
		if _, err := in.ser.SerializeCurvePoint(&w, target); err != nil {
			t.Failf("rewrite", "%s accepted a point that cannot be serialized again: %v", d.name, err)
		} else {
			t.Check(bytes.Equal(w.Bytes(), b), "malleable", "the point decoded from %x is serialized as %x", b, w.Bytes())
		}
		return
	}
	t.Classf("rejected %s: %s", sKindNames[f.kind], want.why)
	if err == nil {
		t.Failf("accepts invalid/"+want.why, "%s accepts an invalid encoding (%s, must fail with %v)", d.name, want.why, want.causes)
		return
	}
	t.Check(isAny(err, want.causes), "reason/"+want.why, "%s: error %q, want one of %v", d.name, err, want.causes)
	t.Check(len(b) == 0 || !errors.Is(err, io.EOF), "eof", "%s: error is io.EOF after %d bytes", d.name, n)
	data := err.GetData_struct()
	t.Check(data.PartialRead == (n > 0 && n < f.singleLen()), "PartialRead", "%s: PartialRead = %v after %d of %d bytes, error %v", d.name, data.PartialRead, n, f.singleLen(), err)
	if len(b) == f.singleLen() {
		t.Check(!data.IoError, "IoError", "%s: IoError set although the stream did not fail: %v", d.name, err)
	} else if want.why == "truncated" {
		t.Check(data.IoError, "IoError", "%s: IoError not set although the stream ended: %v", d.name, err)
	}
	t.unchanged("target", target, old, "%s: target after a failed read", d.name)
	t.message("rejected", err)
	t.stays("rejected", rd, err)
}

// s02Corners: strings made of every combination of exceptional values, prefix bits and formats.
func s02Corners(c *Ctx) {
	half := new(big.Int).Rsh(bP, 1)
	vals := []*big.Int{bi(0), bi(1), bi(2), bsub(bP, bi(1)), bsub(bP, bi(2)), half, badd(half, bi(1)), bP, badd(bP, bi(1)),
		new(big.Int).Lsh(bOne, 254), bsub(new(big.Int).Lsh(bOne, 255), bi(1)), bsub(new(big.Int).Lsh(bOne, 256), bi(1))}
	rr := rand.New(rand.NewSource(77))
	for _, q := range []*rp{genSub(rr), genSub(rr), genRP(rr), genRP(rr)} {
		for q.inf() || q.x.Sign() == 0 {
			q = genRP(rr)
		}
		vals = append(vals, q.x, q.y, negP(q.x), negP(q.y))
	}
	type combo struct {
		base    *sBase
		be, sub bool
		v0      int
	}
	var all []combo
	for _, b := range sBases {
		for m := 0; m < 4; m++ {
			if b.model.kind >= sXtS && m >= 2 {
				continue
			}
			for v := range vals {
				all = append(all, combo{b, m&1 != 0, m&2 != 0, v})
			}
		}
	}
	c.RunN("corner values", len(all), func(t *T) {
		r := t.R
		q := all[t.Index]
		in := &sInst{f: q.base.model, base: q.base, ser: q.base.ser}
		f := &in.f
		f.be = q.be
		var o binary.ByteOrder = binary.LittleEndian
		if q.be {
			o = binary.BigEndian
		}
		in.ser = in.ser.WithEndianness(o)
		if f.kind < sXtS {
			f.sub = q.sub
			in.ser = in.ser.WithParameter("SubgroupOnly", q.sub)
		}
		in.des = []namedDes{{"ser", in.ser}, {"des", in.ser.AsDeserializer()}}
		second := []*big.Int{bOne}
		if f.nFE() == 2 {
			second = vals
		}
		for _, w := range second {
			v := [2]*big.Int{vals[q.v0], w}
			for flip := 0; flip < 1<<uint(f.nFE()); flip++ {
				var b []byte
				for i := 0; i < f.nFE(); i++ {
					l, pre := f.l[i], f.pre[i]
					if f.nHeaders() == 0 {
						l, pre = 1, 0
					}
					x := bmod(v[i], new(big.Int).Lsh(bOne, 256))
					if v[i].BitLen() <= 256-l {
						x = withPrefix(v[i], pre, l)
					}
					if flip>>uint(i)&1 == 1 {
						x = new(big.Int).Xor(x, new(big.Int).Lsh(bOne, 255))
					}
					b = append(b, enc32(x, f.be)...)
				}
				for _, k := range []*ptKind{&ptKinds[r.Intn(len(ptKinds))], &ptKinds[(t.Index+flip)%len(ptKinds)]} {
					t.judgeString(r, in, in.des[flip&1], k, b, "corner", nil)
				}
			}
		}
	})
}

func runS02(c *Ctx) {
	if !needRef(c) {
		return
	}
	sBridgeNote(c)
	c.Rule("A case is a serializer with random parameters and several byte strings derived from encodings of points of all cosets (ignoring whether the format allows them) by mutation; acceptance, resulting point, reason, target and consumed bytes are compared with an independent decoder, for targets of all types. Distinct by format and string.")
	c.Run("strings", 9000, func(t *T) {
		r := t.R
		in := genInst(r, sBases[t.Index%len(sBases)])
		f := &in.f
		for i := 0; i < 5; i++ {
			p := genFitting(r, f, f.sub && r.Intn(2) == 0)
			b0, fits := f.point(p)
			if !fits {
				b0 = make([]byte, f.pointLen())
			}
			b, how := sMutate(r, f, []byte(f.h[hSingleH]+string(b0)+f.h[hSingleF]))
			k := &ptKinds[r.Intn(len(ptKinds))]
			t.judgeString(r, in, in.des[r.Intn(3)], k, b, how, p)
		}
	})
	s02Corners(c)
	kinds := []int{sXtS, sYXtS}
	if len(sBases) == 7 {
		kinds = []int{0, 1, 2, 3, 4}
	}
	for _, k := range kinds {
		n := sKindNames[k]
		c.Need("strings/accepted "+n+" sub=true", 100)
		if k < sXtS {
			c.Need("strings/accepted "+n+" sub=false", 100)
		}
		for _, why := range []string{"not in subgroup", "not on curve", "non-canonical", "truncated", "header", "footer"} {
			c.Need("strings/rejected "+n+": "+why, 20)
		}
	}
	c.Need("strings/rejected YXtS: sign", 20)
	if len(sBases) == 7 {
		c.Need("strings/rejected YSX: negative zero", 3)
		c.Need("strings/rejected XY: zero", 3)
	}
}
