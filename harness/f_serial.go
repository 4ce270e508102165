package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
)

func init() {
	register("F08", 12, runF08)
	registerFault("F09", 10, runF09)
}

// one way to serialize a value; prefix length l, 0 prefix for the plain ones
type serVariant struct {
	name   string
	fe     bool
	prefix bool
	kind   string // io, buffer
	do     func(u *U256, x *FE, w io.Writer, h common.BitHeader, e common.FieldElementEndianness) (int, bandersnatchErrors.SerializationError)
}

var serVariants = []serVariant{
	{"Uint256.Serialize", false, false, "io", func(u *U256, x *FE, w io.Writer, h common.BitHeader, e common.FieldElementEndianness) (int, bandersnatchErrors.SerializationError) {
		return u.Serialize(w, e)
	}},
	{"Uint256.SerializeWithPrefix", false, true, "io", func(u *U256, x *FE, w io.Writer, h common.BitHeader, e common.FieldElementEndianness) (int, bandersnatchErrors.SerializationError) {
		return u.SerializeWithPrefix(w, h, e)
	}},
	{"FieldElement.Serialize", true, false, "io", func(u *U256, x *FE, w io.Writer, h common.BitHeader, e common.FieldElementEndianness) (int, bandersnatchErrors.SerializationError) {
		return x.Serialize(w, e)
	}},
	{"FieldElement.SerializeWithPrefix", true, true, "io", func(u *U256, x *FE, w io.Writer, h common.BitHeader, e common.FieldElementEndianness) (int, bandersnatchErrors.SerializationError) {
		return x.SerializeWithPrefix(w, h, e)
	}},
	{"SerializeFieldElement", true, false, "io", func(u *U256, x *FE, w io.Writer, h common.BitHeader, e common.FieldElementEndianness) (int, bandersnatchErrors.SerializationError) {
		return fe.SerializeFieldElement(x, w, e)
	}},
	{"SerializeFieldElementWithPrefix", true, true, "io", func(u *U256, x *FE, w io.Writer, h common.BitHeader, e common.FieldElementEndianness) (int, bandersnatchErrors.SerializationError) {
		return fe.SerializeFieldElementWithPrefix(x, w, h, e)
	}},
	{"Uint256.Serialize_Buffer", false, false, "buffer", func(u *U256, x *FE, w io.Writer, h common.BitHeader, e common.FieldElementEndianness) (int, bandersnatchErrors.SerializationError) {
		return u.Serialize_Buffer(w.(*bytes.Buffer), e)
	}},
	{"Uint256.SerializeWithPrefix_Buffer", false, true, "buffer", func(u *U256, x *FE, w io.Writer, h common.BitHeader, e common.FieldElementEndianness) (int, bandersnatchErrors.SerializationError) {
		return u.SerializeWithPrefix_Buffer(w.(*bytes.Buffer), h, e)
	}},
}

const (
	pNone = iota
	pGet
	pExpect
)

type deserVariant struct {
	name string
	fe   bool
	mode int
	kind string
	do   func(u *U256, x *FE, r io.Reader, h common.BitHeader, e common.FieldElementEndianness) (int, uint, bandersnatchErrors.DeserializationError)
}

var deserVariants = []deserVariant{
	{"Uint256.Deserialize", false, pNone, "io", func(u *U256, x *FE, r io.Reader, h common.BitHeader, e common.FieldElementEndianness) (int, uint, bandersnatchErrors.DeserializationError) {
		n, err := u.Deserialize(r, e)
		return n, 0, err
	}},
	{"Uint256.DeserializeAndGetPrefix", false, pGet, "io", func(u *U256, x *FE, r io.Reader, h common.BitHeader, e common.FieldElementEndianness) (int, uint, bandersnatchErrors.DeserializationError) {
		n, p, err := u.DeserializeAndGetPrefix(r, h.PrefixLen(), e)
		return n, uint(p), err
	}},
	{"Uint256.DeserializeWithExpectedPrefix", false, pExpect, "io", func(u *U256, x *FE, r io.Reader, h common.BitHeader, e common.FieldElementEndianness) (int, uint, bandersnatchErrors.DeserializationError) {
		n, err := u.DeserializeWithExpectedPrefix(r, h, e)
		return n, 0, err
	}},
	{"FieldElement.Deserialize", true, pNone, "io", func(u *U256, x *FE, r io.Reader, h common.BitHeader, e common.FieldElementEndianness) (int, uint, bandersnatchErrors.DeserializationError) {
		n, err := x.Deserialize(r, e)
		return n, 0, err
	}},
	{"FieldElement.DeserializeAndGetPrefix", true, pGet, "io", func(u *U256, x *FE, r io.Reader, h common.BitHeader, e common.FieldElementEndianness) (int, uint, bandersnatchErrors.DeserializationError) {
		n, p, err := x.DeserializeAndGetPrefix(r, h.PrefixLen(), e)
		return n, uint(p), err
	}},
	{"FieldElement.DeserializeWithExpectedPrefix", true, pExpect, "io", func(u *U256, x *FE, r io.Reader, h common.BitHeader, e common.FieldElementEndianness) (int, uint, bandersnatchErrors.DeserializationError) {
		n, err := x.DeserializeWithExpectedPrefix(r, h, e)
		return n, 0, err
	}},
	{"DeserializeFieldElement", true, pNone, "io", func(u *U256, x *FE, r io.Reader, h common.BitHeader, e common.FieldElementEndianness) (int, uint, bandersnatchErrors.DeserializationError) {
		n, err := fe.DeserializeFieldElement(x, r, e)
		return n, 0, err
	}},
	{"DeserializeFieldElementAndGetPrefix", true, pGet, "io", func(u *U256, x *FE, r io.Reader, h common.BitHeader, e common.FieldElementEndianness) (int, uint, bandersnatchErrors.DeserializationError) {
		n, p, err := fe.DeserializeFieldElementAndGetPrefix(x, r, h.PrefixLen(), e)
		return n, uint(p), err
	}},
	{"DeserializeFieldElementWithExpectedPrefix", true, pExpect, "io", func(u *U256, x *FE, r io.Reader, h common.BitHeader, e common.FieldElementEndianness) (int, uint, bandersnatchErrors.DeserializationError) {
		n, err := fe.DeserializeFieldElementWithExpectedPrefix(x, r, h, e)
		return n, 0, err
	}},
	{"Uint256.Deserialize_Buffer", false, pNone, "buffer", func(u *U256, x *FE, r io.Reader, h common.BitHeader, e common.FieldElementEndianness) (int, uint, bandersnatchErrors.DeserializationError) {
		n, err := u.Deserialize_Buffer(r.(*bytes.Buffer), e)
		return n, 0, err
	}},
	{"Uint256.DeserializeAndGetPrefix_Buffer", false, pGet, "buffer", func(u *U256, x *FE, r io.Reader, h common.BitHeader, e common.FieldElementEndianness) (int, uint, bandersnatchErrors.DeserializationError) {
		n, p, err := u.DeserializeAndGetPrefix_Buffer(r.(*bytes.Buffer), h.PrefixLen(), e)
		return n, uint(p), err
	}},
}

func readData(err bandersnatchErrors.DeserializationError) bandersnatchErrors.ReadErrorData {
	return err.GetData_struct()
}

// checkReadErr checks the data of a deserialization error. got: bytes that were
// really taken from the stream.
func (t *T) checkReadErr(key string, n int, got []byte, err bandersnatchErrors.DeserializationError, ioErr bool, want int) {
	d := err.GetData_struct()
	t.Check(n == len(got), key+"/bytesRead", "returned %d bytes read, stream delivered %d", n, len(got))
	t.Check(d.BytesRead == len(got), key+"/data.BytesRead", "error data say %d bytes read, stream delivered %d (%v)", d.BytesRead, len(got), err)
	t.Check(d.PartialRead == (len(got) != 0 && len(got) != want), key+"/data.PartialRead", "PartialRead=%v after %d of %d bytes (%v)", d.PartialRead, len(got), want, err)
	t.Check(d.IoError == ioErr, key+"/data.IoError", "IoError=%v, want %v (%v)", d.IoError, ioErr, err)
	t.Check(bytes.Equal(got, d.ActuallyRead), key+"/data.ActuallyRead", "ActuallyRead=%x but the stream delivered %x", d.ActuallyRead, got)
	m := errorsWithData.GetData_map(err)
	t.Check(m["BytesRead"] == d.BytesRead && m["PartialRead"] == d.PartialRead && m["IoError"] == d.IoError, key+"/data-map", "data map %v differs from data struct %+v", m, d)
	if _, p := PanicVal(func() { _ = err.Error() }); p {
		t.Failf(key+"/Error", "Error() panics")
	}
	t.KeepErr(err)
}
func (t *T) checkWriteErr(key string, n int, got []byte, err bandersnatchErrors.SerializationError, ioErr bool, want int) {
	d := err.GetData_struct()
	t.Check(n == len(got), key+"/bytesWritten", "returned %d bytes written, stream took %d", n, len(got))
	t.Check(d.BytesWritten == len(got), key+"/data.BytesWritten", "error data say %d bytes written, stream took %d (%v)", d.BytesWritten, len(got), err)
	t.Check(d.PartialWrite == (len(got) != 0 && len(got) != want), key+"/data.PartialWrite", "PartialWrite=%v after %d of %d bytes (%v)", d.PartialWrite, len(got), want, err)
	t.Check(d.IoError == ioErr, key+"/data.IoError", "IoError=%v, want %v (%v)", d.IoError, ioErr, err)
	m := errorsWithData.GetData_map(err)
	t.Check(m["BytesWritten"] == d.BytesWritten && m["PartialWrite"] == d.PartialWrite && m["IoError"] == d.IoError, key+"/data-map", "data map %v differs from data struct %+v", m, d)
	if _, p := PanicVal(func() { _ = err.Error() }); p {
		t.Failf(key+"/Error", "Error() panics")
	}
	t.KeepErr(err)
}

func isPrefixErr(err error) bool { return errors.Is(err, fe.ErrPrefixDoesNotFit) }

// genEncoded draws a 256-bit string value, often around multiples of the borders
// of the field with the top l bits replaced.
func genEncoded(r *rand.Rand, l int) *big.Int {
	x := gen256(r)
	if r.Intn(2) == 0 {
		// low part near p
		base := []*big.Int{bP, b2P, bC, bHalf, bZero, bR}[r.Intn(6)]
		x = bmod(badd(base, bi(int64(r.Intn(5))-2)), bR)
	}
	if l > 0 && r.Intn(2) == 0 {
		m := new(big.Int).Lsh(bOne, uint(256-l))
		x = withPrefix(bmod(x, m), uint(r.Intn(1<<uint(l))), l)
	}
	return x
}

// deserGroup reads random strings through every API variant, checks the
// verdict, the value or the untouched target, and the error data.
func deserGroup(c *Ctx, n int) {
	c.Run("deserialize", n, func(t *T) {
		r := t.R
		h, pre, l := genHeader(r)
		v := genEncoded(r, l)
		if r.Intn(2) == 0 && l > 0 { // give it the expected prefix
			v = withPrefix(bmod(v, new(big.Int).Lsh(bOne, uint(256-l))), pre, l)
		}
		for _, e := range endis {
			raw := enc32(v, e.be)
			trail := make([]byte, r.Intn(4)+32*r.Intn(4)*r.Intn(2))
			r.Read(trail)
			input := append(append([]byte(nil), raw...), trail...)
			for _, dv := range deserVariants {
				pl := l
				if dv.mode == pNone {
					pl = 0
				}
				mask := new(big.Int).Lsh(bOne, uint(256-pl))
				low, top := bmod(v, mask), uint(new(big.Int).Rsh(v, uint(256-pl)).Uint64())
				old := genBelow(r, bP)
				x, u := feFrom(r, old), U256(toWords(old))
				var rd io.Reader
				var left func() []byte
				if dv.kind == "buffer" || r.Intn(2) == 0 {
					b := bytes.NewBuffer(append([]byte(nil), input...))
					rd, left = b, b.Bytes
				} else if r.Intn(2) == 0 {
					s := genStream(r, input)
					rd, left = s.Reader, func() []byte { s.used(); return s.rest }
				} else {
					f := &faultReader{data: append([]byte(nil), input...), failAt: -1, chunk: chunking(r.Intn(nChunkings), r), with: r.Intn(2) == 0}
					rd, left = f, func() []byte { return f.data[f.pos:] }
				}
				t.ResetNotes()
				t.Note("%s %s input %x prefix %b len %d", dv.name, e.name, raw, pre, pl)
				n, p, err := dv.do(&u, &x, rd, h, e.e)
				t.EvalH(hb(v), uint64(pl)<<9|uint64(pre), hashStr(dv.name, e.name))
				consumed := input[:len(input)-len(left())]
				if dv.mode == pExpect && top != pre {
					t.Class("prefix-mismatch")
					if err == nil {
						t.Failf(dv.name+"/mismatch", "prefix %b accepted, want %b", top, pre)
						continue
					}
					t.Check(errors.Is(err, fe.ErrPrefixMismatch), dv.name+"/ErrPrefixMismatch", "error %v", err)
					t.Check(len(consumed) <= 32, dv.name+"/over", "consumed %d bytes", len(consumed))
					t.checkReadErr(dv.name+"/mismatch", n, consumed, err, false, 32)
					t.Check(fromWords(u).Cmp(old) == 0 && feVal(&x).Cmp(old) == 0, dv.name+"/target", "failed read changed its target")
					continue
				}
				t.Check(len(consumed) == 32 && n == 32, dv.name+"/consumed", "consumed %d bytes, returned %d", len(consumed), n)
				if dv.mode == pGet {
					t.Check(p == top, dv.name+"/prefix", "prefix %b, want %b", p, top)
				}
				if !dv.fe {
					t.Class("uint256")
					if err != nil {
						t.Failf(dv.name+"/err", "unexpected error %v", err)
						continue
					}
					t.Check(fromWords(u).Cmp(low) == 0, dv.name+"/value", "got %s, want %s", hex(fromWords(u)), hex(low))
					continue
				}
				if low.Cmp(bP) >= 0 {
					t.Class("non-reduced")
					if err == nil {
						t.Failf(dv.name+"/nonreduced", "non-reduced %s accepted", hex(low))
						continue
					}
					t.Check(errors.Is(err, fe.ErrNonNormalizedDeserialization), dv.name+"/ErrNonNormalizedDeserialization", "error %v", err)
					t.checkReadErr(dv.name+"/nonreduced", n, consumed, err, false, 32)
					t.Check(feVal(&x).Cmp(bmod(low, bP)) == 0, dv.name+"/nonreduced-value", "got %s", hex(feVal(&x)))
					continue
				}
				t.Class("reduced")
				if err != nil {
					t.Failf(dv.name+"/err", "unexpected error %v", err)
					continue
				}
				t.Check(feVal(&x).Cmp(low) == 0, dv.name+"/value", "got %s, want %s", hex(feVal(&x)), hex(low))
			}
			for _, pfx := range []bool{false, true} {
				pl := 0
				name := "Uint256.Deserialize_Bytes"
				if pfx {
					pl = l
					name = "Uint256.DeserializeAndGetPrefix_Bytes"
				}
				mask := new(big.Int).Lsh(bOne, uint(256-pl))
				low, top := bmod(v, mask), uint(new(big.Int).Rsh(v, uint(256-pl)).Uint64())
				in := append([]byte(nil), input...)
				var u U256
				var n int
				var p common.PrefixBits
				var err bandersnatchErrors.DeserializationError
				t.ResetNotes()
				t.Note("%s %s input %x len %d", name, e.name, in, pl)
				if pfx {
					n, p, err = u.DeserializeAndGetPrefix_Bytes(in, uint8(pl), e.e)
				} else {
					n, err = u.Deserialize_Bytes(in, e.e)
				}
				t.Check(err == nil && n == 32 && uint(p) == top && fromWords(u).Cmp(low) == 0 && bytes.Equal(in, input), name, "n=%d prefix=%b value=%s err=%v, want prefix %b value %s", n, p, hex(fromWords(u)), err, top, hex(low))
				t.EvalH(hb(v), uint64(pl), hashStr(name, e.name))
			}
		}
		t.Sample("string %s prefix %b/%d", hex(v), pre, l)
	})
	c.Need("deserialize/non-reduced", 1000)
	c.Need("deserialize/reduced", 1000)
	c.Need("deserialize/prefix-mismatch", 1000)
}

func runF08(c *Ctx) {
	c.Rule("A case is a value (or 256-bit string), byte order, prefix and API variant; oracle: positional base-256 encoding computed with math/big.")
	c.Assume("math/big is correct")
	c.Run("serialize", 200000, func(t *T) {
		r := t.R
		h, pre, l := genHeader(r)
		x, vx := genFE(r)
		vu := gen256(r)
		switch r.Intn(3) {
		case 0: // around the border of fitting
			b := new(big.Int).Lsh(bOne, uint(256-l))
			vu = bmod(badd(b, bi(int64(r.Intn(3))-1)), bR)
		case 1:
			vx = bmod(badd(new(big.Int).Lsh(bOne, uint(256-l-r.Intn(2))), bi(int64(r.Intn(3))-1)), bP)
			x = feFrom(r, vx)
		}
		for _, e := range endis {
			for _, sv := range serVariants {
				u := U256(toWords(vu))
				xx := x
				v := vu
				if sv.fe {
					v = vx
				}
				var w io.Writer
				var fw *faultWriter
				var buf *bytes.Buffer
				old := []byte{}
				if sv.kind == "buffer" || r.Intn(2) == 0 {
					old = make([]byte, r.Intn(5))
					r.Read(old)
					buf = bytes.NewBuffer(append([]byte(nil), old...))
					w = buf
				} else {
					fw = &faultWriter{failAt: -1}
					w = fw
				}
				t.ResetNotes()
				t.Note("%s %s value %s prefix %b len %d", sv.name, e.name, hex(v), pre, l)
				n, err := sv.do(&u, &xx, w, h, e.e)
				var got []byte
				if fw != nil {
					got = fw.got
				} else {
					all := buf.Bytes()
					if len(all) < len(old) || !bytes.Equal(all[:len(old)], old) {
						t.Failf(sv.name+"/append", "writing to a buffer changed its earlier contents")
						continue
					}
					got = all[len(old):]
				}
				pl, pp := 0, uint(0)
				if sv.prefix {
					pl, pp = l, pre
				}
				fits := v.BitLen() <= 256-pl
				t.EvalH(hb(v), uint64(pl)<<9|uint64(pp), hashStr(sv.name, e.name))
				t.Check(fromWords(u).Cmp(vu) == 0 && feVal(&xx).Cmp(vx) == 0, sv.name+"/modified", "serialization changed its source")
				if !fits {
					t.Class("does-not-fit")
					if err == nil {
						t.Failf(sv.name+"/prefix-fit", "no error although the top %d bits of %s are not free", pl, hex(v))
						continue
					}
					t.Check(isPrefixErr(err), sv.name+"/ErrPrefixDoesNotFit", "error does not wrap ErrPrefixDoesNotFit: %v", err)
					t.Check(len(got) == 0, sv.name+"/nowrite", "wrote %d bytes", len(got))
					t.checkWriteErr(sv.name+"/notfit", n, got, err, false, 32)
					continue
				}
				t.Class("fits")
				if err != nil {
					t.Failf(sv.name+"/err", "unexpected error %v", err)
					continue
				}
				t.Check(n == 32 && len(got) == 32, sv.name+"/len", "returned %d, wrote %d bytes", n, len(got))
				want := enc32(withPrefix(v, pp, pl), e.be)
				t.Check(bytes.Equal(got, want), sv.name+"/bytes", "wrote %x, want %x", got, want)
			}
			// byte slices
			for _, pfx := range []bool{false, true} {
				u := U256(toWords(vu))
				ln := 32 + r.Intn(5)*r.Intn(2) + 32*r.Intn(4)*r.Intn(2)
				if r.Intn(3) == 0 {
					ln = r.Intn(40)
				}
				out := make([]byte, ln, ln+r.Intn(3))
				r.Read(out)
				orig := append([]byte(nil), out...)
				var n int
				var err bandersnatchErrors.SerializationError
				pl, pp := 0, uint(0)
				name := "Uint256.Serialize_Bytes"
				if pfx {
					pl, pp = l, pre
					name = "Uint256.SerializeWithPrefix_Bytes"
				}
				t.ResetNotes()
				t.Note("%s %s value %s prefix %b len %d slice of %d", name, e.name, hex(vu), pp, pl, ln)
				if pfx {
					n, err = u.SerializeWithPrefix_Bytes(out, h, e.e)
				} else {
					n, err = u.Serialize_Bytes(out, e.e)
				}
				t.Eval(name, e.name, hex(vu), fmt.Sprint(pl, pp, ln))
				fits := vu.BitLen() <= 256-pl
				if !fits || ln < 32 {
					t.Class("slice-error")
					if err == nil {
						t.Failf(name+"/noerr", "no error")
						continue
					}
					t.Check(bytes.Equal(out, orig) && n == 0, name+"/untouched", "failed but wrote (n=%d)", n)
					if fits {
						want := io.ErrUnexpectedEOF
						if ln == 0 {
							want = io.EOF
						}
						t.Check(errors.Is(err, want), name+"/eof", "error %v for slice of length %d", err, ln)
					}
					if !fits && ln >= 32 {
						t.Check(isPrefixErr(err), name+"/ErrPrefixDoesNotFit", "error does not wrap ErrPrefixDoesNotFit: %v", err)
					}
					d := err.GetData_struct()
					t.Check(!d.PartialWrite && d.BytesWritten == 0, name+"/data", "data %+v", d)
					continue
				}
				if err != nil {
					t.Failf(name+"/err", "unexpected error %v", err)
					continue
				}
				want := append(enc32(withPrefix(vu, pp, pl), e.be), orig[32:]...)
				t.Check(n == 32 && bytes.Equal(out, want), name+"/bytes", "n=%d wrote %x, want %x", n, out, want)
			}
		}
	})
	c.Need("serialize/does-not-fit", 1000)
	c.Need("serialize/fits", 1000)
	c.Need("serialize/slice-error", 100)

	deserGroup(c, 200000)

	// exhaustive: all prefixes of all lengths against all top bytes
	c.RunN("all-prefixes", 511, func(t *T) {
		l := 0
		k := t.Index
		for k >= 1<<uint(l) {
			k -= 1 << uint(l)
			l++
		}
		pre := uint(k)
		h := common.MakeBitHeader(common.PrefixBits(pre), uint8(l))
		t.Check(uint(h.PrefixBits()) == pre && int(h.PrefixLen()) == l, "BitHeader", "MakeBitHeader(%b,%d) reads back as %b,%d", pre, l, h.PrefixBits(), h.PrefixLen())
		for top := 0; top < 256; top++ {
			low := genBelow(t.R, new(big.Int).Lsh(bOne, 248))
			v := badd(low, new(big.Int).Lsh(bi(int64(top)), 248))
			for _, e := range endis {
				raw := enc32(v, e.be)
				for _, dv := range deserVariants {
					if dv.mode != pExpect && (dv.mode != pGet || pre != 0) {
						continue
					}
					var u U256
					var x FE
					_, p, err := dv.do(&u, &x, bytes.NewBuffer(append([]byte(nil), raw...)), h, e.e)
					val := bmod(v, new(big.Int).Lsh(bOne, uint(256-l)))
					match := uint(top)>>uint(8-l) == pre
					t.EvalH(uint64(t.Index), uint64(top), hashStr(dv.name, e.name))
					switch {
					case dv.mode == pExpect && !match:
						t.Check(err != nil && errors.Is(err, fe.ErrPrefixMismatch), dv.name+"/mismatch", "top byte %08b against prefix %b/%d: %v", top, pre, l, err)
					case dv.fe && val.Cmp(bP) >= 0:
						t.Check(err != nil && errors.Is(err, fe.ErrNonNormalizedDeserialization), dv.name+"/nonreduced", "%s: %v", hex(val), err)
					default:
						got := fromWords(u)
						if dv.fe {
							got = feVal(&x)
						}
						t.Check(err == nil && got.Cmp(val) == 0, dv.name+"/value", "top byte %08b prefix %b/%d: got %s want %s, %v", top, pre, l, hex(got), hex(val), err)
					}
					if dv.mode == pGet {
						t.Check(p == uint(top)>>uint(8-l), dv.name+"/prefix", "top byte %08b prefix length %d: got %b", top, l, p)
					}
				}
			}
		}
	})

	// prefix lengths above 8
	c.RunN("bad-length", 247, func(t *T) {
		ln := uint8(t.Index + 9)
		for _, e := range endis {
			data := make([]byte, 40)
			t.R.Read(data)
			chk := func(name string, n int, consumed int, err bandersnatchErrors.DeserializationError) {
				t.Eval(name, e.name, fmt.Sprint(ln))
				if err == nil {
					t.Failf(name+"/badlen", "prefix length %d accepted", ln)
					return
				}
				t.Check(errors.Is(err, fe.ErrPrefixLengthInvalid), name+"/badlen-err", "error %v", err)
				t.checkReadErr(name+"/badlen", n, data[:consumed], err, false, 32)
				t.Check(consumed == 0, name+"/badlen-read", "consumed %d bytes", consumed)
			}
			var u U256
			var x FE
			b := bytes.NewBuffer(append([]byte(nil), data...))
			n, _, err := u.DeserializeAndGetPrefix(b, ln, e.e)
			chk("Uint256.DeserializeAndGetPrefix", n, 40-b.Len(), err)
			b = bytes.NewBuffer(append([]byte(nil), data...))
			n, _, err = u.DeserializeAndGetPrefix_Buffer(b, ln, e.e)
			chk("Uint256.DeserializeAndGetPrefix_Buffer", n, 40-b.Len(), err)
			n, _, err = u.DeserializeAndGetPrefix_Bytes(data, ln, e.e)
			chk("Uint256.DeserializeAndGetPrefix_Bytes", n, 0, err)
			b = bytes.NewBuffer(append([]byte(nil), data...))
			n, _, err = x.DeserializeAndGetPrefix(b, ln, e.e)
			chk("FieldElement.DeserializeAndGetPrefix", n, 40-b.Len(), err)
			b = bytes.NewBuffer(append([]byte(nil), data...))
			n, _, err = fe.DeserializeFieldElementAndGetPrefix(&x, b, ln, e.e)
			chk("DeserializeFieldElementAndGetPrefix", n, 40-b.Len(), err)
		}
		t.MustPanic("MakeBitHeader/len", func() { common.MakeBitHeader(0, ln) }, fmt.Sprintf("MakeBitHeader with length %d", ln))
	})

	// sequences of values through one stream
	c.Run("stream", 30000, func(t *T) {
		r := t.R
		var buf bytes.Buffer
		type item struct {
			v   *big.Int
			e   endi
			h   common.BitHeader
			pre uint
			l   int
		}
		var items []item
		for i := 0; i < 12; i++ {
			h, pre, l := genHeader(r)
			it := item{e: endis[r.Intn(2)], h: h, pre: pre, l: l}
			it.v = bmod(genResidue(r), new(big.Int).Lsh(bOne, uint(256-l)))
			if it.v.Cmp(bP) >= 0 {
				it.v = bsub(it.v, bP)
			}
			x := feFrom(r, it.v)
			var err error
			_, e := x.SerializeWithPrefix(&buf, h, it.e.e)
			if e != nil {
				err = e
			}
			if !t.Check(err == nil, "stream/write", "%v", err) {
				return
			}
			items = append(items, it)
		}
		rd := &faultReader{data: buf.Bytes(), failAt: -1, chunk: chunking(r.Intn(nChunkings), r)}
		for i, it := range items {
			var x FE
			n, p, err := x.DeserializeAndGetPrefix(rd, uint8(it.l), it.e.e)
			t.EvalH(hb(it.v), uint64(it.l), uint64(i))
			if err != nil || n != 32 || uint(p) != it.pre || feVal(&x).Cmp(it.v) != 0 {
				t.Failf("stream/read", "item %d: wrote %s prefix %b/%d %s, read n=%d %s prefix %b err %v", i, hex(it.v), it.pre, it.l, it.e.name, n, hex(feVal(&x)), p, err)
				return
			}
		}
		t.Check(rd.pos == len(rd.data), "stream/rest", "%d bytes left over", len(rd.data)-rd.pos)
	})
}

func runF09(c *Ctx) {
	c.Rule("A case is (API variant, byte order, number of bytes transferred before the failure 0..32, error value, chunking, error with or after the last bytes); the stream records what it really transferred.")
	// one case per (failure position); all variants, errors, chunkings inside
	rounds := 30
	if c.scale != 1 {
		rounds = int(float64(rounds) * c.scale)
	}
	c.RunN("read-faults", 33*rounds, func(t *T) {
		r := t.R
		at := t.Index % 33
		for _, e := range endis {
			for _, dv := range deserVariants {
				for ei, ierr := range injErrors(r) {
					for ck := 0; ck < nChunkings; ck++ {
						with := (ck+ei)%2 == 0
						h, pre, l := genHeader(r)
						pl := l
						if dv.mode == pNone {
							pl = 0
						}
						v := bmod(genBelow(r, bP), new(big.Int).Lsh(bOne, uint(256-pl)))
						if dv.mode != pNone {
							v = withPrefix(v, pre, l)
						}
						data := enc32(v, e.be)
						old := genBelow(r, bP)
						x, u := feFrom(r, old), U256(toWords(old))
						f := &faultReader{data: data, failAt: at, err: ierr, with: with, chunk: chunking(ck, r)}
						if ck == 3 {
							f.zeros = 2
						}
						var rd io.Reader = f
						delivered := func() int { return f.pos }
						if dv.kind == "buffer" {
							if ei != 1 {
								continue
							}
							b := bytes.NewBuffer(append([]byte(nil), data[:at]...))
							rd, delivered = b, func() int { return at - b.Len() }
						}
						t.ResetNotes()
						t.Note("%s %s prefix %b/%d input %x, failing after %d bytes with %v, chunking %d, error with data %v", dv.name, e.name, pre, pl, data, at, ierr, ck, with)
						n, _, err := dv.do(&u, &x, rd, h, e.e)
						t.Eval(dv.name, e.name, fmt.Sprint(at, ei, ck, with, pl))
						if at == 32 {
							t.Class("complete")
							t.Check(err == nil && n == 32 && delivered() == 32, dv.name+"/complete", "n=%d err=%v after a complete transfer", n, err)
							continue
						}
						t.Class("failed-read")
						if err == nil {
							t.Failf(dv.name+"/noerr", "no error (n=%d) although the stream failed after %d bytes", n, at)
							continue
						}
						if at == 0 {
							t.Class("failed-at-0")
							t.Check(errors.Is(err, ierr), dv.name+"/cause0", "error %v does not wrap the cause %v", err, ierr)
							if ei != 1 {
								t.Check(ei == 7 || !errors.Is(err, io.EOF), dv.name+"/eof0", "spurious io.EOF")
							}
						} else if ei == 1 || ei == 7 {
							if ei == 1 {
								t.Class("eof-midway")
								t.Check(errors.Is(err, io.ErrUnexpectedEOF) && !errors.Is(err, io.EOF), dv.name+"/eof-midway", "stream ended after %d bytes: error %v", at, err)
							} else {
								t.Check(errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, ierr), dv.name+"/wrapped-eof", "error %v", err)
							}
						} else {
							t.Check(errors.Is(err, ierr), dv.name+"/cause", "error %v does not wrap the cause %v", err, ierr)
							t.Check(!errors.Is(err, io.EOF), dv.name+"/eof", "spurious io.EOF")
						}
						t.Check(n == at, dv.name+"/n", "returned %d, delivered %d", n, at)
						t.checkReadErr(dv.name, n, data[:delivered()], err, true, 32)
						if ei == 6 {
							got := errorsWithData.GetData_map(err)["Extra"]
							t.Check(got == "kept", dv.name+"/extra", "data of the cause were lost: Extra=%v", got)
						}
						t.Check(fromWords(u).Cmp(old) == 0 && feVal(&x).Cmp(old) == 0, dv.name+"/target", "failed read changed its target from %s to %s / %s", hex(old), hex(fromWords(u)), hex(feVal(&x)))
					}
				}
			}
		}
	})
	c.RunN("write-faults", 33*rounds, func(t *T) {
		r := t.R
		at := t.Index % 33
		for _, e := range endis {
			for _, sv := range serVariants {
				if sv.kind == "buffer" {
					continue
				}
				for ei, ierr := range injErrors(r) {
					for _, early := range []bool{false, true} {
						h, pre, l := genHeader(r)
						pl, pp := l, pre
						if !sv.prefix {
							pl, pp = 0, 0
						}
						v := bmod(genBelow(r, bP), new(big.Int).Lsh(bOne, uint(256-pl)))
						x, u := feFrom(r, v), U256(toWords(v))
						f := &faultWriter{failAt: at, err: ierr, early: early}
						want := enc32(withPrefix(v, pp, pl), e.be)
						t.ResetNotes()
						t.Note("%s %s prefix %b/%d value %s, failing after %d bytes with %v (early %v)", sv.name, e.name, pp, pl, hex(v), at, ierr, early)
						n, err := sv.do(&u, &x, f, h, e.e)
						t.Eval(sv.name, e.name, fmt.Sprint(at, ei, early, pl))
						t.Check(bytes.Equal(f.got, want[:len(f.got)]), sv.name+"/bytes", "wrote %x, want a prefix of %x", f.got, want)
						t.Check(fromWords(u).Cmp(v) == 0 && feVal(&x).Cmp(v) == 0, sv.name+"/source", "write changed its source")
						if at == 32 && !early {
							t.Check(err == nil && n == 32, sv.name+"/complete", "n=%d err=%v", n, err)
							continue
						}
						t.Class("failed-write")
						if err == nil {
							t.Failf(sv.name+"/noerr", "no error (n=%d) although the writer failed after %d bytes", n, at)
							continue
						}
						t.Check(errors.Is(err, ierr) || (ei == 1 && errors.Is(err, io.ErrUnexpectedEOF)), sv.name+"/cause", "error %v does not wrap the cause %v", err, ierr)
						t.checkWriteErr(sv.name, n, f.got, err, true, 32)
						if ei == 6 {
							got := errorsWithData.GetData_map(err)["Extra"]
							t.Check(got == "kept", sv.name+"/extra", "data of the cause were lost: Extra=%v", got)
						}
					}
				}
			}
		}
	})
	deserGroup(c, 60000)
	c.Need("read-faults/failed-read", 1000)
	c.Need("read-faults/failed-at-0", 100)
	c.Need("read-faults/eof-midway", 100)
	c.Need("read-faults/complete", 100)
	c.Need("write-faults/failed-write", 1000)
}
