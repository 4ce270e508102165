package main

// S04: failures of the stream at every position.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
)

func init() {
	registerFault("S04", 15, runS04)
}

func runS04(c *Ctx) {
	if !needRef(c) {
		return
	}
	sBridgeNote(c)
	svFaults(c)
	c.Rule("A case is a serializer with random headers and parameters, an operation (single, batch, slice; read or write) on up to four points and one error; every byte position at which the stream can fail is tried, with the error coming alone or together with the last bytes and varying chunking. The stream records what it really transferred. Distinct by format, operation, position and error.")
	// group reads: all positions
	c.Run("reads", 2000, func(t *T) {
		r := t.R
		in := genInst(r, sBases[t.Index%len(sBases)])
		f := &in.f
		mode := t.Index / 7 % 3
		n := 1
		if mode != mSingle {
			n = r.Intn(5)
		}
		if len(f.h[hSingleH])+len(f.h[hSingleF])+len(f.h[hPerH])+len(f.h[hPerF]) > 60 && n > 2 {
			n = 2
		}
		extra := r.Intn(2)
		which := r.Intn(nBoxes)
		b := genBox(r, which, n, extra)
		hints := genEntries(r, f, b, n)
		if len(hints) < n {
			t.Class("no fitting point")
			return
		}
		var data []byte
		if mode == mSlice {
			data = f.slice(hints)
		} else {
			for _, p := range hints {
				data = append(data, f.single(p)...)
			}
		}
		whole := len(data)
		data = append(data, 0xab, 0xcd, 0xef)
		kind := t.Index / 21 % 8
		trust := trusts[r.Intn(2)]
		prefill := r.Intn(4)
		t.Sample("reading %v: %s of %d points, %s, into %s", in, mNames[mode], n, trustName(trust), b.kind)
		for at := 0; at <= whole; at++ {
			if skipPosition(r, at, whole) {
				continue
			}
			for _, with := range []bool{false, true} {
				if with && at == 0 {
					continue
				}
				if n > 2 && at > 0 && r.Intn(2) == 0 && at%f.singleLen() > 1 && at != whole {
					continue
				}
				ierr := injErrors(r)[kind]
				if prefill > 0 {
					b = genBox(r, which, n, extra)
					b.fill(r)
				} else {
					b = genBox(r, which, n, extra)
					b.old = make([]*rp, len(b.at))
				}
				if which >= 7 { // the kinds of pointer collections vary
					fits := true
					for i, p := range hints {
						fits = fits && b.kinds[i].holds(p)
					}
					if !fits {
						continue
					}
				}
				d := in.des[r.Intn(3)]
				rd := &faultReader{data: data, failAt: at, err: ierr, with: with, chunk: chunking(r.Intn(nChunkings), r), zeros: r.Intn(3)}
				t.ResetNotes()
				t.Note("%v (set by%s), through %s", in, in.steps, d.name)
				t.Note("reading %s (%d bytes) of %v, %s, into %s, stream fails after %d bytes with %v (with data: %v)", mNames[mode], whole, hints, trustName(trust), b.kind, at, ierr, with)
				t.EvalH(hashStr(f.String(), mNames[mode], b.kind), uint64(at), uint64(kind), uint64(bitIf(with)))
				if ierr == io.EOF {
					rd.data, rd.failAt = data[:at], -1
				}
				w := f.decSeq(data[:at], mode, n, b.sub, hints)
				var k int
				var err error
				var partial, ioflag bool
				done := 0
				var emap map[string]interface{}
				switch mode {
				case mSingle:
					var e errDeser
					k, e = d.d.DeserializeCurvePoint(rd, trust, b.at[0])
					if e != nil {
						x := e.GetData_struct()
						err, partial, ioflag, done, emap = e, x.PartialRead, x.IoError, len(w.pts), e.GetData_map()
					}
				case mBatch:
					var e ps.BatchDeserializationError
					if b.variadic != nil && r.Intn(4) == 0 {
						k, e = b.variadic(d.d, rd, trust)
					} else {
						k, e = d.d.DeserializeCurvePoints(rd, trust, b.cps)
					}
					if e != nil {
						x := e.GetData_struct()
						err, partial, ioflag, done, emap = e, x.PartialRead, x.IoError, x.PointsDeserialized, e.GetData_map()
					}
				default:
					var e ps.BatchDeserializationError
					mk := func(l int32) (interface{}, cp.CurvePointSlice, error) {
						if l < 0 {
							return nil, nil, nil
						}
						return nil, cp.GenericPointSlice(b.at[:l]), nil
					}
					if b.existing != nil && r.Intn(2) == 0 {
						mk = b.existing(n)
					}
					_, k, e = d.d.DeserializeSlice(rd, trust, mk)
					if e != nil {
						x := e.GetData_struct()
						err, partial, ioflag, done, emap = e, x.PartialRead, x.IoError, x.PointsDeserialized, e.GetData_map()
					}
				}
				key := mNames[mode] + "/fail"
				t.Check(k == rd.pos, key+"/n", "returned %d, transferred %d", k, rd.pos)
				if w.ok {
					t.Classf("%s complete", mNames[mode])
					if err != nil {
						t.Failf(key+"/spurious", "error %v although everything was transferred", err)
					}
					t.Check(k == whole, key+"/n", "returned %d of %d", k, whole)
					t.entries(mNames[mode], b, &w)
					continue
				}
				t.Classf("%s %s", mNames[mode], w.why)
				t.Classf("%s after %d points", mNames[mode], len(w.pts))
				if err == nil {
					t.Failf(key+"/noerr", "no error although the stream failed after %d of %d bytes", at, whole)
					continue
				}
				t.Check(w.causes != nil || k == at, key+"/n", "returned %d, the stream had %d", k, at)
				if mode == mSlice && w.total < 0 {
					w.total = int64(whole)
				}
				t.seqErr("fail", f, mode, &w, k, err, partial, ioflag, done, kind, ierr)
				if kind == 6 && w.causes == nil {
					t.Check(emap["Extra"] == "kept", key+"/extra", "data of the cause were lost: Extra=%v", emap["Extra"])
				}
				t.entries(mNames[mode]+"/fail", b, &w)
			}
		}
	})

	c.Run("writes", 4000, func(t *T) {
		r := t.R
		in := genInst(r, sBases[t.Index%len(sBases)])
		f := &in.f
		mode := t.Index / 7 % 3
		n := 1
		if mode != mSingle {
			n = r.Intn(5)
		}
		b := genBox(r, r.Intn(nBoxes), n, 0)
		pts := genEntries(r, f, b, n)
		if len(pts) < n {
			t.Class("no fitting point")
			return
		}
		for i, p := range pts {
			b.put(r, i, p)
		}
		var want []byte
		ends := []int{} // position at which point i is complete
		if mode == mSlice {
			want = f.slice(pts)
			for i := range pts {
				ends = append(ends, len(f.h[hGlobalH])+4+i*f.perLen()+len(f.h[hPerH])+f.pointLen())
			}
		} else {
			for _, p := range pts {
				want = append(want, f.single(p)...)
				ends = append(ends, len(want))
			}
		}
		kind := t.Index / 21 % 8
		t.Sample("writing %v: %s of %d points as %s", in, mNames[mode], n, b.kind)
		for at := 0; at <= len(want); at++ {
			if skipPosition(r, at, len(want)) {
				continue
			}
			for _, early := range []bool{false, true} {
				ierr := injErrors(r)[kind]
				wr := &faultWriter{failAt: at, err: ierr, early: early}
				t.ResetNotes()
				t.Note("%v (set by%s)", in, in.steps)
				t.Note("writing %s (%d bytes) of %v as %s, stream fails after %d bytes with %v (early: %v)", mNames[mode], len(want), pts, b.kind, at, ierr, early)
				t.EvalH(hashStr(f.String(), mNames[mode], b.kind), uint64(at), uint64(kind), uint64(bitIf(early)))
				var k int
				var err error
				var partial, ioflag bool
				var done int
				var emap map[string]interface{}
				switch mode {
				case mSingle:
					var e errSer
					k, e = in.ser.SerializeCurvePoint(wr, b.at[0])
					if e != nil {
						x := e.GetData_struct()
						err, partial, ioflag, emap = e, x.PartialWrite, x.IoError, e.GetData_map()
					}
				default:
					var e ps.BatchSerializationError
					if mode == mBatch {
						k, e = in.ser.SerializeCurvePoints(wr, b.cps)
					} else {
						k, e = in.ser.(sliceSerializer).SerializeSlice(wr, b.cps)
					}
					if e != nil {
						x := e.GetData_struct()
						err, partial, ioflag, done, emap = e, x.PartialWrite, x.IoError, x.PointsSerialized, e.GetData_map()
					}
				}
				key := mNames[mode] + "/write"
				t.Check(bytes.Equal(wr.got, want[:len(wr.got)]), key+"/bytes", "wrote %x, want a prefix of %x", wr.got, want)
				t.Check(k == len(wr.got), key+"/n", "returned %d, wrote %d", k, len(wr.got))
				for i, p := range pts {
					t.isPt(key+"/source", b.at[i], p, "entry %d after having been written", i)
				}
				if at == len(want) && (!early || at == 0) {
					t.Classf("%s complete", mNames[mode])
					t.Check(err == nil && k == len(want), key+"/spurious", "n = %d, error %v although everything was written", k, err)
					continue
				}
				if err == nil {
					t.Failf(key+"/noerr", "no error although the stream failed after %d bytes", at)
					continue
				}
				t.Classf("%s failed", mNames[mode])
				// Some writer might report an error without having written less; nothing after that is attempted.
				t.Check(k == at, key+"/n", "returned %d, the stream took %d", k, at)
				isU := errors.Is(err, io.ErrUnexpectedEOF)
				t.Check(errors.Is(err, ierr) || (kind == 1 || kind == 7) && isU, key+"/cause", "error %v does not wrap the cause %v", err, ierr)
				t.Check(ioflag, key+"/IoError", "IoError not set: %v", err)
				if kind == 6 {
					t.Check(emap["Extra"] == "kept", key+"/extra", "data of the cause were lost: Extra=%v", emap["Extra"])
				}
				lo, hi := 0, 0
				for _, e := range ends {
					if e < at || e == at && !early {
						lo++
					}
					if e <= at {
						hi++
					}
				}
				if mode != mSingle {
					t.Check(done >= lo && done <= hi, key+"/PointsSerialized", "PointsSerialized = %d after %d bytes, want %d..%d", done, at, lo, hi)
				}
				switch {
				case k == 0:
					t.Check(!partial, key+"/PartialWrite", "PartialWrite set although nothing was written")
				case mode == mBatch && k%f.singleLen() == 0:
					t.Check(!partial || early, key+"/PartialWrite", "PartialWrite set after %d bytes, at a border of points", k)
				case k < len(want):
					t.Check(partial, key+"/PartialWrite", "PartialWrite not set after %d of %d bytes", k, len(want))
				}
				t.message(key, err)
			}
		}
	})
	for _, m := range mNames {
		c.Need("reads/"+m+" complete", 100)
		c.Need("reads/"+m+" truncated in point", 1000)
		c.Need("writes/"+m+" failed", 1000)
	}
	for i := 0; i < 4; i++ {
		c.Need(fmt.Sprintf("reads/slice after %d points", i), 300)
		c.Need(fmt.Sprintf("reads/batch after %d points", i), 300)
	}
	for _, p := range []string{"slice header", "length", "per point header", "per point footer", "slice footer"} {
		c.Need("reads/slice truncated in "+p, 50)
	}
}

type (
	errDeser = be.DeserializationError
	errSer   = be.SerializationError
)

// skipPosition thins out the positions of failures in long encodings (those with headers of hundreds of bytes).
func skipPosition(r *rand.Rand, at, whole int) bool {
	return whole > 800 && at > 40 && at < whole-40 && (at+1)%256 > 2 && r.Intn(whole/200) != 0
}
