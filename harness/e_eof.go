package main

// E05: the end-of-file conversion and the I/O error data shared by all readers and writers.

import (
	"errors"
	"fmt"
	"io"
	"reflect"

	bErrors "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	"github.com/GottfriedHerold/Bandersnatch/internal/errorTransform"
	"github.com/GottfriedHerold/Bandersnatch/internal/errorconsts"
)

func init() { register("E05", 20, checkE05) }

// eofLike is an error that is io.EOF only by its Is method.
type eofLike struct{ n int }

func (e *eofLike) Error() string        { return fmt.Sprintf("like EOF %d", e.n) }
func (e *eofLike) Is(target error) bool { return target == io.EOF }

type eofStruct struct {
	ops      *structOps
	unexpect func(e ewd.ErrorWithData_any) ewd.ErrorWithData_any
	onNil    func() bool // stays nil
}

func mkEof[S any](o *structOps) eofStruct {
	return eofStruct{o, func(e ewd.ErrorWithData_any) ewd.ErrorWithData_any {
		x := e.(ewd.ErrorWithData[S])
		errorTransform.UnexpectEOF2(&x)
		return anyOf[S](x)
	}, func() bool {
		var x ewd.ErrorWithData[S]
		errorTransform.UnexpectEOF2(&x)
		return x == nil
	}}
}

func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if reflect.TypeOf(a).Comparable() {
		eq := false
		func() { defer func() { recover() }(); eq = a == b }()
		return eq
	}
	return reflect.DeepEqual(a, b)
}

// verdict compares the outcome of a conversion with the rule.
func (w *eWorld) verifyUnexpect(what string, e *em, eof bool, got error, typed bool) {
	t := w.t
	if !eof {
		t.Check(sameErr(got, e.err), what+":untouched", "%s changed %s (%T, not EOF) into %v (%T)", what, e.desc, e.err, got, got)
		return
	}
	if got == nil {
		t.Failf(what+":lost", "%s turned an EOF error into nil", what)
		return
	}
	want := e.data()
	t.Check(errors.Is(got, io.ErrUnexpectedEOF), what+":unexpected", "%s: the result %v is not io.ErrUnexpectedEOF", what, got)
	t.Check(!errors.Is(got, io.EOF), what+":still EOF", "%s: the result %v is still io.EOF", what, got)
	m := ewd.GetData_map(got)
	t.Check(sameMap(m, want), what+":data", "%s: data %s, want those of the EOF error, %s", what, showMap(m), showMap(want))
	if !typed && len(want) == 0 {
		t.Check(got == io.ErrUnexpectedEOF, what+":plain", "%s: without data, the result is %#v rather than io.ErrUnexpectedEOF", what, got)
	}
	t.Check(got.Error() == io.ErrUnexpectedEOF.Error(), what+":message", "%s: message %q", what, got.Error())
	t.Classf("%s data %v", what, len(want) > 0)
}

func checkE05(c *Ctx) {
	c.level = "exploration"
	c.Rule("Errors are made by the random histories of E01, starting from io.EOF, errors that are io.EOF only by their Is method, io.ErrUnexpectedEOF and foreign errors; each is converted by both conversion functions, and the result is compared with the rule: errors that are not io.EOF unchanged, others io.ErrUnexpectedEOF and no longer io.EOF, with exactly the data of the original. The I/O error data are enumerated over all byte counts.")
	c.Assume("errors.Is and errors.As of the standard library are correct")

	typed := []eofStruct{mkEof[sT0](eStructs[0]), mkEof[sT1](eStructs[1]), mkEof[sT2](eStructs[2]), mkEof[sT3](eStructs[3]), mkEof[sT5](eStructs[5]), mkEof[sT7](eStructs[7])}
	c.Run("eof", 20000, func(t *T) {
		w := &eWorld{t: t, flavours: 1}
		switch t.Index % 4 {
		case 0, 1:
			w.add(&em{err: io.EOF, text: io.EOF.Error()})
		case 2:
			l := &eofLike{t.R.Intn(100)}
			w.add(&em{err: l, text: l.Error()})
		case 3:
			if t.R.Intn(2) == 0 {
				w.add(&em{err: io.ErrUnexpectedEOF, text: io.ErrUnexpectedEOF.Error()})
			} else {
				w.add(w.foreign())
			}
		}
		for i := t.R.Intn(8); i >= 0; i-- {
			w.step()
			if len(t.failed) > 0 {
				return
			}
		}
		for _, e := range w.pool {
			if e.plain {
				continue
			}
			eof := errors.Is(e.err, io.EOF)
			x := e.err
			errorTransform.UnexpectEOF(&x)
			w.verifyUnexpect("UnexpectEOF", e, eof, x, false)
			// the original is not touched
			t.Check(e.err.Error() == e.snap, "eof:original", "converting %s changed its message from %q to %q", e.desc, e.snap, e.err.Error())
			w.verifyData(e)
			for _, o := range typed {
				if !o.ops.isTyped(e.err) || e.typed != o.ops {
					continue
				}
				y := o.unexpect(e.err.(ewd.ErrorWithData_any))
				w.verifyUnexpect("UnexpectEOF2", e, eof, y, true)
				if y == nil {
					continue
				}
				t.Check(sameMap(o.ops.ownStruct(y), o.ops.project(e.data())), "eof:struct", "data struct after UnexpectEOF2 is %s, want %s", showMap(o.ops.ownStruct(y)), showMap(o.ops.project(e.data())))
				w.verifyData(e)
				t.Classf("typed %s eof %v", o.ops.name, eof)
			}
			t.Eval(fmt.Sprint(eof), showMapTypes(e.data()), fmt.Sprint(len(e.chain())))
		}
	})
	c.Need("eof/UnexpectEOF data true", int64(scaled(c, 2000)))
	c.Need("eof/UnexpectEOF data false", int64(scaled(c, 2000)))
	c.Need("eof/UnexpectEOF2 data true", int64(scaled(c, 500)))
	c.RunN("nil", 1, func(t *T) {
		var x error
		errorTransform.UnexpectEOF(&x)
		t.Check(x == nil, "nil:UnexpectEOF", "UnexpectEOF turned nil into %v", x)
		for _, o := range typed {
			t.Check(o.onNil(), "nil:UnexpectEOF2", "UnexpectEOF2 turned a nil %s error into something", o.ops.name)
			t.Eval(o.ops.name)
		}
	})

	// data attached to failed reads and writes
	c.RunN("io data", 70*70, func(t *T) {
		n, exp := t.Index/70, t.Index%70
		if n > exp {
			t.Class("beyond")
			return
		}
		partial := n > 0 && n < exp
		wd := errorconsts.NewIntermediateWriteErrorData(n, exp)
		if *wd != (errorconsts.WriteErrorData{PartialWrite: partial, BytesWritten: n, IoError: true}) {
			t.Failf("io data:write", "error data after writing %d of %d bytes: %+v", n, exp, *wd)
		}
		var buf []byte
		if t.R.Intn(4) != 0 {
			buf = make([]byte, n, n+t.R.Intn(3))
			t.R.Read(buf)
		}
		keep := append([]byte(nil), buf...)
		rd := errorconsts.NewIntermediateReadErrorData(n, exp, buf)
		ok := rd.PartialRead == partial && rd.BytesRead == n && rd.IoError && string(rd.ActuallyRead) == string(keep)
		t.Check(ok, "io data:read", "error data after reading %d of %d bytes (%x): %+v", n, exp, keep, *rd)
		// and through an error
		e := ewd.AddDataToError_struct(io.ErrClosedPipe, rd)
		got := e.GetData_struct()
		t.Check(reflect.DeepEqual(got, *rd) && reflect.DeepEqual(ewd.GetData_struct[bErrors.ReadErrorData](e, ewd.EnsureDataIsPresent), got), "io data:read error", "read data %+v come back as %+v", *rd, got)
		v, has := ewd.GetParameter(e, bErrors.FIELDNAME_PARTIAL_READ)
		t.Check(has && v == partial, "io data:partial", "parameter %s is %v, %v", bErrors.FIELDNAME_PARTIAL_READ, v, has)
		v, has = ewd.GetParameter(e, bErrors.FIELDNAME_BYTES_READ)
		t.Check(has && v == n, "io data:bytes", "parameter %s is %v, %v", bErrors.FIELDNAME_BYTES_READ, v, has)
		v, has = ewd.GetParameter(e, bErrors.FIELDNAME_IO_ERROR)
		t.Check(has && v == true, "io data:io", "parameter %s is %v, %v", bErrors.FIELDNAME_IO_ERROR, v, has)
		v, has = ewd.GetParameter(e, bErrors.FIELDNAME_ACTUALLY_READ)
		vb, isb := v.([]byte)
		t.Check(has && isb && string(vb) == string(keep), "io data:actual", "parameter %s is %v, %v", bErrors.FIELDNAME_ACTUALLY_READ, v, has)
		f := ewd.AddDataToError_struct(io.ErrClosedPipe, wd)
		v, has = ewd.GetParameter(f, bErrors.FIELDNAME_PARTIAL_WRITE)
		t.Check(has && v == partial, "io data:partial write", "parameter %s is %v, %v", bErrors.FIELDNAME_PARTIAL_WRITE, v, has)
		v, has = ewd.GetParameter(f, bErrors.FIELDNAME_BYTES_WRITTEN)
		t.Check(has && v == n, "io data:bytes written", "parameter %s is %v, %v", bErrors.FIELDNAME_BYTES_WRITTEN, v, has)
		t.Classf("partial %v", partial)
		t.EvalH(uint64(n), uint64(exp))
	})
	c.RunSeq("no attempt", 1, func(t *T) {
		r, w := errorconsts.NoReadAttempt, errorconsts.NoWriteAttempt
		t.Check(!r.PartialRead && r.BytesRead == 0 && r.ActuallyRead == nil && !r.IoError, "no attempt:read", "NoReadAttempt is %+v", r)
		t.Check(w == errorconsts.WriteErrorData{}, "no attempt:write", "NoWriteAttempt is %+v", w)
		r, w = bErrors.NoReadAttempt, bErrors.NoWriteAttempt
		t.Check(!r.PartialRead && r.BytesRead == 0 && r.ActuallyRead == nil && !r.IoError, "no attempt:read 2", "bandersnatchErrors.NoReadAttempt is %+v", r)
		t.Check(w == bErrors.WriteErrorData{}, "no attempt:write 2", "bandersnatchErrors.NoWriteAttempt is %+v", w)
		t.Eval("x")
	})
}
