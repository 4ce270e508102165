package main

// Readers and writers that chunk, fail or end at a chosen position, and record
// what really went through them.

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
)

var errInjected = errors.New("injected failure")

type faultReader struct {
	data    []byte
	pos     int
	failAt  int   // err is reported once failAt bytes were delivered; <0: never
	err     error // io.EOF for a stream that just ends
	with    bool  // report err together with the last bytes, not in a call of its own
	chunk   func() int
	calls   int
	zeros   int // that many (0, nil) answers, spread
	maxOver int
}

func (f *faultReader) limit() int {
	if f.failAt >= 0 && f.failAt < len(f.data) {
		return f.failAt
	}
	return len(f.data)
}
func (f *faultReader) Read(p []byte) (int, error) {
	f.calls++
	if len(p) == 0 {
		return 0, nil
	}
	if f.zeros > 0 && f.calls%3 == 2 {
		f.zeros--
		return 0, nil
	}
	lim := f.limit()
	e := f.err
	if e == nil {
		e = io.EOF
	}
	if f.pos >= lim {
		return 0, e
	}
	n := lim - f.pos
	if n > len(p) {
		n = len(p)
	}
	if f.chunk != nil {
		if c := f.chunk(); c >= 1 && c < n {
			n = c
		}
	}
	copy(p, f.data[f.pos:f.pos+n])
	f.pos += n
	if f.pos == lim && f.with {
		return n, e
	}
	return n, nil
}

type faultWriter struct {
	got    []byte
	failAt int // accepts that many bytes; <0: everything
	err    error
	early  bool // report the error with the call that fills the budget
	calls  int
}

func (f *faultWriter) Write(p []byte) (int, error) {
	f.calls++
	if f.failAt < 0 {
		f.got = append(f.got, p...)
		return len(p), nil
	}
	room := f.failAt - len(f.got)
	if len(p) > room {
		f.got = append(f.got, p[:room]...)
		return room, f.err
	}
	f.got = append(f.got, p...)
	if f.early && len(f.got) == f.failAt && len(p) > 0 {
		return len(p), f.err
	}
	return len(p), nil
}

// chunking styles
const nChunkings = 4

func chunking(k int, r *rand.Rand) func() int {
	switch k {
	case 0:
		return nil
	case 1:
		return func() int { return 1 }
	case 2:
		s := &splitmix{r.Uint64()}
		return func() int { return int(s.Uint64()%7) + 1 }
	default:
		s := &splitmix{r.Uint64()}
		return func() int { return int(s.Uint64()%40) + 1 }
	}
}

type plainErr struct{ n int }

func (p *plainErr) Error() string { return fmt.Sprintf("plain error %d", p.n) }

// stream: an input stream of one of the types that callers actually use. What was consumed is found out by
// reading the rest afterwards, so used and intact end the life of the stream.
type stream struct {
	io.Reader
	name string
	data []byte
	own  []byte // the memory the stream reads from
	rest []byte
	done bool
}

func genStream(r *rand.Rand, data []byte) *stream {
	s := &stream{data: append([]byte(nil), data...)}
	own := append([]byte(nil), data...)
	s.own = own
	switch r.Intn(14) {
	case 0:
		s.name, s.Reader = "bytes.Buffer", bytes.NewBuffer(own)
	case 1:
		s.name, s.Reader = "bytes.Reader", bytes.NewReader(own)
	case 2:
		s.name, s.Reader = "strings.Reader", strings.NewReader(string(own))
	case 3:
		s.name, s.Reader = "bufio.Reader", bufio.NewReaderSize(&faultReader{data: own, failAt: -1, chunk: chunking(r.Intn(nChunkings), r)}, 16+r.Intn(100))
	case 4:
		s.name, s.Reader = "io.SectionReader", io.NewSectionReader(bytes.NewReader(append([]byte{9, 9, 9}, own...)), 3, int64(len(own)))
	case 5:
		s.name, s.Reader = "io.LimitedReader", &io.LimitedReader{R: bytes.NewReader(append(own, 7, 7, 7)), N: int64(len(data))}
	case 6:
		at := r.Intn(len(own) + 1)
		s.name, s.Reader = "io.MultiReader", io.MultiReader(bytes.NewReader(own[:at]), bytes.NewBuffer(own[at:]))
	case 7: // a buffer the caller has already read from
		b := bytes.NewBuffer(append([]byte{1, 2, 3, 4, 5}, own...))
		b.Next(5)
		s.own = nil
		s.name, s.Reader = "used bytes.Buffer", b
	case 8:
		b := bufio.NewReadWriter(bufio.NewReader(bytes.NewReader(own)), bufio.NewWriter(io.Discard))
		b.Peek(3)
		s.name, s.Reader = "bufio.ReadWriter", b
	default:
		s.name, s.Reader = "chunks", &faultReader{data: own, failAt: -1, chunk: chunking(r.Intn(nChunkings), r)}
	}
	return s
}

// used: how many bytes were consumed. -1 if what is left is not the end of what the stream was made of.
func (s *stream) used() int {
	if !s.done {
		s.rest, _ = io.ReadAll(s.Reader)
		s.done = true
	}
	n := len(s.data) - len(s.rest)
	if n < 0 || !bytes.Equal(s.rest, s.data[n:]) {
		return -1
	}
	return n
}

// spoil overwrites whatever memory the stream still owns. Nothing the library returned may depend on it.
func (s *stream) spoil() {
	junk := bytes.Repeat([]byte{0xA7}, len(s.data)+64)
	switch x := s.Reader.(type) {
	case *bytes.Buffer:
		x.Reset()
		x.Write(junk[:len(s.data)])
	case *bufio.Reader:
		x.Reset(bytes.NewReader(junk))
		x.Peek(1)
	case *bufio.ReadWriter:
		x.Reader.Reset(bytes.NewReader(junk))
		x.Peek(1)
	}
	copy(s.own, junk)
}

// errSnap: everything an error shows.
func errSnap(err error) string {
	if d, ok := err.(interface{ GetData_map() map[string]any }); ok {
		return fmt.Sprintf("%v\n%+v", err, d.GetData_map())
	}
	return err.Error()
}

// stays: the error does not change when the memory of the stream is reused.
func (t *T) stays(key string, s *stream, err error) {
	before := errSnap(err)
	s.spoil()
	if after := errSnap(err); before != after {
		t.Failf(key+"/changed", "reusing the memory of the %s changed the error returned before from %q to %q", s.name, before, after)
	}
	t.Class("error kept while the stream's memory is reused")
}

// sink: an output stream of one of the types that callers actually use; got gives what arrived.
type sink struct {
	io.Writer
	name string
	got  func() []byte
}

func (s *sink) Bytes() []byte { return s.got() }
func (s *sink) Len() int      { return len(s.got()) }

func genSink(r *rand.Rand) *sink {
	switch r.Intn(6) {
	case 0:
		var b strings.Builder
		return &sink{&b, "strings.Builder", func() []byte { return []byte(b.String()) }}
	case 1:
		var b bytes.Buffer
		w := bufio.NewWriterSize(&b, 16+r.Intn(100))
		return &sink{w, "bufio.Writer", func() []byte { w.Flush(); return b.Bytes() }}
	case 2: // a buffer that already holds something
		b := bytes.NewBuffer([]byte("already there"))
		return &sink{b, "used bytes.Buffer", func() []byte { return b.Bytes()[len("already there"):] }}
	case 3:
		var b, c bytes.Buffer
		return &sink{io.MultiWriter(&b, &c), "io.MultiWriter", func() []byte {
			if !bytes.Equal(b.Bytes(), c.Bytes()) {
				return nil
			}
			return b.Bytes()
		}}
	default:
		var b bytes.Buffer
		return &sink{&b, "bytes.Buffer", func() []byte { return b.Bytes() }}
	}
}
