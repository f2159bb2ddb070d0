package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"syscall"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"golang.org/x/text/encoding"
	"golang.org/x/text/transform"
)

func seeded(s int64) *Rng { return newRng(uint64(s), 0x9E3779B97F4A7C15) }

// --- schedules ---------------------------------------------------------------

// sizes yields piece sizes according to a mode.
type sizes struct {
	r    *Rng
	mode int
	min  int
}

const nSizeModes = 11

func (s *sizes) next() int {
	n := 0
	switch s.mode {
	case 0:
		n = 1
	case 1:
		n = 2
	case 2:
		n = 3
	case 3:
		n = 1 + s.r.IntN(4)
	case 4:
		n = s.r.IntN(10)
	case 5:
		n = 1 + s.r.IntN(100)
	case 6:
		n = 512 - 2 + s.r.IntN(5)
	case 7:
		n = 4096 - 2 + s.r.IntN(5)
	case 8:
		n = 1 << 20
	case 9:
		n = special(s.r, 1<<(9+s.r.IntN(9)))
	default:
		switch s.r.IntN(4) {
		case 0:
			n = s.r.IntN(3)
		case 1:
			n = s.r.IntN(20)
		case 2:
			n = s.r.IntN(700)
		default:
			n = s.r.IntN(9000)
		}
	}
	if n < s.min {
		n = s.min
	}
	return n
}

// --- source ------------------------------------------------------------------

var errSource = errors.New("injected source error")

// injected lists errors that a source or sink may return, among them some that
// invite special treatment.
var injected = []error{
	errSource,
	fmt.Errorf("the far end is gone: %w", io.EOF),
	io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrShortBuffer, io.ErrShortWrite, io.ErrClosedPipe,
	cp949.ErrCP949UnexpectedStream,
	fmt.Errorf("in between: %w", cp949.ErrCP949UnexpectedStream),
	transform.ErrShortSrc, transform.ErrShortDst, encoding.ErrInvalidUTF8,
	bufio.ErrBufferFull, os.ErrDeadlineExceeded, context.Canceled, syscall.EINTR, syscall.EAGAIN,
	&fs.PathError{Op: "read", Path: "x", Err: syscall.EIO},
	fickle{}, anyError{}, (*nilError)(nil), errorList{io.EOF, errSource},
}

// fickle says that trying again is worthwhile.
type fickle struct{}

func (fickle) Error() string   { return "EOF" }
func (fickle) Timeout() bool   { return true }
func (fickle) Temporary() bool { return true }

// anyError claims to be whatever it is compared with.
type anyError struct{}

func (anyError) Error() string { return "" }
func (anyError) Is(error) bool { return true }
func (anyError) Unwrap() error { return io.EOF }

type nilError struct{ s string }

func (*nilError) Error() string { return "an error all the same" }

// errorList cannot be compared with another of its kind.
type errorList []error

func (l errorList) Error() string   { return fmt.Sprint([]error(l)) }
func (l errorList) Unwrap() []error { return l }

// sameErr reports whether e is the very error want.
func sameErr(e, want error) bool {
	l, ok := e.(errorList)
	k, ok2 := want.(errorList)
	if ok || ok2 {
		return ok && ok2 && len(l) == len(k) && &l[0] == &k[0]
	}
	return e == want
}

// source is a compliant but hostile io.Reader.
type source struct {
	data    []byte
	pos     int
	chunk   sizes
	cuts    func(pos int) int // alternative to chunk: size of the next piece
	end     error             // returned at the end
	endWith bool              // together with the last bytes
	zeros   bool              // sometimes return 0, nil
	r       *Rng
	zrow    int
	ended   bool
	reads   int
	empty   int
	after   int
	noted   int
	onRead  func()
}

func (s *source) Read(p []byte) (int, error) {
	s.reads++
	if s.onRead != nil {
		s.onRead()
	}
	if s.ended {
		s.after++
		if s.after > 1000 {
			panic(verdict("the source was read 1000 times after its end"))
		}
		return 0, s.end
	}
	if len(p) == 0 {
		s.noted++
		if s.noted > 1000 {
			panic(verdict("the source was read 1000 times with an empty buffer"))
		}
		return 0, nil
	}
	if s.zeros && s.zrow < 3 && s.r.IntN(4) == 0 {
		s.zrow++
		s.empty++
		scribble(p[:min(len(p), 64)], 0xEE)
		return 0, nil
	}
	s.zrow = 0
	var n int
	if s.cuts != nil {
		n = s.cuts(s.pos)
	} else {
		n = s.chunk.next()
	}
	if n < 1 {
		n = 1
	}
	if rest := len(s.data) - s.pos; n > rest {
		n = rest
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	scribble(p[n:min(len(p), n+64)], 0xEE) // a Reader may use all of p as scratch space
	if s.pos == len(s.data) && (s.endWith || n == 0) {
		s.ended = true
		return n, s.end
	}
	return n, nil
}

func scribble(p []byte, v byte) {
	if len(p) == 0 {
		return
	}
	p[0] = v
	for n := 1; n < len(p); n *= 2 {
		copy(p[n:], p[:n])
	}
}

// --- reading -----------------------------------------------------------------

const canary = 24

// drain reads r to its end with the given buffer sizes and watches the
// contract of every Read. delivered, if not nil, is kept up to date.
func drain(r io.Reader, buf *sizes, delivered *int, hint int, afterRead func(p []byte)) (out []byte, err error) {
	out = make([]byte, 0, hint)
	idle, total := 0, 0
	arr := make([]byte, 0)
	for {
		n := buf.next()
		if cap(arr) < n+canary {
			arr = make([]byte, n+canary)
		}
		arr = arr[:n+canary]
		scribble(arr[n:], 0xA5)
		k, e := r.Read(arr[:n]) // capacity extends over the canary
		if k < 0 || k > n {
			return out, verdictErr(fmt.Sprintf("Read returned %d for a buffer of %d bytes", k, n))
		}
		for _, c := range arr[n:] {
			if c != 0xA5 {
				return out, verdictErr("Read wrote beyond the end of its buffer")
			}
		}
		out = append(out, arr[:k]...)
		total += k
		if total > 1<<28 {
			return out, verdictErr("the stream does not end: 256 MiB read")
		}
		if delivered != nil {
			*delivered = total
		}
		if afterRead != nil {
			afterRead(arr[:n])
		}
		if e != nil {
			return out, e
		}
		scribble(arr[:k], 0xC3) // the buffer is the caller's
		if k == 0 {
			if n > 0 {
				idle++
			}
			if idle > 2000 {
				return out, verdictErr("Read returned 0, nil 2000 times in a row")
			}
		} else {
			idle = 0
		}
	}
}

type verdictErr string

func (v verdictErr) Error() string { return string(v) }

func newSource(r *Rng, data []byte) *source {
	return &source{data: data, chunk: sizes{r: r, mode: r.IntN(nSizeModes), min: max(1, notSmaller(len(data)))}, end: io.EOF,
		endWith: r.IntN(2) == 0, zeros: r.IntN(3) == 0, r: r}
}

func bufSizes(r *Rng, n int) *sizes {
	m := r.IntN(nSizeModes)
	if n > 50000 && m < 4 {
		m = 4 + r.IntN(7)
	}
	return &sizes{r: r, mode: m, min: notSmaller(n)}
}

// notSmaller bounds the number of pieces of huge texts.
func notSmaller(n int) int {
	if n < 1<<21 {
		return 0
	}
	return n >> 17
}

func mustReader(src io.Reader) io.Reader {
	r, err := cp949.NewReader(src)
	if err != nil || r == nil {
		panic(verdict(fmt.Sprintf("NewReader failed: %v", err)))
	}
	return r
}

func mustWriter(dst io.Writer) io.Writer {
	w, err := cp949.NewWriter(dst)
	if err != nil || w == nil {
		panic(verdict(fmt.Sprintf("NewWriter failed: %v", err)))
	}
	return w
}

// --- sink --------------------------------------------------------------------

var errSink = errors.New("injected sink error")

// takeAll makes a sink fail although it takes everything.
const takeAll = 1 << 30

type sink struct {
	got    []byte
	err    error // what it fails with; nil means errSink
	writes int
	fails  int
	torn   int // failing calls that took something
	fail   func(call int) (fail bool, take int)

	onWrite func()
}

func (s *sink) Write(p []byte) (int, error) {
	s.writes++
	if s.onWrite != nil {
		s.onWrite()
	}
	if s.fail != nil {
		if f, k := s.fail(s.writes); f {
			s.fails++
			if k == takeAll {
				k = len(p)
			} else if k >= len(p) {
				k = len(p) - 1
			}
			if k < 0 {
				k = 0
			}
			if k > 0 {
				s.torn++
			}
			s.got = append(s.got, p[:k]...)
			if s.err != nil {
				return k, s.err
			}
			return k, errSink
		}
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

// lend copies p to a buffer that is used for every Write; spoil it afterwards.
func (w *W) lend(p []byte) []byte {
	w.lent = append(w.lent[:0], p...)
	return w.lent[:len(p):len(p)]
}

// pieces cuts data.
func pieces(sz *sizes, data []byte, f func(p []byte) bool) {
	empty := 0
	var lent []byte
	for len(data) > 0 {
		n := sz.next()
		if n > len(data) {
			n = len(data)
		}
		if n == 0 {
			if empty++; empty > 3 {
				n = 1
			}
		}
		if n > 0 {
			empty = 0
		}
		lent = append(lent[:0], data[:n]...)
		ok := f(lent[:n:n])
		scribble(lent, 'Z') // the buffer is the caller's
		if !ok {
			return
		}
		data = data[n:]
	}
}

// newEncoding makes an encoding; a declared one serves as well.
func newEncoding(r *Rng) *cp949.CP949Encoding {
	if r != nil && r.IntN(4) == 0 {
		return new(cp949.CP949Encoding)
	}
	return cp949.NewCP949Encoding()
}

// --- every way of decoding and encoding ------------------------------------------

const nVia = 10

var viaDecName = [nVia]string{"From", "NewReader", "Decoder.Bytes", "Decoder.Reader", "Decoder.String", "Decoder.Transform", "Decoder in transform.Writer", "transform.Append with the Decoder", "Decoder at the start of a transform.Chain", "Decoder at the end of a transform.Chain"}
var viaEncName = [nVia]string{"To", "NewWriter", "Encoder.Bytes", "Encoder.Writer", "Encoder.String", "Encoder.Transform", "Encoder in transform.Reader", "transform.Append with the Encoder", "Encoder in a transform.Chain", "encoding.ReplaceUnsupported of the Encoder"}

func decVia(k int, r *Rng, b []byte, d *encoding.Decoder) ([]byte, error) {
	if d == nil {
		d = newEncoding(r).NewDecoder()
	}
	switch k {
	case 0:
		return cp949.From(b)
	case 1, 3:
		var rd io.Reader
		src := newSource(r, b)
		if k == 1 {
			rd = mustReader(src)
		} else {
			src.zeros = false
			rd = d.Reader(src)
		}
		bs := bufSizes(r, len(b))
		if k == 3 {
			bs.min = max(1, bs.min)
		}
		o, err := drain(rd, bs, nil, 2*len(b), nil)
		if err == io.EOF {
			err = nil
		}
		return o, err
	case 2:
		return d.Bytes(b)
	case 4:
		s, err := d.String(string(b))
		return []byte(s), err
	case 5:
		return drive(d.Transformer, r, b)
	case 7:
		return appended(d, r, b)
	case 8:
		return chained(r, b, d, transform.Nop)
	case 9:
		return chained(r, b, transform.Nop, d)
	default:
		return viaWriter(func(s io.Writer) io.Writer { return transform.NewWriter(s, d) }, r, b)
	}
}

func encVia(k int, r *Rng, b []byte, e *encoding.Encoder) ([]byte, error) {
	if e == nil {
		e = newEncoding(r).NewEncoder()
	}
	switch k {
	case 0:
		return cp949.To(b)
	case 1:
		return viaWriter(mustWriter, r, b)
	case 2:
		return e.Bytes(b)
	case 3:
		return viaWriter(e.Writer, r, b)
	case 4:
		s, err := e.String(string(b))
		return []byte(s), err
	case 5:
		return drive(e.Transformer, r, b)
	case 7:
		return appended(e, r, b)
	case 8:
		if r.IntN(2) == 0 {
			return chained(r, b, e, transform.Nop)
		}
		return chained(r, b, transform.Nop, e)
	case 9: // never unsupported: what cannot be encoded becomes a question mark
		if r.IntN(2) == 0 {
			return viaWriter(encoding.HTMLEscapeUnsupported(e).Writer, r, b)
		}
		return encoding.ReplaceUnsupported(e).Bytes(b)
	default:
		src := newSource(r, b)
		src.zeros = false
		bs := bufSizes(r, len(b))
		bs.min = max(1, bs.min)
		o, err := drain(transform.NewReader(src, e), bs, nil, 2*len(b), nil)
		if err == io.EOF {
			err = nil
		}
		return o, err
	}
}

// appended converts behind what a slice holds already.
func appended(t transform.Transformer, r *Rng, b []byte) ([]byte, error) {
	const mark = "before"
	dst := make([]byte, len(mark), len(mark)+r.IntN(2)*r.IntN(3*len(b)+10))
	copy(dst, mark)
	o, _, err := transform.Append(t, dst, b)
	if len(o) < len(mark) || string(o[:len(mark)]) != mark {
		return o, verdictErr("transform.Append changed what stood before")
	}
	return o[len(mark):], err
}

// chained converts with a chain, all at once or through a stream.
func chained(r *Rng, b []byte, t ...transform.Transformer) ([]byte, error) {
	c := transform.Chain(t...)
	switch r.IntN(3) {
	case 0:
		o, _, err := transform.Bytes(c, b)
		return o, err
	case 1:
		return viaWriter(func(s io.Writer) io.Writer { return transform.NewWriter(s, c) }, r, b)
	}
	src := newSource(r, b)
	src.zeros = false
	bs := bufSizes(r, len(b))
	bs.min = max(1, bs.min)
	o, err := drain(transform.NewReader(src, c), bs, nil, 2*len(b), nil)
	if err == io.EOF {
		err = nil
	}
	return o, err
}

func viaWriter(mk func(io.Writer) io.Writer, r *Rng, b []byte) ([]byte, error) {
	s := &sink{}
	wr := mk(s)
	var err error
	pieces(bufSizes(r, len(b)), b, func(p []byte) bool {
		n, e := wr.Write(p)
		if e == nil && n != len(p) {
			e = verdictErr(fmt.Sprintf("Write returned %d, nil for %d bytes", n, len(p)))
		}
		err = e
		return e == nil
	})
	if c, ok := wr.(io.Closer); ok && err == nil {
		err = c.Close()
	}
	return s.got, err
}

// drive calls Transform with arbitrary windows until all of b is converted.
// It only follows the contract; the monitor of C17 watches it.
func drive(t transform.Transformer, r *Rng, b []byte) ([]byte, error) {
	t.Reset()
	var out []byte
	ss := sizes{r: r, mode: 4 + r.IntN(7), min: 4}
	ds := sizes{r: r, mode: 4 + r.IntN(7), min: 4}
	pos := 0
	for i := 0; ; i++ {
		if i > len(b)+10 {
			return out, verdictErr("Transform makes no progress")
		}
		end := min(pos+ss.next(), len(b))
		eof := end == len(b)
		dst := make([]byte, min(ds.next(), 3*(end-pos)+8))
		nd, ns, err := t.Transform(dst, b[pos:end], eof)
		if nd < 0 || nd > len(dst) || ns < 0 || ns > end-pos {
			return out, verdictErr(fmt.Sprintf("Transform returned %d, %d for %d bytes to be stored in %d", nd, ns, end-pos, len(dst)))
		}
		out = append(out, dst[:nd]...)
		pos += ns
		switch {
		case err == nil && eof:
			if pos != len(b) {
				return out, verdictErr("Transform returned nil without consuming its source")
			}
			return out, nil
		case err == nil, err == transform.ErrShortDst, err == transform.ErrShortSrc && !eof:
		default:
			return out, err
		}
	}
}

// abandon uses t on a part of b and leaves it in the middle.
func abandon(t transform.Transformer, r *Rng, b []byte) {
	for k := r.IntN(4); k >= 0; k-- {
		n := r.IntN(min(len(b), 40) + 1)
		_, ns, _ := t.Transform(make([]byte, r.IntN(5)*r.IntN(5)), b[:n], r.IntN(2) == 0)
		if ns < 0 || ns > n {
			break
		}
		b = b[ns:]
	}
	t.Reset()
}

// diff describes the first difference of two texts.
func diff(got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	lo := max(0, i-8)
	return fmt.Sprintf("got %d bytes, want %d; first difference at %d: got ...%q, want ...%q", len(got), len(want), i, got[lo:min(len(got), i+16)], want[lo:min(len(want), i+16)])
}
