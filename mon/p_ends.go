package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/suapapa/go_hangul/encoding/cp949"
)

// C21: a source or sink belongs to the caller too. A stream reads from the one
// and writes to the other and does nothing else to them, neither when they fail
// or end nor when the stream itself has become garbage.

// meddle records calls that do something else.
type meddle struct {
	what atomic.Pointer[string]
	at   func() int64
}

func (m *meddle) note(s string)                   { m.what.CompareAndSwap(nil, &s) }
func (m *meddle) Close() error                    { m.note("closed"); return nil }
func (m *meddle) CloseRead() error                { m.note("closed"); return nil }
func (m *meddle) CloseWrite() error               { m.note("closed"); return nil }
func (m *meddle) CloseWithError(error) error      { m.note("closed"); return nil }
func (m *meddle) Truncate(int64) error            { m.note("truncated"); return nil }
func (m *meddle) Reset()                          { m.note("reset"); return }
func (m *meddle) SetDeadline(time.Time) error     { m.note("given a deadline"); return nil }
func (m *meddle) SetReadDeadline(time.Time) error { m.note("given a deadline"); return nil }
func (m *meddle) SetWriteDeadline(time.Time) error {
	m.note("given a deadline")
	return nil
}
func (m *meddle) Seek(off int64, whence int) (int64, error) {
	if off != 0 || whence != io.SeekCurrent {
		m.note("moved")
	}
	return m.at(), nil
}

func (m *meddle) verdict() string {
	if p := m.what.Load(); p != nil {
		return *p
	}
	return ""
}

type endSource struct {
	*source
	meddle
	late atomic.Bool // nobody reads any more
}

type endSink struct {
	*sink
	meddle
	late atomic.Bool // nobody writes any more
}

func (s *endSink) Write(p []byte) (int, error) {
	if s.late.Load() {
		s.note("written to")
		return 0, errSink
	}
	return s.sink.Write(p)
}

func (s *endSource) Read(p []byte) (int, error) {
	if s.late.Load() {
		s.note("read")
		return 0, errSource
	}
	return s.source.Read(p)
}

// gone holds the sources and sinks of streams that are garbage by now.
var gone struct {
	sync.Mutex
	list []*meddle
}

// collected lets finalizers run and looks at what they have done.
func collected(w *W) string {
	for i := 0; i < 3; i++ {
		runtime.GC()
		time.Sleep(time.Millisecond)
	}
	gone.Lock()
	defer gone.Unlock()
	for _, m := range gone.list {
		w.count("ends looked at after a collection")
		if s := m.verdict(); s != "" {
			return "after its stream became garbage, a source or sink was " + s
		}
	}
	gone.list = gone.list[:0]
	return ""
}

func letGo(m *meddle) {
	gone.Lock()
	if len(gone.list) < 100000 {
		gone.list = append(gone.list, m)
	}
	gone.Unlock()
}

// c21Ends: R = seed, 0 for a reader, 1 for a writer, 2 for a reader of a type of
// the standard library; 1 for the adapter's.
func c21Ends(w *W, c *Case) string {
	r := seeded(c.R[0])
	b := c.S[0]
	adapter := c.R[2] == 1
	w.nt = true
	reader := func(src io.Reader) io.Reader {
		if adapter {
			return cp949.NewCP949Encoding().NewDecoder().Reader(src)
		}
		return mustReader(src)
	}
	switch c.R[1] {
	case 0:
		s := &endSource{source: newSource(r, b)}
		s.at = func() int64 { return int64(s.pos) }
		s.zeros = s.zeros && !adapter
		if r.IntN(2) == 0 {
			s.end = pick(r, injected)
		}
		rd := reader(s)
		buf := make([]byte, 1+r.IntN(1+r.IntN(5000)))
		limit := len(b) + 300
		if r.IntN(4) == 0 {
			limit = r.IntN(20)
		}
		after := r.IntN(3)
		for i := 0; i < limit; i++ {
			if _, err := rd.Read(buf); err != nil {
				if after--; after < 0 {
					break
				}
			}
		}
		w.count("sources that can be closed")
		if v := s.verdict(); v != "" {
			return fmt.Sprintf("the source (which ends with %v) was %s", s.end, v)
		}
		s.late.Store(true)
		letGo(&s.meddle)
	case 1:
		s := &endSink{sink: &sink{}}
		s.at = func() int64 { return int64(len(s.got)) }
		s.err = pick(r, injected)
		often := 1 + r.IntN(5)
		s.fail = func(int) (bool, int) { return r.IntN(often+1) == 0, pick(r, []int{0, 0, 1, 1000, takeAll}) }
		var wr io.Writer
		if adapter {
			wr = cp949.NewCP949Encoding().NewEncoder().Writer(s)
		} else {
			wr = mustWriter(s)
		}
		pieces(bufSizes(r, len(b)), b, func(p []byte) bool {
			_, err := wr.Write(p)
			return err == nil || r.IntN(3) > 0
		})
		if cl, ok := wr.(io.Closer); ok && r.IntN(2) == 0 {
			cl.Close()
		}
		w.count("sinks that can be closed")
		if v := s.verdict(); v != "" {
			return fmt.Sprintf("the sink (which fails with %v) was %s", s.err, v)
		}
		s.late.Store(true)
		letGo(&s.meddle)
	case 2:
		var src io.Reader
		var check func() string
		left := func(n int) string {
			if n != 0 {
				return fmt.Sprintf("%d bytes of the source have not been read", n)
			}
			return ""
		}
		again := func(s io.ReadSeeker) string {
			if at, err := s.Seek(0, io.SeekCurrent); at != int64(len(b)) || err != nil {
				return fmt.Sprintf("the source (%T) of %d bytes stands at %d, %v", s, len(b), at, err)
			}
			s.Seek(0, io.SeekStart)
			if all, err := io.ReadAll(s); err != nil || !bytes.Equal(all, b) {
				return fmt.Sprintf("the source (%T) of %d bytes, read again: %d bytes, %v", s, len(b), len(all), err)
			}
			return ""
		}
		own := append([]byte(nil), b...)
		switch r.IntN(6) {
		case 0:
			s := bytes.NewReader(own)
			src, check = s, func() string { return again(s) }
		case 1:
			s := strings.NewReader(string(own))
			src, check = s, func() string { return again(s) }
		case 2:
			s := io.NewSectionReader(bytes.NewReader(own), 0, int64(len(own)))
			src, check = s, func() string { return again(s) }
		case 3:
			s := bytes.NewBuffer(own)
			src, check = s, func() string { return left(s.Len()) }
		case 4:
			s := bufio.NewReader(bytes.NewReader(own))
			src, check = s, func() string { return left(s.Buffered()) }
		case 5:
			f := memFile()
			f.Write(own)
			f.Seek(0, io.SeekStart)
			defer f.Close()
			src, check = f, func() string {
				if s := again(f); s != "" {
					return s
				}
				if _, err := f.Write([]byte("x")); err != nil {
					return fmt.Sprintf("the source cannot be used any more: %v", err)
				}
				return ""
			}
		}
		io.Copy(io.Discard, onlyReader{reader(src)})
		w.count("sources looked at when read")
		return check()
	}
	return ""
}

func c21Collect(w *W, c *Case) string {
	w.nt = true
	return collected(w)
}

func driveEnds(m *M) {
	corpora(m, "ends", m.N(16000, 300000), func(w *W) bool {
		var b []byte
		k := int64(w.rng.IntN(3))
		if k == 1 {
			b = u8Any(w.rng, 2000)
		} else {
			b = cpAny(w.rng, 2000)
			b = b[:len(b)-min(len(b), w.rng.IntN(2))]
		}
		return w.Do(&Case{Kind: "ends", R: []int64{int64(w.rng.Uint32()), k, int64(w.rng.IntN(3) / 2)}, S: [][]byte{b}})
	})
	m.Seq("collect", func(w *W) { w.Do(&Case{Kind: "collect"}) })
}
