package main

import (
	"context"
	"fmt"
	"io"
	"io/fs"
	"os"
	"syscall"
	"unicode/utf8"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"golang.org/x/text/encoding"
	"golang.org/x/text/transform"
)

func (w *W) countSource(s *source) {
	w.add("source reads", int64(s.reads))
	w.add("empty source reads", int64(s.empty))
}

// cutsOf makes a cut function from a bit mask: bit i set cuts after byte i.
func cutsOf(mask int64, n int) func(int) int {
	return func(pos int) int {
		k := 1
		for pos+k < n && mask>>(pos+k-1)&1 == 0 {
			k++
		}
		return k
	}
}

// small enumerates texts of up to max tokens and at most lim bytes.
func small(tokens []string, max, lim int, f func(b []byte)) {
	var rec func(b []byte, k int)
	rec = func(b []byte, k int) {
		f(b)
		if k == max {
			return
		}
		for _, t := range tokens {
			if len(b)+len(t) <= lim {
				rec(append(b[:len(b):len(b)], t...), k+1)
			}
		}
	}
	rec(nil, 0)
}

func smallTexts(tokens []string, max, lim int) [][]byte {
	var o [][]byte
	small(tokens, max, lim, func(b []byte) { o = append(o, append([]byte(nil), b...)) })
	return o
}

// --- C13 -----------------------------------------------------------------------

func judgeRead(out []byte, err error, b []byte) string {
	want, cut := refDec(nil, b)
	if cut {
		return ""
	}
	if v, ok := err.(verdictErr); ok {
		return string(v)
	}
	if d := diff(out, want); d != "" {
		return fmt.Sprintf("%s (error %v)", d, err)
	}
	if err != io.EOF {
		return fmt.Sprintf("the stream ended with %v, want io.EOF", err)
	}
	return likeFrom(out, b)
}

// likeFrom compares with what From itself returns for b.
func likeFrom(out, b []byte) string {
	f, err := cp949.From(b)
	if d := diff(out, f); d != "" || err != nil {
		return fmt.Sprintf("not what From returns (error %v): %s", err, d)
	}
	return ""
}

// likeTo compares with what To itself returns for b.
func likeTo(out, b []byte) string {
	f, err := cp949.To(b)
	if d := diff(out, f); d != "" || err != nil {
		return fmt.Sprintf("not what To returns (error %v): %s", err, d)
	}
	return ""
}

func init() {
	register(&Prop{ID: "C13",
		Rule: "Streams of whole characters read through NewReader: every division of all short texts over four kinds of character with five buffer sizes, both ways of signalling io.EOF; random texts to 128 KiB (thorough 512 KiB), and long ones to 1 MiB under random source piece sizes, buffer sizes (including 0) and empty source reads; several readers used alternately; 23 kinds of source (standard, files, pipes, another reader, filled or reset later) and twelve ways of reading; calls of the library from inside the source. Non-trivial: the source returned a piece that ends inside a character, or a two-byte character was decoded with more than one Read (duplicates counted once).",
		Min:  map[string]int64{"source reads": 100000, "pieces cut inside a character": 20000, "empty source reads": 1000, "alternating readers": 500, "zero-length reads": 1000, "standard sources and ways of reading": int64(len(libSources) * len(libReads)), "calls from inside a source or sink": 1000},
		Kinds: map[string]Eval{
			"exact": func(w *W, c *Case) string { // R = cut mask, buffer size, endWith
				b := c.S[0]
				s := &source{data: b, cuts: cutsOf(c.R[0], len(b)), end: io.EOF, endWith: c.R[2] != 0}
				out, err := drain(mustReader(s), &sizes{min: int(c.R[1]), mode: 0}, nil, 32, nil)
				w.nt = len(b) > 1
				w.countSource(s)
				return judgeRead(out, err, b)
			},
			"random": func(w *W, c *Case) string { // R = seed
				r := seeded(c.R[0])
				b := c.S[0]
				s := newSource(r, b)
				at := 0 // a character boundary
				busy := r.IntN(16) == 0
				s.onRead = func() {
					at += decLen(b[at:s.pos])
					if at != s.pos {
						w.nt = true
						w.count("pieces cut inside a character")
					}
					if busy && s.reads < 50 {
						distract(w, r)
					}
				}
				bs := bufSizes(r, len(b))
				out, err := drain(mustReader(s), bs, nil, 2*len(b), nil)
				if bs.mode == 4 || bs.mode == 10 {
					w.count("zero-length reads")
				}
				w.mark("piece mode x buffer mode", fmt.Sprint(s.chunk.mode, bs.mode, s.endWith, s.zeros))
				w.countSource(s)
				return judgeRead(out, err, b)
			},
			"library": func(w *W, c *Case) string { // R = seed, kind of source, way of reading
				r := seeded(c.R[0])
				w.nt = len(c.S[0]) > 0
				w.mark("standard sources and ways of reading", libSources[c.R[1]]+" "+libReads[c.R[2]])
				rd, stop := libReader(int(c.R[1]), r, c.S[0])
				defer stop()
				out, err := libRead(int(c.R[2]), r, rd, len(c.S[0]))
				if err == nil {
					err = io.EOF
				}
				b := c.S[0]
				if libSources[c.R[1]] == "reader of the library" {
					var cut bool
					if b, cut = refDec(nil, b); cut {
						return ""
					}
				}
				return judgeRead(out, err, b)
			},
			"several": func(w *W, c *Case) string { // R = seed; one stream per text
				r := seeded(c.R[0])
				w.nt = true
				w.count("alternating readers")
				rd := make([]io.Reader, len(c.S))
				out := make([][]byte, len(c.S))
				end := make([]error, len(c.S))
				src := make([]*source, len(c.S))
				for i, b := range c.S {
					src[i] = newSource(r, b)
					rd[i] = mustReader(src[i])
				}
				buf := make([]byte, 700)
				var live []int
				for i := range c.S {
					live = append(live, i)
				}
				stalled := make([]int, len(c.S))
				for len(live) > 0 {
					at := r.IntN(len(live))
					i := live[at]
					k := r.IntN(12)
					if r.IntN(3) == 0 {
						k = r.IntN(len(buf))
					}
					n, err := rd[i].Read(buf[:k])
					if n < 0 || n > k {
						return fmt.Sprintf("Read returned %d for a buffer of %d bytes", n, k)
					}
					out[i] = append(out[i], buf[:n]...)
					if n > 0 {
						stalled[i] = 0
					} else if k > 0 {
						stalled[i]++
					}
					if stalled[i] > 1000 || len(out[i]) > 2*len(c.S[i])+16 {
						return fmt.Sprintf("stream %d of %d does not end", i, len(c.S))
					}
					if err != nil {
						end[i] = err
						live[at] = live[len(live)-1]
						live = live[:len(live)-1]
					}
				}
				for i, b := range c.S {
					w.countSource(src[i])
					if s := judgeRead(out[i], end[i], b); s != "" {
						return fmt.Sprintf("stream %d of %d: %s", i, len(c.S), s)
					}
				}
				return ""
			},
		},
		Drive: func(m *M) {
			texts := smallTexts([]string{"A", "\xb0\xa1", "\x81\x41", "\xc9\x7f"}, m.N(4, 5), 8)
			m.Par("exact", len(texts), func(w *W, i int) {
				w.dedup = false
				b := texts[i]
				for mask := int64(0); mask < 1<<max(0, len(b)-1); mask++ {
					for _, k := range []int64{1, 2, 3, 4, 64} {
						for e := int64(0); e < 2; e++ {
							if !w.Do(&Case{Kind: "exact", R: []int64{mask, k, e}, S: [][]byte{b}}) {
								return
							}
						}
					}
				}
			})
			corpora(m, "random", m.N(60000, 1500000), func(w *W) bool {
				return w.Do(&Case{Kind: "random", R: []int64{int64(w.rng.Uint32())}, S: [][]byte{cpAny(w.rng, m.N(1<<17+64, 1<<19))}})
			})
			corpora(m, "library", m.N(30000, 500000), func(w *W) bool {
				return w.Do(&Case{Kind: "library", R: []int64{int64(w.rng.Uint32()), int64(w.rng.IntN(len(libSources))), int64(w.rng.IntN(len(libReads)))}, S: [][]byte{cpAny(w.rng, m.N(1<<15, 1<<18))}})
			})
			corpora(m, "several", m.N(8000, 80000), func(w *W) bool {
				c := &Case{Kind: "several", R: []int64{int64(w.rng.Uint32())}}
				if w.rng.IntN(3) == 0 {
					c.S = family(w.rng, cpAny(w.rng, 3000), true, 2+w.rng.IntN(4))
					return w.Do(c)
				}
				for k := 2 + w.rng.IntN(4); k > 0; k-- {
					c.S = append(c.S, cpAny(w.rng, 3000))
				}
				return w.Do(c)
			})
		},
	})
}

// --- C14 -----------------------------------------------------------------------

func init() {
	register(&Prop{ID: "C14",
		Rule: "Streams read through NewReader under an online monitor in the source: at every read of the source the bytes delivered so far must be exactly the decoded complete characters supplied so far. The stream ends with io.EOF or an injected error of 22 kinds (wrapped io.EOF, temporary, timeouts, the standard library's...), alone or together with data, at every position of short texts and at random positions of long ones, inside and between characters; afterwards Read is called again. Sources that fail are also read in twelve ways of the standard library. Non-trivial: the source was consulted at least twice, or failed (duplicates counted once).",
		Min:  map[string]int64{"source reads observed": 100000, "with a dangling byte pending": 10000, "injected errors": 5000, "injected errors inside a character": 1000, "ways of reading from a source that fails": int64(len(libReads)), "kinds of errors": int64(len(injected)), "reads after the end": 10000},
		Kinds: map[string]Eval{
			"fault": c14, "exact": c14,
			"library": func(w *W, c *Case) string { // R = seed, way of reading, with data
				r := seeded(c.R[0])
				b := c.S[0]
				src := newSource(r, b)
				src.end = pick(r, []error{errSource, injected[1], io.ErrClosedPipe, os.ErrDeadlineExceeded, context.Canceled, &fs.PathError{Op: "read", Path: "x", Err: syscall.EIO}})
				src.endWith = c.R[2] != 0
				bad := ""
				src.onRead = func() {
					if src.ended {
						bad = fmt.Sprintf("the source was read again after it had returned %v", src.end)
					}
				}
				var rd io.Reader
				if r.IntN(2) == 0 {
					rd = mustReader(src)
				} else {
					rd = mustReader(&richSource{src})
				}
				w.nt = true
				w.mark("ways of reading from a source that fails", libReads[c.R[1]])
				out, err := libRead(int(c.R[1]), r, rd, len(b))
				want, _ := refDec(nil, b)
				if d := diff(out, want); d != "" {
					return fmt.Sprintf("text before the end (%v), read with %s: %s", err, libReads[c.R[1]], d)
				}
				for i := 0; ; i++ {
					if !sameErr(err, src.end) {
						return fmt.Sprintf("read with %s, the stream ended with %v, want %v", libReads[c.R[1]], err, src.end)
					}
					if bad != "" || i == 2 {
						return bad
					}
					_, err = rd.Read(make([]byte, 1+r.IntN(9)))
				}
			},
		},
		Drive: func(m *M) {
			texts := smallTexts([]string{"A", "\xb0\xa1", "\xc9\x7f"}, m.N(4, 5), 8)
			m.Par("exact", len(texts), func(w *W, i int) {
				w.dedup = false
				for _, tail := range []string{"", "\xb0", "\xff"} {
					b := append(append([]byte(nil), texts[i]...), tail...)
					for mask := int64(0); mask < 1<<max(0, len(b)-1); mask++ {
						for _, k := range []int64{1, 2, 5} {
							for e := int64(0); e < 4; e++ {
								if !w.Do(&Case{Kind: "exact", R: []int64{0, e, mask, k}, S: [][]byte{b}}) {
									return
								}
							}
						}
					}
				}
			})
			corpora(m, "library", m.N(15000, 300000), func(w *W) bool {
				b := cpAny(w.rng, m.N(1<<13, 1<<17))
				b = b[:len(b)-min(len(b), w.rng.IntN(2))]
				return w.Do(&Case{Kind: "library", R: []int64{int64(w.rng.Uint32()), int64(w.rng.IntN(len(libReads))), int64(w.rng.IntN(2))}, S: [][]byte{b}})
			})
			corpora(m, "fault", m.N(50000, 1200000), func(w *W) bool {
				b := cpAny(w.rng, m.N(1<<14, 1<<18))
				b = b[:len(b)-min(len(b), w.rng.IntN(2))]
				return w.Do(&Case{Kind: "fault", R: []int64{int64(w.rng.Uint32()), int64(w.rng.IntN(4))}, S: [][]byte{b}})
			})
		},
	})
}

// c14: R = seed, end kind (bit 0: injected error, bit 1: with data) [, mask, buffer size]
func c14(w *W, c *Case) string {
	b := c.S[0]
	r := seeded(c.R[0])
	s := newSource(r, b)
	bs := bufSizes(r, len(b))
	if len(c.R) > 2 {
		s.zeros = false
		s.cuts = cutsOf(c.R[2], len(b))
		bs = &sizes{min: int(c.R[3])}
	}
	s.end = io.EOF
	failing := c.R[1]&1 != 0
	if failing {
		s.end = errSource
		if r.IntN(2) == 0 {
			s.end = pick(r, injected)
			w.mark("kinds of errors", fmt.Sprintf("%T %v", s.end, s.end))
		}
	}
	s.endWith = c.R[1]&2 != 0
	want, cut := refDec(nil, b)
	whole := decLen(b)
	// supplied: output length of the complete characters among the first pos bytes
	at, outAt := 0, 0
	supplied := func(pos int) int {
		for at < pos {
			if b[at] < 0x80 {
				at++
				outAt++
				continue
			}
			if at+2 > pos {
				break
			}
			u := rune(cp().dec[uint16(b[at])<<8|uint16(b[at+1])])
			switch {
			case u == 0 || u >= 0x800:
				outAt += 3
			case u >= 0x80:
				outAt += 2
			default:
				outAt++
			}
			at += 2
		}
		return outAt
	}
	delivered := 0
	bad := ""
	s.onRead = func() {
		n := supplied(s.pos)
		w.count("source reads observed")
		if at < s.pos {
			w.count("with a dangling byte pending")
		}
		if s.ended && bad == "" {
			bad = fmt.Sprintf("the source was read again after it had returned %v", s.end)
		}
		if delivered != n && bad == "" {
			bad = fmt.Sprintf("the source was read when %d bytes had been delivered and %d were available (%d source bytes)", delivered, n, s.pos)
		}
	}
	rd := mustReader(s)
	if r.IntN(4) == 0 {
		rd = mustReader(&richSource{s})
		w.count("sources with optional methods")
	}
	out, err := drain(rd, bs, &delivered, len(want), nil)
	if v, ok := err.(verdictErr); ok {
		return string(v)
	}
	if bad != "" {
		return bad
	}
	w.nt = s.reads > 1 || failing
	if d := diff(out, want); d != "" {
		return fmt.Sprintf("text before the end (%v): %s", err, d)
	}
	wantErr := s.end
	if failing {
		w.count("injected errors")
		if whole < len(b) {
			w.count("injected errors inside a character")
		}
	} else if cut {
		wantErr = cp949.ErrCP949UnexpectedStream
	}
	if !sameErr(err, wantErr) {
		return fmt.Sprintf("the stream ended with %v, want %v", err, wantErr)
	}
	for i := 0; i < 3; i++ {
		p := make([]byte, 1+i*5)
		n, e := rd.Read(p)
		w.count("reads after the end")
		if n != 0 || !sameErr(e, wantErr) {
			return fmt.Sprintf("Read after the end returned %d, %v; want 0, %v", n, e, wantErr)
		}
	}
	return bad
}

// --- C15 -----------------------------------------------------------------------

// writeAll writes b in pieces and checks the sink after each.
func writeAll(w *W, wr io.Writer, s *sink, b []byte, sz *sizes, cuts func(int) int) string {
	done, judged, seen := 0, 0, 0
	for done < len(b) || (len(b) == 0 && done == 0) {
		n := 0
		if cuts != nil {
			n = cuts(done)
		} else {
			n = sz.next()
		}
		n = min(n, len(b)-done)
		if n == 0 && len(b) > 0 && w.obs["empty writes"]%3 == 2 {
			n = 1
		}
		if n == 0 {
			w.count("empty writes")
		}
		p := w.lend(b[done : done+n])
		k, err := wr.Write(p)
		scribble(p, 'Z') // the buffer is the caller's
		w.count("writes")
		if err != nil || k != n {
			return fmt.Sprintf("Write of %d bytes returned %d, %v", n, k, err)
		}
		done += n
		whole := judged + encLen(b[judged:done])
		if whole < done {
			w.count("writes that end inside a character")
			w.nt = true
		}
		w.b1 = refEnc(w.b1[:0], b[judged:whole])
		if d := diff(s.got[min(seen, len(s.got)):], w.b1); d != "" {
			return fmt.Sprintf("after %d bytes, output of the last Write: %s", done, d)
		}
		judged, seen = whole, len(s.got)
		if len(b) == 0 {
			break
		}
	}
	return likeTo(s.got, b[:judged])
}

func init() {
	register(&Prop{ID: "C15",
		Rule: "Texts written through NewWriter with the sink compared after every Write: every division of all short texts over eight kinds of character and fragment; random texts, well-formed and not, to 128 KiB (thorough 512 KiB), and long ones to 1 MiB in random pieces; several writers used alternately; 13 kinds of sink and nine ways of writing; calls of the library from inside the sink. Non-trivial: some Write ended inside a character (duplicates counted once).",
		Min:  map[string]int64{"writes": 100000, "writes that end inside a character": 20000, "alternating writers": 500, "empty writes": 500, "standard sinks and ways of writing": int64(len(libSinks) * len(libWrites)), "calls from inside a source or sink": 1000},
		Kinds: map[string]Eval{
			"exact": func(w *W, c *Case) string { // R = mask
				s := &sink{}
				return writeAll(w, mustWriter(s), s, c.S[0], nil, cutsOf(c.R[0], len(c.S[0])))
			},
			"random": func(w *W, c *Case) string {
				r := seeded(c.R[0])
				s := &sink{}
				wr := mustWriter(s)
				if r.IntN(4) == 0 {
					wr = mustWriter(&richSink{s})
					w.count("sinks with optional methods")
				}
				if r.IntN(16) == 0 {
					s.onWrite = func() {
						if s.writes < 50 {
							distract(w, r)
						}
					}
				}
				if r.IntN(8) == 0 {
					w.count("written with io.WriteString")
					wr = stringWriter{wr}
				}
				return writeAll(w, wr, s, c.S[0], bufSizes(r, len(c.S[0])), nil)
			},
			"library": func(w *W, c *Case) string { // R = seed, kind of sink, way of writing
				r := seeded(c.R[0])
				b := c.S[0]
				w.nt = len(b) > 0
				w.mark("standard sinks and ways of writing", libSinks[c.R[1]]+" "+libWrites[c.R[2]])
				wr, end := libWriter(int(c.R[1]), r)
				err := libWrite(int(c.R[2]), r, wr, b)
				got := end()
				if libSinks[c.R[1]] == "writer of the library" {
					b = refEnc(nil, b[:encLen(b)])
				}
				if err != nil {
					return fmt.Sprintf("%s to %s: %v", libWrites[c.R[2]], libSinks[c.R[1]], err)
				}
				if d := diff(got, refEnc(nil, b[:encLen(b)])); d != "" {
					return fmt.Sprintf("%s to %s: %s", libWrites[c.R[2]], libSinks[c.R[1]], d)
				}
				return likeTo(got, b[:encLen(b)])
			},
			"several": func(w *W, c *Case) string {
				r := seeded(c.R[0])
				w.nt = true
				w.count("alternating writers")
				k := len(c.S)
				wr := make([]io.Writer, k)
				sk := make([]*sink, k)
				pos := make([]int, k)
				for i := range wr {
					sk[i] = &sink{}
					wr[i] = mustWriter(sk[i])
				}
				for left := k; left > 0; {
					i := r.IntN(k)
					if pos[i] > len(c.S[i]) {
						continue
					}
					if pos[i] == len(c.S[i]) {
						pos[i]++
						left--
						continue
					}
					n := min(1+r.IntN(7), len(c.S[i])-pos[i])
					if r.IntN(4) == 0 {
						n = min(1+r.IntN(500), len(c.S[i])-pos[i])
					}
					m, err := wr[i].Write(c.S[i][pos[i] : pos[i]+n])
					w.count("writes")
					if m != n || err != nil {
						return fmt.Sprintf("Write of %d bytes returned %d, %v", n, m, err)
					}
					pos[i] += n
				}
				for i, b := range c.S {
					if d := diff(sk[i].got, refEnc(nil, b[:encLen(b)])); d != "" {
						return fmt.Sprintf("writer %d of %d: %s", i, k, d)
					}
					if d := likeTo(sk[i].got, b[:encLen(b)]); d != "" {
						return fmt.Sprintf("writer %d of %d: %s", i, k, d)
					}
				}
				return ""
			},
		},
		Drive: func(m *M) {
			texts := smallTexts([]string{"A", "é", "¡", "가", "🙂", "\xea", "\x80", "\xf0\x9f", "\xed\xa0"}, m.N(4, 5), 10)
			m.Par("exact", len(texts), func(w *W, i int) {
				w.dedup = false
				b := texts[i]
				for mask := int64(0); mask < 1<<max(0, len(b)-1); mask++ {
					if !w.Do(&Case{Kind: "exact", R: []int64{mask}, S: [][]byte{b}}) {
						return
					}
				}
			})
			corpora(m, "random", m.N(60000, 1500000), func(w *W) bool {
				return w.Do(&Case{Kind: "random", R: []int64{int64(w.rng.Uint32())}, S: [][]byte{u8Any(w.rng, m.N(1<<17+64, 1<<19))}})
			})
			corpora(m, "library", m.N(30000, 500000), func(w *W) bool {
				return w.Do(&Case{Kind: "library", R: []int64{int64(w.rng.Uint32()), int64(w.rng.IntN(len(libSinks))), int64(w.rng.IntN(len(libWrites)))}, S: [][]byte{u8Any(w.rng, m.N(1<<15, 1<<18))}})
			})
			corpora(m, "several", m.N(8000, 80000), func(w *W) bool {
				c := &Case{Kind: "several", R: []int64{int64(w.rng.Uint32())}}
				if w.rng.IntN(3) == 0 {
					c.S = family(w.rng, u8Any(w.rng, 3000), false, 2+w.rng.IntN(4))
					return w.Do(c)
				}
				for k := 2 + w.rng.IntN(4); k > 0; k-- {
					c.S = append(c.S, u8Any(w.rng, 3000))
				}
				return w.Do(c)
			})
		},
	})
}

// --- C16 -----------------------------------------------------------------------

// c16: R = seed, mode (0: failing calls take nothing, 1: they take a part), [mask, failing calls mask]
func c16(w *W, c *Case) string {
	b := c.S[0]
	r := seeded(c.R[0])
	s := &sink{err: errSink}
	if r.IntN(2) == 0 {
		s.err = pick(r, injected)
		w.mark("kinds of errors", fmt.Sprintf("%T %v", s.err, s.err))
	}
	rate := 1 + r.IntN(6)
	row := 0
	s.fail = func(call int) (bool, int) {
		f := r.IntN(rate) == 0
		if len(c.R) > 2 {
			f = call <= 62 && c.R[3]>>(call-1)&1 != 0
		}
		if f {
			row++
		} else {
			row = 0
		}
		if row > 4 {
			row, f = 0, false
		}
		k := 0
		if c.R[1] == 1 {
			k = r.IntN(6)
			if r.IntN(4) == 0 {
				k = takeAll
			}
		}
		return f, k
	}
	wr := mustWriter(s)
	if r.IntN(4) == 0 {
		wr = mustWriter(&richSink{s})
		w.count("sinks with optional methods")
	}
	switch r.IntN(5) { // by other methods, if it has them
	case 0:
		wr = stringWriter{wr}
	case 1:
		wr = byteWriter{wr}
	}
	sz := bufSizes(r, len(b))
	done, judged, seen, empties := 0, 0, 0, 0
	// The sink may be ahead of what was reported until the whole of a failed
	// argument has been written again: its bytes may have shown a character
	// begun earlier to be malformed.
	until := 0
	loose := false // the output is no longer judged, only what Write returns
	for done < len(b) {
		n := 0
		if len(c.R) > 2 {
			n = cutsOf(c.R[2], len(b))(done)
		} else {
			n = sz.next()
		}
		n = min(n, len(b)-done)
		if n == 0 {
			if empties++; empties > 2 {
				n = 1
			}
		}
		p := b[done : done+n : done+n]
		for try := 0; ; try++ {
			if try > 50 {
				return "Write still fails although the sink works again"
			}
			fails, torn := s.fails, s.torn
			l := w.lend(p)
			k, err := wr.Write(l)
			scribble(l, 'Z')
			w.count("writes")
			if k < 0 || k > len(p) {
				return fmt.Sprintf("Write of %d bytes returned %d, %v", len(p), k, err)
			}
			if s.fails == fails {
				if err != nil || k != len(p) {
					return fmt.Sprintf("Write of %d bytes returned %d, %v although the sink did not fail", len(p), k, err)
				}
				done += k
				break
			}
			w.count("failed writes")
			w.nt = true
			if !sameErr(err, s.err) {
				return fmt.Sprintf("Write returned %d, %v when the sink failed with %v", k, err, s.err)
			}
			if k >= len(p) && len(p) > 0 {
				return fmt.Sprintf("Write of %d bytes returned %d with the sink's error", len(p), k)
			}
			if s.torn != torn && !loose {
				loose = true // part of the output was taken: what a retry means is not specified
				w.count("part of the output taken")
			}
			if judged < done {
				w.count("failed writes with a character pending")
			}
			if k > 0 { // progress
				try = 0
			}
			until = max(until, done+len(p))
			done += k
			p = p[k:]
			if len(c.R) == 2 && len(p) > 0 && r.IntN(4) == 0 { // retry in pieces
				p = p[:r.IntN(len(p)+1)]
			}
		}
		if loose || done < until {
			continue
		}
		whole := judged + encLen(b[judged:done])
		w.b1 = refEnc(w.b1[:0], b[judged:whole])
		if d := diff(s.got[min(seen, len(s.got)):], w.b1); d != "" {
			return fmt.Sprintf("after %d bytes and %d failures: %s", done, s.fails, d)
		}
		judged, seen = whole, len(s.got)
	}
	return ""
}

func init() {
	register(&Prop{ID: "C16",
		Rule:  "Texts written through NewWriter to a sink that fails at chosen calls, taking nothing, a part or everything, with errors of 22 kinds; a failed Write is retried with its unreported rest and the sink compared after every successful Write. Every division of short texts with every set of failing calls among the first six; random texts, divisions and failures. Non-trivial: the sink failed (duplicates counted once).",
		Min:   map[string]int64{"failed writes": 20000, "failed writes with a character pending": 2000, "kinds of errors": int64(len(injected))},
		Kinds: map[string]Eval{"exact": c16, "random": c16},
		Drive: func(m *M) {
			texts := smallTexts([]string{"A", "é", "가", "🙂", "\xea"}, 3, m.N(7, 9))
			m.Par("exact", len(texts), func(w *W, i int) {
				w.dedup = false
				b := texts[i]
				for mask := int64(0); mask < 1<<max(0, len(b)-1); mask++ {
					for f := int64(0); f < 64; f++ {
						if !w.Do(&Case{Kind: "exact", R: []int64{0, 0, mask, f}, S: [][]byte{b}}) {
							return
						}
					}
				}
			})
			corpora(m, "random", m.N(150000, 1200000), func(w *W) bool {
				return w.Do(&Case{Kind: "random", R: []int64{int64(w.rng.Uint32()), int64(w.rng.IntN(4) / 3)}, S: [][]byte{u8Any(w.rng, m.N(1<<13, 1<<16))}})
			})
		},
	})
}

// --- C17 -----------------------------------------------------------------------

// encBoundary reports whether n is a character boundary of b.
func encBoundary(b []byte, n int) bool {
	i := 0
	for i < n {
		_, n := utf8.DecodeRune(b[i:])
		i += n
	}
	return i == n
}

// step calls Transform once and judges it. pos is a character boundary.
func step(w *W, t transform.Transformer, dec bool, dst, src []byte, eof bool) (nd, ns int, err error, bad string) {
	full := dst[:cap(dst)]
	scribble(full, 0xA5)
	nd, ns, err = t.Transform(dst, src, eof)
	w.count("Transform calls")
	if nd < 0 || nd > len(dst) || ns < 0 || ns > len(src) {
		return nd, ns, err, fmt.Sprintf("Transform(dst %d, src %d, %v) returned %d, %d, %v", len(dst), len(src), eof, nd, ns, err)
	}
	for i := nd; i < len(full); i++ {
		if full[i] != 0xA5 {
			return nd, ns, err, fmt.Sprintf("Transform(dst %d, src %d, %v) returned %d, %d, %v but wrote dst[%d]", len(dst), len(src), eof, nd, ns, err, i)
		}
	}
	rest := src[ns:]
	if dec {
		var cut bool
		w.b1, cut = refDec(w.b1[:0], src[:ns])
		if cut {
			return nd, ns, err, fmt.Sprintf("Transform consumed half a character: %d of %q", ns, src)
		}
	} else {
		if !encBoundary(src, ns) || !eof && ns > encLen(src) {
			return nd, ns, err, fmt.Sprintf("Transform consumed part of a character: %d of %q", ns, src)
		}
		w.b1 = refEnc(w.b1[:0], src[:ns])
	}
	if d := diff(dst[:nd], w.b1); d != "" {
		return nd, ns, err, fmt.Sprintf("Transform(dst %d, src %d, %v) returned %d, %d, %v: %s", len(dst), len(src), eof, nd, ns, err, d)
	}
	desc := func(s string) string {
		return fmt.Sprintf("Transform(dst %d, src %q, %v) returned %d, %d, %v: %s", len(dst), clip(src), eof, nd, ns, err, s)
	}
	switch err {
	case nil:
		w.count("complete")
		if len(rest) != 0 {
			return nd, ns, err, desc("source left over without an error")
		}
	case transform.ErrShortDst:
		w.count("ErrShortDst")
		w.nt = true
		if len(rest) == 0 {
			return nd, ns, err, desc("nothing was left to store")
		}
		if len(dst)-nd >= 4 {
			return nd, ns, err, desc("there was room for any character")
		}
		if n := firstLen(rest, dec, eof); n > 0 {
			if dec {
				w.b1, _ = refDec(w.b1[:0], rest[:n])
			} else {
				w.b1 = refEnc(w.b1[:0], rest[:n])
			}
			if len(w.b1) <= len(dst)-nd {
				return nd, ns, err, desc("the next character would have fitted")
			}
		}
	case transform.ErrShortSrc:
		w.count("ErrShortSrc")
		w.nt = true
		if eof {
			return nd, ns, err, desc("at the end of input")
		}
		whole := 0
		if dec {
			whole = decLen(rest)
		} else {
			whole = encLen(rest)
		}
		if len(rest) == 0 || whole != 0 {
			return nd, ns, err, desc("the next character was complete")
		}
	case cp949.ErrCP949UnexpectedStream:
		w.count("truncated texts")
		if !dec || !eof || len(rest) != 1 || rest[0] < 0x80 {
			return nd, ns, err, desc("no truncated character there")
		}
	default:
		return nd, ns, err, desc("unexpected error")
	}
	return nd, ns, err, ""
}

// firstLen returns the length of the first character of b, or 0 if it is
// incomplete.
func firstLen(b []byte, dec, eof bool) int {
	if dec {
		if len(b) > 0 && b[0] < 0x80 {
			return 1
		} else if len(b) > 1 {
			return 2
		}
		return 0
	}
	if !eof && !utf8.FullRune(b) {
		return 0
	}
	_, n := utf8.DecodeRune(b)
	return n
}

type duo struct {
	d *encoding.Decoder
	e *encoding.Encoder
}

func init() {
	direct := func(w *W, c *Case) string { // R = seed, 1 for decoder [, source window, destination size]
		b := c.S[0]
		r := seeded(c.R[0])
		dec := c.R[1] == 1
		enc := newEncoding(r)
		var t transform.Transformer = enc.NewEncoder()
		if dec {
			t = enc.NewDecoder()
		}
		t.Reset()
		if len(c.R) == 2 && r.IntN(4) == 0 {
			abandon(t, r, relative(r, b, dec))
			w.count("instances abandoned in the middle of a text")
		}
		ss := sizes{r: r, mode: r.IntN(nSizeModes)}
		ds := sizes{r: r, mode: r.IntN(nSizeModes)}
		late := r.IntN(2) == 0 // learn about the end of input only afterwards
		if len(c.R) > 2 {
			ss = sizes{min: int(c.R[2])}
			ds = sizes{min: int(c.R[3])}
			late = c.R[0] != 0
		}
		pos, win, calls := 0, 0, 0
		var out []byte
		dsz := ds.next()
		for {
			if win == 0 {
				win = ss.next()
			}
			end := min(pos+win, len(b))
			eof := end == len(b) && !late
			dsz = min(dsz, 3*(end-pos)+64)
			dst := make([]byte, dsz, dsz+canary)
			nd, ns, err, bad := step(w, t, dec, dst, b[pos:end:end], eof)
			if bad != "" {
				return bad
			}
			out = append(out, dst[:nd]...)
			pos += ns
			if calls++; calls > 20*len(b)+200 {
				return "Transform makes no progress"
			}
			switch {
			case err == nil && eof && dec:
				return likeFrom(out, b)
			case err == nil && eof:
				return likeTo(out, b)
			case err == nil || err == transform.ErrShortSrc:
				win, dsz = 0, ds.next()
				if end == len(b) {
					late = false
				}
				if err != nil {
					win = max(4, ss.next())
				}
			case err == transform.ErrShortDst:
				win = max(end-pos, 1)
				dsz = ds.next()
				if ns == 0 {
					dsz = max(dsz, 4)
				}
			default:
				return ""
			}
		}
	}
	high := func(w *W, c *Case) string { // R = seed, 1 for decoder, entry point, reuse
		b := c.S[0]
		r := seeded(c.R[0])
		k := int(c.R[2])
		x := &duo{newEncoding(r).NewDecoder(), newEncoding(r).NewEncoder()}
		if c.R[3] != 0 { // an instance with a past, possibly a failed one
			for _, p := range c.S[1:] {
				decVia(2+r.IntN(nVia-2), r, p, x.d)
				encVia(2+r.IntN(nVia-2), r, p, x.e)
				if r.IntN(2) == 0 {
					abandon(x.d, r, p)
					abandon(x.e, r, p)
					w.count("instances abandoned in the middle of a text")
				}
			}
			w.count("reused instances")
		}
		w.nt = len(b) > 0
		if len(b) > 4096 {
			w.count("texts longer than x/text's buffers")
		}
		if c.R[1] == 1 {
			want, cut := refDec(nil, b)
			got, err := decVia(k, r, b, x.d)
			w.mark("entry points", viaDecName[k])
			if cut {
				if err != cp949.ErrCP949UnexpectedStream {
					return fmt.Sprintf("%s: error %v for a truncated text", viaDecName[k], err)
				}
				return ""
			}
			if err != nil {
				return fmt.Sprintf("%s: %v", viaDecName[k], err)
			}
			d := diff(got, want)
			if d == "" {
				d = likeFrom(got, b)
			}
			if d != "" {
				return fmt.Sprintf("%s: %s", viaDecName[k], d)
			}
			return ""
		}
		got, err := encVia(k, r, b, x.e)
		w.mark("entry points", viaEncName[k])
		if err != nil {
			return fmt.Sprintf("%s: %v", viaEncName[k], err)
		}
		d := diff(got, refEnc(nil, b))
		if d == "" {
			d = likeTo(got, b)
		}
		if d != "" {
			return fmt.Sprintf("%s: %s", viaEncName[k], d)
		}
		return ""
	}
	register(&Prop{ID: "C17",
		Rule:  "Transform of the decoder's and encoder's transformer called with every source window 1-4 and destination size 0-9 on short texts and with random ones on long texts, each call judged against the transformer contract; and every x/text entry point on random texts to 128 KiB (thorough 512 KiB), and long ones to 1 MiB with fresh and reused instances, among them instances left in the middle of a text and then Reset. Non-trivial: a call ran out of source or destination, or an entry point converted a non-empty text (duplicates counted once).",
		Min:   map[string]int64{"Transform calls": 100000, "ErrShortDst": 20000, "ErrShortSrc": 10000, "truncated texts": 1000, "entry points": 2 * (nVia - 2), "texts longer than x/text's buffers": 300, "reused instances": 3000, "instances abandoned in the middle of a text": 3000},
		Kinds: map[string]Eval{"direct": direct, "exact": direct, "high": high},
		Drive: func(m *M) {
			dt := smallTexts([]string{"A", "\xb0\xa1", "\xa1\xad", "\xa2\xae", "\xc9\x7f", "\x80"}, m.N(3, 4), 8)
			et := smallTexts([]string{"A", "é", "¡", "가", "🙂", "\xea", "\x80", "\xf0\x9f"}, m.N(3, 4), 8)
			m.Par("exact", len(dt)+len(et), func(w *W, i int) {
				w.dedup = false
				c := &Case{Kind: "exact", R: []int64{0, 1, 0, 0}}
				if i < len(dt) {
					c.S = [][]byte{dt[i]}
				} else {
					c.R[1] = 0
					c.S = [][]byte{et[i-len(dt)]}
				}
				for c.R[2] = 1; c.R[2] <= 4; c.R[2]++ {
					for c.R[3] = 0; c.R[3] < 10; c.R[3]++ {
						for c.R[0] = 0; c.R[0] < 2; c.R[0]++ {
							if !w.Do(c.clone()) {
								return
							}
						}
					}
				}
			})
			text := func(w *W, dec bool, max int) []byte {
				if !dec {
					return u8Any(w.rng, max)
				}
				b := cpAny(w.rng, max)
				if len(b) > 0 && w.rng.IntN(8) == 0 {
					b = b[:len(b)-1]
				}
				return b
			}
			corpora(m, "direct", m.N(40000, 1000000), func(w *W) bool {
				d := w.rng.IntN(2)
				return w.Do(&Case{Kind: "direct", R: []int64{int64(w.rng.Uint32()), int64(d)}, S: [][]byte{text(w, d == 1, m.N(1<<12, 1<<15))}})
			})
			corpora(m, "high", m.N(40000, 1000000), func(w *W) bool {
				d := w.rng.IntN(2)
				c := &Case{Kind: "high", R: []int64{int64(w.rng.Uint32()), int64(d), int64(2 + w.rng.IntN(nVia-2)), int64(w.rng.IntN(4) / 3)}, S: [][]byte{text(w, d == 1, m.N(1<<17+64, 1<<19))}}
				if c.R[3] != 0 {
					for k := w.rng.IntN(3); k >= 0; k-- {
						if w.rng.IntN(3) == 0 && len(c.S[0]) < 10000 {
							c.S = append(c.S, relative(w.rng, c.S[0], d == 1))
							continue
						}
						c.S = append(c.S, text(w, w.rng.IntN(2) == 0, 300))
					}
				}
				return w.Do(c)
			})
		},
	})
}
