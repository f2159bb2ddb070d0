package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"runtime/debug"
	"syscall"
	"unicode/utf8"
	"unsafe"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/transform"
)

// C21. Arguments lie in memory that is read-only while the code under test
// runs, so that any store to them, even one that is undone before the function
// returns, faults at once. After the call the memory is made writable and
// overwritten. Results are kept, with copies, and compared again later.

// arenaSize is 64 MiB, or 4 MiB in a 32-bit process.
const arenaSize = 1 << 26 >> (4 * (^uint(0)>>63 ^ 1))

// arena is memory mapped twice: writable for the monitor, read-only for the
// code under test.
type arena struct {
	m, ro []byte
}

// sysMemfd is the number of memfd_create.
var sysMemfd = func() uintptr {
	if runtime.GOARCH == "386" {
		return 356
	}
	return 319
}()

func newArena() *arena {
	name := []byte("arena\x00")
	fd, _, e := syscall.Syscall(sysMemfd, uintptr(unsafe.Pointer(&name[0])), 1, 0)
	if e != 0 {
		panic(harnessBug("memfd_create: " + e.Error()))
	}
	defer syscall.Close(int(fd))
	if err := syscall.Ftruncate(int(fd), arenaSize); err != nil {
		panic(harnessBug("ftruncate: " + err.Error()))
	}
	m, err := syscall.Mmap(int(fd), 0, arenaSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(harnessBug("mmap: " + err.Error()))
	}
	ro, err := syscall.Mmap(int(fd), 0, arenaSize, syscall.PROT_READ, syscall.MAP_SHARED)
	if err != nil {
		panic(harnessBug("mmap: " + err.Error()))
	}
	return &arena{m, ro}
}

const tailLen = 32

// put stores b and returns it as a slice of read-only memory whose capacity
// extends beyond it.
func (a *arena) put(b []byte, cut bool) []byte {
	n := len(b) + tailLen
	copy(a.m, b)
	scribble(a.m[len(b):n], 'T')
	if cut {
		return a.ro[:len(b):len(b)]
	}
	return a.ro[:len(b):n]
}

// spoil overwrites what put stored: the argument belongs to the caller again.
func (a *arena) spoil(n int, v byte) { scribble(a.m[:n+tailLen], v) }

func (a *arena) inside(b []byte) bool {
	if cap(b) == 0 {
		return false
	}
	p := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	lo := uintptr(unsafe.Pointer(unsafe.SliceData(a.ro)))
	return lo <= p && p < lo+arenaSize
}

func (a *arena) str(b []byte) string {
	s := a.put(b, true)
	return unsafe.String(unsafe.SliceData(s), len(s))
}

type kept struct {
	b, copy []byte
	r, rc   []rune
	s, sc   string
	what    string
}

// owner is the per-worker state of C21.
type owner struct {
	a    [3]*arena
	ring []kept
	next int
}

var owners = map[*W]*owner{}

func (w *W) owner() *owner {
	w.m.mu.Lock()
	defer w.m.mu.Unlock()
	o := owners[w]
	if o == nil {
		o = &owner{a: [3]*arena{newArena(), newArena(), newArena()}}
		owners[w] = o
		debug.SetPanicOnFault(true)
	}
	return o
}

func (o *owner) keep(k kept) {
	if k.b != nil {
		k.copy = append([]byte(nil), k.b...)
	}
	k.rc = append([]rune(nil), k.r...)
	k.sc = string([]byte(k.s))
	if len(o.ring) < 24 {
		o.ring = append(o.ring, k)
		return
	}
	o.ring[o.next%24] = k
	o.next++
}

func (o *owner) recheck(w *W) string {
	for i := range o.ring {
		k := &o.ring[i]
		w.count("earlier results compared again")
		if !bytes.Equal(k.b, k.copy) {
			return fmt.Sprintf("an earlier result of %s changed: %s", k.what, diff(k.b, k.copy))
		}
		for j := range k.r {
			if k.r[j] != k.rc[j] {
				return fmt.Sprintf("an earlier result of %s changed: %#x, was %#x", k.what, k.r, k.rc)
			}
		}
		if k.s != k.sc {
			return fmt.Sprintf("an earlier result of %s changed: %s", k.what, diff([]byte(k.s), []byte(k.sc)))
		}
	}
	return ""
}

func refConv(dec bool, b []byte) []byte {
	if dec {
		o, _ := refDec(nil, b)
		return o
	}
	return refEnc(nil, b)
}

// c21Bytes: From, To, Decoder.Bytes, Encoder.Bytes. R = function, seed.
func c21Bytes(w *W, c *Case) string {
	o := w.owner()
	r := seeded(c.R[1])
	dec := c.R[0]&1 == 0
	call := func(b []byte) ([]byte, error) {
		switch c.R[0] {
		case 0:
			return cp949.From(b)
		case 1:
			return cp949.To(b)
		case 2:
			return cp949.NewCP949Encoding().NewDecoder().Bytes(b)
		default:
			return cp949.NewCP949Encoding().NewEncoder().Bytes(b)
		}
	}
	what := []string{"From", "To", "Decoder.Bytes", "Encoder.Bytes"}[c.R[0]]
	if len(c.S[0]) > arenaSize-tailLen {
		return ""
	}
	w.nt = len(c.S[0]) > 0
	in := o.a[0].put(c.S[0], r.IntN(3) == 0)
	out, err := call(in)
	w.count("calls with read-only arguments")
	if !bytes.Equal(o.a[0].m[:len(c.S[0])], c.S[0]) {
		return what + " modified its argument"
	}
	cut := false
	if dec {
		_, cut = refDec(nil, c.S[0])
	}
	if cut != (err != nil) {
		return fmt.Sprintf("%s: error %v", what, err)
	}
	if o.a[0].inside(out) {
		return what + " returned its argument's memory"
	}
	was := append([]byte(nil), out...)
	o.a[0].spoil(len(c.S[0]), byte(r.IntN(256)))
	if !bytes.Equal(out, was) {
		return what + ": overwriting the argument changed the result"
	}
	if err == nil {
		if d := diff(out, refConv(dec, c.S[0])); d != "" {
			return fmt.Sprintf("%s: %s", what, d)
		}
	}
	if len(c.S[0]) > 0 && r.IntN(3) == 0 { // the same memory, holding something else
		b := relative(r, c.S[0], dec)
		for k := 0; len(b) != len(c.S[0]) && k < 10; k++ {
			b = relative(r, c.S[0], dec)
		}
		_, cut := refDec(nil, b)
		out, err := call(o.a[0].put(b, r.IntN(3) == 0))
		w.count("buffers used again at once")
		if dec && cut != (err != nil) {
			return fmt.Sprintf("%s on a buffer used before: error %v", what, err)
		}
		if err == nil {
			if d := diff(out, refConv(dec, b)); d != "" {
				return fmt.Sprintf("%s on a buffer used before: %s", what, d)
			}
		}
		o.a[0].spoil(len(b), byte(r.IntN(256)))
	}
	if s := o.recheck(w); s != "" {
		return s + " (after " + what + ")"
	}
	switch r.IntN(3) {
	case 0: // the result is the caller's: overwrite and extend it
		scribble(out[:cap(out)], 0xDB)
		_ = append(out, "extended"...)
		w.count("results overwritten")
	case 1:
		_ = append(out, "extended"...)
		o.keep(kept{b: out, what: what})
	default:
		o.keep(kept{b: out[:len(out):cap(out)], what: what})
	}
	if s := o.recheck(w); s != "" {
		return s + " (after overwriting a result of " + what + ")"
	}
	return ""
}

// c21Strings: functions of strings and runes.
func c21Strings(w *W, c *Case) string {
	o := w.owner()
	w.nt = true
	for i := 0; i < 3 && i < len(c.S); i++ {
		if len(c.S[i]) > arenaSize-tailLen {
			return ""
		}
	}
	w.count("calls with read-only arguments")
	what := ""
	switch c.R[0] {
	case 0:
		what = "Convert"
		s := hanja.Convert(o.a[0].str(c.S[0]))
		o.keep(kept{s: s + "", what: what})
		if o.a[0].inside(unsafe.Slice(unsafe.StringData(s), len(s))) { // returning a string argument is fine
			o.ring[len(o.ring)-1].s, o.ring[len(o.ring)-1].sc = "", ""
			if len(o.ring) == 24 {
				o.ring = nil
			}
		}
	case 1:
		what = "LastConsonant"
		s := o.a[0].str(c.S[0])
		hangul.LastConsonant(s)
		hangul.EndsWithConsonant(s)
	case 2:
		what = "AppendPostposition"
		s := hangul.AppendPostposition(o.a[0].str(c.S[0]), o.a[1].str(c.S[1]), o.a[2].str(c.S[2]))
		// without a postposition to append this may be the word itself
		o.keep(kept{s: string([]byte(s)), what: what})
	case 3:
		what = "SplitMultiElement"
		for _, v := range c.R[1:] {
			r := rune(int32(v))
			es, ok := hangul.SplitMultiElement(r)
			var want []rune
			if l := jamo().letterOf(r); l != nil && len(l.parts) > 1 {
				want = l.parts
			}
			if ok != (want != nil) || string(es) != string(want) {
				return fmt.Sprintf("SplitMultiElement(%#x) = %#x, want %#x", r, es, want)
			}
			if ok && v&1 == 0 {
				es = es[:cap(es)]
				for i := range es {
					es[i] = 'Q'
				}
				w.count("results overwritten")
			} else if ok {
				_ = append(es, 'Q')
				o.keep(kept{r: es, what: what})
			}
		}
	}
	for i, b := range c.S {
		if i < 3 && !bytes.Equal(o.a[i].m[:len(b)], b) {
			return what + " modified its argument"
		}
	}
	if s := o.recheck(w); s != "" {
		return s + " (after " + what + ")"
	}
	return ""
}

// c21Writer: each Write's argument is read-only during the call and
// overwritten after it. R = seed, 1 to let the sink fail sometimes, 1 for the
// adapter's writer.
func c21Writer(w *W, c *Case) string {
	o := w.owner()
	r := seeded(c.R[0])
	b := c.S[0]
	s := &sink{}
	if c.R[1] == 1 {
		s.fail = func(int) (bool, int) { return r.IntN(4) == 0, 0 }
	}
	wr := mustWriter(s)
	adapter := c.R[2] == 1
	if adapter {
		s.fail = nil
		wr = cp949.NewCP949Encoding().NewEncoder().Writer(s)
	}
	sz := bufSizes(r, len(b))
	w.nt = len(b) > 0
	seen := append([]byte(nil), s.got...)
	for done := 0; done < len(b); {
		n := min(sz.next(), len(b)-done, 1<<16)
		if n == 0 && r.IntN(2) == 0 {
			n = 1
		}
		p := b[done : done+n]
		for try := 0; ; try++ {
			in := o.a[try&1].put(p, r.IntN(2) == 0)
			k, err := wr.Write(in)
			w.count("writes with read-only arguments")
			if !bytes.Equal(o.a[try&1].m[:len(p)], p) {
				return "Write modified its argument"
			}
			o.a[try&1].spoil(len(p), byte(r.IntN(256)))
			if k < 0 || k > len(p) {
				return fmt.Sprintf("Write of %d bytes returned %d", len(p), k)
			}
			if k > 0 { // progress
				try = 0
			}
			done += k
			p = p[k:]
			if err == nil {
				break
			}
			if err != errSink || try > 50 {
				return fmt.Sprintf("Write: unexpected error %v", err)
			}
		}
		if len(b) > 1<<15 && done < len(b) && r.IntN(len(b)>>13) > 0 {
			continue
		}
		if !bytes.HasPrefix(s.got, seen) {
			return "output already delivered changed"
		}
		seen = append(seen[:0], s.got...)
	}
	if cl, ok := wr.(io.Closer); ok {
		if err := cl.Close(); err != nil {
			return fmt.Sprintf("Close: %v", err)
		}
	} else {
		b = b[:encLen(b)]
	}
	if d := diff(s.got, refEnc(nil, b)); d != "" {
		return "overwriting the arguments of Write changed the output: " + d
	}
	return o.recheck(w)
}

// c21Reader: every buffer given to Read is overwritten afterwards and compared
// with that when all is read. R = seed, 1 for the adapter's reader.
func c21Reader(w *W, c *Case) string {
	r := seeded(c.R[0])
	b := c.S[0]
	src := newSource(r, b)
	var rd io.Reader
	bs := bufSizes(r, len(b))
	if c.R[1] == 1 {
		src.zeros = false
		bs.min = max(1, bs.min)
		rd = cp949.NewCP949Encoding().NewDecoder().Reader(src)
	} else {
		rd = mustReader(src)
	}
	w.nt = len(b) > 1
	var bufs [][]byte
	var out []byte
	var err error
	for i := 0; err == nil; i++ {
		if i > 4*len(b)+4000 {
			return "the stream does not end"
		}
		n := min(bs.next(), 1<<14)
		buf := make([]byte, n+canary)
		scribble(buf, byte(len(bufs)))
		var k int
		k, err = rd.Read(buf[:n])
		w.count("reads")
		if k < 0 || k > n {
			return fmt.Sprintf("Read returned %d for a buffer of %d bytes", k, n)
		}
		for _, v := range buf[n:] {
			if v != byte(len(bufs)) {
				return "Read wrote beyond the end of its buffer"
			}
		}
		out = append(out, buf[:k]...)
		scribble(buf, byte(len(bufs)))
		if len(bufs) < 400 {
			bufs = append(bufs, buf)
		} else {
			scribble(buf, 0xBB) // given up, but overwritten all the same
		}
	}
	for i, buf := range bufs {
		for _, v := range buf {
			if v != byte(i) {
				return "a buffer was written to after Read had returned"
			}
		}
	}
	want, _ := refDec(nil, b)
	if d := diff(out, want); d != "" {
		return "overwriting the buffers of Read changed the text: " + d
	}
	if string(src.data) != string(c.S[0]) {
		panic(harnessBug("source changed"))
	}
	return ""
}

// c21Transform: src is read-only and overwritten after each call, dst too.
// R = seed, 1 for the decoder.
func c21Transform(w *W, c *Case) string {
	o := w.owner()
	r := seeded(c.R[0])
	dec := c.R[1] == 1
	b := c.S[0]
	e := cp949.NewCP949Encoding()
	var t transform.Transformer = e.NewEncoder()
	if dec {
		t = e.NewDecoder()
	}
	w.nt = len(b) > 0
	ss := sizes{r: r, mode: 4 + r.IntN(7), min: max(4, notSmaller(len(b)))}
	ds := sizes{r: r, mode: 4 + r.IntN(7), min: max(4, notSmaller(len(b)))}
	var out []byte
	for pos, i := 0, 0; ; i++ {
		if i > len(b)+10 {
			return "Transform makes no progress"
		}
		end := min(pos+min(ss.next(), 1<<14), len(b))
		eof := end == len(b)
		in := o.a[0].put(b[pos:end], r.IntN(2) == 0)
		n := min(ds.next(), 3*(end-pos)+8)
		dst := make([]byte, n+canary)
		scribble(dst, 0xA5)
		nd, ns, err := t.Transform(dst[:n], in, eof)
		w.count("Transform calls with read-only source")
		if !bytes.Equal(o.a[0].m[:end-pos], b[pos:end]) {
			return "Transform modified its source"
		}
		if nd < 0 || nd > n || ns < 0 || ns > end-pos {
			return fmt.Sprintf("Transform returned %d, %d", nd, ns)
		}
		for _, v := range dst[nd:] {
			if v != 0xA5 {
				return "Transform wrote beyond the count it returned"
			}
		}
		out = append(out, dst[:nd]...)
		o.a[0].spoil(end-pos, byte(r.IntN(256)))
		scribble(dst, byte(r.IntN(256)))
		pos += ns
		if err == nil && eof || err == cp949.ErrCP949UnexpectedStream {
			break
		}
		if err != nil && err != transform.ErrShortDst && err != transform.ErrShortSrc {
			return fmt.Sprintf("Transform: unexpected error %v", err)
		}
	}
	want := refConv(dec, b)
	if d := diff(out, want); d != "" {
		return "overwriting the arguments of Transform changed the output: " + d
	}
	return o.recheck(w)
}

// c21Another: what a failed Write or a Transform call did not take is not
// written again; instead the same buffer holds other text in the next call.
// R = seed, 0 for the writer, 1 for the decoder, 2 for the encoder; the texts
// are of whole characters.
func c21Another(w *W, c *Case) string {
	o := w.owner()
	r := seeded(c.R[0])
	w.nt = true
	if c.R[1] == 0 {
		s := &sink{}
		s.fail = func(int) (bool, int) { return r.IntN(2) == 0, 0 }
		wr := mustWriter(s)
		var taken []byte
		for i := 0; i < 3*len(c.S); i++ {
			p := c.S[i%len(c.S)]
			if !utf8.Valid(p) {
				continue
			}
			k, err := wr.Write(o.a[0].put(p, r.IntN(2) == 0))
			o.a[0].spoil(len(p), byte(r.IntN(256)))
			if k < 0 || k > len(p) {
				return fmt.Sprintf("Write of %d bytes returned %d", len(p), k)
			}
			taken = append(taken, p[:k]...)
			if err != nil {
				w.count("failed writes followed by other text in the same buffer")
				if !utf8.Valid(taken) {
					return "" // what follows completes the character
				}
				continue
			}
			if d := diff(s.got, refEnc(nil, taken)); d != "" {
				return "after a failed Write and one of other text in the same buffer: " + d
			}
		}
		return o.recheck(w)
	}
	dec := c.R[1] == 1
	e := cp949.NewCP949Encoding()
	var t transform.Transformer = e.NewEncoder()
	if dec {
		t = e.NewDecoder()
	}
	for i := 0; i < 3*len(c.S); i++ {
		p := c.S[i%len(c.S)]
		dst := make([]byte, r.IntN(r.IntN(3*len(p)+2)+1))
		nd, ns, _ := t.Transform(dst, o.a[0].put(p, r.IntN(2) == 0), r.IntN(2) == 0)
		o.a[0].spoil(len(p), byte(r.IntN(256)))
		if nd < 0 || nd > len(dst) || ns < 0 || ns > len(p) {
			return fmt.Sprintf("Transform returned %d, %d", nd, ns)
		}
		w.count("Transform calls followed by other text in the same buffer")
		if d := diff(dst[:nd], refConv(dec, p[:ns])); d != "" {
			return "Transform of other text in the buffer of the call before: " + d
		}
		if r.IntN(3) == 0 {
			t.Reset()
		}
	}
	return o.recheck(w)
}

func init() {
	register(&Prop{ID: "C21",
		Rule: "Every function and stream called with its byte and string arguments (and spare capacity beyond them) in memory that is write-protected during the call and overwritten after it; read buffers and transformer destinations with canaries, overwritten after each call; returned slices overwritten to their capacity or kept, with a copy, and compared again after later calls; buffers filled with another text and used again at once, also after a failed Write or a Transform call that left some; sources and sinks with methods like Close, Seek and Truncate, and standard ones looked at afterwards, also when their stream is garbage. Non-trivial: a non-empty argument (duplicates counted once).",
		Min:  map[string]int64{"calls with read-only arguments": 20000, "writes with read-only arguments": 20000, "reads": 20000, "Transform calls with read-only source": 10000, "results overwritten": 2000, "failed writes followed by other text in the same buffer": 10000, "Transform calls followed by other text in the same buffer": 50000, "buffers used again at once": 5000, "sources that can be closed": 5000, "sinks that can be closed": 5000, "sources looked at when read": 5000, "ends looked at after a collection": 10000, "earlier results compared again": 100000, "self-test faults": 1},
		Kinds: map[string]Eval{"bytes": c21Bytes, "strings": c21Strings, "writer": c21Writer, "reader": c21Reader, "transform": c21Transform, "another": c21Another, "ends": c21Ends, "collect": c21Collect,
			"selftest": func(w *W, c *Case) (msg string) { // a store to an argument must be seen
				o := w.owner()
				b := o.a[0].put([]byte("abc"), false)
				defer func() {
					if recover() != nil {
						w.count("self-test faults")
					}
				}()
				b[1] = 'x'
				panic(harnessBug("a store to read-only memory went unnoticed"))
			}},
		Drive: func(m *M) {
			m.Seq("selftest", func(w *W) { w.Do(&Case{Kind: "selftest"}) })
			lim := m.N(1<<15, 1<<18)
			corpora(m, "bytes", m.N(60000, 1000000), func(w *W) bool {
				c := &Case{Kind: "bytes", R: []int64{int64(w.rng.IntN(4)), int64(w.rng.Uint32())}}
				var b []byte
				switch w.rng.IntN(6) {
				case 0: // plain ASCII invites returning the argument itself
					b = cpText(w.rng, size(w.rng, lim), 0)
				case 1:
					b = nil
				default:
					if c.R[0]&1 == 0 {
						b = cpAny(w.rng, lim)
						b = b[:len(b)-min(len(b), w.rng.IntN(2))]
					} else {
						b = u8Any(w.rng, lim)
					}
				}
				c.S = [][]byte{b}
				return w.Do(c)
			})
			corpora(m, "strings", m.N(30000, 500000), func(w *W) bool {
				c := &Case{Kind: "strings", R: []int64{int64(w.rng.IntN(4))}}
				switch c.R[0] {
				case 0:
					c.S = [][]byte{hanjaText(w, size(w.rng, lim), w.rng.IntN(2) == 0)}
				case 1:
					c.S = [][]byte{wordsFor(w, rune(randRune(w)), w.rng.IntN(6))}
				case 2:
					p := pick(w.rng, particles)
					c.S = [][]byte{wordsFor(w, rune(randRune(w)), w.rng.IntN(6)), []byte(p[0]), []byte(p[1])}
				case 3:
					for k := 0; k < 12; k++ {
						c.R = append(c.R, randRune(w))
					}
				}
				return w.Do(c)
			})
			corpora(m, "another", m.N(12000, 200000), func(w *W) bool {
				k := int64(w.rng.IntN(3))
				var b []byte
				if k == 1 {
					b = cpText(w.rng, w.rng.IntN(1+w.rng.IntN(200)), w.rng.IntN(nCPProfiles))
				} else {
					b = u8Text(w.rng, w.rng.IntN(1+w.rng.IntN(200)), w.rng.IntN(nU8Profiles), true)
				}
				return w.Do(&Case{Kind: "another", R: []int64{int64(w.rng.Uint32()), k}, S: family(w.rng, b, k == 1, 2+w.rng.IntN(4))})
			})
			driveEnds(m)
			corpora(m, "writer", m.N(8000, 150000), func(w *W) bool {
				return w.Do(&Case{Kind: "writer", R: []int64{int64(w.rng.Uint32()), int64(w.rng.IntN(2)), int64(w.rng.IntN(4) / 3)}, S: [][]byte{u8Any(w.rng, 2000)}})
			})
			corpora(m, "reader", m.N(8000, 150000), func(w *W) bool {
				return w.Do(&Case{Kind: "reader", R: []int64{int64(w.rng.Uint32()), int64(w.rng.IntN(4) / 3)}, S: [][]byte{cpAny(w.rng, 6000)}})
			})
			corpora(m, "transform", m.N(8000, 150000), func(w *W) bool {
				d := int64(w.rng.IntN(2))
				b := u8Any(w.rng, 4000)
				if d == 1 {
					b = cpAny(w.rng, 4000)
				}
				return w.Do(&Case{Kind: "transform", R: []int64{int64(w.rng.Uint32()), d}, S: [][]byte{b}})
			})
		},
	})
}
