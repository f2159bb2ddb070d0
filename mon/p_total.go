package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"runtime"
	"runtime/metrics"
	"time"
	"unicode/utf8"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/transform"
)

// C23: everything on anything. Panics, fatal errors, endless loops and runaway
// memory are seen by the supervisor; here are the monitors for the rest.

// whole says what is wrong with b as CP949 text made of assigned characters.
func whole(b []byte) string {
	t := cp()
	for i := 0; i < len(b); {
		if b[i] < 0x80 {
			i++
			continue
		}
		if i+1 >= len(b) {
			return fmt.Sprintf("ends inside a character: %q", clip(b))
		}
		if t.dec[uint16(b[i])<<8|uint16(b[i+1])] == 0 {
			return fmt.Sprintf("contains %x, which is no CP949 character", b[i:i+2])
		}
		i += 2
	}
	return ""
}

func c23Text(w *W, c *Case) string {
	b := c.S[0]
	s := string(b)
	w.nt = len(b) > 0
	out, err := cp949.From(b)
	if err == nil && !utf8.Valid(out) {
		return "From returned malformed UTF-8"
	}
	out, err = cp949.To(b)
	if err != nil {
		return fmt.Sprintf("To: %v", err)
	}
	if m := whole(out); m != "" {
		return "the result of To " + m
	}
	if h := hanja.Convert(s); !utf8.ValidString(h) {
		return "Convert returned malformed UTF-8: " + clip([]byte(h))
	}
	hangul.LastConsonant(s)
	hangul.EndsWithConsonant(s)
	k := len(s) / 3
	hangul.AppendPostposition(s, s[:k], s[k:])
	hangul.AppendPostposition(s[k:], s, s)
	for _, via := range []int{2, 4} {
		if o, err := decVia(via, nil, b, nil); err == nil && !utf8.Valid(o) {
			return viaDecName[via] + " returned malformed UTF-8"
		}
		o, err := encVia(via, nil, b, nil)
		if err != nil {
			return fmt.Sprintf("%s: %v", viaEncName[via], err)
		}
		if m := whole(o); m != "" {
			return "the result of " + viaEncName[via] + " " + m
		}
	}
	w.count("texts")
	w.add("bytes of text", int64(len(b)))
	return ""
}

func c23Runes(w *W, c *Case) string {
	w.note = "rune"
	w.nt = true
	for i, v := range c.R {
		w.pos = v
		r := rune(int32(v))
		hangul.IsHangul(r)
		hangul.IsLead(r)
		hangul.IsMedial(r)
		hangul.IsTail(r)
		hangul.IsJaeum(r)
		hangul.IsMoeum(r)
		hangul.CompatJamo(r)
		hangul.Lead(r)
		hangul.Medial(r)
		hangul.Tail(r)
		hangul.SplitMultiElement(r)
		hangul.Split(r)
		hangul.SplitCompat(r)
		hanja.IsHanja(r)
		if n := hangul.Stroke(r); n < 0 {
			return fmt.Sprintf("Stroke(%#x) = %d", r, n)
		}
		q := rune(int32(c.R[(i*7+3)%len(c.R)]))
		t := rune(int32(c.R[(i*5+1)%len(c.R)]))
		for _, j := range []rune{hangul.Join(r, q, t), hangul.Join(q, r, t), hangul.Join(q, t, r)} {
			if !isSyl(j) && j != utf8.RuneError {
				return fmt.Sprintf("Join of %#x, %#x, %#x in some order = %#x", r, q, t, j)
			}
		}
		w.count("runes")
	}
	return ""
}

// c23Reader: arbitrary sequences of Read calls on a source that may stall,
// dribble or fail. R = seed.
func c23Reader(w *W, c *Case) string {
	r := seeded(c.R[0])
	b := c.S[0]
	s := newSource(r, b)
	if r.IntN(3) == 0 {
		s.end = errSource
	}
	rd := mustReader(s)
	var out []byte
	bs := bufSizes(r, len(b))
	var end error
	calls, after := 0, r.IntN(20)
	for end == nil || after > 0 {
		calls++
		if calls > 4*len(b)+6000 {
			return "the stream does not end"
		}
		n := bs.next()
		if r.IntN(15) == 0 {
			n = 0
		}
		var p []byte
		if n > 0 || r.IntN(2) == 0 {
			if cap(w.b2) < n {
				w.b2 = make([]byte, n)
			}
			p = w.b2[:n]
		}
		before := s.reads
		k, err := rd.Read(p)
		if k < 0 || k > n {
			return fmt.Sprintf("Read returned %d for a buffer of %d bytes", k, n)
		}
		if end != nil {
			after--
			if k != 0 {
				return fmt.Sprintf("Read returned %d bytes after it had returned %v", k, end)
			}
			if s.reads-before > 3 {
				return fmt.Sprintf("%d reads of the source in a Read after the end", s.reads-before)
			}
		}
		out = append(out, p[:k]...)
		if err != nil {
			end = err
		}
	}
	w.nt = len(b) > 0
	w.count("streams read")
	w.countSource(s)
	// Every read of the source brings a byte, was empty, or marks the end.
	if lim := len(b) + s.empty + calls + 3; s.reads > lim {
		return fmt.Sprintf("%d reads of a source of %d bytes with %d empty reads, in %d calls", s.reads, len(b), s.empty, calls)
	}
	if !utf8.Valid(out) {
		return "the reader delivered malformed UTF-8"
	}
	return ""
}

type stalled struct {
	data  []byte
	reads int
}

func (s *stalled) Read(p []byte) (int, error) {
	s.reads++
	if s.reads > 200000 {
		panic(verdict("200000 reads of a source that has nothing to give, in one Read"))
	}
	n := copy(p, s.data)
	s.data = s.data[n:]
	return n, nil
}

// c23Stalled: a source that gives some bytes and then 0, nil for ever. Each
// Read must come back.
func c23Stalled(w *W, c *Case) string {
	s := &stalled{data: c.S[0]}
	rd := mustReader(s)
	p := make([]byte, c.R[0])
	var out []byte
	for i := 0; i < 2*len(c.S[0])+20; i++ {
		s.reads = 0
		n, _ := rd.Read(p)
		if n < 0 || n > len(p) {
			return fmt.Sprintf("Read returned %d for a buffer of %d bytes", n, len(p))
		}
		out = append(out, p[:n]...)
	}
	w.nt = true
	w.count("stalled sources")
	return ""
}

// c23Writer: arbitrary Write sequences to a sink that may fail. R = seed.
func c23Writer(w *W, c *Case) string {
	r := seeded(c.R[0])
	b := c.S[0]
	s := &sink{}
	if r.IntN(3) == 0 {
		rate := 1 + r.IntN(5)
		s.fail = func(int) (bool, int) { return r.IntN(rate) == 0, 0 }
	}
	wr := mustWriter(s)
	calls := 0
	pieces(bufSizes(r, len(b)), b, func(p []byte) bool {
		calls++
		if len(p) == 0 && r.IntN(2) == 0 {
			p = nil
		}
		n, err := wr.Write(p)
		if n < 0 || n > len(p) || err == nil && n < len(p) {
			panic(verdict(fmt.Sprintf("Write of %d bytes returned %d, %v", len(p), n, err)))
		}
		return true
	})
	w.nt = len(b) > 0
	w.count("streams written")
	if m := whole(s.got); m != "" {
		return "the writer's output " + m
	}
	if lim := len(b) + calls + 3; s.writes > lim {
		return fmt.Sprintf("%d writes to the sink for %d bytes in %d calls", s.writes, len(b), calls)
	}
	if len(s.got) > 2*len(b) {
		return fmt.Sprintf("%d bytes of output for %d bytes of text", len(s.got), len(b))
	}
	return ""
}

// c23Transform: Transform with arbitrary arguments, whether or not they make
// sense as parts of one text. R = seed.
func c23Transform(w *W, c *Case) string {
	r := seeded(c.R[0])
	b := c.S[0]
	e := newEncoding(r)
	dec, enc := e.NewDecoder(), e.NewEncoder()
	w.nt = len(b) > 0
	for i := 0; i < 40; i++ {
		lo := r.IntN(len(b) + 1)
		hi := lo + r.IntN(len(b)-lo+1)
		src := b[lo:hi]
		if len(src) == 0 && r.IntN(2) == 0 {
			src = nil
		}
		var dst []byte
		if n := r.IntN(20) * r.IntN(30); n > 0 {
			dst = make([]byte, n)
		}
		isDec := r.IntN(2) == 0
		var t transform.Transformer = enc
		if isDec {
			t = dec
		}
		nd, ns, _ := t.Transform(dst, src, r.IntN(2) == 0)
		if nd < 0 || nd > len(dst) || ns < 0 || ns > len(src) {
			return fmt.Sprintf("Transform returned %d, %d for %d bytes to be stored in %d", nd, ns, len(src), len(dst))
		}
		if isDec && !utf8.Valid(dst[:nd]) {
			return fmt.Sprintf("Transform of %q stored malformed UTF-8 %q", clip(src), clip(dst[:nd]))
		}
		if m := whole(dst[:nd]); !isDec && m != "" {
			return fmt.Sprintf("the output of Transform for %q %s", clip(src), m)
		}
		if r.IntN(4) == 0 {
			t.Reset()
		}
		w.count("Transform calls")
	}
	return ""
}

var bigOps = []string{"From", "To", "Convert", "Append", "Last", "Reader", "Writer", "Decoder.Bytes", "Encoder.Bytes", "Decoder.String", "Encoder.String", "Decoder.Reader", "Encoder.Writer", "dribble", "trickle"}

type counter struct{ n int64 }

func (c *counter) Write(p []byte) (int, error) { c.n += int64(len(p)); return len(p), nil }

type oneByte struct{ b []byte }

func (o *oneByte) Read(p []byte) (int, error) {
	if len(o.b) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	p[0] = o.b[0]
	o.b = o.b[1:]
	return 1, nil
}

// c23Big: one operation on a large text, alone in the process, with the memory
// it allocates measured. R = operation, profile, size.
func c23Big(w *W, c *Case) string {
	op := bigOps[c.R[0]]
	n := int(c.R[2])
	r := seeded(c.R[1])
	var b []byte
	switch op {
	case "From", "Reader", "Decoder.Bytes", "Decoder.String", "Decoder.Reader", "dribble":
		b = cpText(r, n, int(c.R[1])%nCPProfiles)
	default:
		b = u8Text(r, n, int(c.R[1])%nU8Profiles, false)
	}
	s := ""
	if op == "Convert" || op == "Append" || op == "Last" || op == "Decoder.String" || op == "Encoder.String" {
		s = string(b)
	}
	d, e := newEncoding(r).NewDecoder(), newEncoding(r).NewEncoder()
	var m0, m1 runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&m0)
	var err error
	switch op {
	case "From":
		_, err = cp949.From(b)
	case "To":
		_, err = cp949.To(b)
	case "Convert":
		hanja.Convert(s)
	case "Append":
		s = hangul.AppendPostposition(s, "은", "는")
	case "Last":
		hangul.LastConsonant(s)
	case "Reader":
		_, err = io.Copy(&counter{}, mustReader(&oneChunk{b}))
	case "Writer":
		_, err = mustWriter(&counter{}).Write(b)
	case "Decoder.Bytes":
		_, err = d.Bytes(b)
	case "Encoder.Bytes":
		_, err = e.Bytes(b)
	case "Decoder.String":
		_, err = d.String(s)
	case "Encoder.String":
		_, err = e.String(s)
	case "Decoder.Reader":
		_, err = io.Copy(&counter{}, d.Reader(&oneChunk{b}))
	case "Encoder.Writer":
		wr := e.Writer(&counter{})
		_, err = wr.Write(b)
	case "dribble":
		_, err = io.Copy(&counter{}, mustReader(&oneByte{b}))
	case "trickle":
		wr := mustWriter(&counter{})
		for i := range b {
			if _, err = wr.Write(b[i : i+1]); err != nil {
				break
			}
		}
	}
	runtime.ReadMemStats(&m1)
	if err != nil {
		return fmt.Sprintf("%s: %v", op, err)
	}
	got := m1.TotalAlloc - m0.TotalAlloc
	w.nt = true
	w.count("large texts")
	w.mark("large operations", op)
	w.obs["most bytes allocated per byte of large text"] = max(w.obs["most bytes allocated per byte of large text"], int64(got)/int64(max(n, 1)))
	if lim := 1000*uint64(n) + 64<<20; got > lim {
		return fmt.Sprintf("%s allocated %d bytes for a text of %d", op, got, n)
	}
	runtime.KeepAlive(s)
	return ""
}

type oneChunk struct{ b []byte }

func (o *oneChunk) Read(p []byte) (int, error) {
	if len(o.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, o.b)
	o.b = o.b[n:]
	return n, nil
}

// c23Small: many small operations, with the memory they allocate measured.
func c23Small(w *W, c *Case) string {
	var m0, m1 runtime.MemStats
	const n = 200
	runtime.ReadMemStats(&m0)
	for i := 0; i < n; i++ {
		if s := c23Text(w, c); s != "" {
			return s
		}
	}
	runtime.ReadMemStats(&m1)
	w.nt = true
	w.count("small texts measured")
	if got := (m1.TotalAlloc - m0.TotalAlloc) / n; got > 4<<20+1000*uint64(len(c.S[0])) {
		return fmt.Sprintf("the text functions together allocate %d bytes for a text of %d", got, len(c.S[0]))
	}
	return ""
}

// memHeld is the memory in use when everything that can be released has been.
func memHeld() (bytes int64, goroutines int) {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}, {Name: "/memory/classes/heap/stacks:bytes"}}
	for i := 0; i < 4; i++ { // pools are emptied by the second, finalizers may take another
		runtime.GC()
	}
	metrics.Read(s)
	return int64(s[0].Value.Uint64() + s[1].Value.Uint64()), runtime.NumGoroutine()
}

// c23Kept: the same operations on ever new arguments do not accumulate memory
// or goroutines. R = which, seed, count.
func c23Kept(w *W, c *Case) string {
	const warm, lim, goroutines = 3000, 6 << 20, 100
	r := seeded(c.R[1])
	kinds := []string{"text", "runes", "reader", "writer", "transform", "stalled", "words"}
	kind := kinds[int(c.R[0])%len(kinds)]
	f := props["C23"].Kinds[kind]
	if kind == "words" {
		f = c23Words
	}
	var m0 int64
	var g0 int
	for i := 0; i < warm+int(c.R[2]); i++ {
		if i == warm {
			m0, g0 = memHeld()
		}
		x := &Case{Prop: "C23", Kind: kind}
		switch kind {
		case "runes":
			for j := 0; j < 24; j++ {
				x.R = append(x.R, int64(int32(r.Uint32()))>>(r.IntN(3)*8))
			}
		case "stalled":
			x.R = []int64{int64(r.IntN(64))}
		case "words":
			x.S = [][]byte{word(r)}
		default:
			x.R = []int64{int64(r.Uint32())}
		}
		if kind != "runes" && kind != "words" {
			var b []byte
			n := 16 + r.IntN(r.IntN(800)+1)
			if i%500 == 0 {
				n += r.IntN(1 << 17)
			}
			switch r.IntN(4) {
			case 0:
				b = cpAny(r, n)
			case 1:
				b = make([]byte, n)
				for j := range b {
					b[j] = byte(r.Uint32())
				}
			case 2:
				b = cpText(r, n, r.IntN(nCPProfiles))
			default:
				b = u8Any(r, n)
			}
			x.S = [][]byte{b}
		}
		if s := f(w, x); s != "" {
			return s
		}
	}
	var m1 int64
	var g1 int
	for i := 0; i < 30; i++ { // what ends by itself is given time
		m1, g1 = memHeld()
		if m1-m0 < lim && g1-g0 < goroutines {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	w.nt = true
	w.mark("operations repeated with the memory kept measured", kind)
	w.obs["most bytes left behind by repeated operations"] = max(w.obs["most bytes left behind by repeated operations"], m1-m0)
	if m1-m0 >= lim {
		return fmt.Sprintf("%d operations (%s) have left %d bytes in use behind", c.R[2], kind, m1-m0)
	}
	if g1-g0 >= goroutines {
		return fmt.Sprintf("%d operations (%s) have left %d goroutines behind", c.R[2], kind, g1-g0)
	}
	return ""
}

// word is a short text, mostly of few kinds of character and hardly ever the
// same.
func word(r *Rng) []byte {
	n, k := 2+r.IntN(3), r.IntN(6)
	if k < 2 {
		n += 3
	}
	b := make([]byte, 0, 16)
	for i := 0; i < n; i++ {
		switch q := (k + r.IntN(16)/15) % 6; q {
		case 0:
			b = append(b, byte(' '+r.IntN(95)))
		case 1:
			b = append(b, byte(r.Uint32()))
		case 2:
			b = append(b, byte(0x81+r.IntN(0x7E)), byte(0x41+r.IntN(0xBE)))
		case 3:
			b = utf8.AppendRune(b, pick(r, hanjaT().list))
		case 4:
			b = utf8.AppendRune(b, rune(0xAC00+r.IntN(11172)))
		default:
			b = utf8.AppendRune(b, rune(r.IntN(0x20000)))
		}
	}
	return b
}

// c23Words: the functions of texts on a short one.
func c23Words(w *W, c *Case) string {
	b := c.S[0]
	s := string(b)
	out, err := cp949.From(b)
	if err == nil && !utf8.Valid(out) {
		return "From returned malformed UTF-8"
	}
	cp949.To(b)
	hanja.Convert(s)
	hangul.EndsWithConsonant(s)
	hangul.AppendPostposition(s, s, s)
	return ""
}

// c23Held: a long stream does not hold what has passed through it. R = which,
// seed, bytes.
func c23Held(w *W, c *Case) string {
	const lim = 3 << 20
	r := seeded(c.R[1])
	dec, style := c.R[0]%4 < 2, heldStyles[int(c.R[0]/4)%len(heldStyles)]
	var block []byte
	switch {
	case style == "random bytes":
		block = make([]byte, 1<<16)
		for i := range block {
			block[i] = byte(r.Uint32())
		}
	case style == "ASCII":
		block = bytes.Repeat([]byte("hello, world\n"), 5000)
	case dec:
		block = bytes.Repeat([]byte("\xb0\xa1\xc7\xd1"), 1<<14)
		if style == "pieces of characters" {
			block = cpText(r, 1<<16, 2)
		}
	default:
		block = bytes.Repeat([]byte("가漢"), 12000)
		if style == "pieces of characters" {
			block = u8Text(r, 1<<16, 2, true)
		}
	}
	left := int(c.R[2])
	piece := func() []byte {
		i := r.IntN(len(block) - 8200)
		n := 1 + r.IntN(1+r.IntN(8192))
		switch style {
		case "whole characters":
			i -= i % 12
			n += 11
			n -= n % 12
		case "single bytes":
			n = 1
			i = int(c.R[2]) - left // in their order
			i %= len(block)
		case "blocks":
			n = 8192
		}
		left -= n
		return block[i : i+n]
	}
	d, e := newEncoding(r).NewDecoder(), newEncoding(r).NewEncoder()
	rd, wr := io.Reader(nil), io.Writer(nil)
	src := readFunc(func(p []byte) (int, error) {
		if left <= 0 {
			return 0, io.EOF
		}
		return copy(p, piece()), nil
	})
	what := []string{"NewReader", "Decoder.Reader", "NewWriter", "Encoder.Writer"}[c.R[0]%4]
	switch what {
	case "NewReader":
		rd = mustReader(src)
	case "Decoder.Reader":
		rd = d.Reader(src)
	case "NewWriter":
		wr = mustWriter(&counter{})
	case "Encoder.Writer":
		wr = e.Writer(&counter{})
	}
	m0, g0 := memHeld()
	buf := make([]byte, 8192)
	for left > 0 {
		var err error
		if dec {
			_, err = rd.Read(buf[:1+r.IntN(1+r.IntN(len(buf)))])
		} else {
			_, err = wr.Write(piece())
		}
		if err != nil && left > 0 {
			return fmt.Sprintf("%s: %v in the middle of the stream", what, err)
		}
	}
	m1, g1 := memHeld()
	runtime.KeepAlive(rd)
	runtime.KeepAlive(wr)
	w.nt = true
	w.mark("long streams with the memory held measured", what+" "+style)
	w.obs["most bytes held by a long stream"] = max(w.obs["most bytes held by a long stream"], m1-m0)
	if m1-m0 >= lim || g1-g0 > 100 {
		return fmt.Sprintf("after %d bytes in pieces of at most 8 KiB the stream (%s, %s) holds %d bytes and %d goroutines", c.R[2], what, style, m1-m0, g1-g0)
	}
	return ""
}

var heldStyles = []string{"pieces of characters", "whole characters", "ASCII", "random bytes", "single bytes", "blocks"}

type readFunc func([]byte) (int, error)

func (f readFunc) Read(p []byte) (int, error) { return f(p) }

func init() {
	register(&Prop{ID: "C23",
		Rule: "Every exported function and method on random and malformed texts (to 64 KiB in the mass, to 2 MiB one by one with allocation measured; thorough to 64 MiB), on extreme and random runes, and in arbitrary sequences of Read, Write and Transform calls over stalling, dribbling and failing sources and sinks, with reads, writes and validity of the output counted and checked; tens of thousands of the same operations on ever new arguments, and long streams of six kinds, with the memory and goroutines kept measured after collection. Panics, fatal errors, more than 40 s of processor time in one operation (and 5 us for each byte of huge texts) and more than 8 GiB of heap are violations. Non-trivial: non-empty texts (duplicates counted once).",
		Min:  map[string]int64{"texts": 20000, "runes": 200000, "streams read": 10000, "streams written": 10000, "Transform calls": 100000, "large operations": int64(len(bigOps)), "stalled sources": 300, "small texts measured": 10, "operations repeated with the memory kept measured": 7, "long streams with the memory held measured": int64(4 * len(heldStyles))},
		Kinds: map[string]Eval{"text": c23Text, "runes": c23Runes, "reader": c23Reader, "stalled": c23Stalled,
			"writer": c23Writer, "transform": c23Transform, "big": c23Big, "small": c23Small, "kept": c23Kept, "held": c23Held},
		Drive: func(m *M) {
			m.Seq("small", func(w *W) {
				for _, s := range []string{"", "A", "가", "漢字", "\xb0\xa1", "\xff", "대한민국", "\xb0", "🙂", "hello, world", "\x00", "�"} {
					w.Do(&Case{Kind: "small", S: [][]byte{[]byte(s)}})
				}
			})
			m.Seq("kept", func(w *W) {
				for k := 0; k < m.N(7, 35); k++ {
					n := m.N(25000, 100000)
					switch k % 7 {
					case 5: // a hundred calls each
						n /= 5
					case 6: // few and quick ones
						n *= 12
					}
					if !w.Do(&Case{Kind: "kept", R: []int64{int64(k), int64(w.rng.Uint32()), int64(n)}}) {
						return
					}
				}
				for k := 0; k < m.N(1, 2)*4*len(heldStyles); k++ {
					if !w.Do(&Case{Kind: "held", R: []int64{int64(k), int64(w.rng.Uint32()), int64(m.N(8<<20, 40<<20))}}) {
						return
					}
				}
			})
			m.Seq("big", func(w *W) {
				for k := 0; k < m.N(2, 12); k++ {
					for op := range bigOps {
						n := m.N(1<<19, 1<<22) << w.rng.IntN(m.N(3, 5))
						if bigOps[op] == "dribble" || bigOps[op] == "trickle" {
							n = min(n, 1<<21)
						}
						if !w.Do(&Case{Kind: "big", R: []int64{int64(op), int64(w.rng.IntN(1000)), int64(n)}}) {
							return
						}
					}
				}
			})
			edge := []int64{math.MinInt32, math.MinInt32 + 1, -0xAC00, -0x1100, -1, 0, 1, 0x10FF, 0x1100, 0x1112, 0x1113, 0x1160, 0x1161, 0x1175, 0x11A7, 0x11A8, 0x11C2, 0x11FF, 0x3130, 0x3131, 0x3163, 0x318E, 0xABFF, 0xAC00, 0xD7A3, 0xD7A4, 0xD800, 0xDFFF, 0xFFFD, 0xFFFF, 0x10000, 0x1AC00, 0x10FFFF, 0x110000, math.MaxInt32 - 1, math.MaxInt32}
			corpora(m, "runes", m.N(20000, 500000), func(w *W) bool {
				c := &Case{Kind: "runes"}
				for k := 0; k < 24; k++ {
					v := randRune(w)
					switch w.rng.IntN(4) {
					case 0:
						v = pick(w.rng, edge)
					case 1:
						v = int64(pick(w.rng, hanjaT().list))
					}
					c.R = append(c.R, v)
				}
				return w.Do(c)
			})
			any := func(w *W, max int) []byte {
				switch w.rng.IntN(5) {
				case 0:
					b := cpAny(w.rng, max)
					return b[:len(b)-min(len(b), w.rng.IntN(2))]
				case 1:
					b := make([]byte, size(w.rng, max))
					for i := range b {
						b[i] = byte(w.rng.Uint32())
					}
					return b
				case 2:
					return hanjaText(w, size(w.rng, max), false)
				}
				return u8Any(w.rng, max)
			}
			corpora(m, "text", m.N(25000, 600000), func(w *W) bool {
				return w.Do(&Case{Kind: "text", S: [][]byte{any(w, m.N(1<<17+64, 1<<20))}})
			})
			corpora(m, "stalled", m.N(640, 10000), func(w *W) bool {
				return w.Do(&Case{Kind: "stalled", R: []int64{int64(w.rng.IntN(1 + w.rng.IntN(5000)))}, S: [][]byte{any(w, 100)}})
			})
			for _, k := range []string{"reader", "writer", "transform"} {
				corpora(m, k, m.N(25000, 500000), func(w *W) bool {
					return w.Do(&Case{Kind: k, R: []int64{int64(w.rng.Uint32())}, S: [][]byte{any(w, m.N(1<<13, 1<<17))}})
				})
			}
		},
	})
}
