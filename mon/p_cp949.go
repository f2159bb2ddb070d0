package main

import (
	"errors"
	"fmt"
	"unicode/utf8"

	"github.com/suapapa/go_hangul/encoding/cp949"
)

// --- C09 -----------------------------------------------------------------------

func c09(w *W, b []byte) string {
	want, cut := refDec(w.b1[:0], b)
	w.b1 = want
	if cut {
		return "" // not a text of whole characters (shrinking): says nothing
	}
	got, err := cp949.From(b)
	if err != nil {
		return fmt.Sprintf("From failed: %v", err)
	}
	if d := diff(got, want); d != "" {
		return "From: " + d
	}
	if !utf8.Valid(got) {
		return "From returned malformed UTF-8"
	}
	return ""
}

// corpora runs f on n texts of generator g in shards.
func corpora(m *M, tag string, n int, f func(w *W) bool) {
	m.Par(tag, 64, func(w *W, i int) {
		for k := 0; k < n/64; k++ {
			if !f(w) {
				return
			}
		}
	})
	phrases(m, tag, n/10, f)
	m.Par(tag+"/long", 64, func(w *W, i int) {
		defer func() { w.rng.force = 0 }()
		for k := 0; k < m.N(16, 160); k++ {
			w.rng.force = large(w.rng)
			if !f(w) {
				return
			}
		}
	})
	m.Par(tag+"/huge", m.N(4, 6), func(w *W, i int) {
		defer func() { w.rng.force = 0 }()
		w.rng.force = 1<<(21+i) + w.rng.IntN(9) - 4
		w.count("texts beyond 2 MiB")
		f(w)
	})
	m.Par(tag+"/named", len(dic().huge), func(w *W, i int) {
		defer func() { w.rng.force = 0 }()
		for _, k := range []int{-2, 0, 3} {
			w.rng.force = dic().huge[i] + k
			if !f(w) {
				return
			}
		}
	})
}

func decodeRune(b []byte) rune {
	r, _ := utf8.DecodeRune(b)
	return r
}

func init() {
	register(&Prop{ID: "C09",
		Rule: "From on all 32768 two-byte characters in six contexts each; on all texts of one ASCII and one two-byte character in either order, and of three ASCII characters; on random texts of whole characters up to 128 KiB, and long ones to 1 MiB around powers of two and sizes named in the source; every pair of KS X 1001 syllables and a sample of all pairs (thorough: every pair of assigned characters) beside each other; related texts one after another. Non-trivial: the text has a two-byte character (duplicates counted once).",
		Min:  map[string]int64{"pairs of neighbours": 10000000, "assigned pairs": 17048, "unassigned pairs": 15720, "long texts": 30},
		Kinds: map[string]Eval{
			"related": each(c09),
			"dec": func(w *W, c *Case) string {
				for _, x := range c.S[0] {
					if x >= 0x80 {
						w.nt = true
						break
					}
				}
				if len(c.S[0]) > 4096 {
					w.count("long texts")
				}
				return c09(w, c.S[0])
			},
			"pair": func(w *W, c *Case) string { // R = pair, two neighbours
				p := []byte{byte(c.R[0] >> 8), byte(c.R[0])}
				w.nt = true
				if cp().dec[c.R[0]] != 0 {
					w.count("assigned pairs")
				} else {
					w.count("unassigned pairs")
				}
				x := []byte{byte(c.R[1] >> 8), byte(c.R[1])}
				y := []byte{byte(c.R[2] >> 8), byte(c.R[2])}
				for _, t := range [][][]byte{{p}, {p, p}, {[]byte("A"), p, []byte("\n")}, {x, p}, {p, y}, {x, p, y, p, []byte("z")}} {
					w.b2 = w.b2[:0]
					for _, s := range t {
						w.b2 = append(w.b2, s...)
					}
					if s := c09(w, w.b2); s != "" {
						return fmt.Sprintf("%q: %s", w.b2, s)
					}
				}
				return ""
			},
			"three": func(w *W, c *Case) string { // R = lead byte, second byte
				w.note = "ASCII"
				var b [3]byte
				for a := 0; a < 128; a++ {
					w.pos = int64(a)
					b = [3]byte{byte(a), byte(c.R[0]), byte(c.R[1])}
					if s := c09(w, b[:]); s != "" {
						return fmt.Sprintf("%q: %s", b[:], s)
					}
					b = [3]byte{byte(c.R[0]), byte(c.R[1]), byte(a)}
					if s := c09(w, b[:]); s != "" {
						return fmt.Sprintf("%q: %s", b[:], s)
					}
					w.ntn += 2
				}
				return ""
			},
		},
		Drive: func(m *M) {
			if s := checkCP(); s != "" {
				m.bug(s)
				return
			}
			m.Par("pair", 128, func(w *W, i int) {
				w.dedup = false
				for b := 0; b < 256; b++ {
					p := int64(0x8000 + i<<8 + b)
					w.Do(&Case{Kind: "pair", R: []int64{p, int64(pick(w.rng, cp().pairs)), int64(0x8000 + w.rng.IntN(0x8000))}})
					w.DoN(&Case{Kind: "three", R: []int64{p >> 8, p & 255}}, 256)
					if b < 128 {
						w.DoN(&Case{Kind: "three", R: []int64{int64(i), int64(b)}}, 256)
					}
				}
			})
			corpora(m, "dec", m.N(160000, 2000000), func(w *W) bool {
				return w.Do(&Case{Kind: "dec", S: [][]byte{cpAny(w.rng, m.N(1<<17+64, 1<<20))}})
			})
			var l, ks [][]byte
			for b := 0; b < 128; b++ {
				l = append(l, []byte{byte(b)})
			}
			for _, v := range cp().pairs {
				x := []byte{byte(v >> 8), byte(v)}
				l = append(l, x)
				if 0xB0 <= x[0] && x[0] <= 0xC8 && x[1] >= 0xA1 {
					ks = append(ks, x)
				}
			}
			neighbours(m, "pairs/ks", "dec", ks, ks, true)
			if m.thorough {
				neighbours(m, "pairs", "dec", l, l, true)
			} else {
				neighbours(m, "pairs", "dec", some(shardRand(m.seed, m.p.ID, "pairs", 0), l, 320), l, false)
			}
			families(m, "related", m.N(10000, 200000), true, func(w *W) []byte { return cpAny(w.rng, 1<<15) })
			m.Par("repeat", 64, func(w *W, i int) { // exact sizes: the same character k times
				for k := 0; k < m.N(500, 2000); k++ {
					n := w.rng.IntN(1500)
					if w.rng.IntN(8) == 0 {
						n = special(w.rng, 1<<14)
					}
					if !w.Do(&Case{Kind: "dec", S: [][]byte{cpText(w.rng, n, 9+w.rng.IntN(2))}}) {
						return
					}
				}
			})
		},
	})
}

// --- C10 -----------------------------------------------------------------------

func c10(w *W, b []byte) string {
	want := refEnc(w.b1[:0], b)
	w.b1 = want
	got, err := cp949.To(b)
	if err != nil {
		return fmt.Sprintf("To failed: %v", err)
	}
	if d := diff(got, want); d != "" {
		return "To: " + d
	}
	return ""
}

func init() {
	register(&Prop{ID: "C10",
		Rule: "To on every Unicode scalar value in five contexts; on every byte string of up to three bytes; on four-byte strings with every lead byte and boundary continuation bytes; on random texts, well-formed and not, up to 128 KiB, and long ones to 1 MiB; every pair of KS X 1001 syllables and a sample of all pairs (thorough: every pair of representable characters) beside each other; related texts one after another. Non-trivial: the text has a byte of 0x80 or above (duplicates counted once).",
		Min:  map[string]int64{"pairs of neighbours": 10000000, "representable characters": 17048, "unrepresentable characters": 1000000, "malformed texts": 1000, "long texts": 30},
		Kinds: map[string]Eval{
			"related": each(c10),
			"enc": func(w *W, c *Case) string {
				b := c.S[0]
				for _, x := range b {
					if x >= 0x80 {
						w.nt = true
						break
					}
				}
				if len(b) > 4096 {
					w.count("long texts")
				}
				if !utf8.Valid(b) {
					w.count("malformed texts")
				}
				return c10(w, b)
			},
			"rune": func(w *W, c *Case) string { // R = lo, hi
				w.note = "rune"
				for v := c.R[0]; v < c.R[1]; v++ {
					w.pos = v
					if 0xD800 <= v && v < 0xE000 {
						continue
					}
					r := rune(v)
					if v < 0x10000 && cp().enc[v] != 0 {
						w.count("representable characters")
					} else if v >= 0x80 {
						w.count("unrepresentable characters")
					}
					x := pick(w.rng, cp().chars)
					for k := 0; k < 5; k++ {
						b := w.b2[:0]
						switch k {
						case 0:
							b = utf8.AppendRune(b, r)
						case 1:
							b = utf8.AppendRune(utf8.AppendRune(b, r), r)
						case 2:
							b = append(utf8.AppendRune(append(b, 'A'), r), 'z')
						case 3:
							b = utf8.AppendRune(utf8.AppendRune(b, x), r)
						case 4:
							b = utf8.AppendRune(utf8.AppendRune(b, r), x)
						}
						w.b2 = b
						if s := c10(w, b); s != "" {
							return fmt.Sprintf("%q: %s", b, s)
						}
					}
					if v >= 0x80 {
						w.ntn++
					}
				}
				return ""
			},
			"bytes3": func(w *W, c *Case) string { // R = first byte: all strings of up to 3 bytes
				w.note = "bytes"
				b := []byte{byte(c.R[0]), 0, 0}
				for x := 0; x < 256; x++ {
					b[1] = byte(x)
					for y := 0; y < 256; y++ {
						b[2] = byte(y)
						w.pos = int64(x<<8 | y)
						if s := c10(w, b); s != "" {
							return fmt.Sprintf("%q: %s", b, s)
						}
					}
					if s := c10(w, b[:2]); s != "" {
						return fmt.Sprintf("%q: %s", b[:2], s)
					}
				}
				if s := c10(w, b[:1]); s != "" {
					return fmt.Sprintf("%q: %s", b[:1], s)
				}
				w.ntn += 65536
				return ""
			},
			"bytes4": func(w *W, c *Case) string { // R = first byte
				edge := []byte{0, 'A', 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xb0, 0xbf, 0xc0, 0xc2, 0xe0, 0xea, 0xed, 0xef, 0xf0, 0xf4, 0xff}
				b := []byte{byte(c.R[0]), 0, 0, 0, 'q'}
				for _, b[1] = range edge {
					for _, b[2] = range edge {
						for _, b[3] = range edge {
							if s := c10(w, b); s != "" {
								return fmt.Sprintf("%q: %s", b, s)
							}
							if s := c10(w, b[:4]); s != "" {
								return fmt.Sprintf("%q: %s", b[:4], s)
							}
						}
					}
				}
				w.ntn += 16000
				return ""
			},
		},
		Drive: func(m *M) {
			if s := checkCP(); s != "" {
				m.bug(s)
				return
			}
			m.Par("rune", 0x440, func(w *W, i int) {
				w.DoN(&Case{Kind: "rune", R: []int64{int64(i) << 10, int64(i+1) << 10}}, 5<<10)
			})
			m.Par("bytes", 256, func(w *W, i int) {
				w.DoN(&Case{Kind: "bytes3", R: []int64{int64(i)}}, 65536+257)
				w.DoN(&Case{Kind: "bytes4", R: []int64{int64(i)}}, 16000)
			})
			corpora(m, "enc", m.N(160000, 2000000), func(w *W) bool {
				return w.Do(&Case{Kind: "enc", S: [][]byte{u8Any(w.rng, m.N(1<<17+64, 1<<20))}})
			})
			l := encoded(cp().chars)
			ks := l[:0:0]
			for _, x := range l {
				if c := cp().enc[decodeRune(x)]; 0xB0A1 <= c && c <= 0xC8FE && c&0xff >= 0xA1 {
					ks = append(ks, x)
				}
			}
			for b := 0; b < 128; b++ {
				l = append(l, []byte{byte(b)})
			}
			r := shardRand(m.seed, m.p.ID, "pairs", 0)
			for k := 0; k < 2000; k++ { // not representable, or malformed
				l = append(l, u8Rune(r, r.IntN(15)))
			}
			neighbours(m, "pairs/ks", "enc", ks, ks, true)
			if m.thorough {
				neighbours(m, "pairs", "enc", l, l, true)
			} else {
				neighbours(m, "pairs", "enc", some(r, l, 320), l, false)
			}
			families(m, "related", m.N(10000, 200000), false, func(w *W) []byte { return u8Any(w.rng, 1<<15) })
			m.Par("repeat", 64, func(w *W, i int) {
				for k := 0; k < m.N(500, 2000); k++ {
					n := w.rng.IntN(1500)
					if w.rng.IntN(8) == 0 {
						n = special(w.rng, 1<<14)
					}
					if !w.Do(&Case{Kind: "enc", S: [][]byte{u8Text(w.rng, n, 16+w.rng.IntN(2), false)}}) {
						return
					}
				}
			})
		},
	})
}

// --- C11 -----------------------------------------------------------------------

func init() {
	trip := func(w *W, c *Case) string { // R = decoder, encoder, seed
		d, e := int(c.R[0]), int(c.R[1])
		r := seeded(c.R[2])
		b := c.S[0]
		for _, x := range b {
			if x >= 0x80 {
				w.nt = true
				break
			}
		}
		var mid, back []byte
		var err, err2 error
		if c.Kind == "utf8" {
			if x, _ := refDec(nil, refEnc(nil, b)); string(x) != string(b) {
				return "" // not representable (shrinking): says nothing
			}
			mid, err = encVia(e, r, b, nil)
			if err == nil {
				back, err2 = decVia(d, r, mid, nil)
			}
		} else {
			u, cut := refDec(nil, b)
			if cut || string(refEnc(nil, u)) != string(b) {
				return "" // unassigned codes
			}
			mid, err = decVia(d, r, b, nil)
			if err == nil {
				back, err2 = encVia(e, r, mid, nil)
			}
		}
		w.mark("interface combinations", fmt.Sprintf("%s %s+%s", c.Kind, viaDecName[d], viaEncName[e]))
		if err != nil || err2 != nil {
			return fmt.Sprintf("%s/%s: unexpected errors %v, %v", viaDecName[d], viaEncName[e], err, err2)
		}
		if s := diff(back, b); s != "" {
			return fmt.Sprintf("%s/%s: not restored: %s", viaDecName[d], viaEncName[e], s)
		}
		return ""
	}
	register(&Prop{ID: "C11",
		Rule: "Round trips of every representable character and of random texts up to 128 KiB, and long ones to 1 MiB, in both orders, through all 10 x 10 combinations of decoding and encoding interfaces with random piece and buffer sizes; the oracle is equality with the original. Non-trivial: the text has a non-ASCII character (duplicates counted once).",
		Min:  map[string]int64{"interface combinations": 2 * nVia * nVia, "single characters": 17048},
		Kinds: map[string]Eval{"utf8": trip, "cp949": trip,
			"chars": func(w *W, c *Case) string { // R = lo, hi: indices of characters
				for i := c.R[0]; i < c.R[1]; i++ {
					u := []byte(string(cp().chars[i]))
					b, err := cp949.To(u)
					o, err2 := cp949.From(b)
					if err != nil || err2 != nil || string(o) != string(u) {
						return fmt.Sprintf("%q encodes to %q and decodes to %q (%v, %v)", u, b, o, err, err2)
					}
					v := []byte{byte(cp().pairs[i] >> 8), byte(cp().pairs[i])}
					o, err = cp949.From(v)
					b, err2 = cp949.To(o)
					if err != nil || err2 != nil || string(b) != string(v) {
						return fmt.Sprintf("%q decodes to %q and encodes to %q (%v, %v)", v, o, b, err, err2)
					}
					w.count("single characters")
					w.ntn++
				}
				return ""
			}},
		Drive: func(m *M) {
			n := len(cp().chars)
			m.Par("chars", 32, func(w *W, i int) {
				lo, hi := i*n/32, (i+1)*n/32
				w.DoN(&Case{Kind: "chars", R: []int64{int64(lo), int64(hi)}}, int64(hi-lo))
			})
			m.Par("whole", 2*nVia*nVia, func(w *W, i int) { // the whole repertoire in one shuffled text
				p := append([]uint16(nil), cp().pairs...)
				w.rng.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
				var b []byte
				for _, v := range p {
					b = append(b, byte(v>>8), byte(v))
					if w.rng.IntN(3) == 0 {
						b = append(b, byte(w.rng.IntN(128)))
					}
				}
				c := &Case{Kind: "cp949", R: []int64{int64(i % nVia), int64(i / nVia % nVia), int64(i)}, S: [][]byte{b}}
				if i >= nVia*nVia {
					c.Kind = "utf8"
					c.S[0], _ = refDec(nil, b)
				}
				w.Do(c)
			})
			corpora(m, "rnd", m.N(80000, 1000000), func(w *W) bool {
				c := &Case{Kind: "cp949", R: []int64{int64(w.rng.IntN(nVia)), int64(w.rng.IntN(nVia)), int64(w.rng.Uint32())}}
				if w.rng.IntN(2) == 0 {
					c.S = [][]byte{cpAssigned(w.rng, m.N(1<<17+64, 1<<19))}
				} else {
					c.Kind = "utf8"
					c.S = [][]byte{u8Enc(w.rng, m.N(1<<17+64, 1<<19))}
				}
				return w.Do(c)
			})
		},
	})
}

// --- C12 -----------------------------------------------------------------------

func c12From(w *W, b []byte) string {
	_, cut := refDec(nil, b)
	out, err := cp949.From(b)
	if cut {
		w.count("truncated")
		if !errors.Is(err, cp949.ErrCP949UnexpectedStream) {
			return fmt.Sprintf("From returned error %v for a truncated text", err)
		}
		if len(out) != 0 {
			return fmt.Sprintf("From returned %q with its error", clip(out))
		}
	} else {
		w.count("whole")
		if err != nil {
			return fmt.Sprintf("From returned error %v for a text of whole characters", err)
		}
	}
	if _, err := cp949.To(b); err != nil {
		return fmt.Sprintf("To returned error %v", err)
	}
	return ""
}

func init() {
	register(&Prop{ID: "C12",
		Rule: "Arbitrary byte strings and whole-character texts cut at every position, through From, the reader (random piece and buffer sizes) and every entry point of the decoder; To on the same bytes. All byte strings of up to three bytes through From and To; related texts, complete and not, one after another. Non-trivial: the text has a byte of 0x80 or above (duplicates counted once).",
		Min:  map[string]int64{"truncated": 5000, "whole": 5000, "truncated, through a stream": 5000},
		Kinds: map[string]Eval{
			"bytes3": func(w *W, c *Case) string {
				b := []byte{byte(c.R[0]), 0, 0}
				for x := 0; x < 256; x++ {
					b[1] = byte(x)
					if s := c12From(w, b[:2]); s != "" {
						return fmt.Sprintf("%q: %s", b[:2], s)
					}
					for y := 0; y < 256; y += 1 + 5*(x&1) {
						b[2] = byte(y)
						if s := c12From(w, b); s != "" {
							return fmt.Sprintf("%q: %s", b, s)
						}
						w.ntn++
					}
				}
				return c12From(w, b[:1])
			},
			"related": each(c12From),
			"text": func(w *W, c *Case) string { // R = seed
				b := c.S[0]
				for _, x := range b {
					if x >= 0x80 {
						w.nt = true
						break
					}
				}
				if s := c12From(w, b); s != "" {
					return s
				}
				want, cut := refDec(nil, b)
				r := seeded(c.R[0])
				if r.IntN(4) == 0 {
					i, j := r.IntN(len(libSources)), r.IntN(len(libReads))
					rd, stop := libReader(i, r, b)
					out, err := libRead(j, r, rd, len(b))
					stop()
					w.mark("standard sources and ways of reading", libSources[i]+" "+libReads[j])
					want, cut := want, cut
					if libSources[i] == "reader of the library" {
						var again bool
						want, again = refDec(nil, want)
						cut = cut || again
					}
					if !cut && err != nil || cut && !errors.Is(err, cp949.ErrCP949UnexpectedStream) {
						return fmt.Sprintf("NewReader, %s by %s: error %v; truncated: %v", libSources[i], libReads[j], err, cut)
					}
					if d := diff(out, want); cut && d != "" {
						return fmt.Sprintf("NewReader, %s by %s: text before the dangling byte: %s", libSources[i], libReads[j], d)
					}
				}
				for k := 1; k < nVia; k++ {
					out, err := decVia(k, r, b, nil)
					if !cut {
						if err != nil {
							return fmt.Sprintf("%s: error %v for a text of whole characters", viaDecName[k], err)
						}
						continue
					}
					w.count("truncated, through a stream")
					if !errors.Is(err, cp949.ErrCP949UnexpectedStream) {
						return fmt.Sprintf("%s: error %v for a truncated text", viaDecName[k], err)
					}
					if k == 1 || k == 3 || k == 5 { // interfaces that deliver as they go
						if d := diff(out, want); d != "" {
							return fmt.Sprintf("%s: text before the dangling byte: %s", viaDecName[k], d)
						}
					}
				}
				return ""
			},
		},
		Drive: func(m *M) {
			m.Par("bytes3", 256, func(w *W, i int) {
				w.DoN(&Case{Kind: "bytes3", R: []int64{int64(i)}}, 39000)
			})
			corpora(m, "text", m.N(40000, 1000000), func(w *W) bool {
				b := cpAny(w.rng, m.N(1<<14, 1<<18))
				switch w.rng.IntN(3) {
				case 0:
					b = append(b, byte(0x80+w.rng.IntN(128)))
				case 1:
					b = b[:w.rng.IntN(len(b)+1)]
				}
				return w.Do(&Case{Kind: "text", R: []int64{int64(w.rng.Uint32())}, S: [][]byte{b}})
			})
			families(m, "related", m.N(10000, 200000), true, func(w *W) []byte {
				b := cpAny(w.rng, 1<<13)
				return b[:len(b)-min(len(b), w.rng.IntN(2))]
			})
			m.Par("cuts", 64, func(w *W, i int) {
				for k := 0; k < m.N(3, 60); k++ {
					b := cpText(w.rng, 150, w.rng.IntN(nCPProfiles))
					for n := 0; n <= len(b); n++ {
						if !w.Do(&Case{Kind: "text", R: []int64{int64(w.rng.Uint32())}, S: [][]byte{b[:n]}}) {
							return
						}
					}
				}
			})
		},
	})
}
