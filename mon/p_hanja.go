package main

import (
	"bytes"
	"fmt"
	"sync"
	"unicode/utf8"

	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/unicode/norm"
)

// --- C18 -----------------------------------------------------------------------

// single is what Convert was first seen to make of each character alone.
var single = sync.OnceValue(func() *[65536]rune {
	t := new([65536]rune)
	for r := rune(0); r < 65536; r++ {
		if 0xD800 <= r && r < 0xE000 {
			continue
		}
		t[r], _ = utf8.DecodeRuneInString(hanja.Convert(string(r)))
	}
	return t
})

func singleOf(r rune) rune {
	if r < 0 || r > 0xFFFF {
		return r
	}
	return single()[r]
}

func nearHanja(r rune) bool {
	x := uint16(r)
	return 0x33F0 <= x && x < 0x4DC8 || 0x4DF0 <= x && x < 0x9FB0 || 0xF900 <= x && x < 0xFA30
}

func c18One(w *W, r rune) string {
	is := hanja.IsHanja(r)
	if is != refIsHanja(r) {
		return fmt.Sprintf("IsHanja(%#x) = %v", r, is)
	}
	if nearHanja(r) {
		w.ntn++
	}
	return ""
}

func c18Text(w *W, b []byte) string {
	in := string(b)
	out := hanja.Convert(in)
	if in != string(b) {
		return "Convert changed its argument"
	}
	valid := utf8.Valid(b)
	o := []byte(out)
	w.count("texts")
	if !valid {
		w.count("malformed texts")
	}
	if valid && utf8.RuneCount(b) != utf8.RuneCount(o) {
		return fmt.Sprintf("%d characters became %d", utf8.RuneCount(b), utf8.RuneCount(o))
	}
	// Where the text is malformed the number of U+FFFD is left open: skip them.
	i, j, at := 0, 0, 0
	for {
		var x, y rune = -1, -1
		var n int
		for i < len(b) {
			x, n = utf8.DecodeRune(b[i:])
			i += n
			if valid || x != utf8.RuneError {
				break
			}
			x = -1
		}
		for j < len(o) {
			y, n = utf8.DecodeRune(o[j:])
			j += n
			if valid || y != utf8.RuneError {
				break
			}
			y = -1
		}
		if x == -1 && y == -1 {
			break
		}
		want := x
		if x >= 0 && refIsHanja(x) {
			want = singleOf(x)
			w.nt = true
			w.count("hanja in texts")
			if !isSyl(y) {
				return fmt.Sprintf("character %d of %q: %#x became %#x, which is no syllable", at, clip(b), x, y)
			}
		}
		if y != want {
			return fmt.Sprintf("character %d of %q: %#x became %#x; alone it becomes %#x", at, clip(b), x, y, want)
		}
		at++
	}
	if again := hanja.Convert(out); again != out {
		return fmt.Sprintf("converting %q twice: %s", clip(b), diff([]byte(again), o))
	}
	return ""
}

// c18Once makes a single call and judges its result.
func c18Once(w *W, b []byte) string {
	if !utf8.Valid(b) {
		return c18Text(w, b)
	}
	w.b1 = w.b1[:0]
	for _, x := range string(b) {
		if refIsHanja(x) {
			x = singleOf(x)
		}
		w.b1 = utf8.AppendRune(w.b1, x)
	}
	if d := diff([]byte(hanja.Convert(string(b))), w.b1); d != "" {
		return fmt.Sprintf("not what its characters become alone: %s", d)
	}
	return ""
}

// gloss is a word in hanja beside its reading, as texts for learners have it.
func gloss(r *Rng) []byte {
	var a, b []byte
	for k := 1 + r.IntN(4); k > 0; k-- {
		x := pick(r, hanjaT().list)
		for i := 0; i < 3 && (x < 0x4E00 || x > 0x9FA5); i++ { // seldom a rare one
			x = pick(r, hanjaT().list)
		}
		a = utf8.AppendRune(a, x)
		b = utf8.AppendRune(b, rune(hanjaT().reading[x]))
	}
	if r.IntN(2) == 0 {
		a, b = b, a
	}
	m := pick(r, [][3]string{{"", "(", ")"}, {"", "（", "）"}, {"", "[", "]"}, {"", " (", ")"}, {"", "/", ""}, {"", "-", "-"}, {"", " ", " "}, {"", "", ""}, {"", ":", ","}, {"「", "」", ""}, {"'", "'(", ")"}, {"<ruby>", "<rt>", "</rt></ruby>"}, {"", "<", ">"}, {"", "｟", "｠"}, {"《", "》(", ")"}, {"", "=", ";"}})
	w := append([]byte(m[0]), a...)
	w = append(append(w, m[1]...), b...)
	return append(append(w, m[2]...), pick(r, []string{"", "", "은", "이", "을", " ", "으로"})...)
}

// hanjaText is text with a good share of hanja.
func hanjaText(w *W, n int, valid bool) []byte {
	r := w.rng
	var b []byte
	share := 1 + r.IntN(8)
	p := r.IntN(15)
	fix := pick(r, hanjaT().list)
	glossed := r.IntN(4) == 0
	for len(b) < n {
		switch {
		case glossed && r.IntN(12) == 0:
			b = append(b, gloss(r)...)
		case r.IntN(share) == 0:
			b = utf8.AppendRune(b, pick(r, hanjaT().list))
		case r.IntN(9) == 0:
			b = utf8.AppendRune(b, fix)
		default:
			x := u8Rune(r, p)
			if valid && !utf8.Valid(x) {
				x = []byte("한")
			}
			b = append(b, x...)
			if r.IntN(20) == 0 {
				p = r.IntN(15)
			}
		}
	}
	if b = r.with(b, false); valid {
		b = bytes.ToValidUTF8(b, []byte("a"))
	}
	return b
}

func init() {
	is := func(w *W, c *Case) string { return over(w, c, func(r rune) string { return c18One(w, r) }) }
	text := func(w *W, c *Case) string { return c18Text(w, c.S[0]) }
	register(&Prop{ID: "C18",
		Rule: "IsHanja on all runes in [-2^21, 2^21), 16-bit aliases of the hanja blocks and random blocks (thorough: every int32); Convert of every Unicode scalar value alone; Convert of random texts up to 128 KiB, and long ones to 1 MiB, well-formed and not, against the concatenation of what it was seen to make of each character alone, and again on its own output; hanja beside every other character of the BMP; related texts one after another. Non-trivial: runes in or beside a hanja block modulo 2^16, and texts with a hanja (duplicates counted once).",
		Min:  map[string]int64{"pairs of neighbours": 5000000, "hanja alone": 27496, "other characters alone": 1084000, "texts": 20000, "malformed texts": 3000, "hanja in texts": 100000},
		Kinds: map[string]Eval{"is": is, "seqis": is, "text": text, "related": each(c18Once),
			"alone": func(w *W, c *Case) string {
				return over(w, c, func(r rune) string {
					if 0xD800 <= r && r < 0xE000 {
						return ""
					}
					in := string(r)
					out := hanja.Convert(in)
					if hanja.IsHanja(r) {
						w.count("hanja alone")
						w.ntn++
						y, n := utf8.DecodeRuneInString(out)
						if n != len(out) || !isSyl(y) {
							return fmt.Sprintf("Convert(%q) = %q", in, out)
						}
						return ""
					}
					w.count("other characters alone")
					if out != in {
						return fmt.Sprintf("Convert(%q) = %q", in, out)
					}
					return ""
				})
			}},
		Drive: func(m *M) {
			if s := m.p.Kinds["alone"]; s != nil { // before anything else has run
				m.Par("alone", 0x440, func(w *W, i int) {
					w.DoN(&Case{Kind: "alone", R: []int64{int64(i) << 10, int64(i+1) << 10}}, 1<<10)
				})
			}
			runeBlocks(m, "is", m.thorough)
			m.Par("alias", 256, func(w *W, i int) {
				for k := i * 256; k < i*256+256; k++ {
					base := int64(int32(uint32(k) << 16))
					for _, x := range []int64{0x3400, 0x4DB4, 0x4E00, 0x9FA4, 0xFA0E, 0xFA20} {
						w.DoN(&Case{Kind: "is", R: []int64{base + x, base + x + 8}}, 8)
					}
				}
			})
			m.Par("seqis", 64, func(w *W, i int) {
				for k := 0; k < m.N(500, 20000); k++ {
					c := &Case{Kind: "seqis"}
					for j := 0; j < 30; j++ {
						r := int64(pick(w.rng, hanjaT().list))
						if w.rng.IntN(3) == 0 {
							r = randRune(w)
						}
						if w.rng.IntN(4) == 0 {
							r += int64(w.rng.IntN(0x8000)-0x4000) << 16
						}
						c.R = append(c.R, r)
					}
					if !w.Do(c) {
						return
					}
				}
			})
			corpora(m, "text", m.N(60000, 800000), func(w *W) bool {
				return w.Do(&Case{Kind: "text", S: [][]byte{hanjaText(w, size(w.rng, m.N(1<<17+64, 1<<20)), w.rng.IntN(3) > 0)}})
			})
			var other [][]byte
			for r := rune(0); r < 0x10000; r++ {
				if (r < 0xD800 || 0xE000 <= r) && !refIsHanja(r) {
					other = append(other, []byte(string(r)))
				}
			}
			for _, r := range []rune{0x10000, 0x1F600, 0x20000, 0x2A6D6, 0x2F800, 0x2F81A, 0xE0100, 0xE01EF, 0x10FFFF} {
				other = append(other, []byte(string(r)))
			}
			neighbours(m, "pairs", "text", some(shardRand(m.seed, m.p.ID, "pairs", 0), encoded(hanjaT().list), m.N(128, 4096)), other, false)
			families(m, "related", m.N(10000, 200000), false, func(w *W) []byte { return hanjaText(w, size(w.rng, 1<<15), w.rng.IntN(3) > 0) })
			corpora(m, "any", m.N(30000, 300000), func(w *W) bool {
				return w.Do(&Case{Kind: "text", S: [][]byte{u8Any(w.rng, m.N(1<<17+64, 1<<20))}})
			})
		},
	})
}

// --- C19 -----------------------------------------------------------------------

func c19Text(w *W, b []byte) string {
	out := hanja.Convert(string(b))
	j := 0
	for i := 0; i < len(b); {
		x, n := utf8.DecodeRune(b[i:])
		i += n
		y, k := utf8.DecodeRuneInString(out[j:])
		j += k
		if x > 0xFFFF || x == utf8.RuneError {
			continue
		}
		if want := rune(hanjaT().reading[x]); want != 0 {
			w.nt = true
			w.count("readings observed")
			if y != want {
				return fmt.Sprintf("%c (%U) in %q was read %q, its reading is %c", x, x, b[max(0, i-15):min(len(b), i+12)], y, want)
			}
		}
	}
	return ""
}

// ksOrder checks the order of the standard on observed readings: KS X 1001
// lists its hanja by reading, a character once for each of its readings.
// Characters listed repeatedly must fit in one of their places.
func ksOrder(w *W) string {
	type pos struct{ c, u rune } // as listed, and as unified
	var l []pos
	count := map[rune]int{}
	unified := map[rune]bool{}
	for lead := 0xCA; lead <= 0xFD; lead++ {
		for t := 0xA1; t <= 0xFE; t++ {
			c := rune(cp().dec[lead<<8|t])
			if c == 0 {
				continue
			}
			u := []rune(norm.NFC.String(string(c)))[0]
			l = append(l, pos{c, u})
			count[u]++
			if c != u { // listed again, sometimes in a variant form
				count[u]++
			} else {
				unified[u] = true
			}
		}
	}
	if len(l) != 4888 {
		panic(harnessBug(fmt.Sprintf("KS X 1001 has %d hanja in the reference", len(l))))
	}
	// lo and hi: readings of the nearest characters listed only once
	lo, hi := make([]rune, len(l)), make([]rune, len(l))
	prev, at := rune(sylLo), -1
	for i, p := range l {
		lo[i] = prev
		if count[p.u] == 1 {
			y := observed(p.u)
			if y < prev {
				return fmt.Sprintf("KS X 1001 lists %c after %c, but they are read %c and %c", p.c, l[at].c, y, prev)
			}
			prev, at = y, i
			w.count("KS X 1001 hanja in order")
		}
	}
	next := rune(sylHi)
	for i := len(l) - 1; i >= 0; i-- {
		hi[i] = next
		if count[l[i].u] == 1 {
			next = observed(l[i].u)
		}
	}
	ok := map[rune]bool{}
	for i, p := range l {
		if count[p.u] > 1 {
			y := observed(p.u)
			if lo[i] <= y && y <= hi[i] {
				ok[p.u] = true
			} else if !ok[p.u] {
				ok[p.u] = false
			}
		}
	}
	for u, k := range ok {
		if !unified[u] { // listed only as a duplicate of a variant form: 90CE, 96B8
			continue
		}
		w.count("KS X 1001 hanja with several readings")
		if !k {
			return fmt.Sprintf("%c is read %c, where KS X 1001 does not list it", u, observed(u))
		}
	}
	return ""
}

func observed(u rune) rune {
	y, _ := utf8.DecodeRuneInString(hanja.Convert(string(u)))
	return y
}

func init() {
	register(&Prop{ID: "C19",
		Rule: "Every one of the 27496 hanja converted alone and in eight contexts, beside every other (quick: of those CP949 can represent), and in random and related texts of hanja among other characters, each reading observed compared with the pinned reading (7461 confirmed by ICU's Korean collation data, 12 by the order of KS X 1001); and, without the pinned readings, the order of KS X 1001 on the readings observed. Non-trivial: every case with a hanja (duplicates counted once).",
		Min:  map[string]int64{"pairs of neighbours": 20000000, "hanja": 27496, "readings observed": 300000, "KS X 1001 hanja in order": 4000, "KS X 1001 hanja with several readings": 200},
		Kinds: map[string]Eval{
			"text":    func(w *W, c *Case) string { return c19Text(w, c.S[0]) },
			"related": each(c19Text),
			"order":   func(w *W, c *Case) string { w.nt = true; return ksOrder(w) },
			"hanja": func(w *W, c *Case) string { // R = hanja, neighbour
				x, y := rune(c.R[0]), rune(c.R[1])
				w.nt = true
				w.count("hanja")
				for _, t := range [][]rune{{x}, {x, x}, {x, y}, {y, x}, {'가', x}, {x, '가'}, {' ', x, ','}, {y, x, y, x, y}, {'漢', x, '字', y, '한', x, 'A'}} {
					if s := c19Text(w, []byte(string(t))); s != "" {
						return s
					}
				}
				return ""
			},
		},
		Drive: func(m *M) {
			l := hanjaT().list
			m.Par("hanja", 64, func(w *W, i int) {
				w.dedup = false
				for k := i; k < len(l); k += 64 {
					y := pick(w.rng, l)
					if w.rng.IntN(3) == 0 {
						y = l[(k+1)%len(l)]
					}
					w.Do(&Case{Kind: "hanja", R: []int64{int64(l[k]), int64(y)}})
				}
			})
			ks := l[:0:0] // those that Korean text has
			for _, r := range l {
				if r < 0x10000 && cp().enc[r] != 0 {
					ks = append(ks, r)
				}
			}
			if m.thorough {
				ks = l
			}
			neighbours(m, "pairs", "text", encoded(ks), encoded(ks), true)
			families(m, "related", m.N(10000, 200000), false, func(w *W) []byte { return hanjaText(w, size(w.rng, 1<<14), true) })
			m.Seq("order", func(w *W) { w.Do(&Case{Kind: "order"}) })
			corpora(m, "text", m.N(80000, 800000), func(w *W) bool {
				return w.Do(&Case{Kind: "text", S: [][]byte{hanjaText(w, size(w.rng, m.N(1<<17+64, 1<<20)), true)}})
			})
			m.Par("all", m.N(16, 512), func(w *W, i int) { // every hanja in one text, shuffled
				p := append([]rune(nil), l...)
				w.rng.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
				w.Do(&Case{Kind: "text", S: [][]byte{[]byte(string(p))}})
			})
		},
	})
}
