package main

import (
	"fmt"
	"math"
	"strings"
	"unicode/utf8"

	hangul "github.com/suapapa/go_hangul"
)

// runeBlocks drives kind over rune ranges R=[lo,hi). If full, over every
// int32; otherwise over [-2^21, 2^21), everything that agrees with a Hangul
// letter (or a neighbour of one) in its low 16 bits, and random blocks.
func runeBlocks(m *M, kind string, full bool) {
	if full {
		const blk = 1 << 18
		n := 1 << 32 / blk
		m.Par(kind, n, func(w *W, i int) {
			lo := int64(math.MinInt32) + int64(i)*blk
			w.DoN(&Case{Kind: kind, R: []int64{lo, lo + blk}}, blk)
		})
		m.mu.Lock()
		m.exhaustive = true
		m.mu.Unlock()
		return
	}
	const blk = 1 << 13
	m.Par(kind, 1<<22/blk, func(w *W, i int) {
		lo := int64(-1<<21) + int64(i)*blk
		w.DoN(&Case{Kind: kind, R: []int64{lo, lo + blk}}, blk)
	})
	m.Par(kind+"/alias", 256, func(w *W, i int) {
		for k := i * 256; k < i*256+256; k++ {
			base := int64(int32(uint32(k) << 16))
			if -1<<21 <= base && base < 1<<21 {
				continue
			}
			for _, x := range [][2]int64{{0x10F0, 0x1210}, {0x3120, 0x31A0}, {0xABF0, 0xAC20}, {0xD790, 0xD7B0}} {
				w.DoN(&Case{Kind: kind, R: []int64{base + x[0], base + x[1]}}, x[1]-x[0])
			}
		}
	})
	m.Par(kind+"/random", m.N(64, 1024), func(w *W, i int) {
		for k := 0; k < 64; k++ {
			lo := int64(int32(w.rng.Uint32())) &^ 1023
			w.DoN(&Case{Kind: kind, R: []int64{lo, lo + 1024}}, 1024)
		}
	})
}

// runeSeqs drives kind over random sequences of runes, which looks for results
// that depend on earlier calls.
func runeSeqs(m *M, kind string, n int) {
	m.Par(kind, 64, func(w *W, i int) {
		for k := 0; k < n/64; k++ {
			c := &Case{Kind: kind, R: make([]int64, 2+w.rng.IntN(62))}
			var pool [6]int64
			for j := range pool {
				pool[j] = randRune(w)
			}
			for j := range c.R {
				if w.rng.IntN(2) == 0 {
					c.R[j] = pool[w.rng.IntN(len(pool))]
				} else {
					c.R[j] = randRune(w)
				}
			}
			if !w.Do(c) {
				return
			}
		}
	})
}

func randRune(w *W) int64 {
	r := w.rng
	switch r.IntN(9) {
	case 0, 1, 2:
		return int64(pick(r, jamo().forms))
	case 3, 4:
		return int64(sylLo + r.IntN(11172))
	case 5:
		return int64(pick(r, dic().runes))
	case 6:
		return int64(pick(r, jamo().forms)) + int64(int32(r.Uint32())&^0xffff)
	case 7:
		return int64(r.IntN(0x110000))
	}
	return int64(int32(r.Uint32()))
}

// over calls f for every rune of a range or sequence case.
func over(w *W, c *Case, f func(r rune) string) string {
	w.note = "rune"
	if strings.HasPrefix(c.Kind, "seq") {
		for _, v := range c.R {
			w.pos = v
			if s := f(rune(int32(v))); s != "" {
				return s
			}
		}
		w.nt = true
		return ""
	}
	for v := c.R[0]; v < c.R[1]; v++ {
		w.pos = v
		r := rune(int32(v))
		if s := f(r); s != "" {
			return s
		}
	}
	return ""
}

// interesting: Hangul, within 16 of it, or equal to it modulo 2^16.
func interesting(r rune) bool {
	x := uint16(r)
	return 0x10F0 <= x && x < 0x1210 || 0x3120 <= x && x < 0x31A0 || 0xABF0 <= x && x < 0xD7B0
}

// --- C01 -----------------------------------------------------------------------

func c01Split(w *W, r rune) string {
	l, m, t := hangul.Split(r)
	if !isSyl(r) {
		if l != 0 || m != 0 || t != 0 {
			return fmt.Sprintf("Split(%#x) = %#x, %#x, %#x for a rune that is no syllable", r, l, m, t)
		}
		if interesting(r) {
			w.ntn++
			if cl, cm, ct := hangul.SplitCompat(r); cl != 0 || cm != 0 || ct != 0 {
				return fmt.Sprintf("SplitCompat(%#x) = %#x, %#x, %#x for a rune that is no syllable", r, cl, cm, ct)
			}
		}
		return ""
	}
	w.ntn++
	w.count("syllables split")
	d := nfd()[r-sylLo]
	if l != d[0] || m != d[1] || t != d[2] {
		return fmt.Sprintf("Split(%c) = %#x, %#x, %#x; canonical decomposition %#x", r, l, m, t, d)
	}
	cl, cm, ct := hangul.SplitCompat(r)
	var wt rune
	if d[2] != 0 {
		wt = jamo().cls[d[2]].compat
	}
	if cl != jamo().cls[d[0]].compat || cm != jamo().cls[d[1]].compat || ct != wt {
		return fmt.Sprintf("SplitCompat(%c) = %#x, %#x, %#x", r, cl, cm, ct)
	}
	if j := hangul.Join(l, m, t); j != r {
		return fmt.Sprintf("Join(Split(%c)) = %#x", r, j)
	}
	if j := hangul.Join(cl, cm, ct); j != r {
		return fmt.Sprintf("Join(SplitCompat(%c)) = %#x", r, j)
	}
	return ""
}

func init() {
	register(&Prop{ID: "C01",
		Rule: "Split over every int32 value (SplitCompat and Join too, for runes whose low 16 bits are Hangul or near it); every valid letter triple in all conjoining/compatibility mixtures through Join; random call sequences. Non-trivial: syllables and runes that agree with Hangul or a neighbour in the low 16 bits, and every triple.",
		Min:  map[string]int64{"syllables split": 11172, "joined triples": 11172, "distinct joined syllables": 11172},
		Kinds: map[string]Eval{
			"split": func(w *W, c *Case) string { return over(w, c, func(r rune) string { return c01Split(w, r) }) },
			"scompat": func(w *W, c *Case) string {
				return over(w, c, func(r rune) string {
					l, m, t := hangul.SplitCompat(r)
					if !isSyl(r) && (l != 0 || m != 0 || t != 0) {
						return fmt.Sprintf("SplitCompat(%#x) = %#x, %#x, %#x for a rune that is no syllable", r, l, m, t)
					}
					return ""
				})
			},
			"seqsplit": func(w *W, c *Case) string { return over(w, c, func(r rune) string { return c01Split(w, r) }) },
			"join": func(w *W, c *Case) string {
				w.nt = true
				s := rune(c.R[0])
				d := nfd()[s-sylLo]
				var f [3][2]rune
				for i, x := range d {
					f[i][0] = x
					if x != 0 {
						f[i][1] = jamo().cls[x].compat
					}
				}
				for k := 0; k < 8; k++ {
					a, b, e := f[0][k&1], f[1][k>>1&1], f[2][k>>2]
					if j := hangul.Join(a, b, e); j != s {
						return fmt.Sprintf("Join(%#x, %#x, %#x) = %#x, want %c", a, b, e, j, s)
					}
					w.count("joined triples")
				}
				return ""
			},
			"injective": func(w *W, c *Case) string {
				seen := map[rune][3]rune{}
				for _, l := range jamo().letters {
					for _, m := range jamo().letters {
						for _, t := range append([]*letter{{}}, jamo().letters...) {
							if l.lead == 0 || m.med == 0 || t.tail == 0 && t.compat != 0 {
								continue
							}
							w.nt = true
							j := hangul.Join(l.lead, m.med, t.tail)
							if p, ok := seen[j]; ok {
								return fmt.Sprintf("Join(%#x, %#x, %#x) = Join(%#x) = %#x", l.lead, m.med, t.tail, p, j)
							}
							seen[j] = [3]rune{l.lead, m.med, t.tail}
						}
					}
				}
				w.add("distinct joined syllables", int64(len(seen)))
				return ""
			},
		},
		Drive: func(m *M) {
			if s := checkNFD(); s != "" {
				m.bug(s)
				return
			}
			m.Seq("inj", func(w *W) { w.Do(&Case{Kind: "injective"}) })
			runeSeqs(m, "seqsplit", m.N(250000, 2000000))
			m.Par("join", 64, func(w *W, i int) {
				w.dedup = false
				for s := sylLo + i; s <= sylHi; s += 64 {
					w.Do(&Case{Kind: "join", R: []int64{int64(s)}})
				}
			})
			runeBlocks(m, "scompat", m.thorough)
			runeBlocks(m, "split", true)
		},
	})
}

// --- C02 -----------------------------------------------------------------------

func refJoin(l, m, t rune) rune {
	j := jamo()
	a, b := j.letterOf(l), j.letterOf(m)
	if a == nil || b == nil || a.lead == 0 || b.med == 0 || (l != a.lead && l != a.compat) {
		return utf8.RuneError
	}
	ti := rune(0)
	if t != 0 {
		e := j.letterOf(t)
		if e == nil || e.tail == 0 || (t != e.tail && t != e.compat) {
			return utf8.RuneError
		}
		ti = e.tail - 0x11A7
	}
	return sylLo + ((a.lead-0x1100)*21+(b.med-0x1161))*28 + ti
}

func joinUniverse() []rune {
	seen := map[rune]bool{}
	var u []rune
	add := func(l ...rune) {
		for _, r := range l {
			if !seen[r] {
				seen[r] = true
				u = append(u, r)
			}
		}
	}
	rng := func(a, b rune) {
		for ; a <= b; a++ {
			add(a)
		}
	}
	add(jamo().forms...)
	rng(0x10FC, 0x1203)
	rng(0x312C, 0x3193)
	rng(0xA95E, 0xA97E)
	rng(0xD7AE, 0xD7FE)
	rng(0xFFA0, 0xFFDE) // halfwidth
	add(0, -1, 1, 'A', 0xFFFD, 0xAC00, 0xAC01, 0xD7A3, 0xABFF, 0xD7A4, 0x110000, math.MaxInt32, math.MinInt32, -0x1100, -0x1161, -0x11A8)
	add(dic().runes...)
	for _, r := range jamo().forms {
		add(r+0x10000, r-0x10000, -r)
	}
	return u
}

func init() {
	register(&Prop{ID: "C02",
		Rule: "Join on every triple over a universe of all Hangul letter blocks (modern, archaic, halfwidth, extended), their 16-bit aliases, negatives and boundary values, plus every rune 0..10FFFF and random int32 values in each position next to valid letters. Non-trivial: at least two of the three arguments are valid for their position.",
		Min:  map[string]int64{"accepted": 87780, "refused with exactly one invalid letter": 100000},
		Kinds: map[string]Eval{
			"join": func(w *W, c *Case) string {
				l, m, t := rune(int32(c.R[0])), rune(int32(c.R[1])), rune(int32(c.R[2]))
				w.nt = true
				if j := hangul.Join(l, m, t); j != refJoin(l, m, t) {
					return fmt.Sprintf("Join(%#x, %#x, %#x) = %#x, want %#x", l, m, t, j, refJoin(l, m, t))
				}
				return ""
			},
			"plane": func(w *W, c *Case) string { // R = l, m: all t of the universe
				l, m := rune(int32(c.R[0])), rune(int32(c.R[1]))
				w.note = "tail"
				okl, okm := refJoin(l, 0x1161, 0) != utf8.RuneError, refJoin(0x1100, m, 0) != utf8.RuneError
				for _, t := range c02U() {
					w.pos = int64(t)
					want := refJoin(l, m, t)
					if j := hangul.Join(l, m, t); j != want {
						return fmt.Sprintf("Join(%#x, %#x, %#x) = %#x, want %#x", l, m, t, j, want)
					}
					if want != utf8.RuneError {
						w.count("accepted")
						w.ntn++
					} else if okl && okm || (okl || okm) && c02Tail(t) {
						w.count("refused with exactly one invalid letter")
						w.ntn++
					}
				}
				return ""
			},
			"pos": func(w *W, c *Case) string { // R = lo, hi, position, two fixed letters
				w.note = "rune"
				for v := c.R[0]; v < c.R[1]; v++ {
					w.pos = v
					a := [3]rune{}
					k := 3
					for i := range a {
						if int64(i) == c.R[2] {
							a[i] = rune(int32(v))
						} else {
							a[i] = rune(c.R[k])
							k++
						}
					}
					want := refJoin(a[0], a[1], a[2])
					if j := hangul.Join(a[0], a[1], a[2]); j != want {
						return fmt.Sprintf("Join(%#x, %#x, %#x) = %#x, want %#x", a[0], a[1], a[2], j, want)
					}
					w.ntn++
				}
				return ""
			},
		},
		Drive: func(m *M) {
			u := c02U()
			m.Par("plane", len(u), func(w *W, i int) {
				for _, b := range u {
					if !w.DoN(&Case{Kind: "plane", R: []int64{int64(u[i]), int64(b)}}, int64(len(u))) {
						return
					}
				}
			})
			fixed := [3][][2]int64{
				{{0x1161, 0}, {0x1175, 0x11C2}, {0x3157, 0x3131}},
				{{0x1100, 0}, {0x1112, 0x11C2}, {0x3147, 0x314E}},
				{{0x1100, 0x1161}, {0x1112, 0x1175}, {0x3145, 0x3163}},
			}
			m.Par("pos", 9*512, func(w *W, i int) {
				p, f, b := i%3, i/3%3, i/9
				x := fixed[p][f]
				const blk = 0x120000 / 256
				lo := int64(b%256) * blk
				if b >= 256 {
					lo = int64(int32(w.rng.Uint32()))
				}
				w.DoN(&Case{Kind: "pos", R: []int64{lo, lo + blk, int64(p), x[0], x[1]}}, blk)
			})
			m.Par("join", 64, func(w *W, i int) {
				for k := 0; k < m.N(5000, 200000); k++ {
					if !w.Do(&Case{Kind: "join", R: []int64{randRune(w), randRune(w), randRune(w)}}) {
						return
					}
				}
			})
			if m.thorough { // every int32 in each position
				m.Par("posfull", 3*16384, func(w *W, i int) {
					p, b := i%3, i/3
					x := fixed[p][2]
					const blk = 1 << 18
					lo := int64(math.MinInt32) + int64(b)*blk
					w.DoN(&Case{Kind: "pos", R: []int64{lo, lo + blk, int64(p), x[0], x[1]}}, blk)
				})
			}
		},
	})
}

var c02Universe []rune

func c02U() []rune {
	if c02Universe == nil {
		c02Universe = joinUniverse()
	}
	return c02Universe
}

func c02Tail(t rune) bool {
	return t == 0 || refJoin(0x1100, 0x1161, t) != utf8.RuneError
}

// --- C03 -----------------------------------------------------------------------

func c03(w *W, r rune) string {
	lead := 0x1100 <= r && r <= 0x1112
	med := 0x1161 <= r && r <= 0x1175
	tail := 0x11A8 <= r && r <= 0x11C2
	jaeum := lead || tail || 0x3131 <= r && r <= 0x314E
	moeum := med || 0x314F <= r && r <= 0x3163
	han := jaeum || moeum || 0xAC00 <= r && r <= 0xD7A3
	if hangul.IsLead(r) != lead || hangul.IsMedial(r) != med || hangul.IsTail(r) != tail ||
		hangul.IsJaeum(r) != jaeum || hangul.IsMoeum(r) != moeum || hangul.IsHangul(r) != han {
		return fmt.Sprintf("%#x: IsLead %v (%v) IsMedial %v (%v) IsTail %v (%v) IsJaeum %v (%v) IsMoeum %v (%v) IsHangul %v (%v); specified values in parentheses", r,
			hangul.IsLead(r), lead, hangul.IsMedial(r), med, hangul.IsTail(r), tail,
			hangul.IsJaeum(r), jaeum, hangul.IsMoeum(r), moeum, hangul.IsHangul(r), han)
	}
	if han {
		w.count("Hangul accepted")
	}
	if interesting(r) {
		w.ntn++
	}
	return ""
}

func init() {
	f := func(w *W, c *Case) string { return over(w, c, func(r rune) string { return c03(w, r) }) }
	register(&Prop{ID: "C03",
		Rule:  "All six classification functions on every int32 value, and random call sequences. Non-trivial: runes that agree with Hangul or a neighbour in the low 16 bits.",
		Min:   map[string]int64{"Hangul accepted": 11290},
		Kinds: map[string]Eval{"cls": f, "seqcls": f},
		Drive: func(m *M) {
			runeSeqs(m, "seqcls", m.N(250000, 2000000))
			runeBlocks(m, "cls", true)
		},
	})
}

// --- C04 -----------------------------------------------------------------------

func c04(w *W, r rune) string {
	l := jamo().letterOf(r)
	var c, a, b, t rune
	if l != nil {
		c = l.compat
		if r == l.compat || r == l.lead {
			a = l.lead
		}
		b = l.med
		if r == l.compat || r == l.tail {
			t = l.tail
		}
		w.count("letters converted")
	}
	if g := hangul.CompatJamo(r); g != c {
		return fmt.Sprintf("CompatJamo(%#x) = %#x, want %#x", r, g, c)
	}
	if g := hangul.Lead(r); g != a {
		return fmt.Sprintf("Lead(%#x) = %#x, want %#x", r, g, a)
	}
	if g := hangul.Medial(r); g != b {
		return fmt.Sprintf("Medial(%#x) = %#x, want %#x", r, g, b)
	}
	if g := hangul.Tail(r); g != t {
		return fmt.Sprintf("Tail(%#x) = %#x, want %#x", r, g, t)
	}
	if interesting(r) {
		w.ntn++
	}
	return ""
}

func init() {
	f := func(w *W, c *Case) string { return over(w, c, func(r rune) string { return c04(w, r) }) }
	register(&Prop{ID: "C04",
		Rule:  "CompatJamo, Lead, Medial and Tail on all runes in [-2^21, 2^21), all 16-bit aliases of the letter blocks and random blocks (thorough: every int32), and random call sequences. Non-trivial: runes that agree with Hangul or a neighbour in the low 16 bits.",
		Min:   map[string]int64{"letters converted": 118},
		Kinds: map[string]Eval{"conv": f, "seqconv": f},
		Drive: func(m *M) {
			runeSeqs(m, "seqconv", m.N(250000, 2000000))
			runeBlocks(m, "conv", m.thorough)
		},
	})
}

// --- C05 -----------------------------------------------------------------------

func c05(w *W, r rune) string {
	es, ok := hangul.SplitMultiElement(r)
	l := jamo().letterOf(r)
	if interesting(r) {
		w.ntn++
	}
	if l == nil || len(l.parts) < 2 {
		if ok || len(es) != 0 {
			return fmt.Sprintf("SplitMultiElement(%#x) = %#x, %v for a rune that is no compound letter", r, es, ok)
		}
		return ""
	}
	w.count("compound letters split")
	if !ok || len(es) != len(l.parts) {
		return fmt.Sprintf("SplitMultiElement(%#x) = %#x, %v; want %#x", r, es, ok, l.parts)
	}
	for i, e := range es {
		if e != l.parts[i] {
			return fmt.Sprintf("SplitMultiElement(%#x) = %#x; want %#x", r, es, l.parts)
		}
		if x, ok := hangul.SplitMultiElement(e); ok {
			return fmt.Sprintf("SplitMultiElement(%#x) = %#x, of which %#x splits into %#x", r, es, e, x)
		}
	}
	return ""
}

func init() {
	f := func(w *W, c *Case) string { return over(w, c, func(r rune) string { return c05(w, r) }) }
	register(&Prop{ID: "C05",
		Rule: "SplitMultiElement on all runes in [-2^21, 2^21), all 16-bit aliases of the letter blocks and random blocks (thorough: every int32); call histories in which each returned slice is overwritten up to its capacity and appended to, after which all letters and all strokes are observed again. Non-trivial: runes that agree with Hangul or a neighbour in the low 16 bits, and every history.",
		Min:  map[string]int64{"compound letters split": 27 + 21, "slices overwritten": 1000},
		Kinds: map[string]Eval{"multi": f, "seqmulti": f,
			"mutate": func(w *W, c *Case) string {
				w.nt = true
				w.note = "rune"
				var kept [][]rune
				var want []rune
				for _, v := range c.R {
					w.pos = v
					r := rune(int32(v))
					if s := c05(w, r); s != "" {
						return s + " (after modifying earlier results)"
					}
					es, ok := hangul.SplitMultiElement(r)
					if ok {
						w.count("slices overwritten")
						full := es[:cap(es)]
						for i := range full {
							full[i] = rune(0x3131 + (i*7+int(v&0xff))%51)
						}
						_ = append(es, 'X')
						es2, _ := hangul.SplitMultiElement(r)
						kept = append(kept, es2)
						want = append(want, r)
					}
					if k := jamo().forms[uint32(v)%118]; hangul.Stroke(k) != refStroke(k) {
						return fmt.Sprintf("Stroke(%#x) = %d after modifying a result of SplitMultiElement", k, hangul.Stroke(k))
					}
				}
				for i, es := range kept {
					l := jamo().letterOf(want[i])
					for k := range es {
						if len(es) != len(l.parts) || es[k] != l.parts[k] {
							return fmt.Sprintf("an earlier result of SplitMultiElement(%#x) became %#x", want[i], es)
						}
					}
				}
				for _, r := range jamo().forms {
					if s := c05(w, r); s != "" {
						return s + " (after modifying earlier results)"
					}
				}
				return ""
			}},
		Drive: func(m *M) {
			runeSeqs(m, "seqmulti", m.N(120000, 1000000))
			m.Par("mutate", 64, func(w *W, i int) {
				for k := 0; k < m.N(60, 3000); k++ {
					c := &Case{Kind: "mutate"}
					for j := 0; j < 1+w.rng.IntN(80); j++ {
						c.R = append(c.R, randRune(w))
					}
					if !w.Do(c) {
						return
					}
				}
			})
			runeBlocks(m, "multi", m.thorough)
		},
	})
}

// --- C06 -----------------------------------------------------------------------

func init() {
	f := func(w *W, c *Case) string {
		return over(w, c, func(r rune) string {
			g, x := hangul.Stroke(r), refStroke(r)
			if g != x {
				return fmt.Sprintf("Stroke(%#x) = %d, want %d", r, g, x)
			}
			if x != 0 {
				w.count("counted")
			}
			if interesting(r) {
				w.ntn++
			}
			return ""
		})
	}
	register(&Prop{ID: "C06",
		Rule: "Stroke on all runes in [-2^21, 2^21), all 16-bit aliases of the letter blocks and random blocks (thorough: every int32), random call sequences, and for every syllable and compound letter the sum of the observed counts of its parts. Non-trivial: runes that agree with Hangul or a neighbour in the low 16 bits.",
		Min:  map[string]int64{"counted": 11290, "sums": 11223},
		Kinds: map[string]Eval{"stroke": f, "seqstroke": f,
			"sum": func(w *W, c *Case) string { // observed additivity, without the reference counts
				r := rune(c.R[0])
				w.nt = true
				w.count("sums")
				var p []rune
				if isSyl(r) {
					d := nfd()[r-sylLo]
					p = d[:]
				} else {
					p = jamo().letterOf(r).parts
				}
				n := 0
				for _, x := range p {
					if x != 0 {
						n += hangul.Stroke(x)
					}
				}
				if g := hangul.Stroke(r); g != n {
					return fmt.Sprintf("Stroke(%c) = %d but its parts %#x add up to %d", r, g, p, n)
				}
				return ""
			}},
		Drive: func(m *M) {
			m.Seq("sum", func(w *W) {
				for r := int64(sylLo); r <= sylHi; r++ {
					w.Do(&Case{Kind: "sum", R: []int64{r}})
				}
				for _, r := range jamo().forms {
					w.Do(&Case{Kind: "sum", R: []int64{int64(r)}})
				}
			})
			runeSeqs(m, "seqstroke", m.N(250000, 2000000))
			runeBlocks(m, "stroke", m.thorough)
		},
	})
}

// --- C07 -----------------------------------------------------------------------

func c07(w *W, c *Case) string {
	for _, s := range c.S {
		word := string(s)
		t, alt := refTail(s)
		g := hangul.LastConsonant(word)
		if g != t && g != alt {
			return fmt.Sprintf("LastConsonant(%q) = %#x, want %#x", clip(s), g, t)
		}
		if e := hangul.EndsWithConsonant(word); e != (g != 0) {
			return fmt.Sprintf("EndsWithConsonant(%q) = %v but LastConsonant = %#x", clip(s), e, g)
		}
		if t != 0 {
			w.count("words with a last consonant")
		} else {
			w.count("words without a last consonant")
		}
		if len(s) == 0 {
			w.count("empty words")
		}
		if word != string(s) {
			return "the word changed"
		}
		w.nt = true
	}
	return ""
}

// clip shortens a text for messages, keeping its end.
func clip(b []byte) string {
	if len(b) <= 64 {
		return string(b)
	}
	return fmt.Sprintf("[%d bytes]...%s", len(b), b[len(b)-48:])
}

// wordFor makes words whose final character is r.
func wordsFor(w *W, r rune, k int) []byte {
	var b []byte
	switch k {
	case 0:
	case 1:
		b = append(b, pick(w.rng, words)...)
	case 2:
		b = u8Valid(w.rng, 40)
	case 3:
		b = u8Any(w.rng, 40)
	case 4:
		b = utf8.AppendRune(b, r)
	default:
		b = u8Any(w.rng, 4000)
	}
	return utf8.AppendRune(b, r)
}

func init() {
	register(&Prop{ID: "C07",
		Rule: "LastConsonant and EndsWithConsonant on words ending in every Unicode scalar value (bare, repeated, and after Hangul, foreign, malformed and long prefixes), on 18 kinds of ending after every character of the BMP, arbitrary byte strings, long words, and families of related words one after another. Non-trivial: every word (duplicates counted once).",
		Min:  map[string]int64{"words with a last consonant": 10000, "words without a last consonant": 10000, "empty words": 1},
		Kinds: map[string]Eval{"word": c07, "words": c07,
			"final": func(w *W, c *Case) string { // R = lo, hi: words made of the character, or ending in it
				w.note = "rune"
				for v := c.R[0]; v < c.R[1]; v++ {
					w.pos = v
					r := rune(v)
					w.b1 = utf8.AppendRune(w.b1[:0], r)
					for k := 0; k < 5; k++ {
						if k > 1 {
							w.b1 = append(append(w.b1[:0], [...]string{"값", "나", "각\u0301"}[k-2]...), string(r)...)
						}
						t, alt := refTail(w.b1)
						g := hangul.LastConsonant(string(w.b1))
						if g != t && g != alt {
							return fmt.Sprintf("LastConsonant(%q) = %#x, want %#x", w.b1, g, t)
						}
						if e := hangul.EndsWithConsonant(string(w.b1)); e != (g != 0) {
							return fmt.Sprintf("EndsWithConsonant(%q) = %v but LastConsonant = %#x", w.b1, e, g)
						}
						w.b1 = utf8.AppendRune(w.b1, r)
					}
					w.ntn++
				}
				return ""
			}},
		Drive: func(m *M) {
			m.Seq("empty", func(w *W) { w.Do(&Case{Kind: "word", S: [][]byte{{}}}) })
			m.Par("final", 0x110, func(w *W, i int) {
				w.DoN(&Case{Kind: "final", R: []int64{int64(i) << 12, int64(i+1) << 12}}, 1<<12)
			})
			m.Par("prefix", 128, func(w *W, i int) {
				for s := sylLo + i; s <= sylHi; s += 128 {
					for k := 0; k < 6; k++ {
						if !w.Do(&Case{Kind: "word", S: [][]byte{wordsFor(w, rune(s), k)}}) {
							return
						}
					}
				}
				for k := 0; k < m.N(4000, 60000); k++ {
					r := rune(randRune(w))
					if !w.Do(&Case{Kind: "word", S: [][]byte{wordsFor(w, r, w.rng.IntN(6))}}) {
						return
					}
				}
			})
			ends := encoded([]rune("가각갈값힣깋ㄱㅏ\u11a8\u11c2\u1161\u1100A漢.)\u0301\ufe0f🙂"))
			m.Par("pairs", 256, func(w *W, i int) { // every character before some
				for r := rune(i); r < 0x10000; r += 256 {
					c := Case{Kind: "words"}
					for _, e := range ends {
						c.S = append(c.S, append([]byte(string(r)), e...))
					}
					if !w.Do(&c) {
						return
					}
				}
			})
			m.Par("any", 64, func(w *W, i int) {
				for k := 0; k < m.N(4000, 60000); k++ {
					if !w.Do(&Case{Kind: "word", S: [][]byte{u8Any(w.rng, m.N(1<<17+64, 1<<20))}}) {
						return
					}
				}
			})
			phrases(m, "any", m.N(4000, 40000), func(w *W) bool {
				b := u8Any(w.rng, 100)
				if w.rng.IntN(2) == 0 {
					b = utf8.AppendRune(b, rune(randRune(w)))
				}
				return w.Do(&Case{Kind: "word", S: [][]byte{b}})
			})
			families(m, "words", m.N(10000, 200000), false, func(w *W) []byte {
				if w.rng.IntN(2) == 0 {
					return u8Any(w.rng, 3000)
				}
				return wordsFor(w, rune(randRune(w)), w.rng.IntN(6))
			})
			m.Par("related", 64, func(w *W, i int) { // same length, same prefix, one-character changes
				for k := 0; k < m.N(1000, 10000); k++ {
					var c Case
					c.Kind = "words"
					p := u8Valid(w.rng, 60)
					for j := 0; j < 12; j++ {
						x := utf8.AppendRune(append([]byte(nil), p...), rune(sylLo+w.rng.IntN(11172)))
						if w.rng.IntN(3) == 0 {
							x = append(x, pick(w.rng, words)...)
						}
						c.S = append(c.S, x)
						if w.rng.IntN(4) == 0 {
							c.S = append(c.S, c.S[w.rng.IntN(len(c.S))])
						}
					}
					if !w.Do(&c) {
						return
					}
				}
			})
		},
	})
}

// --- C08 -----------------------------------------------------------------------

var particles = [][2]string{{"은", "는"}, {"이", "가"}, {"을", "를"}, {"과", "와"}, {"으로", "로"}, {"이랑", "랑"}, {"아", "야"}, {"이여", "여"}, {"이나", "나"}, {"으로서", "로서"}, {"으로써", "로써"}, {"으로부터", "로부터"}, {"으로 ", "로 "}, {" 으로", " 로"}, {"으", ""}, {"로", "으로"}, {"으로", "으로"}, {"으로", ""}, {"", "으로"}, {"", ""}, {"", "가"}, {"이", ""}, {"a", "b"}, {"으로", "이"}, {"이", "으로"}, {"\u110b\u1173\u1105\u1169", "로"}, {"으로\x00", "로"}, {"\xff", "\xfe"}, {"을", "을"}, {"(은)", "(는)"}, {"ㄹ", "ㅏ"}}

func init() {
	register(&Prop{ID: "C08",
		Rule: "AppendPostposition on every syllable-final word with every particle pair of a list around 은/는 and 으로/로, on words ending in every kind of character, and on arbitrary byte strings as word and particles, and on families of related words one after another. Non-trivial: every case (duplicates counted once).",
		Min:  map[string]int64{"with": 10000, "without": 10000, "exception after ㄹ": 399, "with = 으로 after another consonant": 1000},
		Kinds: map[string]Eval{"posts": func(w *W, c *Case) string { // one call after another
			for i := 0; i+2 < len(c.S); i += 3 {
				if s := c08(w, &Case{S: c.S[i : i+3]}); s != "" {
					return fmt.Sprintf("call %d: %s", i/3+1, s)
				}
			}
			w.count("sequences of related calls")
			return ""
		}, "post": c08},
		Drive: func(m *M) {
			corpora(m, "posts", m.N(20000, 300000), func(w *W) bool {
				b := wordsFor(w, rune(randRune(w)), w.rng.IntN(6))
				if w.rng.IntN(2) == 0 {
					b = u8Any(w.rng, 3000)
				}
				c := &Case{Kind: "posts"}
				p := pick(w.rng, particles)
				x := family(w.rng, append([]byte(p[0]+"\x00"), p[1]...), false, 3)
				for _, b := range family(w.rng, b, false, 2+w.rng.IntN(4)) {
					switch w.rng.IntN(4) {
					case 0:
						p = pick(w.rng, particles)
					case 1:
						p[0], p[1] = p[1], p[0]
					case 2:
						if k := strings.IndexByte(string(x[2]), 0); k >= 0 {
							p[0], p[1] = string(x[2][:k]), string(x[2][k+1:])
						}
					}
					c.S = append(c.S, b, []byte(p[0]), []byte(p[1]))
				}
				return w.Do(c)
			})
			m.Par("syl", 128, func(w *W, i int) {
				for s := sylLo + i; s <= sylHi; s += 128 {
					for k, p := range particles {
						wd := wordsFor(w, rune(s), 0)
						if (k+s)%7 == 0 {
							wd = wordsFor(w, rune(s), 1+w.rng.IntN(5))
						}
						if !w.Do(&Case{Kind: "post", S: [][]byte{wd, []byte(p[0]), []byte(p[1])}}) {
							return
						}
					}
				}
			})
			m.Par("any", 128, func(w *W, i int) {
				for k := 0; k < m.N(6000, 80000); k++ {
					var wd []byte
					if w.rng.IntN(2) == 0 {
						wd = wordsFor(w, rune(randRune(w)), w.rng.IntN(6))
					} else {
						wd = u8Any(w.rng, m.N(1<<14, 1<<18))
					}
					p := pick(w.rng, particles)
					a, b := []byte(p[0]), []byte(p[1])
					if w.rng.IntN(3) == 0 {
						a = u8Any(w.rng, 200)
					}
					if w.rng.IntN(3) == 0 {
						b = u8Any(w.rng, 200)
					}
					if !w.Do(&Case{Kind: "post", S: [][]byte{wd, a, b}}) {
						return
					}
				}
			})
		},
	})
}

func c08(w *W, c *Case) string {
	word, with, without := string(c.S[0]), string(c.S[1]), string(c.S[2])
	t, alt := refTail(c.S[0])
	if t != alt { // a single letter: whatever LastConsonant says
		if g := hangul.LastConsonant(word); g == alt {
			t = g
		}
	}
	want := word + without
	switch {
	case t == 0x11AF && with == "으로":
		w.count("exception after ㄹ")
	case t != 0:
		want = word + with
		w.count("with")
		if with == "으로" {
			w.count("with = 으로 after another consonant")
		}
	default:
		w.count("without")
	}
	w.nt = true
	if g := hangul.AppendPostposition(word, with, without); g != want {
		return fmt.Sprintf("AppendPostposition(%q, %q, %q) = %q", clip(c.S[0]), clip(c.S[1]), clip(c.S[2]), clip([]byte(g)))
	}
	return ""
}
