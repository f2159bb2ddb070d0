package main

// The exported letter constants by name.

import (
	"fmt"

	hangul "github.com/suapapa/go_hangul"
)

var constants = []struct {
	name  string
	value rune
}{
	{"G", hangul.G},
	{"GG", hangul.GG},
	{"GS", hangul.GS},
	{"N", hangul.N},
	{"NJ", hangul.NJ},
	{"NH", hangul.NH},
	{"D", hangul.D},
	{"DD", hangul.DD},
	{"L", hangul.L},
	{"LG", hangul.LG},
	{"LM", hangul.LM},
	{"LB", hangul.LB},
	{"LS", hangul.LS},
	{"LT", hangul.LT},
	{"LP", hangul.LP},
	{"LH", hangul.LH},
	{"M", hangul.M},
	{"B", hangul.B},
	{"BB", hangul.BB},
	{"BS", hangul.BS},
	{"S", hangul.S},
	{"SS", hangul.SS},
	{"ZS", hangul.ZS},
	{"J", hangul.J},
	{"JJ", hangul.JJ},
	{"C", hangul.C},
	{"K", hangul.K},
	{"T", hangul.T},
	{"P", hangul.P},
	{"H", hangul.H},
	{"A", hangul.A},
	{"AE", hangul.AE},
	{"YA", hangul.YA},
	{"YAE", hangul.YAE},
	{"EO", hangul.EO},
	{"E", hangul.E},
	{"YEO", hangul.YEO},
	{"YE", hangul.YE},
	{"O", hangul.O},
	{"WA", hangul.WA},
	{"WAE", hangul.WAE},
	{"OE", hangul.OE},
	{"YO", hangul.YO},
	{"U", hangul.U},
	{"WEO", hangul.WEO},
	{"WE", hangul.WE},
	{"WI", hangul.WI},
	{"YU", hangul.YU},
	{"EU", hangul.EU},
	{"YI", hangul.YI},
	{"I", hangul.I},
	{"NG", hangul.NG},
	{"LeadG", hangul.LeadG},
	{"LeadGG", hangul.LeadGG},
	{"LeadN", hangul.LeadN},
	{"LeadD", hangul.LeadD},
	{"LeadDD", hangul.LeadDD},
	{"LeadR", hangul.LeadR},
	{"LeadM", hangul.LeadM},
	{"LeadB", hangul.LeadB},
	{"LeadBB", hangul.LeadBB},
	{"LeadS", hangul.LeadS},
	{"LeadSS", hangul.LeadSS},
	{"LeadZS", hangul.LeadZS},
	{"LeadJ", hangul.LeadJ},
	{"LeadJJ", hangul.LeadJJ},
	{"LeadC", hangul.LeadC},
	{"LeadK", hangul.LeadK},
	{"LeadT", hangul.LeadT},
	{"LeadP", hangul.LeadP},
	{"LeadH", hangul.LeadH},
	{"MedialA", hangul.MedialA},
	{"MedialAE", hangul.MedialAE},
	{"MedialYA", hangul.MedialYA},
	{"MedialYAE", hangul.MedialYAE},
	{"MedialEO", hangul.MedialEO},
	{"MedialE", hangul.MedialE},
	{"MedialYEO", hangul.MedialYEO},
	{"MedialYE", hangul.MedialYE},
	{"MedialO", hangul.MedialO},
	{"MedialWA", hangul.MedialWA},
	{"MedialWAE", hangul.MedialWAE},
	{"MedialOE", hangul.MedialOE},
	{"MedialYO", hangul.MedialYO},
	{"MedialU", hangul.MedialU},
	{"MedialWEO", hangul.MedialWEO},
	{"MedialWE", hangul.MedialWE},
	{"MedialWI", hangul.MedialWI},
	{"MedialYU", hangul.MedialYU},
	{"MedialEU", hangul.MedialEU},
	{"MedialYI", hangul.MedialYI},
	{"MedialI", hangul.MedialI},
	{"TailG", hangul.TailG},
	{"TailGG", hangul.TailGG},
	{"TailGS", hangul.TailGS},
	{"TailN", hangul.TailN},
	{"TailNJ", hangul.TailNJ},
	{"TailNH", hangul.TailNH},
	{"TailD", hangul.TailD},
	{"TailL", hangul.TailL},
	{"TailLG", hangul.TailLG},
	{"TailLM", hangul.TailLM},
	{"TailLB", hangul.TailLB},
	{"TailLS", hangul.TailLS},
	{"TailLT", hangul.TailLT},
	{"TailLP", hangul.TailLP},
	{"TailLH", hangul.TailLH},
	{"TailM", hangul.TailM},
	{"TailB", hangul.TailB},
	{"TailBS", hangul.TailBS},
	{"TailS", hangul.TailS},
	{"TailSS", hangul.TailSS},
	{"TailNG", hangul.TailNG},
	{"TailJ", hangul.TailJ},
	{"TailC", hangul.TailC},
	{"TailK", hangul.TailK},
	{"TailT", hangul.TailT},
	{"TailP", hangul.TailP},
	{"TailH", hangul.TailH},
}

// wantConst returns the code point a constant's name stands for.
func wantConst(name string) rune {
	j := jamo()
	alias := func(n string) *letter {
		switch n {
		case "R":
			n = "L"
		case "NG":
			n = "ZS"
		}
		return j.byName[n]
	}
	if l := j.byName[name]; l != nil {
		return l.compat
	}
	switch {
	case name == "NG":
		return j.byName["ZS"].compat
	case len(name) > 6 && name[:6] == "Medial":
		return alias(name[6:]).med
	case len(name) > 4 && name[:4] == "Lead":
		return alias(name[4:]).lead
	default:
		return alias(name[4:]).tail
	}
}

func init() {
	register(&Prop{ID: "C22",
		Rule: "Every exported letter constant compared with the code point of its Unicode name, and carried through Lead, Medial, Tail, CompatJamo, Split, Join, Stroke and the classifiers in comparison with the literal character. Non-trivial: every constant, and every syllable spelled with constants.",
		Min:  map[string]int64{"constants": 119, "syllables spelled": 11172},
		Kinds: map[string]Eval{
			"const": func(w *W, c *Case) string {
				k := constants[c.R[0]]
				want := wantConst(k.name)
				w.nt = true
				w.count("constants")
				if k.value != want {
					return fmt.Sprintf("constant %s = %#x, but the letter it names is %#x", k.name, k.value, want)
				}
				l := jamo().letterOf(want)
				if g := hangul.CompatJamo(k.value); g != l.compat {
					return fmt.Sprintf("CompatJamo(%s) = %#x, want %#x", k.name, g, l.compat)
				}
				if g := hangul.Stroke(k.value); g != l.strokes {
					return fmt.Sprintf("Stroke(%s) = %d, want %d", k.name, g, l.strokes)
				}
				if len(k.name) > 4 && (k.name[:4] == "Lead" || k.name[:4] == "Tail") || len(k.name) > 6 && k.name[:6] == "Medial" {
					back := map[byte]func(rune) rune{'L': hangul.Lead, 'T': hangul.Tail, 'M': hangul.Medial}[k.name[0]]
					if g := back(hangul.CompatJamo(k.value)); g != k.value {
						return fmt.Sprintf("converting %s to compatibility form and back gives %#x", k.name, g)
					}
				}
				if hangul.IsJaeum(k.value) == (l.med != 0) || hangul.IsMoeum(k.value) != (l.med != 0) || !hangul.IsHangul(k.value) {
					return fmt.Sprintf("%s is classified wrongly", k.name)
				}
				return ""
			},
			"spell": func(w *W, c *Case) string {
				s := rune(c.R[0])
				d := nfd()[s-sylLo]
				w.nt = true
				w.count("syllables spelled")
				for form := 0; form < 2; form++ {
					var a [3]rune
					for i, x := range d {
						if x != 0 {
							l := jamo().cls[x]
							n := l.name
							if form == 1 {
								switch {
								case i == 0 && n == "L":
									n = "LeadR"
								case i == 0:
									n = "Lead" + n
								case i == 1:
									n = "Medial" + n
								case n == "ZS":
									n = "TailNG"
								default:
									n = "Tail" + n
								}
							}
							v, ok := constByName[n]
							if !ok {
								panic(harnessBug("no constant " + n))
							}
							a[i] = v
						}
					}
					if g := hangul.Join(a[0], a[1], a[2]); g != s {
						return fmt.Sprintf("spelling %c with constants gives %#x", s, g)
					}
					f := hangul.Split
					if form == 0 {
						f = hangul.SplitCompat
					}
					if x, y, z := f(s); x != a[0] || y != a[1] || z != a[2] {
						return fmt.Sprintf("splitting %c gives %#x %#x %#x, not the constants %#x", s, x, y, z, a)
					}
				}
				return ""
			},
		},
		Drive: func(m *M) {
			m.exhaustive = true
			m.Seq("const", func(w *W) {
				for i := range constants {
					w.Do(&Case{Kind: "const", R: []int64{int64(i)}})
				}
				for s := int64(sylLo); s <= sylHi; s++ {
					w.Do(&Case{Kind: "spell", R: []int64{s}})
				}
			})
		},
	})
}

var constByName = func() map[string]rune {
	m := map[string]rune{}
	for _, c := range constants {
		m[c.name] = c.value
	}
	return m
}()
