package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand/v2"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

// Workload generation. Literals that occur in the source of the code under
// test serve as a dictionary: they only steer what is tried, never a verdict.

var repoDir = func() string {
	if d := os.Getenv("REPO"); d != "" {
		return d
	}
	return "/repo"
}()

type dict struct {
	ints  []int
	huge  []int
	runes []rune
	strs  []string
	seqs  [][]rune // literals that follow each other within a function
}

var dictOnce = sync.OnceValue(func() *dict {
	d := &dict{}
	ints := map[int]bool{}
	strs := map[string]bool{}
	seen := map[string]bool{}
	filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || fi.Size() > 200000 {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		for _, x := range f.Decls {
			if fn, ok := x.(*ast.FuncDecl); ok && fn.Body != nil {
				d.sequences(fn.Body, seen)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			if b, ok := n.(*ast.BinaryExpr); ok { // 1<<12, 64*1024
				if v, ok := constExpr(b); ok {
					ints[v] = true
				}
			}
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			if l.Kind == token.STRING {
				if s, err := strconv.Unquote(l.Value); err == nil && s != "" && len(s) < 64 {
					strs[s] = true
				}
			} else if v, ok := constExpr(l); ok {
				ints[v] = true
			}
			return true
		})
		return nil
	})
	runes := map[rune]bool{}
	for v := range ints {
		if v >= 0 && v <= 1<<20 {
			d.ints = append(d.ints, v)
		} else if v > 1<<20 && v <= 1<<25 && len(d.huge) < 3 {
			d.huge = append(d.huge, v)
		}
		for k := -1; k <= 1; k++ {
			if x := v + k; x >= 0 && x <= utf8.MaxRune {
				runes[rune(x)] = true
			}
		}
	}
	for s := range strs {
		d.strs = append(d.strs, s)
		for _, r := range s {
			runes[r] = true
		}
	}
	for r := range runes {
		d.runes = append(d.runes, r)
	}
	sort.Ints(d.ints)
	sort.Strings(d.strs)
	sort.Slice(d.runes, func(i, j int) bool { return d.runes[i] < d.runes[j] })
	if len(d.ints) == 0 {
		d.ints = []int{0}
	}
	if len(d.runes) == 0 {
		d.runes = []rune{'A'}
	}
	if len(d.strs) == 0 {
		d.strs = []string{"A"}
	}
	return d
})

// sequences collects runs of two to five literals close to each other.
func (d *dict) sequences(body ast.Node, seen map[string]bool) {
	type lit struct {
		at token.Pos
		s  string
	}
	var l []lit
	ast.Inspect(body, func(n ast.Node) bool {
		if x, ok := n.(*ast.BasicLit); ok {
			if x.Kind == token.STRING {
				if s, err := strconv.Unquote(x.Value); err == nil && s != "" && len(s) < 64 && utf8.ValidString(s) {
					l = append(l, lit{x.Pos(), s})
				}
			} else if v, ok := constExpr(x); ok && v >= 0x20 && v <= utf8.MaxRune && !(0xD800 <= v && v < 0xE000) {
				l = append(l, lit{x.Pos(), string(rune(v))})
			}
		}
		return true
	})
	for i := range l {
		t := l[i].s
		for k := i + 1; k < len(l) && k < i+5 && l[k].at-l[i].at < 400; k++ {
			t += l[k].s
			if !seen[t] && len(d.seqs) < 3000 {
				seen[t] = true
				d.seqs = append(d.seqs, []rune(t))
			}
		}
	}
}

func constExpr(e ast.Expr) (int, bool) {
	switch x := e.(type) {
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			v, err := strconv.ParseInt(strings.ReplaceAll(x.Value, "_", ""), 0, 64)
			return int(v), err == nil
		case token.CHAR:
			s, err := strconv.Unquote(x.Value)
			if err != nil {
				return 0, false
			}
			r, _ := utf8.DecodeRuneInString(s)
			return int(r), true
		}
	case *ast.ParenExpr:
		return constExpr(x.X)
	case *ast.BinaryExpr:
		a, ok := constExpr(x.X)
		b, ok2 := constExpr(x.Y)
		if !ok || !ok2 {
			return 0, false
		}
		switch x.Op {
		case token.ADD:
			return a + b, true
		case token.SUB:
			return a - b, true
		case token.MUL:
			return a * b, true
		case token.SHL:
			if b >= 0 && b < 32 {
				return a << b, true
			}
		}
	}
	return 0, false
}

func dic() *dict { return dictOnce() }

func pick[T any](r *Rng, l []T) T { return l[r.IntN(len(l))] }

// Rng is a random generator; force, if set, is the size of texts to make, and
// phrase something that texts are to contain.
type Rng struct {
	*rand.Rand
	force  int
	phrase []rune
}

// saying encodes p for a CP949 or UTF-8 text: the characters, the bytes, the
// codes, or hanja with those readings.
func (r *Rng) saying(p []rune, cp949 bool) (b []byte) {
	how := r.IntN(4)
	for _, v := range p {
		switch {
		case how == 0 && v < 0x100:
			b = append(b, byte(v))
			continue
		case how == 1 && isSyl(v):
			if l := hanjaT().of[v]; len(l) > 0 {
				v = pick(r, l)
			}
		}
		switch {
		case !cp949:
			b = utf8.AppendRune(b, v)
		case how == 2 && v >= 0x8000 && v < 0x10000:
			b = append(b, byte(v>>8), byte(v))
		case v < 0x80:
			b = append(b, byte(v))
		case v < 0x10000 && cp().enc[v] != 0:
			b = append(b, byte(cp().enc[v]>>8), byte(cp().enc[v]))
		default:
			b = append(b, byte(v)|0x80, 0xA1)
		}
	}
	for i := 0; cp949 && i < len(b); i++ { // whole characters
		if b[i] >= 0x80 {
			if i++; i == len(b) {
				b = append(b, pick(r, []byte{0xA1, 0xFE, 'A', 0}))
			}
		}
	}
	return b
}

// with puts the phrase, if there is one, into a text.
func (r *Rng) with(b []byte, cp949 bool) []byte {
	if r.phrase == nil {
		return b
	}
	p := r.saying(r.phrase, cp949)
	at := 0
	switch r.IntN(3) {
	case 0:
		at = len(b)
	case 1:
		if k := r.IntN(len(b) + 1); k > 0 {
			for at < k {
				n := 1
				if !cp949 {
					_, n = utf8.DecodeRune(b[at:])
				} else if b[at] >= 0x80 {
					n = 2
				}
				at = min(at+n, len(b))
			}
		}
	}
	return append(append(append([]byte(nil), b[:at]...), p...), b[at:]...)
}

// phrases runs f with every sequence of literals in the texts it makes, in
// either order.
func phrases(m *M, tag string, n int, f func(w *W) bool) {
	l := dic().seqs
	reps := min(60, max(2, n/(2*len(l)+1)))
	m.Par(tag+"/phrases", 64, func(w *W, i int) {
		defer func() { w.rng.force, w.rng.phrase = 0, nil }()
		for k := i; k < 2*len(l); k += 64 {
			p := append([]rune(nil), l[k/2]...)
			if k%2 == 1 {
				slices.Reverse(p)
			}
			for j := 0; j < reps; j++ {
				w.rng.phrase, w.rng.force = p, 1+w.rng.IntN(30)
				if j == 0 {
					w.rng.force = 1
				}
				w.count("texts with sequences of literals")
				if !f(w) {
					return
				}
			}
		}
	})
}

func newRng(a, b uint64) *Rng { return &Rng{Rand: rand.New(rand.NewPCG(a, b))} }

// size picks a length: mostly short, sometimes around a round number or a
// number the source mentions.
func size(r *Rng, max int) int {
	if r.force > 0 {
		return r.force
	}
	n := 0
	switch x := r.IntN(100); {
	case x < 45:
		n = r.IntN(13)
	case x < 70:
		n = r.IntN(100)
	case x < 88:
		n = r.IntN(1000)
	case x < 96:
		n = special(r, 1<<13)
	case x < 98:
		n = r.IntN(10000)
	default:
		n = special(r, max)
	}
	if n > max {
		n = max
	}
	return n
}

func special(r *Rng, max int) int {
	for i := 0; i < 20; i++ {
		var n int
		switch r.IntN(3) {
		case 0:
			n = 1<<(3+r.IntN(18)) + r.IntN(9) - 4
		case 1:
			n = near(r, pick(r, dic().ints))
		default:
			n = 3*(1<<(2+r.IntN(16))) + r.IntN(9) - 4
		}
		if n >= 0 && n <= max {
			return n
		}
	}
	return r.IntN(300)
}

// near returns a size for a text to have about v bytes or characters before
// or after its conversion.
func near(r *Rng, v int) int {
	switch r.IntN(8) {
	case 0:
		v *= 2
	case 1:
		v *= 3
	case 2:
		v /= 2
	case 3:
		v = v * 3 / 2
	case 4:
		v = v * 2 / 3
	}
	return v + r.IntN(7) - 3
}

const largest = 1<<20 + 64

// large picks the length of a long text.
func large(r *Rng) int {
	for {
		n := 0
		switch x := r.IntN(20); {
		case x < 7:
			n = 4000 << r.IntN(6)
			n += r.IntN(n)
		case x < 12:
			n = near(r, 1<<(12+r.IntN(6)))
		case x < 13:
			n = near(r, 1<<(16+r.IntN(5)))
		case x < 15:
			n = 1000 * (4 + r.IntN(100))
		default:
			n = near(r, pick(r, dic().ints)*(1+r.IntN(2)))
			if n < 2000 && r.IntN(10) > 0 {
				continue
			}
		}
		if n > 0 && n <= largest {
			return n
		}
	}
}

var words = []string{"아름다운", "우리말", "대한민국", "물고기", "마을", "서울", "연필", "칼", "강", "그", "GO", "hangul", "2024", "값", "닭", "삶", "넋", "여덟", "외곬", "ㅋㅋ", "ㅏ", "漢字", "大韓民國", "으로", "로", "은", "는", "🙂", "é", "\r\n", "\t", " ", ".", "?", "??", "�", "\u200b", "\u0000", "\ufeff"}

// --- CP949 byte texts ----------------------------------------------------------

const nCPProfiles = 15

// cpText makes about n bytes of whole CP949 characters.
func cpText(r *Rng, n int, profile int) []byte {
	t := cp()
	b := make([]byte, 0, n+2)
	pr := profile
	var a, c [2]byte
	one := func(p int) (x [2]byte, l int) {
		switch p {
		case 0:
			return [2]byte{byte(r.IntN(128))}, 1
		case 1:
			return [2]byte{byte(0xB0 + r.IntN(25)), byte(0xA1 + r.IntN(94))}, 2
		case 2:
			return [2]byte{byte(0x81 + r.IntN(69)), pick(r, []byte{0x41, 0x5a, 0x61, 0x7a, 0x81, 0xa0, byte(0x41 + r.IntN(26)), byte(0x61 + r.IntN(26)), byte(0x81 + r.IntN(32))})}, 2
		case 3:
			return [2]byte{byte(0xCA + r.IntN(52)), byte(0xA1 + r.IntN(94))}, 2
		case 4:
			return [2]byte{byte(0xA1 + r.IntN(15)), byte(0xA1 + r.IntN(94))}, 2
		case 5:
			v := pick(r, t.pairs)
			return [2]byte{byte(v >> 8), byte(v)}, 2
		case 6:
			return [2]byte{byte(0x80 + r.IntN(128)), byte(r.IntN(256))}, 2
		case 7: // lead byte with an unusual second byte
			return [2]byte{pick(r, []byte{0x80, 0x81, 0xA0, 0xA1, 0xC6, 0xC9, 0xFD, 0xFE, 0xFF, byte(0x80 + r.IntN(128))}), pick(r, []byte{0, '\n', '\r', ' ', '0', '?', 'A', 'Z', '[', '@', 'a', 'z', '{', 0x7f, 0x80, 0x81, 0xa0, 0xff, 0xfe})}, 2
		case 8:
			return [2]byte{pick(r, []byte("aA0 \n?."))}, 1
		default:
			v := uint16(pick(r, dic().runes))
			if v < 0x8000 {
				return [2]byte{byte(v) & 0x7f}, 1
			}
			return [2]byte{byte(v >> 8), byte(v)}, 2
		}
	}
	switch pr {
	case 13: // UTF-8 taken for CP949
		b = append(b, u8Text(&Rng{Rand: r.Rand}, n, pick(r, []int{1, 1, 2, 8, 12}), true)...)
		if _, cut := refDec(nil, b); cut {
			b = append(b, pick(r, []byte("aA\xa1\xfe")))
		}
		return r.with(b, true)
	case 14: // one row
		lead := pick(r, []byte{0xA4, 0xA3, 0xA1, 0xA2, 0xC9, byte(0x81 + r.IntN(126))})
		for len(b) < n {
			b = append(b, lead, byte(0xA1+r.IntN(94)))
		}
		return r.with(b, true)
	}
	base := r.IntN(8)
	if pr == 9 || pr == 10 {
		a, _ = one(base)
		c, _ = one(r.IntN(9))
	}
	for len(b) < n {
		switch pr {
		case 9: // one character repeated
			b = app2(b, a)
			continue
		case 10: // two characters alternating
			b = app2(b, a)
			b = app2(b, c)
			continue
		}
		p := pr
		switch pr {
		case 11: // anything
			p = r.IntN(10)
		case 12: // mostly one kind, rarely another
			p = base
			if r.IntN(30) == 0 {
				p = r.IntN(10)
			}
		}
		x, l := one(p)
		b = append(b, x[:l]...)
	}
	return r.with(b, true)
}

func app2(b []byte, x [2]byte) []byte {
	if x[0] < 0x80 {
		return append(b, x[0])
	}
	return append(b, x[0], x[1])
}

// cpAny is cpText of a random profile and size; assigned restricts it to
// ASCII and assigned pairs.
func cpAny(r *Rng, max int) []byte {
	return cpText(r, size(r, max), r.IntN(nCPProfiles))
}

func cpAssigned(r *Rng, max int) []byte {
	n := size(r, max)
	b := make([]byte, 0, n+2)
	mix := r.IntN(6)
	one := pick(r, cp().pairs)
	row := one &^ 0xff
	if r.IntN(2) == 0 {
		row = 0xA400
	}
	for len(b) < n {
		switch {
		case mix == 0 && r.IntN(2) == 0, mix == 1 && r.IntN(10) > 0, r.IntN(12) == 0:
			b = append(b, byte(r.IntN(128)))
		case mix == 3:
			b = append(b, byte(one>>8), byte(one))
		case mix == 4:
			if v := row | uint16(0xA1+r.IntN(94)); cp().dec[v] != 0 {
				b = append(b, byte(v>>8), byte(v))
			}
		case mix == 5: // UTF-8 of two syllables
			x := string([]rune{rune(sylLo + r.IntN(11172)), rune(sylLo + r.IntN(11172))})
			for i := 0; ; i += 2 {
				if i == 6 {
					b = append(b, x...)
					break
				}
				if x[i] < 0x80 || cp().dec[int(x[i])<<8|int(x[i+1])] == 0 {
					break
				}
			}
		default:
			v := pick(r, cp().pairs)
			b = append(b, byte(v>>8), byte(v))
		}
	}
	if r.phrase == nil {
		return b
	}
	all := r.with(b, true)
	b = nil
	for i := 0; i < len(all); i++ {
		if all[i] < 0x80 {
			b = append(b, all[i])
		} else if i++; cp().dec[int(all[i-1])<<8|int(all[i])] != 0 {
			b = append(b, all[i-1], all[i])
		}
	}
	return b
}

// --- UTF-8 texts ---------------------------------------------------------------

const nU8Profiles = 19

func u8Rune(r *Rng, p int) []byte {
	switch p {
	case 0:
		return []byte{byte(r.IntN(128))}
	case 1:
		return utf8.AppendRune(nil, rune(sylLo+r.IntN(11172)))
	case 2:
		return utf8.AppendRune(nil, pick(r, cp().chars))
	case 3: // any BMP
		return utf8.AppendRune(nil, bmp(r))
	case 4: // supplementary, often an alias of a representable character
		x := pick(r, cp().chars)
		if r.IntN(3) == 0 {
			x = rune(r.IntN(65536))
		}
		return utf8.AppendRune(nil, x+rune(1+r.IntN(16))<<16)
	case 5: // stray byte
		return []byte{byte(0x80 + r.IntN(128))}
	case 6: // cut sequence
		s := utf8.AppendRune(nil, pick(r, []rune{'é', '한', '字', 0x1F642, rune(sylLo + r.IntN(11172)), rune(0x10000 + r.IntN(0x100000))}))
		return s[:1+r.IntN(len(s))]
	case 7: // surrogates, overlong forms, beyond Unicode
		switch r.IntN(4) {
		case 0:
			v := 0xD800 + r.IntN(2048)
			return []byte{0xE0 | byte(v>>12), 0x80 | byte(v>>6)&0x3f, 0x80 | byte(v)&0x3f}
		case 1:
			return []byte{0xC0 | byte(r.IntN(2)), 0x80 | byte(r.IntN(64))}
		case 2:
			return []byte{0xE0, 0x80 | byte(r.IntN(32)), 0x80 | byte(r.IntN(64))}
		default:
			return []byte{0xF4 + byte(r.IntN(4)), 0x90 | byte(r.IntN(48)), 0x80 | byte(r.IntN(64)), 0x80 | byte(r.IntN(64))}
		}
	case 8:
		return []byte(pick(r, words))
	case 9:
		return utf8.AppendRune(nil, pick(r, dic().runes))
	case 10:
		return []byte(pick(r, dic().strs))
	case 11:
		return utf8.AppendRune(nil, pick(r, jamo().forms))
	case 12:
		return utf8.AppendRune(nil, pick(r, hanjaT().list))
	case 13: // decomposed syllable
		var b []byte
		for _, x := range nfd()[r.IntN(11172)] {
			if x != 0 {
				b = utf8.AppendRune(b, x)
			}
		}
		return b
	case 14:
		return utf8.AppendRune(nil, pick(r, []rune{0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xabff, 0xac00, 0xd7a3, 0xd7a4, 0xe000, 0xf8ff, 0xf900, 0xfa0b, 0xffe5, 0xffe6, 0xffe7, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1ffff, 0x2f800, 0x10ffff}))
	}
	return []byte{pick(r, []byte("aA0 \n?."))}
}

func bmp(r *Rng) rune {
	for {
		if x := rune(r.IntN(65536)); x < 0xD800 || x > 0xDFFF {
			return x
		}
	}
}

// u8Text makes at least n bytes of text; profiles 5 to 7 and the mixed ones
// contain malformed sequences unless valid is set.
func u8Text(r *Rng, n, profile int, valid bool) []byte {
	b := make([]byte, 0, n+8)
	if profile == 18 { // one row of CP949
		b, _ = refDec(b, cpText(&Rng{Rand: r.Rand}, n*2/3+1, 14))
		return r.with(b, false)
	}
	base, other := r.IntN(15), r.IntN(15)
	fix := u8Rune(r, base)
	for len(b) < n {
		p := profile
		switch profile {
		case 15:
			p = r.IntN(15)
		case 16:
			p = base
			if r.IntN(30) == 0 {
				p = other
			}
		case 17:
			if valid && !utf8.Valid(fix) {
				fix = []byte("한")
			}
			b = append(b, fix...)
			continue
		}
		x := u8Rune(r, p)
		if valid && !utf8.Valid(x) {
			x = []byte{byte('a' + r.IntN(26))}
		}
		b = append(b, x...)
	}
	b = r.with(b, false)
	if valid {
		b = bytes.ToValidUTF8(b, []byte("a"))
	}
	return b
}

func u8Any(r *Rng, max int) []byte {
	return u8Text(r, size(r, max), r.IntN(nU8Profiles), false)
}

func u8Valid(r *Rng, max int) []byte {
	return u8Text(r, size(r, max), r.IntN(nU8Profiles), true)
}

// u8Enc makes text of representable characters only.
func u8Enc(r *Rng, max int) []byte {
	o, _ := refDec(nil, cpAssigned(r, max))
	return o
}

// --- related texts -------------------------------------------------------------

// spans returns where the characters of b begin, and its length.
func spans(b []byte, dec bool) []int {
	s := make([]int, 0, len(b)/2+2)
	for i := 0; i < len(b); {
		s = append(s, i)
		n := 1
		if !dec {
			_, n = utf8.DecodeRune(b[i:])
		} else if b[i] >= 0x80 && i+1 < len(b) {
			n = 2
		}
		i += n
	}
	return append(s, len(b))
}

// relative returns a text that shares with b most of what a careless cache
// might know it by: its length, its ends, the characters in it, its memory.
func relative(r *Rng, b []byte, dec bool) []byte {
	s := spans(b, dec)
	n := len(s) - 1
	ch := func(i int) []byte { return b[s[i]:s[i+1]] }
	o := append(make([]byte, 0, len(b)+8), b...)
	fresh := func(l int) []byte { // a character of l bytes
		for k := 0; ; k++ {
			var x []byte
			switch {
			case l == 1 || k > 200:
				x = []byte{byte('a' + r.IntN(26))}
			case dec:
				v := pick(r, cp().pairs)
				x = []byte{byte(v >> 8), byte(v)}
			case l == 4:
				x = utf8.AppendRune(nil, rune(0x10000+r.IntN(0x100000)))
			case r.IntN(2) == 0:
				x = utf8.AppendRune(nil, pick(r, hanjaT().list))
			default:
				x = utf8.AppendRune(nil, pick(r, cp().chars))
			}
			if len(x) == l || l == 1 || k > 200 {
				return x
			}
		}
	}
	if n == 0 {
		return append(o, fresh(1+r.IntN(2))...)
	}
	mid := r.IntN(n)
	if n > 2 && r.IntN(4) > 0 {
		mid = 1 + r.IntN(n-2)
	}
	switch r.IntN(10) {
	case 0, 1, 2: // one character replaced by another of the same length
		x := fresh(s[mid+1] - s[mid])
		if len(x) == s[mid+1]-s[mid] {
			copy(o[s[mid]:], x)
		}
	case 3, 4: // two characters exchanged
		for k := 0; k < 20; k++ {
			j := r.IntN(n)
			if i, j := min(mid, j), max(mid, j); string(ch(i)) != string(ch(j)) {
				o = append(o[:0], b[:s[i]]...)
				o = append(append(o, ch(j)...), b[s[i+1]:s[j]]...)
				return append(append(o, ch(i)...), b[s[j+1]:]...)
			}
		}
	case 5: // some characters in reverse
		lo := r.IntN(mid + 1)
		o = o[:s[lo]]
		for i := mid; i >= lo; i-- {
			o = append(o, ch(i)...)
		}
		return append(o, b[s[mid+1]:]...)
	case 6: // cut
		if r.IntN(2) == 0 {
			return o[:s[n-1]]
		}
		return o[:s[mid]]
	case 7: // longer
		for k := r.IntN(3); k >= 0; k-- {
			o = append(o, fresh(1+r.IntN(2))...)
		}
	case 8: // one character missing
		return append(o[:s[mid]], b[s[mid+1]:]...)
	} // otherwise the same again
	return o
}

// families evaluates, one after the other, texts related to one another.
func families(m *M, tag string, n int, dec bool, text func(w *W) []byte) {
	one := func(w *W) bool {
		b := text(w)
		return w.Do(&Case{Kind: tag, S: family(w.rng, b, dec, 3+w.rng.IntN(max(1, min(6, 200000/(len(b)+1)))))})
	}
	m.Seq(tag+"/alone", func(w *W) { // no other call in between
		for k := 0; k < n/16 && one(w); k++ {
		}
	})
	corpora(m, tag, n, one)
}

// each judges the texts of a family by f.
func each(f func(w *W, b []byte) string) Eval {
	return func(w *W, c *Case) string {
		for i, b := range c.S {
			if s := f(w, b); s != "" {
				return fmt.Sprintf("text %d of %d related ones: %s", i+1, len(c.S), s)
			}
		}
		w.count("families of related texts")
		w.nt = true
		return ""
	}
}

// family makes a text and several others related to it and to one another.
func family(r *Rng, b []byte, dec bool, n int) [][]byte {
	f := [][]byte{b}
	for len(f) < n {
		switch r.IntN(4) {
		case 0:
			f = append(f, relative(r, f[len(f)-1], dec))
		case 1: // one seen before
			f = append(f, pick(r, f))
		default:
			f = append(f, relative(r, b, dec))
		}
	}
	return f
}

// neighbours puts every pair of characters of l beside each other, in both
// orders, in texts of various lengths: a text has one character among many.
// Of the characters only those in first take the place of the one.
func neighbours(m *M, tag, kind string, first, l [][]byte, ordered bool) {
	m.Par(tag, 64, func(w *W, i int) {
		var b []byte
		for k := i; k < len(first); k += 64 {
			rest := l
			if ordered {
				rest = l[k:]
			}
			for len(rest) > 0 {
				n := min(len(rest), 1+w.rng.IntN(4<<w.rng.IntN(11)))
				b = b[:0]
				for _, x := range rest[:n] {
					b = append(append(b, first[k]...), x...)
				}
				b = append(b, first[k]...)
				rest = rest[n:]
				w.add("pairs of neighbours", int64(2*n))
				if !w.Do(&Case{Kind: kind, S: [][]byte{b}}) {
					return
				}
			}
		}
	})
}

// some returns n elements of l, or all.
func some(r *Rng, l [][]byte, n int) [][]byte {
	if n >= len(l) {
		return l
	}
	p := append([][]byte(nil), l...)
	r.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p[:n]
}

func encoded(l []rune) [][]byte {
	out := make([][]byte, len(l))
	for i, r := range l {
		out[i] = []byte(string(r))
	}
	return out
}
