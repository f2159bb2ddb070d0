package main

import (
	_ "embed"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/unicode/norm"
)

// The reference model: what the properties say, from sources independent of
// the code under test (see tools/gen_ref.py).

//go:embed ref/cp949.tsv
var cp949TSV string

//go:embed ref/jamo.tsv
var jamoTSV string

//go:embed ref/nfd.tsv
var nfdTSV string

//go:embed ref/hanja.tsv
var hanjaTSV string

func hex32(s string) int32 {
	v, err := strconv.ParseInt(s, 16, 32)
	if err != nil {
		panic(harnessBug("bad reference data: " + s))
	}
	return int32(v)
}

func lines(s string) [][]string {
	var o [][]string
	for _, l := range strings.Split(s, "\n") {
		if l != "" {
			o = append(o, strings.Split(l, "\t"))
		}
	}
	return o
}

// --- CP949 -------------------------------------------------------------------

type cpRef struct {
	dec   [65536]uint16 // pair to Unicode, 0 if unassigned
	enc   [65536]uint16 // BMP character to pair, 0 if none
	pairs []uint16      // assigned, ascending
	chars []rune        // representable, in the order of pairs
}

var cpOnce = sync.OnceValue(func() *cpRef {
	t := &cpRef{}
	for _, f := range lines(cp949TSV) {
		c, u := uint16(hex32(f[0])), uint16(hex32(f[1]))
		t.dec[c], t.enc[u] = u, c
		t.pairs = append(t.pairs, c)
		t.chars = append(t.chars, rune(u))
	}
	return t
})

func cp() *cpRef { return cpOnce() }

// checkCP compares the reference with x/text's independent table.
func checkCP() string {
	t, n := cp(), 0
	d := korean.EUCKR.NewDecoder()
	for i, c := range t.pairs {
		o, err := d.Bytes([]byte{byte(c >> 8), byte(c)})
		if err != nil || string(o) != string(t.chars[i]) {
			return fmt.Sprintf("reference tables disagree about %04x: %q and %q", c, o, string(t.chars[i]))
		}
		n++
	}
	if n != 17048 {
		return fmt.Sprintf("reference table has %d pairs", n)
	}
	return ""
}

// refDec decodes b; cut is set if it ends inside a character.
func refDec(dst, b []byte) (out []byte, cut bool) {
	t := cp()
	for i := 0; i < len(b); {
		if b[i] < 0x80 {
			dst = append(dst, b[i])
			i++
			continue
		}
		if i+1 >= len(b) {
			return dst, true
		}
		u := rune(t.dec[uint16(b[i])<<8|uint16(b[i+1])])
		if u == 0 {
			u = utf8.RuneError
		}
		dst = utf8.AppendRune(dst, u)
		i += 2
	}
	return dst, false
}

// decLen is the length of the whole characters at the start of b.
func decLen(b []byte) int {
	i := 0
	for i < len(b) {
		if b[i] < 0x80 {
			i++
		} else if i+1 < len(b) {
			i += 2
		} else {
			break
		}
	}
	return i
}

func refEnc(dst, b []byte) []byte {
	t := cp()
	for i := 0; i < len(b); {
		if b[i] < 0x80 {
			dst = append(dst, b[i])
			i++
			continue
		}
		r, n := utf8.DecodeRune(b[i:])
		i += n
		if r == utf8.RuneError || r > 0xFFFF || t.enc[r] == 0 {
			dst = append(dst, '?')
			continue
		}
		c := t.enc[r]
		dst = append(dst, byte(c>>8), byte(c))
	}
	return dst
}

// encLen is the length of b without an incomplete sequence at its end.
func encLen(b []byte) int {
	for k := 1; k <= 3 && k <= len(b); k++ {
		i := len(b) - k
		if utf8.RuneStart(b[i]) {
			if !utf8.FullRune(b[i:]) {
				return i
			}
			break
		}
	}
	return len(b)
}

// --- Jamo --------------------------------------------------------------------

type letter struct {
	name                    string // short name, as in the constants
	uname                   string // Unicode name after HANGUL ...
	compat, lead, med, tail rune   // 0 if it has no such form
	parts                   []rune // basic compatibility jamo
	strokes                 int
}

type jamoRef struct {
	letters []*letter
	form    map[rune]*letter // every modern form of every letter
	byName  map[string]*letter
	forms   []rune
	cls     [0x3200]*letter
}

var jamoOnce = sync.OnceValue(func() *jamoRef {
	j := &jamoRef{form: map[rune]*letter{}, byName: map[string]*letter{}}
	rows := lines(jamoTSV)
	for _, f := range rows {
		n, _ := strconv.Atoi(f[6])
		l := &letter{name: f[0], uname: f[7], compat: hex32(f[1]), lead: hex32(f[2]), med: hex32(f[3]), tail: hex32(f[4]), strokes: n}
		j.letters = append(j.letters, l)
		j.byName[l.name] = l
		for _, r := range []rune{l.compat, l.lead, l.med, l.tail} {
			if r != 0 {
				j.form[r] = l
				j.forms = append(j.forms, r)
				j.cls[r] = l
			}
		}
	}
	for i, f := range rows {
		for _, p := range strings.Split(f[5], ",") {
			j.letters[i].parts = append(j.letters[i].parts, j.byName[p].compat)
		}
	}
	return j
})

func jamo() *jamoRef { return jamoOnce() }

// letterOf returns the modern letter r is a form of, or nil.
func (j *jamoRef) letterOf(r rune) *letter {
	if r < 0x1100 || r >= 0x3200 {
		return nil
	}
	return j.cls[r]
}

const (
	sylLo = 0xAC00
	sylHi = 0xD7A3
)

func isSyl(r rune) bool { return sylLo <= r && r <= sylHi }

type nfdRef [sylHi - sylLo + 1][3]rune

var nfdOnce = sync.OnceValue(func() *nfdRef {
	t := &nfdRef{}
	rows := lines(nfdTSV)
	if len(rows) != len(t) {
		panic(harnessBug("nfd reference has the wrong size"))
	}
	for _, f := range rows {
		c := hex32(f[0])
		for i, x := range f[1:] {
			t[c-sylLo][i] = hex32(x)
		}
	}
	return t
})

func nfd() *nfdRef { return nfdOnce() }

func checkNFD() string {
	t := nfd()
	for c := rune(sylLo); c <= sylHi; c++ {
		d := []rune(norm.NFD.String(string(c)))
		for len(d) < 3 {
			d = append(d, 0)
		}
		if len(d) != 3 || d[0] != t[c-sylLo][0] || d[1] != t[c-sylLo][1] || d[2] != t[c-sylLo][2] {
			return fmt.Sprintf("reference decompositions of %U disagree", c)
		}
	}
	return ""
}

func refStroke(r rune) int {
	if isSyl(r) {
		n := 0
		for _, x := range nfd()[r-sylLo] {
			if x != 0 {
				n += jamo().cls[x].strokes
			}
		}
		return n
	}
	if l := jamo().letterOf(r); l != nil {
		return l.strokes
	}
	return 0
}

// refTail returns the last consonant of a word. For a final character that is
// a single letter other than a conjoining tail the properties leave the choice
// between 0 and the tail form: alt is then that form.
func refTail(word []byte) (t, alt rune) {
	r, _ := utf8.DecodeLastRune(word)
	if len(word) == 0 || r == utf8.RuneError {
		return 0, 0
	}
	if isSyl(r) {
		t = nfd()[r-sylLo][2]
		return t, t
	}
	l := jamo().letterOf(r)
	if l == nil {
		return 0, 0
	}
	if r == l.tail {
		return r, r
	}
	return 0, l.tail
}

// --- Hanja -------------------------------------------------------------------

type hanjaRef struct {
	reading [65536]uint16
	src     map[string]int
	list    []rune
	of      map[rune][]rune // hanja by reading
}

var hanjaOnce = sync.OnceValue(func() *hanjaRef {
	h := &hanjaRef{src: map[string]int{}, of: map[rune][]rune{}}
	for _, f := range lines(hanjaTSV) {
		c := hex32(f[0])
		h.reading[c] = uint16(hex32(f[1]))
		h.src[f[2]]++
		h.list = append(h.list, c)
		y := rune(h.reading[c])
		h.of[y] = append(h.of[y], c)
		if !refIsHanja(c) {
			panic(harnessBug("hanja reference outside the specified ranges"))
		}
	}
	if len(h.list) != 27496 {
		panic(harnessBug("hanja reference has the wrong size"))
	}
	return h
})

func hanjaT() *hanjaRef { return hanjaOnce() }

func refIsHanja(c rune) bool {
	switch {
	case 0x3400 <= c && c <= 0x4DB5, 0x4E00 <= c && c <= 0x9FA5:
		return true
	}
	switch c {
	case 0xFA0E, 0xFA0F, 0xFA11, 0xFA13, 0xFA14, 0xFA1F, 0xFA21, 0xFA23, 0xFA24, 0xFA27, 0xFA28, 0xFA29:
		return true
	}
	return false
}
