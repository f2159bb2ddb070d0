package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"runtime"
	"strconv"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/transform"
)

// Operations as data: what C20 runs alone, in histories and concurrently.

type Op struct {
	Kind string
	R    []int64
	S    [][]byte
}

var opKinds = []string{
	"classify", "convert", "multi", "split", "join", "stroke", "last", "append",
	"hanja", "ishanja", "from", "to", "reader", "writer", "decoder", "encoder",
}

// in returns a copy of o whose texts lie in a buffer that others use as well.
func (o *Op) in(buf *[]byte) *Op {
	if o.S == nil {
		return o
	}
	c := *o
	c.S = append([][]byte(nil), o.S...)
	*buf = append((*buf)[:0], o.S[0]...)
	c.S[0] = *buf
	return &c
}

// exec runs an operation and describes everything it returned. It must not
// touch any state that other calls of exec share, except the operation's own
// inputs and the encoding e: the race detector is to see the code under test
// without synchronisation around it.
func (o *Op) exec(e *cp949.CP949Encoding) (res string) {
	defer func() {
		if x := recover(); x != nil {
			res = fmt.Sprintf("panic: %v", x)
		}
	}()
	var out []byte // no fmt here: its pool would synchronise the goroutines
	switch o.Kind {
	case "classify":
		b := make([]byte, 0, len(o.R)*6)
		for _, v := range o.R {
			r := rune(int32(v))
			for _, x := range []bool{hangul.IsHangul(r), hangul.IsLead(r), hangul.IsMedial(r), hangul.IsTail(r), hangul.IsJaeum(r), hangul.IsMoeum(r)} {
				if x {
					b = append(b, '1')
				} else {
					b = append(b, '0')
				}
			}
		}
		return string(b)
	case "convert":
		for _, v := range o.R {
			r := rune(int32(v))
			out = nums(out, hangul.CompatJamo(r), hangul.Lead(r), hangul.Medial(r), hangul.Tail(r))
		}
	case "multi":
		for _, v := range o.R {
			es, ok := hangul.SplitMultiElement(rune(int32(v)))
			out = nums(out, es...)
			out = strconv.AppendBool(out, ok)
			es = es[:cap(es)] // the slice is the caller's
			for i := range es {
				es[i] = 'x'
			}
		}
	case "split":
		for _, v := range o.R {
			a, b, c := hangul.Split(rune(int32(v)))
			x, y, z := hangul.SplitCompat(rune(int32(v)))
			out = nums(out, a, b, c, x, y, z)
		}
	case "join":
		for i := 0; i+2 < len(o.R); i += 3 {
			out = nums(out, hangul.Join(rune(int32(o.R[i])), rune(int32(o.R[i+1])), rune(int32(o.R[i+2]))))
		}
	case "stroke":
		for _, v := range o.R {
			out = nums(out, rune(hangul.Stroke(rune(int32(v)))))
		}
	case "last":
		s := string(o.S[0])
		out = strconv.AppendBool(nums(out, hangul.LastConsonant(s)), hangul.EndsWithConsonant(s))
	case "append":
		return hexs(hangul.AppendPostposition(string(o.S[0]), string(o.S[1]), string(o.S[2])))
	case "hanja":
		return hexs(hanja.Convert(string(o.S[0])))
	case "ishanja":
		for _, v := range o.R {
			out = strconv.AppendBool(out, hanja.IsHanja(rune(int32(v))))
		}
	case "from", "to":
		f := cp949.From
		if o.Kind == "to" {
			f = cp949.To
		}
		b, err := f(o.S[0])
		res = show(b, err)
		scribble(b[:cap(b)], 'x')
		return res
	case "reader":
		r := seeded(o.R[0])
		src := newSource(r, o.S[0])
		src.onRead = runtime.Gosched
		rd := io.Reader(src)
		switch o.R[2] {
		case 1:
			src.end = errSource
		case 2:
			rd = &stalling{source: src, at: r.IntN(len(o.S[0]) + 1)}
		}
		rd = mustReader(rd)
		b, err := drain(rd, bufSizes(r, len(o.S[0])), nil, 0, nil)
		res = show(b, err)
		if o.R[2] > 0 {
			n, err := rd.Read(make([]byte, 5))
			res += " then " + strconv.Itoa(n) + show(nil, err)
		}
		return res
	case "writer":
		r := seeded(o.R[0])
		if o.R[2] > 0 {
			return failingWrites(r, o.S[0])
		}
		b, err := viaWriter(func(s io.Writer) io.Writer { return mustWriter(yielding{s}) }, r, o.S[0])
		return show(b, err)
	case "decoder":
		if o.R[0]%3 == 0 {
			e = cp949.NewCP949Encoding()
		}
		if o.R[2] > 0 {
			return anyCalls(e.NewDecoder(), seeded(o.R[0]), o.S[0])
		}
		b, err := decVia(int(o.R[1]), seeded(o.R[0]), o.S[0], e.NewDecoder())
		return show(b, err)
	case "encoder":
		if o.R[0]%3 == 0 {
			e = cp949.NewCP949Encoding()
		}
		if o.R[2] > 0 {
			return anyCalls(e.NewEncoder(), seeded(o.R[0]), o.S[0])
		}
		b, err := encVia(int(o.R[1]), seeded(o.R[0]), o.S[0], e.NewEncoder())
		return show(b, err)
	default:
		panic(harnessBug(o.Kind))
	}
	return string(out)
}

func nums(b []byte, l ...rune) []byte {
	for _, v := range l {
		b = append(strconv.AppendInt(b, int64(v), 16), ' ')
	}
	return b
}

func hexs(s string) string { return hex.EncodeToString([]byte(s)) }

func show(b []byte, err error) string {
	s := hex.EncodeToString(b)
	if err != nil {
		s += " " + err.Error()
	}
	return s
}

type yielding struct{ w io.Writer }

func (y yielding) Write(p []byte) (int, error) {
	runtime.Gosched()
	return y.w.Write(p)
}

// stalling is a source that gives nothing for long when it has come to at.
type stalling struct {
	*source
	at, times int
}

func (s *stalling) Read(p []byte) (int, error) {
	if s.pos >= s.at && s.times < 250 && !s.ended {
		s.times++
		return 0, nil
	}
	return s.source.Read(p)
}

// failingWrites writes b to a sink that fails now and then, writing again what
// was not reported, and describes everything it saw.
func failingWrites(r *Rng, b []byte) string {
	s := &sink{}
	rate := 1 + r.IntN(4)
	s.fail = func(int) (bool, int) { runtime.Gosched(); return r.IntN(rate) == 0, r.IntN(2) * r.IntN(5) }
	wr := mustWriter(s)
	var out []byte
	pieces(bufSizes(r, len(b)), b, func(p []byte) bool {
		for try := 0; try < 4; try++ {
			n, err := wr.Write(p)
			if out = strconv.AppendInt(append(out, ' '), int64(n), 10); err == nil {
				return true
			}
			out = append(out, err.Error()...)
			p = p[min(max(n, 0), len(p)):]
		}
		return true
	})
	return show(s.got, nil) + string(out)
}

// anyCalls makes Transform calls of any kind and describes the results.
func anyCalls(t transform.Transformer, r *Rng, b []byte) string {
	var out []byte
	for i := 0; i < 6; i++ {
		lo := r.IntN(len(b) + 1)
		hi := lo + r.IntN(min(len(b)-lo, 300)+1)
		dst := make([]byte, r.IntN(20)*r.IntN(30))
		nd, ns, err := t.Transform(dst, b[lo:hi], r.IntN(2) == 0)
		out = strconv.AppendInt(append(out, ' '), int64(ns), 10)
		out = append(out, show(dst[:min(max(nd, 0), len(dst))], err)...)
		if r.IntN(4) == 0 {
			t.Reset()
		}
	}
	return string(out)
}

// makeOps makes a pool of n operations of every kind. Many share prefixes,
// lengths or all but one character, so that a result kept from one and used
// for another shows.
func makeOps(seed uint64, n int) []*Op {
	var ops []*Op
	for _, k := range opKinds {
		r := shardRand(seed, "C20", "ops/"+k, 0)
		w := &W{rng: r}
		var last []byte
		text := func(gen func() []byte) []byte {
			b := gen()
			if r.force > 0 {
				last = nil // relatives would be long as well
				return b
			}
			if last != nil && r.IntN(2) == 0 { // a relative of the previous text
				last = relative(r, last, k == "from" || k == "reader" || k == "decoder")
				return last
			}
			if last != nil && r.IntN(6) == 0 { // one changed without regard to characters
				b = append([]byte(nil), last...)
				for i := 0; i < 1+r.IntN(3) && len(b) > 0; i++ {
					switch r.IntN(3) {
					case 0:
						x := gen()
						copy(b[r.IntN(len(b)):], x[:min(len(x), 3)])
					case 1:
						b = b[:r.IntN(len(b)+1)]
					default:
						b = append(b, gen()...)
						b = b[:min(len(b), 1<<17)]
					}
				}
			}
			last = b
			return b
		}
		m := n
		switch k {
		case "last", "append", "hanja", "from", "to":
			m *= 6
		case "reader", "writer", "decoder", "encoder":
		default:
			m *= 8
		}
		var lastR []int64
		// kin is a rune that has most bits in common with one of the last call.
		kin := func() int64 {
			v := uint32(pick(r, lastR))
			switch r.IntN(5) {
			case 0:
				v ^= 1 << r.IntN(32)
			case 1:
				v += uint32(1+r.IntN(16)) << 16
			case 2:
				v ^= r.Uint32() << (8 + r.IntN(22))
			case 3:
				v += uint32(r.IntN(7)) - 3
			}
			return int64(int32(v))
		}
		for i := 0; i < m; i++ {
			o := &Op{Kind: k}
			r.force = 0
			if i%(m/2) == m/4 { // two long ones
				r.force = 1<<16 + r.IntN(1<<16)
			}
			runes := func(n int) {
				for j := 0; j < n; j++ {
					if lastR != nil && r.IntN(2) == 0 {
						o.R = append(o.R, kin())
					} else {
						o.R = append(o.R, randRune(w))
					}
				}
			}
			few := i%3 > 0 // calls of one rune follow each other
			switch k {
			case "classify", "convert", "multi", "split", "stroke":
				if few {
					runes(1)
				} else {
					runes(1 + r.IntN(12))
				}
			case "join":
				for j := 0; j < 1 || !few && j < r.IntN(6); j++ {
					switch {
					case len(lastR) >= 3 && r.IntN(2) == 0: // one letter differs
						t := append([]int64(nil), lastR[:3]...)
						x := t[r.IntN(3)]
						t[r.IntN(3)] = pick(r, []int64{kin(), randRune(w), 0, x})
						o.R = append(o.R, t...)
					case r.IntN(4) > 0:
						for _, x := range nfd()[r.IntN(11172)] {
							o.R = append(o.R, int64(x))
						}
					default:
						runes(3)
					}
				}
			case "ishanja":
				for j := 0; j < 1 || !few && j < 10; j++ {
					if lastR != nil && r.IntN(2) == 0 {
						o.R = append(o.R, kin())
					} else {
						o.R = append(o.R, int64(pick(r, hanjaT().list)))
					}
				}
				if !few {
					runes(4)
				}
			case "last":
				o.S = [][]byte{text(func() []byte { return wordsFor(w, rune(randRune(w)), r.IntN(5)) })}
			case "append":
				p := pick(r, particles)
				o.S = [][]byte{text(func() []byte { return wordsFor(w, rune(randRune(w)), r.IntN(5)) }), []byte(p[0]), []byte(p[1])}
			case "hanja":
				o.S = [][]byte{text(func() []byte { return hanjaText(w, opSize(r, 2000), r.IntN(2) == 0) })}
			case "from":
				o.S = [][]byte{text(func() []byte {
					if r.IntN(2) == 0 {
						return cpText(r, 20+opSize(r, 6000), 5) // relatives of it decode differently
					}
					return cut(r, cpText(r, opSize(r, 6000), r.IntN(nCPProfiles)))
				})}
			case "to":
				o.S = [][]byte{text(func() []byte {
					if r.IntN(2) == 0 {
						return u8Text(r, 20+opSize(r, 6000), 2, true)
					}
					return u8Text(r, opSize(r, 6000), r.IntN(nU8Profiles), false)
				})}
			case "reader", "decoder":
				o.R = []int64{int64(r.Uint32()), int64(2 + r.IntN(nVia-2)), int64(max(0, r.IntN(5)-2))}
				o.S = [][]byte{text(func() []byte { return cut(r, cpText(r, opSize(r, 6000), r.IntN(nCPProfiles))) })}
			case "writer", "encoder":
				o.R = []int64{int64(r.Uint32()), int64(2 + r.IntN(nVia-2)), int64(r.IntN(3) / 2)}
				o.S = [][]byte{text(func() []byte { return u8Text(r, opSize(r, 6000), r.IntN(nU8Profiles), false) })}
			}
			lastR = nil
			if o.S == nil {
				lastR = o.R
			}
			ops = append(ops, o)
		}
	}
	return ops
}

// cut may take a byte off the end of b.
func cut(r *Rng, b []byte) []byte {
	if len(b) > 0 && r.IntN(4) == 0 {
		b = b[:len(b)-1]
	}
	return b
}

func opSize(r *Rng, max int) int {
	if r.force > 0 {
		return r.force
	}
	switch r.IntN(8) {
	case 0:
		return r.IntN(max)
	case 1, 2:
		return r.IntN(700)
	}
	return r.IntN(24)
}

func (o *Op) String() string {
	c := &Case{Prop: "C20", Kind: o.Kind, R: o.R, S: o.S}
	return c.String()
}

func marshal(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	return b
}
