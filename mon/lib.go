package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"testing/iotest"
	"unicode/utf8"
	"unsafe"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
)

// Streams are handed around as interfaces, and code that meets one may ask
// what else it can do (io.WriterTo, io.ByteReader, io.StringWriter...) and take
// another path. So the streams under test are also connected to the standard
// library's own types and used through its helpers.

// richSource is a source with the optional methods readers are asked for. Each
// of them requests bytes like Read, so the monitors in source see it.
type richSource struct{ *source }

func (s *richSource) ReadByte() (byte, error) {
	var p [1]byte
	for {
		n, err := s.source.Read(p[:])
		if n == 1 {
			return p[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

func (s *richSource) UnreadByte() error {
	if s.pos == 0 {
		return io.EOF
	}
	s.pos--
	s.ended = false
	return nil
}

func (s *richSource) WriteTo(w io.Writer) (total int64, err error) {
	p := make([]byte, 300)
	for {
		n, err := s.source.Read(p)
		if n > 0 {
			k, e := w.Write(p[:n:n])
			total += int64(k)
			if e != nil {
				return total, e
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func (s *richSource) Len() int { return len(s.data) - s.pos }

// vagueSource is a source whose optional methods tell about the piece at hand,
// not about the text: nothing follows from them for a reader.
type vagueSource struct {
	*source
	r *Rng
}

func (s *vagueSource) Len() int      { return s.r.IntN(3) * s.r.IntN(5) }
func (s *vagueSource) Size() int64   { return int64(s.Len()) }
func (s *vagueSource) Buffered() int { return s.Len() }
func (s *vagueSource) Seek(off int64, whence int) (int64, error) {
	return 0, &os.PathError{Op: "seek", Path: "stream", Err: syscall.ESPIPE}
}
func (s *vagueSource) Close() error { s.data = s.data[:s.pos]; return nil }

// richSink is a sink with the optional methods writers are asked for.
type richSink struct{ *sink }

func (s *richSink) WriteString(t string) (int, error) { return s.sink.Write([]byte(t)) }
func (s *richSink) WriteByte(b byte) error            { _, err := s.sink.Write([]byte{b}); return err }
func (s *richSink) WriteRune(r rune) (int, error) {
	return s.sink.Write(utf8.AppendRune(nil, r))
}
func (s *richSink) Flush() error { return nil }
func (s *richSink) ReadFrom(r io.Reader) (total int64, err error) {
	p := make([]byte, 300)
	for {
		n, err := r.Read(p)
		if n > 0 {
			k, e := s.sink.Write(p[:n])
			total += int64(k)
			if e != nil {
				return total, e
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

// onlyReader and onlyWriter hide the optional methods.
type onlyReader struct{ io.Reader }
type onlyWriter struct{ io.Writer }

// stringWriter uses the WriteString method, if there is one.
type stringWriter struct{ io.Writer }

func (s stringWriter) Write(p []byte) (int, error) { return io.WriteString(s.Writer, string(p)) }

// byteWriter uses the WriteByte method, if there is one.
type byteWriter struct{ io.Writer }

func (s byteWriter) Write(p []byte) (int, error) {
	b, ok := s.Writer.(io.ByteWriter)
	if !ok || len(p) != 1 {
		return s.Writer.Write(p)
	}
	if err := b.WriteByte(p[0]); err != nil {
		return 0, err
	}
	return 1, nil
}

var libSources = []string{"plain", "rich", "bytes.Reader", "bytes.Buffer", "bytes.Buffer filled later", "strings.Reader", "bufio.Reader", "io.SectionReader", "io.LimitedReader", "io.MultiReader", "io.TeeReader", "iotest.OneByteReader", "iotest.HalfReader", "iotest.DataErrReader", "io.Pipe", "os.File", "os.File that grows", "os.Pipe", "net.Conn", "reader of the library", "vague", "bytes.Reader reset", "bufio.Reader reset"}

// memFile is a file in memory.
func memFile() *os.File {
	name := []byte("file\x00")
	fd, _, e := syscall.Syscall(sysMemfd, uintptr(unsafe.Pointer(&name[0])), 1, 0)
	if e != 0 {
		panic(harnessBug("memfd_create: " + e.Error()))
	}
	return os.NewFile(fd, "file")
}

// libReader reads b through NewReader from a source of kind k. stop ends what
// has been started.
func libReader(k int, r *Rng, b []byte) (rd io.Reader, stop func()) {
	own := append([]byte(nil), b...)
	// A source may have been read from before.
	before := []byte("vor\xb0\xa1\nn\xff\xc8")[:r.IntN(2)*r.IntN(10)]
	whole := append(append([]byte(nil), before...), own...)
	used := func(rd io.Reader) io.Reader {
		if _, err := io.ReadFull(rd, make([]byte, len(before))); err != nil {
			panic(harnessBug(err.Error()))
		}
		return rd
	}
	stop = func() {}
	var src io.Reader
	switch libSources[k] {
	case "plain":
		src = newSource(r, own)
	case "rich":
		src = &richSource{newSource(r, own)}
	case "bytes.Reader":
		src = used(bytes.NewReader(whole))
	case "bytes.Buffer":
		src = used(bytes.NewBuffer(whole))
	case "vague":
		src = &vagueSource{newSource(r, own), r}
	case "bytes.Reader reset":
		br := used(bytes.NewReader(whole)).(*bytes.Reader)
		rd = mustReader(br)
		br.Reset(own)
		return rd, stop
	case "bufio.Reader reset":
		br := bufio.NewReaderSize(used(bytes.NewReader(whole)), 16+r.IntN(100))
		br.Peek(r.IntN(16))
		rd = mustReader(br)
		br.Reset(newSource(r, own))
		return rd, stop
	case "bytes.Buffer filled later":
		n := r.IntN(len(own) + 1)
		src = bytes.NewBuffer(own[:n:n])
		rd = mustReader(src)
		src.(*bytes.Buffer).Write(own[n:])
		return rd, stop
	case "strings.Reader":
		src = used(strings.NewReader(string(whole)))
	case "bufio.Reader":
		src = bufio.NewReaderSize(newSource(r, own), 16+r.IntN(100))
		if r.IntN(2) == 0 { // something of it is buffered already
			src.(*bufio.Reader).Peek(min(len(own), 1+r.IntN(16)))
		}
	case "io.SectionReader":
		all := append(append([]byte("before"), whole...), "after"...)
		src = used(io.NewSectionReader(bytes.NewReader(all), 6, int64(len(whole))))
	case "io.LimitedReader":
		src = io.LimitReader(bytes.NewReader(append(own[:len(own):len(own)], "after"...)), int64(len(own)))
	case "io.MultiReader":
		var rs []io.Reader
		for i := 0; i < len(own); {
			n := 1 + r.IntN(len(own)-i)
			rs = append(rs, bytes.NewReader(own[i:i+n]))
			i += n
			if len(rs) > 20 {
				rs = append(rs, bytes.NewReader(own[i:]))
				break
			}
		}
		src = io.MultiReader(rs...)
	case "io.TeeReader":
		src = io.TeeReader(bytes.NewReader(own), io.Discard)
	case "iotest.OneByteReader":
		src = iotest.OneByteReader(bytes.NewReader(own))
	case "iotest.HalfReader":
		src = iotest.HalfReader(bytes.NewReader(own))
	case "iotest.DataErrReader":
		src = iotest.DataErrReader(bytes.NewReader(own))
	case "io.Pipe":
		pr, pw := io.Pipe()
		sz := bufSizes(seeded(int64(r.Uint32())), len(own))
		sz.min = max(1, sz.min)
		done := make(chan struct{})
		go func() {
			defer close(done)
			for p := own; len(p) > 0; {
				n := min(sz.next(), len(p))
				if _, err := pw.Write(p[:n]); err != nil {
					return
				}
				p = p[n:]
			}
			pw.Close()
		}()
		src = pr
		stop = func() { pr.Close(); <-done }
	case "os.File":
		f := memFile()
		f.Write(whole)
		f.Seek(int64(len(before)), io.SeekStart)
		src = f
		stop = func() { f.Close() }
	case "os.File that grows":
		f := memFile()
		n := len(before) + r.IntN(len(own)+1)
		f.Write(whole[:n])
		f.Seek(int64(len(before)), io.SeekStart)
		rd = mustReader(f)
		f.WriteAt(whole[n:], int64(n))
		return rd, func() { f.Close() }
	case "os.Pipe", "net.Conn":
		var pr io.ReadCloser
		var pw io.WriteCloser
		if libSources[k] == "net.Conn" {
			pr, pw = net.Pipe()
		} else {
			var err error
			if pr, pw, err = os.Pipe(); err != nil {
				panic(harnessBug(err.Error()))
			}
		}
		done := make(chan struct{})
		n := r.IntN(len(own) + 1)
		go func() {
			pw.Write(own[:n])
			pw.Write(own[n:])
			pw.Close()
			close(done)
		}()
		src = pr
		stop = func() { pr.Close(); <-done }
	case "reader of the library": // decoded again from what it becomes as UTF-8
		src = mustReader(newSource(r, own))
	}
	return mustReader(src), stop
}

var libReads = []string{"Read", "io.ReadAll", "io.Copy", "io.CopyBuffer", "io.Copy to io.ReaderFrom", "io.ReadFull", "bufio.ReadString", "bufio.ReadRune", "bufio.Scanner", "io.ByteReader", "io.RuneReader", "Read, then io.Copy"}

// libRead reads all of rd in the way k. A clean end is a nil error.
func libRead(k int, r *Rng, rd io.Reader, hint int) (out []byte, err error) {
	sz := bufSizes(r, hint)
	switch libReads[k] {
	case "io.ReadAll":
		return io.ReadAll(rd)
	case "io.Copy":
		s := &sink{}
		_, err = io.Copy(s, rd)
		return s.got, err
	case "io.CopyBuffer":
		s := &sink{}
		sz.min = max(1, sz.min)
		_, err = io.CopyBuffer(onlyWriter{s}, rd, make([]byte, sz.next()))
		return s.got, err
	case "io.Copy to io.ReaderFrom":
		var b bytes.Buffer
		_, err = io.Copy(&b, rd)
		return b.Bytes(), err
	case "io.ReadFull":
		sz.min = max(1, sz.min)
		for i := 0; ; i++ {
			p := make([]byte, min(sz.next(), 2*hint+64))
			n, e := io.ReadFull(rd, p)
			out = append(out, p[:n]...)
			if e == io.EOF || e == io.ErrUnexpectedEOF {
				return out, nil
			}
			if e != nil {
				return out, e
			}
		}
	case "bufio.ReadString":
		br := bufio.NewReaderSize(rd, 16+r.IntN(200))
		for {
			s, e := br.ReadString("a\n\x00 "[r.IntN(4)])
			out = append(out, s...)
			if e == io.EOF {
				return out, nil
			}
			if e != nil {
				return out, e
			}
		}
	case "bufio.ReadRune", "io.RuneReader":
		rr, ok := rd.(io.RuneReader)
		if !ok || libReads[k] == "bufio.ReadRune" {
			rr = bufio.NewReaderSize(rd, 16+r.IntN(200))
		}
		for {
			c, n, e := rr.ReadRune()
			if n > 0 {
				out = utf8.AppendRune(out, c)
			}
			if e == io.EOF {
				return out, nil
			}
			if e != nil {
				return out, e
			}
		}
	case "bufio.Scanner":
		sc := bufio.NewScanner(rd)
		sc.Buffer(nil, 16<<20)
		sc.Split(func(data []byte, eof bool) (int, []byte, error) {
			if len(data) == 0 {
				return 0, nil, nil
			}
			if i := bytes.IndexByte(data, '\n'); i >= 0 {
				return i + 1, data[:i+1], nil
			}
			if eof || len(data) >= 4096 { // looking through it again and again is slow
				return len(data), data, nil
			}
			return 0, nil, nil
		})
		for sc.Scan() {
			out = append(out, sc.Bytes()...)
		}
		return out, sc.Err()
	case "io.ByteReader":
		br, ok := rd.(io.ByteReader)
		if !ok {
			br = bufio.NewReader(rd)
		}
		for {
			c, e := br.ReadByte()
			if e == io.EOF {
				return out, nil
			}
			if e != nil {
				return out, e
			}
			out = append(out, c)
		}
	case "Read, then io.Copy":
		for i := r.IntN(4); i >= 0; i-- {
			p := make([]byte, min(sz.next(), 2*hint+64))
			n, e := rd.Read(p)
			out = append(out, p[:n]...)
			if e == io.EOF {
				return out, nil
			}
			if e != nil {
				return out, e
			}
		}
		s := &sink{got: out}
		_, err = io.Copy(s, rd)
		return s.got, err
	}
	out, err = drain(rd, sz, nil, 2*hint, nil)
	if err == io.EOF {
		err = nil
	}
	return out, err
}

var libSinks = []string{"plain", "rich", "bytes.Buffer", "strings.Builder", "bufio.Writer", "io.Pipe", "io.MultiWriter", "os.File", "net.Conn", "writer of the library", "vague", "bytes.Buffer that is read", "bufio.Writer reset"}

// vagueSink is a sink whose optional methods tell nothing that a writer could
// go by.
type vagueSink struct {
	*sink
	r *Rng
}

func (s *vagueSink) Len() int       { return s.r.IntN(3) * s.r.IntN(5) }
func (s *vagueSink) Cap() int       { return s.Len() }
func (s *vagueSink) Size() int      { return s.Len() }
func (s *vagueSink) Available() int { return s.Len() }
func (s *vagueSink) Buffered() int  { return s.Len() }
func (s *vagueSink) Grow(int)       {}
func (s *vagueSink) Seek(off int64, whence int) (int64, error) {
	return 0, &os.PathError{Op: "seek", Path: "stream", Err: syscall.ESPIPE}
}
func (s *vagueSink) Close() error { return nil }

// libWriter makes a writer of the library with a sink of kind k; end completes
// the sink and returns what it got.
func libWriter(k int, r *Rng) (wr io.Writer, end func() []byte) {
	switch libSinks[k] {
	case "bytes.Buffer that is read": // between the writes
		var b bytes.Buffer
		var got []byte
		in := mustWriter(&b)
		return funcWriter(func(p []byte) (int, error) {
			n, err := in.Write(p)
			got = append(got, b.Next(r.IntN(2*len(p)+1))...)
			if r.IntN(4) == 0 {
				got = append(got, b.Bytes()...)
				b.Reset()
			}
			return n, err
		}), func() []byte { return append(got, b.Bytes()...) }
	case "bufio.Writer reset": // after NewWriter
		s := &sink{}
		b := bufio.NewWriterSize(io.Discard, 16+r.IntN(300))
		b.WriteString("old")
		wr = mustWriter(b)
		b.Reset(s)
		return wr, func() []byte { b.Flush(); return s.got }
	case "bufio.Writer":
		s := &sink{}
		b := bufio.NewWriterSize(s, 16+r.IntN(300))
		wr = mustWriter(b)
		b.WriteString("vor"[:r.IntN(4)])
		n := b.Buffered()
		return wr, func() []byte { b.Flush(); return s.got[n:] }
	}
	dst, end := libSink(k, r)
	return mustWriter(dst), end
}

type funcWriter func(p []byte) (int, error)

func (f funcWriter) Write(p []byte) (int, error) { return f(p) }

func libSink(k int, r *Rng) (dst io.Writer, end func() []byte) {
	switch libSinks[k] {
	case "vague":
		s := &sink{}
		return &vagueSink{s, r}, func() []byte { return s.got }
	case "rich":
		s := &richSink{&sink{}}
		return s, func() []byte { return s.got }
	case "bytes.Buffer":
		b := &bytes.Buffer{}
		b.WriteString("vor"[:r.IntN(4)])
		n := b.Len()
		return b, func() []byte { return b.Bytes()[n:] }
	case "strings.Builder":
		b := &strings.Builder{}
		b.WriteString("vor"[:r.IntN(4)])
		n := b.Len()
		return b, func() []byte { return []byte(b.String()[n:]) }
	case "io.Pipe":
		pr, pw := io.Pipe()
		got := make(chan []byte, 1)
		go func() {
			b, _ := io.ReadAll(pr)
			got <- b
		}()
		return pw, func() []byte { pw.Close(); return <-got }
	case "os.File":
		f := memFile()
		f.Write([]byte("before and after"))
		f.Seek(6, io.SeekStart)
		f.Truncate(6)
		return f, func() []byte {
			defer f.Close()
			f.Seek(6, io.SeekStart)
			b, err := io.ReadAll(f)
			if err != nil {
				panic(harnessBug(err.Error()))
			}
			return b
		}
	case "net.Conn":
		pr, pw := net.Pipe()
		got := make(chan []byte, 1)
		go func() {
			b, _ := io.ReadAll(pr)
			got <- b
		}()
		return pw, func() []byte { pw.Close(); return <-got }
	case "writer of the library": // encoded again
		s := &sink{}
		return mustWriter(s), func() []byte { return s.got }
	case "io.MultiWriter":
		s := &sink{}
		return io.MultiWriter(s, io.Discard), func() []byte { return s.got }
	}
	s := &sink{}
	return s, func() []byte { return s.got }
}

var libWrites = []string{"Write", "io.WriteString", "io.Copy", "io.Copy from io.WriterTo", "bufio.Writer", "fmt.Fprint", "io.ReaderFrom", "Write, then io.Copy", "byte by byte"}

// libWrite writes b to wr in the way k.
func libWrite(k int, r *Rng, wr io.Writer, b []byte) (err error) {
	sz := bufSizes(r, len(b))
	write := func(f func(p []byte) (int, error)) {
		pieces(sz, b, func(p []byte) bool {
			n, e := f(p)
			if e == nil && n != len(p) {
				e = verdictErr(fmt.Sprintf("a write of %d bytes returned %d, nil", len(p), n))
			}
			err = e
			return e == nil
		})
	}
	copied := func(n int64, e error) error {
		if e == nil && n != int64(len(b)) {
			return verdictErr(fmt.Sprintf("copying %d bytes returned %d, nil", len(b), n))
		}
		return e
	}
	switch libWrites[k] {
	case "Write":
		write(wr.Write)
	case "io.WriteString":
		write(func(p []byte) (int, error) { return io.WriteString(wr, string(p)) })
	case "io.Copy":
		s := newSource(r, b)
		return copied(io.Copy(wr, s))
	case "io.Copy from io.WriterTo":
		if r.IntN(2) == 0 {
			return copied(io.Copy(wr, strings.NewReader(string(b))))
		}
		return copied(io.Copy(wr, &richSource{newSource(r, b)}))
	case "bufio.Writer":
		bw := bufio.NewWriterSize(wr, 16+r.IntN(300))
		write(bw.Write)
		if err == nil {
			err = bw.Flush()
		}
	case "fmt.Fprint":
		write(func(p []byte) (int, error) { return fmt.Fprint(wr, string(p)) })
	case "io.ReaderFrom":
		if rf, ok := wr.(io.ReaderFrom); ok {
			return copied(rf.ReadFrom(newSource(r, b)))
		}
		return copied(io.Copy(wr, onlyReader{bytes.NewReader(b)}))
	case "Write, then io.Copy":
		n := r.IntN(len(b) + 1)
		k, e := wr.Write(append([]byte(nil), b[:n]...))
		if e != nil || k != n {
			return verdictErr(fmt.Sprintf("Write of %d bytes returned %d, %v", n, k, e))
		}
		b = b[n:]
		return copied(io.Copy(wr, newSource(r, b)))
	case "byte by byte":
		bw, _ := wr.(io.ByteWriter)
		sz = &sizes{min: 1}
		write(func(p []byte) (int, error) {
			if bw != nil {
				return 1, bw.WriteByte(p[0])
			}
			return wr.Write(p)
		})
	}
	return err
}

// distract calls the library from inside a callback: from a source's Read or a
// sink's Write.
func distract(w *W, r *Rng) {
	w.count("calls from inside a source or sink")
	switch r.IntN(5) {
	case 0:
		cp949.From([]byte("A\xb0\xa1\xc8\xfe\xff\xff"))
	case 1:
		cp949.To([]byte("z한글 \xff🙂漢"))
	case 2:
		rd := mustReader(strings.NewReader("\xb0\xa1\xb3\xaa\xb4\xd9zzz"))
		rd.Read(make([]byte, 4))
		mustWriter(io.Discard).Write([]byte("다\xea"))
	case 3:
		e := newEncoding(r)
		e.NewDecoder().Bytes([]byte("\xb0\xa1\xc9"))
		e.NewEncoder().String("라마\xf0")
	default:
		hanja.Convert("國家 abc")
		hangul.Stroke('뷁')
		hangul.AppendPostposition("말", "으로", "로")
	}
}
