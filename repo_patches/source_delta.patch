From 4f559c0abe462656352f4be1aba5954950394276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:29 +0000
Subject: [PATCH 01/11] fix: split WE completely, so that its stroke count is
 right

WE was listed as U+E, but E is itself compound and has no stroke count,
so Stroke(WE) was 2 instead of 5. WAE is already split into three.
---
 jamo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jamo.go b/jamo.go
index 0f56d37..3406de6 100644
--- a/jamo.go
+++ b/jamo.go
@@ -77,7 +77,7 @@ var multiElements = map[rune][]rune{
 	WAE: []rune{O, A, I},
 	OE:  []rune{O, I},
 	WEO: []rune{U, EO},
-	WE:  []rune{U, E},
+	WE:  []rune{U, EO, I},
 	WI:  []rune{U, I},
 	YI:  []rune{EU, I},
 }
-- 
2.43.0


From 6001af896f5fa2deb048b07e105c8abfe5795cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:30 +0000
Subject: [PATCH 02/11] fix: do not expose the internal table from
 SplitMultiElement

Modifying the returned slice corrupted later results, including Stroke.
---
 jamo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jamo.go b/jamo.go
index 3406de6..63d57b6 100644
--- a/jamo.go
+++ b/jamo.go
@@ -86,7 +86,8 @@ var multiElements = map[rune][]rune{
 func SplitMultiElement(r rune) ([]rune, bool) {
 	r = CompatJamo(r)
 	es, ok := multiElements[r]
-	return es, ok
+	// Hand out a copy; the caller may modify what it gets.
+	return append([]rune(nil), es...), ok
 }
 
 var toCompatJamo = map[rune]rune{
-- 
2.43.0


From cc3546fe1704693415d4d745963a9ca7d8e904aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:30 +0000
Subject: [PATCH 03/11] fix: reject an invalid tail in Join

Tail returns 0 for a rune that is no tail consonant, which was taken for
"no tail": Join(G, A, DD) returned U+AC00, silently dropping the letter.
---
 hangul.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hangul.go b/hangul.go
index 1f5c089..fa69f04 100644
--- a/hangul.go
+++ b/hangul.go
@@ -38,7 +38,7 @@ func Join(l, m, t rune) rune {
 	}
 
 	ti, ok := tailIdx(Tail(t))
-	if !ok {
+	if !ok || (ti == 0 && t != 0) {
 		return rune(0xFFFD)
 	}
 
-- 
2.43.0


From 752a7f460ee215cdb47ff4401deb52b2f3c2dc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:30 +0000
Subject: [PATCH 04/11] fix: do not find letters in non-Hangul characters

Split computed meaningless runes for anything but a precomposed syllable,
so EndsWithConsonant("A") was true and LastConsonant("A") was U+11A4.
---
 hangul.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hangul.go b/hangul.go
index fa69f04..539b624 100644
--- a/hangul.go
+++ b/hangul.go
@@ -45,8 +45,13 @@ func Join(l, m, t rune) rune {
 	return rune(0xAC00 + (li*21+mi)*28 + ti)
 }
 
-// Split converts NFC to NFD
+// Split converts NFC to NFD.
+// It returns 0, 0, 0 if c is not a precomposed syllable.
 func Split(c rune) (l, m, t rune) {
+	if c < 0xAC00 || 0xD7A3 < c {
+		return 0, 0, 0
+	}
+
 	t = (c - 0xAC00) % 28
 	m = ((c - 0xAC00 - t) % 588) / 28
 	l = (c - 0xAC00) / 588
@@ -86,7 +91,11 @@ func LastConsonant(word string) rune {
 		return 0
 	}
 	runes := []rune(word)
-	_, _, t := Split(runes[len(runes)-1])
+	last := runes[len(runes)-1]
+	_, _, t := Split(last)
+	if t == 0 {
+		t = Tail(last) // a bare final consonant
+	}
 	return t
 }
 
-- 
2.43.0


From 50017f835031d7dbd1a5040dbfa83cb04f7d26a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 05/11] fix: write one '?' for an unencodable character

To wrote two for characters beyond the end of the table, such as U+FFFD
and therefore also each malformed byte.
---
 encoding/cp949/cp949.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index e4793c8..2f378d4 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -89,10 +89,6 @@ func (p *translateToCp949) Translate(data []byte) (int, []byte, error) {
 			return false
 		})
 
-		if fi >= len(p.table) {
-			p.scratch = append(p.scratch, '?')
-		}
-
 		if fi < len(p.table) && rUcs2 == p.table[fi].ucs2 {
 			f := p.table[fi]
 			p.scratch = append(p.scratch,
-- 
2.43.0


From 364f7b7567b178b3646253fac42df5996072ae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 06/11] fix: do not encode supplementary characters as
 unrelated ones

Only the low 16 bits were compared: U+1AC02 was encoded as U+AC02.
---
 encoding/cp949/cp949.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index 2f378d4..fdcee7d 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -89,7 +89,7 @@ func (p *translateToCp949) Translate(data []byte) (int, []byte, error) {
 			return false
 		})
 
-		if fi < len(p.table) && rUcs2 == p.table[fi].ucs2 {
+		if fi < len(p.table) && r == rune(p.table[fi].ucs2) {
 			f := p.table[fi]
 			p.scratch = append(p.scratch,
 				byte(f.cp949>>8), byte(f.cp949&0xff))
-- 
2.43.0


From f2ae39947543aa82445ebb23350deac7b48ee1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:34 +0000
Subject: [PATCH 07/11] fix: do not withhold or drop text in the cp949 reader

When a read from the source ended inside a character, everything read was
held back until some later read ended on a boundary, and if the source
ended first all of it was dropped and a clean io.EOF returned.
---
 encoding/cp949/cp949.go  | 3 ++-
 encoding/cp949/public.go | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index fdcee7d..4c8920b 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -43,7 +43,8 @@ func (p *translateFromCp949) Translate(data []byte) (int, []byte, error) {
 		}
 
 		if len(data) < 2 {
-			return 0, nil, ErrCP949UnexpectedStream
+			// Tell what has been translated before the dangling byte.
+			return c, p.scratch, ErrCP949UnexpectedStream
 		}
 
 		n := uint16(data[0])<<8 | uint16(data[1])
diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index c1b213d..68060dd 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -76,15 +76,15 @@ func (r *cp949Reader) Read(buf []byte) (int, error) {
 			break
 		}
 		nc, cdata, cvterr := r.tr.Translate(r.rdata)
-		if cvterr != nil {
-			// TODO
-		}
 		r.cdata = cdata
 
 		// Ensure that we consume all bytes at eof
 		// if the converter refuses them.
 		if nc == 0 && r.err != nil {
 			nc = len(r.rdata)
+			if r.err == io.EOF && cvterr != nil {
+				r.err = cvterr
+			}
 		}
 
 		// Copy unconsumed data to the start of the rdata buffer.
-- 
2.43.0


From cb9379f9f109bcb14fa052314dea8d30bcdb39e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 08/11] fix: do not take an empty read for the end of the
 stream

Reading with an empty buffer, or from a source that returned 0, nil once,
made the cp949 reader report io.EOF and lose the rest of the stream.
---
 encoding/cp949/public.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index 68060dd..e5ff165 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -56,7 +56,13 @@ func NewReader(r io.Reader) (io.Reader, error) {
 	return &cp949Reader{r: r, tr: tr}, nil
 }
 
+// maxEmptyReads is the number of consecutive empty reads tolerated.
+const maxEmptyReads = 100
+
 func (r *cp949Reader) Read(buf []byte) (int, error) {
+	if len(buf) == 0 {
+		return 0, nil
+	}
 	for {
 		if len(r.cdata) > 0 {
 			n := copy(buf, r.cdata)
@@ -66,9 +72,12 @@ func (r *cp949Reader) Read(buf []byte) (int, error) {
 		if r.err == nil {
 			r.rdata = ensureCap(r.rdata, len(r.rdata)+len(buf))
 			n, err := r.r.Read(r.rdata[len(r.rdata):cap(r.rdata)])
+			for i := 1; n == 0 && err == nil && i < maxEmptyReads; i++ {
+				n, err = r.r.Read(r.rdata[len(r.rdata):cap(r.rdata)])
+			}
 			// Guard against non-compliant Readers.
 			if n == 0 && err == nil {
-				err = io.EOF
+				err = io.ErrNoProgress
 			}
 			r.rdata = r.rdata[0 : len(r.rdata)+n]
 			r.err = err
-- 
2.43.0


From 5b8a1122c4c7f932619e78432743ca0da24e6350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:37 +0000
Subject: [PATCH 09/11] fix: keep an incomplete character between writes in the
 cp949 writer

A character divided over two Write calls was written as several "?".
---
 encoding/cp949/public.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index e5ff165..b21e471 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -6,6 +6,7 @@ package cp949
 
 import (
 	"io"
+	"unicode/utf8"
 )
 
 // From converts cp949 stream to utf-8 stream
@@ -120,17 +121,19 @@ func NewWriter(w io.Writer) (io.Writer, error) {
 
 func (w *cp949Writer) Write(data []byte) (int, error) {
 	wdata := data
-	if len(w.buf) > 0 {
+	held := len(w.buf)
+	if held > 0 {
 		w.buf = append(w.buf, data...)
 		wdata = w.buf
 	}
-	n, cdata, err := w.tr.Translate(wdata)
+	n, cdata, err := w.tr.Translate(wdata[:completeLen(wdata)])
 	if err != nil {
 		// TODO
 	}
 	if n > 0 {
 		_, err = w.w.Write(cdata)
 		if err != nil {
+			w.buf = w.buf[:held]
 			return 0, err
 		}
 	}
@@ -140,3 +143,17 @@ func (w *cp949Writer) Write(data []byte) (int, error) {
 	}
 	return len(data), nil
 }
+
+// completeLen returns the length of data without an incomplete utf-8
+// sequence at its end.
+func completeLen(data []byte) int {
+	for i := len(data) - 1; i >= 0 && i > len(data)-utf8.UTFMax; i-- {
+		if utf8.RuneStart(data[i]) {
+			if !utf8.FullRune(data[i:]) {
+				return i
+			}
+			break
+		}
+	}
+	return len(data)
+}
-- 
2.43.0


From 2fbe6bed133276f5feec845756e3bc6fd17c595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:38 +0000
Subject: [PATCH 10/11] fix: honour the transform.Transformer contract

Transform ignored the size of dst and characters cut by the end of src:
texts that did not fit the 4096-byte buffers of x/text panicked, were
corrupted or failed with ErrCP949UnexpectedStream.
---
 encoding/cp949/encoding.go | 55 +++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/encoding/cp949/encoding.go b/encoding/cp949/encoding.go
index dcf33a0..d18d532 100644
--- a/encoding/cp949/encoding.go
+++ b/encoding/cp949/encoding.go
@@ -1,7 +1,10 @@
 package cp949
 
 import (
+	"unicode/utf8"
+
 	"golang.org/x/text/encoding"
+	"golang.org/x/text/transform"
 )
 
 // CP949Encoding provides the Encoding interface for CP949 encoding.
@@ -26,30 +29,62 @@ type cp949Decoder struct{}
 
 // Transform converts data from CP949 to UTF-8.
 func (d *cp949Decoder) Transform(dst, src []byte, atEOF bool) (nDst, nSrc int, err error) {
-	// Use the From function to convert CP949 to UTF-8.
-	converted, err := From(src)
+	tr, err := fromCp949()
 	if err != nil {
 		return 0, 0, err
 	}
 
-	// Copy the converted data to dst.
-	copy(dst, converted)
-	return len(converted), len(src), nil
+	// Convert one character at a time, as long as it fits in dst.
+	for nSrc < len(src) {
+		size := 1
+		if src[nSrc]&0x80 != 0 {
+			size = 2
+		}
+		if nSrc+size > len(src) {
+			if !atEOF {
+				return nDst, nSrc, transform.ErrShortSrc
+			}
+			return nDst, nSrc, ErrCP949UnexpectedStream
+		}
+		_, converted, err := tr.Translate(src[nSrc : nSrc+size])
+		if err != nil {
+			return nDst, nSrc, err
+		}
+		if len(converted) > len(dst)-nDst {
+			return nDst, nSrc, transform.ErrShortDst
+		}
+		nDst += copy(dst[nDst:], converted)
+		nSrc += size
+	}
+	return nDst, nSrc, nil
 }
 
 type cp949Encoder struct{}
 
 // Transform converts data from UTF-8 to CP949.
 func (e *cp949Encoder) Transform(dst, src []byte, atEOF bool) (nDst, nSrc int, err error) {
-	// Use the To function to convert UTF-8 to CP949.
-	converted, err := To(src)
+	tr, err := toCp949()
 	if err != nil {
 		return 0, 0, err
 	}
 
-	// Copy the converted data to dst.
-	copy(dst, converted)
-	return len(converted), len(src), nil
+	// Convert one character at a time, as long as it fits in dst.
+	for nSrc < len(src) {
+		if !atEOF && !utf8.FullRune(src[nSrc:]) {
+			return nDst, nSrc, transform.ErrShortSrc
+		}
+		_, size := utf8.DecodeRune(src[nSrc:])
+		_, converted, err := tr.Translate(src[nSrc : nSrc+size])
+		if err != nil {
+			return nDst, nSrc, err
+		}
+		if len(converted) > len(dst)-nDst {
+			return nDst, nSrc, transform.ErrShortDst
+		}
+		nDst += copy(dst[nDst:], converted)
+		nSrc += size
+	}
+	return nDst, nSrc, nil
 }
 
 // Reset resets the state of the Transformer.
-- 
2.43.0


From 77144b88e9a4acabe25a461745d745beebfee189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 11/11] =?UTF-8?q?fix:=20read=20=E5=9D=8D=20as=20=EB=8B=B4?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The table had 단. KS X 1001 and the CLDR Korean collation list it under 담
(Middle Chinese final -m).
---
 hanja/table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hanja/table.go b/hanja/table.go
index 96f37f4..e4098d2 100644
--- a/hanja/table.go
+++ b/hanja/table.go
@@ -24322,7 +24322,7 @@ var (
 		0x95b6: 0xcc3d,
 		0x5ebc: 0xacbd,
 		0x8e47: 0xac74,
-		0x574d: 0xb2e8,
+		0x574d: 0xb2f4,
 		0x76cc: 0xc644,
 		0x3fd2: 0xc8fc,
 		0x45d6: 0xccb4,
-- 
2.43.0

