#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the prose lives here so that it can be edited readably)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Splitting and joining syllables is Unicode's canonical bijection",
  "For each of the 11172 precomposed Hangul syllables, Split returns exactly the lead, medial and tail jamo of the syllable's Unicode canonical decomposition (tail 0 if it has none), SplitCompat returns the same letters as compatibility jamo, and Join of either triple gives back the original syllable. Distinct valid triples join to distinct syllables. For any rune that is not a precomposed syllable, Split and SplitCompat return 0, 0, 0.",
  ["inputs"], "all runes (every int32 value) for Split/SplitCompat; all 19 x 21 x 28 letter triples, in conjoining, compatibility and mixed form, for Join",
  "The tests split 6 and join 4 of 11172 syllables; the claim is over the whole block and everything outside it.",
  ["hangul.go", "jamo.go", "constant.go"],
  [("index arithmetic over 588/28", "hangul.go Split, Join"), ("jamo index/range checks", "jamo.go leadIdx, medialIdx, tailIdx")],
  observe=["hangul.Split", "hangul.SplitCompat", "hangul.Join"])

p("C02", "Join refuses anything that is not a syllable's letters",
  "Join returns a precomposed syllable if and only if its first argument is one of the 19 modern lead consonants, its second one of the 21 modern vowels and its third either 0 or one of the 27 modern tail consonants, each as conjoining or compatibility jamo. For every other combination of runes it returns U+FFFD: it never drops, substitutes or invents a letter and never panics.",
  ["inputs"], "all triples of runes",
  "No test passes Join an invalid letter at all; the space is a product of three full rune domains.",
  ["hangul.go", "jamo.go"],
  [("ok results of the index lookups", "hangul.go Join"), ("lead/tail conversion tables", "jamo.go toLead, toTail")],
  observe=["hangul.Join"])

p("C03", "Letter classification recognises exactly the modern Hangul letters",
  "IsLead, IsMedial and IsTail are true exactly for U+1100-1112, U+1161-1175 and U+11A8-11C2; IsJaeum exactly for leads, tails and the compatibility consonants U+3131-314E; IsMoeum exactly for medials and the compatibility vowels U+314F-3163; and IsHangul exactly for the precomposed syllables U+AC00-D7A3 and everything IsJaeum or IsMoeum accepts. No rune is both a consonant and a vowel, and the answers hold for every rune value, including negative and out-of-Unicode ones.",
  ["inputs"], "every rune value",
  "None of the classification functions is called by the tests; the claim is an iff over the whole rune domain, where off-by-one bounds and 16-bit aliasing hide.",
  ["hangul.go", "jamo.go", "constant.go"], [("range comparisons", "jamo.go Is*, hangul.go IsHangul")],
  observe=["hangul.IsHangul", "hangul.IsJaeum", "hangul.IsMoeum", "hangul.IsLead", "hangul.IsMedial", "hangul.IsTail"])

p("C04", "Jamo form conversions preserve the letter",
  "CompatJamo, Lead, Medial and Tail map a modern Hangul letter to the same letter (same Unicode letter identity) in compatibility, lead, vowel or tail form, leave a letter already in the requested form unchanged, and return 0 exactly when the argument is not a modern Hangul letter having that form. Hence Lead(CompatJamo(l)) = l for every lead, Medial(CompatJamo(m)) = m for every medial and Tail(CompatJamo(t)) = t for every tail.",
  ["inputs"], "every rune value",
  "Tests convert 4 letters in one direction and one in another; the claim covers all 118 letter forms, both directions, and every non-letter.",
  ["jamo.go", "constant.go"], [("conversion tables", "jamo.go toCompatJamo, toLead, toTail"), ("block-offset arithmetic", "jamo.go CompatJamo, Medial")],
  observe=["hangul.CompatJamo", "hangul.Lead", "hangul.Medial", "hangul.Tail"])

p("C05", "Compound letters split completely into their basic letters",
  "SplitMultiElement succeeds exactly for the 27 compound modern letters (doubled consonants, consonant clusters and compound vowels) in any of their lead, medial, tail or compatibility forms, and returns their component letters in writing order as basic compatibility jamo, none of which can itself be split further. For every other rune it returns nothing and false. Callers may modify the slice they get: later results, of any function and on any goroutine, do not change.",
  ["inputs", "histories"], "every rune value; every sequence of calls interleaved with modifications of previously returned slices",
  "The tests look at one compound and one simple letter and never touch the returned slice; aliasing needs a history, and completeness needs the whole table.",
  ["jamo.go"], [("component table", "jamo.go multiElements"), ("form folding before lookup", "jamo.go SplitMultiElement")],
  state=[("multiElements", "compound letter to components", "jamo.go")],
  observe=["hangul.SplitMultiElement", "hangul.Stroke"])

p("C06", "Stroke counts are additive over the basic letters",
  "The stroke count of a basic letter is its published count (ㄱ1 ㄴ1 ㄷ2 ㄹ3 ㅁ3 ㅂ4 ㅅ2 ㅇ1 ㅈ3 ㅊ4 ㅋ2 ㅌ3 ㅍ4 ㅎ3 ㅏ2 ㅑ3 ㅓ2 ㅕ3 ㅗ2 ㅛ3 ㅜ2 ㅠ3 ㅡ1 ㅣ1) in whatever jamo form it is given; the count of a compound letter is the sum over its basic components and the count of a syllable the sum over its letters. It is 0 for every rune that is not modern Hangul.",
  ["inputs"], "every rune value",
  "Tests count 5 syllables and 3 letters; a wrong count for one letter changes hundreds of untested syllables.",
  ["stroke.go", "jamo.go", "hangul.go"], [("per-letter counts", "stroke.go strokes"), ("recursion over components", "stroke.go Stroke")],
  observe=["hangul.Stroke"])

p("C07", "A word's last consonant is decided by its final character",
  "LastConsonant returns the tail jamo of the word's final character: for a precomposed syllable its canonical tail (0 if it has none), for a conjoining tail jamo that jamo itself, and 0 for the empty word and for a word whose final character is not a Hangul letter or syllable, however long the word and whatever precedes. EndsWithConsonant is true exactly when LastConsonant is not 0, and neither panics on any byte string.",
  ["inputs"], "all strings, including non-Hangul, invalid UTF-8 and very long ones",
  "Tests use five Hangul words; nothing covers words ending in Latin letters, digits, punctuation, emoji, decomposed Hangul or broken UTF-8.",
  ["hangul.go"], [("decode and split the final rune", "hangul.go LastConsonant")],
  observe=["hangul.LastConsonant", "hangul.EndsWithConsonant"])

p("C08", "Postposition selection follows the final consonant",
  "AppendPostposition(word, with, without) returns the word's bytes unchanged followed by exactly one of the two given postpositions: 'with' if LastConsonant(word) is not 0, otherwise 'without'. The only exception is that when 'with' is exactly 으로 and the last consonant is ㄹ, 'without' is appended.",
  ["inputs"], "all words x all pairs of postposition strings, including empty, equal and non-Hangul ones",
  "Nine example rows; the rule is a conditional over all words and all particle pairs, and the ㄹ exception must fire for every ㄹ-final syllable and only for 으로.",
  ["hangul.go"], [("tail test and the 으로 exception", "hangul.go AppendPostposition")],
  observe=["hangul.AppendPostposition"])

p("C09", "Decoding CP949 is the standard mapping, character by character",
  "For every byte string made of whole CP949 characters, From returns without error the concatenation, in order, of each character's Unicode equivalent: bytes below 0x80 as themselves, and every two-byte sequence starting with a byte of 0x80 or above as the character the CP949 (UHC) standard assigns to it, or a single U+FFFD if it assigns none. The result is valid UTF-8 and does not depend on what precedes or follows a character or on the length of the text.",
  ["inputs"], "all byte strings that consist of whole characters; all 17048 assigned and all unassigned pairs, in every context",
  "Tests decode four sample texts, roughly 100 of 17048 characters; neither the rest of the table nor unassigned codes nor long inputs are reached.",
  ["encoding/cp949/cp949.go", "encoding/cp949/public.go", "encoding/cp949/lookup_from.go"],
  [("binary search in the sorted table", "cp949.go translateFromCp949.Translate"), ("output buffer growth", "cp949.go ensureCap, appendRune")],
  state=[("fromTable", "CP949 to Unicode pairs sorted by CP949", "lookup_from.go")],
  observe=["cp949.From"])

p("C10", "Encoding to CP949 is the standard mapping with one '?' per loss",
  "For every byte string, To returns without error the concatenation, in order, of the CP949 code of each character of the text: ASCII as itself, each of the 17048 characters CP949 can represent as its standard two bytes, and exactly one '?' for every other character, including all characters above U+FFFF, and for every byte that is not valid UTF-8. It never emits the code of a different character.",
  ["inputs"], "all byte strings; all Unicode scalar values in every context; all malformed UTF-8",
  "Tests encode four sample texts in which every character is representable; unrepresentable, supplementary-plane and malformed inputs are never tried.",
  ["encoding/cp949/cp949.go", "encoding/cp949/public.go", "encoding/cp949/lookup_to.go"],
  [("binary search in the sorted table", "cp949.go translateToCp949.Translate"), ("fallback character", "cp949.go translateToCp949.Translate")],
  state=[("toTable", "Unicode to CP949 pairs sorted by Unicode", "lookup_to.go")],
  observe=["cp949.To"])

p("C11", "Text survives the round trip between UTF-8 and CP949",
  "Any UTF-8 text whose characters CP949 can represent is unchanged by To followed by From, and any CP949 text made of assigned characters is unchanged by From followed by To, for texts of any length and composition. The same holds when either direction goes through the streaming reader and writer or the text-encoding adapter, in any combination.",
  ["inputs", "histories"], "all representable texts; all combinations of the three decoding and three encoding interfaces",
  "Tests check each direction against fixed strings; they never compose the two directions nor the different interfaces.",
  ["encoding/cp949/cp949.go", "encoding/cp949/public.go", "encoding/cp949/encoding.go"],
  [("two tables that must be mutually inverse", "lookup_from.go, lookup_to.go")],
  observe=["cp949.From", "cp949.To", "cp949.NewReader", "cp949.NewWriter", "cp949.NewCP949Encoding"])

p("C12", "A truncated CP949 text is an error, and nothing else is",
  "From returns ErrCP949UnexpectedStream, and no text, exactly when the input ends after the first byte of a two-byte character; for every other input it returns a nil error. To never returns an error. The streaming reader and the decoder adapter report that same error for such an input, after delivering all the text before the dangling byte, and never report a clean end of text.",
  ["inputs"], "all byte strings, cut at every position; all three decoding interfaces",
  "One one-byte input is tested through one interface; truncation after arbitrary text, through the reader and the adapter, is not.",
  ["encoding/cp949/cp949.go", "encoding/cp949/public.go", "encoding/cp949/encoding.go", "encoding/cp949/err.go"],
  [("length check before the second byte", "cp949.go translateFromCp949.Translate"), ("end-of-input handling", "public.go cp949Reader.Read")],
  observe=["cp949.From", "cp949.To", "cp949.NewReader(...).Read", "NewDecoder"])

p("C13", "The streaming reader delivers exactly what From would",
  "Whatever sizes the source returns its bytes in, wherever those cut characters, and whatever buffer sizes the caller reads with, the concatenation of everything Read returns equals From of all the source's bytes, followed by io.EOF. This includes sources that return data together with io.EOF, sources that sometimes return zero bytes without an error, callers that sometimes pass an empty buffer, and several readers used alternately; Read never returns more than the buffer holds nor writes outside it.",
  ["inputs", "histories"], "all byte strings x all source chunkings x all sequences of caller buffer sizes x interleavings of several readers",
  "NewReader is not exercised by any test; its correctness is about every way of cutting the stream.",
  ["encoding/cp949/public.go", "encoding/cp949/cp949.go"],
  [("carry-over of unconverted bytes", "public.go cp949Reader.rdata"), ("carry-over of undelivered output", "public.go cp949Reader.cdata")],
  state=[("rdata", "source bytes not yet converted", "public.go"), ("cdata", "converted bytes not yet delivered", "public.go")],
  observe=["io.Reader returned by cp949.NewReader", "the source reader it wraps"])

p("C14", "The streaming reader neither withholds text nor hides errors",
  "The reader asks its source for more bytes only when every complete character received so far has been delivered to the caller, so a slow or interactive source never has finished characters held back. If the source fails, all complete characters received before (or together with) the failure are delivered first and then exactly the source's error is returned, by that and every later Read, without consulting the source again.",
  ["histories", "fault_sequences"], "all streams x all fault positions x all chunkings and buffer sizes",
  "No test injects a source error or observes when the source is read; it is a property of the interleaving of source reads and deliveries.",
  ["encoding/cp949/public.go"], [("stored final error", "public.go cp949Reader.err"), ("drain before reading", "public.go cp949Reader.Read")],
  state=[("err", "final error of the source", "public.go")],
  observe=["io.Reader returned by cp949.NewReader", "the source reader it wraps"])

p("C15", "The streaming writer emits exactly what To would",
  "However a UTF-8 text is divided over Write calls, including in the middle of a character, after each Write the bytes the sink has received are exactly To of everything written so far, except for an incomplete character (at most three bytes) at its very end, which is emitted once completed or shown malformed by later bytes. Each successful Write reports len of its argument, and several writers used alternately do not affect each other.",
  ["inputs", "histories"], "all byte strings x all divisions into writes x interleavings of several writers",
  "NewWriter is not exercised by any test; every way of cutting the text, in particular inside a character, has to be right.",
  ["encoding/cp949/public.go", "encoding/cp949/cp949.go"], [("carry-over of unconverted bytes", "public.go cp949Writer.buf")],
  state=[("buf", "bytes of an incomplete character", "public.go")],
  observe=["io.Writer returned by cp949.NewWriter", "the sink it wraps"])

p("C16", "The streaming writer reports sink failures and can be retried",
  "When the sink returns an error, the Write that caused it returns that error and a count smaller than the length of its argument; it is never swallowed. If the sink took nothing in the failed call, writing the unreported rest of the argument again continues the output exactly as if the failure had not happened: nothing lost, nothing duplicated, including a character begun in an earlier Write.",
  ["histories", "fault_sequences"], "all texts x all divisions into writes x all sets of failing sink calls",
  "No test uses a failing sink; retry correctness depends on the state left behind by the failed call.",
  ["encoding/cp949/public.go"], [("error return and buffer state on failure", "public.go cp949Writer.Write")],
  observe=["io.Writer returned by cp949.NewWriter", "the sink it wraps"])

p("C17", "The text-encoding adapter obeys the transformer contract",
  "The decoder and encoder of CP949Encoding produce, through any x/text entry point (Bytes, String, Reader, Writer, or Transform called with arbitrary source pieces, destination sizes and end-of-input flags), exactly the output of From and To for texts of any length. Transform reports counts within its arguments, writes nothing beyond the count it reports, converts only whole characters (asking for more destination or source exactly when the next one does not fit or is incomplete), and always makes progress given room; an instance can be reused for any number of texts, also after a failure.",
  ["inputs", "histories"], "all texts x all source divisions x all destination sizes x both end-of-input flags x reuse histories",
  "Tests push four short texts through one entry point each, all shorter than the 4096-byte buffers at which source and destination limits start to matter.",
  ["encoding/cp949/encoding.go"], [("Transform implementations", "encoding.go cp949Decoder.Transform, cp949Encoder.Transform")],
  observe=["CP949Encoding.NewDecoder", "CP949Encoding.NewEncoder"])

p("C18", "Hanja conversion replaces hanja in place and nothing else",
  "For every valid UTF-8 string, Convert returns a string with the same number of characters in which each character accepted by IsHanja is replaced by a precomposed Hangul syllable depending on that character alone, and every other character is unchanged at the same position. IsHanja accepts exactly the ideographs U+3400-4DB5, U+4E00-9FA5 and the twelve unified ideographs among U+FA0E-FA29, so that converting twice equals converting once; malformed UTF-8 never prevents the conversion of the hanja around it.",
  ["inputs"], "all strings; every rune for IsHanja; every hanja in every context",
  "One 15-character sentence is tested; 27496 characters, all contexts, and all non-hanja that must be left alone are not.",
  ["hanja/hanja.go", "hanja/table.go"], [("rune-wise table lookup", "hanja.go Convert, IsHanja")],
  state=[("table", "hanja to hangul syllable", "hanja/table.go")],
  observe=["hanja.Convert", "hanja.IsHanja"])

p("C19", "Every hanja converts to its established Korean reading",
  "Each of the 27496 supported hanja converts to the established (published) Sino-Korean reading of that character; for the hanja that the national standard KS X 1001 contains, this reading is one under which the standard lists the character. The reading of a character does not depend on its position or neighbours.",
  ["inputs"], "all 27496 supported hanja",
  "The test converts eleven different hanja out of 27496; a wrong or swapped reading of any other goes unnoticed.",
  ["hanja/table.go", "hanja/hanja.go"], [("reading table", "hanja/table.go")],
  state=[("table", "hanja to hangul syllable", "hanja/table.go")],
  observe=["hanja.Convert"])

p("C20", "All operations are safe and independent under concurrency",
  "Any number of goroutines may call any of the packages' functions at the same time, sharing inputs and a CP949Encoding, and use their own readers, writers, encoders and decoders: there is no data race, and every call returns exactly what it returns when run alone. No call's result depends on which calls happened before it.",
  ["schedules", "histories"], "all schedules of concurrent calls to all exported functions and all call histories",
  "The tests are strictly sequential and never run under the race detector with concurrent callers.",
  ["hangul.go", "jamo.go", "stroke.go", "hanja/hanja.go", "encoding/cp949/cp949.go", "encoding/cp949/public.go", "encoding/cp949/encoding.go"],
  [("package tables are only read after initialisation", "jamo.go, stroke.go, hanja/table.go, lookup_*.go"), ("per-call and per-stream translator state", "cp949.go, public.go")],
  state=[("scratch", "output buffer owned by one translator", "cp949.go")],
  observe=["every exported function and method"])

p("C21", "Arguments are never modified and results belong to the caller",
  "No function or stream modifies the bytes or runes passed to it, including memory beyond the slice's length, or keeps using them after it returns: the caller may overwrite its buffers at once without affecting any output. Slices returned to the caller are never changed by later calls, and changing them affects no later result.",
  ["inputs", "histories"], "all inputs and all histories of calls interleaved with overwriting of arguments and results",
  "No test reuses a buffer or looks at a result again after another call; aliasing only shows in a history.",
  ["encoding/cp949/cp949.go", "encoding/cp949/public.go", "encoding/cp949/encoding.go", "jamo.go"],
  [("fresh translator per From/To call", "public.go"), ("copying carry-over buffers", "public.go cp949Reader, cp949Writer")],
  observe=["cp949.From", "cp949.To", "cp949 reader, writer, decoder, encoder", "hangul.SplitMultiElement"])

p("C22", "Exported letter constants denote the letters they name",
  "Each exported constant of package hangul has the code point of the Unicode letter it is named for: the compatibility constants G to I (with NG the same as ZS) are HANGUL LETTER ..., Lead* HANGUL CHOSEONG ..., Medial* HANGUL JUNGSEONG ... and Tail* HANGUL JONGSEONG ..., and like-named constants of different forms are carried into each other by Lead, Medial, Tail and CompatJamo. A caller who spells letters with the constants therefore gets the same results from every function as one who writes the characters literally.",
  ["inputs", "programs"], "all 119 exported letter constants, in every function that takes a rune",
  "The tests check the last constant of each block only; exchanging two constants in the middle shifts nothing at the ends.",
  ["constant.go"], [("iota blocks", "constant.go")],
  observe=["exported constants of package hangul"])

p("C23", "Every operation terminates without panicking and yields valid text",
  "No byte string, rune, or sequence of stream operations, however malformed or large, makes any exported function or method panic, loop forever, or consume an amount of source reads, sink writes or memory out of proportion to its input. Decoded and converted text (From, the reader, the decoder, Convert) is always valid UTF-8, and encoded text (To, the writer, the encoder) always consists of whole CP949 characters.",
  ["inputs", "histories"], "all arguments of all exported functions and all operation sequences on streams",
  "The tests use well-formed short inputs; nothing hostile, huge or malformed is fed to any function.",
  ["hangul.go", "jamo.go", "stroke.go", "hanja/hanja.go", "encoding/cp949/cp949.go", "encoding/cp949/public.go", "encoding/cp949/encoding.go"],
  [("bounds checks before table and buffer access", "cp949.go, jamo.go"), ("bounded buffer growth", "cp949.go ensureCap")],
  observe=["every exported function and method"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
