From 3e55f0e4dd448e24e47cf222e77f4c339c529d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 01/23] fix: TransformRange: count initialOffset in characters

The documentation and every caller (Filter, TrimLeftRight, Replace) express
initialOffset as a number of removed characters, but it was used as a number
of bytes: removing leading multi-byte characters panicked or misaligned the
rest of the string.
---
 normalizedstring/normalizedstring.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index fb82a95..37ee644 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -163,8 +163,10 @@ func (ns *NormalizedString) TransformRange(
 	// compute the change in byte sizes along the way.
 	replacedNormalizedString := ns.normalized[normalizedRange.Start():normalizedRange.End()]
 
-	initialRemoved := len(replacedNormalizedString[:initialOffset])
-	replacedNormalizedRunes := []rune(replacedNormalizedString[initialOffset:])
+	// initialOffset counts characters, not bytes
+	replacedNormalizedRunes := []rune(replacedNormalizedString)
+	initialRemoved := len(string(replacedNormalizedRunes[:initialOffset]))
+	replacedNormalizedRunes = replacedNormalizedRunes[initialOffset:]
 
 	offset := initialRemoved + normalizedRange.Start()
 	alignments := make([]AlignmentRange, 0, normalizedRange.Len())
-- 
2.43.0


From 568dc463a8a4b72e44a2b9cd7cf121664383b892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 02/23] fix: Append: locate the last character by its byte
 position

The index of the last rune was used as a byte position, which corrupted the
text and the alignments as soon as the string had a multi-byte character.
---
 normalizedstring/normalizedstring.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 37ee644..1e59c70 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -10,6 +10,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/strutils"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 // NormalizedString takes care of processing an "original" string to modify
@@ -463,9 +464,8 @@ func (ns *NormalizedString) Append(s string) {
 
 	transformations := make([]RuneChange, 0, len(s)+1)
 
-	runes := []rune(ns.normalized)
-	lastRuneIndex := len(runes) - 1
-	lastRune := runes[lastRuneIndex]
+	lastRune, lastRuneBytesLen := utf8.DecodeLastRuneInString(ns.normalized)
+	lastRuneStart := ns.Len() - lastRuneBytesLen
 
 	transformations = append(transformations, RuneChange{Rune: lastRune, Change: 0})
 
@@ -473,8 +473,7 @@ func (ns *NormalizedString) Append(s string) {
 		transformations = append(transformations, RuneChange{Rune: r, Change: 1})
 	}
 
-	// FIXME: it's probably wrong to pass the rune index, instead of byte index
-	ns.TransformRange(NewNormalizedRange(lastRuneIndex, ns.Len()), transformations, 0)
+	ns.TransformRange(NewNormalizedRange(lastRuneStart, ns.Len()), transformations, 0)
 }
 
 // SplitDelimiterBehavior is used by NormalizedString.Split to define the
-- 
2.43.0


From 81f9f93a8adad02cdd2ec229297ffe1bf8327e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 03/23] fix: Prepend: prepending nothing leaves the alignments
 alone

Prepending an empty string re-inserted the first character as a new one,
aligned to an empty original range.
---
 normalizedstring/normalizedstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 1e59c70..8a54a77 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -433,7 +433,7 @@ func (ns *NormalizedString) CoerceRangeToOriginal(r Range) (OriginalRange, bool)
 //
 // FIXME: Prepend does nothing if the normalized string is empty
 func (ns *NormalizedString) Prepend(s string) {
-	if len(ns.normalized) == 0 {
+	if len(s) == 0 || len(ns.normalized) == 0 {
 		return
 	}
 
-- 
2.43.0


From 3d9e9dace70396bef57c190d5701b741db6e22a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 04/23] fix: StringSplitPattern: the empty literal covers the
 text in bytes

The single capture ended at the number of runes instead of bytes, so it did
not cover a text with multi-byte characters.
---
 splitpattern/string.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/splitpattern/string.go b/splitpattern/string.go
index 808db8e..3a1be98 100644
--- a/splitpattern/string.go
+++ b/splitpattern/string.go
@@ -28,8 +28,7 @@ func (sp *StringSplitPattern) FindMatches(s string) ([]Capture, error) {
 	if sp.r == nil {
 		// If we try to find the matches with an empty string, just don't match anything
 		return []Capture{{
-			// FIXME: is len of runes (and not bytes) correct?
-			Offsets: strutils.ByteOffsets{Start: 0, End: len([]rune(s))},
+			Offsets: strutils.ByteOffsets{Start: 0, End: len(s)},
 			IsMatch: false,
 		}}, nil
 	}
-- 
2.43.0


From 8956ae937900a7860f75ae3fe7e67127d441db08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 05/23] fix: NormalizedString: report out-of-range requests
 instead of panicking

GetRange, GetOriginalRange, CoerceRangeToOriginal and Slice are documented to
report failure for ranges that are out of range, but indexed the strings
without checking. Split with a pattern having an empty match past the length
of the original also panicked because of it.
---
 normalizedstring/normalizedstring.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 8a54a77..8686fc3 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -321,7 +321,7 @@ func (ns *NormalizedString) OriginalAlignments() []AlignmentRange {
 // whether the operation is successful or not.
 func (ns *NormalizedString) GetRange(rng Range) (string, bool) {
 	nr, ok := ns.CoerceRangeToNormalized(rng)
-	if !ok {
+	if !ok || !isInside(nr, ns.normalized) {
 		return "", false
 	}
 	return ns.normalized[nr.Start():nr.End()], true
@@ -331,7 +331,7 @@ func (ns *NormalizedString) GetRange(rng Range) (string, bool) {
 // reports whether the operation is successful or not.
 func (ns *NormalizedString) GetOriginalRange(rng Range) (string, bool) {
 	or, ok := ns.CoerceRangeToOriginal(rng)
-	if !ok {
+	if !ok || !isInside(or, ns.original) {
 		return "", false
 	}
 	return ns.original[or.Start():or.End()], true
@@ -423,6 +423,11 @@ func (ns *NormalizedString) CoerceRangeToOriginal(r Range) (OriginalRange, bool)
 		return NewOriginalRange(0, ns.OriginalLen()), true
 	}
 
+	// If the target is out of range, return invalid status
+	if !isInside(r, ns.normalized) {
+		return NewOriginalRange(0, 0), false
+	}
+
 	alignments := ns.alignments[r.Start():r.End()]
 
 	// Expand alignments, returning the range covered by this slice
@@ -644,7 +649,7 @@ func (ns *NormalizedString) Slice(rng Range) (*NormalizedString, bool) {
 	}
 
 	normalizedRange, nrOk := ns.CoerceRangeToNormalized(rng)
-	if !nrOk {
+	if !nrOk || !isInside(normalizedRange, ns.normalized) {
 		return nil, false
 	}
 	originalRange, orOk := ns.CoerceRangeToOriginal(rng)
@@ -833,6 +838,11 @@ func (ns *NormalizedString) rangeIsValid(r Range) bool {
 		strutils.IsRuneBoundary(s, r.End())
 }
 
+// isInside reports whether the given range lies within the given string.
+func isInside(r Range, s string) bool {
+	return 0 <= r.Start() && r.Start() <= r.End() && r.End() <= len(s)
+}
+
 // countLeadingSpaces returns the number of leading spaces in the given slice
 // of runes, if any.
 func countLeadingSpaces(runes []rune) int {
-- 
2.43.0


From 1be0111dd743e6f92d97b14fe75bd59667195e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 06/23] fix: OriginalAlignments: handle an empty normalized
 string

It indexed the first alignment unconditionally and panicked once every
character had been removed.
---
 normalizedstring/normalizedstring.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 8686fc3..ef710f0 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -245,6 +245,11 @@ func (ns *NormalizedString) OriginalAlignments() []AlignmentRange {
 	// (offset, length) are in originalAlignments
 	originalAlignments := make([]AlignmentRange, 0, len(ns.original))
 
+	// Everything has been removed
+	if len(ns.alignments) == 0 {
+		return originalAlignments[:len(ns.original)]
+	}
+
 	// Eventual gap before first group
 
 	if start := ns.alignments[0].start; start > 0 {
-- 
2.43.0


From fd91ee9a65daa5dc4d4420ab01e7f8445dcb2ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 07/23] fix: BertNormalizer: CJK Extension E starts at U+2B820

The block is U+2B820..U+2CEAF; the table said U+2B920, leaving its first 256
ideographs without surrounding spaces.
---
 normalizers/bertnormalizer/bertnormalizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizers/bertnormalizer/bertnormalizer.go b/normalizers/bertnormalizer/bertnormalizer.go
index 3ff4501..60df23b 100644
--- a/normalizers/bertnormalizer/bertnormalizer.go
+++ b/normalizers/bertnormalizer/bertnormalizer.go
@@ -118,7 +118,7 @@ var chineseCharacters = &unicode.RangeTable{
 		{0x20000, 0x2a6df, 1},
 		{0x2a700, 0x2b73f, 1},
 		{0x2b740, 0x2b81f, 1},
-		{0x2b920, 0x2ceaf, 1},
+		{0x2b820, 0x2ceaf, 1},
 		{0x2f800, 0x2fa1f, 1},
 	},
 }
-- 
2.43.0


From 68a4aca36175b85d7512a2f88a337f39ddb0ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 08/23] fix: MetaSpacePreTokenizer: no prefix in front of white
 space

The documentation says the prefix is inserted only if the first rune is not
already a unicode whitespace; the text was tested for the replacement
character only, so " a" got two marks in front.
---
 .../metaspacepretokenizer/metaspacepretokenizer.go  | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go b/pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go
index de5ccb1..7750196 100644
--- a/pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go
+++ b/pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go
@@ -10,6 +10,8 @@ import (
 	"github.com/nlpodyssey/gotokenizers/pretokenizers"
 	"github.com/nlpodyssey/gotokenizers/splitpattern"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // MetaSpacePreTokenizer allows the generation of pre-tokens by virtually
@@ -58,7 +60,9 @@ func (m *MetaSpacePreTokenizer) PreTokenize(pts *pretokenizedstring.PreTokenized
 	splittingPattern := splitpattern.FromRune(m.replacement)
 	return pts.Split(
 		func(_ int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
-			if m.prefixSpaceEnabled && !strings.HasPrefix(ns.Get(), m.strReplacement) {
+			if m.prefixSpaceEnabled &&
+				!strings.HasPrefix(ns.Get(), m.strReplacement) &&
+				!startsWithWhitespace(ns.Get()) {
 				ns.Prepend(m.strReplacement)
 			}
 			err := ns.Replace(splitpattern.FromRune(' '), m.strReplacement)
@@ -73,3 +77,10 @@ func (m *MetaSpacePreTokenizer) PreTokenize(pts *pretokenizedstring.PreTokenized
 		},
 	)
 }
+
+// startsWithWhitespace reports whether the first rune of s is a unicode
+// whitespace.
+func startsWithWhitespace(s string) bool {
+	r, size := utf8.DecodeRuneInString(s)
+	return size > 0 && unicode.In(r, unicode.White_Space)
+}
-- 
2.43.0


From e81611b15490ef69f89b296854bfef8588a76d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 09/23] fix: BytesToRuneOffsetConverter: map bytes to rune
 positions

The mapping held byte positions of runes (range over a string yields byte
indices), and a range starting at the end of the sequence panicked.
---
 strutils/strutils.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/strutils/strutils.go b/strutils/strutils.go
index df27192..21c42a9 100644
--- a/strutils/strutils.go
+++ b/strutils/strutils.go
@@ -52,10 +52,12 @@ type BytesToRuneOffsetConverter struct {
 
 func NewBytesToRuneOffsetConverter(sequence string) *BytesToRuneOffsetConverter {
 	mapping := make([]int, 0, len(sequence))
-	for runeIndex, r := range sequence {
+	runeIndex := 0
+	for _, r := range sequence {
 		for range []byte(string(r)) {
 			mapping = append(mapping, runeIndex)
 		}
+		runeIndex++
 	}
 	return &BytesToRuneOffsetConverter{mapping: mapping}
 }
@@ -65,14 +67,17 @@ func (b *BytesToRuneOffsetConverter) Convert(offsets ByteOffsets) RuneOffsets {
 		return RuneOffsets{Start: 0, End: 0}
 	}
 
-	start := b.mapping[offsets.Start]
-
-	var end int
-	if offsets.End == len(b.mapping) {
-		end = b.mapping[offsets.End-1] + 1
-	} else {
-		end = b.mapping[offsets.End]
+	return RuneOffsets{
+		Start: b.runeIndex(offsets.Start),
+		End:   b.runeIndex(offsets.End),
 	}
+}
 
-	return RuneOffsets{Start: start, End: end}
+// runeIndex returns the rune position of the given byte position. The
+// position at the end of the sequence is the amount of runes.
+func (b *BytesToRuneOffsetConverter) runeIndex(byteIndex int) int {
+	if byteIndex == len(b.mapping) {
+		return b.mapping[byteIndex-1] + 1
+	}
+	return b.mapping[byteIndex]
 }
-- 
2.43.0


From 2eed81dab53c4276c6430b5d5402ba4232b6566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 10/23] fix: WordPieceModel: shorten candidates by whole
 characters

The width removed was that of the last byte seen as a code point, so that
candidates ending in the middle of, or skipping, multi-byte characters were
tried instead of the right ones.
---
 models/wordpiecemodel/wordpiecemodel.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/models/wordpiecemodel/wordpiecemodel.go b/models/wordpiecemodel/wordpiecemodel.go
index acda3c2..5978c80 100644
--- a/models/wordpiecemodel/wordpiecemodel.go
+++ b/models/wordpiecemodel/wordpiecemodel.go
@@ -9,6 +9,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/models"
 	"github.com/nlpodyssey/gotokenizers/strutils"
 	"github.com/nlpodyssey/gotokenizers/vocabulary"
+	"unicode/utf8"
 )
 
 var ErrUnknownTokenOutOfVocabulary = fmt.Errorf("the provided unk token is out of vocabulary")
@@ -91,11 +92,8 @@ func (m *WordPieceModel) Tokenize(sequence string) ([]models.Token, error) {
 				break
 			}
 
-			if len(subStr) > 0 {
-				end -= len(string(subStr[len(subStr)-1]))
-			} else {
-				end--
-			}
+			_, lastRuneSize := utf8.DecodeLastRuneInString(sequence[start:end])
+			end -= lastRuneSize
 		}
 
 		if !hasCurToken {
-- 
2.43.0


From c4d15d3c7d7a04ea074c9363e098bad2d3019cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 11/23] fix: BPEModel: the subword prefix goes on characters
 behind another one

---
 models/bpemodel/bpemodel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/bpemodel/bpemodel.go b/models/bpemodel/bpemodel.go
index 308f9fd..be9225b 100644
--- a/models/bpemodel/bpemodel.go
+++ b/models/bpemodel/bpemodel.go
@@ -139,7 +139,7 @@ func (m *BPEModel) mergeWord(w string) (*Word, error) {
 		s := string(r)
 		byteLen := len(s)
 
-		if i == 0 && m.hasContinuingSubwordPrefix() {
+		if i > 0 && m.hasContinuingSubwordPrefix() {
 			s = m.continuingSubwordPrefix + s
 		}
 		if i == lastRuneIndex && m.hasEndOfWordSuffix() {
-- 
2.43.0


From 5e3ff42b2557f554d45e27e76532213690bec4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 12/23] fix: MergeMapFromFile: report right terms shorter than
 the prefix

---
 models/bpemodel/mergemap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/bpemodel/mergemap.go b/models/bpemodel/mergemap.go
index 498caf6..b0dde19 100644
--- a/models/bpemodel/mergemap.go
+++ b/models/bpemodel/mergemap.go
@@ -72,6 +72,9 @@ func MergeMapFromFile(
 			return nil, fmt.Errorf("line %d: right merge token is out of vocabulary", lineCount)
 		}
 
+		if len(terms[1]) < prefixLength {
+			return nil, fmt.Errorf("line %d: right merge token is shorter than the prefix", lineCount)
+		}
 		mergedTerm := fmt.Sprintf("%s%s", terms[0], terms[1][prefixLength:])
 		mergedID, mergedOK := vocab.GetID(mergedTerm)
 		if !mergedOK {
-- 
2.43.0


From c53ef1923dfd393034e4575c2ade69df7bf76936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 13/23] fix: Vocabulary: never reuse the ID of another term

IDs loaded from a file need not be 0..size-1. Terms can also be added to a
vocabulary loaded from a null JSON value.
---
 vocabulary/vocabulary.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vocabulary/vocabulary.go b/vocabulary/vocabulary.go
index 4a8eaee..71f32a0 100644
--- a/vocabulary/vocabulary.go
+++ b/vocabulary/vocabulary.go
@@ -36,6 +36,10 @@ func FromJSONFile(filename string) (*Vocabulary, error) {
 		return nil, err
 	}
 
+	if termToID == nil { // the JSON value is null
+		termToID = make(map[string]int)
+	}
+
 	idToTerm := make(map[int]string, len(termToID))
 	for term, id := range termToID {
 		idToTerm[id] = term
@@ -46,13 +50,17 @@ func FromJSONFile(filename string) (*Vocabulary, error) {
 
 // AddTerm adds a new term to the vocabulary.
 // If the term does not yet exist in the vocabulary, a new ID is associated to
-// it, corresponding to the current vocabulary size.
+// it, corresponding to the current vocabulary size, or to the next free ID if
+// that one is already taken.
 // Otherwise, if the string already exists, no insertion is performed.
 func (v *Vocabulary) AddTerm(term string) {
 	if _, ok := v.termToID[term]; ok {
 		return
 	}
 	id := v.Size()
+	for _, taken := v.idToTerm[id]; taken; _, taken = v.idToTerm[id] {
+		id++
+	}
 	v.termToID[term] = id
 	v.idToTerm[id] = term
 }
-- 
2.43.0


From a6d361a87e4e2a7e95b125d10419e5491b44f399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 14/23] fix: Word.MergeAll: recognize every expired queue entry

An entry whose pair was replaced by another pair producing the same ID was
taken as valid, applying the new merge with the rank of the old one.
---
 models/bpemodel/word.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/bpemodel/word.go b/models/bpemodel/word.go
index c5f35e6..294c489 100644
--- a/models/bpemodel/word.go
+++ b/models/bpemodel/word.go
@@ -122,7 +122,7 @@ func (w *Word) MergeAll(merges *MergeMap, dropout float64) {
 		right := (*w)[nextPos]
 
 		// Make sure we are not processing an expired queue entry
-		if m, ok := merges.Get((*w)[top.Pos].ID, right.ID); !ok || m.ID != top.ID {
+		if m, ok := merges.Get((*w)[top.Pos].ID, right.ID); !ok || m != top.MergeValue {
 			continue
 		}
 
-- 
2.43.0


From d1f41a833795a9ab4ff046981fbd9cb300e29b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 15/23] fix: strutils: an ill-formed byte is one character of
 one byte

IsRuneBoundary refused positions next to stray continuation bytes, and the
offset converter counted three bytes for each ill-formed one.
---
 strutils/strutils.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/strutils/strutils.go b/strutils/strutils.go
index 21c42a9..817f074 100644
--- a/strutils/strutils.go
+++ b/strutils/strutils.go
@@ -4,6 +4,8 @@
 
 package strutils
 
+import "unicode/utf8"
+
 // IsRuneBoundary checks that `index`-th byte is the first byte in a UTF-8 code
 // point sequence or the end of the string.
 //
@@ -26,8 +28,18 @@ func IsRuneBoundary(s string, index int) bool {
 	if index < 0 || index > len(s) {
 		return false
 	}
-	// This is bit magic equivalent to: s[index] < 128 || s[index] >= 192
-	return int8(s[index]) >= -0x40
+	if utf8.RuneStart(s[index]) {
+		return true
+	}
+	// A continuation byte is inside a code point only if it belongs to a valid
+	// sequence, otherwise it counts as a character of its own.
+	for start := index - 1; start >= 0 && index-start < utf8.UTFMax; start-- {
+		if utf8.RuneStart(s[start]) {
+			_, size := utf8.DecodeRuneInString(s[start:])
+			return start+size <= index
+		}
+	}
+	return true
 }
 
 // ByteOffsets represents a (start, end) range of byte offset positions.
@@ -52,12 +64,11 @@ type BytesToRuneOffsetConverter struct {
 
 func NewBytesToRuneOffsetConverter(sequence string) *BytesToRuneOffsetConverter {
 	mapping := make([]int, 0, len(sequence))
-	runeIndex := 0
-	for _, r := range sequence {
-		for range []byte(string(r)) {
+	for runeIndex := 0; len(mapping) < len(sequence); runeIndex++ {
+		_, size := utf8.DecodeRuneInString(sequence[len(mapping):])
+		for i := 0; i < size; i++ {
 			mapping = append(mapping, runeIndex)
 		}
-		runeIndex++
 	}
 	return &BytesToRuneOffsetConverter{mapping: mapping}
 }
-- 
2.43.0


From 9b12cdd24e4a66f83dc0d67e12c85284d92e4016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 16/23] fix: NormalizedString: measure characters in the string
 itself

The width of an ill-formed byte is one, not that of utf8.RuneError: lengths
computed by encoding decoded runes led to misplaced alignments and panics.
---
 normalizedstring/normalizedstring.go | 37 +++++++++++++++++-----------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index ef710f0..bdc3e7d 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -75,15 +75,15 @@ func FromString(s string) *NormalizedString {
 func alignmentsFromString(s string) []AlignmentRange {
 	alignments := make([]AlignmentRange, 0, len(s))
 
-	for runeIndex, r := range s {
-		strRune := string(r)
-		bytesLen := len(strRune)
+	for runeIndex := 0; runeIndex < len(s); {
+		bytesLen := runesSize(s[runeIndex:], 1)
 		for byteIndex := 0; byteIndex < bytesLen; byteIndex++ {
 			alignments = append(alignments, AlignmentRange{
 				start: runeIndex,
 				end:   runeIndex + bytesLen,
 			})
 		}
+		runeIndex += bytesLen
 	}
 
 	return alignments
@@ -165,9 +165,8 @@ func (ns *NormalizedString) TransformRange(
 	replacedNormalizedString := ns.normalized[normalizedRange.Start():normalizedRange.End()]
 
 	// initialOffset counts characters, not bytes
-	replacedNormalizedRunes := []rune(replacedNormalizedString)
-	initialRemoved := len(string(replacedNormalizedRunes[:initialOffset]))
-	replacedNormalizedRunes = replacedNormalizedRunes[initialOffset:]
+	initialRemoved := runesSize(replacedNormalizedString, initialOffset)
+	replacedNormalizedString = replacedNormalizedString[initialRemoved:]
 
 	offset := initialRemoved + normalizedRange.Start()
 	alignments := make([]AlignmentRange, 0, normalizedRange.Len())
@@ -193,16 +192,15 @@ func (ns *NormalizedString) TransformRange(
 		// If we are replacing a character, find it and compute the change in size
 		replacedRuneSize := 0
 		if runeChange.Change <= 0 {
-			replacedRune := replacedNormalizedRunes[0]
-			replacedNormalizedRunes = replacedNormalizedRunes[1:]
-			replacedRuneSize = len(string(replacedRune))
+			replacedRuneSize = runesSize(replacedNormalizedString, 1)
+			replacedNormalizedString = replacedNormalizedString[replacedRuneSize:]
 		}
 
 		// If we are removing some characters, find them too
 		totalBytesToRemove := 0
 		if runeChange.Change <= -1 {
-			totalBytesToRemove = len(string(replacedNormalizedRunes[:-runeChange.Change]))
-			replacedNormalizedRunes = replacedNormalizedRunes[-runeChange.Change:]
+			totalBytesToRemove = runesSize(replacedNormalizedString, -runeChange.Change)
+			replacedNormalizedString = replacedNormalizedString[totalBytesToRemove:]
 		}
 
 		// Keep track of the changes for next offsets
@@ -457,8 +455,7 @@ func (ns *NormalizedString) Prepend(s string) {
 		transformations = append(transformations, RuneChange{Rune: r, Change: change})
 	}
 
-	firstRune := []rune(ns.normalized)[0]
-	firstRuneBytesLen := len(string(firstRune))
+	firstRune, firstRuneBytesLen := utf8.DecodeRuneInString(ns.normalized)
 	transformations = append(transformations, RuneChange{Rune: firstRune, Change: 1})
 
 	ns.TransformRange(NewNormalizedRange(0, firstRuneBytesLen), transformations, 0)
@@ -610,6 +607,8 @@ func (ns *NormalizedString) Replace(
 	content string,
 ) error {
 	offset := 0
+	// Each ill-formed byte of the content is inserted as utf8.RuneError
+	newLen := len(string([]rune(content)))
 
 	captures, err := pattern.FindMatches(ns.normalized)
 	if err != nil {
@@ -638,7 +637,6 @@ func (ns *NormalizedString) Replace(
 
 		ns.TransformRange(rng, changes, removedRunes)
 
-		newLen := len(content)
 		oldLen := capture.Offsets.End - capture.Offsets.Start
 		offset += newLen - oldLen
 	}
@@ -848,6 +846,17 @@ func isInside(r Range, s string) bool {
 	return 0 <= r.Start() && r.Start() <= r.End() && r.End() <= len(s)
 }
 
+// runesSize returns the size in bytes of the first runes of the given string.
+// An ill-formed byte is a rune of one byte.
+func runesSize(s string, runesCount int) int {
+	size := 0
+	for ; runesCount > 0; runesCount-- {
+		_, runeSize := utf8.DecodeRuneInString(s[size:])
+		size += runeSize
+	}
+	return size
+}
+
 // countLeadingSpaces returns the number of leading spaces in the given slice
 // of runes, if any.
 func countLeadingSpaces(runes []rune) int {
-- 
2.43.0


From 763d3bba49de749fcec79afac99840c6e04453ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 17/23] fix: splitpattern: match offsets in ill-formed text

An ill-formed byte is one byte wide, whereas the offsets were computed with
the width of utf8.RuneError, pointing outside of the text.
---
 splitpattern/func.go    | 10 +++++++---
 splitpattern/regexp2.go | 12 +++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/splitpattern/func.go b/splitpattern/func.go
index 6a836cf..66061aa 100644
--- a/splitpattern/func.go
+++ b/splitpattern/func.go
@@ -4,7 +4,10 @@
 
 package splitpattern
 
-import "github.com/nlpodyssey/gotokenizers/strutils"
+import (
+	"github.com/nlpodyssey/gotokenizers/strutils"
+	"unicode/utf8"
+)
 
 type FuncSplitPattern struct {
 	f func(rune) bool
@@ -29,8 +32,9 @@ func (sp *FuncSplitPattern) FindMatches(s string) ([]Capture, error) {
 
 	splits := make([]Capture, 0, len(s))
 
-	for i, r := range s {
-		runeBytesLen := len(string(r))
+	for lastSeen < len(s) {
+		i := lastSeen
+		r, runeBytesLen := utf8.DecodeRuneInString(s[i:])
 		lastSeen = i + runeBytesLen
 
 		if !sp.f(r) {
diff --git a/splitpattern/regexp2.go b/splitpattern/regexp2.go
index 909fa3f..0c2da3b 100644
--- a/splitpattern/regexp2.go
+++ b/splitpattern/regexp2.go
@@ -27,7 +27,13 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 		}}, nil
 	}
 
-	runes := []rune(s)
+	// Byte position of each rune, and of the end of the string
+	bytePositions := make([]int, 0, len(s)+1)
+	for i := range s {
+		bytePositions = append(bytePositions, i)
+	}
+	bytePositions = append(bytePositions, len(s))
+
 	prev := 0
 	splits := make([]Capture, 0, len(s))
 
@@ -37,8 +43,8 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 	}
 
 	for match != nil {
-		startByte := len(string(runes[:match.Index]))
-		endByte := startByte + len(match.String())
+		startByte := bytePositions[match.Index]
+		endByte := bytePositions[match.Index+match.Length]
 
 		if prev != startByte {
 			splits = append(splits, Capture{
-- 
2.43.0


From 520a3dd379f9eb1caa2cfcc80a624372e10074dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 18/23] fix: ByteLevelPreTokenizer: preserve ill-formed bytes

---
 .../bytelevelpretokenizer/bytelevelpretokenizer.go          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go b/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go
index c81f207..0cec7d4 100644
--- a/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go
+++ b/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go
@@ -11,6 +11,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/pretokenizers"
 	"github.com/nlpodyssey/gotokenizers/splitpattern"
 	"unicode"
+	"unicode/utf8"
 )
 
 // ByteLevelPreTokenizer allows the generation of pre-tokens suitable in the
@@ -87,9 +88,8 @@ func (b *ByteLevelPreTokenizer) PreTokenize(pts *pretokenizedstring.PreTokenized
 	return pts.Normalize(func(ns *normalizedstring.NormalizedString) error {
 		s := ns.Get()
 		transformations := make([]normalizedstring.RuneChange, 0, len(s))
-		i := 0
-		for _, r := range s {
-			size := len(string(r))
+		for i := 0; i < len(s); {
+			_, size := utf8.DecodeRuneInString(s[i:])
 			bytes := []byte(s[i : i+size])
 			i += size
 
-- 
2.43.0


From 05d7d39c8b40c3d37f7b32afadbb1e59a95673d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 19/23] fix: BPEModel: an ill-formed byte is one byte long

---
 models/bpemodel/bpemodel.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/models/bpemodel/bpemodel.go b/models/bpemodel/bpemodel.go
index be9225b..fb9ef80 100644
--- a/models/bpemodel/bpemodel.go
+++ b/models/bpemodel/bpemodel.go
@@ -9,6 +9,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/models"
 	"github.com/nlpodyssey/gotokenizers/strutils"
 	"github.com/nlpodyssey/gotokenizers/vocabulary"
+	"unicode/utf8"
 )
 
 var ErrUnknownTokenOutOfVocabulary = fmt.Errorf("the provided unk token is out of vocabulary")
@@ -132,17 +133,17 @@ func (m *BPEModel) mergeWord(w string) (*Word, error) {
 
 	var unk *Symbol
 
-	runes := []rune(w)
-	lastRuneIndex := len(runes) - 1
-
-	for i, r := range runes {
+	for i := 0; i < len(w); {
+		r, byteLen := utf8.DecodeRuneInString(w[i:])
 		s := string(r)
-		byteLen := len(s)
+		isFirst := i == 0
+		i += byteLen
+		isLast := i == len(w)
 
-		if i > 0 && m.hasContinuingSubwordPrefix() {
+		if !isFirst && m.hasContinuingSubwordPrefix() {
 			s = m.continuingSubwordPrefix + s
 		}
-		if i == lastRuneIndex && m.hasEndOfWordSuffix() {
+		if isLast && m.hasEndOfWordSuffix() {
 			s = s + m.endOfWordSuffix
 		}
 
-- 
2.43.0


From 7bbb21f1a8eeac2a61dcf263726b1a17e6489733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 20/23] fix: splitpattern: order the matches of right-to-left
 regexps

---
 splitpattern/regexp2.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/splitpattern/regexp2.go b/splitpattern/regexp2.go
index 0c2da3b..3c932bf 100644
--- a/splitpattern/regexp2.go
+++ b/splitpattern/regexp2.go
@@ -42,9 +42,28 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 		return nil, err
 	}
 
+	matches := make([]strutils.ByteOffsets, 0)
 	for match != nil {
-		startByte := bytePositions[match.Index]
-		endByte := bytePositions[match.Index+match.Length]
+		matches = append(matches, strutils.ByteOffsets{
+			Start: bytePositions[match.Index],
+			End:   bytePositions[match.Index+match.Length],
+		})
+
+		match, err = sp.r.FindNextMatch(match)
+		if err != nil {
+			return nil, err
+		}
+	}
+	if sp.r.RightToLeft() {
+		// The last match was found first
+		for i, j := 0, len(matches)-1; i < j; i, j = i+1, j-1 {
+			matches[i], matches[j] = matches[j], matches[i]
+		}
+	}
+
+	for _, offsets := range matches {
+		startByte := offsets.Start
+		endByte := offsets.End
 
 		if prev != startByte {
 			splits = append(splits, Capture{
@@ -57,11 +76,6 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 			IsMatch: true,
 		})
 		prev = endByte
-
-		match, err = sp.r.FindNextMatch(match)
-		if err != nil {
-			return nil, err
-		}
 	}
 
 	if prev != len(s) {
-- 
2.43.0


From 4090e2bbf7559cedbc8f4fd803d44dd3afbd839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 21/23] fix: MergeMapFromFile: accept lines of any length

---
 models/bpemodel/mergemap.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/models/bpemodel/mergemap.go b/models/bpemodel/mergemap.go
index b0dde19..98f920c 100644
--- a/models/bpemodel/mergemap.go
+++ b/models/bpemodel/mergemap.go
@@ -8,6 +8,7 @@ import (
 	"bufio"
 	"fmt"
 	"github.com/nlpodyssey/gotokenizers/vocabulary"
+	"math"
 	"os"
 	"strings"
 )
@@ -52,6 +53,7 @@ func MergeMapFromFile(
 	}()
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, math.MaxInt32) // lines may be longer than the default limit
 	for lineCount, rank := 1, 0; scanner.Scan(); lineCount++ {
 		line := scanner.Text()
 
-- 
2.43.0


From 768ece364ec71dd228161bef78dec037f6fc6027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 22/23] fix: vocabulary: reject a JSON file with a null ID

---
 vocabulary/vocabulary.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/vocabulary/vocabulary.go b/vocabulary/vocabulary.go
index 71f32a0..e8cfdf0 100644
--- a/vocabulary/vocabulary.go
+++ b/vocabulary/vocabulary.go
@@ -6,6 +6,7 @@ package vocabulary
 
 import (
 	"encoding/json"
+	"fmt"
 	"io/ioutil"
 )
 
@@ -30,19 +31,20 @@ func FromJSONFile(filename string) (*Vocabulary, error) {
 		return nil, err
 	}
 
-	var termToID map[string]int
-	err = json.Unmarshal(rawData, &termToID)
+	var rawTermToID map[string]*int
+	err = json.Unmarshal(rawData, &rawTermToID)
 	if err != nil {
 		return nil, err
 	}
 
-	if termToID == nil { // the JSON value is null
-		termToID = make(map[string]int)
-	}
-
-	idToTerm := make(map[int]string, len(termToID))
-	for term, id := range termToID {
-		idToTerm[id] = term
+	termToID := make(map[string]int, len(rawTermToID))
+	idToTerm := make(map[int]string, len(rawTermToID))
+	for term, id := range rawTermToID {
+		if id == nil { // the JSON value of the term is null
+			return nil, fmt.Errorf("term %q has no ID", term)
+		}
+		termToID[term] = *id
+		idToTerm[*id] = term
 	}
 
 	return &Vocabulary{termToID: termToID, idToTerm: idToTerm}, nil
-- 
2.43.0


From e650b5eca7e320af6d7334a4d65611c233e3c4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 23/23] fix: Word.MergeAll: link the remaining symbols again

The removed symbols were filtered out, but the remaining ones kept Prev and
Next of their old positions: merging the word again, or after adding to it,
used wrong neighbours or panicked.
---
 models/bpemodel/word.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/models/bpemodel/word.go b/models/bpemodel/word.go
index 294c489..9c80268 100644
--- a/models/bpemodel/word.go
+++ b/models/bpemodel/word.go
@@ -162,6 +162,15 @@ func (w *Word) MergeAll(merges *MergeMap, dropout float64) {
 		}
 		i++
 	}
+
+	// Update `prev` and `next`, as the remaining symbols changed position
+	for i, symbol := range *w {
+		symbol.Prev = i - 1
+		symbol.Next = i + 1
+	}
+	if w.Len() > 0 {
+		(*w)[w.Len()-1].Next = -1
+	}
 }
 
 func (w *Word) removeSymbol(index int) {
-- 
2.43.0

