From 8fc5d8a6c369fcd5b1dd005c78fdade006369271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 01/77] fix: bit vector reads the wrong bit and rank leaves out
 the bit itself

Building a trie whose keys share values panicked or returned wrong values,
because get() masked the shift count instead of the result and rank() did
not count the queried bit (intersection ids became -1).
---
 dartsclone/bitvector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dartsclone/bitvector.go b/dartsclone/bitvector.go
index 8159da4..73d07bc 100644
--- a/dartsclone/bitvector.go
+++ b/dartsclone/bitvector.go
@@ -16,14 +16,14 @@ func newBitVector() *bitVector {
 }
 
 func (v *bitVector) get(id int) bool {
-	return v.units[id/unitLength]>>((uint(id)%unitLength)&1) == 1
+	return (v.units[id/unitLength]>>(uint(id)%unitLength))&1 == 1
 }
 
 func (v *bitVector) rank(id int) int {
 	const mask = uint32(0xffffffff)
 	unitId := id / unitLength
 	offset := uint(id % unitLength)
-	return v.ranks[unitId] + popCount(v.units[unitId] & ^(mask<<offset))
+	return v.ranks[unitId] + popCount(v.units[unitId] & ^(mask<<(offset+1)))
 }
 
 func (v *bitVector) set(id int, bit bool) {
-- 
2.43.0


From a33420bca4de534cdf51fc7bc731f570697280da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 02/77] fix: Traverse ignores the node it is asked to resume
 from

---
 dartsclone/da.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dartsclone/da.go b/dartsclone/da.go
index 9e7ca7f..0cb35af 100644
--- a/dartsclone/da.go
+++ b/dartsclone/da.go
@@ -233,7 +233,7 @@ type TraverseResult struct {
 func (da *DoubleArray) Traverse(key []byte, offset int, length int, nodePosition int) *TraverseResult {
 	nodePos := uint32(nodePosition)
 	id := nodePos
-	u := daunit(da.array[0])
+	u := daunit(da.array[int(nodePos)])
 
 	for i := offset; i < length; i++ {
 		k := uint32(key[i])
-- 
2.43.0


From fcca35cb3040f0c1956c2f5440ec1796c30a59c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 03/77] fix: trie builder panics on a repeated key or a key
 that is a prefix of its predecessor

---
 dartsclone/dawgbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dartsclone/dawgbuilder.go b/dartsclone/dawgbuilder.go
index 81a9d0b..2940fce 100644
--- a/dartsclone/dawgbuilder.go
+++ b/dartsclone/dawgbuilder.go
@@ -168,7 +168,7 @@ func (b *dawgBuilder) insert(key []byte, value int) error {
 		}
 
 		var keyLabel byte
-		if keyPos <= keylen {
+		if keyPos < keylen {
 			keyLabel = key[keyPos]
 		}
 		if keyPos < keylen && keyLabel == 0 {
-- 
2.43.0


From 4a44f9871ccbbd21746e30940a283c58cdf91fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 04/77] fix: trie builder accepts a NUL byte in the new part of
 a key

The key then matches as its prefix before the NUL.
---
 dartsclone/dawgbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dartsclone/dawgbuilder.go b/dartsclone/dawgbuilder.go
index 2940fce..7a32ffa 100644
--- a/dartsclone/dawgbuilder.go
+++ b/dartsclone/dawgbuilder.go
@@ -195,6 +195,9 @@ func (b *dawgBuilder) insert(key []byte, value int) error {
 		if keyPos < keylen {
 			keyLabel = key[keyPos]
 		}
+		if keyPos < keylen && keyLabel == 0 {
+			return fmt.Errorf("invalid null character")
+		}
 		childId := b.appendNode()
 
 		if b.nodes[id].child == 0 {
-- 
2.43.0


From 4c12b0f23603d275a630760b846143c3a890c6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 05/77] fix: trie builder silently truncates values that do not
 fit in 31 bits

---
 dartsclone/dawgbuilder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dartsclone/dawgbuilder.go b/dartsclone/dawgbuilder.go
index 7a32ffa..5f6afd7 100644
--- a/dartsclone/dawgbuilder.go
+++ b/dartsclone/dawgbuilder.go
@@ -7,6 +7,7 @@ import (
 const (
 	initialTableSize = 1 << 10
 	dawgRoot         = 0
+	maxValue         = 1<<31 - 1
 )
 
 type node struct {
@@ -153,6 +154,9 @@ func (b *dawgBuilder) insert(key []byte, value int) error {
 	if value < 0 {
 		return fmt.Errorf("negative value")
 	}
+	if int64(value) > maxValue {
+		return fmt.Errorf("too large value")
+	}
 	keylen := len(key)
 	if keylen == 0 {
 		return fmt.Errorf("zero-length key")
-- 
2.43.0


From b68c6161db400611d9d46bc8a4e50659ea00dee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:54 +0000
Subject: [PATCH 06/77] fix: reading a word whose dictionary forms refer to
 each other never ends

---
 dictionary/dalexicon.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dictionary/dalexicon.go b/dictionary/dalexicon.go
index 88bb645..614f214 100644
--- a/dictionary/dalexicon.go
+++ b/dictionary/dalexicon.go
@@ -129,8 +129,7 @@ func (l *wordInfoList) getWordInfo(wordId int32) *WordInfo {
 
 	dictionaryForm := surface
 	if dictionaryFormWordId >= 0 && dictionaryFormWordId != wordId {
-		wi := l.getWordInfo(dictionaryFormWordId)
-		dictionaryForm = wi.Surface
+		_, dictionaryForm = l.bufferToStringF(l.bytebuffer, l.wordIdToOffset(dictionaryFormWordId))
 	}
 
 	return &WordInfo{
-- 
2.43.0


From d2d21487b9072584f855feddc4e140f58c6ca42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:29 +0000
Subject: [PATCH 07/77] fix: lexicon compiler accepts an empty headword

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index f92ceb9..8336871 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -310,6 +310,9 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 			return fmt.Errorf("invalid format at line: columns length must be %d: at line %d", NumberOfColumns, r.numLine)
 		}
 
+		if cols[0] == "" {
+			return fmt.Errorf("headword is empty at line %d", r.numLine)
+		}
 		if dicbuilder.stringLen(cols[0]) {
 			return fmt.Errorf("string is too long: column 0 at line %d", r.numLine)
 		}
-- 
2.43.0


From af8c4aba7d433f10c3fd94241e4ab2c1f2ffbb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:30 +0000
Subject: [PATCH 08/77] fix: a left id of -1 written with zeros is indexed

---
 dictionary/dicbuilder.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 8336871..fd6cadf 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -328,11 +328,6 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 
 		entry := &wordEntry{}
 
-		// headword for trie
-		if cols[1] != "-1" {
-			entry.Headword = cols[0]
-		}
-
 		// left-id, right-id, cost
 		cols1, err := strconv.ParseInt(cols[1], 10, 16)
 		if err != nil {
@@ -346,6 +341,10 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 		if err != nil {
 			return fmt.Errorf("%s: column 3 at line %d", err, r.numLine)
 		}
+		// headword for trie
+		if cols1 != -1 {
+			entry.Headword = cols[0]
+		}
 		entry.Parameters[0] = int16(cols1)
 		entry.Parameters[1] = int16(cols2)
 		entry.Parameters[2] = int16(cols3)
-- 
2.43.0


From 9da1480ebf6f69327b9217856f38c8d04c718a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:31 +0000
Subject: [PATCH 09/77] fix: part-of-speech columns that are too long or
 contain a comma corrupt the POS table

---
 dictionary/dicbuilder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index fd6cadf..184e3bb 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -350,6 +350,14 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 		entry.Parameters[2] = int16(cols3)
 
 		// part of speech
+		for i := 5; i <= 10; i++ {
+			if dicbuilder.stringLen(cols[i]) {
+				return fmt.Errorf("string is too long: column %d at line %d", i, r.numLine)
+			}
+			if strings.Contains(cols[i], ",") {
+				return fmt.Errorf("invalid part of speech: column %d at line %d", i, r.numLine)
+			}
+		}
 		posId := store.GetPosId(cols[5], cols[6], cols[7], cols[8], cols[9], cols[10])
 
 		if strings.Count(cols[15], "/")+1 > ArrayMaxLength {
-- 
2.43.0


From ed60763ca97c2e7badd48987524b3aee8a5a0de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 10/77] fix: part-of-speech ids overflow silently

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 184e3bb..28aa1af 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -359,6 +359,9 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 			}
 		}
 		posId := store.GetPosId(cols[5], cols[6], cols[7], cols[8], cols[9], cols[10])
+		if posId < 0 {
+			return fmt.Errorf("too many parts of speech at line %d", r.numLine)
+		}
 
 		if strings.Count(cols[15], "/")+1 > ArrayMaxLength {
 			return fmt.Errorf("too many units: columns 15 at line %d", r.numLine)
-- 
2.43.0


From 3fdd169213f122771c775b3385f4b3ab9b40be88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:33 +0000
Subject: [PATCH 11/77] fix: head length overflows for long headwords in UTF-16
 dictionaries

---
 dictionary/dicbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 28aa1af..4b8a885 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -313,7 +313,7 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 		if cols[0] == "" {
 			return fmt.Errorf("headword is empty at line %d", r.numLine)
 		}
-		if dicbuilder.stringLen(cols[0]) {
+		if dicbuilder.stringLen(cols[0]) || len(cols[0]) > StringUtf8MaxLength {
 			return fmt.Errorf("string is too long: column 0 at line %d", r.numLine)
 		}
 		if dicbuilder.stringLen(cols[4]) {
-- 
2.43.0


From db4eb461e4e94e28bb0de8a83131a7797eeef868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:34 +0000
Subject: [PATCH 12/77] fix: strings that are not valid UTF-8 are altered
 silently in UTF-16 dictionaries

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 4b8a885..ab73783 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -450,6 +450,9 @@ func writeString(buffer *bytes.Buffer, s string) error {
 
 func writeStringUtf16(buffer *bytes.Buffer, s string) error {
 	// java compatible
+	if !utf8.ValidString(s) {
+		return fmt.Errorf("invalid UTF-8 string: %q", s)
+	}
 	javainternal := utf16.Encode([]rune(s))
 
 	err := writeStringLength(buffer, int16(len(javainternal)))
-- 
2.43.0


From 8e5e04e4fb3ca7de80f831062873fb0493bfc0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 13/77] fix: matrix entries outside the declared size panic or
 overwrite other entries

---
 dictionary/dicbuilder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index ab73783..08780ae 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -545,6 +545,10 @@ func (dicbuilder *DictionaryBuilder) WriteGrammar(postable *PosTable, input io.R
 	dicbuilder.position += n
 	dicbuilder.buffer.Reset()
 
+	if leftSize < 0 || rightSize < 0 {
+		return fmt.Errorf("invalid matrix size at line %d", r.NumLine)
+	}
+
 	buflen := 2 * leftSize * rightSize
 	matrix := make([]byte, buflen, buflen)
 
@@ -576,6 +580,9 @@ func (dicbuilder *DictionaryBuilder) WriteGrammar(postable *PosTable, input io.R
 		if err != nil {
 			return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
 		}
+		if left < 0 || left >= leftSize || right < 0 || right >= rightSize {
+			return fmt.Errorf("id is out of range at line %d", r.NumLine)
+		}
 		binary.LittleEndian.PutUint16(matrix[2*(left+leftSize*right):], uint16(cost))
 	}
 
-- 
2.43.0


From 29ce059131f838590176075f8618c4e6cfa87862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 14/77] fix: more than 255 homographs corrupt the word-ID table

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 08780ae..1350e3b 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -685,6 +685,9 @@ func (dicbuilder *DictionaryBuilder) WriteLexicon(writer io.WriteSeeker, store P
 		wordIds, _ := v.([]int32)
 		keys[i] = bkey
 		values[i] = position
+		if len(wordIds) > 255 {
+			return fmt.Errorf("too many homographs: %s", bkey)
+		}
 		err := wordIdTable.WriteByte(byte(len(wordIds)))
 		if err != nil {
 			return err
-- 
2.43.0


From 4f94a571497721b17488d5e4f343cc17f04b6c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 15/77] fix: a dictionary form that refers to a word that does
 not exist is accepted

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 1350e3b..f0608e0 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -834,6 +834,9 @@ func (dicbuilder *DictionaryBuilder) writeWordInfo(writer io.WriteSeeker, store
 		if err != nil {
 			return err
 		}
+		if wi.DictionaryFormWordId >= int32(len(dicbuilder.wordEntries)) {
+			return fmt.Errorf("invalid dictionary form word ID: %d", wi.DictionaryFormWordId)
+		}
 		err = binary.Write(dicbuilder.buffer, binary.LittleEndian, uint32(wi.DictionaryFormWordId))
 		if err != nil {
 			return err
-- 
2.43.0


From 1becc55c1b84a8924add48a39c4973231bbe3262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:49 +0000
Subject: [PATCH 16/77] fix: user dictionaries never find the part of speech in
 the system dictionary

---
 dictionary/dicbuilder.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index f0608e0..e4cbced 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -77,18 +77,14 @@ type PosTableUser struct {
 	baseStore PosIdStore
 }
 
-func (pt *PosTableUser) getId(s string) int16 {
-	posId := pt.baseStore.GetPosId(s)
+func (pt *PosTableUser) GetPosId(posstrings ...string) int16 {
+	posId := pt.baseStore.GetPosId(posstrings...)
 	if posId < 0 {
-		posId = pt.PosTable.getId(s) + int16(pt.baseStore.GetPartOfSpeechSize())
+		posId = pt.PosTable.GetPosId(posstrings...) + int16(pt.baseStore.GetPartOfSpeechSize())
 	}
 	return posId
 }
 
-func (pt *PosTableUser) GetPosId(posstrings ...string) int16 {
-	return pt.getId(strings.Join(posstrings, ","))
-}
-
 func NewPosTableUser(base PosIdStore) *PosTableUser {
 	return &PosTableUser{
 		PosTable: PosTable{
-- 
2.43.0


From 1796c5014f1fe865be49bdc033c2c2da55ae9a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:51 +0000
Subject: [PATCH 17/77] fix: an incomplete escape hides the escape that follows
 it

---
 dictionary/dicbuilder.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index e4cbced..43ed2f3 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -178,13 +178,10 @@ func (r *lexiconReader) decode(s []byte) []byte {
 		i += width
 		switch rc {
 		case '\\':
-			if nmark >= 0 {
-				nmark = -1
-			} else {
-				r.fieldBuffer = append(r.fieldBuffer, s[last:i-width]...)
-				last = i - width
-				umark = runecount
-			}
+			nmark = -1
+			r.fieldBuffer = append(r.fieldBuffer, s[last:i-width]...)
+			last = i - width
+			umark = runecount
 		case 'u':
 			if nmark >= 0 {
 				nmark = -1
-- 
2.43.0


From 821e2fbee4d02e4a1c30ec62b3b539628023f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:52 +0000
Subject: [PATCH 18/77] fix: escaped surrogates are decoded to U+FFFD

---
 dictionary/dicbuilder.go | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 43ed2f3..731dabd 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -99,6 +99,10 @@ type lexiconReader struct {
 	rawBuffer   []byte
 	numLine     int
 	fieldBuffer []byte
+
+	// the last high surrogate that was escaped, and the bounds of its escape
+	highSurrogate      rune
+	highStart, highEnd int
 }
 
 func newLexiconReader(r io.Reader) *lexiconReader {
@@ -161,8 +165,32 @@ func (r *lexiconReader) readRecord(dst []string) ([]string, error) {
 	return dst, nil
 }
 
+// appendEscaped appends the character that is denoted by the escape at [start, end)
+// and returns the position up to which the field is decoded. An escape that denotes
+// no character is kept.
+func (r *lexiconReader) appendEscaped(c rune, start int, end int) int {
+	if utf16.IsSurrogate(c) {
+		if r.highSurrogate != 0 && r.highEnd == start {
+			if pair := utf16.DecodeRune(r.highSurrogate, c); pair != utf8.RuneError {
+				n := len(r.fieldBuffer) - (r.highEnd - r.highStart)
+				r.fieldBuffer = append(r.fieldBuffer[:n], string(pair)...)
+				r.highSurrogate = 0
+				return end
+			}
+		}
+		r.highSurrogate, r.highStart, r.highEnd = c, start, end
+		return start
+	}
+	if !utf8.ValidRune(c) {
+		return start
+	}
+	r.fieldBuffer = append(r.fieldBuffer, string(c)...)
+	return end
+}
+
 func (r *lexiconReader) decode(s []byte) []byte {
 	r.fieldBuffer = r.fieldBuffer[:0]
+	r.highSurrogate = 0
 
 	runecount := 0
 	umark := -1
@@ -207,9 +235,8 @@ func (r *lexiconReader) decode(s []byte) []byte {
 			if nmark >= 0 {
 				if brace && ncount >= 0 {
 					i32, err := strconv.ParseInt(string(s[numstart:i-width]), 16, 32)
-					if i32 <= 0x10FFFF && err == nil {
-						r.fieldBuffer = append(r.fieldBuffer, []byte(string(i32))...)
-						last = i
+					if err == nil {
+						last = r.appendEscaped(rune(i32), last, i)
 					}
 					brace = false
 				}
@@ -221,9 +248,8 @@ func (r *lexiconReader) decode(s []byte) []byte {
 				if !brace {
 					if ncount == 4 {
 						i32, err := strconv.ParseInt(string(s[numstart:i]), 16, 32)
-						if i32 <= 0x10FFFF && err == nil {
-							r.fieldBuffer = append(r.fieldBuffer, []byte(string(i32))...)
-							last = i
+						if err == nil {
+							last = r.appendEscaped(rune(i32), last, i)
 						}
 						nmark = -1
 					}
-- 
2.43.0


From 476c1772f8b93a8204dbfeec64b83bfafc6d6d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:04 +0000
Subject: [PATCH 19/77] fix: loading a user dictionary of the first version,
 which has no grammar, panics

---
 dictionary.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dictionary.go b/dictionary.go
index 9f67420..f387259 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -131,7 +131,9 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		return int16(cost), nil
 	})
 	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
-	d.grammar.AddPosList(dict.Grammar)
+	if dict.Grammar != nil { // the first version has no grammar
+		d.grammar.AddPosList(dict.Grammar)
+	}
 	return nil
 }
 
-- 
2.43.0


From cd374095fbc80422208ab68b54ac9dbc466fa5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:59 +0000
Subject: [PATCH 20/77] fix: the size of the word parameters is left out of a
 dictionary without words

---
 dictionary/dicbuilder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 731dabd..eb74416 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -779,6 +779,12 @@ func (dicbuilder *DictionaryBuilder) WriteLexicon(writer io.WriteSeeker, store P
 	if err != nil {
 		return err
 	}
+	n, err = dicbuilder.buffer.WriteTo(bwriter)
+	if err != nil {
+		return err
+	}
+	dicbuilder.position += n
+	dicbuilder.buffer.Reset()
 	for _, entry := range dicbuilder.wordEntries {
 		err = binary.Write(dicbuilder.buffer, binary.LittleEndian, uint16(entry.Parameters[0]))
 		if err != nil {
-- 
2.43.0


From 05a77086bb47e732823a0fdf03a2b5694b870a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 21/77] fix: part-of-speech ids overflow when user dictionaries
 add too many parts of speech

---
 dictionary.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dictionary.go b/dictionary.go
index f387259..9182aab 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -3,6 +3,7 @@ package gosudachi
 import (
 	"fmt"
 	"io"
+	"math"
 	"os"
 
 	"github.com/msnoigrs/gosudachi/data"
@@ -107,6 +108,11 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		return err
 	}
 
+	if dict.Grammar != nil && d.grammar.GetPartOfSpeechSize()+dict.Grammar.GetPartOfSpeechSize() > math.MaxInt16+1 {
+		_ = dict.Close()
+		return fmt.Errorf("too many parts of speech: %s", filename)
+	}
+
 	d.dictionaries = append(d.dictionaries, dict)
 
 	userLexicon := dict.Lexicon
-- 
2.43.0


From e439536c5fe0668ca4b6708c0a68bba61163afe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 22/77] fix: the internal cost of an empty result panics

---
 morpheme.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/morpheme.go b/morpheme.go
index 975d377..f331b7d 100644
--- a/morpheme.go
+++ b/morpheme.go
@@ -157,5 +157,8 @@ func (l *MorphemeList) GetDictionaryId(index int) int {
 }
 
 func (l *MorphemeList) GetInternalCost() int {
+	if len(l.path) == 0 {
+		return 0
+	}
 	return l.path[len(l.path)-1].GetPathCost() - l.path[0].GetPathCost()
 }
-- 
2.43.0


From 36d17b57b682bb6a210f3d618c2acd0c847e0ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 23/77] fix: a failure to compute the cost of a user word is
 ignored

---
 dictionary.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dictionary.go b/dictionary.go
index 9182aab..265e351 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -123,7 +123,7 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		d.oovProviderPlugins,
 		[]PathRewritePlugin{},
 	)
-	userLexicon.CalculateCost(func(text string) (int16, error) {
+	err = userLexicon.CalculateCost(func(text string) (int16, error) {
 		ms, err := tokenizer.Tokenize("C", text)
 		if err != nil {
 			return int16(mincost), err
@@ -136,6 +136,9 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		}
 		return int16(cost), nil
 	})
+	if err != nil {
+		return err
+	}
 	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
 	if dict.Grammar != nil { // the first version has no grammar
 		d.grammar.AddPosList(dict.Grammar)
-- 
2.43.0


From ed701e60aae32342e966865a61c252c2eb0e13e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 24/77] fix: the inhibitedPair option has no effect

---
 inhibitconnectioncostplugin.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/inhibitconnectioncostplugin.go b/inhibitconnectioncostplugin.go
index e720e52..b1e6e37 100644
--- a/inhibitconnectioncostplugin.go
+++ b/inhibitconnectioncostplugin.go
@@ -4,7 +4,12 @@ import (
 	"github.com/msnoigrs/gosudachi/dictionary"
 )
 
+type InhibitConnectionPluginConfig struct {
+	InhibitedPair []*[]int
+}
+
 type InhibitConnectionPlugin struct {
+	config        *InhibitConnectionPluginConfig
 	inhibitedPair []*[]int
 }
 
@@ -15,10 +20,17 @@ func NewInhibitConnectionPlugin(inhibitedPair []*[]int) *InhibitConnectionPlugin
 }
 
 func (p *InhibitConnectionPlugin) GetConfigStruct() interface{} {
-	return p
+	if p.config == nil {
+		p.config = &InhibitConnectionPluginConfig{}
+	}
+	return p.config
 }
 
 func (p *InhibitConnectionPlugin) SetUp(grammar *dictionary.Grammar) error {
+	if p.config != nil {
+		p.inhibitedPair = append(p.inhibitedPair, p.config.InhibitedPair...)
+		p.config = nil
+	}
 	return nil
 }
 
-- 
2.43.0


From 2d5b1bbaf0b9acbfcda638ce389135ae76feeb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:19 +0000
Subject: [PATCH 25/77] fix: inhibited pairs outside the connection matrix
 change other costs

---
 dictionary/grammar.go          | 5 +++++
 inhibitconnectioncostplugin.go | 9 +++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/dictionary/grammar.go b/dictionary/grammar.go
index 66d88f0..427a23f 100644
--- a/dictionary/grammar.go
+++ b/dictionary/grammar.go
@@ -102,6 +102,11 @@ func (g *Grammar) GetConnectCost(leftId int16, rightId int16) int16 {
 	return cost
 }
 
+// HasConnection reports whether the connection matrix has a cost for the ids.
+func (g *Grammar) HasConnection(leftId int, rightId int) bool {
+	return leftId >= 0 && leftId < int(g.leftIdSize) && rightId >= 0 && rightId < int(g.rightIdSize)
+}
+
 func (g *Grammar) SetConnectCost(leftId int16, rightId int16, cost int16) {
 	if !g.isCopiedConnectTable {
 		g.copyConnectTable()
diff --git a/inhibitconnectioncostplugin.go b/inhibitconnectioncostplugin.go
index b1e6e37..e5a1db6 100644
--- a/inhibitconnectioncostplugin.go
+++ b/inhibitconnectioncostplugin.go
@@ -1,6 +1,8 @@
 package gosudachi
 
 import (
+	"fmt"
+
 	"github.com/msnoigrs/gosudachi/dictionary"
 )
 
@@ -36,8 +38,11 @@ func (p *InhibitConnectionPlugin) SetUp(grammar *dictionary.Grammar) error {
 
 func (p *InhibitConnectionPlugin) Edit(grammar *dictionary.Grammar) error {
 	for _, pair := range p.inhibitedPair {
-		if len(*pair) < 2 {
-			continue
+		if pair == nil || len(*pair) != 2 {
+			return fmt.Errorf("InhibitConnectionPlugin: inhibitedPair is not a list of pairs")
+		}
+		if !grammar.HasConnection((*pair)[0], (*pair)[1]) {
+			return fmt.Errorf("InhibitConnectionPlugin: inhibitedPair %v is invalid", *pair)
 		}
 		InhibitConnection(grammar, int16((*pair)[0]), int16((*pair)[1]))
 	}
-- 
2.43.0


From f327a6b414ace5a786324a1264f763c81798acc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:47 +0000
Subject: [PATCH 26/77] fix: code points with an odd number of digits are
 rejected in char.def and ends of ranges lose two characters without 0x

---
 dictionary/charcategory.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dictionary/charcategory.go b/dictionary/charcategory.go
index 3714640..11b2543 100644
--- a/dictionary/charcategory.go
+++ b/dictionary/charcategory.go
@@ -172,7 +172,13 @@ func decodeHexStrToInt32(s string) (int32, error) {
 	if len(s) < 3 {
 		return 0, fmt.Errorf("invalid hex string: too short")
 	}
+	if !strings.HasPrefix(s, "0x") {
+		return 0, fmt.Errorf("invalid hex string: no 0x prefix")
+	}
 	src := []byte(s[2:])
+	if len(src)%2 != 0 {
+		src = append([]byte{'0'}, src...)
+	}
 	dst := make([]byte, hex.DecodedLen(len(src)))
 	n, err := hex.Decode(dst, src)
 	if err != nil {
-- 
2.43.0


From 374a03d7d93592a23d6d094c3237dc54f618c847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 27/77] fix: words of a text whose tokenization failed are left
 in the lattice

---
 lattice.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lattice.go b/lattice.go
index 2568770..1b34e61 100644
--- a/lattice.go
+++ b/lattice.go
@@ -148,6 +148,8 @@ func (l *Lattice) resize(size int) {
 	if size > len(l.endLists)-1 {
 		l.expand(size)
 	}
+	// words of a text whose tokenization has failed may be left
+	l.clear()
 	l.eosNode = &LatticeNode{}
 	l.eosNode.SetParameter(l.eosParams[0], l.eosParams[1], l.eosParams[2])
 	l.eosNode.Begin = size
-- 
2.43.0


From 3a9cee115021f5a73cf6ee221852a43639eb92d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 28/77] fix: a path whose cost exceeds 32 bits is taken for no
 path

---
 lattice.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lattice.go b/lattice.go
index 1b34e61..ac4494a 100644
--- a/lattice.go
+++ b/lattice.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"math"
 	"strings"
 
 	"github.com/msnoigrs/gosudachi/dictionary"
@@ -230,7 +229,7 @@ func (l *Lattice) HasPreviousNode(index int) bool {
 
 func (l *Lattice) connectNode(rNode *LatticeNode) {
 	begin := rNode.Begin
-	rNode.totalCost = math.MaxInt32
+	rNode.totalCost = int(^uint(0) >> 1)
 	for _, lNode := range l.endLists[begin] {
 		if !lNode.isConnectedToBOS {
 			continue
-- 
2.43.0


From d68a06c46e220950bf511ab036089c881ab6dab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:45 +0000
Subject: [PATCH 29/77] fix: a run of characters continues although they have
 no class in common

---
 inputtext.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inputtext.go b/inputtext.go
index 98ea4ad..e0c9e96 100644
--- a/inputtext.go
+++ b/inputtext.go
@@ -236,8 +236,8 @@ func getCharCategoryContinuousLength(charCategories []uint32, offset int) int {
 	continuousCategory := charCategories[offset]
 	var length int
 	for length = 1; length < len(charCategories)-offset; length++ {
-		cc := continuousCategory & charCategories[offset+length]
-		if cc == 0 {
+		continuousCategory &= charCategories[offset+length]
+		if continuousCategory == 0 {
 			return length
 		}
 	}
-- 
2.43.0


From c0215fd4131d2aa7f670535016b283b4feff0df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:39 +0000
Subject: [PATCH 30/77] fix: candidates at the end of the text are proposed
 more than once

---
 mecaboovproviderplugin.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mecaboovproviderplugin.go b/mecaboovproviderplugin.go
index 79cb83f..19fea74 100644
--- a/mecaboovproviderplugin.go
+++ b/mecaboovproviderplugin.go
@@ -108,7 +108,8 @@ func (p *MeCabOovProviderPlugin) ProvideOOV(inputText *InputText, offset int, ha
 				llength -= 1
 			}
 			if cinfo.isInvoke || !hasOtherWords {
-				for i := 1; i <= cinfo.length; i++ {
+				chars := inputText.CodePointCount(offset, offset+length)
+				for i := 1; i <= cinfo.length && i <= chars; i++ {
 					sublength := inputText.GetCodePointsOffsetLength(offset, i)
 					if sublength > llength {
 						break
-- 
2.43.0


From 8d3cb58e339872bd09041e66717662ca91befb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:32 +0000
Subject: [PATCH 31/77] fix: the first unknown-word provider instead of the
 last is the fallback

---
 tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index 0d194a5..05921b9 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -29,7 +29,7 @@ func NewJapaneseTokenizer(grammar *dictionary.Grammar, lexicon *dictionary.Lexic
 		lattice:            NewLattice(grammar),
 	}
 	if len(oovProviderPlugins) > 0 {
-		ret.defaultOovProvider = oovProviderPlugins[0]
+		ret.defaultOovProvider = oovProviderPlugins[len(oovProviderPlugins)-1]
 	}
 	return ret
 }
-- 
2.43.0


From d7c3f9382e6e2df6cd44c97914156735cc3d03df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:33 +0000
Subject: [PATCH 32/77] fix: unknown words of more than 32767 bytes get a
 negative length

---
 mecaboovproviderplugin.go | 6 ++++++
 plugin.go                 | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/mecaboovproviderplugin.go b/mecaboovproviderplugin.go
index 19fea74..a467082 100644
--- a/mecaboovproviderplugin.go
+++ b/mecaboovproviderplugin.go
@@ -3,6 +3,7 @@ package gosudachi
 import (
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -128,6 +129,11 @@ func (p *MeCabOovProviderPlugin) ProvideOOV(inputText *InputText, offset int, ha
 func (p *MeCabOovProviderPlugin) getOovNode(text string, oov *oov, length int) *LatticeNode {
 	node := CreateNodeOfOOV()
 	node.SetParameter(oov.leftId, oov.rightId, oov.cost)
+	// The range is kept apart from HeadwordLength, which a long run exceeds.
+	node.SetRange(0, length)
+	if length > math.MaxInt16 {
+		length = math.MaxInt16
+	}
 	wi := &dictionary.WordInfo{
 		Surface:        text,
 		HeadwordLength: int16(length),
diff --git a/plugin.go b/plugin.go
index bfc0167..9067974 100644
--- a/plugin.go
+++ b/plugin.go
@@ -230,9 +230,12 @@ func GetOOV(p OovProviderPlugin, inputText *InputText, offset int, hasOtherWords
 		return []*LatticeNode{}, err
 	}
 	for _, node := range nodes {
-		wi := node.GetWordInfo()
+		length := node.End - node.Begin
+		if length == 0 {
+			length = int(node.GetWordInfo().HeadwordLength)
+		}
 		node.Begin = offset
-		node.End = offset + int(wi.HeadwordLength)
+		node.End = offset + length
 	}
 	return nodes, nil
 }
-- 
2.43.0


From b76cbfdbe2b223e252a8f3bf65505bf779b57506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:44 +0000
Subject: [PATCH 33/77] fix: surfaces of bytes that are not valid UTF-8 differ
 from the text

---
 morpheme.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/morpheme.go b/morpheme.go
index f331b7d..35c8faf 100644
--- a/morpheme.go
+++ b/morpheme.go
@@ -109,7 +109,24 @@ func (l *MorphemeList) GetEnd(index int) int {
 func (l *MorphemeList) GetSurface(index int) string {
 	begin := l.GetBegin(index)
 	end := l.GetEnd(index)
-	return string([]rune(l.inputText.OriginalText)[begin:end])
+	return substring(l.inputText.OriginalText, begin, end)
+}
+
+// substring returns the characters [begin, end) of s.  Bytes that are not
+// valid UTF-8 count as one character each and are kept as they are.
+func substring(s string, begin int, end int) string {
+	b := len(s)
+	n := 0
+	for i := range s {
+		if n == begin {
+			b = i
+		}
+		if n == end {
+			return s[b:i]
+		}
+		n++
+	}
+	return s[b:]
 }
 
 func (l *MorphemeList) GetWordInfo(index int) *dictionary.WordInfo {
-- 
2.43.0


From ff0272730423d5601f3bc0710c68523d0f5599f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 34/77] fix: a replacement symbol that is not one character
 shifts later replacements

---
 prolongedsoundmarkinputtextplugin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prolongedsoundmarkinputtextplugin.go b/prolongedsoundmarkinputtextplugin.go
index cf1ccfb..c785a40 100644
--- a/prolongedsoundmarkinputtextplugin.go
+++ b/prolongedsoundmarkinputtextplugin.go
@@ -68,7 +68,7 @@ func (p *ProlongedSoundMarkInputTextPlugin) Rewrite(builder *InputTextBuilder) e
 		} else if isProlongedSoundMark && !ok {
 			if (i - markStartIndex) > 1 {
 				builder.Replace(markStartIndex-offset, i-offset, p.replacementSymbol)
-				offset += i - markStartIndex - 1
+				offset += i - markStartIndex - len(p.replacementSymbol)
 			}
 			isProlongedSoundMark = false
 		}
-- 
2.43.0


From e996cc426325b79bf6d904e9def76be8742a0dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:40 +0000
Subject: [PATCH 35/77] fix: adding a unit to a number appends the unit with
 its zeros already written out

---
 numericparser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/numericparser.go b/numericparser.go
index 3e0288a..994f40d 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -82,7 +82,6 @@ func (n *stringNumber) add(t *stringNumber) bool {
 		if t.point >= 0 {
 			n.point = len(n.significand) + t.point
 		}
-		_ = t.String()
 		n.significand = append(n.significand, t.significand...)
 		n.scale = t.scale
 		return true
-- 
2.43.0


From ff1a722f666646dfb7dcd2ed59412da2a8935bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:40 +0000
Subject: [PATCH 36/77] fix: numbers with a decimal point are rejected and
 those with two are accepted

---
 numericparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numericparser.go b/numericparser.go
index 994f40d..62094f8 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -201,7 +201,7 @@ func (p *numericParser) append(c rune) bool {
 			p.errorState = errComma
 			return false
 
-		} else if p.tmp.setPoint() {
+		} else if !p.tmp.setPoint() {
 			p.errorState = errPoint
 			return false
 		}
-- 
2.43.0


From ea0553ec931dbfbc70ddbd926a91bf419e62352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:56 +0000
Subject: [PATCH 37/77] fix: commas are accepted after a decimal point

---
 numericparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numericparser.go b/numericparser.go
index 62094f8..7631893 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -182,7 +182,7 @@ func (p *numericParser) clear() {
 }
 
 func (p *numericParser) checkComma() bool {
-	if p.isFirstDigit {
+	if p.isFirstDigit || p.tmp.point >= 0 {
 		return false
 	} else if !p.hasComma {
 		return p.digitLength <= 3 && !p.tmp.isZero() && !p.tmp.IsAllZero
-- 
2.43.0


From c4a8cf5a1d9a9c407a5f02f4f136f18ca4bd740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:15 +0000
Subject: [PATCH 38/77] fix: a comma or a decimal point is accepted right
 before a unit

---
 numericparser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/numericparser.go b/numericparser.go
index 7631893..4b7f7a6 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -221,6 +221,15 @@ func (p *numericParser) append(c rune) bool {
 	if !ok {
 		return false
 	}
+	if n < 0 {
+		if p.hasHangingPoint {
+			p.errorState = errPoint
+			return false
+		} else if p.hasComma && p.digitLength != 3 {
+			p.errorState = errComma
+			return false
+		}
+	}
 	if n < 0 && n >= -3 { // isSmallUnit
 		p.tmp.shiftScale(-n)
 		if !p.subtotal.add(p.tmp) {
-- 
2.43.0


From 28c68d4f3f25b41f619f5c6b00cc056c6c423cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:05 +0000
Subject: [PATCH 39/77] fix: an invalid number is joined when a comma or a
 point follows it

---
 numericparser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numericparser.go b/numericparser.go
index 4b7f7a6..a7e0aca 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -263,7 +263,9 @@ func (p *numericParser) append(c rune) bool {
 }
 
 func (p *numericParser) done() bool {
-	ret := p.subtotal.add(p.tmp) && p.total.add(p.subtotal)
+	if !p.subtotal.add(p.tmp) || !p.total.add(p.subtotal) {
+		return false
+	}
 	if p.hasHangingPoint {
 		p.errorState = errPoint
 		return false
@@ -271,7 +273,7 @@ func (p *numericParser) done() bool {
 		p.errorState = errComma
 		return false
 	}
-	return ret
+	return true
 }
 
 func (p *numericParser) getNormalized() string {
-- 
2.43.0


From 9571783c3fc62e20a9fea9c945843fe43244f285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:47 +0000
Subject: [PATCH 40/77] fix: a fraction before a unit loses its decimal point
 when another number follows

---
 numericparser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/numericparser.go b/numericparser.go
index a7e0aca..b148a1f 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -76,6 +76,7 @@ func (n *stringNumber) add(t *stringNumber) bool {
 		return true
 	}
 
+	n.normalizeScale()
 	l := t.intLength()
 	if n.scale >= l {
 		n.fillZero(n.scale - l)
-- 
2.43.0


From ba84d95d85b1eba2c41cf5b9ee893dec9a364b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:37 +0000
Subject: [PATCH 41/77] fix: joining numerals never ends when the comma or the
 point has the numeric class

---
 joinnumericplugin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/joinnumericplugin.go b/joinnumericplugin.go
index 722dff2..ed3491b 100644
--- a/joinnumericplugin.go
+++ b/joinnumericplugin.go
@@ -93,10 +93,10 @@ func (p *JoinNumericPlugin) Rewrite(text *InputText, path *[]*LatticeNode, latti
 			for _, c := range s {
 				if !parser.append(c) {
 					if beginIndex >= 0 {
-						if parser.errorState == errComma {
+						if commaAsDigit && parser.errorState == errComma {
 							commaAsDigit = false
 							i = beginIndex - 1
-						} else if parser.errorState == errPoint {
+						} else if periodAsDigit && parser.errorState == errPoint {
 							periodAsDigit = false
 							i = beginIndex - 1
 						}
-- 
2.43.0


From 34c2e8c0565c64a0146dab84603c2a0cc8e21e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 42/77] fix: joined katakana words can start with a character
 that cannot begin a word

---
 joinkatakanaoovplugin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/joinkatakanaoovplugin.go b/joinkatakanaoovplugin.go
index ca5e18c..5165a54 100644
--- a/joinkatakanaoovplugin.go
+++ b/joinkatakanaoovplugin.go
@@ -63,7 +63,7 @@ func isKatakanaNode(text *InputText, node *LatticeNode) bool {
 }
 
 func canOovBowNode(text *InputText, node *LatticeNode) bool {
-	types := GetCharCategoryTypes(text, node)
+	types := text.GetCharCategoryTypes(node.GetBegin())
 	return types&dictionary.NOOOVBOW != dictionary.NOOOVBOW
 }
 
-- 
2.43.0


From dfc737bed49f988dc1743c70de0366ba193f1e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:41 +0000
Subject: [PATCH 43/77] fix: the base directory given for the resources is not
 used without a configured path

---
 settingsjson.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/settingsjson.go b/settingsjson.go
index 0c287da..75362e7 100644
--- a/settingsjson.go
+++ b/settingsjson.go
@@ -42,7 +42,7 @@ func (settings *SettingsJSON) ParseSettingsJSON(defpath string, reader io.Reader
 	if err != nil {
 		return err
 	}
-	if internalBaseConfig.Path == nil && settings.path != "" {
+	if internalBaseConfig.Path == nil && settings.path == "" {
 		settings.path = defpath
 	} else if internalBaseConfig.Path != nil {
 		settings.path = *internalBaseConfig.Path
-- 
2.43.0


From 2f8bba74e1ca81d3d52eb8edab8313056b0a0a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:41 +0000
Subject: [PATCH 44/77] fix: a plugin entry without a name is taken for the
 plugin listed before it

---
 settingsjson.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/settingsjson.go b/settingsjson.go
index 75362e7..42924f8 100644
--- a/settingsjson.go
+++ b/settingsjson.go
@@ -86,11 +86,11 @@ func (settings *SettingsJSON) getPath(path string) string {
 
 func (settings *SettingsJSON) GetInputTextPluginArray(makeproc MakeInputTextPluginFunc) ([]InputTextPlugin, error) {
 	ret := []InputTextPlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.inputTextPlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
@@ -117,11 +117,11 @@ func (settings *SettingsJSON) GetInputTextPluginArray(makeproc MakeInputTextPlug
 
 func (settings *SettingsJSON) GetOovProviderPluginArray(makeproc MakeOovProviderPluginFunc) ([]OovProviderPlugin, error) {
 	ret := []OovProviderPlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.oovProviderPlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
@@ -148,11 +148,11 @@ func (settings *SettingsJSON) GetOovProviderPluginArray(makeproc MakeOovProvider
 
 func (settings *SettingsJSON) GetEditConnectionCostPluginArray(makeproc MakeEditConnectionCostPluginFunc) ([]EditConnectionCostPlugin, error) {
 	ret := []EditConnectionCostPlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.editConnectionCostPlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
@@ -179,11 +179,11 @@ func (settings *SettingsJSON) GetEditConnectionCostPluginArray(makeproc MakeEdit
 
 func (settings *SettingsJSON) GetPathRewritePluginArray(makeproc MakePathRewritePluginFunc) ([]PathRewritePlugin, error) {
 	ret := []PathRewritePlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.pathRewritePlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
-- 
2.43.0


From cbe283a371d2cf13fd96f0adb9940e7bb6e3990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:41 +0000
Subject: [PATCH 45/77] fix: the user dictionaries of additional settings do
 not override the earlier ones

---
 settingsjson.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/settingsjson.go b/settingsjson.go
index 42924f8..df3376f 100644
--- a/settingsjson.go
+++ b/settingsjson.go
@@ -57,6 +57,7 @@ func (settings *SettingsJSON) ParseSettingsJSON(defpath string, reader io.Reader
 		settings.Utf16String = *internalBaseConfig.Utf16String
 	}
 	if internalBaseConfig.UserDict != nil {
+		settings.UserDict = nil
 		for _, ud := range *internalBaseConfig.UserDict {
 			settings.UserDict = append(settings.UserDict, settings.getPath(ud))
 		}
-- 
2.43.0


From 9a79c7d5617b50186bdbfa323c30919d4c800d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:41 +0000
Subject: [PATCH 46/77] fix: settings with text after the JSON object are
 accepted

---
 settingsjson.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/settingsjson.go b/settingsjson.go
index df3376f..2345053 100644
--- a/settingsjson.go
+++ b/settingsjson.go
@@ -42,6 +42,9 @@ func (settings *SettingsJSON) ParseSettingsJSON(defpath string, reader io.Reader
 	if err != nil {
 		return err
 	}
+	if _, err := decoder.Token(); err != io.EOF {
+		return fmt.Errorf("unexpected text after the settings")
+	}
 	if internalBaseConfig.Path == nil && settings.path == "" {
 		settings.path = defpath
 	} else if internalBaseConfig.Path != nil {
-- 
2.43.0


From 8cfdee42aeaabb7a5dd86b599a3b372757f83f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:43 +0000
Subject: [PATCH 47/77] fix: a truncated dictionary crashes the program that
 opens it

---
 dictionary/binarydict.go | 13 ++++++++++++-
 dictionary/dicheader.go  |  3 +++
 dictionary/dicprinter.go |  6 ++++--
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/dictionary/binarydict.go b/dictionary/binarydict.go
index f0c0953..ef78bf8 100644
--- a/dictionary/binarydict.go
+++ b/dictionary/binarydict.go
@@ -14,7 +14,7 @@ type BinaryDictionary struct {
 	Lexicon *DoubleArrayLexicon
 }
 
-func NewBinaryDictionary(filename string, utf16string bool) (*BinaryDictionary, error) {
+func NewBinaryDictionary(filename string, utf16string bool) (dict *BinaryDictionary, err error) {
 	fd, err := os.OpenFile(filename, os.O_RDONLY, 0644)
 	if err != nil {
 		return nil, err
@@ -30,6 +30,14 @@ func NewBinaryDictionary(filename string, utf16string bool) (*BinaryDictionary,
 		_ = fd.Close()
 		return nil, err
 	}
+	// what a truncated file lacks is out of the bounds of fmap
+	defer func() {
+		if r := recover(); r != nil {
+			_ = mmap.Munmap(fmap)
+			_ = fd.Close()
+			dict, err = nil, fmt.Errorf("broken dictionary: %s: %v", filename, r)
+		}
+	}()
 
 	offset := 0
 	header := ParseDictionaryHeader(fmap, offset)
@@ -49,6 +57,9 @@ func NewBinaryDictionary(filename string, utf16string bool) (*BinaryDictionary,
 	}
 
 	lexicon := NewDoubleArrayLexicon(fmap, offset, utf16string)
+	if lexicon.Size() > 0 { // the last part of the file
+		_ = lexicon.GetWordInfo(lexicon.Size() - 1)
+	}
 
 	return &BinaryDictionary{
 		fd,
diff --git a/dictionary/dicheader.go b/dictionary/dicheader.go
index cb6e4f6..43162d1 100644
--- a/dictionary/dicheader.go
+++ b/dictionary/dicheader.go
@@ -26,6 +26,9 @@ func NewDictionaryHeader(version uint64, createTime int64, description string) *
 }
 
 func ParseDictionaryHeader(input []byte, offset int) *DictionaryHeader {
+	if len(input)-offset < HeaderStorageSize {
+		return nil
+	}
 	offset, version := bufferToUint64(input, offset)
 	offset, createTime := bufferToInt64(input, offset)
 
diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 5714e62..984d718 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -112,6 +112,9 @@ func PrintHeader(dictfile string, output io.Writer) error {
 	defer mmap.Munmap(bytebuffer)
 
 	dh := ParseDictionaryHeader(bytebuffer, 0)
+	if dh == nil {
+		return fmt.Errorf("invalid header: %s", dictfile)
+	}
 
 	fmt.Fprintf(output, "filename: %s\n", dictfile)
 
@@ -121,8 +124,7 @@ func PrintHeader(dictfile string, output io.Writer) error {
 	case UserDictVersion, UserDictVersion2:
 		fmt.Fprintln(output, "type: user dictionary")
 	default:
-		fmt.Fprintln(output, "invalid file")
-		os.Exit(1)
+		return fmt.Errorf("invalid file: %s", dictfile)
 	}
 
 	ctime := time.Unix(dh.CreateTime, 0)
-- 
2.43.0


From 1af9f66d4a243e58b55d2e66883910cb20497c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:09 +0000
Subject: [PATCH 48/77] fix: the definition files of the plugins are not looked
 for in the base directory

---
 settingsjson.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/settingsjson.go b/settingsjson.go
index 2345053..a845e14 100644
--- a/settingsjson.go
+++ b/settingsjson.go
@@ -11,7 +11,9 @@ type SettingsJSON struct {
 	BaseConfig
 	path                     string
 	inputTextPlugin          []json.RawMessage
+	inputTextPluginPath      string
 	oovProviderPlugin        []json.RawMessage
+	oovProviderPluginPath    string
 	pathRewritePlugin        []json.RawMessage
 	editConnectionCostPlugin []json.RawMessage
 }
@@ -68,9 +70,11 @@ func (settings *SettingsJSON) ParseSettingsJSON(defpath string, reader io.Reader
 
 	if internalBaseConfig.InputTextPlugin != nil {
 		settings.inputTextPlugin = *internalBaseConfig.InputTextPlugin
+		settings.inputTextPluginPath = settings.path
 	}
 	if internalBaseConfig.OovProviderPlugin != nil {
 		settings.oovProviderPlugin = *internalBaseConfig.OovProviderPlugin
+		settings.oovProviderPluginPath = settings.path
 	}
 	if internalBaseConfig.PathRewritePlugin != nil {
 		settings.pathRewritePlugin = *internalBaseConfig.PathRewritePlugin
@@ -82,10 +86,14 @@ func (settings *SettingsJSON) ParseSettingsJSON(defpath string, reader io.Reader
 }
 
 func (settings *SettingsJSON) getPath(path string) string {
-	if path == "" || filepath.IsAbs(path) || settings.path == "" {
+	return resolvePath(settings.path, path)
+}
+
+func resolvePath(base string, path string) string {
+	if path == "" || filepath.IsAbs(path) || base == "" {
 		return path
 	}
-	return filepath.Join(settings.path, path)
+	return filepath.Join(base, path)
 }
 
 func (settings *SettingsJSON) GetInputTextPluginArray(makeproc MakeInputTextPluginFunc) ([]InputTextPlugin, error) {
@@ -114,6 +122,9 @@ func (settings *SettingsJSON) GetInputTextPluginArray(makeproc MakeInputTextPlug
 		if err != nil {
 			return ret, err
 		}
+		if config, ok := plugin.GetConfigStruct().(*DefaultInputTextPluginConfig); ok {
+			config.RewriteDef = resolvePath(settings.inputTextPluginPath, config.RewriteDef)
+		}
 		ret = append(ret, plugin)
 	}
 	return ret, nil
@@ -145,6 +156,13 @@ func (settings *SettingsJSON) GetOovProviderPluginArray(makeproc MakeOovProvider
 		if err != nil {
 			return ret, err
 		}
+		if config, ok := plugin.GetConfigStruct().(*MeCabOovProviderPluginConfig); ok {
+			for _, def := range []*string{config.CharDef, config.UnkDef} {
+				if def != nil {
+					*def = resolvePath(settings.oovProviderPluginPath, *def)
+				}
+			}
+		}
 		ret = append(ret, plugin)
 	}
 	return ret, nil
-- 
2.43.0


From 98b26b92d73177ac8ff7772b51d8d5c23b7fa5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:09 +0000
Subject: [PATCH 49/77] fix: a part of speech without six elements crashes or
 is cut off

---
 dictionary/grammar.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/grammar.go b/dictionary/grammar.go
index 427a23f..6c3c21c 100644
--- a/dictionary/grammar.go
+++ b/dictionary/grammar.go
@@ -80,6 +80,9 @@ func (g *Grammar) GetPartOfSpeechString(posId int16) []string {
 }
 
 func (g *Grammar) GetPartOfSpeechId(pos []string) int16 {
+	if len(pos) != posDepth {
+		return int16(-1)
+	}
 L:
 	for i, p := range g.posList {
 		for j := 0; j < posDepth; j++ {
-- 
2.43.0


From e6c464db930988e6739356c604efe79b5828cdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:09 +0000
Subject: [PATCH 50/77] fix: unknown words with connection ids outside the
 matrix crash the tokenizer

---
 mecaboovproviderplugin.go  | 3 +++
 simpleoovproviderplugin.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mecaboovproviderplugin.go b/mecaboovproviderplugin.go
index a467082..e0b4a16 100644
--- a/mecaboovproviderplugin.go
+++ b/mecaboovproviderplugin.go
@@ -254,6 +254,9 @@ func (p *MeCabOovProviderPlugin) readOov(unkDef string, grammar *dictionary.Gram
 		if err != nil {
 			return fmt.Errorf("unk.def: %s is invalid number at line %d", cols[2], r.NumLine)
 		}
+		if !grammar.HasConnection(int(rightId), int(leftId)) {
+			return fmt.Errorf("unk.def: invalid connection id at line %d", r.NumLine)
+		}
 		cost, err := strconv.ParseInt(cols[3], 10, 16)
 		if err != nil {
 			return fmt.Errorf("unk.def: %s is invalid number at line %d", cols[3], r.NumLine)
diff --git a/simpleoovproviderplugin.go b/simpleoovproviderplugin.go
index 5de2b48..347a1bc 100644
--- a/simpleoovproviderplugin.go
+++ b/simpleoovproviderplugin.go
@@ -57,6 +57,9 @@ func (p *SimpleOovProviderPlugin) SetUp(grammar *dictionary.Grammar) error {
 	if oovPosId < 0 {
 		return fmt.Errorf("SimpleOovProviderPlugin: oovPOS is invalid")
 	}
+	if !grammar.HasConnection(int(*p.config.RightId), int(*p.config.LeftId)) {
+		return fmt.Errorf("SimpleOovProviderPlugin: leftId or rightId is invalid")
+	}
 	p.oovPosId = oovPosId
 	p.leftId = *p.config.LeftId
 	p.rightId = *p.config.RightId
-- 
2.43.0


From abad185851b027b034d2297240e93bdda21112a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 51/77] fix: strings too long for the target encoding are
 converted with a wrong length

---
 dictionary/dicbuilder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index eb74416..2b82ad2 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -456,6 +456,9 @@ func writeStringLength(buffer *bytes.Buffer, length int16) error {
 }
 
 func writeString(buffer *bytes.Buffer, s string) error {
+	if utf8CountInString(s) {
+		return fmt.Errorf("string is too long: %d bytes", len(s))
+	}
 	err := writeStringLength(buffer, int16(len(s)))
 	if err != nil {
 		return err
@@ -473,6 +476,9 @@ func writeStringUtf16(buffer *bytes.Buffer, s string) error {
 		return fmt.Errorf("invalid UTF-8 string: %q", s)
 	}
 	javainternal := utf16.Encode([]rune(s))
+	if len(javainternal) > StringUtf16MaxLength {
+		return fmt.Errorf("string is too long: %d UTF-16 code units", len(javainternal))
+	}
 
 	err := writeStringLength(buffer, int16(len(javainternal)))
 	if err != nil {
-- 
2.43.0


From 894c0b4c9bacb928e9a479b27e2d1b00c38035a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 52/77] fix: an input that cannot be converted crashes the
 converter and empties the output

---
 dicconv/main.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dicconv/main.go b/dicconv/main.go
index 638a81b..4d9ebd7 100644
--- a/dicconv/main.go
+++ b/dicconv/main.go
@@ -53,18 +53,12 @@ Options:
 			os.Exit(1)
 		}
 	}
-	outputfd, err := os.OpenFile(outputfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
-	if err != nil {
-		fmt.Fprintf(os.Stderr, "%s: %s\n", outputfile, err)
-		os.Exit(1)
-	}
-	defer outputfd.Close()
-	bufiooutput := bufio.NewWriter(outputfd)
 
 	args := flag.Args()
 	fromdic, err := dictionary.NewBinaryDictionary(args[0], !utf16string)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
 	}
 	defer fromdic.Close()
 
@@ -74,6 +68,14 @@ Options:
 		os.Exit(1)
 	}
 
+	outputfd, err := os.OpenFile(outputfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "%s: %s\n", outputfile, err)
+		os.Exit(1)
+	}
+	defer outputfd.Close()
+	bufiooutput := bufio.NewWriter(outputfd)
+
 	var offset int64
 	n, err := bufiooutput.Write(hb)
 	if err != nil {
-- 
2.43.0


From 86cb15e4c54a1629239f7088ff779b39678bdf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 53/77] fix: converting a dictionary in place destroys it

---
 dicconv/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dicconv/main.go b/dicconv/main.go
index 4d9ebd7..d5d1a75 100644
--- a/dicconv/main.go
+++ b/dicconv/main.go
@@ -68,6 +68,13 @@ Options:
 		os.Exit(1)
 	}
 
+	// the dictionary is still read while its conversion is written
+	if ininfo, err := os.Stat(args[0]); err == nil {
+		if outinfo, err := os.Stat(outputfile); err == nil && os.SameFile(ininfo, outinfo) {
+			fmt.Fprintf(os.Stderr, "%s: the output is the input\n", outputfile)
+			os.Exit(1)
+		}
+	}
 	outputfd, err := os.OpenFile(outputfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "%s: %s\n", outputfile, err)
-- 
2.43.0


From 2be9ff14873e6605d2881b281e87b7372908539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 54/77] fix: printed words have no part of speech

---
 dictionary/dicprinter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 984d718..8c5d29b 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -32,7 +32,7 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 	}
 
 	possize := grammar.GetPartOfSpeechSize()
-	posStrings := make([]string, possize, possize)
+	posStrings := make([]string, 0, possize)
 	for pid := 0; pid < possize; pid++ {
 		posStrings = append(posStrings, strings.Join(grammar.GetPartOfSpeechString(int16(pid)), ","))
 	}
-- 
2.43.0


From ad3766245d0528aa8f2395c9e3c5b705f069ca7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 55/77] fix: printed splits begin with empty units

---
 dictionary/dicprinter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 8c5d29b..85bbe0d 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -86,7 +86,7 @@ func splitToString(split []int32) string {
 	if len(split) == 0 {
 		return "*"
 	}
-	splitstrs := make([]string, len(split), len(split))
+	splitstrs := make([]string, 0, len(split))
 	for _, i := range split {
 		splitstrs = append(splitstrs, strconv.Itoa(int(i)))
 	}
-- 
2.43.0


From 904c67d59569afa74565d169f91bfda34bff34ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 56/77] fix: splits into words of the user dictionary are
 printed with ids that cannot be compiled

---
 dictionary/dicprinter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 85bbe0d..d4aee32 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -88,7 +88,11 @@ func splitToString(split []int32) string {
 	}
 	splitstrs := make([]string, 0, len(split))
 	for _, i := range split {
-		splitstrs = append(splitstrs, strconv.Itoa(int(i)))
+		if i>>28 != 0 { // a word of the user dictionary itself
+			splitstrs = append(splitstrs, "U"+strconv.Itoa(int(i&0xfffffff)))
+		} else {
+			splitstrs = append(splitstrs, strconv.Itoa(int(i)))
+		}
 	}
 	return strings.Join(splitstrs, "/")
 }
-- 
2.43.0


From 4db61b16c3a53ee361dd2f8c663be95a3250b492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 57/77] fix: words with B units but without A units are printed
 as A units

---
 dictionary/dicprinter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index d4aee32..7288128 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -74,7 +74,7 @@ func wordIdToString(wid int) string {
 }
 
 func getUnitType(wi *WordInfo) string {
-	if len(wi.AUnitSplit) == 0 {
+	if len(wi.AUnitSplit) == 0 && len(wi.BUnitSplit) == 0 {
 		return "A"
 	} else if len(wi.BUnitSplit) == 0 {
 		return "B"
-- 
2.43.0


From d7b09369341e77ec1f886d7f3fa2903e0eba04d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 58/77] fix: printing a user dictionary changes the parts of
 speech of the system dictionary

---
 dictionary/dicprinter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 7288128..42abcb5 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -25,7 +25,8 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 	} else if systemDict == nil {
 		return errors.New("the system dictionary is not specified")
 	} else {
-		grammar = systemDict.Grammar
+		grammar = &Grammar{}
+		grammar.AddPosList(systemDict.Grammar)
 		if dic.Header.Version == UserDictVersion2 {
 			grammar.AddPosList(dic.Grammar)
 		}
-- 
2.43.0


From 6b293f516602ea3293edfd32da966ac2fbfb0e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 59/77] fix: commas, line ends and escapes in printed words
 break the rows

---
 dictionary/dicprinter.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 42abcb5..ed025e2 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -35,7 +35,12 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 	possize := grammar.GetPartOfSpeechSize()
 	posStrings := make([]string, 0, possize)
 	for pid := 0; pid < possize; pid++ {
-		posStrings = append(posStrings, strings.Join(grammar.GetPartOfSpeechString(int16(pid)), ","))
+		pos := grammar.GetPartOfSpeechString(int16(pid))
+		escaped := make([]string, 0, len(pos))
+		for _, p := range pos {
+			escaped = append(escaped, escapeColumn(p))
+		}
+		posStrings = append(posStrings, strings.Join(escaped, ","))
 	}
 
 	lexicon := dic.Lexicon
@@ -49,14 +54,14 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 
 		fmt.Fprintf(output,
 			"%s,%d,%d,%d,%s,%s,%s,%s,%s,%s,%s,%s,%s\n",
-			wi.Surface,
+			escapeColumn(wi.Surface),
 			leftId,
 			rightId,
 			cost,
-			wi.Surface,
+			escapeColumn(wi.Surface),
 			posStrings[int(wi.PosId)],
-			wi.ReadingForm,
-			wi.NormalizedForm,
+			escapeColumn(wi.ReadingForm),
+			escapeColumn(wi.NormalizedForm),
 			wordIdToString(int(wi.DictionaryFormWordId)),
 			unitType,
 			splitToString(wi.AUnitSplit),
@@ -67,6 +72,13 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 	return nil
 }
 
+// columnEscaper escapes what would end a column or a row, or would be read as an escape.
+var columnEscaper = strings.NewReplacer(",", `\u002C`, "\n", `\u000A`, "\r", `\u000D`, `\u`, `\u005Cu`)
+
+func escapeColumn(s string) string {
+	return columnEscaper.Replace(s)
+}
+
 func wordIdToString(wid int) string {
 	if wid < 0 {
 		return "*"
-- 
2.43.0


From d894a0e27e939799cf60cc2b06f50382f0ccf0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 60/77] fix: results before an error are not written to the
 output file

---
 gosudachicli/main.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gosudachicli/main.go b/gosudachicli/main.go
index 9476437..d3eac5c 100644
--- a/gosudachicli/main.go
+++ b/gosudachicli/main.go
@@ -313,6 +313,7 @@ Options:
 	}
 
 	var output io.Writer
+	flush := func() error { return nil }
 	if outputfile != "" {
 		if !filepath.IsAbs(outputfile) {
 			var err error
@@ -329,7 +330,7 @@ Options:
 		}
 		defer outputfd.Close()
 		bufiooutput := bufio.NewWriter(outputfd)
-		defer bufiooutput.Flush()
+		flush = bufiooutput.Flush
 		output = bufiooutput
 	} else {
 		output = os.Stdout
@@ -389,12 +390,14 @@ Options:
 			input, err := os.OpenFile(arg, os.O_RDONLY, 0644)
 			if err != nil {
 				fmt.Fprintf(os.Stderr, "%s: %s", arg, err)
+				flush()
 				os.Exit(1)
 			}
 			err = runFromReader(tokenizer, mode, input, output, printall, ignoreerr)
 			input.Close()
 			if err != nil {
 				fmt.Fprintln(os.Stderr, err)
+				flush()
 				os.Exit(1)
 			}
 		}
@@ -402,9 +405,14 @@ Options:
 		err = runFromReader(tokenizer, mode, os.Stdin, output, printall, ignoreerr)
 		if err != nil {
 			fmt.Fprintln(os.Stderr, err)
+			flush()
 			os.Exit(1)
 		}
 	}
+	if err := flush(); err != nil {
+		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
+	}
 }
 
 func parseSettings(basePath string, settingfile string, mergeString string) (gosudachi.Settings, gosudachi.PluginMaker, error) {
-- 
2.43.0


From c6538687ee026c02ea0aeb02d0d9b2dacc387930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 61/77] fix: a failure to read the size of the connection
 matrix is ignored

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 2b82ad2..e9000ca 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -539,6 +539,9 @@ func (dicbuilder *DictionaryBuilder) WriteGrammar(postable *PosTable, input io.R
 	if err == io.EOF {
 		return fmt.Errorf("invalid format at line %d", r.NumLine)
 	}
+	if err != nil {
+		return err
+	}
 
 	fmt.Fprint(os.Stderr, "writing the connection matrix...")
 
-- 
2.43.0


From 8dd473cce68de6de7c1d6c407e6389c3045b04b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 62/77] fix: a failure to write the word infos of a converted
 dictionary is ignored

---
 dictionary/dalexicon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dalexicon.go b/dictionary/dalexicon.go
index 614f214..9d4249d 100644
--- a/dictionary/dalexicon.go
+++ b/dictionary/dalexicon.go
@@ -351,6 +351,9 @@ func (lexicon *DoubleArrayLexicon) WriteWordInfos(writer io.Writer, offset int64
 			return 0, offsets, err
 		}
 		n, err := buffer.WriteTo(writer)
+		if err != nil {
+			return 0, offsets, err
+		}
 		buffer.Reset()
 		position += n
 	}
-- 
2.43.0


From 77ae87d4da9e60f7810e453045c6ce07d84b5973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 63/77] fix: a failure to write the listing of a dictionary is
 ignored

---
 dictionary/dicprinter.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index ed025e2..d8cf4a9 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -52,7 +52,7 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 
 		unitType := getUnitType(wi)
 
-		fmt.Fprintf(output,
+		_, err := fmt.Fprintf(output,
 			"%s,%d,%d,%d,%s,%s,%s,%s,%s,%s,%s,%s,%s\n",
 			escapeColumn(wi.Surface),
 			leftId,
@@ -68,6 +68,9 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 			splitToString(wi.BUnitSplit),
 			splitToString(wi.WordStructure),
 		)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
@@ -133,21 +136,29 @@ func PrintHeader(dictfile string, output io.Writer) error {
 		return fmt.Errorf("invalid header: %s", dictfile)
 	}
 
-	fmt.Fprintf(output, "filename: %s\n", dictfile)
+	_, err = fmt.Fprintf(output, "filename: %s\n", dictfile)
+	if err != nil {
+		return err
+	}
 
 	switch dh.Version {
 	case SystemDictVersion:
-		fmt.Fprintln(output, "type: system dictionary")
+		_, err = fmt.Fprintln(output, "type: system dictionary")
 	case UserDictVersion, UserDictVersion2:
-		fmt.Fprintln(output, "type: user dictionary")
+		_, err = fmt.Fprintln(output, "type: user dictionary")
 	default:
 		return fmt.Errorf("invalid file: %s", dictfile)
 	}
+	if err != nil {
+		return err
+	}
 
 	ctime := time.Unix(dh.CreateTime, 0)
 	zone, _ := ctime.Zone()
-	fmt.Fprintf(output, "createTime: %s[%s]\n", ctime.Format(time.RFC3339), zone)
-	fmt.Fprintf(output, "description: %s\n", dh.Description)
-
-	return nil
+	_, err = fmt.Fprintf(output, "createTime: %s[%s]\n", ctime.Format(time.RFC3339), zone)
+	if err != nil {
+		return err
+	}
+	_, err = fmt.Fprintf(output, "description: %s\n", dh.Description)
+	return err
 }
-- 
2.43.0


From def211ece6f4cc6882986133f9cd8bcab0bc4366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 64/77] fix: a failure to write the results to the standard
 output is ignored

---
 gosudachicli/main.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/gosudachicli/main.go b/gosudachicli/main.go
index d3eac5c..041ca07 100644
--- a/gosudachicli/main.go
+++ b/gosudachicli/main.go
@@ -225,6 +225,21 @@ func (s *lineScanner) Text() string {
 	return string(s.line)
 }
 
+// errWriter keeps the first error of its writer.
+type errWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (ew *errWriter) Write(p []byte) (int, error) {
+	if ew.err != nil {
+		return 0, ew.err
+	}
+	n, err := ew.w.Write(p)
+	ew.err = err
+	return n, err
+}
+
 func runFromReader(tokenizer *gosudachi.JapaneseTokenizer, mode string, input io.Reader, output io.Writer, printAll bool, ignoreError bool) error {
 	s := newLineScanner(input)
 	for s.Scan() {
@@ -333,7 +348,9 @@ Options:
 		flush = bufiooutput.Flush
 		output = bufiooutput
 	} else {
-		output = os.Stdout
+		stdout := &errWriter{w: os.Stdout}
+		flush = func() error { return stdout.err }
+		output = stdout
 	}
 
 	settings, pluginmaker, err := parseSettings(resourcesdir, settingfile, mergesettings)
-- 
2.43.0


From c787247cac961bf9b195310a550211c39a3b82e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 65/77] fix: a file that is too short to be a dictionary is
 left open and mapped

---
 dictionary/binarydict.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dictionary/binarydict.go b/dictionary/binarydict.go
index ef78bf8..7132ca9 100644
--- a/dictionary/binarydict.go
+++ b/dictionary/binarydict.go
@@ -42,6 +42,8 @@ func NewBinaryDictionary(filename string, utf16string bool) (dict *BinaryDiction
 	offset := 0
 	header := ParseDictionaryHeader(fmap, offset)
 	if header == nil {
+		_ = mmap.Munmap(fmap)
+		_ = fd.Close()
 		return nil, fmt.Errorf("invalid header: %s", filename)
 	}
 
-- 
2.43.0


From 92fdb7ab241255942ebb6857e962dfd49b93e006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 66/77] fix: the dictionaries opened by a failed
 NewJapaneseDictionary are never closed

---
 dictionary.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index 265e351..c83ae46 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -26,7 +26,7 @@ type JapaneseDictionary struct {
 	dictionaries       []*dictionary.BinaryDictionary
 }
 
-func NewJapaneseDictionary(config *BaseConfig, inputTextPlugins []InputTextPlugin, oovProviderPlugins []OovProviderPlugin, pathRewritePlugins []PathRewritePlugin, editConnectionCostPlugins []EditConnectionCostPlugin) (*JapaneseDictionary, error) {
+func NewJapaneseDictionary(config *BaseConfig, inputTextPlugins []InputTextPlugin, oovProviderPlugins []OovProviderPlugin, pathRewritePlugins []PathRewritePlugin, editConnectionCostPlugins []EditConnectionCostPlugin) (_ *JapaneseDictionary, err error) {
 	if len(oovProviderPlugins) == 0 {
 		return nil, fmt.Errorf("no OOV provider")
 	}
@@ -36,8 +36,13 @@ func NewJapaneseDictionary(config *BaseConfig, inputTextPlugins []InputTextPlugi
 		oovProviderPlugins: oovProviderPlugins,
 		pathRewritePlugins: pathRewritePlugins,
 	}
+	defer func() {
+		if err != nil {
+			d.Close()
+		}
+	}()
 
-	err := d.ReadSystemDictionary(config.SystemDict, config.Utf16String)
+	err = d.ReadSystemDictionary(config.SystemDict, config.Utf16String)
 	if err != nil {
 		return nil, fmt.Errorf("fail to read a system dictionary: %s", err)
 	}
-- 
2.43.0


From 5177662dec6212b5602c2932490c8a26fee3f737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 67/77] fix: a user dictionary whose costs cannot be computed
 is left open

---
 dictionary.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index c83ae46..f9ff68b 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -118,8 +118,6 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		return fmt.Errorf("too many parts of speech: %s", filename)
 	}
 
-	d.dictionaries = append(d.dictionaries, dict)
-
 	userLexicon := dict.Lexicon
 	tokenizer := NewJapaneseTokenizer(
 		d.grammar,
@@ -142,8 +140,10 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		return int16(cost), nil
 	})
 	if err != nil {
+		_ = dict.Close()
 		return err
 	}
+	d.dictionaries = append(d.dictionaries, dict)
 	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
 	if dict.Grammar != nil { // the first version has no grammar
 		d.grammar.AddPosList(dict.Grammar)
-- 
2.43.0


From 0ad61a55fb6809611d85a1150366bb09c9a3763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 68/77] fix: LexiconSet.GetWordId does not find words whose
 part of speech is of a user dictionary

---
 dictionary/lexiconset.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dictionary/lexiconset.go b/dictionary/lexiconset.go
index 52baa02..d9e9b69 100644
--- a/dictionary/lexiconset.go
+++ b/dictionary/lexiconset.go
@@ -31,7 +31,15 @@ func (s *LexiconSet) Lookup(text []byte, offset int) *LexiconSetIterator {
 
 func (s *LexiconSet) GetWordId(headword string, posId int16, readingForm string) int32 {
 	for dictId := 1; dictId < len(s.lexicons); dictId++ {
-		wordId := s.lexicons[dictId].GetWordId(headword, posId, readingForm)
+		lexiconPosId := posId
+		if int32(posId) >= s.posOffsets[1] {
+			// user defined part-of-speech
+			lexiconPosId = int16(int32(posId) - s.posOffsets[dictId] + s.posOffsets[1])
+			if int32(lexiconPosId) < s.posOffsets[1] {
+				continue // of a dictionary added before this one
+			}
+		}
+		wordId := s.lexicons[dictId].GetWordId(headword, lexiconPosId, readingForm)
 		if wordId >= 0 {
 			// buildWordId
 			return int32(uint32(dictId)<<28) | wordId
-- 
2.43.0


From b6037cd3efa73163b05ae65d6f6a189a1fbfba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 69/77] fix: the description of a header that does not start
 its buffer is cut

---
 dictionary/dicheader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dictionary/dicheader.go b/dictionary/dicheader.go
index 43162d1..fbc1249 100644
--- a/dictionary/dicheader.go
+++ b/dictionary/dicheader.go
@@ -33,7 +33,7 @@ func ParseDictionaryHeader(input []byte, offset int) *DictionaryHeader {
 	offset, createTime := bufferToInt64(input, offset)
 
 	i := offset
-	for ; i < HeaderStorageSize; i++ {
+	for ; i < offset+DescriptionSize; i++ {
 		if input[i] == 0 {
 			break
 		}
-- 
2.43.0


From 7e3588bcf49d0b232b9fd2556b2ebac5cb3b6a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 70/77] fix: dicbuilder destroys a source file that is given as
 its output

---
 dicbuilder/main.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dicbuilder/main.go b/dicbuilder/main.go
index 566b3bb..f6afa69 100644
--- a/dicbuilder/main.go
+++ b/dicbuilder/main.go
@@ -52,6 +52,13 @@ Options:
 		os.Exit(1)
 	}
 
+	// opening the output truncates it
+	for _, inputpath := range append([]string{matrixpath}, flag.Args()...) {
+		if sameFile(inputpath, outputpath) {
+			fmt.Fprintf(os.Stderr, "%s: the output is an input\n", outputpath)
+			os.Exit(1)
+		}
+	}
 	outputWriter, err := os.OpenFile(outputpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "%s: %s\n", outputpath, err)
@@ -105,6 +112,16 @@ Options:
 	}
 }
 
+// sameFile reports whether two paths name one file.
+func sameFile(path1, path2 string) bool {
+	info1, err := os.Stat(path1)
+	if err != nil {
+		return false
+	}
+	info2, err := os.Stat(path2)
+	return err == nil && os.SameFile(info1, info2)
+}
+
 func build(dicbuilder *dictionary.DictionaryBuilder, store dictionary.PosIdStore, lexiconpath string) error {
 	lexiconReader, err := os.OpenFile(lexiconpath, os.O_RDONLY, 0644)
 	if err != nil {
-- 
2.43.0


From 698bae991981340fc0beb76c8f498a01a0f7b721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 71/77] fix: userdicbuilder destroys a dictionary or a source
 file that is given as its output

---
 userdicbuilder/main.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/userdicbuilder/main.go b/userdicbuilder/main.go
index e46656c..6badcb7 100644
--- a/userdicbuilder/main.go
+++ b/userdicbuilder/main.go
@@ -59,6 +59,13 @@ Options:
 	}
 	defer sdic.Close()
 
+	// opening the output truncates it
+	for _, inputpath := range append([]string{systemdict}, flag.Args()...) {
+		if sameFile(inputpath, outputpath) {
+			fmt.Fprintf(os.Stderr, "%s: the output is an input\n", outputpath)
+			os.Exit(1)
+		}
+	}
 	outputWriter, err := os.OpenFile(outputpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
@@ -105,6 +112,16 @@ Options:
 	}
 }
 
+// sameFile reports whether two paths name one file.
+func sameFile(path1, path2 string) bool {
+	info1, err := os.Stat(path1)
+	if err != nil {
+		return false
+	}
+	info2, err := os.Stat(path2)
+	return err == nil && os.SameFile(info1, info2)
+}
+
 func build(dicbuilder *dictionary.DictionaryBuilder, store dictionary.PosIdStore, lexiconpath string) error {
 	lexiconReader, err := os.OpenFile(lexiconpath, os.O_RDONLY, 0644)
 	if err != nil {
-- 
2.43.0


From e910e6d76598e907dd394b2a5f9223852398dfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 72/77] fix: gosudachicli destroys an input file that is given
 as its output

---
 gosudachicli/main.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/gosudachicli/main.go b/gosudachicli/main.go
index 041ca07..ed5e41e 100644
--- a/gosudachicli/main.go
+++ b/gosudachicli/main.go
@@ -338,6 +338,13 @@ Options:
 				os.Exit(1)
 			}
 		}
+		// opening the output truncates it
+		for _, inputfile := range append([]string{settingfile}, flag.Args()...) {
+			if sameFile(inputfile, outputfile) {
+				fmt.Fprintf(os.Stderr, "%s: the output is an input\n", outputfile)
+				os.Exit(1)
+			}
+		}
 		outputfd, err := os.OpenFile(outputfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "%s: %s\n", outputfile, err)
@@ -432,6 +439,16 @@ Options:
 	}
 }
 
+// sameFile reports whether two paths name one file.
+func sameFile(path1, path2 string) bool {
+	info1, err := os.Stat(path1)
+	if err != nil {
+		return false
+	}
+	info2, err := os.Stat(path2)
+	return err == nil && os.SameFile(info1, info2)
+}
+
 func parseSettings(basePath string, settingfile string, mergeString string) (gosudachi.Settings, gosudachi.PluginMaker, error) {
 	settings := gosudachi.NewSettingsJSON()
 
-- 
2.43.0


From 40c454e9f817bee95886c2f9ad48ef6c73bb2eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 73/77] fix: closing a dictionary file twice takes away the
 mapping that has replaced it

---
 dictionary/binarydict.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dictionary/binarydict.go b/dictionary/binarydict.go
index 7132ca9..83b337b 100644
--- a/dictionary/binarydict.go
+++ b/dictionary/binarydict.go
@@ -101,5 +101,6 @@ func (bd *BinaryDictionary) Close() error {
 	if err != nil {
 		return err
 	}
+	bd.fmap = nil // its place may be taken by another mapping
 	return bd.fd.Close()
 }
-- 
2.43.0


From f386c524b748a4b404fb57e1d2aab5e29f052d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 74/77] fix: removing a node that was inserted more than once
 leaves a hole in the lattice

---
 lattice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattice.go b/lattice.go
index ac4494a..1fa65e2 100644
--- a/lattice.go
+++ b/lattice.go
@@ -219,6 +219,7 @@ func (l *Lattice) Remove(begin int, end int, node *LatticeNode) {
 			}
 			t[len(t)-1] = nil
 			l.endLists[end] = t[:len(t)-1]
+			return
 		}
 	}
 }
-- 
2.43.0


From 6f07c8776dfefb17fef6cae412ef9360f3c8e830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 75/77] fix: code points of a character definition above
 0x7FFFFFFF become negative

---
 dictionary/charcategory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/charcategory.go b/dictionary/charcategory.go
index 11b2543..1944d94 100644
--- a/dictionary/charcategory.go
+++ b/dictionary/charcategory.go
@@ -187,6 +187,9 @@ func decodeHexStrToInt32(s string) (int32, error) {
 	if n > 4 {
 		return 0, fmt.Errorf("invalid hex string: too long")
 	}
+	if n == 4 && dst[0] >= 0x80 {
+		return 0, fmt.Errorf("invalid hex string: too large")
+	}
 	var ret int32
 	switch n {
 	case 4:
-- 
2.43.0


From fe9e71c97461e7c324394fa9a9ff202e8aef4be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 76/77] fix: what follows the first line of a reference by
 columns is ignored

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index e9000ca..8762b21 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -1007,6 +1007,9 @@ func (dicbuilder *DictionaryBuilder) wordToId(text string, store PosIdStore) (in
 		if len(cols) < 8 {
 			return int32(-1), fmt.Errorf("too few columns: %s", text)
 		}
+		if _, err := r.readLine(); err != io.EOF {
+			return int32(-1), fmt.Errorf("more than one line: %s", text)
+		}
 		posId := store.GetPosId(cols[1], cols[2], cols[3], cols[4], cols[5], cols[6])
 		if posId < 0 {
 			return int32(-1), fmt.Errorf("invalid part of speech: %s", text)
-- 
2.43.0


From 80cf2259ea31c839b0aaecd9f17772125f72d55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:24 +0000
Subject: [PATCH 77/77] fix: refuse a dictionary whose writing was not finished

A build that fails or stops while the word infos are written leaves a file
whose table of offsets is a hole. It was opened as a dictionary when the
records written so far were longer than a buffer.
---
 dictionary/binarydict.go | 9 +++++++--
 dictionary/dalexicon.go  | 6 ++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/dictionary/binarydict.go b/dictionary/binarydict.go
index 83b337b..deac1be 100644
--- a/dictionary/binarydict.go
+++ b/dictionary/binarydict.go
@@ -59,8 +59,13 @@ func NewBinaryDictionary(filename string, utf16string bool) (dict *BinaryDiction
 	}
 
 	lexicon := NewDoubleArrayLexicon(fmap, offset, utf16string)
-	if lexicon.Size() > 0 { // the last part of the file
-		_ = lexicon.GetWordInfo(lexicon.Size() - 1)
+	if last := lexicon.Size() - 1; last >= 0 { // the last part of the file
+		if !lexicon.wordInfos.hasOffset(last) {
+			_ = mmap.Munmap(fmap)
+			_ = fd.Close()
+			return nil, fmt.Errorf("incomplete dictionary: %s", filename)
+		}
+		_ = lexicon.GetWordInfo(last)
 	}
 
 	return &BinaryDictionary{
diff --git a/dictionary/dalexicon.go b/dictionary/dalexicon.go
index 9d4249d..759a964 100644
--- a/dictionary/dalexicon.go
+++ b/dictionary/dalexicon.go
@@ -152,6 +152,12 @@ func (l *wordInfoList) wordIdToOffset(wordId int32) int {
 	return int(ret)
 }
 
+// hasOffset reports whether the offset of the word was written. The offsets are
+// written after the records, which follow them.
+func (l *wordInfoList) hasOffset(wordId int32) bool {
+	return l.wordIdToOffset(wordId) >= l.offset+4*int(l.wordSize)
+}
+
 type DoubleArrayLexicon struct {
 	wordIdT    *wordIdTable
 	wordParams *wordParameterList
-- 
2.43.0

