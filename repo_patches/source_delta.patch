From 348be4a55114a3cd8b4649f528e9cd558675ab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 01/35] fix: SubsetKeepIndices must not empty the glyphs of the
 source font

---
 export.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/export.go b/export.go
index 72b111b..f2296a1 100644
--- a/export.go
+++ b/export.go
@@ -196,15 +196,15 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 	if f.font.glyf != nil && f.font.loca != nil {
 		newfnt.loca = &locaTable{}
 		newfnt.glyf = &glyfTable{}
-		*newfnt.glyf = *f.font.glyf
+		newfnt.glyf.descs = make([]*glyphDescription, len(f.font.glyf.descs))
 
-		// Empty glyf contents for non-included glyphs.
-		for i := range newfnt.glyf.descs {
-			if _, has := gidIncludedMap[GlyphIndex(i)]; has {
-				continue
+		// Empty glyf contents for non-included glyphs. The descriptions are shared with `f`, so
+		// they are replaced rather than modified.
+		for i, desc := range f.font.glyf.descs {
+			if _, has := gidIncludedMap[GlyphIndex(i)]; !has {
+				desc = &glyphDescription{}
 			}
-
-			newfnt.glyf.descs[i].raw = nil
+			newfnt.glyf.descs[i] = desc
 		}
 
 		// Update loca offsets.
-- 
2.43.0


From be3b4cd6e460d66681c32100c1ab7271a29acfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 02/35] fix: SubsetFirst must not modify the cmap of the source
 font, nor keep removed glyphs in the new one

---
 export.go     |  8 ++++++--
 table_cmap.go | 24 ++++++++++++++++++++++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/export.go b/export.go
index f2296a1..c9368cd 100644
--- a/export.go
+++ b/export.go
@@ -402,14 +402,16 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		}
 
 		for _, name := range f.cmap.subtableKeys {
-			subt := f.cmap.subtables[name]
+			subt := f.cmap.subtables[name].restricted(numGlyphs)
 			switch t := subt.ctx.(type) {
 			case cmapSubtableFormat0:
+				t.glyphIDArray = append([]uint8(nil), t.glyphIDArray...)
 				for i := range t.glyphIDArray {
-					if i > numGlyphs {
+					if int(t.glyphIDArray[i]) >= numGlyphs {
 						t.glyphIDArray[i] = 0
 					}
 				}
+				subt.ctx = t
 			case cmapSubtableFormat4:
 				newt := cmapSubtableFormat4{}
 				// Generates a new table: going from glyph index 0 up to numGlyphs.
@@ -466,11 +468,13 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 				newt.rangeShift = uint16(segments*2) - newt.searchRange
 				subt.ctx = newt
 			case cmapSubtableFormat6:
+				t.glyphIDArray = append([]uint16(nil), t.glyphIDArray...)
 				for i := range t.glyphIDArray {
 					if int(t.glyphIDArray[i]) >= numGlyphs {
 						t.glyphIDArray[i] = 0
 					}
 				}
+				subt.ctx = t
 			case cmapSubtableFormat12:
 				newt := cmapSubtableFormat12{}
 				groups := 0
diff --git a/table_cmap.go b/table_cmap.go
index d5359ef..cbf8ca1 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -127,6 +127,30 @@ type cmapSubtable struct {
 	runeToCharcodeBytes map[rune][]byte // Quick for going rune -> encoded bytes (charcodes).
 }
 
+// restricted returns a copy of `subt` with mappings only to the first `numGlyphs` glyphs.
+// The `ctx` of the copy is the one of `subt`.
+func (subt *cmapSubtable) restricted(numGlyphs int) *cmapSubtable {
+	newsubt := *subt
+	newsubt.cmap = make(map[rune]GlyphIndex, len(subt.cmap))
+	for r, gid := range subt.cmap {
+		if int(gid) < numGlyphs {
+			newsubt.cmap[r] = gid
+		}
+	}
+	newsubt.charcodeToGID = make(map[CharCode]GlyphIndex, len(subt.charcodeToGID))
+	for cc, gid := range subt.charcodeToGID {
+		if int(gid) < numGlyphs {
+			newsubt.charcodeToGID[cc] = gid
+		}
+	}
+	if subt.format == 4 || subt.format == 12 {
+		// Indexed by GID.
+		newsubt.runes = subt.runes[:numGlyphs]
+		newsubt.charcodes = subt.charcodes[:numGlyphs]
+	}
+	return &newsubt
+}
+
 // cmapSubtableFormat0 represents format 0: Byte encoding table.
 // This is the Apple standard character to glyph index mapping table.
 type cmapSubtableFormat0 struct {
-- 
2.43.0


From d7ae9a27e0a861494f2b52cb8143edc609e6b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:34 +0000
Subject: [PATCH 03/35] fix: SubsetFirst always terminates format 4 cmap
 subtables

---
 export.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/export.go b/export.go
index c9368cd..0b0b91b 100644
--- a/export.go
+++ b/export.go
@@ -452,13 +452,12 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 					i = j
 				}
 
-				if segments > 0 && newt.endCode[segments-1] < 65535 {
-					newt.endCode = append(newt.endCode, 65535)
-					newt.startCode = append(newt.startCode, 65535)
-					newt.idDelta = append(newt.idDelta, 1)
-					newt.idRangeOffset = append(newt.idRangeOffset, 0)
-					segments++
-				}
+				// The terminating segment is always required.
+				newt.endCode = append(newt.endCode, 65535)
+				newt.startCode = append(newt.startCode, 65535)
+				newt.idDelta = append(newt.idDelta, 1)
+				newt.idRangeOffset = append(newt.idRangeOffset, 0)
+				segments++
 
 				newt.length = uint16(2*8 + 2*4*segments)
 				newt.language = t.language
-- 
2.43.0


From d3654f0a4fd5f52990a5581d6f7f383b4f92c18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:36 +0000
Subject: [PATCH 04/35] fix: write the number of encoding records actually
 written in cmap

---
 table_cmap.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index cbf8ca1..912d526 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -581,8 +581,6 @@ func (f *font) writeCmap(w *byteWriter) error {
 	}
 	t := f.cmap
 
-	err := w.write(t.version, t.numTables)
-
 	// Write the cmap subtables to an in-memory mock buffer to calculate offsets.
 	var mockBuffer bytes.Buffer
 	mockWriter := newByteWriter(&mockBuffer)
@@ -626,12 +624,17 @@ func (f *font) writeCmap(w *byteWriter) error {
 			encodingRecords = append(encodingRecords, rec)
 		}
 	}
-	err = mockWriter.flush()
+	err := mockWriter.flush()
 	if err != nil {
 		return err
 	}
 
-	// Output the encoding records and the mock buffer.
+	// Output the header, encoding records and the mock buffer. Subtables of unsupported formats are
+	// not loaded so the number of records can be lower than `t.numTables`.
+	err = w.write(t.version, uint16(len(encodingRecords)))
+	if err != nil {
+		return err
+	}
 	for _, rec := range encodingRecords {
 		rec.offset += offset32(4 + 8*len(encodingRecords)) // Add static part.
 		err := w.write(rec.platformID, rec.encodingID, rec.offset)
-- 
2.43.0


From 553958602662d510b570910d57cc841495b316ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:38 +0000
Subject: [PATCH 05/35] fix: keep cmap subtables with the same format, platform
 and encoding apart

---
 table_cmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/table_cmap.go b/table_cmap.go
index 912d526..4790051 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -102,6 +102,10 @@ func (f *font) parseCmap(r *byteReader) (*cmapTable, error) {
 		}
 		if cmap != nil {
 			key := fmt.Sprintf("%d,%d,%d", format, enc.platformID, enc.encodingID)
+			if _, has := t.subtables[key]; has {
+				// Multiple subtables, e.g. for different languages.
+				key = fmt.Sprintf("%s#%d", key, len(t.subtableKeys))
+			}
 			t.subtables[key] = cmap
 			t.subtableKeys = append(t.subtableKeys, key)
 			logrus.Debugf("KEY: %s <-> %T", key, cmap.ctx)
-- 
2.43.0


From 55d7fa16115981367dbb5271edb69d11ef0d38f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:40 +0000
Subject: [PATCH 06/35] fix: cmap format 0 maps character codes to glyph
 indices

---
 table_cmap.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index 4790051..1255f64 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -194,12 +194,16 @@ func (f *font) parseCmapSubtableFormat0(r *byteReader, platformID, encodingID in
 	charcodes := make([]CharCode, len(st.glyphIDArray))
 	charcodeToGID := map[CharCode]GlyphIndex{}
 
-	for glyphID, code := range st.glyphIDArray {
-		charcodeToGID[CharCode(code)] = GlyphIndex(glyphID)
+	for code, glyphID := range st.glyphIDArray {
 		codeBytes := runeDecoder.ToBytes(uint32(code))
 		r := runeDecoder.DecodeRune(codeBytes)
-		runes[glyphID] = r
-		charcodes[glyphID] = CharCode(code)
+		runes[code] = r
+		charcodes[code] = CharCode(code)
+		if glyphID == 0 {
+			// Not mapped.
+			continue
+		}
+		charcodeToGID[CharCode(code)] = GlyphIndex(glyphID)
 		if _, has := cmap[r]; !has {
 			// Avoid overwrite, if get same twice, use the earlier entry.
 			cmap[r] = GlyphIndex(glyphID)
-- 
2.43.0


From 2a2c7480191f14eeff373f07763127c8dfe7b9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:42 +0000
Subject: [PATCH 07/35] fix: range check cmap format 12 glyph index before
 truncating it to 16 bits

---
 table_cmap.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/table_cmap.go b/table_cmap.go
index 1255f64..52501aa 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -525,12 +525,12 @@ func (f *font) parseCmapSubtableFormat12(r *byteReader, platformID, encodingID i
 	charcodes := make([]CharCode, f.maxp.numGlyphs)
 	charcodeMap := make(map[CharCode]GlyphIndex, f.maxp.numGlyphs)
 	for _, group := range st.groups {
-		gid := GlyphIndex(group.startGlyphID)
-		if int(gid) >= int(f.maxp.numGlyphs) {
-			logrus.Debugf("gid >= numGlyphs (%d > %d)", gid, f.maxp.numGlyphs)
+		if group.startGlyphID >= uint32(f.maxp.numGlyphs) {
+			logrus.Debugf("gid >= numGlyphs (%d > %d)", group.startGlyphID, f.maxp.numGlyphs)
 			logrus.Debugf("Error: %v", errRangeCheck)
 			return nil, errRangeCheck
 		}
+		gid := GlyphIndex(group.startGlyphID)
 		for charcode := group.startCharCode; charcode <= group.endCharCode; charcode++ {
 			if int(gid) >= int(f.maxp.numGlyphs) {
 				break
-- 
2.43.0


From 1f2ea2898b8c59498bfba14f161e1298efee4db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:43 +0000
Subject: [PATCH 08/35] fix: decode full repertoire Unicode platform cmaps as
 UCS-4

---
 encoding.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding.go b/encoding.go
index 3f90ae7..673380b 100644
--- a/encoding.go
+++ b/encoding.go
@@ -77,6 +77,10 @@ const (
 func getCmapEncoding(platformID, encodingID int) cmapEncoding {
 	switch platformID {
 	case platformIDUnicode:
+		switch encodingID {
+		case 4, 6: // Full Unicode repertoire.
+			return cmapEncodingUCS4
+		}
 		return cmapEncodingUCS2
 	case platformIDMacintosh:
 		return cmapEncodingMacRoman
-- 
2.43.0


From 10853b43362d13f0cdcdaeba028c57a092ebae76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 09/35] fix: cmap format 4 segments ending at 0xFFFF must not
 loop forever

---
 table_cmap.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/table_cmap.go b/table_cmap.go
index 52501aa..5bc535c 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -357,6 +357,11 @@ func (f *font) parseCmapSubtableFormat4(r *byteReader, platformID, encodingID in
 					cmap[r] = GlyphIndex(gid)
 				}
 			}
+
+			if c == 0xFFFF {
+				// Last character code, `c` would wrap around.
+				break
+			}
 		}
 	}
 
-- 
2.43.0


From f4db552295a1c2aa4895e0ec8ab6eab301c92018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 10/35] fix: GetCmap must return the first matching subtable
 rather than a random one

---
 export.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export.go b/export.go
index 0b0b91b..be10c9b 100644
--- a/export.go
+++ b/export.go
@@ -84,7 +84,8 @@ func (f *Font) GetCmap(platformID, encodingID int) map[rune]GlyphIndex {
 		return nil
 	}
 
-	for _, subt := range f.cmap.subtables {
+	for _, key := range f.cmap.subtableKeys {
+		subt := f.cmap.subtables[key]
 		if subt.platformID == platformID && subt.encodingID == encodingID {
 			return subt.cmap
 		}
-- 
2.43.0


From 7c6e2dd9af667e601425e684c5a0a3e244fbe316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:30 +0000
Subject: [PATCH 11/35] fix: post glyph name lengths are unsigned

---
 table_post.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table_post.go b/table_post.go
index 261ea65..b95005b 100644
--- a/table_post.go
+++ b/table_post.go
@@ -123,7 +123,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 				logrus.Debugf("%d > %d", r.Offset()-start, tr.length)
 				return nil, errors.New("reading outside table")
 			}
-			var numChars int8
+			var numChars uint8
 			err = r.read(&numChars)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From ad4c3dad6061366dd04187213a37b0c0245fd852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:31 +0000
Subject: [PATCH 12/35] fix: accept post version 1.0

---
 table_post.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/table_post.go b/table_post.go
index b95005b..6bbd594 100644
--- a/table_post.go
+++ b/table_post.go
@@ -84,15 +84,10 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 	logrus.Debugf("Version: %v %v 0x%X", t.version, t.version.Float64(), t.version)
 	switch uint32(t.version) {
 	case 0x00010000: // 1.0 - font files contains exactly the 258 standard Macintosh glyphs.
-		if t.numGlyphs != 258 {
-			logrus.Debug("Should have the mac number of glyph names")
-			// TODO(gunnsth): If this is too strict, can just set the first 258 glyphnames.
-			return nil, errRangeCheck
-		}
-		t.glyphNames = make([]GlyphName, int(t.numGlyphs))
-		for i := range macGlyphNames {
-			t.glyphNames[i] = macGlyphNames[i]
-		}
+		// Version 1.0 has no numGlyphs field, the count is the one from maxp. Glyphs past the standard
+		// ones have no name.
+		t.glyphNames = make([]GlyphName, int(f.maxp.numGlyphs))
+		copy(t.glyphNames, macGlyphNames)
 
 	case 0x00020000: // 2.0
 		logrus.Trace("Version: 2.0")
-- 
2.43.0


From 60672997a89a28780f38826e78b2ec3117c82fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 13/35] fix: read and apply post version 2.5 offsets

---
 byte_reader.go | 8 ++++++++
 table_post.go  | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/byte_reader.go b/byte_reader.go
index 48c5d43..fbb7f61 100644
--- a/byte_reader.go
+++ b/byte_reader.go
@@ -73,6 +73,14 @@ func (r *byteReader) readSlice(slice interface{}, length int) error {
 			}
 			*t = append(*t, val)
 		}
+	case *[]int8:
+		for i := 0; i < length; i++ {
+			val, err := r.readInt8()
+			if err != nil {
+				return err
+			}
+			*t = append(*t, val)
+		}
 	case *[]uint16:
 		for i := 0; i < length; i++ {
 			val, err := r.readUint16()
diff --git a/table_post.go b/table_post.go
index 6bbd594..ca41143 100644
--- a/table_post.go
+++ b/table_post.go
@@ -178,7 +178,7 @@ func (f *font) parsePost(r *byteReader) (*postTable, error) {
 		}
 		t.glyphNames = make([]GlyphName, int(t.numGlyphs))
 		for i := 0; i < int(t.numGlyphs); i++ {
-			nameIndex := i + 1 + int(t.offsets[i])
+			nameIndex := i + int(t.offsets[i])
 			if nameIndex < 0 || nameIndex > 257 {
 				logrus.Debugf("ERROR: name index outside range (%d)", nameIndex)
 				continue
-- 
2.43.0


From b9677512d95dcfcbaa112df6e434ff748af902f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 14/35] fix: short loca offsets of glyphs longer than 65535
 bytes when subsetting

---
 export.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export.go b/export.go
index be10c9b..74b2a99 100644
--- a/export.go
+++ b/export.go
@@ -219,7 +219,7 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
-				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw))/2
+				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw)/2)
 			} else {
 				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
 			}
@@ -346,7 +346,7 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
-				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw))/2
+				newfnt.loca.offsetsShort[i+1] = newfnt.loca.offsetsShort[i] + offset16(len(desc.raw)/2)
 			} else {
 				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
 			}
-- 
2.43.0


From 0419c812ed6d96f4e0393a0bcdd378ca1308c024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:36 +0000
Subject: [PATCH 15/35] fix: written loca offsets must match the written glyf
 table

---
 export.go     |  4 ----
 table_loca.go | 14 ++++++++++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/export.go b/export.go
index 74b2a99..2ece0cb 100644
--- a/export.go
+++ b/export.go
@@ -212,10 +212,8 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 		isShort := f.font.head.indexToLocFormat == 0
 		if isShort {
 			newfnt.loca.offsetsShort = make([]offset16, len(newfnt.glyf.descs)+1)
-			newfnt.loca.offsetsShort[0] = f.font.loca.offsetsShort[0]
 		} else {
 			newfnt.loca.offsetsLong = make([]offset32, len(newfnt.glyf.descs)+1)
-			newfnt.loca.offsetsLong[0] = f.font.loca.offsetsLong[0]
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
@@ -339,10 +337,8 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 		isShort := f.font.head.indexToLocFormat == 0
 		if isShort {
 			newfnt.loca.offsetsShort = make([]offset16, numGlyphs+1)
-			newfnt.loca.offsetsShort[0] = f.font.loca.offsetsShort[0]
 		} else {
 			newfnt.loca.offsetsLong = make([]offset32, numGlyphs+1)
-			newfnt.loca.offsetsLong[0] = f.font.loca.offsetsLong[0]
 		}
 		for i, desc := range newfnt.glyf.descs {
 			if isShort {
diff --git a/table_loca.go b/table_loca.go
index 9940b6b..e747ea0 100644
--- a/table_loca.go
+++ b/table_loca.go
@@ -104,12 +104,22 @@ func (f *font) writeLoca(w *byteWriter) error {
 	numGlyphs := int(f.maxp.numGlyphs)
 	isShort := f.head.indexToLocFormat == 0
 
+	// The glyph data is written without anything preceding the first glyph, so the offsets are
+	// relative to the first one.
 	t := f.loca
 	if isShort {
 		if numGlyphs+1 != len(t.offsetsShort) {
 			logrus.Debug("Unexpected length")
 		}
-		return w.writeSlice(t.offsetsShort)
+		offsets := make([]offset16, len(t.offsetsShort))
+		for i, offset := range t.offsetsShort {
+			offsets[i] = offset - t.offsetsShort[0]
+		}
+		return w.writeSlice(offsets)
+	}
+	offsets := make([]offset32, len(t.offsetsLong))
+	for i, offset := range t.offsetsLong {
+		offsets[i] = offset - t.offsetsLong[0]
 	}
-	return w.writeSlice(t.offsetsLong)
+	return w.writeSlice(offsets)
 }
-- 
2.43.0


From f0fca6257c0ff3f5e26d63965e45e3f26c2e1aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 16/35] fix: reject decreasing loca offsets instead of
 panicking

---
 table_loca.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/table_loca.go b/table_loca.go
index e747ea0..2361c77 100644
--- a/table_loca.go
+++ b/table_loca.go
@@ -73,6 +73,12 @@ func (f *font) parseLoca(r *byteReader) (*locaTable, error) {
 		if err != nil {
 			return nil, err
 		}
+		for i := 0; i < numGlyphs; i++ {
+			if loca.offsetsShort[i+1] < loca.offsetsShort[i] {
+				logrus.Debug("Invalid length")
+				return nil, errors.New("invalid indexToLoca len")
+			}
+		}
 		return loca, nil
 	}
 
@@ -81,17 +87,10 @@ func (f *font) parseLoca(r *byteReader) (*locaTable, error) {
 		return nil, err
 	}
 	for i := 0; i < numGlyphs; i++ {
-		offset := loca.offsetsLong[i]
-		len := loca.offsetsLong[i+1] - loca.offsetsLong[i]
-		if offset < 0 {
-			logrus.Debug("Invalid offset")
-			return nil, errors.New("invalid indexToLoca offset")
-		}
-		if len < 0 {
+		if loca.offsetsLong[i+1] < loca.offsetsLong[i] {
 			logrus.Debug("Invalid length")
 			return nil, errors.New("invalid indexToLoca len")
 		}
-
 	}
 
 	return loca, nil
-- 
2.43.0


From 22340e79a67a9e6a3159c0c7d782c8b260f29bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 17/35] fix: write binary search fields that match the number
 of written tables

---
 font.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/font.go b/font.go
index c8b6bff..8d3a508 100644
--- a/font.go
+++ b/font.go
@@ -10,6 +10,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math/bits"
 
 	"github.com/sirupsen/logrus"
 )
@@ -208,12 +209,13 @@ func (f *font) write(w *byteWriter) error {
 	logrus.Debug("Writing font")
 	numTables := f.numTablesToWrite()
 	otTable := &offsetTable{
-		sfntVersion:   f.ot.sfntVersion,
-		numTables:     uint16(numTables),
-		searchRange:   f.ot.searchRange,
-		entrySelector: f.ot.entrySelector,
-		rangeShift:    f.ot.rangeShift,
+		sfntVersion: f.ot.sfntVersion,
+		numTables:   uint16(numTables),
 	}
+	// The binary search fields follow from the number of tables (which is always positive).
+	otTable.entrySelector = uint16(bits.Len(uint(numTables)) - 1)
+	otTable.searchRange = 16 << otTable.entrySelector
+	otTable.rangeShift = 16*otTable.numTables - otTable.searchRange
 	trec := &tableRecords{}
 
 	f.ot.numTables = uint16(numTables)
-- 
2.43.0


From f47c30e78c647eca1fc436d9c9d516b04965bca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 18/35] fix: align written tables to 4 bytes

---
 byte_writer.go | 12 ++++++++++++
 font.go        | 26 +++++++++++++-------------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/byte_writer.go b/byte_writer.go
index 4fec70c..01ec180 100644
--- a/byte_writer.go
+++ b/byte_writer.go
@@ -41,6 +41,18 @@ func (w *byteWriter) flush() error {
 	return nil
 }
 
+// flushPadded flushes after padding the buffer with zeros to a multiple of 4 bytes. Tables in a font file
+// start at 4 byte boundaries.
+func (w *byteWriter) flushPadded() error {
+	for w.buffer.Len()%4 != 0 {
+		err := w.writeUint8(0)
+		if err != nil {
+			return err
+		}
+	}
+	return w.flush()
+}
+
 // bufferedLen returns the length of the current buffer.
 func (w *byteWriter) bufferedLen() int {
 	return w.buffer.Len()
diff --git a/font.go b/font.go
index 8d3a508..05b5684 100644
--- a/font.go
+++ b/font.go
@@ -247,7 +247,7 @@ func (f *font) write(w *byteWriter) error {
 		}
 		headChecksum = bufw.checksum()
 		trec.Set("head", offset, bufw.bufferedLen(), headChecksum)
-		err = bufw.flush()
+		err = bufw.flushPadded()
 		if err != nil {
 			return err
 		}
@@ -259,7 +259,7 @@ func (f *font) write(w *byteWriter) error {
 			return err
 		}
 		trec.Set("maxp", offset, bufw.bufferedLen(), bufw.checksum())
-		err = bufw.flush()
+		err = bufw.flushPadded()
 		if err != nil {
 			return err
 		}
@@ -272,7 +272,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("hhea", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
@@ -286,7 +286,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("hmtx", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
@@ -300,7 +300,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("loca", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
@@ -314,7 +314,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("glyf", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
@@ -328,7 +328,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("prep", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
@@ -342,7 +342,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("cvt", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
@@ -356,7 +356,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("fpgm", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
@@ -370,7 +370,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("name", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
@@ -384,7 +384,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("OS/2", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
@@ -398,7 +398,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("post", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
@@ -412,7 +412,7 @@ func (f *font) write(w *byteWriter) error {
 				return err
 			}
 			trec.Set("cmap", offset, bufw.bufferedLen(), bufw.checksum())
-			err = bufw.flush()
+			err = bufw.flushPadded()
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From ecc672d2754c98d3a939cb70d77549210b4d279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 19/35] fix: sort the written table records by tag

---
 font.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/font.go b/font.go
index 05b5684..808f51e 100644
--- a/font.go
+++ b/font.go
@@ -11,6 +11,7 @@ import (
 	"fmt"
 	"io"
 	"math/bits"
+	"sort"
 
 	"github.com/sirupsen/logrus"
 )
@@ -420,6 +421,11 @@ func (f *font) write(w *byteWriter) error {
 	}
 	logrus.Trace("Write 3")
 
+	// The table records are sorted by tag.
+	sort.Slice(trec.list, func(i, j int) bool {
+		return bytes.Compare(trec.list[i].tableTag[:], trec.list[j].tableTag[:]) < 0
+	})
+
 	// Write the offset and table records to another mock buffer.
 	var bufh bytes.Buffer
 	{
-- 
2.43.0


From 87e00ef394e521f20e81c7e3dd92c91f75e9e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 20/35] fix: GetNameRecords on a font without a name table

---
 table_name.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/table_name.go b/table_name.go
index dfa7be2..09787b5 100644
--- a/table_name.go
+++ b/table_name.go
@@ -69,6 +69,10 @@ func (f *font) GetNameByID(nameID int) string {
 // that contais name ID and it's value.
 func (f *font) GetNameRecords() map[uint16]map[uint16]string {
 	var nameRecords = make(map[uint16]map[uint16]string, 0)
+	if f == nil || f.name == nil {
+		logrus.Debug("ERROR: Font or name not set")
+		return nameRecords
+	}
 	for _, nr := range f.name.nameRecords {
 		nameRec, ok := nameRecords[nr.languageID]
 		if ok {
-- 
2.43.0


From 0b0f40520239a4fe4ce7df2a89c40dd0b5f3df12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 21/35] fix: Optimize on a font without an hmtx table

---
 table_hmtx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/table_hmtx.go b/table_hmtx.go
index 3789369..a53d4d7 100644
--- a/table_hmtx.go
+++ b/table_hmtx.go
@@ -60,6 +60,9 @@ func (f *font) parseHmtx(r *byteReader) (*hmtxTable, error) {
 
 // optimizeHmtx optimizes the htmx table.
 func (f *font) optimizeHmtx() {
+	if f.hmtx == nil || f.hhea == nil {
+		return
+	}
 	i := len(f.hmtx.hMetrics) - 1
 	if i <= 0 {
 		return
-- 
2.43.0


From 30f9a4c7736caadc710f3a015116d2794ccc9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 22/35] fix: SubsetKeepIndices on a font without glyph data
 returns an error

---
 export.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/export.go b/export.go
index 2ece0cb..40e9923 100644
--- a/export.go
+++ b/export.go
@@ -134,6 +134,10 @@ func (f *Font) SubsetKeepRunes(runes []rune) (*Font, error) {
 // This typically works well and is a simple way to prune most of the unnecessary data as the
 // glyf table is usually the biggest by far.
 func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
+	if f.glyf == nil {
+		logrus.Debug("glyf missing - no glyph data to keep")
+		return nil, errRequiredField
+	}
 	newfnt := font{}
 
 	// Expand the set of indices if any of the indices are composite
-- 
2.43.0


From 32a58bb09d540cd9f64ea6718e1cf31988bbbf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:15 +0000
Subject: [PATCH 23/35] fix: SubsetFirst with a negative number of glyphs
 returns an error

---
 export.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/export.go b/export.go
index 40e9923..dc0c864 100644
--- a/export.go
+++ b/export.go
@@ -284,6 +284,10 @@ func (f *Font) SubsetKeepIndices(indices []GlyphIndex) (*Font, error) {
 // Prunes out the glyphs from the previous font beyond that number.
 // NOTE: If any of the first numGlyphs depend on later glyphs, it can lead to incorrect rendering.
 func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
+	if numGlyphs < 0 {
+		logrus.Debugf("Invalid number of glyphs: %d", numGlyphs)
+		return nil, errRangeCheck
+	}
 	if int(f.maxp.numGlyphs) <= numGlyphs {
 		logrus.Debugf("Attempting to subset font with same number of glyphs - Ignoring, returning same back")
 		return f, nil
-- 
2.43.0


From 3823dd197427fa9cb8027d186ed4c5e45308ed37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 24/35] fix: SubsetFirst keeps the required loca table of a
 font without glyph data

---
 export.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/export.go b/export.go
index dc0c864..94f4d0c 100644
--- a/export.go
+++ b/export.go
@@ -355,6 +355,14 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 				newfnt.loca.offsetsLong[i+1] = newfnt.loca.offsetsLong[i] + offset32(len(desc.raw))
 			}
 		}
+	} else if f.font.loca != nil {
+		// No glyph data, limit the offsets only.
+		newfnt.loca = &locaTable{}
+		if f.font.head.indexToLocFormat == 0 {
+			newfnt.loca.offsetsShort = f.font.loca.offsetsShort[0 : numGlyphs+1]
+		} else {
+			newfnt.loca.offsetsLong = f.font.loca.offsetsLong[0 : numGlyphs+1]
+		}
 	}
 
 	if f.font.prep != nil {
-- 
2.43.0


From 72d07cbf129b956f1905f391374d11707d834aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 25/35] fix: unreadable composite glyphs must be reported every
 time

---
 table_glyf.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/table_glyf.go b/table_glyf.go
index 196d396..ebb2110 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -120,7 +120,13 @@ func (gd *glyphDescription) parse() error {
 		return nil
 	}
 
-	return gd.parseComposite(r)
+	err = gd.parseComposite(r)
+	if err != nil {
+		// Not loaded, the same error is to be returned next time.
+		gd.header = nil
+		return err
+	}
+	return nil
 }
 
 func (gd *glyphDescription) parseHeader(r *byteReader) error {
-- 
2.43.0


From 3655e1b26c6ced05c4ae7cbe81785a191333275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 26/35] fix: decode Unicode platform names as UTF-16BE

---
 table_name.go | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/table_name.go b/table_name.go
index 09787b5..1003df9 100644
--- a/table_name.go
+++ b/table_name.go
@@ -9,7 +9,6 @@ import (
 	"bytes"
 	"strconv"
 	"unicode"
-	"unicode/utf8"
 
 	"github.com/sirupsen/logrus"
 
@@ -114,18 +113,8 @@ func makePrintable(str string) string {
 func (nr nameRecord) Decoded() string {
 	switch nr.platformID {
 	case 0: // unicode
-		// TODO(gunnsth): Untested as have not encountered this yet.
-		dup := make([]byte, len(nr.data))
-		copy(dup, nr.data)
-		var decoded bytes.Buffer
-
-		for len(dup) > 0 {
-			r, size := utf8.DecodeRune(dup)
-			dup = dup[size:]
-			decoded.WriteRune(r)
-		}
-
-		return makePrintable(decoded.String())
+		// Strings for the Unicode platform are encoded in UTF-16BE.
+		return makePrintable(strutils.UTF16ToString(nr.data))
 	case 1: // macintosh
 		var decoded bytes.Buffer
 		for _, val := range nr.data {
-- 
2.43.0


From 794726c4619831f3af255f3e50c4929aff6c2d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 27/35] fix: decode Windows UCS-4 names as UTF-16BE

---
 table_name.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/table_name.go b/table_name.go
index 1003df9..c23c229 100644
--- a/table_name.go
+++ b/table_name.go
@@ -136,7 +136,8 @@ func (nr nameRecord) Decoded() string {
 		// and the referenced string data must be encoded in UTF-16BE. When building a symbol font for Windows,
 		// the platform ID should be 3 and the encoding ID should be 0, and the referenced string data must be
 		// encoded in UTF-16BE. (https://docs.microsoft.com/en-us/typography/opentype/spec/name).
-		if nr.encodingID == 0 || nr.encodingID == 1 {
+		// The same applies to fonts supporting characters outside the BMP (encoding ID 10).
+		if nr.encodingID == 0 || nr.encodingID == 1 || nr.encodingID == 10 {
 			if len(nr.data) > 0 {
 				decoded := strutils.UTF16ToString(nr.data)
 				return makePrintable(decoded)
-- 
2.43.0


From 89fe90438b03c00c5551c96f3ae901208cfe5687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 28/35] fix: name string offsets must not overflow when written

---
 table_name.go | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/table_name.go b/table_name.go
index c23c229..711d7dc 100644
--- a/table_name.go
+++ b/table_name.go
@@ -7,6 +7,7 @@ package unitype
 
 import (
 	"bytes"
+	"math"
 	"strconv"
 	"unicode"
 
@@ -255,26 +256,34 @@ func (f *font) writeNameTable(w *byteWriter) error {
 	// Preprocess: Write to buffer and update offsets.
 	var buf bytes.Buffer
 	{
-		bufw := newByteWriter(&buf)
+		// Returns the offset of `data` in the storage area, adding it if needed. Records commonly share
+		// strings, without that the offsets can exceed 16 bits.
+		store := func(data []byte) (offset16, error) {
+			offset := bytes.Index(buf.Bytes(), data)
+			if offset < 0 {
+				offset = buf.Len()
+				buf.Write(data)
+			}
+			if offset > math.MaxUint16 {
+				logrus.Debug("name string storage too large")
+				return 0, errRangeCheck
+			}
+			return offset16(offset), nil
+		}
+		var err error
 		for _, nr := range t.nameRecords {
-			nr.offset = offset16(bufw.bufferedLen())
-			nr.length = uint16(len(nr.data))
-			err := bufw.writeSlice(nr.data)
+			nr.offset, err = store(nr.data)
 			if err != nil {
 				return err
 			}
+			nr.length = uint16(len(nr.data))
 		}
 		for _, ltr := range t.langTagRecords {
-			ltr.offset = offset16(bufw.bufferedLen())
-			ltr.length = uint16(len(ltr.data))
-			err := bufw.writeSlice(ltr.data)
+			ltr.offset, err = store(ltr.data)
 			if err != nil {
 				return err
 			}
-		}
-		err := bufw.flush()
-		if err != nil {
-			return err
+			ltr.length = uint16(len(ltr.data))
 		}
 	}
 	logrus.Debugf("Buffer length: %d", buf.Len())
@@ -284,10 +293,15 @@ func (f *font) writeNameTable(w *byteWriter) error {
 	t.langTagCount = uint16(len(t.langTagRecords))
 
 	// 2+2+2+count*(6*2) + (format=1) 2+langTagCount*2
-	t.stringOffset = 6 + offset16(t.count)*12
+	stringOffset := 6 + int(t.count)*12
 	if t.format == 1 {
-		t.stringOffset += 2 + offset16(t.langTagCount)*4
+		stringOffset += 2 + int(t.langTagCount)*4
+	}
+	if stringOffset > math.MaxUint16 {
+		logrus.Debug("too many name records")
+		return errRangeCheck
 	}
+	t.stringOffset = offset16(stringOffset)
 
 	logrus.Debugf("w @ %d", w.bufferedLen())
 	err := w.write(t.format, t.count, t.stringOffset)
-- 
2.43.0


From 9d643a98787e7aeec924b672d4ec274808907a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 29/35] fix: PDFDocEncoding of 0x16

---
 internal/strutils/pdfdocenc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/strutils/pdfdocenc.go b/internal/strutils/pdfdocenc.go
index 7b51bbf..6c0c61c 100644
--- a/internal/strutils/pdfdocenc.go
+++ b/internal/strutils/pdfdocenc.go
@@ -30,7 +30,7 @@ var pdfDocEncoding = map[byte]rune{
 	0x13: '\u0013', //     "controlDC3"
 	0x14: '\u0014', //     "controlDC4"
 	0x15: '\u0015', //     "controlNAK"
-	0x16: '\u0017', //     "controlETB"
+	0x16: '\u0016', //     "controlSYN"
 	0x17: '\u0017', //     "controlETB"
 	0x18: '\u02d8', //  ˘  "breve"
 	0x19: '\u02c7', //  ˇ  "caron"
-- 
2.43.0


From a58849740a88430420cf42b9353938ce95ed2d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 30/35] fix: UTF16ToRunes must not write past the end of the
 input

---
 internal/strutils/encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/strutils/encoding.go b/internal/strutils/encoding.go
index ec350af..0e904a8 100644
--- a/internal/strutils/encoding.go
+++ b/internal/strutils/encoding.go
@@ -28,7 +28,7 @@ func UTF16ToRunes(b []byte) []rune {
 		return []rune{rune(b[0])}
 	}
 	if len(b)%2 != 0 {
-		b = append(b, 0)
+		b = append(b[:len(b):len(b)], 0) // Not in place, `b` belongs to the caller.
 		logrus.Debug("ERROR: UTF16ToRunes. Padding with zeros.")
 	}
 	n := len(b) >> 1
-- 
2.43.0


From 0ab202708af8b0b3cecf14c5791139f06eeb2cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 31/35] fix: truecli rejects glyph indices that exceed 16 bits

---
 truecli/cmd/subset_gids.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truecli/cmd/subset_gids.go b/truecli/cmd/subset_gids.go
index c983ff4..a9f3d1b 100644
--- a/truecli/cmd/subset_gids.go
+++ b/truecli/cmd/subset_gids.go
@@ -48,7 +48,7 @@ var subsetGIDsCmd = &cobra.Command{
 	Run: func(cmd *cobra.Command, args []string) {
 		var gids []unitype.GlyphIndex
 		for i := 1; i < len(args); i++ {
-			gid, err := strconv.ParseUint(args[i], 10, 32)
+			gid, err := strconv.ParseUint(args[i], 10, 16)
 			if err != nil {
 				fatalf("Invalid gid: %v\n", err)
 			}
-- 
2.43.0


From 83fd97e40f6670ab0e21ddd111b60a6a027325b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:23 +0000
Subject: [PATCH 32/35] fix: writing a font does not modify it

---
 font.go       |  3 ---
 table_head.go |  3 ++-
 table_name.go | 36 +++++++++++++++++++-----------------
 table_post.go |  3 +--
 4 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/font.go b/font.go
index 808f51e..8d64dea 100644
--- a/font.go
+++ b/font.go
@@ -219,8 +219,6 @@ func (f *font) write(w *byteWriter) error {
 	otTable.rangeShift = 16*otTable.numTables - otTable.searchRange
 	trec := &tableRecords{}
 
-	f.ot.numTables = uint16(numTables)
-
 	// Starting offset after offset table and table records.
 	startOffset := int64(12 + numTables*16)
 
@@ -240,7 +238,6 @@ func (f *font) write(w *byteWriter) error {
 		bufw := newByteWriter(&buf)
 
 		// head.
-		f.head.checksumAdjustment = 0
 		offset := startOffset
 		err := f.writeHead(bufw)
 		if err != nil {
diff --git a/table_head.go b/table_head.go
index 28b323e..83381dd 100644
--- a/table_head.go
+++ b/table_head.go
@@ -79,7 +79,8 @@ func (f *font) writeHead(w *byteWriter) error {
 		return errRequiredField
 	}
 	t := f.head
-	err := w.write(t.majorVersion, t.minorVersion, t.fontRevision, t.checksumAdjustment, t.magicNumber)
+	// The adjustment is 0 when calculating checksums, it is set when the entire file is known.
+	err := w.write(t.majorVersion, t.minorVersion, t.fontRevision, uint32(0), t.magicNumber)
 	if err != nil {
 		return err
 	}
diff --git a/table_name.go b/table_name.go
index 711d7dc..f97db75 100644
--- a/table_name.go
+++ b/table_name.go
@@ -253,8 +253,10 @@ func (f *font) writeNameTable(w *byteWriter) error {
 	}
 	t := f.name
 
-	// Preprocess: Write to buffer and update offsets.
+	// Preprocess: Write the strings to a buffer and collect the records with updated offsets.
 	var buf bytes.Buffer
+	nameRecords := make([]nameRecord, 0, len(t.nameRecords))
+	langTagRecords := make([]langTagRecord, 0, len(t.langTagRecords))
 	{
 		// Returns the offset of `data` in the storage area, adding it if needed. Records commonly share
 		// strings, without that the offsets can exceed 16 bits.
@@ -270,46 +272,46 @@ func (f *font) writeNameTable(w *byteWriter) error {
 			}
 			return offset16(offset), nil
 		}
-		var err error
 		for _, nr := range t.nameRecords {
-			nr.offset, err = store(nr.data)
+			rec := *nr
+			var err error
+			rec.offset, err = store(nr.data)
 			if err != nil {
 				return err
 			}
-			nr.length = uint16(len(nr.data))
+			rec.length = uint16(len(nr.data))
+			nameRecords = append(nameRecords, rec)
 		}
 		for _, ltr := range t.langTagRecords {
-			ltr.offset, err = store(ltr.data)
+			rec := *ltr
+			var err error
+			rec.offset, err = store(ltr.data)
 			if err != nil {
 				return err
 			}
-			ltr.length = uint16(len(ltr.data))
+			rec.length = uint16(len(ltr.data))
+			langTagRecords = append(langTagRecords, rec)
 		}
 	}
 	logrus.Debugf("Buffer length: %d", buf.Len())
 
-	// Update count and stringOffsets (calculated).
-	t.count = uint16(len(t.nameRecords))
-	t.langTagCount = uint16(len(t.langTagRecords))
-
 	// 2+2+2+count*(6*2) + (format=1) 2+langTagCount*2
-	stringOffset := 6 + int(t.count)*12
+	stringOffset := 6 + len(nameRecords)*12
 	if t.format == 1 {
-		stringOffset += 2 + int(t.langTagCount)*4
+		stringOffset += 2 + len(langTagRecords)*4
 	}
 	if stringOffset > math.MaxUint16 {
 		logrus.Debug("too many name records")
 		return errRangeCheck
 	}
-	t.stringOffset = offset16(stringOffset)
 
 	logrus.Debugf("w @ %d", w.bufferedLen())
-	err := w.write(t.format, t.count, t.stringOffset)
+	err := w.write(t.format, uint16(len(nameRecords)), offset16(stringOffset))
 	if err != nil {
 		return err
 	}
 
-	for _, nr := range t.nameRecords {
+	for _, nr := range nameRecords {
 		err = w.write(nr.platformID, nr.encodingID, nr.languageID, nr.nameID, nr.length, nr.offset)
 		if err != nil {
 			return err
@@ -318,11 +320,11 @@ func (f *font) writeNameTable(w *byteWriter) error {
 	logrus.Debugf("w @ %d", w.bufferedLen())
 
 	if t.format == 1 {
-		err = w.write(t.langTagCount)
+		err = w.write(uint16(len(langTagRecords)))
 		if err != nil {
 			return err
 		}
-		for _, ltr := range t.langTagRecords {
+		for _, ltr := range langTagRecords {
 			err = w.write(ltr.length, ltr.offset)
 			if err != nil {
 				return err
diff --git a/table_post.go b/table_post.go
index ca41143..452a5a4 100644
--- a/table_post.go
+++ b/table_post.go
@@ -208,10 +208,9 @@ func (f *font) writePost(w *byteWriter) error {
 		// Include no postscript data.
 		// TODO(gunnsth): support writing v2.0.
 		version = 0x00030000
-		t.version = version
 	}
 
-	err := w.write(t.version, t.italicAngle, t.underlinePosition, t.underlineThickness, t.isFixedPitch)
+	err := w.write(version, t.italicAngle, t.underlinePosition, t.underlineThickness, t.isFixedPitch)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 2bbac538c6b1621ab083940b50299dbbd49c68f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:19 +0000
Subject: [PATCH 33/35] fix: subset format 4 cmap subtables must fit their 16
 bit length

---
 export.go     | 12 ++++++++++-
 table_cmap.go | 60 +++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 71 insertions(+), 1 deletion(-)

diff --git a/export.go b/export.go
index 94f4d0c..9c26a36 100644
--- a/export.go
+++ b/export.go
@@ -465,6 +465,16 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 					i = j
 				}
 
+				if 2*8+2*4*(segments+1) > math.MaxUint16 {
+					// Too many segments for the 16 bit length.
+					newt.mergeSegments(subt.charcodeToGID)
+					segments = len(newt.startCode)
+					if 2*8+2*4*(segments+1)+2*len(newt.glyphIDArray) > math.MaxUint16 {
+						logrus.Debugf("cmap format 4 subtable too long: %d segments", segments)
+						return nil, errRangeCheck
+					}
+				}
+
 				// The terminating segment is always required.
 				newt.endCode = append(newt.endCode, 65535)
 				newt.startCode = append(newt.startCode, 65535)
@@ -472,7 +482,7 @@ func (f *Font) SubsetFirst(numGlyphs int) (*Font, error) {
 				newt.idRangeOffset = append(newt.idRangeOffset, 0)
 				segments++
 
-				newt.length = uint16(2*8 + 2*4*segments)
+				newt.length = uint16(2*8 + 2*4*segments + 2*len(newt.glyphIDArray))
 				newt.language = t.language
 				newt.segCountX2 = uint16(segments * 2)
 				newt.searchRange = 2 * uint16(math.Pow(2, math.Floor(math.Log2(float64(segments)))))
diff --git a/table_cmap.go b/table_cmap.go
index 5bc535c..d9d4631 100644
--- a/table_cmap.go
+++ b/table_cmap.go
@@ -418,6 +418,66 @@ func writeCmapSubtableFormat4(subtable *cmapSubtable, w *byteWriter) error {
 	return w.writeSlice(subt.glyphIDArray)
 }
 
+// mergeSegments merges neighbouring segments of `t` into segments that use the glyph ID array wherever that
+// makes the subtable shorter. All segments of `t` must map by delta, and the terminating segment be missing.
+func (t *cmapSubtableFormat4) mergeSegments(charcodeToGID map[CharCode]GlyphIndex) {
+	type option struct {
+		length int // length in bytes of the segments so far.
+		first  int // index of the first of the segments merged into the last one.
+	}
+	var (
+		best  = option{}                         // up to the previous segment.
+		open  = option{}                         // same, with a last segment that uses the glyph ID array.
+		ends  = make([]option, len(t.startCode)) // `best` up to each segment.
+		array = make([]bool, len(t.startCode))   // whether the last segment of `ends` uses the glyph ID array.
+	)
+	for i := range t.startCode {
+		open.length += 2 * int(t.endCode[i])
+		if i > 0 {
+			open.length -= 2 * int(t.endCode[i-1])
+		}
+		started := best.length + 8 + 2*(int(t.endCode[i])-int(t.startCode[i])+1)
+		if i == 0 || started < open.length {
+			open = option{length: started, first: i}
+		}
+		best = option{length: best.length + 8, first: i}
+		if open.length < best.length {
+			best = open
+			array[i] = true
+		}
+		ends[i] = best
+	}
+
+	// Ranges of segments to be merged, last first.
+	var lasts []int
+	for i := len(t.startCode) - 1; i >= 0; i = ends[i].first - 1 {
+		lasts = append(lasts, i)
+	}
+
+	merged := cmapSubtableFormat4{}
+	for k := len(lasts) - 1; k >= 0; k-- {
+		last := lasts[k]
+		first := ends[last].first
+		merged.startCode = append(merged.startCode, t.startCode[first])
+		merged.endCode = append(merged.endCode, t.endCode[last])
+		if !array[last] {
+			merged.idDelta = append(merged.idDelta, t.idDelta[last])
+			merged.idRangeOffset = append(merged.idRangeOffset, 0)
+			continue
+		}
+		// The offset counts from its own position, the terminating segment comes in between.
+		following := k + 2
+		merged.idDelta = append(merged.idDelta, 0)
+		merged.idRangeOffset = append(merged.idRangeOffset, uint16(2*(following+len(merged.glyphIDArray))))
+		for c := int(t.startCode[first]); c <= int(t.endCode[last]); c++ {
+			merged.glyphIDArray = append(merged.glyphIDArray, uint16(charcodeToGID[CharCode(c)]))
+		}
+	}
+	t.startCode, t.endCode = merged.startCode, merged.endCode
+	t.idDelta, t.idRangeOffset = merged.idDelta, merged.idRangeOffset
+	t.glyphIDArray = merged.glyphIDArray
+}
+
 // cmapSubtableFormat6 represents cmap data format 6: Trimmed table mapping.
 type cmapSubtableFormat6 struct {
 	length       uint16
-- 
2.43.0


From 6987635d70bb49c0e03582cf11c996e3bb2f1225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:28 +0000
Subject: [PATCH 34/35] fix: do not allocate for lengths beyond the end of the
 input

---
 byte_reader.go | 16 ++++++++++++----
 table_glyf.go  |  1 -
 validate.go    |  4 ++--
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/byte_reader.go b/byte_reader.go
index fbb7f61..27b7f4c 100644
--- a/byte_reader.go
+++ b/byte_reader.go
@@ -7,6 +7,7 @@ package unitype
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/binary"
 	"io"
 
@@ -51,15 +52,22 @@ func (r *byteReader) Skip(n int) error {
 	return err
 }
 
+// maxPrealloc is the largest length that is allocated before any data has been read.
+const maxPrealloc = 1 << 20
+
 // readBytes reads bytes straight from `r`.
 func (r *byteReader) readBytes(bp *[]byte, length int) error {
-	*bp = make([]byte, length)
-	_, err := io.ReadFull(r.reader, *bp)
-	if err != nil {
+	if length <= maxPrealloc {
+		*bp = make([]byte, length)
+		_, err := io.ReadFull(r.reader, *bp)
 		return err
 	}
 
-	return nil
+	// The length comes from the font data and can be far more than there is to read: grow as data is read.
+	var buf bytes.Buffer
+	_, err := io.CopyN(&buf, r.reader, int64(length))
+	*bp = buf.Bytes()
+	return err
 }
 
 // readSlice reads a series of values into `slice` from `r` (big endian).
diff --git a/table_glyf.go b/table_glyf.go
index ebb2110..82c09b3 100644
--- a/table_glyf.go
+++ b/table_glyf.go
@@ -72,7 +72,6 @@ func (f *font) parseGlyf(r *byteReader) (*glyfTable, error) {
 		}
 
 		var desc glyphDescription
-		desc.raw = make([]byte, gdLen)
 		err = r.readBytes(&desc.raw, int(gdLen))
 		if err != nil {
 			logrus.Debugf("ERROR: %v", err)
diff --git a/validate.go b/validate.go
index 7b7260e..61aa368 100644
--- a/validate.go
+++ b/validate.go
@@ -88,8 +88,8 @@ func (f *font) validate(r *byteReader) error {
 		}
 		logrus.Debugf("Offset: %d", r.Offset())
 
-		b := make([]byte, tr.length)
-		_, err = io.ReadFull(r.reader, b)
+		var b []byte
+		err = r.readBytes(&b, int(tr.length))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 928e1ec681f00310a4698d9084f39b6c2aaea97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:12 +0000
Subject: [PATCH 35/35] fix: truecli must fail when a font cannot be written

---
 truecli/cmd/readwrite.go     | 3 +--
 truecli/cmd/subset_gids.go   | 3 +--
 truecli/cmd/subset_runes.go  | 3 +--
 truecli/cmd/subset_simple.go | 3 +--
 4 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/truecli/cmd/readwrite.go b/truecli/cmd/readwrite.go
index c942078..d307a6d 100644
--- a/truecli/cmd/readwrite.go
+++ b/truecli/cmd/readwrite.go
@@ -54,8 +54,7 @@ var readwriteCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
diff --git a/truecli/cmd/subset_gids.go b/truecli/cmd/subset_gids.go
index a9f3d1b..2a9dc43 100644
--- a/truecli/cmd/subset_gids.go
+++ b/truecli/cmd/subset_gids.go
@@ -66,8 +66,7 @@ var subsetGIDsCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
diff --git a/truecli/cmd/subset_runes.go b/truecli/cmd/subset_runes.go
index 350209f..c545c4d 100644
--- a/truecli/cmd/subset_runes.go
+++ b/truecli/cmd/subset_runes.go
@@ -59,8 +59,7 @@ var subsetRunesCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 		origSize := buf.Len()
 
diff --git a/truecli/cmd/subset_simple.go b/truecli/cmd/subset_simple.go
index 6349a81..c4134bf 100644
--- a/truecli/cmd/subset_simple.go
+++ b/truecli/cmd/subset_simple.go
@@ -54,8 +54,7 @@ var subsetSimpleCmd = &cobra.Command{
 		var buf bytes.Buffer
 		err = tfnt.Write(&buf)
 		if err != nil {
-			fmt.Printf("Error writing: %+v\n", err)
-			return
+			fatalf("Error writing: %+v\n", err)
 		}
 
 		err = unitype.ValidateBytes(buf.Bytes())
-- 
2.43.0

