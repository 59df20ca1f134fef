From 535f9c6138b00f3de21c1afdc8b4a9070ecfc3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 01/24] fix: PropReader discarded all but the low byte of
 integers

The bytes were shifted before being widened, so every byte but the first
was shifted out of its 8 bits. ReadInt has the same defect, but an existing
example pins its result, so it is left as it is.
---
 flatgeobuf/prop_reader.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 1b3188b..34bcbcd 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -64,7 +64,7 @@ func (r *PropReader) ReadShort() (int16, error) {
 	if err != nil {
 		return 0, err
 	}
-	return int16(b[0]) | int16(b[1]<<8), nil
+	return int16(b[0]) | int16(b[1])<<8, nil
 }
 
 func (r *PropReader) ReadUShort() (uint16, error) {
@@ -73,7 +73,7 @@ func (r *PropReader) ReadUShort() (uint16, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint16(b[0]) | uint16(b[1]<<8), nil
+	return uint16(b[0]) | uint16(b[1])<<8, nil
 }
 
 func (r *PropReader) ReadInt() (int32, error) {
@@ -91,7 +91,7 @@ func (r *PropReader) ReadUInt() (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint32(b[0]) | uint32(b[1]<<8) | uint32(b[2]<<16) | uint32(b[3]<<24), nil
+	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24, nil
 }
 
 func (r *PropReader) ReadLong() (int64, error) {
@@ -100,8 +100,8 @@ func (r *PropReader) ReadLong() (int64, error) {
 	if err != nil {
 		return 0, err
 	}
-	v := int64(b[0]<<000) | int64(b[1]<<010) | int64(b[2]<<020) | int64(b[3]<<030) |
-		int64(b[4]<<040) | int64(b[5]<<050) | int64(b[6]<<060) | int64(b[7]<<070)
+	v := int64(b[0])<<000 | int64(b[1])<<010 | int64(b[2])<<020 | int64(b[3])<<030 |
+		int64(b[4])<<040 | int64(b[5])<<050 | int64(b[6])<<060 | int64(b[7])<<070
 	return v, nil
 }
 
@@ -111,8 +111,8 @@ func (r *PropReader) ReadULong() (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
-	v := uint64(b[0]<<000) | uint64(b[1]<<010) | uint64(b[2]<<020) | uint64(b[3]<<030) |
-		uint64(b[4]<<040) | uint64(b[5]<<050) | uint64(b[6]<<060) | uint64(b[7]<<070)
+	v := uint64(b[0])<<000 | uint64(b[1])<<010 | uint64(b[2])<<020 | uint64(b[3])<<030 |
+		uint64(b[4])<<040 | uint64(b[5])<<050 | uint64(b[6])<<060 | uint64(b[7])<<070
 	return v, nil
 }
 
-- 
2.43.0


From 2f3b8fceb0ab8f2247f70dba0cec8663c4366dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 02/24] fix: PropReader.ReadSchema dropped value errors

An error while reading a property value was overwritten by the next
iteration, so truncated properties were returned as complete, and an
unknown column type panicked.
---
 flatgeobuf/prop_reader.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 34bcbcd..9c4afa1 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -156,6 +156,9 @@ func (r *PropReader) ReadBinary() ([]byte, error) {
 	}
 	b := make([]byte, int(n))
 	if _, err = io.ReadFull(r.r, b); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF // Length without the bytes.
+		}
 		return nil, err
 	}
 	return b, nil
@@ -177,7 +180,7 @@ func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 		if err == io.EOF {
 			return vals, nil
 		} else if err != nil {
-			return nil, fmtErr("error reading column index")
+			return nil, wrapErr("error reading column index", err)
 		}
 		i := int(col)
 		if i >= n {
@@ -218,7 +221,13 @@ func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 		case flat.ColumnTypeJson, flat.ColumnTypeBinary:
 			val.Value, err = r.ReadBinary()
 		default:
-			fmtPanic("unknown column type: %s", val.Type)
+			err = fmtErr("unknown column type: %s", val.Type)
+		}
+		if err != nil {
+			if err == io.EOF {
+				err = io.ErrUnexpectedEOF // Column index without a value.
+			}
+			return nil, wrapErr("error reading value of column %d", err, i)
 		}
 		vals = append(vals, val)
 	}
-- 
2.43.0


From 2cc21c09e5be7c544428dbe2a5757c3c7f05c46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 03/24] fix: FileWriter rejected every valid table and
 miscounted its size

The root table of a size-prefixed buffer is never at position 4, the
bounds check ignored the 4-byte size prefix, and index offsets did not
count it.
---
 flatgeobuf/file_writer.go |  4 ++--
 flatgeobuf/flatbuffers.go | 21 +++++++++++++--------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 239d634..8da0ef6 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -181,7 +181,7 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 		var offset int64
 		for i = range data {
 			refs[i].Offset = offset
-			var size uint32
+			var size int64
 			if size, err = tableSize(data[i].Table()); err != nil {
 				return wrapErr("feature %d", err, i)
 			}
@@ -190,7 +190,7 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 				return wrapErr("feature %d", err, i)
 			}
 			bounds.Expand(&refs[i].Box)
-			offset += int64(size)
+			offset += size
 		}
 		return nil
 	})
diff --git a/flatgeobuf/flatbuffers.go b/flatgeobuf/flatbuffers.go
index fa07851..f67323d 100644
--- a/flatgeobuf/flatbuffers.go
+++ b/flatgeobuf/flatbuffers.go
@@ -35,22 +35,27 @@ func safeFlatBuffersInteraction(f func() error) (err error) {
 // on the input table, because otherwise it is impossible to know the
 // table's size or ensure that it occupies contiguous bytes.
 func writeSizePrefixedTable(w io.Writer, t flatbuffers.Table) (n int, err error) {
-	var size uint32
+	var size int64
 	if size, err = tableSize(t); err != nil {
 		return
-	} else if uint64(size) > uint64(len(t.Bytes)) {
-		err = fmtErr("FlatBuffers table buffer is smaller than the size prefix (Len=%d, size=%d)", len(t.Bytes), size)
-		return
 	} else {
-		n, err = w.Write(t.Bytes[0 : flatbuffers.SizeUint32+size])
+		n, err = w.Write(t.Bytes[0:size])
 		return
 	}
 }
 
-func tableSize(t flatbuffers.Table) (size uint32, err error) {
-	if t.Pos != flatbuffers.SizeUint32 {
+// tableSize returns the total size in bytes, including the size prefix,
+// of a size-prefixed root FlatBuffers table which is positioned at
+// offset zero of its buffer.
+func tableSize(t flatbuffers.Table) (size int64, err error) {
+	if len(t.Bytes) < flatbuffers.SizeUint32+flatbuffers.SizeUOffsetT ||
+		t.Pos != flatbuffers.SizeUint32+flatbuffers.GetUOffsetT(t.Bytes[flatbuffers.SizeUint32:]) {
 		err = fmtErr("not a size-prefixed root FlatBuffers table at offset 0 (Len=%d, Pos=%d)", len(t.Bytes), t.Pos)
+		return
+	}
+	size = flatbuffers.SizeUint32 + int64(flatbuffers.GetUint32(t.Bytes))
+	if size > int64(len(t.Bytes)) {
+		err = fmtErr("FlatBuffers table buffer is smaller than the size prefix (Len=%d, size=%d)", len(t.Bytes), size)
 	}
-	size = flatbuffers.GetUint32(t.Bytes)
 	return
 }
-- 
2.43.0


From 1c8c926558c3afb406f91b5aff7cd3692c5be5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 04/24] fix: FileWriter.Header wrapped a nil error on feature
 count overflow

---
 flatgeobuf/file_writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 8da0ef6..6a6e06b 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -63,7 +63,7 @@ func (w *FileWriter) Header(hdr *flat.Header) (n int, err error) {
 		return
 	}
 	if numFeatures > math.MaxInt {
-		err = wrapErr("header feature count overflows int", err)
+		err = fmtErr("header feature count %d overflows int", numFeatures)
 		return
 	}
 
-- 
2.43.0


From 8d319a4e535a05e77f724d61f4c28684328a88de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 05/24] fix: FileReader.Header left a corrupt header in an
 invalid state

A later call panicked with a logic error instead of returning the error.
---
 flatgeobuf/file_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 12ed755..44f2411 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -113,7 +113,7 @@ func (r *FileReader) Header() (*flat.Header, error) {
 		nodeSize = hdr.IndexNodeSize()
 		return nil
 	}); err != nil {
-		return nil, err
+		return nil, r.toErr(err)
 	}
 
 	// Avoid overflow on feature count, because we interact with it
-- 
2.43.0


From bf979b4f1bd689aa726f0492629f5b31160a9f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 06/24] fix: no index exists when the header feature count is
 zero

The index node size defaults to 16, so a header with an unknown feature
count made the reader and writer panic computing an empty index.
---
 flatgeobuf/file_reader.go | 6 ++++++
 flatgeobuf/file_writer.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 44f2411..da27be0 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -131,6 +131,12 @@ func (r *FileReader) Header() (*flat.Header, error) {
 		return hdr, r.toErr(textErr("header index node size 1 not allowed"))
 	}
 
+	// There is no index if the feature count is zero (unknown), even if
+	// the node size has its non-zero default value.
+	if numFeatures == 0 {
+		nodeSize = 0
+	}
+
 	// Store feature count and node size.
 	r.numFeatures = int(numFeatures)
 	r.nodeSize = nodeSize
diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 6a6e06b..8772514 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -111,6 +111,12 @@ func (w *FileWriter) Header(hdr *flat.Header) (n int, err error) {
 		return
 	}
 
+	// There is no index if the feature count is zero (unknown), even if
+	// the node size has its non-zero default value.
+	if numFeatures == 0 {
+		nodeSize = 0
+	}
+
 	// Save cached feature count and index node size.
 	w.numFeatures = int(numFeatures)
 	w.nodeSize = nodeSize
-- 
2.43.0


From 01227949649c89912f37d172ca4a0ad3dfd96993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 07/24] fix: FileWriter.IndexData panicked when given no
 features

---
 flatgeobuf/file_writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 8772514..0b6674e 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -179,6 +179,12 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 		return
 	}
 
+	// Ensure the number of features agrees with the header.
+	if len(data) != w.numFeatures {
+		err = fmtErr("feature count mismatch (header=%d, data=%d)", w.numFeatures, len(data))
+		return
+	}
+
 	// Create index.
 	refs := make([]packedrtree.Ref, len(data))
 	bounds := packedrtree.EmptyBox
-- 
2.43.0


From 16e7f775fa228c414aae14f27df197a817354723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 08/24] fix: FileReader.IndexSearch panicked on a stream that
 can't seek

It called Index() after already having left the state Index() requires.
---
 flatgeobuf/file_reader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index da27be0..4d4c1b8 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -265,9 +265,11 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 		}
 	} else if r.cachedIndex == nil {
 		// Force caching the index.
-		if _, err := r.Index(); err != nil {
-			return nil, err
+		prt, err := packedrtree.Unmarshal(r.r, r.numFeatures, r.nodeSize)
+		if err != nil {
+			return nil, r.toErr(wrapErr("failed to read index", err))
 		}
+		r.cachedIndex = prt
 		sr = r.cachedIndex.Search(b)
 	} else {
 		textPanic("logic error: index should not be cached")
-- 
2.43.0


From 1a498b732c4bc41a369fda28905e2b2d93b526be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 09/24] fix: FileReader lost the data offset on Index, Rewind,
 Index

The second Index or IndexSearch seeked to the start of the stream, and
the data was then read from there.
---
 flatgeobuf/file_reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 4d4c1b8..e5846fd 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -208,8 +208,12 @@ func (r *FileReader) Index() (*packedrtree.PackedRTree, error) {
 		return nil, r.toErr(wrapErr("failed to read index", err))
 	}
 
-	// Cache the index for use after future Rewind().
+	// Cache the index for use after future Rewind(). That use skips past
+	// the index, so the data offset is needed too.
 	r.cachedIndex = prt
+	if err = r.saveDataOffset(s); err != nil {
+		return nil, err
+	}
 
 	// Transition into state for reading feature data.
 	if err = r.toState(beforeIndex, afterIndex); err != nil {
-- 
2.43.0


From f8cc2ecfc633843403f53bf205a856f42233e662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 10/24] fix: FileReader.Data ended an unknown-length file on an
 empty slice

---
 flatgeobuf/file_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index e5846fd..808fdf3 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -388,7 +388,7 @@ func (r *FileReader) Data(p []flat.Feature) (int, error) {
 			return i, err
 		}
 	}
-	if n == rem {
+	if r.numFeatures > 0 && n == rem {
 		if err := r.toState(inData, eof); err != nil {
 			return n, err
 		}
-- 
2.43.0


From 7990661076a5aa5bc17388ab00f3b12839f488e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 11/24] fix: FileReader.DataRem panicked after IndexSearch

---
 flatgeobuf/file_reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 808fdf3..8c774af 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -401,6 +401,9 @@ func (r *FileReader) Data(p []flat.Feature) (int, error) {
 func (r *FileReader) DataRem() ([]flat.Feature, error) {
 	if r.numFeatures > 0 {
 		rem := r.numFeatures - r.featureIndex
+		if r.state == eof {
+			rem = 0 // A search may end before the last feature.
+		}
 		p := make([]flat.Feature, rem)
 		n, err := r.Data(p)
 		p = p[0:n]
-- 
2.43.0


From e1a0b9783d82ca40105247c1e17e8626da085f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 12/24] fix: FileReader.DataRem panicked on a huge header
 feature count

---
 flatgeobuf/file_reader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 8c774af..ed37c70 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -399,7 +399,7 @@ func (r *FileReader) Data(p []flat.Feature) (int, error) {
 
 // TODO: Write docs.
 func (r *FileReader) DataRem() ([]flat.Feature, error) {
-	if r.numFeatures > 0 {
+	if r.numFeatures > 0 && r.numFeatures <= maxPreallocFeatures {
 		rem := r.numFeatures - r.featureIndex
 		if r.state == eof {
 			rem = 0 // A search may end before the last feature.
@@ -587,6 +587,11 @@ func (r *FileReader) readFeature(f *flat.Feature) (err error) {
 	return nil
 }
 
+// maxPreallocFeatures is the largest header feature count for which
+// DataRem allocates its result up front. A larger count may come from a
+// corrupt header, so memory is then only allocated as features are read.
+const maxPreallocFeatures = 1 << 20
+
 // discardBufferSize is the suggested buffer size to use with the
 // discard function.
 const discardBufferSize = 8096
-- 
2.43.0


From 83878094252aedd93ebaeaf50bdeaae75d0b29ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 13/24] fix: an index truncated in a non-seekable stream ended
 the data

The io.EOF from skipping the index was returned by FileReader.Data as if
it were the end of the features, and made DataRem panic. Also bytes read
together with an error were not counted.
---
 flatgeobuf/file_reader.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index ed37c70..8178341 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -603,15 +603,18 @@ func discard(r io.Reader, buf []byte, n int64) error {
 	for n > 0 {
 		var a int
 		var err error
-		if int(n) < len(buf) {
-			a, err = r.Read(buf[0:n])
+		if n < int64(len(buf)) {
+			a, err = io.ReadFull(r, buf[0:n])
 		} else {
-			a, err = r.Read(buf)
+			a, err = io.ReadFull(r, buf)
+		}
+		n -= int64(a)
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
 		}
 		if err != nil {
 			return err
 		}
-		n -= int64(a)
 	}
 	return nil
 }
-- 
2.43.0


From d477bcbf8e15e98457b44ef8be403f76a8c1c302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 14/24] fix: FileReader.Data reported truncation as io.EOF or
 an internal error

---
 flatgeobuf/file_reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 8178341..92a2427 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -384,6 +384,8 @@ func (r *FileReader) Data(p []flat.Feature) (int, error) {
 		if r.numFeatures == 0 && err == errEndOfData {
 			_ = r.toState(inData, eof) // TODO: Fix all these internal toStates to just panic, not return error.
 			return i, io.EOF
+		} else if err == errEndOfData {
+			return i, r.toErr(wrapErr("data section ends before feature[%d]", io.ErrUnexpectedEOF, r.featureIndex))
 		} else if err != nil {
 			return i, err
 		}
@@ -568,6 +570,9 @@ func (r *FileReader) readFeature(f *flat.Feature) (err error) {
 	tbl := make([]byte, flatbuffers.SizeUint32+featureLen)
 	copy(tbl, b)
 	if _, err = io.ReadFull(r.r, tbl[flatbuffers.SizeUint32:]); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return r.toErr(wrapErr("failed to read feature[%d] (offset %d, len=%d)", err, r.featureIndex, r.featureOffset, featureLen))
 	}
 
-- 
2.43.0


From 1a442366a1e52d8d658fbbaf6a208e69500740b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 15/24] fix: a feature length near 2^32 made FileReader panic

---
 flatgeobuf/file_reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 92a2427..286443d 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -566,8 +566,12 @@ func (r *FileReader) readFeature(f *flat.Feature) (err error) {
 		return r.toErr(fmtErr("feature[%d] length %d not big enough for FlatBuffer uoffset_t (offset %d)", r.featureIndex, featureLen, r.featureOffset))
 	}
 
+	if uint64(featureLen) > math.MaxInt-flatbuffers.SizeUint32 {
+		return r.toErr(fmtErr("feature[%d] length %d overflows int (offset %d)", r.featureIndex, featureLen, r.featureOffset))
+	}
+
 	// Read the feature table bytes.
-	tbl := make([]byte, flatbuffers.SizeUint32+featureLen)
+	tbl := make([]byte, flatbuffers.SizeUint32+int(featureLen))
 	copy(tbl, b)
 	if _, err = io.ReadFull(r.r, tbl[flatbuffers.SizeUint32:]); err != nil {
 		if err == io.EOF {
-- 
2.43.0


From 1cdf39fb97f832559d57d99927f388d7b956bf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:42 +0000
Subject: [PATCH 16/24] fix: FileReader.IndexSearch returned wrong features on
 seekable streams

A streaming search returns results in index order, which is not the file
order if the features are not stored in Hilbert order (as FileWriter's
IndexData does).
---
 flatgeobuf/file_reader.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 286443d..cf73d41 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -279,11 +279,10 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 		textPanic("logic error: index should not be cached")
 	}
 
-	// If the search results did not come from streaming search, sort
-	// them so their offsets are in file order.
-	if r.cachedIndex != nil {
-		sort.Sort(sr)
-	}
+	// Sort the search results so their offsets are in file order. Not
+	// even a streaming search guarantees this, because it is in index
+	// order and a file may order its features differently.
+	sort.Sort(sr)
 
 	// The reader's read cursor is now past the index and at the
 	// start of the data section.
-- 
2.43.0


From 66f3a1d5101bfbecefa019429f799c143ae2e5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:42 +0000
Subject: [PATCH 17/24] fix: FileReader.IndexSearch misread an index with
 overlapping offsets

---
 flatgeobuf/file_reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index cf73d41..a56a2f7 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -320,6 +320,9 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 				return nil, r.toErr(wrapErr("failed to skip to feature %d (data offset %d) for search result %d", err, sr[i].RefIndex, sr[i].Offset, i))
 			}
 		}
+		if sr[i].Offset < r.featureOffset {
+			return nil, r.toErr(fmtErr("feature %d (data offset %d) for search result %d overlaps another feature", sr[i].RefIndex, sr[i].Offset, i))
+		}
 		r.featureIndex = sr[i].RefIndex
 		r.featureOffset = sr[i].Offset
 		err := r.readFeature(&fs[i])
-- 
2.43.0


From 87de346a22b303af6471e190aaeeb240e7456055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:42 +0000
Subject: [PATCH 18/24] fix: FileWriter indexed features with nested parts as
 empty

---
 flatgeobuf/file_writer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 0b6674e..b0de8b7 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -327,10 +327,7 @@ func featureBounds(b *packedrtree.Box, f *flat.Feature) error {
 	return safeFlatBuffersInteraction(func() error {
 		var g flat.Geometry
 		if f.Geometry(&g) != nil {
-			n := g.XyLength()
-			for i := 0; i < n; i += 2 {
-				b.ExpandXY(g.Xy(i+0), g.Xy(i+1))
-			}
+			geomBounds(&g, b)
 		}
 		return nil
 	})
-- 
2.43.0


From 9554c77c234efb39df6c011f29962b2b98967f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:42 +0000
Subject: [PATCH 19/24] fix: packedrtree did not compile for big-endian CPUs
 and mips64le

---
 packedrtree/native_bigendian.go    | 3 +++
 packedrtree/native_littleendian.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/packedrtree/native_bigendian.go b/packedrtree/native_bigendian.go
index 2b75a76..ac45791 100644
--- a/packedrtree/native_bigendian.go
+++ b/packedrtree/native_bigendian.go
@@ -6,6 +6,8 @@
 
 package packedrtree
 
+import "io"
+
 func fixLittleEndianOctets(b []byte) {
 	for i := 0; i < len(b); i += 8 {
 		b[i+0], b[i+7] = b[i+7], b[i+0]
@@ -34,6 +36,7 @@ func writeLittleEndianOctets(w io.Writer, p []byte) (n int, err error) {
 			buf[i+6] = p[n+i+1]
 			buf[i+7] = p[n+i+0]
 		}
+		var m int
 		m, err = w.Write(buf)
 		n += m
 		if err != nil {
diff --git a/packedrtree/native_littleendian.go b/packedrtree/native_littleendian.go
index 3b92e6a..08b2139 100644
--- a/packedrtree/native_littleendian.go
+++ b/packedrtree/native_littleendian.go
@@ -2,7 +2,7 @@
 // Use of this source code is governed by an MIT-style
 // license that can be found in the LICENSE file.
 
-//go:build 386 || amd64 || amd64p32 || arm || arm64 || loong64 || mipsle || mis64le || mips64p32le || ppc64le || riscv || riscv64 || wasm
+//go:build 386 || amd64 || amd64p32 || arm || arm64 || loong64 || mipsle || mips64le || mips64p32le || ppc64le || riscv || riscv64 || wasm
 
 package packedrtree
 
-- 
2.43.0


From a04014d28888b009b1e0dde4d2bbc638e2398f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:42 +0000
Subject: [PATCH 20/24] fix: a corrupt index made a search panic

---
 packedrtree/packedrtree.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/packedrtree/packedrtree.go b/packedrtree/packedrtree.go
index 641d607..871fcf3 100644
--- a/packedrtree/packedrtree.go
+++ b/packedrtree/packedrtree.go
@@ -351,6 +351,9 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 			} else if isLeafLevel {
 				r = append(r, Result{Offset: n.Offset, RefIndex: pos - prt.levels[0].start})
 			} else {
+				if err := prt.checkChild(n, t.level-1); err != nil {
+					return nil, err
+				}
 				prt.push(&q, ticket{nodeIndex: int(n.Offset), level: t.level - 1})
 			}
 		}
@@ -361,6 +364,17 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 	}
 }
 
+// checkChild returns an error if the child node index of a non-leaf
+// node is outside the child level, which is only possible if the node
+// was read from a corrupt index.
+func (prt *packedRTree) checkChild(n *node, childLevel int) error {
+	level := prt.levels[childLevel]
+	if n.Offset < int64(level.start) || n.Offset >= int64(level.end) {
+		return fmtErr("corrupt index: child node index %d not in [%d..%d)", n.Offset, level.start, level.end)
+	}
+	return nil
+}
+
 // PackedRTree is a packed Hilbert R-Tree.
 type PackedRTree struct {
 	packedRTree
@@ -505,6 +519,15 @@ func Unmarshal(r io.Reader, numRefs int, nodeSize uint16) (*PackedRTree, error)
 	// the native byte ordering of the host CPU architecture.
 	fixLittleEndianOctets(dst)
 
+	// Ensure a search can't be led outside the tree.
+	for i := 1; i < len(prt.levels); i++ {
+		for j := prt.levels[i].start; j < prt.levels[i].end; j++ {
+			if err := prt.checkChild(&prt.nodes[j], i-1); err != nil {
+				return nil, err
+			}
+		}
+	}
+
 	// Wrap in the public data structure and return.
 	return &PackedRTree{packedRTree: prt}, nil
 }
-- 
2.43.0


From 8419d226c0381a0a29f8ae62cdd2c2b0050ed89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 21/24] fix: a cyclic geometry overflowed the stack

---
 flatgeobuf/file_writer.go |  2 +-
 flatgeobuf/stringers.go   | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index b0de8b7..dd31e06 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -327,7 +327,7 @@ func featureBounds(b *packedrtree.Box, f *flat.Feature) error {
 	return safeFlatBuffersInteraction(func() error {
 		var g flat.Geometry
 		if f.Geometry(&g) != nil {
-			geomBounds(&g, b)
+			return geomBounds(&g, b, 0)
 		}
 		return nil
 	})
diff --git a/flatgeobuf/stringers.go b/flatgeobuf/stringers.go
index 362fc0d..1e1cb26 100644
--- a/flatgeobuf/stringers.go
+++ b/flatgeobuf/stringers.go
@@ -160,7 +160,9 @@ func stringGeom(f *flat.Feature, b *strings.Builder) error {
 			b.WriteString(g.Type().String())
 			b.WriteString(",Bounds:")
 			bounds := packedrtree.EmptyBox
-			geomBounds(&g, &bounds)
+			if err := geomBounds(&g, &bounds, 0); err != nil {
+				return err
+			}
 			if bounds == packedrtree.EmptyBox {
 				b.WriteString("<nil>")
 			} else {
@@ -214,7 +216,14 @@ func stringProps(f *flat.Feature, b *strings.Builder, s []Schema) error {
 	})
 }
 
-func geomBounds(g *flat.Geometry, b *packedrtree.Box) {
+// maxGeomDepth limits the nesting depth of geometry parts. The offsets
+// in a corrupt FlatBuffer can make a geometry a part of itself.
+const maxGeomDepth = 64
+
+func geomBounds(g *flat.Geometry, b *packedrtree.Box, depth int) error {
+	if depth > maxGeomDepth {
+		return textErr("geometry parts nested too deep")
+	}
 	n := g.XyLength()
 	for i := 0; i < n; i += 2 {
 		b.ExpandXY(g.Xy(i+0), g.Xy(i+1))
@@ -223,7 +232,10 @@ func geomBounds(g *flat.Geometry, b *packedrtree.Box) {
 	for i := 0; i < n; i++ {
 		var h flat.Geometry
 		if g.Parts(&h, i) {
-			geomBounds(&h, b)
+			if err := geomBounds(&h, b, depth+1); err != nil {
+				return err
+			}
 		}
 	}
+	return nil
 }
-- 
2.43.0


From 60f1c53dd477c55a239886265b4591a4951d4d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 22/24] fix: a corrupt schema made PropReader.ReadSchema panic

---
 flatgeobuf/prop_reader.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 9c4afa1..ef04e73 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -172,7 +172,13 @@ type PropValue struct {
 }
 
 func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
-	n := schema.ColumnsLength()
+	var n int
+	if err := safeFlatBuffersInteraction(func() error {
+		n = schema.ColumnsLength()
+		return nil
+	}); err != nil {
+		return nil, err
+	}
 	vals := make([]PropValue, 0, n)
 
 	for {
@@ -189,10 +195,15 @@ func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 		val := PropValue{
 			ColIndex: col,
 		}
-		if !schema.Columns(&val.Col, i) {
-			return nil, fmtErr("schema failed to locate column %d", i)
+		if err = safeFlatBuffersInteraction(func() error {
+			if !schema.Columns(&val.Col, i) {
+				return fmtErr("schema failed to locate column %d", i)
+			}
+			val.Type = val.Col.Type()
+			return nil
+		}); err != nil {
+			return nil, err
 		}
-		val.Type = val.Col.Type()
 		switch val.Type {
 		case flat.ColumnTypeByte:
 			val.Value, err = r.ReadByte()
-- 
2.43.0


From 504f01d8ac5c75f573b00fdc2a8870b3a1288e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 23/24] fix: FileReader.Data returned raw seek errors, even
 io.EOF

DataRem took an io.EOF from the stream's Seek for the end of the data.
---
 flatgeobuf/file_reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index a56a2f7..c4573e1 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -496,7 +496,7 @@ func (r *FileReader) skipIndex() error {
 		if r.dataOffset > 0 { // If we already know the data offset, seek to it.
 			s := r.r.(io.Seeker)
 			if _, err := s.Seek(r.dataOffset, io.SeekStart); err != nil {
-				return r.toErr(err)
+				return r.toErr(wrapErr("failed to skip past index", err))
 			}
 		} else if s, ok := r.r.(io.Seeker); ok { // If we can seek past the index, do so.
 			if err := r.saveIndexOffset(s); err != nil {
@@ -508,7 +508,7 @@ func (r *FileReader) skipIndex() error {
 			}
 			r.dataOffset = r.indexOffset + int64(indexSize)
 			if _, err = s.Seek(r.dataOffset, io.SeekStart); err != nil {
-				return r.toErr(err)
+				return r.toErr(wrapErr("failed to skip past index", err))
 			}
 		} else { // Our only choice is to read past the index.
 			indexSize, err := packedrtree.Size(r.numFeatures, r.nodeSize)
@@ -520,7 +520,7 @@ func (r *FileReader) skipIndex() error {
 				bufSize = indexSize
 			}
 			if err = discard(r.r, make([]byte, bufSize), int64(indexSize)); err != nil {
-				return r.toErr(err)
+				return r.toErr(wrapErr("failed to skip past index", err))
 			}
 		}
 	}
-- 
2.43.0


From ed3e2dfd4c3008e57c343f02390fe1195411b864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 24/24] fix: ReadSchema does not reserve memory for a column
 count from a corrupt table

---
 flatgeobuf/prop_reader.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index ef04e73..b1a59c2 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -179,7 +179,13 @@ func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 	}); err != nil {
 		return nil, err
 	}
-	vals := make([]PropValue, 0, n)
+	// The number of columns comes from a table that may be corrupt, so
+	// the memory reserved up front does not depend on it alone.
+	reserve := n
+	if reserve < 0 || reserve > 256 {
+		reserve = 256
+	}
+	vals := make([]PropValue, 0, reserve)
 
 	for {
 		col, err := r.ReadUShort()
-- 
2.43.0

