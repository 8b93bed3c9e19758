From 01258d8413241fe67033a2fc4060f9f6eb9d91ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 01/27] fix: skip unread JSON chunk padding before reading the
 BIN chunk

---
 decoder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 8ca826c..8adae74 100644
--- a/decoder.go
+++ b/decoder.go
@@ -100,9 +100,11 @@ func (d *Decoder) decodeDocument(doc *Document) (bool, error) {
 	var (
 		jd       *json.Decoder
 		isBinary bool
+		chunk    io.Reader
 	)
 	if glbHeader != nil {
-		jd = json.NewDecoder(&io.LimitedReader{R: d.r, N: int64(glbHeader.JSONHeader.Length)})
+		chunk = &io.LimitedReader{R: d.r, N: int64(glbHeader.JSONHeader.Length)}
+		jd = json.NewDecoder(chunk)
 		isBinary = true
 	} else {
 		jd = json.NewDecoder(d.r)
@@ -110,6 +112,11 @@ func (d *Decoder) decodeDocument(doc *Document) (bool, error) {
 	}
 
 	err = jd.Decode(doc)
+	if err == nil && isBinary {
+		// Skip the part of the JSON chunk that has not been buffered by the
+		// JSON decoder, so the reader is at the start of the next chunk.
+		_, err = io.Copy(io.Discard, chunk)
+	}
 	return isBinary, err
 }
 
-- 
2.43.0


From 67543733d686538e7a5457bd4a782b7091c96cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:03 +0000
Subject: [PATCH 02/27] fix: report every failed write when encoding a GLB

---
 encode.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/encode.go b/encode.go
index f8a29ad..01abe70 100644
--- a/encode.go
+++ b/encode.go
@@ -144,6 +144,25 @@ func (e *Encoder) encodeBuffer(buffer *Buffer) error {
 	return err
 }
 
+// errWriter forwards writes to w until one of them fails
+// and remembers the first error.
+type errWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (ew *errWriter) Write(p []byte) (int, error) {
+	if ew.err != nil {
+		return 0, ew.err
+	}
+	n, err := ew.w.Write(p)
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+	ew.err = err
+	return n, err
+}
+
 func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 	jsonText, err := e.marshalJSONDoc(doc)
 	if err != nil {
@@ -171,12 +190,13 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 		header.Length += uint32(8 + binPaddedLength)
 	}
 
-	err = binary.Write(e.w, binary.LittleEndian, &header)
+	w := &errWriter{w: e.w}
+	err = binary.Write(w, binary.LittleEndian, &header)
 	if err != nil {
 		return false, err
 	}
-	e.w.Write(jsonText)
-	e.w.Write(headerPadding)
+	w.Write(jsonText)
+	w.Write(headerPadding)
 
 	if hasBinChunk {
 		binBuffer := doc.Buffers[0]
@@ -185,12 +205,12 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 			binPadding[i] = 0
 		}
 		binHeader := chunkHeader{Length: uint32(binPaddedLength), Type: glbChunkBIN}
-		binary.Write(e.w, binary.LittleEndian, &binHeader)
-		e.w.Write(binBuffer.Data)
-		_, err = e.w.Write(binPadding)
+		binary.Write(w, binary.LittleEndian, &binHeader)
+		w.Write(binBuffer.Data)
+		w.Write(binPadding)
 	}
 
-	return hasBinChunk, err
+	return hasBinChunk, w.err
 }
 
 // MarshalJSON marshal the document with the correct default values.
-- 
2.43.0


From 6439a48f495150a5835f31a6efe06aec843796bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 03/27] fix: reject GLB JSON chunk lengths that overflow 32
 bits

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 8adae74..50edfd9 100644
--- a/decoder.go
+++ b/decoder.go
@@ -136,7 +136,7 @@ func (d *Decoder) readGLBHeader() (*glbHeader, error) {
 }
 
 func (d *Decoder) validateGLBHeader(header *glbHeader) error {
-	if header.JSONHeader.Type != glbChunkJSON || (header.JSONHeader.Length+uint32(binary.Size(header))) > header.Length {
+	if header.JSONHeader.Type != glbChunkJSON || (uint64(header.JSONHeader.Length)+uint64(binary.Size(header))) > uint64(header.Length) {
 		return errors.New("gltf: Invalid GLB JSON header")
 	}
 	return nil
-- 
2.43.0


From b0713b93648ae7d8f4740c38784b531b184ad938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 04/27] fix: reject null buffers, null images and invalid
 byteLength values when decoding

---
 decoder.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 50edfd9..09a0c8c 100644
--- a/decoder.go
+++ b/decoder.go
@@ -63,6 +63,9 @@ func (d *Decoder) Decode(doc *Document) error {
 	}
 
 	for _, b := range doc.Buffers {
+		if b == nil {
+			return errors.New("gltf: Invalid null buffer")
+		}
 		if !b.IsEmbeddedResource() {
 			if uri, ok := sanitizeURI(b.URI); ok {
 				b.URI = uri
@@ -70,6 +73,9 @@ func (d *Decoder) Decode(doc *Document) error {
 		}
 	}
 	for _, im := range doc.Images {
+		if im == nil {
+			return errors.New("gltf: Invalid null image")
+		}
 		if !im.IsEmbeddedResource() {
 			if uri, ok := sanitizeURI(im.URI); ok {
 				im.URI = uri
@@ -183,7 +189,7 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 	if err != nil {
 		return err
 	}
-	if header.Type != glbChunkBIN || header.Length < uint32(buffer.ByteLength) {
+	if header.Type != glbChunkBIN || uint64(header.Length) < uint64(buffer.ByteLength) {
 		return errors.New("gltf: Invalid GLB BIN header")
 	}
 	buffer.Data = make([]byte, buffer.ByteLength)
@@ -192,8 +198,8 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 }
 
 func (d *Decoder) validateBuffer(buffer *Buffer) error {
-	if buffer.ByteLength == 0 {
-		return errors.New("gltf: Invalid buffer.byteLength value = 0")
+	if buffer.ByteLength <= 0 {
+		return fmt.Errorf("gltf: Invalid buffer.byteLength value = %d", buffer.ByteLength)
 	}
 	return nil
 }
-- 
2.43.0


From b41850991f3eebb3e840a113fd0c848816c007ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:06 +0000
Subject: [PATCH 05/27] fix: trim embedded buffers to their byteLength

---
 decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 09a0c8c..c1802ec 100644
--- a/decoder.go
+++ b/decoder.go
@@ -170,11 +170,11 @@ func (d *Decoder) decodeBuffer(buffer *Buffer) error {
 		err = validateBufferURI(buffer.URI)
 		if err == nil && d.Fsys != nil {
 			buffer.Data, err = fs.ReadFile(d.Fsys, buffer.URI)
-			if len(buffer.Data) > int(buffer.ByteLength) {
-				buffer.Data = buffer.Data[:buffer.ByteLength:buffer.ByteLength]
-			}
 		}
 	}
+	if len(buffer.Data) > int(buffer.ByteLength) {
+		buffer.Data = buffer.Data[:buffer.ByteLength:buffer.ByteLength]
+	}
 	if err != nil {
 		buffer.Data = nil
 	}
-- 
2.43.0


From bf8b27634f659cd876779d36978932a3d37a82a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 06/27] fix: do not allocate the GLB buffer before its data has
 been received

---
 decoder.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index c1802ec..755df05 100644
--- a/decoder.go
+++ b/decoder.go
@@ -192,9 +192,17 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 	if header.Type != glbChunkBIN || uint64(header.Length) < uint64(buffer.ByteLength) {
 		return errors.New("gltf: Invalid GLB BIN header")
 	}
-	buffer.Data = make([]byte, buffer.ByteLength)
-	_, err = io.ReadFull(d.r, buffer.Data)
-	return err
+	// The declared length can be as large as 4 GiB whatever the size of the stream,
+	// so do not allocate memory before there is data to fill it.
+	var data bytes.Buffer
+	if _, err = io.CopyN(&data, d.r, int64(buffer.ByteLength)); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		return err
+	}
+	buffer.Data = data.Bytes()
+	return nil
 }
 
 func (d *Decoder) validateBuffer(buffer *Buffer) error {
-- 
2.43.0


From 6ee851103aac91bba35d8fd3b313ab9a4e132ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 07/27] fix: never create external buffers outside of the
 output directory

---
 encode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encode.go b/encode.go
index 01abe70..a80dcee 100644
--- a/encode.go
+++ b/encode.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"errors"
+	"fmt"
 	"io"
 	"io/fs"
 	"os"
@@ -133,6 +134,10 @@ func (e *Encoder) encodeBuffer(buffer *Buffer) error {
 	if !ok {
 		return nil
 	}
+	// Decoding the URI can uncover path elements which escape from the file system root.
+	if !filepath.IsLocal(uri) {
+		return fmt.Errorf("gltf: Invalid buffer.uri value '%s'", buffer.URI)
+	}
 	w, err := e.Fsys.Create(uri)
 	if err != nil {
 		return err
-- 
2.43.0


From f8fa21be18f1f99b3104b37247d46a211b0aa16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:20 +0000
Subject: [PATCH 08/27] fix: write external buffers whose URI is not
 percent-encoded

---
 encode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index a80dcee..6859cc9 100644
--- a/encode.go
+++ b/encode.go
@@ -132,7 +132,9 @@ func (e *Encoder) encodeBuffer(buffer *Buffer) error {
 	}
 	uri, ok := sanitizeURI(buffer.URI)
 	if !ok {
-		return nil
+		// It is not a valid URI, e.g. it contains an unescaped percent sign.
+		// The decoder uses it as it is in that case.
+		uri = buffer.URI
 	}
 	// Decoding the URI can uncover path elements which escape from the file system root.
 	if !filepath.IsLocal(uri) {
-- 
2.43.0


From 0c2b585f46a50fa2ba0f38ce27d90567b31c885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:21 +0000
Subject: [PATCH 09/27] fix: normalize consecutive ./ segments in buffer and
 image URIs

---
 decoder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 755df05..11da995 100644
--- a/decoder.go
+++ b/decoder.go
@@ -224,7 +224,9 @@ func validateBufferURI(uri string) error {
 
 func sanitizeURI(uri string) (string, bool) {
 	uri = strings.Replace(uri, "\\", "/", -1)
-	uri = strings.Replace(uri, "/./", "/", -1)
+	for strings.Contains(uri, "/./") {
+		uri = strings.Replace(uri, "/./", "/", -1)
+	}
 	uri = strings.TrimPrefix(uri, "./")
 	u, err := url.Parse(uri)
 	if err != nil {
-- 
2.43.0


From 4f9b762dbad24492024e058349706df5d3f5ec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:50 +0000
Subject: [PATCH 10/27] fix: return errors for buffer views with invalid
 indices, offsets or lengths

---
 modeler/read.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/modeler/read.go b/modeler/read.go
index fc4d6f8..9ec1876 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -82,10 +82,14 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 }
 
 func readBufferView(doc *gltf.Document, bufferViewIndex int) ([]byte, error) {
-	if len(doc.BufferViews) <= bufferViewIndex {
+	if bufferViewIndex < 0 || len(doc.BufferViews) <= bufferViewIndex {
 		return nil, errors.New("gltf: bufferview index overflows")
 	}
-	return ReadBufferView(doc, doc.BufferViews[bufferViewIndex])
+	bv := doc.BufferViews[bufferViewIndex]
+	if bv == nil {
+		return nil, errors.New("gltf: bufferview is null")
+	}
+	return ReadBufferView(doc, bv)
 }
 
 // ReadBufferView returns the slice of bytes associated with the BufferView.
@@ -94,15 +98,18 @@ func readBufferView(doc *gltf.Document, bufferViewIndex int) ([]byte, error) {
 // It is safe to use even with malformed documents.
 // If that happens it will return an error instead of panic.
 func ReadBufferView(doc *gltf.Document, bv *gltf.BufferView) ([]byte, error) {
-	if len(doc.Buffers) <= bv.Buffer {
+	if bv.Buffer < 0 || len(doc.Buffers) <= bv.Buffer {
 		return nil, errors.New("gltf: buffer index overflows")
 	}
+	if doc.Buffers[bv.Buffer] == nil {
+		return nil, errors.New("gltf: buffer is null")
+	}
 	buf := doc.Buffers[bv.Buffer].Data
 
-	high := bv.ByteOffset + bv.ByteLength
-	if len(buf) < high {
+	if bv.ByteOffset < 0 || bv.ByteLength < 0 || bv.ByteOffset > len(buf) || bv.ByteLength > len(buf)-bv.ByteOffset {
 		return nil, io.ErrShortBuffer
 	}
+	high := bv.ByteOffset + bv.ByteLength
 	return buf[bv.ByteOffset:high], nil
 }
 
-- 
2.43.0


From 6ea2a07da3060d3697a7d532c395ca6e935764f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:50 +0000
Subject: [PATCH 11/27] fix: return errors when reading accessors with invalid
 counts, offsets, strides or sparse indices

---
 modeler/read.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/modeler/read.go b/modeler/read.go
index 9ec1876..8ee9788 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"reflect"
 	"sync"
 
@@ -29,6 +30,9 @@ var uint32Pool = sync.Pool{
 // ReadAccessor is safe to use even with malformed documents.
 // If that happens it will return an error instead of panic.
 func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, error) {
+	if err := checkAccessor(doc, acr); err != nil {
+		return nil, err
+	}
 	data, err := binary.MakeSliceBuffer(acr.ComponentType, acr.Type, acr.Count, buffer)
 	if err != nil {
 		return nil, err
@@ -75,12 +79,39 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 		s := reflect.ValueOf(data)
 		vals := reflect.ValueOf(values)
 		for i := 0; i < int(acr.Sparse.Count); i++ {
+			if uint64(indices[i]) >= uint64(acr.Count) {
+				return nil, errors.New("gltf: sparse index overflows")
+			}
 			s.Index(int(indices[i])).Set(vals.Index(i))
 		}
 	}
 	return data, nil
 }
 
+// checkAccessor reports whether the data referenced by acr, sparse substitution aside,
+// can exist, so it is safe to allocate memory for it.
+func checkAccessor(doc *gltf.Document, acr *gltf.Accessor) error {
+	size := acr.ComponentType.ByteSize() * acr.Type.Components()
+	if acr.Count < 0 || size > 0 && acr.Count > math.MaxInt/size {
+		return fmt.Errorf("gltf: invalid accessor count %d", acr.Count)
+	}
+	if acr.BufferView == nil {
+		return nil
+	}
+	buf, err := readBufferView(doc, *acr.BufferView)
+	if err != nil {
+		return err
+	}
+	if acr.ByteOffset < 0 || doc.BufferViews[*acr.BufferView].ByteStride < 0 {
+		return errors.New("gltf: negative byte offset or stride")
+	}
+	// An element needs at least one byte.
+	if acr.ByteOffset > len(buf) || acr.Count > len(buf)-acr.ByteOffset {
+		return io.ErrShortBuffer
+	}
+	return nil
+}
+
 func readBufferView(doc *gltf.Document, bufferViewIndex int) ([]byte, error) {
 	if bufferViewIndex < 0 || len(doc.BufferViews) <= bufferViewIndex {
 		return nil, errors.New("gltf: bufferview index overflows")
-- 
2.43.0


From ebc3107394dc21371a2d97ccec62dcc678753124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:10 +0000
Subject: [PATCH 12/27] fix: honor the stride of byte and unsigned byte
 scalars, never read past the data length

---
 binary/encode.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/binary/encode.go b/binary/encode.go
index 01a4226..5b161bf 100644
--- a/binary/encode.go
+++ b/binary/encode.go
@@ -40,8 +40,8 @@ func Read(b []byte, byteStride int, data any) error {
 			data[i] = color.RGBA64{R: c[0], G: c[1], B: c[2], A: c[3]}
 		}
 	case []int8:
-		for i, x := range b {
-			data[i] = int8(x)
+		for i := range data {
+			data[i] = Byte.Scalar(b[e*i:])
 		}
 	case [][2]int8:
 		for i := range data {
@@ -68,7 +68,7 @@ func Read(b []byte, byteStride int, data any) error {
 			data[i] = Byte.Mat4(b[e*i:])
 		}
 	case []uint8:
-		if byteStride != 1 {
+		if byteStride == 1 {
 			copy(data, b)
 		} else {
 			for i := range data {
@@ -273,7 +273,13 @@ func Write(b []byte, stride int, data any) error {
 			Byte.PutMat4(b[e*i:], data[i])
 		}
 	case []uint8:
-		copy(b, data)
+		if e == 1 {
+			copy(b, data)
+		} else {
+			for i, x := range data {
+				b[e*i] = x
+			}
+		}
 	case [][2]uint8:
 		for i := range data {
 			Ubyte.PutVec2(b[e*i:], data[i])
-- 
2.43.0


From d60e72c3f217d42ef3e71728bf728a1be1222413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 13/27] fix: detect short buffers with negative or overflowing
 strides

---
 binary/encode.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/binary/encode.go b/binary/encode.go
index 5b161bf..3482db9 100644
--- a/binary/encode.go
+++ b/binary/encode.go
@@ -9,6 +9,15 @@ import (
 	"github.com/qmuntal/gltf"
 )
 
+// fits reports whether n elements of the given size, stride bytes apart,
+// are inside a slice of the given length.
+func fits(length, n, stride, size int) bool {
+	if n == 0 {
+		return true
+	}
+	return stride >= 0 && size <= length && n-1 <= (length-size)/stride
+}
+
 // Read reads structured binary data from b into data.
 // byteStride can be zero for non-interleaved buffer views.
 //
@@ -21,11 +30,7 @@ func Read(b []byte, byteStride int, data any) error {
 		byteStride = size
 	}
 	e := int(byteStride)
-	high := int(n) * e
-	if byteStride != size {
-		high -= int(byteStride - size)
-	}
-	if len(b) < high {
+	if !fits(len(b), n, e, size) {
 		return io.ErrShortBuffer
 	}
 	switch data := data.(type) {
@@ -232,7 +237,7 @@ func Write(b []byte, stride int, data any) error {
 	if stride == 0 {
 		e = sizeOfElement
 	}
-	if len(b) < e*(int(n)-1)+sizeOfElement {
+	if !fits(len(b), n, e, sizeOfElement) {
 		return io.ErrShortBuffer
 	}
 	switch data := data.(type) {
-- 
2.43.0


From 49d07c2a397afbd2e0e7d166542ae569c442c12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:36 +0000
Subject: [PATCH 14/27] fix: support backing buffers for unsigned int 3x3
 matrices

---
 binary/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary/slice.go b/binary/slice.go
index 7a1dd4f..3b37118 100644
--- a/binary/slice.go
+++ b/binary/slice.go
@@ -112,7 +112,7 @@ func castSlice(c gltf.ComponentType, t gltf.AccessorType, count int, v []byte) a
 		case gltf.AccessorMat2:
 			return reslice[[2][2]uint32](v, l, rem)
 		case gltf.AccessorMat3:
-
+			return reslice[[3][3]uint32](v, l, rem)
 		case gltf.AccessorMat4:
 			return reslice[[4][4]uint32](v, l, rem)
 		}
-- 
2.43.0


From 39aa0049b86b4cd66acadc2b71288bbb07338213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:37 +0000
Subject: [PATCH 15/27] fix: truncate reused buffers when the accessor is empty

---
 modeler/read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modeler/read.go b/modeler/read.go
index 8ee9788..176b8a6 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -154,9 +154,9 @@ var bufPool = sync.Pool{
 func makeBufferOf[T any](count int, buffer []T) []T {
 	if len(buffer) < count {
 		buffer = append(buffer, make([]T, count-len(buffer))...)
-	} else if count != 0 {
+	} else if buffer != nil {
 		buffer = buffer[:count]
-	} else if buffer == nil {
+	} else {
 		buffer = make([]T, 0)
 	}
 	return buffer
-- 
2.43.0


From 3cb08c1a86c3d4957b02b820b335f6d7289a0882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:37 +0000
Subject: [PATCH 16/27] fix: initialize with zeros accessors without buffer
 view

---
 modeler/read.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modeler/read.go b/modeler/read.go
index 176b8a6..a9731e1 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -47,6 +47,12 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 		if err != nil {
 			return nil, err
 		}
+	} else {
+		// The backing buffer can contain stale data.
+		v := reflect.ValueOf(data)
+		for i := 0; i < v.Len(); i++ {
+			v.Index(i).SetZero()
+		}
 	}
 
 	if acr.Sparse != nil {
-- 
2.43.0


From 2035b27cf4917e7a85577fb60d748303c04e52ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:01 +0000
Subject: [PATCH 17/27] fix: do not modify the document when the accessor data
 is rejected

---
 modeler/write.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/modeler/write.go b/modeler/write.go
index bbcfd6e..a516d01 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -194,9 +194,9 @@ func WriteImage(doc *gltf.Document, name string, mimeType string, r io.Reader) (
 // and fills the buffer with the data.
 // Returns the index of the new accessor.
 func WriteAccessor(doc *gltf.Document, target gltf.Target, data any) int {
+	c, a, l := binary.Type(data) // Panics if data is not supported, doc must not have been modified.
 	ensurePadding(doc)
 	index := WriteBufferView(doc, target, data)
-	c, a, l := binary.Type(data)
 	doc.Accessors = append(doc.Accessors, &gltf.Accessor{
 		BufferView:    gltf.Index(index),
 		ByteOffset:    0,
@@ -214,6 +214,10 @@ func WriteAccessor(doc *gltf.Document, target gltf.Target, data any) int {
 // with the same order as data or an error if the data elements
 // don´t have all the same length.
 func WriteAccessorsInterleaved(doc *gltf.Document, data ...any) ([]int, error) {
+	// Do not modify doc if data is not valid.
+	if err := checkLengths(data...); err != nil {
+		return nil, err
+	}
 	ensurePadding(doc)
 	index, err := WriteBufferViewInterleaved(doc, data...)
 	if err != nil {
@@ -314,15 +318,26 @@ func WriteBufferView(doc *gltf.Document, target gltf.Target, data any) int {
 	return index
 }
 
-func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int, error) {
-	var refLength, stride, size int
+func checkLengths(data ...any) error {
+	var refLength int
 	for i, d := range data {
-		c, a, l := binary.Type(d)
+		_, _, l := binary.Type(d)
 		if i == 0 {
 			refLength = l
 		} else if refLength != l {
-			return 0, errors.New("gltf: interleaved data shall have the same number of elements in all chunks")
+			return errors.New("gltf: interleaved data shall have the same number of elements in all chunks")
 		}
+	}
+	return nil
+}
+
+func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int, error) {
+	if err := checkLengths(data...); err != nil {
+		return 0, err
+	}
+	var stride, size int
+	for _, d := range data {
+		c, a, l := binary.Type(d)
 		sizeOfElement := gltf.SizeOfElement(c, a)
 		size += l * sizeOfElement
 		if len(data) > 1 {
-- 
2.43.0


From 4108b68fbfd1a2534e7daf36f882332095d6e3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:02 +0000
Subject: [PATCH 18/27] fix: do not write an empty buffer view when no
 primitive attribute has data

---
 modeler/write.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modeler/write.go b/modeler/write.go
index a516d01..a176f9f 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -284,6 +284,10 @@ func WritePrimitiveAttributes(doc *gltf.Document, attr ...PrimitiveAttribute) (g
 		data = append(data, a.Data)
 		props = append(props, attrProps{Name: a.Name, Normalized: normalized})
 	}
+	if len(data) == 0 {
+		// There is nothing to write, do not add an empty buffer view.
+		return gltf.PrimitiveAttributes{}, nil
+	}
 	indices, err := WriteAccessorsInterleaved(doc, data...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From a5502eb86238479b8933c26522dffbc27cd68b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:04 +0000
Subject: [PATCH 19/27] fix: encode the current data of embedded buffers

---
 encode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 6859cc9..4a3a129 100644
--- a/encode.go
+++ b/encode.go
@@ -238,7 +238,8 @@ func (e *Encoder) marshalJSONDoc(doc *Document) ([]byte, error) {
 			tmp.CustomBuffers[i] = buf
 			continue
 		}
-		if len(buf.Data) > 0 && buf.URI == "" && !buf.IsEmbeddedResource() {
+		// Embedded buffers are encoded again in case their data has been modified.
+		if len(buf.Data) > 0 && (buf.URI == "" || buf.IsEmbeddedResource()) {
 			tmpBuf := &Buffer{
 				Extensions: buf.Extensions,
 				Extras:     buf.Extras,
-- 
2.43.0


From 6bca3683628519654e154fffd7b61b279b5c8ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 20/27] fix: encode KHR_lights_punctual as the objects defined
 by the specification

---
 ext/lightspunctual/lightspunctual.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ext/lightspunctual/lightspunctual.go b/ext/lightspunctual/lightspunctual.go
index 6365db3..2242ce1 100644
--- a/ext/lightspunctual/lightspunctual.go
+++ b/ext/lightspunctual/lightspunctual.go
@@ -48,6 +48,13 @@ const (
 // LightIndex is the id of the light referenced by this node.
 type LightIndex int
 
+// MarshalJSON marshal the light index as the light property of the node extension.
+func (i LightIndex) MarshalJSON() ([]byte, error) {
+	return json.Marshal(struct {
+		Light int `json:"light"`
+	}{int(i)})
+}
+
 // Spot defines the spot cone.
 type Spot struct {
 	InnerConeAngle float64  `json:"innerConeAngle,omitempty"`
@@ -76,6 +83,13 @@ func (s *Spot) UnmarshalJSON(data []byte) error {
 // Lights defines a list of Lights.
 type Lights []*Light
 
+// MarshalJSON marshal the lights as the lights property of the document extension.
+func (l Lights) MarshalJSON() ([]byte, error) {
+	return json.Marshal(struct {
+		Lights []*Light `json:"lights,omitempty"`
+	}{l})
+}
+
 // Light defines a directional, point, or spot light.
 // When a light's type is spot, the spot property on the light is required.
 type Light struct {
-- 
2.43.0


From 0ac02fd68d2edaf1e92c64a9093e737736b250ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 21/27] fix: encode lights with an infinite range

---
 ext/lightspunctual/lightspunctual.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ext/lightspunctual/lightspunctual.go b/ext/lightspunctual/lightspunctual.go
index 2242ce1..037c6a8 100644
--- a/ext/lightspunctual/lightspunctual.go
+++ b/ext/lightspunctual/lightspunctual.go
@@ -127,3 +127,14 @@ func (l *Light) UnmarshalJSON(data []byte) error {
 	}
 	return err
 }
+
+// MarshalJSON marshal the light with the correct default values.
+func (l *Light) MarshalJSON() ([]byte, error) {
+	type alias Light
+	tmp := alias(*l)
+	if tmp.Range != nil && math.IsInf(*tmp.Range, 1) {
+		// Infinity is the default and cannot be represented in JSON.
+		tmp.Range = nil
+	}
+	return json.Marshal(&tmp)
+}
-- 
2.43.0


From 30b12df6cd6ede4b0338c4321c0cdfe125c9591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:39 +0000
Subject: [PATCH 22/27] fix: do not corrupt texture extras when omitting
 specular-glossiness defaults

---
 ext/specular/specular.go | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/ext/specular/specular.go b/ext/specular/specular.go
index 6752474..ec09c86 100644
--- a/ext/specular/specular.go
+++ b/ext/specular/specular.go
@@ -1,7 +1,6 @@
 package specular
 
 import (
-	"bytes"
 	"encoding/json"
 
 	"github.com/qmuntal/gltf"
@@ -46,28 +45,15 @@ func (p *PBRSpecularGlossiness) UnmarshalJSON(data []byte) error {
 // MarshalJSON marshal the pbr with the correct default values.
 func (p *PBRSpecularGlossiness) MarshalJSON() ([]byte, error) {
 	type alias PBRSpecularGlossiness
-	out, err := json.Marshal(&struct{ *alias }{alias: (*alias)(p)})
-	if err == nil {
-		if p.GlossinessFactor != nil && *p.GlossinessFactor == 1 {
-			out = removeProperty([]byte(`"glossinessFactor":1`), out)
-		}
-		if p.DiffuseFactor != nil && *p.DiffuseFactor == [4]float64{1, 1, 1, 1} {
-			out = removeProperty([]byte(`"diffuseFactor":[1,1,1,1]`), out)
-		}
-		if p.SpecularFactor != nil && *p.SpecularFactor == [3]float64{1, 1, 1} {
-			out = removeProperty([]byte(`"specularFactor":[1,1,1]`), out)
-		}
-		out = sanitizeJSON(out)
+	tmp := alias(*p)
+	if p.GlossinessFactor != nil && *p.GlossinessFactor == 1 {
+		tmp.GlossinessFactor = nil
 	}
-	return out, err
-}
-
-func removeProperty(str []byte, b []byte) []byte {
-	b = bytes.Replace(b, str, []byte(""), 1)
-	return bytes.Replace(b, []byte(`,,`), []byte(","), 1)
-}
-
-func sanitizeJSON(b []byte) []byte {
-	b = bytes.Replace(b, []byte(`{,`), []byte("{"), 1)
-	return bytes.Replace(b, []byte(`,}`), []byte("}"), 1)
+	if p.DiffuseFactor != nil && *p.DiffuseFactor == [4]float64{1, 1, 1, 1} {
+		tmp.DiffuseFactor = nil
+	}
+	if p.SpecularFactor != nil && *p.SpecularFactor == [3]float64{1, 1, 1} {
+		tmp.SpecularFactor = nil
+	}
+	return json.Marshal(&tmp)
 }
-- 
2.43.0


From 4f7876e0a3db3c82719c1c391f04ea6c8122e68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:05 +0000
Subject: [PATCH 23/27] fix: write the asset version at the same position when
 it is defaulted

---
 encode.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/encode.go b/encode.go
index 4a3a129..07ef0e8 100644
--- a/encode.go
+++ b/encode.go
@@ -275,16 +275,11 @@ func (as *Asset) UnmarshalJSON(data []byte) error {
 // MarshalJSON marshal the asset with the correct default values.
 func (as *Asset) MarshalJSON() ([]byte, error) {
 	type alias Asset
-	if as.Version == "" {
-		return json.Marshal(&struct {
-			Version string `json:"version,omitempty"`
-			*alias
-		}{
-			Version: "2.0",
-			alias:   (*alias)(as),
-		})
+	tmp := alias(*as)
+	if tmp.Version == "" {
+		tmp.Version = "2.0"
 	}
-	return json.Marshal((*alias)(as))
+	return json.Marshal(&tmp)
 }
 
 // UnmarshalJSON unmarshal the node with the correct default values.
-- 
2.43.0


From 9a1143d4847ed5b5a7c14b00dd2b4cf2bc24ed7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:37 +0000
Subject: [PATCH 24/27] fix: report a read failure in the first bytes of the
 stream

The failure was discarded together with the attempt to find a GLB header, so a
reader that recovers afterwards made Decode succeed.
---
 decoder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 11da995..639f603 100644
--- a/decoder.go
+++ b/decoder.go
@@ -129,8 +129,10 @@ func (d *Decoder) decodeDocument(doc *Document) (bool, error) {
 func (d *Decoder) readGLBHeader() (*glbHeader, error) {
 	var header glbHeader
 	chunk, err := d.r.Peek(binary.Size(header))
-	if err != nil {
+	if err == io.EOF {
 		return nil, nil
+	} else if err != nil {
+		return nil, err
 	}
 	r := bytes.NewReader(chunk)
 	binary.Read(r, binary.LittleEndian, &header)
-- 
2.43.0


From 9f00f8d926b9bc09e40e54d79660fe5d0eaa141b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:54 +0000
Subject: [PATCH 25/27] fix: read vectors whose trailing padding is missing

---
 binary/encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binary/encode.go b/binary/encode.go
index 3482db9..e57f301 100644
--- a/binary/encode.go
+++ b/binary/encode.go
@@ -30,6 +30,10 @@ func Read(b []byte, byteStride int, data any) error {
 		byteStride = size
 	}
 	e := int(byteStride)
+	if t < gltf.AccessorMat2 {
+		// The padding after the last vector can be missing.
+		size = c.ByteSize() * t.Components()
+	}
 	if !fits(len(b), n, e, size) {
 		return io.ErrShortBuffer
 	}
-- 
2.43.0


From bb14f9352c8ebc1091283cf55018647e1b25e0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:29 +0000
Subject: [PATCH 26/27] fix: refuse to write a GLB that does not fit in 32-bit
 lengths

---
 encode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encode.go b/encode.go
index 07ef0e8..fb9ed96 100644
--- a/encode.go
+++ b/encode.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"math"
 	"os"
 	"path/filepath"
 )
@@ -190,11 +191,16 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 		headerPadding[i] = ' '
 	}
 
+	total := uint64(20 + len(jsonText) + len(headerPadding))
 	hasBinChunk := len(doc.Buffers) > 0 && doc.Buffers[0].URI == ""
 	var binPaddedLength int
 	if hasBinChunk {
 		binPaddedLength = ((doc.Buffers[0].ByteLength + 3) / 4) * 4
 		header.Length += uint32(8 + binPaddedLength)
+		total += uint64(8 + binPaddedLength)
+	}
+	if total > math.MaxUint32 {
+		return false, errors.New("gltf: document does not fit in a GLB, which is limited to 4 GiB")
 	}
 
 	w := &errWriter{w: e.w}
-- 
2.43.0


From 2e34e750d1201f3d3800d8e2d48d4654ef7d288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:46 +0000
Subject: [PATCH 27/27] fix: keep data URIs as they are

---
 decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder.go b/decoder.go
index 639f603..930a540 100644
--- a/decoder.go
+++ b/decoder.go
@@ -225,6 +225,10 @@ func validateBufferURI(uri string) error {
 }
 
 func sanitizeURI(uri string) (string, bool) {
+	if strings.HasPrefix(uri, "data:") {
+		// It holds the data itself, there is no path to normalize.
+		return uri, true
+	}
 	uri = strings.Replace(uri, "\\", "/", -1)
 	for strings.Contains(uri, "/./") {
 		uri = strings.Replace(uri, "/./", "/", -1)
-- 
2.43.0

