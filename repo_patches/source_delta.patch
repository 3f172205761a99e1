From e5c00c6fbed8961011b580f1f7959d368964ce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 01/13] fix: binary.Read and Write honour the stride of
 one-byte scalars and reject strides that do not fit

---
 binary/encode.go | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/binary/encode.go b/binary/encode.go
index 01a4226..5e4d153 100644
--- a/binary/encode.go
+++ b/binary/encode.go
@@ -9,6 +9,18 @@ import (
 	"github.com/qmuntal/gltf"
 )
 
+// inBounds reports whether n elements of the given size,
+// placed every stride bytes, fit in length bytes.
+func inBounds(length, n, stride, size int) bool {
+	if stride < 0 {
+		return false
+	}
+	if n == 0 {
+		return true
+	}
+	return length >= size && n-1 <= (length-size)/stride
+}
+
 // Read reads structured binary data from b into data.
 // byteStride can be zero for non-interleaved buffer views.
 //
@@ -21,11 +33,7 @@ func Read(b []byte, byteStride int, data any) error {
 		byteStride = size
 	}
 	e := int(byteStride)
-	high := int(n) * e
-	if byteStride != size {
-		high -= int(byteStride - size)
-	}
-	if len(b) < high {
+	if !inBounds(len(b), n, e, size) {
 		return io.ErrShortBuffer
 	}
 	switch data := data.(type) {
@@ -40,8 +48,8 @@ func Read(b []byte, byteStride int, data any) error {
 			data[i] = color.RGBA64{R: c[0], G: c[1], B: c[2], A: c[3]}
 		}
 	case []int8:
-		for i, x := range b {
-			data[i] = int8(x)
+		for i := range data {
+			data[i] = Byte.Scalar(b[e*i:])
 		}
 	case [][2]int8:
 		for i := range data {
@@ -68,7 +76,7 @@ func Read(b []byte, byteStride int, data any) error {
 			data[i] = Byte.Mat4(b[e*i:])
 		}
 	case []uint8:
-		if byteStride != 1 {
+		if byteStride == 1 {
 			copy(data, b)
 		} else {
 			for i := range data {
@@ -224,17 +232,17 @@ func Read(b []byte, byteStride int, data any) error {
 // else it fallbacks to `encoding/binary.Write`.
 func Write(b []byte, stride int, data any) error {
 	c, t, n := Type(data)
-	if n == 0 {
-		return binary.Write(bytes.NewBuffer(b), binary.LittleEndian, data)
-	}
 	e := int(stride)
 	sizeOfElement := int(gltf.SizeOfElement(c, t))
 	if stride == 0 {
 		e = sizeOfElement
 	}
-	if len(b) < e*(int(n)-1)+sizeOfElement {
+	if !inBounds(len(b), n, e, sizeOfElement) {
 		return io.ErrShortBuffer
 	}
+	if n == 0 {
+		return binary.Write(bytes.NewBuffer(b), binary.LittleEndian, data)
+	}
 	switch data := data.(type) {
 	case []color.RGBA:
 		for i, x := range data {
@@ -273,7 +281,13 @@ func Write(b []byte, stride int, data any) error {
 			Byte.PutMat4(b[e*i:], data[i])
 		}
 	case []uint8:
-		copy(b, data)
+		if e == 1 {
+			copy(b, data)
+		} else {
+			for i, x := range data {
+				Ubyte.PutScalar(b[e*i:], x)
+			}
+		}
 	case [][2]uint8:
 		for i := range data {
 			Ubyte.PutVec2(b[e*i:], data[i])
-- 
2.43.0


From 582fdb616e1d68a9d170fdb14ba873615e7e16d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:35 +0000
Subject: [PATCH 02/13] fix: MakeSliceBuffer supports 3x3 matrices of unsigned
 integers

---
 binary/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary/slice.go b/binary/slice.go
index 7a1dd4f..3b37118 100644
--- a/binary/slice.go
+++ b/binary/slice.go
@@ -112,7 +112,7 @@ func castSlice(c gltf.ComponentType, t gltf.AccessorType, count int, v []byte) a
 		case gltf.AccessorMat2:
 			return reslice[[2][2]uint32](v, l, rem)
 		case gltf.AccessorMat3:
-
+			return reslice[[3][3]uint32](v, l, rem)
 		case gltf.AccessorMat4:
 			return reslice[[4][4]uint32](v, l, rem)
 		}
-- 
2.43.0


From 0d0f91a3c117d63b1782604c66673b3ad474992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:22 +0000
Subject: [PATCH 03/13] fix: return errors for malformed accessors and buffer
 views

ReadAccessor and ReadBufferView panicked on negative, huge or dangling
indices, offsets, lengths and counts, missing entries and sparse indices
outside of the accessor.
---
 modeler/read.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/modeler/read.go b/modeler/read.go
index fc4d6f8..be14d4d 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"reflect"
 	"sync"
 
@@ -29,17 +30,30 @@ var uint32Pool = sync.Pool{
 // ReadAccessor is safe to use even with malformed documents.
 // If that happens it will return an error instead of panic.
 func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, error) {
-	data, err := binary.MakeSliceBuffer(acr.ComponentType, acr.Type, acr.Count, buffer)
-	if err != nil {
-		return nil, err
+	if uint64(acr.Count) > math.MaxUint32 {
+		return nil, fmt.Errorf("gltf: invalid accessor count %d", acr.Count)
 	}
+	var view []byte
 	if acr.BufferView != nil {
 		buf, err := readBufferView(doc, *acr.BufferView)
 		if err != nil {
 			return nil, err
 		}
+		if acr.ByteOffset < 0 || acr.ByteOffset > len(buf) {
+			return nil, io.ErrShortBuffer
+		}
+		view = buf[acr.ByteOffset:]
+		if acr.Count > len(view) {
+			return nil, io.ErrShortBuffer
+		}
+	}
+	data, err := binary.MakeSliceBuffer(acr.ComponentType, acr.Type, acr.Count, buffer)
+	if err != nil {
+		return nil, err
+	}
+	if acr.BufferView != nil {
 		byteStride := doc.BufferViews[*acr.BufferView].ByteStride
-		err = binary.Read(buf[acr.ByteOffset:], byteStride, data)
+		err = binary.Read(view, byteStride, data)
 		if err != nil {
 			return nil, err
 		}
@@ -75,6 +89,9 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 		s := reflect.ValueOf(data)
 		vals := reflect.ValueOf(values)
 		for i := 0; i < int(acr.Sparse.Count); i++ {
+			if int64(indices[i]) >= int64(acr.Count) {
+				return nil, fmt.Errorf("gltf: sparse index %d overflows accessor count %d", indices[i], acr.Count)
+			}
 			s.Index(int(indices[i])).Set(vals.Index(i))
 		}
 	}
@@ -82,7 +99,7 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 }
 
 func readBufferView(doc *gltf.Document, bufferViewIndex int) ([]byte, error) {
-	if len(doc.BufferViews) <= bufferViewIndex {
+	if bufferViewIndex < 0 || len(doc.BufferViews) <= bufferViewIndex || doc.BufferViews[bufferViewIndex] == nil {
 		return nil, errors.New("gltf: bufferview index overflows")
 	}
 	return ReadBufferView(doc, doc.BufferViews[bufferViewIndex])
@@ -94,15 +111,15 @@ func readBufferView(doc *gltf.Document, bufferViewIndex int) ([]byte, error) {
 // It is safe to use even with malformed documents.
 // If that happens it will return an error instead of panic.
 func ReadBufferView(doc *gltf.Document, bv *gltf.BufferView) ([]byte, error) {
-	if len(doc.Buffers) <= bv.Buffer {
+	if bv.Buffer < 0 || len(doc.Buffers) <= bv.Buffer || doc.Buffers[bv.Buffer] == nil {
 		return nil, errors.New("gltf: buffer index overflows")
 	}
 	buf := doc.Buffers[bv.Buffer].Data
 
-	high := bv.ByteOffset + bv.ByteLength
-	if len(buf) < high {
+	if bv.ByteOffset < 0 || bv.ByteLength < 0 || bv.ByteOffset > len(buf) || bv.ByteLength > len(buf)-bv.ByteOffset {
 		return nil, io.ErrShortBuffer
 	}
+	high := bv.ByteOffset + bv.ByteLength
 	return buf[bv.ByteOffset:high], nil
 }
 
-- 
2.43.0


From 1c25571390960daa1e2307f797cd6142eabef32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:22 +0000
Subject: [PATCH 04/13] fix: accessors without buffer view read as zero with a
 used buffer

---
 modeler/read.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modeler/read.go b/modeler/read.go
index be14d4d..78260ef 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -46,6 +46,9 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 		if acr.Count > len(view) {
 			return nil, io.ErrShortBuffer
 		}
+	} else {
+		// The elements are zero, so a used buffer can't back them.
+		buffer = nil
 	}
 	data, err := binary.MakeSliceBuffer(acr.ComponentType, acr.Type, acr.Count, buffer)
 	if err != nil {
-- 
2.43.0


From 70528b82261679af00127fc2bae2ab825e1c238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:22 +0000
Subject: [PATCH 05/13] fix: typed readers honour a zero count when given a
 buffer

---
 modeler/read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modeler/read.go b/modeler/read.go
index 78260ef..6e87a5e 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -136,10 +136,10 @@ var bufPool = sync.Pool{
 func makeBufferOf[T any](count int, buffer []T) []T {
 	if len(buffer) < count {
 		buffer = append(buffer, make([]T, count-len(buffer))...)
-	} else if count != 0 {
-		buffer = buffer[:count]
 	} else if buffer == nil {
 		buffer = make([]T, 0)
+	} else {
+		buffer = buffer[:count]
 	}
 	return buffer
 }
-- 
2.43.0


From 33d3ce7b699039eed63b2fcd2d4d43772d3b2a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:32 +0000
Subject: [PATCH 06/13] fix: report failed writes of the JSON and BIN chunks

---
 encode.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/encode.go b/encode.go
index f8a29ad..a81bc4d 100644
--- a/encode.go
+++ b/encode.go
@@ -175,8 +175,12 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	e.w.Write(jsonText)
-	e.w.Write(headerPadding)
+	if _, err = e.w.Write(jsonText); err != nil {
+		return false, err
+	}
+	if _, err = e.w.Write(headerPadding); err != nil {
+		return false, err
+	}
 
 	if hasBinChunk {
 		binBuffer := doc.Buffers[0]
@@ -185,8 +189,12 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 			binPadding[i] = 0
 		}
 		binHeader := chunkHeader{Length: uint32(binPaddedLength), Type: glbChunkBIN}
-		binary.Write(e.w, binary.LittleEndian, &binHeader)
-		e.w.Write(binBuffer.Data)
+		if err = binary.Write(e.w, binary.LittleEndian, &binHeader); err != nil {
+			return false, err
+		}
+		if _, err = e.w.Write(binBuffer.Data); err != nil {
+			return false, err
+		}
 		_, err = e.w.Write(binPadding)
 	}
 
-- 
2.43.0


From 830553f47368447ca811132f9be24ff16c140de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:54 +0000
Subject: [PATCH 07/13] fix: keep external resources inside the document's
 directory whatever their URI encoding

---
 decoder.go | 11 ++++++++++-
 encode.go  |  6 ++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 8ca826c..6db55f0 100644
--- a/decoder.go
+++ b/decoder.go
@@ -155,7 +155,7 @@ func (d *Decoder) decodeBuffer(buffer *Buffer) error {
 		buffer.Data, err = buffer.marshalData()
 	} else {
 		err = validateBufferURI(buffer.URI)
-		if err == nil && d.Fsys != nil {
+		if err == nil && d.Fsys != nil && isLocalURI(buffer.URI) {
 			buffer.Data, err = fs.ReadFile(d.Fsys, buffer.URI)
 			if len(buffer.Data) > int(buffer.ByteLength) {
 				buffer.Data = buffer.Data[:buffer.ByteLength:buffer.ByteLength]
@@ -201,6 +201,15 @@ func validateBufferURI(uri string) error {
 	return nil
 }
 
+// isLocalURI reports whether the sanitized uri names a file that is
+// reachable from the document's directory without leaving it.
+func isLocalURI(uri string) bool {
+	if u, err := url.Parse(uri); err == nil && u.Scheme != "" {
+		return false
+	}
+	return filepath.IsLocal(strings.ReplaceAll(uri, "\\", "/"))
+}
+
 func sanitizeURI(uri string) (string, bool) {
 	uri = strings.Replace(uri, "\\", "/", -1)
 	uri = strings.Replace(uri, "/./", "/", -1)
diff --git a/encode.go b/encode.go
index a81bc4d..a77fcb4 100644
--- a/encode.go
+++ b/encode.go
@@ -133,6 +133,12 @@ func (e *Encoder) encodeBuffer(buffer *Buffer) error {
 	if !ok {
 		return nil
 	}
+	if err := validateBufferURI(uri); err != nil {
+		return err
+	}
+	if !isLocalURI(uri) {
+		return nil
+	}
 	w, err := e.Fsys.Create(uri)
 	if err != nil {
 		return err
-- 
2.43.0


From e0f3fa0ea551e5de1e5e4b37bb1a556de5005404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:55 +0000
Subject: [PATCH 08/13] fix: reject null buffers and images, negative and
 truncated lengths when decoding

---
 decoder.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index 6db55f0..1c3df40 100644
--- a/decoder.go
+++ b/decoder.go
@@ -63,6 +63,9 @@ func (d *Decoder) Decode(doc *Document) error {
 	}
 
 	for _, b := range doc.Buffers {
+		if b == nil {
+			return errors.New("gltf: null buffer")
+		}
 		if !b.IsEmbeddedResource() {
 			if uri, ok := sanitizeURI(b.URI); ok {
 				b.URI = uri
@@ -70,6 +73,9 @@ func (d *Decoder) Decode(doc *Document) error {
 		}
 	}
 	for _, im := range doc.Images {
+		if im == nil {
+			return errors.New("gltf: null image")
+		}
 		if !im.IsEmbeddedResource() {
 			if uri, ok := sanitizeURI(im.URI); ok {
 				im.URI = uri
@@ -129,7 +135,7 @@ func (d *Decoder) readGLBHeader() (*glbHeader, error) {
 }
 
 func (d *Decoder) validateGLBHeader(header *glbHeader) error {
-	if header.JSONHeader.Type != glbChunkJSON || (header.JSONHeader.Length+uint32(binary.Size(header))) > header.Length {
+	if header.JSONHeader.Type != glbChunkJSON || uint64(header.JSONHeader.Length)+uint64(binary.Size(header)) > uint64(header.Length) {
 		return errors.New("gltf: Invalid GLB JSON header")
 	}
 	return nil
@@ -176,7 +182,7 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 	if err != nil {
 		return err
 	}
-	if header.Type != glbChunkBIN || header.Length < uint32(buffer.ByteLength) {
+	if header.Type != glbChunkBIN || uint64(header.Length) < uint64(buffer.ByteLength) {
 		return errors.New("gltf: Invalid GLB BIN header")
 	}
 	buffer.Data = make([]byte, buffer.ByteLength)
@@ -185,8 +191,8 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 }
 
 func (d *Decoder) validateBuffer(buffer *Buffer) error {
-	if buffer.ByteLength == 0 {
-		return errors.New("gltf: Invalid buffer.byteLength value = 0")
+	if buffer.ByteLength <= 0 {
+		return fmt.Errorf("gltf: Invalid buffer.byteLength value = %d", buffer.ByteLength)
 	}
 	return nil
 }
-- 
2.43.0


From d2ef6d10d7dd619b903beaa2f320633a5a3542a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:07 +0000
Subject: [PATCH 09/13] fix: skip the rest of the JSON chunk before reading the
 BIN chunk

---
 decoder.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/decoder.go b/decoder.go
index 1c3df40..6e88eb1 100644
--- a/decoder.go
+++ b/decoder.go
@@ -103,20 +103,18 @@ func (d *Decoder) decodeDocument(doc *Document) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	var (
-		jd       *json.Decoder
-		isBinary bool
-	)
-	if glbHeader != nil {
-		jd = json.NewDecoder(&io.LimitedReader{R: d.r, N: int64(glbHeader.JSONHeader.Length)})
-		isBinary = true
-	} else {
-		jd = json.NewDecoder(d.r)
-		isBinary = false
+	if glbHeader == nil {
+		return false, json.NewDecoder(d.r).Decode(doc)
 	}
-
-	err = jd.Decode(doc)
-	return isBinary, err
+	chunk := &io.LimitedReader{R: d.r, N: int64(glbHeader.JSONHeader.Length)}
+	if err = json.NewDecoder(chunk).Decode(doc); err != nil {
+		return true, err
+	}
+	// Skip the part of the chunk that follows the JSON text.
+	if _, err = io.Copy(io.Discard, chunk); err == nil && chunk.N > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return true, err
 }
 
 func (d *Decoder) readGLBHeader() (*glbHeader, error) {
-- 
2.43.0


From 7c2a5e3d6b602f0edc3d08272dddc60faf674540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:40 +0000
Subject: [PATCH 10/13] fix: omit default specular-glossiness factors without
 editing the JSON text

---
 ext/specular/specular.go | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/ext/specular/specular.go b/ext/specular/specular.go
index 6752474..ec09c86 100644
--- a/ext/specular/specular.go
+++ b/ext/specular/specular.go
@@ -1,7 +1,6 @@
 package specular
 
 import (
-	"bytes"
 	"encoding/json"
 
 	"github.com/qmuntal/gltf"
@@ -46,28 +45,15 @@ func (p *PBRSpecularGlossiness) UnmarshalJSON(data []byte) error {
 // MarshalJSON marshal the pbr with the correct default values.
 func (p *PBRSpecularGlossiness) MarshalJSON() ([]byte, error) {
 	type alias PBRSpecularGlossiness
-	out, err := json.Marshal(&struct{ *alias }{alias: (*alias)(p)})
-	if err == nil {
-		if p.GlossinessFactor != nil && *p.GlossinessFactor == 1 {
-			out = removeProperty([]byte(`"glossinessFactor":1`), out)
-		}
-		if p.DiffuseFactor != nil && *p.DiffuseFactor == [4]float64{1, 1, 1, 1} {
-			out = removeProperty([]byte(`"diffuseFactor":[1,1,1,1]`), out)
-		}
-		if p.SpecularFactor != nil && *p.SpecularFactor == [3]float64{1, 1, 1} {
-			out = removeProperty([]byte(`"specularFactor":[1,1,1]`), out)
-		}
-		out = sanitizeJSON(out)
+	tmp := alias(*p)
+	if p.GlossinessFactor != nil && *p.GlossinessFactor == 1 {
+		tmp.GlossinessFactor = nil
 	}
-	return out, err
-}
-
-func removeProperty(str []byte, b []byte) []byte {
-	b = bytes.Replace(b, str, []byte(""), 1)
-	return bytes.Replace(b, []byte(`,,`), []byte(","), 1)
-}
-
-func sanitizeJSON(b []byte) []byte {
-	b = bytes.Replace(b, []byte(`{,`), []byte("{"), 1)
-	return bytes.Replace(b, []byte(`,}`), []byte("}"), 1)
+	if p.DiffuseFactor != nil && *p.DiffuseFactor == [4]float64{1, 1, 1, 1} {
+		tmp.DiffuseFactor = nil
+	}
+	if p.SpecularFactor != nil && *p.SpecularFactor == [3]float64{1, 1, 1} {
+		tmp.SpecularFactor = nil
+	}
+	return json.Marshal(&tmp)
 }
-- 
2.43.0


From 0d0fc75af014552f15da945ced3b8de1078e3230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:51 +0000
Subject: [PATCH 11/13] fix: marshal punctual lights in their envelope and
 without infinite ranges

---
 ext/lightspunctual/lightspunctual.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ext/lightspunctual/lightspunctual.go b/ext/lightspunctual/lightspunctual.go
index 6365db3..f11320f 100644
--- a/ext/lightspunctual/lightspunctual.go
+++ b/ext/lightspunctual/lightspunctual.go
@@ -48,6 +48,11 @@ const (
 // LightIndex is the id of the light referenced by this node.
 type LightIndex int
 
+// MarshalJSON marshal the light index as the payload of a node extension.
+func (l LightIndex) MarshalJSON() ([]byte, error) {
+	return json.Marshal(map[string]int{"light": int(l)})
+}
+
 // Spot defines the spot cone.
 type Spot struct {
 	InnerConeAngle float64  `json:"innerConeAngle,omitempty"`
@@ -76,6 +81,11 @@ func (s *Spot) UnmarshalJSON(data []byte) error {
 // Lights defines a list of Lights.
 type Lights []*Light
 
+// MarshalJSON marshal the lights as the payload of a document extension.
+func (l Lights) MarshalJSON() ([]byte, error) {
+	return json.Marshal(map[string][]*Light{"lights": l})
+}
+
 // Light defines a directional, point, or spot light.
 // When a light's type is spot, the spot property on the light is required.
 type Light struct {
@@ -113,3 +123,13 @@ func (l *Light) UnmarshalJSON(data []byte) error {
 	}
 	return err
 }
+
+// MarshalJSON marshal the light with the correct default values.
+func (l *Light) MarshalJSON() ([]byte, error) {
+	type alias Light
+	tmp := alias(*l)
+	if tmp.Range != nil && math.IsInf(*tmp.Range, 1) {
+		tmp.Range = nil
+	}
+	return json.Marshal(&tmp)
+}
-- 
2.43.0


From cc30bce073a07721217a53faa798b3b80b35a8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:48 +0000
Subject: [PATCH 12/13] fix: convert full intensity colours to exactly 1

linearize added 0.055 in float32, so 255 and 65535 became 0.9999999 and
65535 did not survive the round trip.
---
 math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math.go b/math.go
index 1a4904d..efd4530 100644
--- a/math.go
+++ b/math.go
@@ -130,7 +130,7 @@ func linearize(v float32) float32 {
 	if v <= 0.04045 {
 		return float32(v / 12.92)
 	}
-	return float32(math.Pow(float64(v+0.055)/1.055, 2.4))
+	return float32(math.Pow((float64(v)+0.055)/1.055, 2.4))
 }
 
 func deliniarize(v float32) float32 {
-- 
2.43.0


From 923d3885402af1920d90210609fd8697abb5d6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:39 +0000
Subject: [PATCH 13/13] fix: interleaving attributes without elements panicked

The second attribute was written at an offset past the end of the buffer.
---
 modeler/write.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modeler/write.go b/modeler/write.go
index bbcfd6e..949b7f7 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -337,6 +337,10 @@ func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int,
 	buffer.Data = append(buffer.Data, make([]byte, size)...)
 	dataOffset := offset
 	for _, d := range data {
+		if refLength == 0 {
+			// Without elements the offsets of the attributes are past the end of the buffer.
+			break
+		}
 		// Cannot return error as the buffer has enough size and the data type is controlled.
 		_ = binary.Write(buffer.Data[dataOffset:], stride, d)
 		c, a, _ := binary.Type(d)
-- 
2.43.0

