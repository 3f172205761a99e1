// Code generated by tools/gen_specs.py. DO NOT EDIT.

package modeler

import (
	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/binary"
	zz "github.com/qmuntal/gltf/zzverif"
)

func specStride(stride, size int) int {
	if stride == 0 {
		return size
	}
	return stride
}

// specViewOK: the view lies inside the data of an existing buffer.
func specViewOK(doc *gltf.Document, bv *gltf.BufferView) bool {
	return bv.Buffer >= 0 && bv.Buffer < len(doc.Buffers) && doc.Buffers[bv.Buffer] != nil &&
		bv.ByteOffset >= 0 && bv.ByteLength >= 0 && bv.ByteOffset <= len(doc.Buffers[bv.Buffer].Data) &&
		bv.ByteLength <= len(doc.Buffers[bv.Buffer].Data)-bv.ByteOffset
}

func specHasView(doc *gltf.Document, i int) bool {
	return i >= 0 && i < len(doc.BufferViews) && doc.BufferViews[i] != nil && specViewOK(doc, doc.BufferViews[i])
}

func specViewBytes(doc *gltf.Document, i int) []byte {
	bv := doc.BufferViews[i]
	return doc.Buffers[bv.Buffer].Data[bv.ByteOffset : bv.ByteOffset+bv.ByteLength]
}

// specFits: n elements of size bytes starting at off of view i fit in the view.
func specFits(doc *gltf.Document, i, off, n, size int) bool {
	return off >= 0 && off <= doc.BufferViews[i].ByteLength &&
		binary.SpecFits(doc.BufferViews[i].ByteLength-off, n, specStride(doc.BufferViews[i].ByteStride, size), size)
}

// specApart: buffer shares no memory with the buffers of doc.
func specApart(doc *gltf.Document, buffer []byte) bool {
	return zz.Forall(0, len(doc.Buffers), func(i int) bool {
		return doc.Buffers[i] == nil || zz.DisjointMem(buffer, doc.Buffers[i].Data)
	})
}

// specIndex is sparse index i.
func specIndex(doc *gltf.Document, s *gltf.Sparse, i int) int {
	b := specViewBytes(doc, s.Indices.BufferView)
	bs := doc.BufferViews[s.Indices.BufferView].ByteStride
	switch s.Indices.ComponentType {
	case gltf.ComponentUbyte:
		return int(b[s.Indices.ByteOffset+specStride(bs, 1)*i])
	case gltf.ComponentUshort:
		o := s.Indices.ByteOffset + specStride(bs, 2)*i
		return int(b[o]) + int(b[o+1])*256
	default:
		o := s.Indices.ByteOffset + specStride(bs, 4)*i
		return int(b[o]) + int(b[o+1])*256 + int(b[o+2])*65536 + int(b[o+3])*16777216
	}
}

func specIndexSize(c gltf.ComponentType) int {
	switch c {
	case gltf.ComponentUbyte:
		return 1
	case gltf.ComponentUshort:
		return 2
	case gltf.ComponentUint:
		return 4
	}
	return 0
}

// specSparseOK: the sparse part can be read.
func specSparseOK(doc *gltf.Document, s *gltf.Sparse, size int) bool {
	return s.Count >= 0 && specIndexSize(s.Indices.ComponentType) > 0 &&
		specHasView(doc, s.Indices.BufferView) && specHasView(doc, s.Values.BufferView) &&
		specFits(doc, s.Indices.BufferView, s.Indices.ByteOffset, s.Count, specIndexSize(s.Indices.ComponentType)) &&
		specFits(doc, s.Values.BufferView, s.Values.ByteOffset, s.Count, size)
}

// specElem_Byte_Scalar: v is element i of acr without its sparse part.
func specElem_Byte_Scalar(doc *gltf.Document, acr *gltf.Accessor, i int, v int8) bool {
	if acr.BufferView == nil {
		var z int8
		return zz.Same(v, z)
	}
	return binary.SpecAt_Byte_Scalar(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 1)*i, v)
}

// specSparse_Byte_Scalar: v is value i of the sparse part.
func specSparse_Byte_Scalar(doc *gltf.Document, s *gltf.Sparse, i int, v int8) bool {
	return binary.SpecAt_Byte_Scalar(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 1)*i, v)
}

// specElem_Byte_Vec2: v is element i of acr without its sparse part.
func specElem_Byte_Vec2(doc *gltf.Document, acr *gltf.Accessor, i int, v [2]int8) bool {
	if acr.BufferView == nil {
		var z [2]int8
		return zz.Same(v, z)
	}
	return binary.SpecAt_Byte_Vec2(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 4)*i, v)
}

// specSparse_Byte_Vec2: v is value i of the sparse part.
func specSparse_Byte_Vec2(doc *gltf.Document, s *gltf.Sparse, i int, v [2]int8) bool {
	return binary.SpecAt_Byte_Vec2(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 4)*i, v)
}

// specElem_Byte_Vec3: v is element i of acr without its sparse part.
func specElem_Byte_Vec3(doc *gltf.Document, acr *gltf.Accessor, i int, v [3]int8) bool {
	if acr.BufferView == nil {
		var z [3]int8
		return zz.Same(v, z)
	}
	return binary.SpecAt_Byte_Vec3(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 4)*i, v)
}

// specSparse_Byte_Vec3: v is value i of the sparse part.
func specSparse_Byte_Vec3(doc *gltf.Document, s *gltf.Sparse, i int, v [3]int8) bool {
	return binary.SpecAt_Byte_Vec3(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 4)*i, v)
}

// specElem_Byte_Vec4: v is element i of acr without its sparse part.
func specElem_Byte_Vec4(doc *gltf.Document, acr *gltf.Accessor, i int, v [4]int8) bool {
	if acr.BufferView == nil {
		var z [4]int8
		return zz.Same(v, z)
	}
	return binary.SpecAt_Byte_Vec4(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 4)*i, v)
}

// specSparse_Byte_Vec4: v is value i of the sparse part.
func specSparse_Byte_Vec4(doc *gltf.Document, s *gltf.Sparse, i int, v [4]int8) bool {
	return binary.SpecAt_Byte_Vec4(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 4)*i, v)
}

// specElem_Byte_Mat2: v is element i of acr without its sparse part.
func specElem_Byte_Mat2(doc *gltf.Document, acr *gltf.Accessor, i int, v [2][2]int8) bool {
	if acr.BufferView == nil {
		var z [2][2]int8
		return zz.Same(v, z)
	}
	return binary.SpecAt_Byte_Mat2(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 8)*i, v)
}

// specSparse_Byte_Mat2: v is value i of the sparse part.
func specSparse_Byte_Mat2(doc *gltf.Document, s *gltf.Sparse, i int, v [2][2]int8) bool {
	return binary.SpecAt_Byte_Mat2(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 8)*i, v)
}

// specElem_Byte_Mat3: v is element i of acr without its sparse part.
func specElem_Byte_Mat3(doc *gltf.Document, acr *gltf.Accessor, i int, v [3][3]int8) bool {
	if acr.BufferView == nil {
		var z [3][3]int8
		return zz.Same(v, z)
	}
	return binary.SpecAt_Byte_Mat3(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 12)*i, v)
}

// specSparse_Byte_Mat3: v is value i of the sparse part.
func specSparse_Byte_Mat3(doc *gltf.Document, s *gltf.Sparse, i int, v [3][3]int8) bool {
	return binary.SpecAt_Byte_Mat3(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 12)*i, v)
}

// specElem_Byte_Mat4: v is element i of acr without its sparse part.
func specElem_Byte_Mat4(doc *gltf.Document, acr *gltf.Accessor, i int, v [4][4]int8) bool {
	if acr.BufferView == nil {
		var z [4][4]int8
		return zz.Same(v, z)
	}
	return binary.SpecAt_Byte_Mat4(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 16)*i, v)
}

// specSparse_Byte_Mat4: v is value i of the sparse part.
func specSparse_Byte_Mat4(doc *gltf.Document, s *gltf.Sparse, i int, v [4][4]int8) bool {
	return binary.SpecAt_Byte_Mat4(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 16)*i, v)
}

// specElem_Ubyte_Scalar: v is element i of acr without its sparse part.
func specElem_Ubyte_Scalar(doc *gltf.Document, acr *gltf.Accessor, i int, v uint8) bool {
	if acr.BufferView == nil {
		var z uint8
		return zz.Same(v, z)
	}
	return binary.SpecAt_Ubyte_Scalar(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 1)*i, v)
}

// specSparse_Ubyte_Scalar: v is value i of the sparse part.
func specSparse_Ubyte_Scalar(doc *gltf.Document, s *gltf.Sparse, i int, v uint8) bool {
	return binary.SpecAt_Ubyte_Scalar(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 1)*i, v)
}

// specElem_Ubyte_Vec2: v is element i of acr without its sparse part.
func specElem_Ubyte_Vec2(doc *gltf.Document, acr *gltf.Accessor, i int, v [2]uint8) bool {
	if acr.BufferView == nil {
		var z [2]uint8
		return zz.Same(v, z)
	}
	return binary.SpecAt_Ubyte_Vec2(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 4)*i, v)
}

// specSparse_Ubyte_Vec2: v is value i of the sparse part.
func specSparse_Ubyte_Vec2(doc *gltf.Document, s *gltf.Sparse, i int, v [2]uint8) bool {
	return binary.SpecAt_Ubyte_Vec2(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 4)*i, v)
}

// specElem_Ubyte_Vec3: v is element i of acr without its sparse part.
func specElem_Ubyte_Vec3(doc *gltf.Document, acr *gltf.Accessor, i int, v [3]uint8) bool {
	if acr.BufferView == nil {
		var z [3]uint8
		return zz.Same(v, z)
	}
	return binary.SpecAt_Ubyte_Vec3(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 4)*i, v)
}

// specSparse_Ubyte_Vec3: v is value i of the sparse part.
func specSparse_Ubyte_Vec3(doc *gltf.Document, s *gltf.Sparse, i int, v [3]uint8) bool {
	return binary.SpecAt_Ubyte_Vec3(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 4)*i, v)
}

// specElem_Ubyte_Vec4: v is element i of acr without its sparse part.
func specElem_Ubyte_Vec4(doc *gltf.Document, acr *gltf.Accessor, i int, v [4]uint8) bool {
	if acr.BufferView == nil {
		var z [4]uint8
		return zz.Same(v, z)
	}
	return binary.SpecAt_Ubyte_Vec4(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 4)*i, v)
}

// specSparse_Ubyte_Vec4: v is value i of the sparse part.
func specSparse_Ubyte_Vec4(doc *gltf.Document, s *gltf.Sparse, i int, v [4]uint8) bool {
	return binary.SpecAt_Ubyte_Vec4(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 4)*i, v)
}

// specElem_Ubyte_Mat2: v is element i of acr without its sparse part.
func specElem_Ubyte_Mat2(doc *gltf.Document, acr *gltf.Accessor, i int, v [2][2]uint8) bool {
	if acr.BufferView == nil {
		var z [2][2]uint8
		return zz.Same(v, z)
	}
	return binary.SpecAt_Ubyte_Mat2(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 8)*i, v)
}

// specSparse_Ubyte_Mat2: v is value i of the sparse part.
func specSparse_Ubyte_Mat2(doc *gltf.Document, s *gltf.Sparse, i int, v [2][2]uint8) bool {
	return binary.SpecAt_Ubyte_Mat2(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 8)*i, v)
}

// specElem_Ubyte_Mat3: v is element i of acr without its sparse part.
func specElem_Ubyte_Mat3(doc *gltf.Document, acr *gltf.Accessor, i int, v [3][3]uint8) bool {
	if acr.BufferView == nil {
		var z [3][3]uint8
		return zz.Same(v, z)
	}
	return binary.SpecAt_Ubyte_Mat3(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 12)*i, v)
}

// specSparse_Ubyte_Mat3: v is value i of the sparse part.
func specSparse_Ubyte_Mat3(doc *gltf.Document, s *gltf.Sparse, i int, v [3][3]uint8) bool {
	return binary.SpecAt_Ubyte_Mat3(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 12)*i, v)
}

// specElem_Ubyte_Mat4: v is element i of acr without its sparse part.
func specElem_Ubyte_Mat4(doc *gltf.Document, acr *gltf.Accessor, i int, v [4][4]uint8) bool {
	if acr.BufferView == nil {
		var z [4][4]uint8
		return zz.Same(v, z)
	}
	return binary.SpecAt_Ubyte_Mat4(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 16)*i, v)
}

// specSparse_Ubyte_Mat4: v is value i of the sparse part.
func specSparse_Ubyte_Mat4(doc *gltf.Document, s *gltf.Sparse, i int, v [4][4]uint8) bool {
	return binary.SpecAt_Ubyte_Mat4(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 16)*i, v)
}

// specElem_Short_Scalar: v is element i of acr without its sparse part.
func specElem_Short_Scalar(doc *gltf.Document, acr *gltf.Accessor, i int, v int16) bool {
	if acr.BufferView == nil {
		var z int16
		return zz.Same(v, z)
	}
	return binary.SpecAt_Short_Scalar(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 2)*i, v)
}

// specSparse_Short_Scalar: v is value i of the sparse part.
func specSparse_Short_Scalar(doc *gltf.Document, s *gltf.Sparse, i int, v int16) bool {
	return binary.SpecAt_Short_Scalar(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 2)*i, v)
}

// specElem_Short_Vec2: v is element i of acr without its sparse part.
func specElem_Short_Vec2(doc *gltf.Document, acr *gltf.Accessor, i int, v [2]int16) bool {
	if acr.BufferView == nil {
		var z [2]int16
		return zz.Same(v, z)
	}
	return binary.SpecAt_Short_Vec2(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 4)*i, v)
}

// specSparse_Short_Vec2: v is value i of the sparse part.
func specSparse_Short_Vec2(doc *gltf.Document, s *gltf.Sparse, i int, v [2]int16) bool {
	return binary.SpecAt_Short_Vec2(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 4)*i, v)
}

// specElem_Short_Vec3: v is element i of acr without its sparse part.
func specElem_Short_Vec3(doc *gltf.Document, acr *gltf.Accessor, i int, v [3]int16) bool {
	if acr.BufferView == nil {
		var z [3]int16
		return zz.Same(v, z)
	}
	return binary.SpecAt_Short_Vec3(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 8)*i, v)
}

// specSparse_Short_Vec3: v is value i of the sparse part.
func specSparse_Short_Vec3(doc *gltf.Document, s *gltf.Sparse, i int, v [3]int16) bool {
	return binary.SpecAt_Short_Vec3(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 8)*i, v)
}

// specElem_Short_Vec4: v is element i of acr without its sparse part.
func specElem_Short_Vec4(doc *gltf.Document, acr *gltf.Accessor, i int, v [4]int16) bool {
	if acr.BufferView == nil {
		var z [4]int16
		return zz.Same(v, z)
	}
	return binary.SpecAt_Short_Vec4(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 8)*i, v)
}

// specSparse_Short_Vec4: v is value i of the sparse part.
func specSparse_Short_Vec4(doc *gltf.Document, s *gltf.Sparse, i int, v [4]int16) bool {
	return binary.SpecAt_Short_Vec4(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 8)*i, v)
}

// specElem_Short_Mat2: v is element i of acr without its sparse part.
func specElem_Short_Mat2(doc *gltf.Document, acr *gltf.Accessor, i int, v [2][2]int16) bool {
	if acr.BufferView == nil {
		var z [2][2]int16
		return zz.Same(v, z)
	}
	return binary.SpecAt_Short_Mat2(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 8)*i, v)
}

// specSparse_Short_Mat2: v is value i of the sparse part.
func specSparse_Short_Mat2(doc *gltf.Document, s *gltf.Sparse, i int, v [2][2]int16) bool {
	return binary.SpecAt_Short_Mat2(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 8)*i, v)
}

// specElem_Short_Mat3: v is element i of acr without its sparse part.
func specElem_Short_Mat3(doc *gltf.Document, acr *gltf.Accessor, i int, v [3][3]int16) bool {
	if acr.BufferView == nil {
		var z [3][3]int16
		return zz.Same(v, z)
	}
	return binary.SpecAt_Short_Mat3(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 24)*i, v)
}

// specSparse_Short_Mat3: v is value i of the sparse part.
func specSparse_Short_Mat3(doc *gltf.Document, s *gltf.Sparse, i int, v [3][3]int16) bool {
	return binary.SpecAt_Short_Mat3(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 24)*i, v)
}

// specElem_Short_Mat4: v is element i of acr without its sparse part.
func specElem_Short_Mat4(doc *gltf.Document, acr *gltf.Accessor, i int, v [4][4]int16) bool {
	if acr.BufferView == nil {
		var z [4][4]int16
		return zz.Same(v, z)
	}
	return binary.SpecAt_Short_Mat4(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 32)*i, v)
}

// specSparse_Short_Mat4: v is value i of the sparse part.
func specSparse_Short_Mat4(doc *gltf.Document, s *gltf.Sparse, i int, v [4][4]int16) bool {
	return binary.SpecAt_Short_Mat4(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 32)*i, v)
}

// specElem_Ushort_Scalar: v is element i of acr without its sparse part.
func specElem_Ushort_Scalar(doc *gltf.Document, acr *gltf.Accessor, i int, v uint16) bool {
	if acr.BufferView == nil {
		var z uint16
		return zz.Same(v, z)
	}
	return binary.SpecAt_Ushort_Scalar(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 2)*i, v)
}

// specSparse_Ushort_Scalar: v is value i of the sparse part.
func specSparse_Ushort_Scalar(doc *gltf.Document, s *gltf.Sparse, i int, v uint16) bool {
	return binary.SpecAt_Ushort_Scalar(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 2)*i, v)
}

// specElem_Ushort_Vec2: v is element i of acr without its sparse part.
func specElem_Ushort_Vec2(doc *gltf.Document, acr *gltf.Accessor, i int, v [2]uint16) bool {
	if acr.BufferView == nil {
		var z [2]uint16
		return zz.Same(v, z)
	}
	return binary.SpecAt_Ushort_Vec2(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 4)*i, v)
}

// specSparse_Ushort_Vec2: v is value i of the sparse part.
func specSparse_Ushort_Vec2(doc *gltf.Document, s *gltf.Sparse, i int, v [2]uint16) bool {
	return binary.SpecAt_Ushort_Vec2(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 4)*i, v)
}

// specElem_Ushort_Vec3: v is element i of acr without its sparse part.
func specElem_Ushort_Vec3(doc *gltf.Document, acr *gltf.Accessor, i int, v [3]uint16) bool {
	if acr.BufferView == nil {
		var z [3]uint16
		return zz.Same(v, z)
	}
	return binary.SpecAt_Ushort_Vec3(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 8)*i, v)
}

// specSparse_Ushort_Vec3: v is value i of the sparse part.
func specSparse_Ushort_Vec3(doc *gltf.Document, s *gltf.Sparse, i int, v [3]uint16) bool {
	return binary.SpecAt_Ushort_Vec3(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 8)*i, v)
}

// specElem_Ushort_Vec4: v is element i of acr without its sparse part.
func specElem_Ushort_Vec4(doc *gltf.Document, acr *gltf.Accessor, i int, v [4]uint16) bool {
	if acr.BufferView == nil {
		var z [4]uint16
		return zz.Same(v, z)
	}
	return binary.SpecAt_Ushort_Vec4(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 8)*i, v)
}

// specSparse_Ushort_Vec4: v is value i of the sparse part.
func specSparse_Ushort_Vec4(doc *gltf.Document, s *gltf.Sparse, i int, v [4]uint16) bool {
	return binary.SpecAt_Ushort_Vec4(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 8)*i, v)
}

// specElem_Ushort_Mat2: v is element i of acr without its sparse part.
func specElem_Ushort_Mat2(doc *gltf.Document, acr *gltf.Accessor, i int, v [2][2]uint16) bool {
	if acr.BufferView == nil {
		var z [2][2]uint16
		return zz.Same(v, z)
	}
	return binary.SpecAt_Ushort_Mat2(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 8)*i, v)
}

// specSparse_Ushort_Mat2: v is value i of the sparse part.
func specSparse_Ushort_Mat2(doc *gltf.Document, s *gltf.Sparse, i int, v [2][2]uint16) bool {
	return binary.SpecAt_Ushort_Mat2(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 8)*i, v)
}

// specElem_Ushort_Mat3: v is element i of acr without its sparse part.
func specElem_Ushort_Mat3(doc *gltf.Document, acr *gltf.Accessor, i int, v [3][3]uint16) bool {
	if acr.BufferView == nil {
		var z [3][3]uint16
		return zz.Same(v, z)
	}
	return binary.SpecAt_Ushort_Mat3(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 24)*i, v)
}

// specSparse_Ushort_Mat3: v is value i of the sparse part.
func specSparse_Ushort_Mat3(doc *gltf.Document, s *gltf.Sparse, i int, v [3][3]uint16) bool {
	return binary.SpecAt_Ushort_Mat3(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 24)*i, v)
}

// specElem_Ushort_Mat4: v is element i of acr without its sparse part.
func specElem_Ushort_Mat4(doc *gltf.Document, acr *gltf.Accessor, i int, v [4][4]uint16) bool {
	if acr.BufferView == nil {
		var z [4][4]uint16
		return zz.Same(v, z)
	}
	return binary.SpecAt_Ushort_Mat4(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 32)*i, v)
}

// specSparse_Ushort_Mat4: v is value i of the sparse part.
func specSparse_Ushort_Mat4(doc *gltf.Document, s *gltf.Sparse, i int, v [4][4]uint16) bool {
	return binary.SpecAt_Ushort_Mat4(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 32)*i, v)
}

// specElem_Uint_Scalar: v is element i of acr without its sparse part.
func specElem_Uint_Scalar(doc *gltf.Document, acr *gltf.Accessor, i int, v uint32) bool {
	if acr.BufferView == nil {
		var z uint32
		return zz.Same(v, z)
	}
	return binary.SpecAt_Uint_Scalar(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 4)*i, v)
}

// specSparse_Uint_Scalar: v is value i of the sparse part.
func specSparse_Uint_Scalar(doc *gltf.Document, s *gltf.Sparse, i int, v uint32) bool {
	return binary.SpecAt_Uint_Scalar(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 4)*i, v)
}

// specElem_Uint_Vec2: v is element i of acr without its sparse part.
func specElem_Uint_Vec2(doc *gltf.Document, acr *gltf.Accessor, i int, v [2]uint32) bool {
	if acr.BufferView == nil {
		var z [2]uint32
		return zz.Same(v, z)
	}
	return binary.SpecAt_Uint_Vec2(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 8)*i, v)
}

// specSparse_Uint_Vec2: v is value i of the sparse part.
func specSparse_Uint_Vec2(doc *gltf.Document, s *gltf.Sparse, i int, v [2]uint32) bool {
	return binary.SpecAt_Uint_Vec2(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 8)*i, v)
}

// specElem_Uint_Vec3: v is element i of acr without its sparse part.
func specElem_Uint_Vec3(doc *gltf.Document, acr *gltf.Accessor, i int, v [3]uint32) bool {
	if acr.BufferView == nil {
		var z [3]uint32
		return zz.Same(v, z)
	}
	return binary.SpecAt_Uint_Vec3(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 12)*i, v)
}

// specSparse_Uint_Vec3: v is value i of the sparse part.
func specSparse_Uint_Vec3(doc *gltf.Document, s *gltf.Sparse, i int, v [3]uint32) bool {
	return binary.SpecAt_Uint_Vec3(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 12)*i, v)
}

// specElem_Uint_Vec4: v is element i of acr without its sparse part.
func specElem_Uint_Vec4(doc *gltf.Document, acr *gltf.Accessor, i int, v [4]uint32) bool {
	if acr.BufferView == nil {
		var z [4]uint32
		return zz.Same(v, z)
	}
	return binary.SpecAt_Uint_Vec4(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 16)*i, v)
}

// specSparse_Uint_Vec4: v is value i of the sparse part.
func specSparse_Uint_Vec4(doc *gltf.Document, s *gltf.Sparse, i int, v [4]uint32) bool {
	return binary.SpecAt_Uint_Vec4(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 16)*i, v)
}

// specElem_Uint_Mat2: v is element i of acr without its sparse part.
func specElem_Uint_Mat2(doc *gltf.Document, acr *gltf.Accessor, i int, v [2][2]uint32) bool {
	if acr.BufferView == nil {
		var z [2][2]uint32
		return zz.Same(v, z)
	}
	return binary.SpecAt_Uint_Mat2(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 16)*i, v)
}

// specSparse_Uint_Mat2: v is value i of the sparse part.
func specSparse_Uint_Mat2(doc *gltf.Document, s *gltf.Sparse, i int, v [2][2]uint32) bool {
	return binary.SpecAt_Uint_Mat2(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 16)*i, v)
}

// specElem_Uint_Mat3: v is element i of acr without its sparse part.
func specElem_Uint_Mat3(doc *gltf.Document, acr *gltf.Accessor, i int, v [3][3]uint32) bool {
	if acr.BufferView == nil {
		var z [3][3]uint32
		return zz.Same(v, z)
	}
	return binary.SpecAt_Uint_Mat3(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 36)*i, v)
}

// specSparse_Uint_Mat3: v is value i of the sparse part.
func specSparse_Uint_Mat3(doc *gltf.Document, s *gltf.Sparse, i int, v [3][3]uint32) bool {
	return binary.SpecAt_Uint_Mat3(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 36)*i, v)
}

// specElem_Uint_Mat4: v is element i of acr without its sparse part.
func specElem_Uint_Mat4(doc *gltf.Document, acr *gltf.Accessor, i int, v [4][4]uint32) bool {
	if acr.BufferView == nil {
		var z [4][4]uint32
		return zz.Same(v, z)
	}
	return binary.SpecAt_Uint_Mat4(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 64)*i, v)
}

// specSparse_Uint_Mat4: v is value i of the sparse part.
func specSparse_Uint_Mat4(doc *gltf.Document, s *gltf.Sparse, i int, v [4][4]uint32) bool {
	return binary.SpecAt_Uint_Mat4(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 64)*i, v)
}

// specElem_Float_Scalar: v is element i of acr without its sparse part.
func specElem_Float_Scalar(doc *gltf.Document, acr *gltf.Accessor, i int, v float32) bool {
	if acr.BufferView == nil {
		var z float32
		return zz.Same(v, z)
	}
	return binary.SpecAt_Float_Scalar(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 4)*i, v)
}

// specSparse_Float_Scalar: v is value i of the sparse part.
func specSparse_Float_Scalar(doc *gltf.Document, s *gltf.Sparse, i int, v float32) bool {
	return binary.SpecAt_Float_Scalar(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 4)*i, v)
}

// specElem_Float_Vec2: v is element i of acr without its sparse part.
func specElem_Float_Vec2(doc *gltf.Document, acr *gltf.Accessor, i int, v [2]float32) bool {
	if acr.BufferView == nil {
		var z [2]float32
		return zz.Same(v, z)
	}
	return binary.SpecAt_Float_Vec2(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 8)*i, v)
}

// specSparse_Float_Vec2: v is value i of the sparse part.
func specSparse_Float_Vec2(doc *gltf.Document, s *gltf.Sparse, i int, v [2]float32) bool {
	return binary.SpecAt_Float_Vec2(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 8)*i, v)
}

// specElem_Float_Vec3: v is element i of acr without its sparse part.
func specElem_Float_Vec3(doc *gltf.Document, acr *gltf.Accessor, i int, v [3]float32) bool {
	if acr.BufferView == nil {
		var z [3]float32
		return zz.Same(v, z)
	}
	return binary.SpecAt_Float_Vec3(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 12)*i, v)
}

// specSparse_Float_Vec3: v is value i of the sparse part.
func specSparse_Float_Vec3(doc *gltf.Document, s *gltf.Sparse, i int, v [3]float32) bool {
	return binary.SpecAt_Float_Vec3(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 12)*i, v)
}

// specElem_Float_Vec4: v is element i of acr without its sparse part.
func specElem_Float_Vec4(doc *gltf.Document, acr *gltf.Accessor, i int, v [4]float32) bool {
	if acr.BufferView == nil {
		var z [4]float32
		return zz.Same(v, z)
	}
	return binary.SpecAt_Float_Vec4(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 16)*i, v)
}

// specSparse_Float_Vec4: v is value i of the sparse part.
func specSparse_Float_Vec4(doc *gltf.Document, s *gltf.Sparse, i int, v [4]float32) bool {
	return binary.SpecAt_Float_Vec4(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 16)*i, v)
}

// specElem_Float_Mat2: v is element i of acr without its sparse part.
func specElem_Float_Mat2(doc *gltf.Document, acr *gltf.Accessor, i int, v [2][2]float32) bool {
	if acr.BufferView == nil {
		var z [2][2]float32
		return zz.Same(v, z)
	}
	return binary.SpecAt_Float_Mat2(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 16)*i, v)
}

// specSparse_Float_Mat2: v is value i of the sparse part.
func specSparse_Float_Mat2(doc *gltf.Document, s *gltf.Sparse, i int, v [2][2]float32) bool {
	return binary.SpecAt_Float_Mat2(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 16)*i, v)
}

// specElem_Float_Mat3: v is element i of acr without its sparse part.
func specElem_Float_Mat3(doc *gltf.Document, acr *gltf.Accessor, i int, v [3][3]float32) bool {
	if acr.BufferView == nil {
		var z [3][3]float32
		return zz.Same(v, z)
	}
	return binary.SpecAt_Float_Mat3(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 36)*i, v)
}

// specSparse_Float_Mat3: v is value i of the sparse part.
func specSparse_Float_Mat3(doc *gltf.Document, s *gltf.Sparse, i int, v [3][3]float32) bool {
	return binary.SpecAt_Float_Mat3(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 36)*i, v)
}

// specElem_Float_Mat4: v is element i of acr without its sparse part.
func specElem_Float_Mat4(doc *gltf.Document, acr *gltf.Accessor, i int, v [4][4]float32) bool {
	if acr.BufferView == nil {
		var z [4][4]float32
		return zz.Same(v, z)
	}
	return binary.SpecAt_Float_Mat4(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, 64)*i, v)
}

// specSparse_Float_Mat4: v is value i of the sparse part.
func specSparse_Float_Mat4(doc *gltf.Document, s *gltf.Sparse, i int, v [4][4]float32) bool {
	return binary.SpecAt_Float_Mat4(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, 64)*i, v)
}

//verif:prop C05 C06 C08
//verif:contract ReadAccessor
//verif:use ReadBufferView MakeSliceBuffer Read ReadAccessor ReadIndices
//verif:nodep C07 C10 C11
//verif:deep 5 6 12 13 19 20 26 27 33 34 40 41
//verif:skip C05:C06.elements C05:C06.indices C05:C06.inside C08:C06.elements
//verif:omit C05:C06.elements C05:C06.inside C05:C06.indices C05:C08 C06:C08 C08:C06
//verif:split 43
//verif:lean
//verif:frame C08
func Verif_ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) {
	zz.Requires(doc != nil && acr != nil)
	k := binary.SpecCase(acr.ComponentType, acr.Type)
	zz.Split(43, k)
	zz.RequiresF(func() bool { return specApart(doc, buffer) })
	zz.Modifies(buffer[:cap(buffer)])
	sn := zz.Snapshot().Watch(doc).Watch(acr).Except(buffer[:cap(buffer)])
	data, err := ReadAccessor(doc, acr, buffer)
	sn.Unchanged("C08.accessor.frame")
	zz.Ensures("C06.type", func() bool { return err != nil || acr.Count >= 0 && binary.SpecSliceOf(data, k, acr.Count) })
	size := gltf.SpecElementSize(acr.ComponentType, acr.Type)
	zz.Ensures("C06.inside", func() bool {
		return err != nil || acr.BufferView == nil || specHasView(doc, *acr.BufferView) && specFits(doc, *acr.BufferView, acr.ByteOffset, acr.Count, size)
	})
	zz.Ensures("C06.inside.sparse", func() bool { return err != nil || acr.Sparse == nil || specSparseOK(doc, acr.Sparse, size) })
	zz.Ensures("C06.indices", func() bool {
		return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) < acr.Count })
	})
	if k == 42 {
		return
	}
	switch k {
	case 0:
		zz.EnsuresBacked("C08.backed.Byte_Scalar", err != nil, zz.As[[]int8](data), buffer)
		zz.Ensures("C06.elements.Byte_Scalar", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Byte_Scalar(doc, acr, i, zz.As[[]int8](data)[i]) })
		})
	case 1:
		zz.EnsuresBacked("C08.backed.Byte_Vec2", err != nil, zz.As[[][2]int8](data), buffer)
		zz.Ensures("C06.elements.Byte_Vec2", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Byte_Vec2(doc, acr, i, zz.As[[][2]int8](data)[i]) })
		})
	case 2:
		zz.EnsuresBacked("C08.backed.Byte_Vec3", err != nil, zz.As[[][3]int8](data), buffer)
		zz.Ensures("C06.elements.Byte_Vec3", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Byte_Vec3(doc, acr, i, zz.As[[][3]int8](data)[i]) })
		})
	case 3:
		zz.EnsuresBacked("C08.backed.Byte_Vec4", err != nil, zz.As[[][4]int8](data), buffer)
		zz.Ensures("C06.elements.Byte_Vec4", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Byte_Vec4(doc, acr, i, zz.As[[][4]int8](data)[i]) })
		})
	case 4:
		zz.EnsuresBacked("C08.backed.Byte_Mat2", err != nil, zz.As[[][2][2]int8](data), buffer)
		zz.Ensures("C06.elements.Byte_Mat2", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Byte_Mat2(doc, acr, i, zz.As[[][2][2]int8](data)[i]) })
		})
	case 5:
		zz.EnsuresBacked("C08.backed.Byte_Mat3", err != nil, zz.As[[][3][3]int8](data), buffer)
		zz.Ensures("C06.elements.Byte_Mat3", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Byte_Mat3(doc, acr, i, zz.As[[][3][3]int8](data)[i]) })
		})
	case 6:
		zz.EnsuresBacked("C08.backed.Byte_Mat4", err != nil, zz.As[[][4][4]int8](data), buffer)
		zz.Ensures("C06.elements.Byte_Mat4", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Byte_Mat4(doc, acr, i, zz.As[[][4][4]int8](data)[i]) })
		})
	case 7:
		zz.EnsuresBacked("C08.backed.Ubyte_Scalar", err != nil, zz.As[[]uint8](data), buffer)
		zz.Ensures("C06.elements.Ubyte_Scalar", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Ubyte_Scalar(doc, acr, i, zz.As[[]uint8](data)[i]) })
		})
	case 8:
		zz.EnsuresBacked("C08.backed.Ubyte_Vec2", err != nil, zz.As[[][2]uint8](data), buffer)
		zz.Ensures("C06.elements.Ubyte_Vec2", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Ubyte_Vec2(doc, acr, i, zz.As[[][2]uint8](data)[i]) })
		})
	case 9:
		zz.EnsuresBacked("C08.backed.Ubyte_Vec3", err != nil, zz.As[[][3]uint8](data), buffer)
		zz.Ensures("C06.elements.Ubyte_Vec3", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Ubyte_Vec3(doc, acr, i, zz.As[[][3]uint8](data)[i]) })
		})
	case 10:
		zz.EnsuresBacked("C08.backed.Ubyte_Vec4", err != nil, zz.As[[][4]uint8](data), buffer)
		zz.Ensures("C06.elements.Ubyte_Vec4", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Ubyte_Vec4(doc, acr, i, zz.As[[][4]uint8](data)[i]) })
		})
	case 11:
		zz.EnsuresBacked("C08.backed.Ubyte_Mat2", err != nil, zz.As[[][2][2]uint8](data), buffer)
		zz.Ensures("C06.elements.Ubyte_Mat2", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Ubyte_Mat2(doc, acr, i, zz.As[[][2][2]uint8](data)[i]) })
		})
	case 12:
		zz.EnsuresBacked("C08.backed.Ubyte_Mat3", err != nil, zz.As[[][3][3]uint8](data), buffer)
		zz.Ensures("C06.elements.Ubyte_Mat3", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Ubyte_Mat3(doc, acr, i, zz.As[[][3][3]uint8](data)[i]) })
		})
	case 13:
		zz.EnsuresBacked("C08.backed.Ubyte_Mat4", err != nil, zz.As[[][4][4]uint8](data), buffer)
		zz.Ensures("C06.elements.Ubyte_Mat4", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Ubyte_Mat4(doc, acr, i, zz.As[[][4][4]uint8](data)[i]) })
		})
	case 14:
		zz.EnsuresBacked("C08.backed.Short_Scalar", err != nil, zz.As[[]int16](data), buffer)
		zz.Ensures("C06.elements.Short_Scalar", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Short_Scalar(doc, acr, i, zz.As[[]int16](data)[i]) })
		})
	case 15:
		zz.EnsuresBacked("C08.backed.Short_Vec2", err != nil, zz.As[[][2]int16](data), buffer)
		zz.Ensures("C06.elements.Short_Vec2", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Short_Vec2(doc, acr, i, zz.As[[][2]int16](data)[i]) })
		})
	case 16:
		zz.EnsuresBacked("C08.backed.Short_Vec3", err != nil, zz.As[[][3]int16](data), buffer)
		zz.Ensures("C06.elements.Short_Vec3", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Short_Vec3(doc, acr, i, zz.As[[][3]int16](data)[i]) })
		})
	case 17:
		zz.EnsuresBacked("C08.backed.Short_Vec4", err != nil, zz.As[[][4]int16](data), buffer)
		zz.Ensures("C06.elements.Short_Vec4", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Short_Vec4(doc, acr, i, zz.As[[][4]int16](data)[i]) })
		})
	case 18:
		zz.EnsuresBacked("C08.backed.Short_Mat2", err != nil, zz.As[[][2][2]int16](data), buffer)
		zz.Ensures("C06.elements.Short_Mat2", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Short_Mat2(doc, acr, i, zz.As[[][2][2]int16](data)[i]) })
		})
	case 19:
		zz.EnsuresBacked("C08.backed.Short_Mat3", err != nil, zz.As[[][3][3]int16](data), buffer)
		zz.Ensures("C06.elements.Short_Mat3", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Short_Mat3(doc, acr, i, zz.As[[][3][3]int16](data)[i]) })
		})
	case 20:
		zz.EnsuresBacked("C08.backed.Short_Mat4", err != nil, zz.As[[][4][4]int16](data), buffer)
		zz.Ensures("C06.elements.Short_Mat4", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Short_Mat4(doc, acr, i, zz.As[[][4][4]int16](data)[i]) })
		})
	case 21:
		zz.EnsuresBacked("C08.backed.Ushort_Scalar", err != nil, zz.As[[]uint16](data), buffer)
		zz.Ensures("C06.elements.Ushort_Scalar", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Ushort_Scalar(doc, acr, i, zz.As[[]uint16](data)[i]) })
		})
	case 22:
		zz.EnsuresBacked("C08.backed.Ushort_Vec2", err != nil, zz.As[[][2]uint16](data), buffer)
		zz.Ensures("C06.elements.Ushort_Vec2", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Ushort_Vec2(doc, acr, i, zz.As[[][2]uint16](data)[i]) })
		})
	case 23:
		zz.EnsuresBacked("C08.backed.Ushort_Vec3", err != nil, zz.As[[][3]uint16](data), buffer)
		zz.Ensures("C06.elements.Ushort_Vec3", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Ushort_Vec3(doc, acr, i, zz.As[[][3]uint16](data)[i]) })
		})
	case 24:
		zz.EnsuresBacked("C08.backed.Ushort_Vec4", err != nil, zz.As[[][4]uint16](data), buffer)
		zz.Ensures("C06.elements.Ushort_Vec4", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Ushort_Vec4(doc, acr, i, zz.As[[][4]uint16](data)[i]) })
		})
	case 25:
		zz.EnsuresBacked("C08.backed.Ushort_Mat2", err != nil, zz.As[[][2][2]uint16](data), buffer)
		zz.Ensures("C06.elements.Ushort_Mat2", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Ushort_Mat2(doc, acr, i, zz.As[[][2][2]uint16](data)[i]) })
		})
	case 26:
		zz.EnsuresBacked("C08.backed.Ushort_Mat3", err != nil, zz.As[[][3][3]uint16](data), buffer)
		zz.Ensures("C06.elements.Ushort_Mat3", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Ushort_Mat3(doc, acr, i, zz.As[[][3][3]uint16](data)[i]) })
		})
	case 27:
		zz.EnsuresBacked("C08.backed.Ushort_Mat4", err != nil, zz.As[[][4][4]uint16](data), buffer)
		zz.Ensures("C06.elements.Ushort_Mat4", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Ushort_Mat4(doc, acr, i, zz.As[[][4][4]uint16](data)[i]) })
		})
	case 28:
		zz.EnsuresBacked("C08.backed.Uint_Scalar", err != nil, zz.As[[]uint32](data), buffer)
		zz.Ensures("C06.elements.Uint_Scalar", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Uint_Scalar(doc, acr, i, zz.As[[]uint32](data)[i]) })
		})
	case 29:
		zz.EnsuresBacked("C08.backed.Uint_Vec2", err != nil, zz.As[[][2]uint32](data), buffer)
		zz.Ensures("C06.elements.Uint_Vec2", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Uint_Vec2(doc, acr, i, zz.As[[][2]uint32](data)[i]) })
		})
	case 30:
		zz.EnsuresBacked("C08.backed.Uint_Vec3", err != nil, zz.As[[][3]uint32](data), buffer)
		zz.Ensures("C06.elements.Uint_Vec3", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Uint_Vec3(doc, acr, i, zz.As[[][3]uint32](data)[i]) })
		})
	case 31:
		zz.EnsuresBacked("C08.backed.Uint_Vec4", err != nil, zz.As[[][4]uint32](data), buffer)
		zz.Ensures("C06.elements.Uint_Vec4", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Uint_Vec4(doc, acr, i, zz.As[[][4]uint32](data)[i]) })
		})
	case 32:
		zz.EnsuresBacked("C08.backed.Uint_Mat2", err != nil, zz.As[[][2][2]uint32](data), buffer)
		zz.Ensures("C06.elements.Uint_Mat2", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Uint_Mat2(doc, acr, i, zz.As[[][2][2]uint32](data)[i]) })
		})
	case 33:
		zz.EnsuresBacked("C08.backed.Uint_Mat3", err != nil, zz.As[[][3][3]uint32](data), buffer)
		zz.Ensures("C06.elements.Uint_Mat3", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Uint_Mat3(doc, acr, i, zz.As[[][3][3]uint32](data)[i]) })
		})
	case 34:
		zz.EnsuresBacked("C08.backed.Uint_Mat4", err != nil, zz.As[[][4][4]uint32](data), buffer)
		zz.Ensures("C06.elements.Uint_Mat4", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Uint_Mat4(doc, acr, i, zz.As[[][4][4]uint32](data)[i]) })
		})
	case 35:
		zz.EnsuresBacked("C08.backed.Float_Scalar", err != nil, zz.As[[]float32](data), buffer)
		zz.Ensures("C06.elements.Float_Scalar", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Float_Scalar(doc, acr, i, zz.As[[]float32](data)[i]) })
		})
	case 36:
		zz.EnsuresBacked("C08.backed.Float_Vec2", err != nil, zz.As[[][2]float32](data), buffer)
		zz.Ensures("C06.elements.Float_Vec2", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Float_Vec2(doc, acr, i, zz.As[[][2]float32](data)[i]) })
		})
	case 37:
		zz.EnsuresBacked("C08.backed.Float_Vec3", err != nil, zz.As[[][3]float32](data), buffer)
		zz.Ensures("C06.elements.Float_Vec3", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Float_Vec3(doc, acr, i, zz.As[[][3]float32](data)[i]) })
		})
	case 38:
		zz.EnsuresBacked("C08.backed.Float_Vec4", err != nil, zz.As[[][4]float32](data), buffer)
		zz.Ensures("C06.elements.Float_Vec4", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Float_Vec4(doc, acr, i, zz.As[[][4]float32](data)[i]) })
		})
	case 39:
		zz.EnsuresBacked("C08.backed.Float_Mat2", err != nil, zz.As[[][2][2]float32](data), buffer)
		zz.Ensures("C06.elements.Float_Mat2", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Float_Mat2(doc, acr, i, zz.As[[][2][2]float32](data)[i]) })
		})
	case 40:
		zz.EnsuresBacked("C08.backed.Float_Mat3", err != nil, zz.As[[][3][3]float32](data), buffer)
		zz.Ensures("C06.elements.Float_Mat3", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Float_Mat3(doc, acr, i, zz.As[[][3][3]float32](data)[i]) })
		})
	case 41:
		zz.EnsuresBacked("C08.backed.Float_Mat4", err != nil, zz.As[[][4][4]float32](data), buffer)
		zz.Ensures("C06.elements.Float_Mat4", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Float_Mat4(doc, acr, i, zz.As[[][4][4]float32](data)[i]) })
		})
	}
}

// The effect of the sparse part, element by element.

//verif:prop C06
//verif:bounded 40000 random documents with up to 20 elements and 4 sparse entries, every component and accessor type
func Verif_ReadAccessorSparse(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) {
	zz.Requires(acr.Sparse != nil)
	k := binary.SpecCase(acr.ComponentType, acr.Type)
	data, err := ReadAccessor(doc, acr, buffer)
	zz.Requires(err == nil)
	switch k {
	case 0:
		zz.Ensures("C06.sparse.kept.Byte_Scalar", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Byte_Scalar(doc, acr, j, zz.As[[]int8](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Byte_Scalar", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Byte_Scalar(doc, acr.Sparse, i, zz.As[[]int8](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 1:
		zz.Ensures("C06.sparse.kept.Byte_Vec2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Byte_Vec2(doc, acr, j, zz.As[[][2]int8](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Byte_Vec2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Byte_Vec2(doc, acr.Sparse, i, zz.As[[][2]int8](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 2:
		zz.Ensures("C06.sparse.kept.Byte_Vec3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Byte_Vec3(doc, acr, j, zz.As[[][3]int8](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Byte_Vec3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Byte_Vec3(doc, acr.Sparse, i, zz.As[[][3]int8](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 3:
		zz.Ensures("C06.sparse.kept.Byte_Vec4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Byte_Vec4(doc, acr, j, zz.As[[][4]int8](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Byte_Vec4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Byte_Vec4(doc, acr.Sparse, i, zz.As[[][4]int8](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 4:
		zz.Ensures("C06.sparse.kept.Byte_Mat2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Byte_Mat2(doc, acr, j, zz.As[[][2][2]int8](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Byte_Mat2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Byte_Mat2(doc, acr.Sparse, i, zz.As[[][2][2]int8](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 5:
		zz.Ensures("C06.sparse.kept.Byte_Mat3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Byte_Mat3(doc, acr, j, zz.As[[][3][3]int8](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Byte_Mat3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Byte_Mat3(doc, acr.Sparse, i, zz.As[[][3][3]int8](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 6:
		zz.Ensures("C06.sparse.kept.Byte_Mat4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Byte_Mat4(doc, acr, j, zz.As[[][4][4]int8](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Byte_Mat4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Byte_Mat4(doc, acr.Sparse, i, zz.As[[][4][4]int8](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 7:
		zz.Ensures("C06.sparse.kept.Ubyte_Scalar", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Ubyte_Scalar(doc, acr, j, zz.As[[]uint8](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Ubyte_Scalar", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Ubyte_Scalar(doc, acr.Sparse, i, zz.As[[]uint8](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 8:
		zz.Ensures("C06.sparse.kept.Ubyte_Vec2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Ubyte_Vec2(doc, acr, j, zz.As[[][2]uint8](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Ubyte_Vec2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Ubyte_Vec2(doc, acr.Sparse, i, zz.As[[][2]uint8](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 9:
		zz.Ensures("C06.sparse.kept.Ubyte_Vec3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Ubyte_Vec3(doc, acr, j, zz.As[[][3]uint8](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Ubyte_Vec3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Ubyte_Vec3(doc, acr.Sparse, i, zz.As[[][3]uint8](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 10:
		zz.Ensures("C06.sparse.kept.Ubyte_Vec4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Ubyte_Vec4(doc, acr, j, zz.As[[][4]uint8](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Ubyte_Vec4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Ubyte_Vec4(doc, acr.Sparse, i, zz.As[[][4]uint8](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 11:
		zz.Ensures("C06.sparse.kept.Ubyte_Mat2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Ubyte_Mat2(doc, acr, j, zz.As[[][2][2]uint8](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Ubyte_Mat2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Ubyte_Mat2(doc, acr.Sparse, i, zz.As[[][2][2]uint8](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 12:
		zz.Ensures("C06.sparse.kept.Ubyte_Mat3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Ubyte_Mat3(doc, acr, j, zz.As[[][3][3]uint8](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Ubyte_Mat3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Ubyte_Mat3(doc, acr.Sparse, i, zz.As[[][3][3]uint8](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 13:
		zz.Ensures("C06.sparse.kept.Ubyte_Mat4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Ubyte_Mat4(doc, acr, j, zz.As[[][4][4]uint8](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Ubyte_Mat4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Ubyte_Mat4(doc, acr.Sparse, i, zz.As[[][4][4]uint8](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 14:
		zz.Ensures("C06.sparse.kept.Short_Scalar", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Short_Scalar(doc, acr, j, zz.As[[]int16](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Short_Scalar", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Short_Scalar(doc, acr.Sparse, i, zz.As[[]int16](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 15:
		zz.Ensures("C06.sparse.kept.Short_Vec2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Short_Vec2(doc, acr, j, zz.As[[][2]int16](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Short_Vec2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Short_Vec2(doc, acr.Sparse, i, zz.As[[][2]int16](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 16:
		zz.Ensures("C06.sparse.kept.Short_Vec3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Short_Vec3(doc, acr, j, zz.As[[][3]int16](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Short_Vec3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Short_Vec3(doc, acr.Sparse, i, zz.As[[][3]int16](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 17:
		zz.Ensures("C06.sparse.kept.Short_Vec4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Short_Vec4(doc, acr, j, zz.As[[][4]int16](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Short_Vec4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Short_Vec4(doc, acr.Sparse, i, zz.As[[][4]int16](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 18:
		zz.Ensures("C06.sparse.kept.Short_Mat2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Short_Mat2(doc, acr, j, zz.As[[][2][2]int16](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Short_Mat2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Short_Mat2(doc, acr.Sparse, i, zz.As[[][2][2]int16](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 19:
		zz.Ensures("C06.sparse.kept.Short_Mat3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Short_Mat3(doc, acr, j, zz.As[[][3][3]int16](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Short_Mat3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Short_Mat3(doc, acr.Sparse, i, zz.As[[][3][3]int16](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 20:
		zz.Ensures("C06.sparse.kept.Short_Mat4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Short_Mat4(doc, acr, j, zz.As[[][4][4]int16](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Short_Mat4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Short_Mat4(doc, acr.Sparse, i, zz.As[[][4][4]int16](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 21:
		zz.Ensures("C06.sparse.kept.Ushort_Scalar", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Ushort_Scalar(doc, acr, j, zz.As[[]uint16](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Ushort_Scalar", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Ushort_Scalar(doc, acr.Sparse, i, zz.As[[]uint16](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 22:
		zz.Ensures("C06.sparse.kept.Ushort_Vec2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Ushort_Vec2(doc, acr, j, zz.As[[][2]uint16](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Ushort_Vec2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Ushort_Vec2(doc, acr.Sparse, i, zz.As[[][2]uint16](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 23:
		zz.Ensures("C06.sparse.kept.Ushort_Vec3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Ushort_Vec3(doc, acr, j, zz.As[[][3]uint16](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Ushort_Vec3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Ushort_Vec3(doc, acr.Sparse, i, zz.As[[][3]uint16](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 24:
		zz.Ensures("C06.sparse.kept.Ushort_Vec4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Ushort_Vec4(doc, acr, j, zz.As[[][4]uint16](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Ushort_Vec4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Ushort_Vec4(doc, acr.Sparse, i, zz.As[[][4]uint16](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 25:
		zz.Ensures("C06.sparse.kept.Ushort_Mat2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Ushort_Mat2(doc, acr, j, zz.As[[][2][2]uint16](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Ushort_Mat2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Ushort_Mat2(doc, acr.Sparse, i, zz.As[[][2][2]uint16](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 26:
		zz.Ensures("C06.sparse.kept.Ushort_Mat3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Ushort_Mat3(doc, acr, j, zz.As[[][3][3]uint16](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Ushort_Mat3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Ushort_Mat3(doc, acr.Sparse, i, zz.As[[][3][3]uint16](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 27:
		zz.Ensures("C06.sparse.kept.Ushort_Mat4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Ushort_Mat4(doc, acr, j, zz.As[[][4][4]uint16](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Ushort_Mat4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Ushort_Mat4(doc, acr.Sparse, i, zz.As[[][4][4]uint16](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 28:
		zz.Ensures("C06.sparse.kept.Uint_Scalar", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Uint_Scalar(doc, acr, j, zz.As[[]uint32](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Uint_Scalar", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Uint_Scalar(doc, acr.Sparse, i, zz.As[[]uint32](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 29:
		zz.Ensures("C06.sparse.kept.Uint_Vec2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Uint_Vec2(doc, acr, j, zz.As[[][2]uint32](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Uint_Vec2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Uint_Vec2(doc, acr.Sparse, i, zz.As[[][2]uint32](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 30:
		zz.Ensures("C06.sparse.kept.Uint_Vec3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Uint_Vec3(doc, acr, j, zz.As[[][3]uint32](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Uint_Vec3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Uint_Vec3(doc, acr.Sparse, i, zz.As[[][3]uint32](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 31:
		zz.Ensures("C06.sparse.kept.Uint_Vec4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Uint_Vec4(doc, acr, j, zz.As[[][4]uint32](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Uint_Vec4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Uint_Vec4(doc, acr.Sparse, i, zz.As[[][4]uint32](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 32:
		zz.Ensures("C06.sparse.kept.Uint_Mat2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Uint_Mat2(doc, acr, j, zz.As[[][2][2]uint32](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Uint_Mat2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Uint_Mat2(doc, acr.Sparse, i, zz.As[[][2][2]uint32](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 33:
		zz.Ensures("C06.sparse.kept.Uint_Mat3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Uint_Mat3(doc, acr, j, zz.As[[][3][3]uint32](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Uint_Mat3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Uint_Mat3(doc, acr.Sparse, i, zz.As[[][3][3]uint32](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 34:
		zz.Ensures("C06.sparse.kept.Uint_Mat4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Uint_Mat4(doc, acr, j, zz.As[[][4][4]uint32](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Uint_Mat4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Uint_Mat4(doc, acr.Sparse, i, zz.As[[][4][4]uint32](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 35:
		zz.Ensures("C06.sparse.kept.Float_Scalar", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Float_Scalar(doc, acr, j, zz.As[[]float32](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Float_Scalar", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Float_Scalar(doc, acr.Sparse, i, zz.As[[]float32](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 36:
		zz.Ensures("C06.sparse.kept.Float_Vec2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Float_Vec2(doc, acr, j, zz.As[[][2]float32](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Float_Vec2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Float_Vec2(doc, acr.Sparse, i, zz.As[[][2]float32](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 37:
		zz.Ensures("C06.sparse.kept.Float_Vec3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Float_Vec3(doc, acr, j, zz.As[[][3]float32](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Float_Vec3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Float_Vec3(doc, acr.Sparse, i, zz.As[[][3]float32](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 38:
		zz.Ensures("C06.sparse.kept.Float_Vec4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Float_Vec4(doc, acr, j, zz.As[[][4]float32](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Float_Vec4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Float_Vec4(doc, acr.Sparse, i, zz.As[[][4]float32](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 39:
		zz.Ensures("C06.sparse.kept.Float_Mat2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Float_Mat2(doc, acr, j, zz.As[[][2][2]float32](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Float_Mat2", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Float_Mat2(doc, acr.Sparse, i, zz.As[[][2][2]float32](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 40:
		zz.Ensures("C06.sparse.kept.Float_Mat3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Float_Mat3(doc, acr, j, zz.As[[][3][3]float32](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Float_Mat3", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Float_Mat3(doc, acr.Sparse, i, zz.As[[][3][3]float32](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	case 41:
		zz.Ensures("C06.sparse.kept.Float_Mat4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_Float_Mat4(doc, acr, j, zz.As[[][4][4]float32](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.Float_Mat4", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_Float_Mat4(doc, acr.Sparse, i, zz.As[[][4][4]float32](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
	}
}
