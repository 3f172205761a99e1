// Code generated by tools/gen_specs.py. DO NOT EDIT.

package modeler

import (
	"image/color"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/binary"
	zz "github.com/qmuntal/gltf/zzverif"
)

var _ = color.RGBA{}

// specApartData: data does not overlap the bytes b.
func specApartData(data any, b []byte) bool {
	if d, ok := data.([]uint8); ok {
		return zz.DisjointMem(d, b)
	}
	return true
}

// specWritable: the document can be appended to.
func specWritable(doc *gltf.Document) bool {
	return len(doc.Buffers) == 0 || doc.Buffers[len(doc.Buffers)-1] != nil
}

// specViewStride is the stride a view of its own needs: packed elements need
// one only when they carry alignment bytes.
func specViewStride(target gltf.Target, c gltf.ComponentType, t gltf.AccessorType) int {
	size := gltf.SpecElementSize(c, t)
	if target == gltf.TargetArrayBuffer && gltf.SpecByteSize(c)*gltf.SpecRows(t)*gltf.SpecColumns(t) != size {
		return size
	}
	return 0
}

func specBytesOf(b *gltf.Buffer) ([]byte, int) {
	if b == nil {
		return nil, 0
	}
	return b.Data, b.ByteLength
}

func specLast(doc *gltf.Document) *gltf.Buffer { return doc.Buffers[len(doc.Buffers)-1] }

//verif:prop C09 C10
//verif:contract WriteAccessor
//verif:use Write Type
//verif:frame C09
//verif:skip C10:C02.write.gaps C10:C02.write.tail C10:C02.write.unchanged C09:C02.write.elements C09:C02.write.gaps C09:C02.write.tail C09:C02.write.unchanged
//verif:split 44
func Verif_WriteAccessor(doc *gltf.Document, target gltf.Target, data any) {
	zz.Requires(doc != nil)
	zz.RequiresF(func() bool { return specWritable(doc) })
	var n int
	var c gltf.ComponentType
	var t gltf.AccessorType
	switch d := data.(type) {
	case []int8:
		zz.Split(44, 0)
		n, c, t = len(d), gltf.ComponentByte, gltf.AccessorScalar
	case [][2]int8:
		zz.Split(44, 1)
		n, c, t = len(d), gltf.ComponentByte, gltf.AccessorVec2
	case [][3]int8:
		zz.Split(44, 2)
		n, c, t = len(d), gltf.ComponentByte, gltf.AccessorVec3
	case [][4]int8:
		zz.Split(44, 3)
		n, c, t = len(d), gltf.ComponentByte, gltf.AccessorVec4
	case [][2][2]int8:
		zz.Split(44, 4)
		n, c, t = len(d), gltf.ComponentByte, gltf.AccessorMat2
	case [][3][3]int8:
		zz.Split(44, 5)
		n, c, t = len(d), gltf.ComponentByte, gltf.AccessorMat3
	case [][4][4]int8:
		zz.Split(44, 6)
		n, c, t = len(d), gltf.ComponentByte, gltf.AccessorMat4
	case []uint8:
		zz.Split(44, 7)
		n, c, t = len(d), gltf.ComponentUbyte, gltf.AccessorScalar
	case [][2]uint8:
		zz.Split(44, 8)
		n, c, t = len(d), gltf.ComponentUbyte, gltf.AccessorVec2
	case [][3]uint8:
		zz.Split(44, 9)
		n, c, t = len(d), gltf.ComponentUbyte, gltf.AccessorVec3
	case [][4]uint8:
		zz.Split(44, 10)
		n, c, t = len(d), gltf.ComponentUbyte, gltf.AccessorVec4
	case [][2][2]uint8:
		zz.Split(44, 11)
		n, c, t = len(d), gltf.ComponentUbyte, gltf.AccessorMat2
	case [][3][3]uint8:
		zz.Split(44, 12)
		n, c, t = len(d), gltf.ComponentUbyte, gltf.AccessorMat3
	case [][4][4]uint8:
		zz.Split(44, 13)
		n, c, t = len(d), gltf.ComponentUbyte, gltf.AccessorMat4
	case []int16:
		zz.Split(44, 14)
		n, c, t = len(d), gltf.ComponentShort, gltf.AccessorScalar
	case [][2]int16:
		zz.Split(44, 15)
		n, c, t = len(d), gltf.ComponentShort, gltf.AccessorVec2
	case [][3]int16:
		zz.Split(44, 16)
		n, c, t = len(d), gltf.ComponentShort, gltf.AccessorVec3
	case [][4]int16:
		zz.Split(44, 17)
		n, c, t = len(d), gltf.ComponentShort, gltf.AccessorVec4
	case [][2][2]int16:
		zz.Split(44, 18)
		n, c, t = len(d), gltf.ComponentShort, gltf.AccessorMat2
	case [][3][3]int16:
		zz.Split(44, 19)
		n, c, t = len(d), gltf.ComponentShort, gltf.AccessorMat3
	case [][4][4]int16:
		zz.Split(44, 20)
		n, c, t = len(d), gltf.ComponentShort, gltf.AccessorMat4
	case []uint16:
		zz.Split(44, 21)
		n, c, t = len(d), gltf.ComponentUshort, gltf.AccessorScalar
	case [][2]uint16:
		zz.Split(44, 22)
		n, c, t = len(d), gltf.ComponentUshort, gltf.AccessorVec2
	case [][3]uint16:
		zz.Split(44, 23)
		n, c, t = len(d), gltf.ComponentUshort, gltf.AccessorVec3
	case [][4]uint16:
		zz.Split(44, 24)
		n, c, t = len(d), gltf.ComponentUshort, gltf.AccessorVec4
	case [][2][2]uint16:
		zz.Split(44, 25)
		n, c, t = len(d), gltf.ComponentUshort, gltf.AccessorMat2
	case [][3][3]uint16:
		zz.Split(44, 26)
		n, c, t = len(d), gltf.ComponentUshort, gltf.AccessorMat3
	case [][4][4]uint16:
		zz.Split(44, 27)
		n, c, t = len(d), gltf.ComponentUshort, gltf.AccessorMat4
	case []uint32:
		zz.Split(44, 28)
		n, c, t = len(d), gltf.ComponentUint, gltf.AccessorScalar
	case [][2]uint32:
		zz.Split(44, 29)
		n, c, t = len(d), gltf.ComponentUint, gltf.AccessorVec2
	case [][3]uint32:
		zz.Split(44, 30)
		n, c, t = len(d), gltf.ComponentUint, gltf.AccessorVec3
	case [][4]uint32:
		zz.Split(44, 31)
		n, c, t = len(d), gltf.ComponentUint, gltf.AccessorVec4
	case [][2][2]uint32:
		zz.Split(44, 32)
		n, c, t = len(d), gltf.ComponentUint, gltf.AccessorMat2
	case [][3][3]uint32:
		zz.Split(44, 33)
		n, c, t = len(d), gltf.ComponentUint, gltf.AccessorMat3
	case [][4][4]uint32:
		zz.Split(44, 34)
		n, c, t = len(d), gltf.ComponentUint, gltf.AccessorMat4
	case []float32:
		zz.Split(44, 35)
		n, c, t = len(d), gltf.ComponentFloat, gltf.AccessorScalar
	case [][2]float32:
		zz.Split(44, 36)
		n, c, t = len(d), gltf.ComponentFloat, gltf.AccessorVec2
	case [][3]float32:
		zz.Split(44, 37)
		n, c, t = len(d), gltf.ComponentFloat, gltf.AccessorVec3
	case [][4]float32:
		zz.Split(44, 38)
		n, c, t = len(d), gltf.ComponentFloat, gltf.AccessorVec4
	case [][2][2]float32:
		zz.Split(44, 39)
		n, c, t = len(d), gltf.ComponentFloat, gltf.AccessorMat2
	case [][3][3]float32:
		zz.Split(44, 40)
		n, c, t = len(d), gltf.ComponentFloat, gltf.AccessorMat3
	case [][4][4]float32:
		zz.Split(44, 41)
		n, c, t = len(d), gltf.ComponentFloat, gltf.AccessorMat4
	case []color.RGBA:
		zz.Split(44, 42)
		n, c, t = len(d), gltf.ComponentUbyte, gltf.AccessorVec4
	case []color.RGBA64:
		zz.Split(44, 43)
		n, c, t = len(d), gltf.ComponentUshort, gltf.AccessorVec4
	default:
		zz.Requires(false)
	}
	size := gltf.SpecElementSize(c, t)
	accs, views, bufs := doc.Accessors, doc.BufferViews, doc.Buffers
	na, nv, nb := len(accs), len(views), len(bufs)
	var last *gltf.Buffer
	if nb > 0 {
		last = bufs[nb-1]
	}
	was, wasLen := specBytesOf(last)
	zz.RequiresF(func() bool { return specApartData(data, was) })
	zz.Modifies(accs[na:cap(accs)])
	zz.Modifies(views[nv:cap(views)])
	zz.Modifies(bufs[nb:cap(bufs)])
	zz.ModifiesPtr(&doc.Accessors)
	zz.ModifiesPtr(&doc.BufferViews)
	zz.ModifiesPtr(&doc.Buffers)
	sn := zz.Snapshot().Watch(accs[:na:na]).Watch(views[:nv:nv]).Watch(data)
	sn = sn.Except(accs[na:cap(accs)]).Except(views[nv:cap(views)]).Except(bufs[nb:cap(bufs)])
	sn = sn.Except(&doc.Accessors).Except(&doc.BufferViews).Except(&doc.Buffers)
	if nb > 0 {
		zz.Modifies(was[len(was):cap(was)])
		zz.ModifiesPtr(&last.Data)
		zz.ModifiesPtr(&last.ByteLength)
		sn = sn.Watch(bufs[: nb-1 : nb-1]).Watch(was[:len(was):len(was)])
		sn = sn.Except(was[len(was):cap(was)]).Except(&last.Data).Except(&last.ByteLength)
	}
	start := (len(was) + 3) / 4 * 4
	index := WriteAccessor(doc, target, data)
	sn.Replayed("C09.frame")
	zz.Ensures("C09.lists", func() bool {
		return len(doc.Accessors) == na+1 && len(doc.BufferViews) == nv+1 && (len(doc.Buffers) == nb || nb == 0 && len(doc.Buffers) == 1)
	})
	zz.Ensures("C09.index", func() bool { return index == na })
	zz.Ensures("C09.existing", func() bool {
		return zz.Forall(0, na, func(i int) bool { return doc.Accessors[i] == accs[i] }) &&
			zz.Forall(0, nv, func(i int) bool { return doc.BufferViews[i] == views[i] }) &&
			zz.Forall(0, nb, func(i int) bool { return doc.Buffers[i] == bufs[i] })
	})
	zz.Ensures("C09.fresh", func() bool {
		return doc.Accessors[na] != nil && zz.FreshPtr(doc.Accessors[na]) && doc.BufferViews[nv] != nil && zz.FreshPtr(doc.BufferViews[nv]) &&
			specLast(doc) != nil && (nb > 0 || zz.FreshPtr(specLast(doc)))
	})
	zz.Ensures("C09.accessor", func() bool {
		a := doc.Accessors[na]
		return a.ComponentType == c && a.Type == t && a.Count == n && a.ByteOffset == 0 && a.BufferView != nil && *a.BufferView == nv &&
			a.Sparse == nil && !a.Normalized && len(a.Min) == 0 && len(a.Max) == 0
	})
	zz.Ensures("C09.view", func() bool {
		v := doc.BufferViews[nv]
		return v.Buffer == len(doc.Buffers)-1 && v.ByteOffset == start && v.ByteLength == n*size && v.Target == target &&
			v.ByteStride == specViewStride(target, c, t)
	})
	zz.Ensures("C09.buffer", func() bool {
		b := specLast(doc)
		return len(b.Data) == start+n*size && (wasLen != len(was) || b.ByteLength == len(b.Data))
	})
	zz.Ensures("C09.bytes", func() bool {
		b := specLast(doc).Data
		return zz.Forall(0, len(was), func(i int) bool { return b[i] == was[i] }) &&
			zz.Forall(len(was), start, func(i int) bool { return b[i] == 0 })
	})
	switch d := data.(type) {
	case []int8:
		zz.Ensures("C10.bytes.Byte_Scalar", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Byte_Scalar(b, start+1*i, d[i]) })
		})
	case [][2]int8:
		zz.Ensures("C10.bytes.Byte_Vec2", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Byte_Vec2(b, start+4*i, d[i]) })
		})
	case [][3]int8:
		zz.Ensures("C10.bytes.Byte_Vec3", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Byte_Vec3(b, start+4*i, d[i]) })
		})
	case [][4]int8:
		zz.Ensures("C10.bytes.Byte_Vec4", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Byte_Vec4(b, start+4*i, d[i]) })
		})
	case [][2][2]int8:
		zz.Ensures("C10.bytes.Byte_Mat2", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Byte_Mat2(b, start+8*i, d[i]) })
		})
	case [][3][3]int8:
		zz.Ensures("C10.bytes.Byte_Mat3", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Byte_Mat3(b, start+12*i, d[i]) })
		})
	case [][4][4]int8:
		zz.Ensures("C10.bytes.Byte_Mat4", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Byte_Mat4(b, start+16*i, d[i]) })
		})
	case []uint8:
		zz.Ensures("C10.bytes.Ubyte_Scalar", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Ubyte_Scalar(b, start+1*i, d[i]) })
		})
	case [][2]uint8:
		zz.Ensures("C10.bytes.Ubyte_Vec2", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Ubyte_Vec2(b, start+4*i, d[i]) })
		})
	case [][3]uint8:
		zz.Ensures("C10.bytes.Ubyte_Vec3", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Ubyte_Vec3(b, start+4*i, d[i]) })
		})
	case [][4]uint8:
		zz.Ensures("C10.bytes.Ubyte_Vec4", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Ubyte_Vec4(b, start+4*i, d[i]) })
		})
	case [][2][2]uint8:
		zz.Ensures("C10.bytes.Ubyte_Mat2", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Ubyte_Mat2(b, start+8*i, d[i]) })
		})
	case [][3][3]uint8:
		zz.Ensures("C10.bytes.Ubyte_Mat3", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Ubyte_Mat3(b, start+12*i, d[i]) })
		})
	case [][4][4]uint8:
		zz.Ensures("C10.bytes.Ubyte_Mat4", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Ubyte_Mat4(b, start+16*i, d[i]) })
		})
	case []int16:
		zz.Ensures("C10.bytes.Short_Scalar", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Short_Scalar(b, start+2*i, d[i]) })
		})
	case [][2]int16:
		zz.Ensures("C10.bytes.Short_Vec2", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Short_Vec2(b, start+4*i, d[i]) })
		})
	case [][3]int16:
		zz.Ensures("C10.bytes.Short_Vec3", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Short_Vec3(b, start+8*i, d[i]) })
		})
	case [][4]int16:
		zz.Ensures("C10.bytes.Short_Vec4", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Short_Vec4(b, start+8*i, d[i]) })
		})
	case [][2][2]int16:
		zz.Ensures("C10.bytes.Short_Mat2", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Short_Mat2(b, start+8*i, d[i]) })
		})
	case [][3][3]int16:
		zz.Ensures("C10.bytes.Short_Mat3", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Short_Mat3(b, start+24*i, d[i]) })
		})
	case [][4][4]int16:
		zz.Ensures("C10.bytes.Short_Mat4", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Short_Mat4(b, start+32*i, d[i]) })
		})
	case []uint16:
		zz.Ensures("C10.bytes.Ushort_Scalar", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Ushort_Scalar(b, start+2*i, d[i]) })
		})
	case [][2]uint16:
		zz.Ensures("C10.bytes.Ushort_Vec2", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Ushort_Vec2(b, start+4*i, d[i]) })
		})
	case [][3]uint16:
		zz.Ensures("C10.bytes.Ushort_Vec3", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Ushort_Vec3(b, start+8*i, d[i]) })
		})
	case [][4]uint16:
		zz.Ensures("C10.bytes.Ushort_Vec4", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Ushort_Vec4(b, start+8*i, d[i]) })
		})
	case [][2][2]uint16:
		zz.Ensures("C10.bytes.Ushort_Mat2", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Ushort_Mat2(b, start+8*i, d[i]) })
		})
	case [][3][3]uint16:
		zz.Ensures("C10.bytes.Ushort_Mat3", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Ushort_Mat3(b, start+24*i, d[i]) })
		})
	case [][4][4]uint16:
		zz.Ensures("C10.bytes.Ushort_Mat4", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Ushort_Mat4(b, start+32*i, d[i]) })
		})
	case []uint32:
		zz.Ensures("C10.bytes.Uint_Scalar", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Uint_Scalar(b, start+4*i, d[i]) })
		})
	case [][2]uint32:
		zz.Ensures("C10.bytes.Uint_Vec2", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Uint_Vec2(b, start+8*i, d[i]) })
		})
	case [][3]uint32:
		zz.Ensures("C10.bytes.Uint_Vec3", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Uint_Vec3(b, start+12*i, d[i]) })
		})
	case [][4]uint32:
		zz.Ensures("C10.bytes.Uint_Vec4", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Uint_Vec4(b, start+16*i, d[i]) })
		})
	case [][2][2]uint32:
		zz.Ensures("C10.bytes.Uint_Mat2", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Uint_Mat2(b, start+16*i, d[i]) })
		})
	case [][3][3]uint32:
		zz.Ensures("C10.bytes.Uint_Mat3", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Uint_Mat3(b, start+36*i, d[i]) })
		})
	case [][4][4]uint32:
		zz.Ensures("C10.bytes.Uint_Mat4", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Uint_Mat4(b, start+64*i, d[i]) })
		})
	case []float32:
		zz.Ensures("C10.bytes.Float_Scalar", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Float_Scalar(b, start+4*i, d[i]) })
		})
	case [][2]float32:
		zz.Ensures("C10.bytes.Float_Vec2", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Float_Vec2(b, start+8*i, d[i]) })
		})
	case [][3]float32:
		zz.Ensures("C10.bytes.Float_Vec3", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Float_Vec3(b, start+12*i, d[i]) })
		})
	case [][4]float32:
		zz.Ensures("C10.bytes.Float_Vec4", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Float_Vec4(b, start+16*i, d[i]) })
		})
	case [][2][2]float32:
		zz.Ensures("C10.bytes.Float_Mat2", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Float_Mat2(b, start+16*i, d[i]) })
		})
	case [][3][3]float32:
		zz.Ensures("C10.bytes.Float_Mat3", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Float_Mat3(b, start+36*i, d[i]) })
		})
	case [][4][4]float32:
		zz.Ensures("C10.bytes.Float_Mat4", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_Float_Mat4(b, start+64*i, d[i]) })
		})
	case []color.RGBA:
		zz.Ensures("C10.bytes.RGBA", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_RGBA(b, start+4*i, d[i]) })
		})
	case []color.RGBA64:
		zz.Ensures("C10.bytes.RGBA64", func() bool {
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool { return binary.SpecAt_RGBA64(b, start+8*i, d[i]) })
		})
	}
}

func specGenData(r *zz.R, k, n int) any {
	switch k {
	case 0:
		d := make([]int8, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 1:
		d := make([][2]int8, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 2:
		d := make([][3]int8, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 3:
		d := make([][4]int8, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 4:
		d := make([][2][2]int8, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 5:
		d := make([][3][3]int8, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 6:
		d := make([][4][4]int8, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 7:
		d := make([]uint8, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 8:
		d := make([][2]uint8, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 9:
		d := make([][3]uint8, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 10:
		d := make([][4]uint8, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 11:
		d := make([][2][2]uint8, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 12:
		d := make([][3][3]uint8, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 13:
		d := make([][4][4]uint8, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 14:
		d := make([]int16, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 15:
		d := make([][2]int16, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 16:
		d := make([][3]int16, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 17:
		d := make([][4]int16, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 18:
		d := make([][2][2]int16, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 19:
		d := make([][3][3]int16, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 20:
		d := make([][4][4]int16, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 21:
		d := make([]uint16, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 22:
		d := make([][2]uint16, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 23:
		d := make([][3]uint16, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 24:
		d := make([][4]uint16, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 25:
		d := make([][2][2]uint16, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 26:
		d := make([][3][3]uint16, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 27:
		d := make([][4][4]uint16, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 28:
		d := make([]uint32, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 29:
		d := make([][2]uint32, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 30:
		d := make([][3]uint32, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 31:
		d := make([][4]uint32, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 32:
		d := make([][2][2]uint32, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 33:
		d := make([][3][3]uint32, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 34:
		d := make([][4][4]uint32, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 35:
		d := make([]float32, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 36:
		d := make([][2]float32, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 37:
		d := make([][3]float32, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 38:
		d := make([][4]float32, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 39:
		d := make([][2][2]float32, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 40:
		d := make([][3][3]float32, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 41:
		d := make([][4][4]float32, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 42:
		d := make([]color.RGBA, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	case 43:
		d := make([]color.RGBA64, n)
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		return d
	}
	return nil
}

// specGenTarget is a document with some existing content.
func specGenTarget(r *zz.R) *gltf.Document {
	doc := &gltf.Document{}
	for i := r.Intn(3); i > 0; i-- {
		b := r.Bytes(r.Small(13))
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{Data: b[: len(b) : len(b)+r.Intn(cap(b)-len(b)+1)], ByteLength: len(b)})
		if r.Intn(3) == 0 {
			b := make([]byte, r.Small(9), 64)
			for i := range b[:64] {
				b[:64][i] = byte(7 + i)
			}
			doc.Buffers[len(doc.Buffers)-1] = &gltf.Buffer{Data: b, ByteLength: len(b)}
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		doc.BufferViews = append(doc.BufferViews, &gltf.BufferView{ByteLength: 1})
		doc.Accessors = append(doc.Accessors, &gltf.Accessor{Count: 1})
	}
	return doc
}

func init() {
	zz.Register("WriteAccessor", Verif_WriteAccessor, func(r *zz.R) (*gltf.Document, gltf.Target, any) {
		return specGenTarget(r), zz.Pick(r, gltf.TargetNone, gltf.TargetArrayBuffer, gltf.TargetElementArrayBuffer), specGenData(r, zz.Case(), r.Small(6))
	})
}
