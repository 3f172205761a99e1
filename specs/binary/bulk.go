// Code generated by tools/gen_specs.py. DO NOT EDIT.

package binary

import (
	"image/color"
	"io"
	"math"

	"github.com/qmuntal/gltf"
	zz "github.com/qmuntal/gltf/zzverif"
)

var _ = math.Float32bits
var _ = gltf.SizeOfElement

// SpecFits: n elements of size bytes placed every e bytes lie inside length bytes.
func SpecFits(length, n, e, size int) bool {
	return e >= 0 && (n == 0 || zz.MulLe(n-1, e, length-size))
}

func specStride(stride, size int) int {
	if stride == 0 {
		return size
	}
	return stride
}

// SpecAt_Byte_Scalar: the bytes at o are the glTF layout of v.
func SpecAt_Byte_Scalar(b []byte, o int, v int8) bool {
	return spec8(b, o) == uint8(v)
}

// SpecAt_Byte_Vec2: the bytes at o are the glTF layout of v.
func SpecAt_Byte_Vec2(b []byte, o int, v [2]int8) bool {
	return spec8(b, o) == uint8(v[0]) &&
		spec8(b, o+1) == uint8(v[1])
}

// SpecAt_Byte_Vec3: the bytes at o are the glTF layout of v.
func SpecAt_Byte_Vec3(b []byte, o int, v [3]int8) bool {
	return spec8(b, o) == uint8(v[0]) &&
		spec8(b, o+1) == uint8(v[1]) &&
		spec8(b, o+2) == uint8(v[2])
}

// SpecAt_Byte_Vec4: the bytes at o are the glTF layout of v.
func SpecAt_Byte_Vec4(b []byte, o int, v [4]int8) bool {
	return spec8(b, o) == uint8(v[0]) &&
		spec8(b, o+1) == uint8(v[1]) &&
		spec8(b, o+2) == uint8(v[2]) &&
		spec8(b, o+3) == uint8(v[3])
}

// SpecAt_Byte_Mat2: the bytes at o are the glTF layout of v.
func SpecAt_Byte_Mat2(b []byte, o int, v [2][2]int8) bool {
	return spec8(b, o) == uint8(v[0][0]) &&
		spec8(b, o+1) == uint8(v[1][0]) &&
		spec8(b, o+4) == uint8(v[0][1]) &&
		spec8(b, o+5) == uint8(v[1][1])
}

// SpecAt_Byte_Mat3: the bytes at o are the glTF layout of v.
func SpecAt_Byte_Mat3(b []byte, o int, v [3][3]int8) bool {
	return spec8(b, o) == uint8(v[0][0]) &&
		spec8(b, o+1) == uint8(v[1][0]) &&
		spec8(b, o+2) == uint8(v[2][0]) &&
		spec8(b, o+4) == uint8(v[0][1]) &&
		spec8(b, o+5) == uint8(v[1][1]) &&
		spec8(b, o+6) == uint8(v[2][1]) &&
		spec8(b, o+8) == uint8(v[0][2]) &&
		spec8(b, o+9) == uint8(v[1][2]) &&
		spec8(b, o+10) == uint8(v[2][2])
}

// SpecAt_Byte_Mat4: the bytes at o are the glTF layout of v.
func SpecAt_Byte_Mat4(b []byte, o int, v [4][4]int8) bool {
	return spec8(b, o) == uint8(v[0][0]) &&
		spec8(b, o+1) == uint8(v[1][0]) &&
		spec8(b, o+2) == uint8(v[2][0]) &&
		spec8(b, o+3) == uint8(v[3][0]) &&
		spec8(b, o+4) == uint8(v[0][1]) &&
		spec8(b, o+5) == uint8(v[1][1]) &&
		spec8(b, o+6) == uint8(v[2][1]) &&
		spec8(b, o+7) == uint8(v[3][1]) &&
		spec8(b, o+8) == uint8(v[0][2]) &&
		spec8(b, o+9) == uint8(v[1][2]) &&
		spec8(b, o+10) == uint8(v[2][2]) &&
		spec8(b, o+11) == uint8(v[3][2]) &&
		spec8(b, o+12) == uint8(v[0][3]) &&
		spec8(b, o+13) == uint8(v[1][3]) &&
		spec8(b, o+14) == uint8(v[2][3]) &&
		spec8(b, o+15) == uint8(v[3][3])
}

// SpecAt_Ubyte_Scalar: the bytes at o are the glTF layout of v.
func SpecAt_Ubyte_Scalar(b []byte, o int, v uint8) bool {
	return spec8(b, o) == v
}

// SpecAt_Ubyte_Vec2: the bytes at o are the glTF layout of v.
func SpecAt_Ubyte_Vec2(b []byte, o int, v [2]uint8) bool {
	return spec8(b, o) == v[0] &&
		spec8(b, o+1) == v[1]
}

// SpecAt_Ubyte_Vec3: the bytes at o are the glTF layout of v.
func SpecAt_Ubyte_Vec3(b []byte, o int, v [3]uint8) bool {
	return spec8(b, o) == v[0] &&
		spec8(b, o+1) == v[1] &&
		spec8(b, o+2) == v[2]
}

// SpecAt_Ubyte_Vec4: the bytes at o are the glTF layout of v.
func SpecAt_Ubyte_Vec4(b []byte, o int, v [4]uint8) bool {
	return spec8(b, o) == v[0] &&
		spec8(b, o+1) == v[1] &&
		spec8(b, o+2) == v[2] &&
		spec8(b, o+3) == v[3]
}

// SpecAt_Ubyte_Mat2: the bytes at o are the glTF layout of v.
func SpecAt_Ubyte_Mat2(b []byte, o int, v [2][2]uint8) bool {
	return spec8(b, o) == v[0][0] &&
		spec8(b, o+1) == v[1][0] &&
		spec8(b, o+4) == v[0][1] &&
		spec8(b, o+5) == v[1][1]
}

// SpecAt_Ubyte_Mat3: the bytes at o are the glTF layout of v.
func SpecAt_Ubyte_Mat3(b []byte, o int, v [3][3]uint8) bool {
	return spec8(b, o) == v[0][0] &&
		spec8(b, o+1) == v[1][0] &&
		spec8(b, o+2) == v[2][0] &&
		spec8(b, o+4) == v[0][1] &&
		spec8(b, o+5) == v[1][1] &&
		spec8(b, o+6) == v[2][1] &&
		spec8(b, o+8) == v[0][2] &&
		spec8(b, o+9) == v[1][2] &&
		spec8(b, o+10) == v[2][2]
}

// SpecAt_Ubyte_Mat4: the bytes at o are the glTF layout of v.
func SpecAt_Ubyte_Mat4(b []byte, o int, v [4][4]uint8) bool {
	return spec8(b, o) == v[0][0] &&
		spec8(b, o+1) == v[1][0] &&
		spec8(b, o+2) == v[2][0] &&
		spec8(b, o+3) == v[3][0] &&
		spec8(b, o+4) == v[0][1] &&
		spec8(b, o+5) == v[1][1] &&
		spec8(b, o+6) == v[2][1] &&
		spec8(b, o+7) == v[3][1] &&
		spec8(b, o+8) == v[0][2] &&
		spec8(b, o+9) == v[1][2] &&
		spec8(b, o+10) == v[2][2] &&
		spec8(b, o+11) == v[3][2] &&
		spec8(b, o+12) == v[0][3] &&
		spec8(b, o+13) == v[1][3] &&
		spec8(b, o+14) == v[2][3] &&
		spec8(b, o+15) == v[3][3]
}

// SpecAt_Short_Scalar: the bytes at o are the glTF layout of v.
func SpecAt_Short_Scalar(b []byte, o int, v int16) bool {
	return spec16(b, o) == uint16(v)
}

// SpecAt_Short_Vec2: the bytes at o are the glTF layout of v.
func SpecAt_Short_Vec2(b []byte, o int, v [2]int16) bool {
	return spec16(b, o) == uint16(v[0]) &&
		spec16(b, o+2) == uint16(v[1])
}

// SpecAt_Short_Vec3: the bytes at o are the glTF layout of v.
func SpecAt_Short_Vec3(b []byte, o int, v [3]int16) bool {
	return spec16(b, o) == uint16(v[0]) &&
		spec16(b, o+2) == uint16(v[1]) &&
		spec16(b, o+4) == uint16(v[2])
}

// SpecAt_Short_Vec4: the bytes at o are the glTF layout of v.
func SpecAt_Short_Vec4(b []byte, o int, v [4]int16) bool {
	return spec16(b, o) == uint16(v[0]) &&
		spec16(b, o+2) == uint16(v[1]) &&
		spec16(b, o+4) == uint16(v[2]) &&
		spec16(b, o+6) == uint16(v[3])
}

// SpecAt_Short_Mat2: the bytes at o are the glTF layout of v.
func SpecAt_Short_Mat2(b []byte, o int, v [2][2]int16) bool {
	return spec16(b, o) == uint16(v[0][0]) &&
		spec16(b, o+2) == uint16(v[1][0]) &&
		spec16(b, o+4) == uint16(v[0][1]) &&
		spec16(b, o+6) == uint16(v[1][1])
}

// SpecAt_Short_Mat3: the bytes at o are the glTF layout of v.
func SpecAt_Short_Mat3(b []byte, o int, v [3][3]int16) bool {
	return spec16(b, o) == uint16(v[0][0]) &&
		spec16(b, o+2) == uint16(v[1][0]) &&
		spec16(b, o+4) == uint16(v[2][0]) &&
		spec16(b, o+8) == uint16(v[0][1]) &&
		spec16(b, o+10) == uint16(v[1][1]) &&
		spec16(b, o+12) == uint16(v[2][1]) &&
		spec16(b, o+16) == uint16(v[0][2]) &&
		spec16(b, o+18) == uint16(v[1][2]) &&
		spec16(b, o+20) == uint16(v[2][2])
}

// SpecAt_Short_Mat4: the bytes at o are the glTF layout of v.
func SpecAt_Short_Mat4(b []byte, o int, v [4][4]int16) bool {
	return spec16(b, o) == uint16(v[0][0]) &&
		spec16(b, o+2) == uint16(v[1][0]) &&
		spec16(b, o+4) == uint16(v[2][0]) &&
		spec16(b, o+6) == uint16(v[3][0]) &&
		spec16(b, o+8) == uint16(v[0][1]) &&
		spec16(b, o+10) == uint16(v[1][1]) &&
		spec16(b, o+12) == uint16(v[2][1]) &&
		spec16(b, o+14) == uint16(v[3][1]) &&
		spec16(b, o+16) == uint16(v[0][2]) &&
		spec16(b, o+18) == uint16(v[1][2]) &&
		spec16(b, o+20) == uint16(v[2][2]) &&
		spec16(b, o+22) == uint16(v[3][2]) &&
		spec16(b, o+24) == uint16(v[0][3]) &&
		spec16(b, o+26) == uint16(v[1][3]) &&
		spec16(b, o+28) == uint16(v[2][3]) &&
		spec16(b, o+30) == uint16(v[3][3])
}

// SpecAt_Ushort_Scalar: the bytes at o are the glTF layout of v.
func SpecAt_Ushort_Scalar(b []byte, o int, v uint16) bool {
	return spec16(b, o) == v
}

// SpecAt_Ushort_Vec2: the bytes at o are the glTF layout of v.
func SpecAt_Ushort_Vec2(b []byte, o int, v [2]uint16) bool {
	return spec16(b, o) == v[0] &&
		spec16(b, o+2) == v[1]
}

// SpecAt_Ushort_Vec3: the bytes at o are the glTF layout of v.
func SpecAt_Ushort_Vec3(b []byte, o int, v [3]uint16) bool {
	return spec16(b, o) == v[0] &&
		spec16(b, o+2) == v[1] &&
		spec16(b, o+4) == v[2]
}

// SpecAt_Ushort_Vec4: the bytes at o are the glTF layout of v.
func SpecAt_Ushort_Vec4(b []byte, o int, v [4]uint16) bool {
	return spec16(b, o) == v[0] &&
		spec16(b, o+2) == v[1] &&
		spec16(b, o+4) == v[2] &&
		spec16(b, o+6) == v[3]
}

// SpecAt_Ushort_Mat2: the bytes at o are the glTF layout of v.
func SpecAt_Ushort_Mat2(b []byte, o int, v [2][2]uint16) bool {
	return spec16(b, o) == v[0][0] &&
		spec16(b, o+2) == v[1][0] &&
		spec16(b, o+4) == v[0][1] &&
		spec16(b, o+6) == v[1][1]
}

// SpecAt_Ushort_Mat3: the bytes at o are the glTF layout of v.
func SpecAt_Ushort_Mat3(b []byte, o int, v [3][3]uint16) bool {
	return spec16(b, o) == v[0][0] &&
		spec16(b, o+2) == v[1][0] &&
		spec16(b, o+4) == v[2][0] &&
		spec16(b, o+8) == v[0][1] &&
		spec16(b, o+10) == v[1][1] &&
		spec16(b, o+12) == v[2][1] &&
		spec16(b, o+16) == v[0][2] &&
		spec16(b, o+18) == v[1][2] &&
		spec16(b, o+20) == v[2][2]
}

// SpecAt_Ushort_Mat4: the bytes at o are the glTF layout of v.
func SpecAt_Ushort_Mat4(b []byte, o int, v [4][4]uint16) bool {
	return spec16(b, o) == v[0][0] &&
		spec16(b, o+2) == v[1][0] &&
		spec16(b, o+4) == v[2][0] &&
		spec16(b, o+6) == v[3][0] &&
		spec16(b, o+8) == v[0][1] &&
		spec16(b, o+10) == v[1][1] &&
		spec16(b, o+12) == v[2][1] &&
		spec16(b, o+14) == v[3][1] &&
		spec16(b, o+16) == v[0][2] &&
		spec16(b, o+18) == v[1][2] &&
		spec16(b, o+20) == v[2][2] &&
		spec16(b, o+22) == v[3][2] &&
		spec16(b, o+24) == v[0][3] &&
		spec16(b, o+26) == v[1][3] &&
		spec16(b, o+28) == v[2][3] &&
		spec16(b, o+30) == v[3][3]
}

// SpecAt_Uint_Scalar: the bytes at o are the glTF layout of v.
func SpecAt_Uint_Scalar(b []byte, o int, v uint32) bool {
	return spec32(b, o) == v
}

// SpecAt_Uint_Vec2: the bytes at o are the glTF layout of v.
func SpecAt_Uint_Vec2(b []byte, o int, v [2]uint32) bool {
	return spec32(b, o) == v[0] &&
		spec32(b, o+4) == v[1]
}

// SpecAt_Uint_Vec3: the bytes at o are the glTF layout of v.
func SpecAt_Uint_Vec3(b []byte, o int, v [3]uint32) bool {
	return spec32(b, o) == v[0] &&
		spec32(b, o+4) == v[1] &&
		spec32(b, o+8) == v[2]
}

// SpecAt_Uint_Vec4: the bytes at o are the glTF layout of v.
func SpecAt_Uint_Vec4(b []byte, o int, v [4]uint32) bool {
	return spec32(b, o) == v[0] &&
		spec32(b, o+4) == v[1] &&
		spec32(b, o+8) == v[2] &&
		spec32(b, o+12) == v[3]
}

// SpecAt_Uint_Mat2: the bytes at o are the glTF layout of v.
func SpecAt_Uint_Mat2(b []byte, o int, v [2][2]uint32) bool {
	return spec32(b, o) == v[0][0] &&
		spec32(b, o+4) == v[1][0] &&
		spec32(b, o+8) == v[0][1] &&
		spec32(b, o+12) == v[1][1]
}

// SpecAt_Uint_Mat3: the bytes at o are the glTF layout of v.
func SpecAt_Uint_Mat3(b []byte, o int, v [3][3]uint32) bool {
	return spec32(b, o) == v[0][0] &&
		spec32(b, o+4) == v[1][0] &&
		spec32(b, o+8) == v[2][0] &&
		spec32(b, o+12) == v[0][1] &&
		spec32(b, o+16) == v[1][1] &&
		spec32(b, o+20) == v[2][1] &&
		spec32(b, o+24) == v[0][2] &&
		spec32(b, o+28) == v[1][2] &&
		spec32(b, o+32) == v[2][2]
}

// SpecAt_Uint_Mat4: the bytes at o are the glTF layout of v.
func SpecAt_Uint_Mat4(b []byte, o int, v [4][4]uint32) bool {
	return spec32(b, o) == v[0][0] &&
		spec32(b, o+4) == v[1][0] &&
		spec32(b, o+8) == v[2][0] &&
		spec32(b, o+12) == v[3][0] &&
		spec32(b, o+16) == v[0][1] &&
		spec32(b, o+20) == v[1][1] &&
		spec32(b, o+24) == v[2][1] &&
		spec32(b, o+28) == v[3][1] &&
		spec32(b, o+32) == v[0][2] &&
		spec32(b, o+36) == v[1][2] &&
		spec32(b, o+40) == v[2][2] &&
		spec32(b, o+44) == v[3][2] &&
		spec32(b, o+48) == v[0][3] &&
		spec32(b, o+52) == v[1][3] &&
		spec32(b, o+56) == v[2][3] &&
		spec32(b, o+60) == v[3][3]
}

// SpecAt_Float_Scalar: the bytes at o are the glTF layout of v.
func SpecAt_Float_Scalar(b []byte, o int, v float32) bool {
	return spec32(b, o) == math.Float32bits(v)
}

// SpecAt_Float_Vec2: the bytes at o are the glTF layout of v.
func SpecAt_Float_Vec2(b []byte, o int, v [2]float32) bool {
	return spec32(b, o) == math.Float32bits(v[0]) &&
		spec32(b, o+4) == math.Float32bits(v[1])
}

// SpecAt_Float_Vec3: the bytes at o are the glTF layout of v.
func SpecAt_Float_Vec3(b []byte, o int, v [3]float32) bool {
	return spec32(b, o) == math.Float32bits(v[0]) &&
		spec32(b, o+4) == math.Float32bits(v[1]) &&
		spec32(b, o+8) == math.Float32bits(v[2])
}

// SpecAt_Float_Vec4: the bytes at o are the glTF layout of v.
func SpecAt_Float_Vec4(b []byte, o int, v [4]float32) bool {
	return spec32(b, o) == math.Float32bits(v[0]) &&
		spec32(b, o+4) == math.Float32bits(v[1]) &&
		spec32(b, o+8) == math.Float32bits(v[2]) &&
		spec32(b, o+12) == math.Float32bits(v[3])
}

// SpecAt_Float_Mat2: the bytes at o are the glTF layout of v.
func SpecAt_Float_Mat2(b []byte, o int, v [2][2]float32) bool {
	return spec32(b, o) == math.Float32bits(v[0][0]) &&
		spec32(b, o+4) == math.Float32bits(v[1][0]) &&
		spec32(b, o+8) == math.Float32bits(v[0][1]) &&
		spec32(b, o+12) == math.Float32bits(v[1][1])
}

// SpecAt_Float_Mat3: the bytes at o are the glTF layout of v.
func SpecAt_Float_Mat3(b []byte, o int, v [3][3]float32) bool {
	return spec32(b, o) == math.Float32bits(v[0][0]) &&
		spec32(b, o+4) == math.Float32bits(v[1][0]) &&
		spec32(b, o+8) == math.Float32bits(v[2][0]) &&
		spec32(b, o+12) == math.Float32bits(v[0][1]) &&
		spec32(b, o+16) == math.Float32bits(v[1][1]) &&
		spec32(b, o+20) == math.Float32bits(v[2][1]) &&
		spec32(b, o+24) == math.Float32bits(v[0][2]) &&
		spec32(b, o+28) == math.Float32bits(v[1][2]) &&
		spec32(b, o+32) == math.Float32bits(v[2][2])
}

// SpecAt_Float_Mat4: the bytes at o are the glTF layout of v.
func SpecAt_Float_Mat4(b []byte, o int, v [4][4]float32) bool {
	return spec32(b, o) == math.Float32bits(v[0][0]) &&
		spec32(b, o+4) == math.Float32bits(v[1][0]) &&
		spec32(b, o+8) == math.Float32bits(v[2][0]) &&
		spec32(b, o+12) == math.Float32bits(v[3][0]) &&
		spec32(b, o+16) == math.Float32bits(v[0][1]) &&
		spec32(b, o+20) == math.Float32bits(v[1][1]) &&
		spec32(b, o+24) == math.Float32bits(v[2][1]) &&
		spec32(b, o+28) == math.Float32bits(v[3][1]) &&
		spec32(b, o+32) == math.Float32bits(v[0][2]) &&
		spec32(b, o+36) == math.Float32bits(v[1][2]) &&
		spec32(b, o+40) == math.Float32bits(v[2][2]) &&
		spec32(b, o+44) == math.Float32bits(v[3][2]) &&
		spec32(b, o+48) == math.Float32bits(v[0][3]) &&
		spec32(b, o+52) == math.Float32bits(v[1][3]) &&
		spec32(b, o+56) == math.Float32bits(v[2][3]) &&
		spec32(b, o+60) == math.Float32bits(v[3][3])
}

// SpecAt_RGBA: the bytes at o are the glTF layout of v.
func SpecAt_RGBA(b []byte, o int, v color.RGBA) bool {
	return spec8(b, o) == v.R &&
		spec8(b, o+1) == v.G &&
		spec8(b, o+2) == v.B &&
		spec8(b, o+3) == v.A
}

// SpecAt_RGBA64: the bytes at o are the glTF layout of v.
func SpecAt_RGBA64(b []byte, o int, v color.RGBA64) bool {
	return spec16(b, o) == v.R &&
		spec16(b, o+2) == v.G &&
		spec16(b, o+4) == v.B &&
		spec16(b, o+6) == v.A
}

//verif:prop C02
//verif:contract Read
//verif:split 44
func Verif_Read(b []byte, stride int, data any) {
	switch d := data.(type) {
	case []int8:
		zz.Split(44, 0)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 1)
		fits := SpecFits(len(b), len(d), e, 1)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Byte_Scalar", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Byte_Scalar", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Byte_Scalar(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Byte_Scalar", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][2]int8:
		zz.Split(44, 1)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 4)
		fits := SpecFits(len(b), len(d), e, 4)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Byte_Vec2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Byte_Vec2", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Byte_Vec2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Byte_Vec2", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][3]int8:
		zz.Split(44, 2)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 4)
		fits := SpecFits(len(b), len(d), e, 4)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Byte_Vec3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Byte_Vec3", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Byte_Vec3(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Byte_Vec3", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][4]int8:
		zz.Split(44, 3)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 4)
		fits := SpecFits(len(b), len(d), e, 4)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Byte_Vec4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Byte_Vec4", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Byte_Vec4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Byte_Vec4", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][2][2]int8:
		zz.Split(44, 4)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 8)
		fits := SpecFits(len(b), len(d), e, 8)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Byte_Mat2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Byte_Mat2", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Byte_Mat2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Byte_Mat2", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][3][3]int8:
		zz.Split(44, 5)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 12)
		fits := SpecFits(len(b), len(d), e, 12)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Byte_Mat3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Byte_Mat3", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Byte_Mat3(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Byte_Mat3", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][4][4]int8:
		zz.Split(44, 6)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 16)
		fits := SpecFits(len(b), len(d), e, 16)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Byte_Mat4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Byte_Mat4", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Byte_Mat4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Byte_Mat4", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case []uint8:
		zz.Split(44, 7)
		zz.Requires(zz.DisjointMem(b, d))
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 1)
		fits := SpecFits(len(b), len(d), e, 1)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Ubyte_Scalar", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Ubyte_Scalar", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Ubyte_Scalar(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Ubyte_Scalar", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][2]uint8:
		zz.Split(44, 8)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 4)
		fits := SpecFits(len(b), len(d), e, 4)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Ubyte_Vec2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Ubyte_Vec2", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Ubyte_Vec2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Ubyte_Vec2", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][3]uint8:
		zz.Split(44, 9)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 4)
		fits := SpecFits(len(b), len(d), e, 4)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Ubyte_Vec3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Ubyte_Vec3", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Ubyte_Vec3(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Ubyte_Vec3", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][4]uint8:
		zz.Split(44, 10)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 4)
		fits := SpecFits(len(b), len(d), e, 4)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Ubyte_Vec4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Ubyte_Vec4", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Ubyte_Vec4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Ubyte_Vec4", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][2][2]uint8:
		zz.Split(44, 11)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 8)
		fits := SpecFits(len(b), len(d), e, 8)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Ubyte_Mat2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Ubyte_Mat2", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Ubyte_Mat2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Ubyte_Mat2", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][3][3]uint8:
		zz.Split(44, 12)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 12)
		fits := SpecFits(len(b), len(d), e, 12)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Ubyte_Mat3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Ubyte_Mat3", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Ubyte_Mat3(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Ubyte_Mat3", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][4][4]uint8:
		zz.Split(44, 13)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 16)
		fits := SpecFits(len(b), len(d), e, 16)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Ubyte_Mat4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Ubyte_Mat4", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Ubyte_Mat4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Ubyte_Mat4", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case []int16:
		zz.Split(44, 14)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 2)
		fits := SpecFits(len(b), len(d), e, 2)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Short_Scalar", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Short_Scalar", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Short_Scalar(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Short_Scalar", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][2]int16:
		zz.Split(44, 15)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 4)
		fits := SpecFits(len(b), len(d), e, 4)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Short_Vec2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Short_Vec2", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Short_Vec2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Short_Vec2", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][3]int16:
		zz.Split(44, 16)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 8)
		fits := SpecFits(len(b), len(d), e, 8)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Short_Vec3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Short_Vec3", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Short_Vec3(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Short_Vec3", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][4]int16:
		zz.Split(44, 17)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 8)
		fits := SpecFits(len(b), len(d), e, 8)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Short_Vec4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Short_Vec4", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Short_Vec4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Short_Vec4", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][2][2]int16:
		zz.Split(44, 18)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 8)
		fits := SpecFits(len(b), len(d), e, 8)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Short_Mat2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Short_Mat2", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Short_Mat2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Short_Mat2", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][3][3]int16:
		zz.Split(44, 19)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 24)
		fits := SpecFits(len(b), len(d), e, 24)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Short_Mat3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Short_Mat3", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Short_Mat3(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Short_Mat3", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][4][4]int16:
		zz.Split(44, 20)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 32)
		fits := SpecFits(len(b), len(d), e, 32)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Short_Mat4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Short_Mat4", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Short_Mat4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Short_Mat4", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case []uint16:
		zz.Split(44, 21)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 2)
		fits := SpecFits(len(b), len(d), e, 2)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Ushort_Scalar", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Ushort_Scalar", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Ushort_Scalar(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Ushort_Scalar", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][2]uint16:
		zz.Split(44, 22)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 4)
		fits := SpecFits(len(b), len(d), e, 4)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Ushort_Vec2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Ushort_Vec2", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Ushort_Vec2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Ushort_Vec2", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][3]uint16:
		zz.Split(44, 23)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 8)
		fits := SpecFits(len(b), len(d), e, 8)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Ushort_Vec3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Ushort_Vec3", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Ushort_Vec3(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Ushort_Vec3", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][4]uint16:
		zz.Split(44, 24)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 8)
		fits := SpecFits(len(b), len(d), e, 8)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Ushort_Vec4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Ushort_Vec4", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Ushort_Vec4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Ushort_Vec4", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][2][2]uint16:
		zz.Split(44, 25)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 8)
		fits := SpecFits(len(b), len(d), e, 8)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Ushort_Mat2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Ushort_Mat2", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Ushort_Mat2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Ushort_Mat2", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][3][3]uint16:
		zz.Split(44, 26)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 24)
		fits := SpecFits(len(b), len(d), e, 24)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Ushort_Mat3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Ushort_Mat3", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Ushort_Mat3(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Ushort_Mat3", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][4][4]uint16:
		zz.Split(44, 27)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 32)
		fits := SpecFits(len(b), len(d), e, 32)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Ushort_Mat4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Ushort_Mat4", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Ushort_Mat4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Ushort_Mat4", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case []uint32:
		zz.Split(44, 28)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 4)
		fits := SpecFits(len(b), len(d), e, 4)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Uint_Scalar", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Uint_Scalar", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Uint_Scalar(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Uint_Scalar", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][2]uint32:
		zz.Split(44, 29)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 8)
		fits := SpecFits(len(b), len(d), e, 8)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Uint_Vec2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Uint_Vec2", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Uint_Vec2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Uint_Vec2", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][3]uint32:
		zz.Split(44, 30)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 12)
		fits := SpecFits(len(b), len(d), e, 12)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Uint_Vec3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Uint_Vec3", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Uint_Vec3(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Uint_Vec3", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][4]uint32:
		zz.Split(44, 31)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 16)
		fits := SpecFits(len(b), len(d), e, 16)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Uint_Vec4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Uint_Vec4", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Uint_Vec4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Uint_Vec4", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][2][2]uint32:
		zz.Split(44, 32)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 16)
		fits := SpecFits(len(b), len(d), e, 16)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Uint_Mat2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Uint_Mat2", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Uint_Mat2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Uint_Mat2", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][3][3]uint32:
		zz.Split(44, 33)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 36)
		fits := SpecFits(len(b), len(d), e, 36)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Uint_Mat3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Uint_Mat3", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Uint_Mat3(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Uint_Mat3", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][4][4]uint32:
		zz.Split(44, 34)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 64)
		fits := SpecFits(len(b), len(d), e, 64)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Uint_Mat4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Uint_Mat4", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Uint_Mat4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Uint_Mat4", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case []float32:
		zz.Split(44, 35)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 4)
		fits := SpecFits(len(b), len(d), e, 4)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Float_Scalar", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Float_Scalar", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Float_Scalar(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Float_Scalar", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][2]float32:
		zz.Split(44, 36)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 8)
		fits := SpecFits(len(b), len(d), e, 8)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Float_Vec2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Float_Vec2", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Float_Vec2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Float_Vec2", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][3]float32:
		zz.Split(44, 37)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 12)
		fits := SpecFits(len(b), len(d), e, 12)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Float_Vec3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Float_Vec3", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Float_Vec3(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Float_Vec3", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][4]float32:
		zz.Split(44, 38)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 16)
		fits := SpecFits(len(b), len(d), e, 16)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Float_Vec4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Float_Vec4", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Float_Vec4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Float_Vec4", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][2][2]float32:
		zz.Split(44, 39)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 16)
		fits := SpecFits(len(b), len(d), e, 16)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Float_Mat2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Float_Mat2", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Float_Mat2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Float_Mat2", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][3][3]float32:
		zz.Split(44, 40)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 36)
		fits := SpecFits(len(b), len(d), e, 36)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Float_Mat3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Float_Mat3", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Float_Mat3(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Float_Mat3", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case [][4][4]float32:
		zz.Split(44, 41)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 64)
		fits := SpecFits(len(b), len(d), e, 64)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.Float_Mat4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.Float_Mat4", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_Float_Mat4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.Float_Mat4", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case []color.RGBA:
		zz.Split(44, 42)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 4)
		fits := SpecFits(len(b), len(d), e, 4)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.RGBA", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.RGBA", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_RGBA(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.RGBA", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	case []color.RGBA64:
		zz.Split(44, 43)
		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, 8)
		fits := SpecFits(len(b), len(d), e, 8)
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.RGBA64", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.read.elements.RGBA64", func() bool {
			return err != nil || zz.Forall(0, len(d), func(i int) bool { return SpecAt_RGBA64(b, e*i, d[i]) })
		})
		zz.Ensures("C02.read.unchanged.RGBA64", func() bool {
			return err == nil || zz.Forall(0, len(d), func(i int) bool { return zz.Same(d[i], old[i]) })
		})
	default:
		zz.Requires(false)
	}
}

//verif:prop C02
//verif:contract Write
//verif:split 44
func Verif_Write(b []byte, stride int, data any) {
	switch d := data.(type) {
	case []int8:
		zz.Split(44, 0)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 1)
		n := len(d)
		fits := SpecFits(len(b), n, e, 1)
		zz.Cases(e < 1)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Byte_Scalar", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Byte_Scalar", func() bool {
			return err != nil || e < 1 || zz.Forall(0, n, func(i int) bool { return SpecAt_Byte_Scalar(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Byte_Scalar", func() bool {
			return err != nil || e < 1 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+1, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Byte_Scalar", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+1, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Byte_Scalar", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][2]int8:
		zz.Split(44, 1)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 4)
		n := len(d)
		fits := SpecFits(len(b), n, e, 4)
		zz.Cases(e < 2)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Byte_Vec2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Byte_Vec2", func() bool {
			return err != nil || e < 2 || zz.Forall(0, n, func(i int) bool { return SpecAt_Byte_Vec2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Byte_Vec2", func() bool {
			return err != nil || e < 2 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+2, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Byte_Vec2", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+2, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Byte_Vec2", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][3]int8:
		zz.Split(44, 2)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 4)
		n := len(d)
		fits := SpecFits(len(b), n, e, 4)
		zz.Cases(e < 3)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Byte_Vec3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Byte_Vec3", func() bool {
			return err != nil || e < 3 || zz.Forall(0, n, func(i int) bool { return SpecAt_Byte_Vec3(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Byte_Vec3", func() bool {
			return err != nil || e < 3 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+3, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Byte_Vec3", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+3, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Byte_Vec3", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][4]int8:
		zz.Split(44, 3)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 4)
		n := len(d)
		fits := SpecFits(len(b), n, e, 4)
		zz.Cases(e < 4)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Byte_Vec4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Byte_Vec4", func() bool {
			return err != nil || e < 4 || zz.Forall(0, n, func(i int) bool { return SpecAt_Byte_Vec4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Byte_Vec4", func() bool {
			return err != nil || e < 4 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+4, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Byte_Vec4", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+4, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Byte_Vec4", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][2][2]int8:
		zz.Split(44, 4)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 8)
		n := len(d)
		fits := SpecFits(len(b), n, e, 8)
		zz.Cases(e < 6)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Byte_Mat2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Byte_Mat2", func() bool {
			return err != nil || e < 6 || zz.Forall(0, n, func(i int) bool {
				return SpecAt_Byte_Mat2(b, e*i, d[i]) && b[e*i+2] == old[e*i+2] && b[e*i+3] == old[e*i+3]
			})
		})
		zz.Ensures("C02.write.gaps.Byte_Mat2", func() bool {
			return err != nil || e < 6 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+6, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Byte_Mat2", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+6, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Byte_Mat2", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][3][3]int8:
		zz.Split(44, 5)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 12)
		n := len(d)
		fits := SpecFits(len(b), n, e, 12)
		zz.Cases(e < 11)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Byte_Mat3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Byte_Mat3", func() bool {
			return err != nil || e < 11 || zz.Forall(0, n, func(i int) bool {
				return SpecAt_Byte_Mat3(b, e*i, d[i]) && b[e*i+3] == old[e*i+3] && b[e*i+7] == old[e*i+7]
			})
		})
		zz.Ensures("C02.write.gaps.Byte_Mat3", func() bool {
			return err != nil || e < 11 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+11, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Byte_Mat3", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+11, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Byte_Mat3", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][4][4]int8:
		zz.Split(44, 6)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 16)
		n := len(d)
		fits := SpecFits(len(b), n, e, 16)
		zz.Cases(e < 16)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Byte_Mat4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Byte_Mat4", func() bool {
			return err != nil || e < 16 || zz.Forall(0, n, func(i int) bool { return SpecAt_Byte_Mat4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Byte_Mat4", func() bool {
			return err != nil || e < 16 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+16, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Byte_Mat4", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+16, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Byte_Mat4", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case []uint8:
		zz.Split(44, 7)
		zz.Requires(zz.DisjointMem(b, d))
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 1)
		n := len(d)
		fits := SpecFits(len(b), n, e, 1)
		zz.Cases(e < 1)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Ubyte_Scalar", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Ubyte_Scalar", func() bool {
			return err != nil || e < 1 || zz.Forall(0, n, func(i int) bool { return SpecAt_Ubyte_Scalar(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Ubyte_Scalar", func() bool {
			return err != nil || e < 1 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+1, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Ubyte_Scalar", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+1, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Ubyte_Scalar", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][2]uint8:
		zz.Split(44, 8)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 4)
		n := len(d)
		fits := SpecFits(len(b), n, e, 4)
		zz.Cases(e < 2)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Ubyte_Vec2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Ubyte_Vec2", func() bool {
			return err != nil || e < 2 || zz.Forall(0, n, func(i int) bool { return SpecAt_Ubyte_Vec2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Ubyte_Vec2", func() bool {
			return err != nil || e < 2 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+2, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Ubyte_Vec2", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+2, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Ubyte_Vec2", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][3]uint8:
		zz.Split(44, 9)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 4)
		n := len(d)
		fits := SpecFits(len(b), n, e, 4)
		zz.Cases(e < 3)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Ubyte_Vec3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Ubyte_Vec3", func() bool {
			return err != nil || e < 3 || zz.Forall(0, n, func(i int) bool { return SpecAt_Ubyte_Vec3(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Ubyte_Vec3", func() bool {
			return err != nil || e < 3 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+3, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Ubyte_Vec3", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+3, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Ubyte_Vec3", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][4]uint8:
		zz.Split(44, 10)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 4)
		n := len(d)
		fits := SpecFits(len(b), n, e, 4)
		zz.Cases(e < 4)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Ubyte_Vec4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Ubyte_Vec4", func() bool {
			return err != nil || e < 4 || zz.Forall(0, n, func(i int) bool { return SpecAt_Ubyte_Vec4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Ubyte_Vec4", func() bool {
			return err != nil || e < 4 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+4, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Ubyte_Vec4", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+4, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Ubyte_Vec4", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][2][2]uint8:
		zz.Split(44, 11)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 8)
		n := len(d)
		fits := SpecFits(len(b), n, e, 8)
		zz.Cases(e < 6)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Ubyte_Mat2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Ubyte_Mat2", func() bool {
			return err != nil || e < 6 || zz.Forall(0, n, func(i int) bool {
				return SpecAt_Ubyte_Mat2(b, e*i, d[i]) && b[e*i+2] == old[e*i+2] && b[e*i+3] == old[e*i+3]
			})
		})
		zz.Ensures("C02.write.gaps.Ubyte_Mat2", func() bool {
			return err != nil || e < 6 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+6, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Ubyte_Mat2", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+6, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Ubyte_Mat2", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][3][3]uint8:
		zz.Split(44, 12)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 12)
		n := len(d)
		fits := SpecFits(len(b), n, e, 12)
		zz.Cases(e < 11)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Ubyte_Mat3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Ubyte_Mat3", func() bool {
			return err != nil || e < 11 || zz.Forall(0, n, func(i int) bool {
				return SpecAt_Ubyte_Mat3(b, e*i, d[i]) && b[e*i+3] == old[e*i+3] && b[e*i+7] == old[e*i+7]
			})
		})
		zz.Ensures("C02.write.gaps.Ubyte_Mat3", func() bool {
			return err != nil || e < 11 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+11, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Ubyte_Mat3", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+11, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Ubyte_Mat3", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][4][4]uint8:
		zz.Split(44, 13)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 16)
		n := len(d)
		fits := SpecFits(len(b), n, e, 16)
		zz.Cases(e < 16)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Ubyte_Mat4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Ubyte_Mat4", func() bool {
			return err != nil || e < 16 || zz.Forall(0, n, func(i int) bool { return SpecAt_Ubyte_Mat4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Ubyte_Mat4", func() bool {
			return err != nil || e < 16 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+16, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Ubyte_Mat4", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+16, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Ubyte_Mat4", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case []int16:
		zz.Split(44, 14)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 2)
		n := len(d)
		fits := SpecFits(len(b), n, e, 2)
		zz.Cases(e < 2)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Short_Scalar", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Short_Scalar", func() bool {
			return err != nil || e < 2 || zz.Forall(0, n, func(i int) bool { return SpecAt_Short_Scalar(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Short_Scalar", func() bool {
			return err != nil || e < 2 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+2, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Short_Scalar", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+2, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Short_Scalar", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][2]int16:
		zz.Split(44, 15)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 4)
		n := len(d)
		fits := SpecFits(len(b), n, e, 4)
		zz.Cases(e < 4)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Short_Vec2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Short_Vec2", func() bool {
			return err != nil || e < 4 || zz.Forall(0, n, func(i int) bool { return SpecAt_Short_Vec2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Short_Vec2", func() bool {
			return err != nil || e < 4 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+4, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Short_Vec2", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+4, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Short_Vec2", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][3]int16:
		zz.Split(44, 16)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 8)
		n := len(d)
		fits := SpecFits(len(b), n, e, 8)
		zz.Cases(e < 6)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Short_Vec3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Short_Vec3", func() bool {
			return err != nil || e < 6 || zz.Forall(0, n, func(i int) bool { return SpecAt_Short_Vec3(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Short_Vec3", func() bool {
			return err != nil || e < 6 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+6, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Short_Vec3", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+6, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Short_Vec3", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][4]int16:
		zz.Split(44, 17)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 8)
		n := len(d)
		fits := SpecFits(len(b), n, e, 8)
		zz.Cases(e < 8)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Short_Vec4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Short_Vec4", func() bool {
			return err != nil || e < 8 || zz.Forall(0, n, func(i int) bool { return SpecAt_Short_Vec4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Short_Vec4", func() bool {
			return err != nil || e < 8 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+8, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Short_Vec4", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+8, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Short_Vec4", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][2][2]int16:
		zz.Split(44, 18)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 8)
		n := len(d)
		fits := SpecFits(len(b), n, e, 8)
		zz.Cases(e < 8)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Short_Mat2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Short_Mat2", func() bool {
			return err != nil || e < 8 || zz.Forall(0, n, func(i int) bool { return SpecAt_Short_Mat2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Short_Mat2", func() bool {
			return err != nil || e < 8 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+8, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Short_Mat2", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+8, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Short_Mat2", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][3][3]int16:
		zz.Split(44, 19)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 24)
		n := len(d)
		fits := SpecFits(len(b), n, e, 24)
		zz.Cases(e < 22)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Short_Mat3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Short_Mat3", func() bool {
			return err != nil || e < 22 || zz.Forall(0, n, func(i int) bool {
				return SpecAt_Short_Mat3(b, e*i, d[i]) && b[e*i+6] == old[e*i+6] && b[e*i+7] == old[e*i+7] && b[e*i+14] == old[e*i+14] && b[e*i+15] == old[e*i+15]
			})
		})
		zz.Ensures("C02.write.gaps.Short_Mat3", func() bool {
			return err != nil || e < 22 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+22, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Short_Mat3", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+22, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Short_Mat3", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][4][4]int16:
		zz.Split(44, 20)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 32)
		n := len(d)
		fits := SpecFits(len(b), n, e, 32)
		zz.Cases(e < 32)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Short_Mat4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Short_Mat4", func() bool {
			return err != nil || e < 32 || zz.Forall(0, n, func(i int) bool { return SpecAt_Short_Mat4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Short_Mat4", func() bool {
			return err != nil || e < 32 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+32, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Short_Mat4", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+32, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Short_Mat4", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case []uint16:
		zz.Split(44, 21)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 2)
		n := len(d)
		fits := SpecFits(len(b), n, e, 2)
		zz.Cases(e < 2)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Ushort_Scalar", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Ushort_Scalar", func() bool {
			return err != nil || e < 2 || zz.Forall(0, n, func(i int) bool { return SpecAt_Ushort_Scalar(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Ushort_Scalar", func() bool {
			return err != nil || e < 2 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+2, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Ushort_Scalar", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+2, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Ushort_Scalar", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][2]uint16:
		zz.Split(44, 22)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 4)
		n := len(d)
		fits := SpecFits(len(b), n, e, 4)
		zz.Cases(e < 4)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Ushort_Vec2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Ushort_Vec2", func() bool {
			return err != nil || e < 4 || zz.Forall(0, n, func(i int) bool { return SpecAt_Ushort_Vec2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Ushort_Vec2", func() bool {
			return err != nil || e < 4 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+4, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Ushort_Vec2", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+4, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Ushort_Vec2", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][3]uint16:
		zz.Split(44, 23)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 8)
		n := len(d)
		fits := SpecFits(len(b), n, e, 8)
		zz.Cases(e < 6)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Ushort_Vec3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Ushort_Vec3", func() bool {
			return err != nil || e < 6 || zz.Forall(0, n, func(i int) bool { return SpecAt_Ushort_Vec3(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Ushort_Vec3", func() bool {
			return err != nil || e < 6 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+6, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Ushort_Vec3", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+6, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Ushort_Vec3", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][4]uint16:
		zz.Split(44, 24)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 8)
		n := len(d)
		fits := SpecFits(len(b), n, e, 8)
		zz.Cases(e < 8)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Ushort_Vec4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Ushort_Vec4", func() bool {
			return err != nil || e < 8 || zz.Forall(0, n, func(i int) bool { return SpecAt_Ushort_Vec4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Ushort_Vec4", func() bool {
			return err != nil || e < 8 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+8, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Ushort_Vec4", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+8, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Ushort_Vec4", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][2][2]uint16:
		zz.Split(44, 25)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 8)
		n := len(d)
		fits := SpecFits(len(b), n, e, 8)
		zz.Cases(e < 8)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Ushort_Mat2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Ushort_Mat2", func() bool {
			return err != nil || e < 8 || zz.Forall(0, n, func(i int) bool { return SpecAt_Ushort_Mat2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Ushort_Mat2", func() bool {
			return err != nil || e < 8 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+8, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Ushort_Mat2", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+8, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Ushort_Mat2", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][3][3]uint16:
		zz.Split(44, 26)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 24)
		n := len(d)
		fits := SpecFits(len(b), n, e, 24)
		zz.Cases(e < 22)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Ushort_Mat3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Ushort_Mat3", func() bool {
			return err != nil || e < 22 || zz.Forall(0, n, func(i int) bool {
				return SpecAt_Ushort_Mat3(b, e*i, d[i]) && b[e*i+6] == old[e*i+6] && b[e*i+7] == old[e*i+7] && b[e*i+14] == old[e*i+14] && b[e*i+15] == old[e*i+15]
			})
		})
		zz.Ensures("C02.write.gaps.Ushort_Mat3", func() bool {
			return err != nil || e < 22 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+22, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Ushort_Mat3", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+22, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Ushort_Mat3", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][4][4]uint16:
		zz.Split(44, 27)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 32)
		n := len(d)
		fits := SpecFits(len(b), n, e, 32)
		zz.Cases(e < 32)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Ushort_Mat4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Ushort_Mat4", func() bool {
			return err != nil || e < 32 || zz.Forall(0, n, func(i int) bool { return SpecAt_Ushort_Mat4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Ushort_Mat4", func() bool {
			return err != nil || e < 32 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+32, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Ushort_Mat4", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+32, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Ushort_Mat4", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case []uint32:
		zz.Split(44, 28)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 4)
		n := len(d)
		fits := SpecFits(len(b), n, e, 4)
		zz.Cases(e < 4)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Uint_Scalar", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Uint_Scalar", func() bool {
			return err != nil || e < 4 || zz.Forall(0, n, func(i int) bool { return SpecAt_Uint_Scalar(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Uint_Scalar", func() bool {
			return err != nil || e < 4 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+4, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Uint_Scalar", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+4, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Uint_Scalar", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][2]uint32:
		zz.Split(44, 29)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 8)
		n := len(d)
		fits := SpecFits(len(b), n, e, 8)
		zz.Cases(e < 8)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Uint_Vec2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Uint_Vec2", func() bool {
			return err != nil || e < 8 || zz.Forall(0, n, func(i int) bool { return SpecAt_Uint_Vec2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Uint_Vec2", func() bool {
			return err != nil || e < 8 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+8, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Uint_Vec2", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+8, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Uint_Vec2", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][3]uint32:
		zz.Split(44, 30)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 12)
		n := len(d)
		fits := SpecFits(len(b), n, e, 12)
		zz.Cases(e < 12)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Uint_Vec3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Uint_Vec3", func() bool {
			return err != nil || e < 12 || zz.Forall(0, n, func(i int) bool { return SpecAt_Uint_Vec3(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Uint_Vec3", func() bool {
			return err != nil || e < 12 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+12, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Uint_Vec3", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+12, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Uint_Vec3", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][4]uint32:
		zz.Split(44, 31)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 16)
		n := len(d)
		fits := SpecFits(len(b), n, e, 16)
		zz.Cases(e < 16)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Uint_Vec4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Uint_Vec4", func() bool {
			return err != nil || e < 16 || zz.Forall(0, n, func(i int) bool { return SpecAt_Uint_Vec4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Uint_Vec4", func() bool {
			return err != nil || e < 16 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+16, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Uint_Vec4", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+16, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Uint_Vec4", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][2][2]uint32:
		zz.Split(44, 32)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 16)
		n := len(d)
		fits := SpecFits(len(b), n, e, 16)
		zz.Cases(e < 16)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Uint_Mat2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Uint_Mat2", func() bool {
			return err != nil || e < 16 || zz.Forall(0, n, func(i int) bool { return SpecAt_Uint_Mat2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Uint_Mat2", func() bool {
			return err != nil || e < 16 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+16, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Uint_Mat2", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+16, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Uint_Mat2", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][3][3]uint32:
		zz.Split(44, 33)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 36)
		n := len(d)
		fits := SpecFits(len(b), n, e, 36)
		zz.Cases(e < 36)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Uint_Mat3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Uint_Mat3", func() bool {
			return err != nil || e < 36 || zz.Forall(0, n, func(i int) bool { return SpecAt_Uint_Mat3(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Uint_Mat3", func() bool {
			return err != nil || e < 36 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+36, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Uint_Mat3", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+36, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Uint_Mat3", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][4][4]uint32:
		zz.Split(44, 34)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 64)
		n := len(d)
		fits := SpecFits(len(b), n, e, 64)
		zz.Cases(e < 64)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Uint_Mat4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Uint_Mat4", func() bool {
			return err != nil || e < 64 || zz.Forall(0, n, func(i int) bool { return SpecAt_Uint_Mat4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Uint_Mat4", func() bool {
			return err != nil || e < 64 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+64, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Uint_Mat4", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+64, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Uint_Mat4", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case []float32:
		zz.Split(44, 35)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 4)
		n := len(d)
		fits := SpecFits(len(b), n, e, 4)
		zz.Cases(e < 4)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Float_Scalar", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Float_Scalar", func() bool {
			return err != nil || e < 4 || zz.Forall(0, n, func(i int) bool { return SpecAt_Float_Scalar(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Float_Scalar", func() bool {
			return err != nil || e < 4 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+4, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Float_Scalar", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+4, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Float_Scalar", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][2]float32:
		zz.Split(44, 36)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 8)
		n := len(d)
		fits := SpecFits(len(b), n, e, 8)
		zz.Cases(e < 8)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Float_Vec2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Float_Vec2", func() bool {
			return err != nil || e < 8 || zz.Forall(0, n, func(i int) bool { return SpecAt_Float_Vec2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Float_Vec2", func() bool {
			return err != nil || e < 8 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+8, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Float_Vec2", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+8, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Float_Vec2", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][3]float32:
		zz.Split(44, 37)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 12)
		n := len(d)
		fits := SpecFits(len(b), n, e, 12)
		zz.Cases(e < 12)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Float_Vec3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Float_Vec3", func() bool {
			return err != nil || e < 12 || zz.Forall(0, n, func(i int) bool { return SpecAt_Float_Vec3(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Float_Vec3", func() bool {
			return err != nil || e < 12 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+12, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Float_Vec3", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+12, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Float_Vec3", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][4]float32:
		zz.Split(44, 38)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 16)
		n := len(d)
		fits := SpecFits(len(b), n, e, 16)
		zz.Cases(e < 16)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Float_Vec4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Float_Vec4", func() bool {
			return err != nil || e < 16 || zz.Forall(0, n, func(i int) bool { return SpecAt_Float_Vec4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Float_Vec4", func() bool {
			return err != nil || e < 16 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+16, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Float_Vec4", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+16, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Float_Vec4", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][2][2]float32:
		zz.Split(44, 39)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 16)
		n := len(d)
		fits := SpecFits(len(b), n, e, 16)
		zz.Cases(e < 16)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Float_Mat2", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Float_Mat2", func() bool {
			return err != nil || e < 16 || zz.Forall(0, n, func(i int) bool { return SpecAt_Float_Mat2(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Float_Mat2", func() bool {
			return err != nil || e < 16 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+16, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Float_Mat2", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+16, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Float_Mat2", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][3][3]float32:
		zz.Split(44, 40)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 36)
		n := len(d)
		fits := SpecFits(len(b), n, e, 36)
		zz.Cases(e < 36)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Float_Mat3", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Float_Mat3", func() bool {
			return err != nil || e < 36 || zz.Forall(0, n, func(i int) bool { return SpecAt_Float_Mat3(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Float_Mat3", func() bool {
			return err != nil || e < 36 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+36, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Float_Mat3", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+36, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Float_Mat3", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case [][4][4]float32:
		zz.Split(44, 41)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 64)
		n := len(d)
		fits := SpecFits(len(b), n, e, 64)
		zz.Cases(e < 64)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.Float_Mat4", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.Float_Mat4", func() bool {
			return err != nil || e < 64 || zz.Forall(0, n, func(i int) bool { return SpecAt_Float_Mat4(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.Float_Mat4", func() bool {
			return err != nil || e < 64 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+64, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.Float_Mat4", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+64, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.Float_Mat4", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case []color.RGBA:
		zz.Split(44, 42)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 4)
		n := len(d)
		fits := SpecFits(len(b), n, e, 4)
		zz.Cases(e < 4)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.RGBA", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.RGBA", func() bool {
			return err != nil || e < 4 || zz.Forall(0, n, func(i int) bool { return SpecAt_RGBA(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.RGBA", func() bool {
			return err != nil || e < 4 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+4, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.RGBA", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+4, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.RGBA", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	case []color.RGBA64:
		zz.Split(44, 43)
		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, 8)
		n := len(d)
		fits := SpecFits(len(b), n, e, 8)
		zz.Cases(e < 8)
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.RGBA64", func() bool { return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) })
		zz.Ensures("C02.write.elements.RGBA64", func() bool {
			return err != nil || e < 8 || zz.Forall(0, n, func(i int) bool { return SpecAt_RGBA64(b, e*i, d[i]) })
		})
		zz.Ensures("C02.write.gaps.RGBA64", func() bool {
			return err != nil || e < 8 || zz.Forall(0, n-1, func(i int) bool {
				return zz.Forall(e*i+8, e*(i+1), func(j int) bool { return b[j] == old[j] })
			})
		})
		zz.Ensures("C02.write.tail.RGBA64", func() bool {
			return err != nil || n == 0 || zz.Forall(e*(n-1)+8, len(b), func(j int) bool { return b[j] == old[j] })
		})
		zz.Ensures("C02.write.unchanged.RGBA64", func() bool {
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool { return b[j] == old[j] })
		})
	default:
		zz.Requires(false)
	}
}

func specGenBulk(r *zz.R, read bool) ([]byte, int, any) {
	n := r.Small(5)
	if r.Intn(50) == 0 {
		n = r.Small(3000)
	}
	var data any
	size := 0
	switch zz.Case() {
	case 0:
		d := make([]int8, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 1
	case 1:
		d := make([][2]int8, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 4
	case 2:
		d := make([][3]int8, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 4
	case 3:
		d := make([][4]int8, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 4
	case 4:
		d := make([][2][2]int8, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 8
	case 5:
		d := make([][3][3]int8, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 12
	case 6:
		d := make([][4][4]int8, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 16
	case 7:
		d := make([]uint8, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 1
	case 8:
		d := make([][2]uint8, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 4
	case 9:
		d := make([][3]uint8, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 4
	case 10:
		d := make([][4]uint8, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 4
	case 11:
		d := make([][2][2]uint8, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 8
	case 12:
		d := make([][3][3]uint8, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 12
	case 13:
		d := make([][4][4]uint8, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 16
	case 14:
		d := make([]int16, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 2
	case 15:
		d := make([][2]int16, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 4
	case 16:
		d := make([][3]int16, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 8
	case 17:
		d := make([][4]int16, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 8
	case 18:
		d := make([][2][2]int16, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 8
	case 19:
		d := make([][3][3]int16, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 24
	case 20:
		d := make([][4][4]int16, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 32
	case 21:
		d := make([]uint16, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 2
	case 22:
		d := make([][2]uint16, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 4
	case 23:
		d := make([][3]uint16, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 8
	case 24:
		d := make([][4]uint16, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 8
	case 25:
		d := make([][2][2]uint16, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 8
	case 26:
		d := make([][3][3]uint16, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 24
	case 27:
		d := make([][4][4]uint16, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 32
	case 28:
		d := make([]uint32, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 4
	case 29:
		d := make([][2]uint32, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 8
	case 30:
		d := make([][3]uint32, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 12
	case 31:
		d := make([][4]uint32, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 16
	case 32:
		d := make([][2][2]uint32, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 16
	case 33:
		d := make([][3][3]uint32, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 36
	case 34:
		d := make([][4][4]uint32, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 64
	case 35:
		d := make([]float32, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 4
	case 36:
		d := make([][2]float32, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 8
	case 37:
		d := make([][3]float32, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 12
	case 38:
		d := make([][4]float32, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 16
	case 39:
		d := make([][2][2]float32, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 16
	case 40:
		d := make([][3][3]float32, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 36
	case 41:
		d := make([][4][4]float32, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 64
	case 42:
		d := make([]color.RGBA, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 4
	case 43:
		d := make([]color.RGBA64, n, n+r.Small(2))
		for i := range d {
			zz.FillBits(r, &d[i])
		}
		data, size = d, 8
	}
	stride := zz.Pick(r, 0, 0, size, size, size+1, size+r.Small(9), r.Small(size+2), 1, 2, -1, -size, int(r.Wild()))
	if n < 6 && r.Intn(40) == 0 {
		stride = size*zz.Pick(r, 10, 1000, 10000) + r.Small(40)
	}
	e := specStride(stride, size)
	need := r.Small(24)
	if n > 0 && e >= 0 && e*n < 10000000 {
		need = zz.Pick(r, (n-1)*e+size, (n-1)*e+size, n*e, (n-1)*e+size-1, (n-1)*e+size+r.Small(9), r.Small(100))
	}
	if need < 0 {
		need = 0
	}
	return r.Bytes(need), stride, data
}

func init() {
	zz.Register("Read", Verif_Read, func(r *zz.R) ([]byte, int, any) { return specGenBulk(r, true) })
	zz.Register("Write", Verif_Write, func(r *zz.R) ([]byte, int, any) { return specGenBulk(r, false) })
}
