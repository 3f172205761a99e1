// Code generated by tools/gen_specs.py. DO NOT EDIT.

package binary

import (
	"math"

	zz "github.com/qmuntal/gltf/zzverif"
)

var _ = math.Float32bits

func spec8(b []byte, o int) uint8   { return b[o] }
func spec16(b []byte, o int) uint16 { return uint16(b[o]) + 256*uint16(b[o+1]) }
func spec32(b []byte, o int) uint32 {
	return uint32(b[o]) + 256*uint32(b[o+1]) + 65536*uint32(b[o+2]) + 16777216*uint32(b[o+3])
}

func init() {
	zz.Register("codec_Byte_Scalar", Verif_codec_Byte_Scalar, func(r *zz.R) ([]byte, int8) {
		b := r.Bytes(1 + r.Small(6))
		var v int8
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Byte_Vec2", Verif_codec_Byte_Vec2, func(r *zz.R) ([]byte, [2]int8) {
		b := r.Bytes(2 + r.Small(6))
		var v [2]int8
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Byte_Vec3", Verif_codec_Byte_Vec3, func(r *zz.R) ([]byte, [3]int8) {
		b := r.Bytes(3 + r.Small(6))
		var v [3]int8
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Byte_Vec4", Verif_codec_Byte_Vec4, func(r *zz.R) ([]byte, [4]int8) {
		b := r.Bytes(4 + r.Small(6))
		var v [4]int8
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Byte_Mat2", Verif_codec_Byte_Mat2, func(r *zz.R) ([]byte, [2][2]int8) {
		b := r.Bytes(6 + r.Small(6))
		var v [2][2]int8
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Byte_Mat3", Verif_codec_Byte_Mat3, func(r *zz.R) ([]byte, [3][3]int8) {
		b := r.Bytes(11 + r.Small(6))
		var v [3][3]int8
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Byte_Mat4", Verif_codec_Byte_Mat4, func(r *zz.R) ([]byte, [4][4]int8) {
		b := r.Bytes(16 + r.Small(6))
		var v [4][4]int8
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Ubyte_Scalar", Verif_codec_Ubyte_Scalar, func(r *zz.R) ([]byte, uint8) {
		b := r.Bytes(1 + r.Small(6))
		var v uint8
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Ubyte_Vec2", Verif_codec_Ubyte_Vec2, func(r *zz.R) ([]byte, [2]uint8) {
		b := r.Bytes(2 + r.Small(6))
		var v [2]uint8
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Ubyte_Vec3", Verif_codec_Ubyte_Vec3, func(r *zz.R) ([]byte, [3]uint8) {
		b := r.Bytes(3 + r.Small(6))
		var v [3]uint8
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Ubyte_Vec4", Verif_codec_Ubyte_Vec4, func(r *zz.R) ([]byte, [4]uint8) {
		b := r.Bytes(4 + r.Small(6))
		var v [4]uint8
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Ubyte_Mat2", Verif_codec_Ubyte_Mat2, func(r *zz.R) ([]byte, [2][2]uint8) {
		b := r.Bytes(6 + r.Small(6))
		var v [2][2]uint8
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Ubyte_Mat3", Verif_codec_Ubyte_Mat3, func(r *zz.R) ([]byte, [3][3]uint8) {
		b := r.Bytes(11 + r.Small(6))
		var v [3][3]uint8
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Ubyte_Mat4", Verif_codec_Ubyte_Mat4, func(r *zz.R) ([]byte, [4][4]uint8) {
		b := r.Bytes(16 + r.Small(6))
		var v [4][4]uint8
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Short_Scalar", Verif_codec_Short_Scalar, func(r *zz.R) ([]byte, int16) {
		b := r.Bytes(2 + r.Small(6))
		var v int16
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Short_Vec2", Verif_codec_Short_Vec2, func(r *zz.R) ([]byte, [2]int16) {
		b := r.Bytes(4 + r.Small(6))
		var v [2]int16
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Short_Vec3", Verif_codec_Short_Vec3, func(r *zz.R) ([]byte, [3]int16) {
		b := r.Bytes(6 + r.Small(6))
		var v [3]int16
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Short_Vec4", Verif_codec_Short_Vec4, func(r *zz.R) ([]byte, [4]int16) {
		b := r.Bytes(8 + r.Small(6))
		var v [4]int16
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Short_Mat2", Verif_codec_Short_Mat2, func(r *zz.R) ([]byte, [2][2]int16) {
		b := r.Bytes(8 + r.Small(6))
		var v [2][2]int16
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Short_Mat3", Verif_codec_Short_Mat3, func(r *zz.R) ([]byte, [3][3]int16) {
		b := r.Bytes(22 + r.Small(6))
		var v [3][3]int16
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Short_Mat4", Verif_codec_Short_Mat4, func(r *zz.R) ([]byte, [4][4]int16) {
		b := r.Bytes(32 + r.Small(6))
		var v [4][4]int16
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Ushort_Scalar", Verif_codec_Ushort_Scalar, func(r *zz.R) ([]byte, uint16) {
		b := r.Bytes(2 + r.Small(6))
		var v uint16
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Ushort_Vec2", Verif_codec_Ushort_Vec2, func(r *zz.R) ([]byte, [2]uint16) {
		b := r.Bytes(4 + r.Small(6))
		var v [2]uint16
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Ushort_Vec3", Verif_codec_Ushort_Vec3, func(r *zz.R) ([]byte, [3]uint16) {
		b := r.Bytes(6 + r.Small(6))
		var v [3]uint16
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Ushort_Vec4", Verif_codec_Ushort_Vec4, func(r *zz.R) ([]byte, [4]uint16) {
		b := r.Bytes(8 + r.Small(6))
		var v [4]uint16
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Ushort_Mat2", Verif_codec_Ushort_Mat2, func(r *zz.R) ([]byte, [2][2]uint16) {
		b := r.Bytes(8 + r.Small(6))
		var v [2][2]uint16
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Ushort_Mat3", Verif_codec_Ushort_Mat3, func(r *zz.R) ([]byte, [3][3]uint16) {
		b := r.Bytes(22 + r.Small(6))
		var v [3][3]uint16
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Ushort_Mat4", Verif_codec_Ushort_Mat4, func(r *zz.R) ([]byte, [4][4]uint16) {
		b := r.Bytes(32 + r.Small(6))
		var v [4][4]uint16
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Uint_Scalar", Verif_codec_Uint_Scalar, func(r *zz.R) ([]byte, uint32) {
		b := r.Bytes(4 + r.Small(6))
		var v uint32
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Uint_Vec2", Verif_codec_Uint_Vec2, func(r *zz.R) ([]byte, [2]uint32) {
		b := r.Bytes(8 + r.Small(6))
		var v [2]uint32
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Uint_Vec3", Verif_codec_Uint_Vec3, func(r *zz.R) ([]byte, [3]uint32) {
		b := r.Bytes(12 + r.Small(6))
		var v [3]uint32
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Uint_Vec4", Verif_codec_Uint_Vec4, func(r *zz.R) ([]byte, [4]uint32) {
		b := r.Bytes(16 + r.Small(6))
		var v [4]uint32
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Uint_Mat2", Verif_codec_Uint_Mat2, func(r *zz.R) ([]byte, [2][2]uint32) {
		b := r.Bytes(16 + r.Small(6))
		var v [2][2]uint32
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Uint_Mat3", Verif_codec_Uint_Mat3, func(r *zz.R) ([]byte, [3][3]uint32) {
		b := r.Bytes(36 + r.Small(6))
		var v [3][3]uint32
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Uint_Mat4", Verif_codec_Uint_Mat4, func(r *zz.R) ([]byte, [4][4]uint32) {
		b := r.Bytes(64 + r.Small(6))
		var v [4][4]uint32
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Float_Scalar", Verif_codec_Float_Scalar, func(r *zz.R) ([]byte, float32) {
		b := r.Bytes(4 + r.Small(6))
		var v float32
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Float_Vec2", Verif_codec_Float_Vec2, func(r *zz.R) ([]byte, [2]float32) {
		b := r.Bytes(8 + r.Small(6))
		var v [2]float32
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Float_Vec3", Verif_codec_Float_Vec3, func(r *zz.R) ([]byte, [3]float32) {
		b := r.Bytes(12 + r.Small(6))
		var v [3]float32
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Float_Vec4", Verif_codec_Float_Vec4, func(r *zz.R) ([]byte, [4]float32) {
		b := r.Bytes(16 + r.Small(6))
		var v [4]float32
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Float_Mat2", Verif_codec_Float_Mat2, func(r *zz.R) ([]byte, [2][2]float32) {
		b := r.Bytes(16 + r.Small(6))
		var v [2][2]float32
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Float_Mat3", Verif_codec_Float_Mat3, func(r *zz.R) ([]byte, [3][3]float32) {
		b := r.Bytes(36 + r.Small(6))
		var v [3][3]float32
		zz.FillBits(r, &v)
		return b, v
	})
	zz.Register("codec_Float_Mat4", Verif_codec_Float_Mat4, func(r *zz.R) ([]byte, [4][4]float32) {
		b := r.Bytes(64 + r.Small(6))
		var v [4][4]float32
		zz.FillBits(r, &v)
		return b, v
	})
}

//verif:prop C01
func Verif_codec_Byte_Scalar(b []byte, v int8) {
	zz.Requires(len(b) >= 1)
	got := Byte.Scalar(b)
	zz.Ensures("C01.get.Byte.Scalar", func() bool {
		return uint8(got) == spec8(b, 0)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Byte.PutScalar(b, v)
	zz.Ensures("C01.put.Byte.Scalar", func() bool {
		return spec8(b, 0) == uint8(v)
	})
	zz.Ensures("C01.frame.Byte.Scalar", func() bool {
		return zz.Forall(1, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Byte.Scalar")
	back := Byte.Scalar(b)
	zz.Ensures("C01.inverse.Byte.Scalar", func() bool {
		return uint8(back) == uint8(v)
	})
}

//verif:prop C01
func Verif_codec_Byte_Vec2(b []byte, v [2]int8) {
	zz.Requires(len(b) >= 2)
	got := Byte.Vec2(b)
	zz.Ensures("C01.get.Byte.Vec2", func() bool {
		return uint8(got[0]) == spec8(b, 0) &&
			uint8(got[1]) == spec8(b, 1)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Byte.PutVec2(b, v)
	zz.Ensures("C01.put.Byte.Vec2", func() bool {
		return spec8(b, 0) == uint8(v[0]) &&
			spec8(b, 1) == uint8(v[1])
	})
	zz.Ensures("C01.frame.Byte.Vec2", func() bool {
		return zz.Forall(2, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Byte.Vec2")
	back := Byte.Vec2(b)
	zz.Ensures("C01.inverse.Byte.Vec2", func() bool {
		return uint8(back[0]) == uint8(v[0]) &&
			uint8(back[1]) == uint8(v[1])
	})
}

//verif:prop C01
func Verif_codec_Byte_Vec3(b []byte, v [3]int8) {
	zz.Requires(len(b) >= 3)
	got := Byte.Vec3(b)
	zz.Ensures("C01.get.Byte.Vec3", func() bool {
		return uint8(got[0]) == spec8(b, 0) &&
			uint8(got[1]) == spec8(b, 1) &&
			uint8(got[2]) == spec8(b, 2)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Byte.PutVec3(b, v)
	zz.Ensures("C01.put.Byte.Vec3", func() bool {
		return spec8(b, 0) == uint8(v[0]) &&
			spec8(b, 1) == uint8(v[1]) &&
			spec8(b, 2) == uint8(v[2])
	})
	zz.Ensures("C01.frame.Byte.Vec3", func() bool {
		return zz.Forall(3, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Byte.Vec3")
	back := Byte.Vec3(b)
	zz.Ensures("C01.inverse.Byte.Vec3", func() bool {
		return uint8(back[0]) == uint8(v[0]) &&
			uint8(back[1]) == uint8(v[1]) &&
			uint8(back[2]) == uint8(v[2])
	})
}

//verif:prop C01
func Verif_codec_Byte_Vec4(b []byte, v [4]int8) {
	zz.Requires(len(b) >= 4)
	got := Byte.Vec4(b)
	zz.Ensures("C01.get.Byte.Vec4", func() bool {
		return uint8(got[0]) == spec8(b, 0) &&
			uint8(got[1]) == spec8(b, 1) &&
			uint8(got[2]) == spec8(b, 2) &&
			uint8(got[3]) == spec8(b, 3)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Byte.PutVec4(b, v)
	zz.Ensures("C01.put.Byte.Vec4", func() bool {
		return spec8(b, 0) == uint8(v[0]) &&
			spec8(b, 1) == uint8(v[1]) &&
			spec8(b, 2) == uint8(v[2]) &&
			spec8(b, 3) == uint8(v[3])
	})
	zz.Ensures("C01.frame.Byte.Vec4", func() bool {
		return zz.Forall(4, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Byte.Vec4")
	back := Byte.Vec4(b)
	zz.Ensures("C01.inverse.Byte.Vec4", func() bool {
		return uint8(back[0]) == uint8(v[0]) &&
			uint8(back[1]) == uint8(v[1]) &&
			uint8(back[2]) == uint8(v[2]) &&
			uint8(back[3]) == uint8(v[3])
	})
}

//verif:prop C01
func Verif_codec_Byte_Mat2(b []byte, v [2][2]int8) {
	zz.Requires(len(b) >= 6)
	got := Byte.Mat2(b)
	zz.Ensures("C01.get.Byte.Mat2", func() bool {
		return uint8(got[0][0]) == spec8(b, 0) &&
			uint8(got[1][0]) == spec8(b, 1) &&
			uint8(got[0][1]) == spec8(b, 4) &&
			uint8(got[1][1]) == spec8(b, 5)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Byte.PutMat2(b, v)
	zz.Ensures("C01.put.Byte.Mat2", func() bool {
		return spec8(b, 0) == uint8(v[0][0]) &&
			spec8(b, 1) == uint8(v[1][0]) &&
			spec8(b, 4) == uint8(v[0][1]) &&
			spec8(b, 5) == uint8(v[1][1])
	})
	zz.Ensures("C01.frame.Byte.Mat2", func() bool {
		return zz.Forall(6, len(b), func(i int) bool { return b[i] == old[i] }) && b[2] == old[2] && b[3] == old[3]
	})
	sn.Except(b).Unchanged("C01.other.Byte.Mat2")
	back := Byte.Mat2(b)
	zz.Ensures("C01.inverse.Byte.Mat2", func() bool {
		return uint8(back[0][0]) == uint8(v[0][0]) &&
			uint8(back[1][0]) == uint8(v[1][0]) &&
			uint8(back[0][1]) == uint8(v[0][1]) &&
			uint8(back[1][1]) == uint8(v[1][1])
	})
}

//verif:prop C01
func Verif_codec_Byte_Mat3(b []byte, v [3][3]int8) {
	zz.Requires(len(b) >= 11)
	got := Byte.Mat3(b)
	zz.Ensures("C01.get.Byte.Mat3", func() bool {
		return uint8(got[0][0]) == spec8(b, 0) &&
			uint8(got[1][0]) == spec8(b, 1) &&
			uint8(got[2][0]) == spec8(b, 2) &&
			uint8(got[0][1]) == spec8(b, 4) &&
			uint8(got[1][1]) == spec8(b, 5) &&
			uint8(got[2][1]) == spec8(b, 6) &&
			uint8(got[0][2]) == spec8(b, 8) &&
			uint8(got[1][2]) == spec8(b, 9) &&
			uint8(got[2][2]) == spec8(b, 10)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Byte.PutMat3(b, v)
	zz.Ensures("C01.put.Byte.Mat3", func() bool {
		return spec8(b, 0) == uint8(v[0][0]) &&
			spec8(b, 1) == uint8(v[1][0]) &&
			spec8(b, 2) == uint8(v[2][0]) &&
			spec8(b, 4) == uint8(v[0][1]) &&
			spec8(b, 5) == uint8(v[1][1]) &&
			spec8(b, 6) == uint8(v[2][1]) &&
			spec8(b, 8) == uint8(v[0][2]) &&
			spec8(b, 9) == uint8(v[1][2]) &&
			spec8(b, 10) == uint8(v[2][2])
	})
	zz.Ensures("C01.frame.Byte.Mat3", func() bool {
		return zz.Forall(11, len(b), func(i int) bool { return b[i] == old[i] }) && b[3] == old[3] && b[7] == old[7]
	})
	sn.Except(b).Unchanged("C01.other.Byte.Mat3")
	back := Byte.Mat3(b)
	zz.Ensures("C01.inverse.Byte.Mat3", func() bool {
		return uint8(back[0][0]) == uint8(v[0][0]) &&
			uint8(back[1][0]) == uint8(v[1][0]) &&
			uint8(back[2][0]) == uint8(v[2][0]) &&
			uint8(back[0][1]) == uint8(v[0][1]) &&
			uint8(back[1][1]) == uint8(v[1][1]) &&
			uint8(back[2][1]) == uint8(v[2][1]) &&
			uint8(back[0][2]) == uint8(v[0][2]) &&
			uint8(back[1][2]) == uint8(v[1][2]) &&
			uint8(back[2][2]) == uint8(v[2][2])
	})
}

//verif:prop C01
func Verif_codec_Byte_Mat4(b []byte, v [4][4]int8) {
	zz.Requires(len(b) >= 16)
	got := Byte.Mat4(b)
	zz.Ensures("C01.get.Byte.Mat4", func() bool {
		return uint8(got[0][0]) == spec8(b, 0) &&
			uint8(got[1][0]) == spec8(b, 1) &&
			uint8(got[2][0]) == spec8(b, 2) &&
			uint8(got[3][0]) == spec8(b, 3) &&
			uint8(got[0][1]) == spec8(b, 4) &&
			uint8(got[1][1]) == spec8(b, 5) &&
			uint8(got[2][1]) == spec8(b, 6) &&
			uint8(got[3][1]) == spec8(b, 7) &&
			uint8(got[0][2]) == spec8(b, 8) &&
			uint8(got[1][2]) == spec8(b, 9) &&
			uint8(got[2][2]) == spec8(b, 10) &&
			uint8(got[3][2]) == spec8(b, 11) &&
			uint8(got[0][3]) == spec8(b, 12) &&
			uint8(got[1][3]) == spec8(b, 13) &&
			uint8(got[2][3]) == spec8(b, 14) &&
			uint8(got[3][3]) == spec8(b, 15)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Byte.PutMat4(b, v)
	zz.Ensures("C01.put.Byte.Mat4", func() bool {
		return spec8(b, 0) == uint8(v[0][0]) &&
			spec8(b, 1) == uint8(v[1][0]) &&
			spec8(b, 2) == uint8(v[2][0]) &&
			spec8(b, 3) == uint8(v[3][0]) &&
			spec8(b, 4) == uint8(v[0][1]) &&
			spec8(b, 5) == uint8(v[1][1]) &&
			spec8(b, 6) == uint8(v[2][1]) &&
			spec8(b, 7) == uint8(v[3][1]) &&
			spec8(b, 8) == uint8(v[0][2]) &&
			spec8(b, 9) == uint8(v[1][2]) &&
			spec8(b, 10) == uint8(v[2][2]) &&
			spec8(b, 11) == uint8(v[3][2]) &&
			spec8(b, 12) == uint8(v[0][3]) &&
			spec8(b, 13) == uint8(v[1][3]) &&
			spec8(b, 14) == uint8(v[2][3]) &&
			spec8(b, 15) == uint8(v[3][3])
	})
	zz.Ensures("C01.frame.Byte.Mat4", func() bool {
		return zz.Forall(16, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Byte.Mat4")
	back := Byte.Mat4(b)
	zz.Ensures("C01.inverse.Byte.Mat4", func() bool {
		return uint8(back[0][0]) == uint8(v[0][0]) &&
			uint8(back[1][0]) == uint8(v[1][0]) &&
			uint8(back[2][0]) == uint8(v[2][0]) &&
			uint8(back[3][0]) == uint8(v[3][0]) &&
			uint8(back[0][1]) == uint8(v[0][1]) &&
			uint8(back[1][1]) == uint8(v[1][1]) &&
			uint8(back[2][1]) == uint8(v[2][1]) &&
			uint8(back[3][1]) == uint8(v[3][1]) &&
			uint8(back[0][2]) == uint8(v[0][2]) &&
			uint8(back[1][2]) == uint8(v[1][2]) &&
			uint8(back[2][2]) == uint8(v[2][2]) &&
			uint8(back[3][2]) == uint8(v[3][2]) &&
			uint8(back[0][3]) == uint8(v[0][3]) &&
			uint8(back[1][3]) == uint8(v[1][3]) &&
			uint8(back[2][3]) == uint8(v[2][3]) &&
			uint8(back[3][3]) == uint8(v[3][3])
	})
}

//verif:prop C01
func Verif_codec_Ubyte_Scalar(b []byte, v uint8) {
	zz.Requires(len(b) >= 1)
	got := Ubyte.Scalar(b)
	zz.Ensures("C01.get.Ubyte.Scalar", func() bool {
		return got == spec8(b, 0)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Ubyte.PutScalar(b, v)
	zz.Ensures("C01.put.Ubyte.Scalar", func() bool {
		return spec8(b, 0) == v
	})
	zz.Ensures("C01.frame.Ubyte.Scalar", func() bool {
		return zz.Forall(1, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Ubyte.Scalar")
	back := Ubyte.Scalar(b)
	zz.Ensures("C01.inverse.Ubyte.Scalar", func() bool {
		return back == v
	})
}

//verif:prop C01
func Verif_codec_Ubyte_Vec2(b []byte, v [2]uint8) {
	zz.Requires(len(b) >= 2)
	got := Ubyte.Vec2(b)
	zz.Ensures("C01.get.Ubyte.Vec2", func() bool {
		return got[0] == spec8(b, 0) &&
			got[1] == spec8(b, 1)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Ubyte.PutVec2(b, v)
	zz.Ensures("C01.put.Ubyte.Vec2", func() bool {
		return spec8(b, 0) == v[0] &&
			spec8(b, 1) == v[1]
	})
	zz.Ensures("C01.frame.Ubyte.Vec2", func() bool {
		return zz.Forall(2, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Ubyte.Vec2")
	back := Ubyte.Vec2(b)
	zz.Ensures("C01.inverse.Ubyte.Vec2", func() bool {
		return back[0] == v[0] &&
			back[1] == v[1]
	})
}

//verif:prop C01
func Verif_codec_Ubyte_Vec3(b []byte, v [3]uint8) {
	zz.Requires(len(b) >= 3)
	got := Ubyte.Vec3(b)
	zz.Ensures("C01.get.Ubyte.Vec3", func() bool {
		return got[0] == spec8(b, 0) &&
			got[1] == spec8(b, 1) &&
			got[2] == spec8(b, 2)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Ubyte.PutVec3(b, v)
	zz.Ensures("C01.put.Ubyte.Vec3", func() bool {
		return spec8(b, 0) == v[0] &&
			spec8(b, 1) == v[1] &&
			spec8(b, 2) == v[2]
	})
	zz.Ensures("C01.frame.Ubyte.Vec3", func() bool {
		return zz.Forall(3, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Ubyte.Vec3")
	back := Ubyte.Vec3(b)
	zz.Ensures("C01.inverse.Ubyte.Vec3", func() bool {
		return back[0] == v[0] &&
			back[1] == v[1] &&
			back[2] == v[2]
	})
}

//verif:prop C01
func Verif_codec_Ubyte_Vec4(b []byte, v [4]uint8) {
	zz.Requires(len(b) >= 4)
	got := Ubyte.Vec4(b)
	zz.Ensures("C01.get.Ubyte.Vec4", func() bool {
		return got[0] == spec8(b, 0) &&
			got[1] == spec8(b, 1) &&
			got[2] == spec8(b, 2) &&
			got[3] == spec8(b, 3)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Ubyte.PutVec4(b, v)
	zz.Ensures("C01.put.Ubyte.Vec4", func() bool {
		return spec8(b, 0) == v[0] &&
			spec8(b, 1) == v[1] &&
			spec8(b, 2) == v[2] &&
			spec8(b, 3) == v[3]
	})
	zz.Ensures("C01.frame.Ubyte.Vec4", func() bool {
		return zz.Forall(4, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Ubyte.Vec4")
	back := Ubyte.Vec4(b)
	zz.Ensures("C01.inverse.Ubyte.Vec4", func() bool {
		return back[0] == v[0] &&
			back[1] == v[1] &&
			back[2] == v[2] &&
			back[3] == v[3]
	})
}

//verif:prop C01
func Verif_codec_Ubyte_Mat2(b []byte, v [2][2]uint8) {
	zz.Requires(len(b) >= 6)
	got := Ubyte.Mat2(b)
	zz.Ensures("C01.get.Ubyte.Mat2", func() bool {
		return got[0][0] == spec8(b, 0) &&
			got[1][0] == spec8(b, 1) &&
			got[0][1] == spec8(b, 4) &&
			got[1][1] == spec8(b, 5)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Ubyte.PutMat2(b, v)
	zz.Ensures("C01.put.Ubyte.Mat2", func() bool {
		return spec8(b, 0) == v[0][0] &&
			spec8(b, 1) == v[1][0] &&
			spec8(b, 4) == v[0][1] &&
			spec8(b, 5) == v[1][1]
	})
	zz.Ensures("C01.frame.Ubyte.Mat2", func() bool {
		return zz.Forall(6, len(b), func(i int) bool { return b[i] == old[i] }) && b[2] == old[2] && b[3] == old[3]
	})
	sn.Except(b).Unchanged("C01.other.Ubyte.Mat2")
	back := Ubyte.Mat2(b)
	zz.Ensures("C01.inverse.Ubyte.Mat2", func() bool {
		return back[0][0] == v[0][0] &&
			back[1][0] == v[1][0] &&
			back[0][1] == v[0][1] &&
			back[1][1] == v[1][1]
	})
}

//verif:prop C01
func Verif_codec_Ubyte_Mat3(b []byte, v [3][3]uint8) {
	zz.Requires(len(b) >= 11)
	got := Ubyte.Mat3(b)
	zz.Ensures("C01.get.Ubyte.Mat3", func() bool {
		return got[0][0] == spec8(b, 0) &&
			got[1][0] == spec8(b, 1) &&
			got[2][0] == spec8(b, 2) &&
			got[0][1] == spec8(b, 4) &&
			got[1][1] == spec8(b, 5) &&
			got[2][1] == spec8(b, 6) &&
			got[0][2] == spec8(b, 8) &&
			got[1][2] == spec8(b, 9) &&
			got[2][2] == spec8(b, 10)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Ubyte.PutMat3(b, v)
	zz.Ensures("C01.put.Ubyte.Mat3", func() bool {
		return spec8(b, 0) == v[0][0] &&
			spec8(b, 1) == v[1][0] &&
			spec8(b, 2) == v[2][0] &&
			spec8(b, 4) == v[0][1] &&
			spec8(b, 5) == v[1][1] &&
			spec8(b, 6) == v[2][1] &&
			spec8(b, 8) == v[0][2] &&
			spec8(b, 9) == v[1][2] &&
			spec8(b, 10) == v[2][2]
	})
	zz.Ensures("C01.frame.Ubyte.Mat3", func() bool {
		return zz.Forall(11, len(b), func(i int) bool { return b[i] == old[i] }) && b[3] == old[3] && b[7] == old[7]
	})
	sn.Except(b).Unchanged("C01.other.Ubyte.Mat3")
	back := Ubyte.Mat3(b)
	zz.Ensures("C01.inverse.Ubyte.Mat3", func() bool {
		return back[0][0] == v[0][0] &&
			back[1][0] == v[1][0] &&
			back[2][0] == v[2][0] &&
			back[0][1] == v[0][1] &&
			back[1][1] == v[1][1] &&
			back[2][1] == v[2][1] &&
			back[0][2] == v[0][2] &&
			back[1][2] == v[1][2] &&
			back[2][2] == v[2][2]
	})
}

//verif:prop C01
func Verif_codec_Ubyte_Mat4(b []byte, v [4][4]uint8) {
	zz.Requires(len(b) >= 16)
	got := Ubyte.Mat4(b)
	zz.Ensures("C01.get.Ubyte.Mat4", func() bool {
		return got[0][0] == spec8(b, 0) &&
			got[1][0] == spec8(b, 1) &&
			got[2][0] == spec8(b, 2) &&
			got[3][0] == spec8(b, 3) &&
			got[0][1] == spec8(b, 4) &&
			got[1][1] == spec8(b, 5) &&
			got[2][1] == spec8(b, 6) &&
			got[3][1] == spec8(b, 7) &&
			got[0][2] == spec8(b, 8) &&
			got[1][2] == spec8(b, 9) &&
			got[2][2] == spec8(b, 10) &&
			got[3][2] == spec8(b, 11) &&
			got[0][3] == spec8(b, 12) &&
			got[1][3] == spec8(b, 13) &&
			got[2][3] == spec8(b, 14) &&
			got[3][3] == spec8(b, 15)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Ubyte.PutMat4(b, v)
	zz.Ensures("C01.put.Ubyte.Mat4", func() bool {
		return spec8(b, 0) == v[0][0] &&
			spec8(b, 1) == v[1][0] &&
			spec8(b, 2) == v[2][0] &&
			spec8(b, 3) == v[3][0] &&
			spec8(b, 4) == v[0][1] &&
			spec8(b, 5) == v[1][1] &&
			spec8(b, 6) == v[2][1] &&
			spec8(b, 7) == v[3][1] &&
			spec8(b, 8) == v[0][2] &&
			spec8(b, 9) == v[1][2] &&
			spec8(b, 10) == v[2][2] &&
			spec8(b, 11) == v[3][2] &&
			spec8(b, 12) == v[0][3] &&
			spec8(b, 13) == v[1][3] &&
			spec8(b, 14) == v[2][3] &&
			spec8(b, 15) == v[3][3]
	})
	zz.Ensures("C01.frame.Ubyte.Mat4", func() bool {
		return zz.Forall(16, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Ubyte.Mat4")
	back := Ubyte.Mat4(b)
	zz.Ensures("C01.inverse.Ubyte.Mat4", func() bool {
		return back[0][0] == v[0][0] &&
			back[1][0] == v[1][0] &&
			back[2][0] == v[2][0] &&
			back[3][0] == v[3][0] &&
			back[0][1] == v[0][1] &&
			back[1][1] == v[1][1] &&
			back[2][1] == v[2][1] &&
			back[3][1] == v[3][1] &&
			back[0][2] == v[0][2] &&
			back[1][2] == v[1][2] &&
			back[2][2] == v[2][2] &&
			back[3][2] == v[3][2] &&
			back[0][3] == v[0][3] &&
			back[1][3] == v[1][3] &&
			back[2][3] == v[2][3] &&
			back[3][3] == v[3][3]
	})
}

//verif:prop C01
func Verif_codec_Short_Scalar(b []byte, v int16) {
	zz.Requires(len(b) >= 2)
	got := Short.Scalar(b)
	zz.Ensures("C01.get.Short.Scalar", func() bool {
		return uint16(got) == spec16(b, 0)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Short.PutScalar(b, v)
	zz.Ensures("C01.put.Short.Scalar", func() bool {
		return spec16(b, 0) == uint16(v)
	})
	zz.Ensures("C01.frame.Short.Scalar", func() bool {
		return zz.Forall(2, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Short.Scalar")
	back := Short.Scalar(b)
	zz.Ensures("C01.inverse.Short.Scalar", func() bool {
		return uint16(back) == uint16(v)
	})
}

//verif:prop C01
func Verif_codec_Short_Vec2(b []byte, v [2]int16) {
	zz.Requires(len(b) >= 4)
	got := Short.Vec2(b)
	zz.Ensures("C01.get.Short.Vec2", func() bool {
		return uint16(got[0]) == spec16(b, 0) &&
			uint16(got[1]) == spec16(b, 2)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Short.PutVec2(b, v)
	zz.Ensures("C01.put.Short.Vec2", func() bool {
		return spec16(b, 0) == uint16(v[0]) &&
			spec16(b, 2) == uint16(v[1])
	})
	zz.Ensures("C01.frame.Short.Vec2", func() bool {
		return zz.Forall(4, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Short.Vec2")
	back := Short.Vec2(b)
	zz.Ensures("C01.inverse.Short.Vec2", func() bool {
		return uint16(back[0]) == uint16(v[0]) &&
			uint16(back[1]) == uint16(v[1])
	})
}

//verif:prop C01
func Verif_codec_Short_Vec3(b []byte, v [3]int16) {
	zz.Requires(len(b) >= 6)
	got := Short.Vec3(b)
	zz.Ensures("C01.get.Short.Vec3", func() bool {
		return uint16(got[0]) == spec16(b, 0) &&
			uint16(got[1]) == spec16(b, 2) &&
			uint16(got[2]) == spec16(b, 4)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Short.PutVec3(b, v)
	zz.Ensures("C01.put.Short.Vec3", func() bool {
		return spec16(b, 0) == uint16(v[0]) &&
			spec16(b, 2) == uint16(v[1]) &&
			spec16(b, 4) == uint16(v[2])
	})
	zz.Ensures("C01.frame.Short.Vec3", func() bool {
		return zz.Forall(6, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Short.Vec3")
	back := Short.Vec3(b)
	zz.Ensures("C01.inverse.Short.Vec3", func() bool {
		return uint16(back[0]) == uint16(v[0]) &&
			uint16(back[1]) == uint16(v[1]) &&
			uint16(back[2]) == uint16(v[2])
	})
}

//verif:prop C01
func Verif_codec_Short_Vec4(b []byte, v [4]int16) {
	zz.Requires(len(b) >= 8)
	got := Short.Vec4(b)
	zz.Ensures("C01.get.Short.Vec4", func() bool {
		return uint16(got[0]) == spec16(b, 0) &&
			uint16(got[1]) == spec16(b, 2) &&
			uint16(got[2]) == spec16(b, 4) &&
			uint16(got[3]) == spec16(b, 6)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Short.PutVec4(b, v)
	zz.Ensures("C01.put.Short.Vec4", func() bool {
		return spec16(b, 0) == uint16(v[0]) &&
			spec16(b, 2) == uint16(v[1]) &&
			spec16(b, 4) == uint16(v[2]) &&
			spec16(b, 6) == uint16(v[3])
	})
	zz.Ensures("C01.frame.Short.Vec4", func() bool {
		return zz.Forall(8, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Short.Vec4")
	back := Short.Vec4(b)
	zz.Ensures("C01.inverse.Short.Vec4", func() bool {
		return uint16(back[0]) == uint16(v[0]) &&
			uint16(back[1]) == uint16(v[1]) &&
			uint16(back[2]) == uint16(v[2]) &&
			uint16(back[3]) == uint16(v[3])
	})
}

//verif:prop C01
func Verif_codec_Short_Mat2(b []byte, v [2][2]int16) {
	zz.Requires(len(b) >= 8)
	got := Short.Mat2(b)
	zz.Ensures("C01.get.Short.Mat2", func() bool {
		return uint16(got[0][0]) == spec16(b, 0) &&
			uint16(got[1][0]) == spec16(b, 2) &&
			uint16(got[0][1]) == spec16(b, 4) &&
			uint16(got[1][1]) == spec16(b, 6)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Short.PutMat2(b, v)
	zz.Ensures("C01.put.Short.Mat2", func() bool {
		return spec16(b, 0) == uint16(v[0][0]) &&
			spec16(b, 2) == uint16(v[1][0]) &&
			spec16(b, 4) == uint16(v[0][1]) &&
			spec16(b, 6) == uint16(v[1][1])
	})
	zz.Ensures("C01.frame.Short.Mat2", func() bool {
		return zz.Forall(8, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Short.Mat2")
	back := Short.Mat2(b)
	zz.Ensures("C01.inverse.Short.Mat2", func() bool {
		return uint16(back[0][0]) == uint16(v[0][0]) &&
			uint16(back[1][0]) == uint16(v[1][0]) &&
			uint16(back[0][1]) == uint16(v[0][1]) &&
			uint16(back[1][1]) == uint16(v[1][1])
	})
}

//verif:prop C01
func Verif_codec_Short_Mat3(b []byte, v [3][3]int16) {
	zz.Requires(len(b) >= 22)
	got := Short.Mat3(b)
	zz.Ensures("C01.get.Short.Mat3", func() bool {
		return uint16(got[0][0]) == spec16(b, 0) &&
			uint16(got[1][0]) == spec16(b, 2) &&
			uint16(got[2][0]) == spec16(b, 4) &&
			uint16(got[0][1]) == spec16(b, 8) &&
			uint16(got[1][1]) == spec16(b, 10) &&
			uint16(got[2][1]) == spec16(b, 12) &&
			uint16(got[0][2]) == spec16(b, 16) &&
			uint16(got[1][2]) == spec16(b, 18) &&
			uint16(got[2][2]) == spec16(b, 20)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Short.PutMat3(b, v)
	zz.Ensures("C01.put.Short.Mat3", func() bool {
		return spec16(b, 0) == uint16(v[0][0]) &&
			spec16(b, 2) == uint16(v[1][0]) &&
			spec16(b, 4) == uint16(v[2][0]) &&
			spec16(b, 8) == uint16(v[0][1]) &&
			spec16(b, 10) == uint16(v[1][1]) &&
			spec16(b, 12) == uint16(v[2][1]) &&
			spec16(b, 16) == uint16(v[0][2]) &&
			spec16(b, 18) == uint16(v[1][2]) &&
			spec16(b, 20) == uint16(v[2][2])
	})
	zz.Ensures("C01.frame.Short.Mat3", func() bool {
		return zz.Forall(22, len(b), func(i int) bool { return b[i] == old[i] }) && b[6] == old[6] && b[7] == old[7] && b[14] == old[14] && b[15] == old[15]
	})
	sn.Except(b).Unchanged("C01.other.Short.Mat3")
	back := Short.Mat3(b)
	zz.Ensures("C01.inverse.Short.Mat3", func() bool {
		return uint16(back[0][0]) == uint16(v[0][0]) &&
			uint16(back[1][0]) == uint16(v[1][0]) &&
			uint16(back[2][0]) == uint16(v[2][0]) &&
			uint16(back[0][1]) == uint16(v[0][1]) &&
			uint16(back[1][1]) == uint16(v[1][1]) &&
			uint16(back[2][1]) == uint16(v[2][1]) &&
			uint16(back[0][2]) == uint16(v[0][2]) &&
			uint16(back[1][2]) == uint16(v[1][2]) &&
			uint16(back[2][2]) == uint16(v[2][2])
	})
}

//verif:prop C01
func Verif_codec_Short_Mat4(b []byte, v [4][4]int16) {
	zz.Requires(len(b) >= 32)
	got := Short.Mat4(b)
	zz.Ensures("C01.get.Short.Mat4", func() bool {
		return uint16(got[0][0]) == spec16(b, 0) &&
			uint16(got[1][0]) == spec16(b, 2) &&
			uint16(got[2][0]) == spec16(b, 4) &&
			uint16(got[3][0]) == spec16(b, 6) &&
			uint16(got[0][1]) == spec16(b, 8) &&
			uint16(got[1][1]) == spec16(b, 10) &&
			uint16(got[2][1]) == spec16(b, 12) &&
			uint16(got[3][1]) == spec16(b, 14) &&
			uint16(got[0][2]) == spec16(b, 16) &&
			uint16(got[1][2]) == spec16(b, 18) &&
			uint16(got[2][2]) == spec16(b, 20) &&
			uint16(got[3][2]) == spec16(b, 22) &&
			uint16(got[0][3]) == spec16(b, 24) &&
			uint16(got[1][3]) == spec16(b, 26) &&
			uint16(got[2][3]) == spec16(b, 28) &&
			uint16(got[3][3]) == spec16(b, 30)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Short.PutMat4(b, v)
	zz.Ensures("C01.put.Short.Mat4", func() bool {
		return spec16(b, 0) == uint16(v[0][0]) &&
			spec16(b, 2) == uint16(v[1][0]) &&
			spec16(b, 4) == uint16(v[2][0]) &&
			spec16(b, 6) == uint16(v[3][0]) &&
			spec16(b, 8) == uint16(v[0][1]) &&
			spec16(b, 10) == uint16(v[1][1]) &&
			spec16(b, 12) == uint16(v[2][1]) &&
			spec16(b, 14) == uint16(v[3][1]) &&
			spec16(b, 16) == uint16(v[0][2]) &&
			spec16(b, 18) == uint16(v[1][2]) &&
			spec16(b, 20) == uint16(v[2][2]) &&
			spec16(b, 22) == uint16(v[3][2]) &&
			spec16(b, 24) == uint16(v[0][3]) &&
			spec16(b, 26) == uint16(v[1][3]) &&
			spec16(b, 28) == uint16(v[2][3]) &&
			spec16(b, 30) == uint16(v[3][3])
	})
	zz.Ensures("C01.frame.Short.Mat4", func() bool {
		return zz.Forall(32, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Short.Mat4")
	back := Short.Mat4(b)
	zz.Ensures("C01.inverse.Short.Mat4", func() bool {
		return uint16(back[0][0]) == uint16(v[0][0]) &&
			uint16(back[1][0]) == uint16(v[1][0]) &&
			uint16(back[2][0]) == uint16(v[2][0]) &&
			uint16(back[3][0]) == uint16(v[3][0]) &&
			uint16(back[0][1]) == uint16(v[0][1]) &&
			uint16(back[1][1]) == uint16(v[1][1]) &&
			uint16(back[2][1]) == uint16(v[2][1]) &&
			uint16(back[3][1]) == uint16(v[3][1]) &&
			uint16(back[0][2]) == uint16(v[0][2]) &&
			uint16(back[1][2]) == uint16(v[1][2]) &&
			uint16(back[2][2]) == uint16(v[2][2]) &&
			uint16(back[3][2]) == uint16(v[3][2]) &&
			uint16(back[0][3]) == uint16(v[0][3]) &&
			uint16(back[1][3]) == uint16(v[1][3]) &&
			uint16(back[2][3]) == uint16(v[2][3]) &&
			uint16(back[3][3]) == uint16(v[3][3])
	})
}

//verif:prop C01
func Verif_codec_Ushort_Scalar(b []byte, v uint16) {
	zz.Requires(len(b) >= 2)
	got := Ushort.Scalar(b)
	zz.Ensures("C01.get.Ushort.Scalar", func() bool {
		return got == spec16(b, 0)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Ushort.PutScalar(b, v)
	zz.Ensures("C01.put.Ushort.Scalar", func() bool {
		return spec16(b, 0) == v
	})
	zz.Ensures("C01.frame.Ushort.Scalar", func() bool {
		return zz.Forall(2, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Ushort.Scalar")
	back := Ushort.Scalar(b)
	zz.Ensures("C01.inverse.Ushort.Scalar", func() bool {
		return back == v
	})
}

//verif:prop C01
func Verif_codec_Ushort_Vec2(b []byte, v [2]uint16) {
	zz.Requires(len(b) >= 4)
	got := Ushort.Vec2(b)
	zz.Ensures("C01.get.Ushort.Vec2", func() bool {
		return got[0] == spec16(b, 0) &&
			got[1] == spec16(b, 2)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Ushort.PutVec2(b, v)
	zz.Ensures("C01.put.Ushort.Vec2", func() bool {
		return spec16(b, 0) == v[0] &&
			spec16(b, 2) == v[1]
	})
	zz.Ensures("C01.frame.Ushort.Vec2", func() bool {
		return zz.Forall(4, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Ushort.Vec2")
	back := Ushort.Vec2(b)
	zz.Ensures("C01.inverse.Ushort.Vec2", func() bool {
		return back[0] == v[0] &&
			back[1] == v[1]
	})
}

//verif:prop C01
func Verif_codec_Ushort_Vec3(b []byte, v [3]uint16) {
	zz.Requires(len(b) >= 6)
	got := Ushort.Vec3(b)
	zz.Ensures("C01.get.Ushort.Vec3", func() bool {
		return got[0] == spec16(b, 0) &&
			got[1] == spec16(b, 2) &&
			got[2] == spec16(b, 4)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Ushort.PutVec3(b, v)
	zz.Ensures("C01.put.Ushort.Vec3", func() bool {
		return spec16(b, 0) == v[0] &&
			spec16(b, 2) == v[1] &&
			spec16(b, 4) == v[2]
	})
	zz.Ensures("C01.frame.Ushort.Vec3", func() bool {
		return zz.Forall(6, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Ushort.Vec3")
	back := Ushort.Vec3(b)
	zz.Ensures("C01.inverse.Ushort.Vec3", func() bool {
		return back[0] == v[0] &&
			back[1] == v[1] &&
			back[2] == v[2]
	})
}

//verif:prop C01
func Verif_codec_Ushort_Vec4(b []byte, v [4]uint16) {
	zz.Requires(len(b) >= 8)
	got := Ushort.Vec4(b)
	zz.Ensures("C01.get.Ushort.Vec4", func() bool {
		return got[0] == spec16(b, 0) &&
			got[1] == spec16(b, 2) &&
			got[2] == spec16(b, 4) &&
			got[3] == spec16(b, 6)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Ushort.PutVec4(b, v)
	zz.Ensures("C01.put.Ushort.Vec4", func() bool {
		return spec16(b, 0) == v[0] &&
			spec16(b, 2) == v[1] &&
			spec16(b, 4) == v[2] &&
			spec16(b, 6) == v[3]
	})
	zz.Ensures("C01.frame.Ushort.Vec4", func() bool {
		return zz.Forall(8, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Ushort.Vec4")
	back := Ushort.Vec4(b)
	zz.Ensures("C01.inverse.Ushort.Vec4", func() bool {
		return back[0] == v[0] &&
			back[1] == v[1] &&
			back[2] == v[2] &&
			back[3] == v[3]
	})
}

//verif:prop C01
func Verif_codec_Ushort_Mat2(b []byte, v [2][2]uint16) {
	zz.Requires(len(b) >= 8)
	got := Ushort.Mat2(b)
	zz.Ensures("C01.get.Ushort.Mat2", func() bool {
		return got[0][0] == spec16(b, 0) &&
			got[1][0] == spec16(b, 2) &&
			got[0][1] == spec16(b, 4) &&
			got[1][1] == spec16(b, 6)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Ushort.PutMat2(b, v)
	zz.Ensures("C01.put.Ushort.Mat2", func() bool {
		return spec16(b, 0) == v[0][0] &&
			spec16(b, 2) == v[1][0] &&
			spec16(b, 4) == v[0][1] &&
			spec16(b, 6) == v[1][1]
	})
	zz.Ensures("C01.frame.Ushort.Mat2", func() bool {
		return zz.Forall(8, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Ushort.Mat2")
	back := Ushort.Mat2(b)
	zz.Ensures("C01.inverse.Ushort.Mat2", func() bool {
		return back[0][0] == v[0][0] &&
			back[1][0] == v[1][0] &&
			back[0][1] == v[0][1] &&
			back[1][1] == v[1][1]
	})
}

//verif:prop C01
func Verif_codec_Ushort_Mat3(b []byte, v [3][3]uint16) {
	zz.Requires(len(b) >= 22)
	got := Ushort.Mat3(b)
	zz.Ensures("C01.get.Ushort.Mat3", func() bool {
		return got[0][0] == spec16(b, 0) &&
			got[1][0] == spec16(b, 2) &&
			got[2][0] == spec16(b, 4) &&
			got[0][1] == spec16(b, 8) &&
			got[1][1] == spec16(b, 10) &&
			got[2][1] == spec16(b, 12) &&
			got[0][2] == spec16(b, 16) &&
			got[1][2] == spec16(b, 18) &&
			got[2][2] == spec16(b, 20)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Ushort.PutMat3(b, v)
	zz.Ensures("C01.put.Ushort.Mat3", func() bool {
		return spec16(b, 0) == v[0][0] &&
			spec16(b, 2) == v[1][0] &&
			spec16(b, 4) == v[2][0] &&
			spec16(b, 8) == v[0][1] &&
			spec16(b, 10) == v[1][1] &&
			spec16(b, 12) == v[2][1] &&
			spec16(b, 16) == v[0][2] &&
			spec16(b, 18) == v[1][2] &&
			spec16(b, 20) == v[2][2]
	})
	zz.Ensures("C01.frame.Ushort.Mat3", func() bool {
		return zz.Forall(22, len(b), func(i int) bool { return b[i] == old[i] }) && b[6] == old[6] && b[7] == old[7] && b[14] == old[14] && b[15] == old[15]
	})
	sn.Except(b).Unchanged("C01.other.Ushort.Mat3")
	back := Ushort.Mat3(b)
	zz.Ensures("C01.inverse.Ushort.Mat3", func() bool {
		return back[0][0] == v[0][0] &&
			back[1][0] == v[1][0] &&
			back[2][0] == v[2][0] &&
			back[0][1] == v[0][1] &&
			back[1][1] == v[1][1] &&
			back[2][1] == v[2][1] &&
			back[0][2] == v[0][2] &&
			back[1][2] == v[1][2] &&
			back[2][2] == v[2][2]
	})
}

//verif:prop C01
func Verif_codec_Ushort_Mat4(b []byte, v [4][4]uint16) {
	zz.Requires(len(b) >= 32)
	got := Ushort.Mat4(b)
	zz.Ensures("C01.get.Ushort.Mat4", func() bool {
		return got[0][0] == spec16(b, 0) &&
			got[1][0] == spec16(b, 2) &&
			got[2][0] == spec16(b, 4) &&
			got[3][0] == spec16(b, 6) &&
			got[0][1] == spec16(b, 8) &&
			got[1][1] == spec16(b, 10) &&
			got[2][1] == spec16(b, 12) &&
			got[3][1] == spec16(b, 14) &&
			got[0][2] == spec16(b, 16) &&
			got[1][2] == spec16(b, 18) &&
			got[2][2] == spec16(b, 20) &&
			got[3][2] == spec16(b, 22) &&
			got[0][3] == spec16(b, 24) &&
			got[1][3] == spec16(b, 26) &&
			got[2][3] == spec16(b, 28) &&
			got[3][3] == spec16(b, 30)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Ushort.PutMat4(b, v)
	zz.Ensures("C01.put.Ushort.Mat4", func() bool {
		return spec16(b, 0) == v[0][0] &&
			spec16(b, 2) == v[1][0] &&
			spec16(b, 4) == v[2][0] &&
			spec16(b, 6) == v[3][0] &&
			spec16(b, 8) == v[0][1] &&
			spec16(b, 10) == v[1][1] &&
			spec16(b, 12) == v[2][1] &&
			spec16(b, 14) == v[3][1] &&
			spec16(b, 16) == v[0][2] &&
			spec16(b, 18) == v[1][2] &&
			spec16(b, 20) == v[2][2] &&
			spec16(b, 22) == v[3][2] &&
			spec16(b, 24) == v[0][3] &&
			spec16(b, 26) == v[1][3] &&
			spec16(b, 28) == v[2][3] &&
			spec16(b, 30) == v[3][3]
	})
	zz.Ensures("C01.frame.Ushort.Mat4", func() bool {
		return zz.Forall(32, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Ushort.Mat4")
	back := Ushort.Mat4(b)
	zz.Ensures("C01.inverse.Ushort.Mat4", func() bool {
		return back[0][0] == v[0][0] &&
			back[1][0] == v[1][0] &&
			back[2][0] == v[2][0] &&
			back[3][0] == v[3][0] &&
			back[0][1] == v[0][1] &&
			back[1][1] == v[1][1] &&
			back[2][1] == v[2][1] &&
			back[3][1] == v[3][1] &&
			back[0][2] == v[0][2] &&
			back[1][2] == v[1][2] &&
			back[2][2] == v[2][2] &&
			back[3][2] == v[3][2] &&
			back[0][3] == v[0][3] &&
			back[1][3] == v[1][3] &&
			back[2][3] == v[2][3] &&
			back[3][3] == v[3][3]
	})
}

//verif:prop C01
func Verif_codec_Uint_Scalar(b []byte, v uint32) {
	zz.Requires(len(b) >= 4)
	got := Uint.Scalar(b)
	zz.Ensures("C01.get.Uint.Scalar", func() bool {
		return got == spec32(b, 0)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Uint.PutScalar(b, v)
	zz.Ensures("C01.put.Uint.Scalar", func() bool {
		return spec32(b, 0) == v
	})
	zz.Ensures("C01.frame.Uint.Scalar", func() bool {
		return zz.Forall(4, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Uint.Scalar")
	back := Uint.Scalar(b)
	zz.Ensures("C01.inverse.Uint.Scalar", func() bool {
		return back == v
	})
}

//verif:prop C01
func Verif_codec_Uint_Vec2(b []byte, v [2]uint32) {
	zz.Requires(len(b) >= 8)
	got := Uint.Vec2(b)
	zz.Ensures("C01.get.Uint.Vec2", func() bool {
		return got[0] == spec32(b, 0) &&
			got[1] == spec32(b, 4)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Uint.PutVec2(b, v)
	zz.Ensures("C01.put.Uint.Vec2", func() bool {
		return spec32(b, 0) == v[0] &&
			spec32(b, 4) == v[1]
	})
	zz.Ensures("C01.frame.Uint.Vec2", func() bool {
		return zz.Forall(8, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Uint.Vec2")
	back := Uint.Vec2(b)
	zz.Ensures("C01.inverse.Uint.Vec2", func() bool {
		return back[0] == v[0] &&
			back[1] == v[1]
	})
}

//verif:prop C01
func Verif_codec_Uint_Vec3(b []byte, v [3]uint32) {
	zz.Requires(len(b) >= 12)
	got := Uint.Vec3(b)
	zz.Ensures("C01.get.Uint.Vec3", func() bool {
		return got[0] == spec32(b, 0) &&
			got[1] == spec32(b, 4) &&
			got[2] == spec32(b, 8)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Uint.PutVec3(b, v)
	zz.Ensures("C01.put.Uint.Vec3", func() bool {
		return spec32(b, 0) == v[0] &&
			spec32(b, 4) == v[1] &&
			spec32(b, 8) == v[2]
	})
	zz.Ensures("C01.frame.Uint.Vec3", func() bool {
		return zz.Forall(12, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Uint.Vec3")
	back := Uint.Vec3(b)
	zz.Ensures("C01.inverse.Uint.Vec3", func() bool {
		return back[0] == v[0] &&
			back[1] == v[1] &&
			back[2] == v[2]
	})
}

//verif:prop C01
func Verif_codec_Uint_Vec4(b []byte, v [4]uint32) {
	zz.Requires(len(b) >= 16)
	got := Uint.Vec4(b)
	zz.Ensures("C01.get.Uint.Vec4", func() bool {
		return got[0] == spec32(b, 0) &&
			got[1] == spec32(b, 4) &&
			got[2] == spec32(b, 8) &&
			got[3] == spec32(b, 12)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Uint.PutVec4(b, v)
	zz.Ensures("C01.put.Uint.Vec4", func() bool {
		return spec32(b, 0) == v[0] &&
			spec32(b, 4) == v[1] &&
			spec32(b, 8) == v[2] &&
			spec32(b, 12) == v[3]
	})
	zz.Ensures("C01.frame.Uint.Vec4", func() bool {
		return zz.Forall(16, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Uint.Vec4")
	back := Uint.Vec4(b)
	zz.Ensures("C01.inverse.Uint.Vec4", func() bool {
		return back[0] == v[0] &&
			back[1] == v[1] &&
			back[2] == v[2] &&
			back[3] == v[3]
	})
}

//verif:prop C01
func Verif_codec_Uint_Mat2(b []byte, v [2][2]uint32) {
	zz.Requires(len(b) >= 16)
	got := Uint.Mat2(b)
	zz.Ensures("C01.get.Uint.Mat2", func() bool {
		return got[0][0] == spec32(b, 0) &&
			got[1][0] == spec32(b, 4) &&
			got[0][1] == spec32(b, 8) &&
			got[1][1] == spec32(b, 12)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Uint.PutMat2(b, v)
	zz.Ensures("C01.put.Uint.Mat2", func() bool {
		return spec32(b, 0) == v[0][0] &&
			spec32(b, 4) == v[1][0] &&
			spec32(b, 8) == v[0][1] &&
			spec32(b, 12) == v[1][1]
	})
	zz.Ensures("C01.frame.Uint.Mat2", func() bool {
		return zz.Forall(16, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Uint.Mat2")
	back := Uint.Mat2(b)
	zz.Ensures("C01.inverse.Uint.Mat2", func() bool {
		return back[0][0] == v[0][0] &&
			back[1][0] == v[1][0] &&
			back[0][1] == v[0][1] &&
			back[1][1] == v[1][1]
	})
}

//verif:prop C01
func Verif_codec_Uint_Mat3(b []byte, v [3][3]uint32) {
	zz.Requires(len(b) >= 36)
	got := Uint.Mat3(b)
	zz.Ensures("C01.get.Uint.Mat3", func() bool {
		return got[0][0] == spec32(b, 0) &&
			got[1][0] == spec32(b, 4) &&
			got[2][0] == spec32(b, 8) &&
			got[0][1] == spec32(b, 12) &&
			got[1][1] == spec32(b, 16) &&
			got[2][1] == spec32(b, 20) &&
			got[0][2] == spec32(b, 24) &&
			got[1][2] == spec32(b, 28) &&
			got[2][2] == spec32(b, 32)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Uint.PutMat3(b, v)
	zz.Ensures("C01.put.Uint.Mat3", func() bool {
		return spec32(b, 0) == v[0][0] &&
			spec32(b, 4) == v[1][0] &&
			spec32(b, 8) == v[2][0] &&
			spec32(b, 12) == v[0][1] &&
			spec32(b, 16) == v[1][1] &&
			spec32(b, 20) == v[2][1] &&
			spec32(b, 24) == v[0][2] &&
			spec32(b, 28) == v[1][2] &&
			spec32(b, 32) == v[2][2]
	})
	zz.Ensures("C01.frame.Uint.Mat3", func() bool {
		return zz.Forall(36, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Uint.Mat3")
	back := Uint.Mat3(b)
	zz.Ensures("C01.inverse.Uint.Mat3", func() bool {
		return back[0][0] == v[0][0] &&
			back[1][0] == v[1][0] &&
			back[2][0] == v[2][0] &&
			back[0][1] == v[0][1] &&
			back[1][1] == v[1][1] &&
			back[2][1] == v[2][1] &&
			back[0][2] == v[0][2] &&
			back[1][2] == v[1][2] &&
			back[2][2] == v[2][2]
	})
}

//verif:prop C01
func Verif_codec_Uint_Mat4(b []byte, v [4][4]uint32) {
	zz.Requires(len(b) >= 64)
	got := Uint.Mat4(b)
	zz.Ensures("C01.get.Uint.Mat4", func() bool {
		return got[0][0] == spec32(b, 0) &&
			got[1][0] == spec32(b, 4) &&
			got[2][0] == spec32(b, 8) &&
			got[3][0] == spec32(b, 12) &&
			got[0][1] == spec32(b, 16) &&
			got[1][1] == spec32(b, 20) &&
			got[2][1] == spec32(b, 24) &&
			got[3][1] == spec32(b, 28) &&
			got[0][2] == spec32(b, 32) &&
			got[1][2] == spec32(b, 36) &&
			got[2][2] == spec32(b, 40) &&
			got[3][2] == spec32(b, 44) &&
			got[0][3] == spec32(b, 48) &&
			got[1][3] == spec32(b, 52) &&
			got[2][3] == spec32(b, 56) &&
			got[3][3] == spec32(b, 60)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Uint.PutMat4(b, v)
	zz.Ensures("C01.put.Uint.Mat4", func() bool {
		return spec32(b, 0) == v[0][0] &&
			spec32(b, 4) == v[1][0] &&
			spec32(b, 8) == v[2][0] &&
			spec32(b, 12) == v[3][0] &&
			spec32(b, 16) == v[0][1] &&
			spec32(b, 20) == v[1][1] &&
			spec32(b, 24) == v[2][1] &&
			spec32(b, 28) == v[3][1] &&
			spec32(b, 32) == v[0][2] &&
			spec32(b, 36) == v[1][2] &&
			spec32(b, 40) == v[2][2] &&
			spec32(b, 44) == v[3][2] &&
			spec32(b, 48) == v[0][3] &&
			spec32(b, 52) == v[1][3] &&
			spec32(b, 56) == v[2][3] &&
			spec32(b, 60) == v[3][3]
	})
	zz.Ensures("C01.frame.Uint.Mat4", func() bool {
		return zz.Forall(64, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Uint.Mat4")
	back := Uint.Mat4(b)
	zz.Ensures("C01.inverse.Uint.Mat4", func() bool {
		return back[0][0] == v[0][0] &&
			back[1][0] == v[1][0] &&
			back[2][0] == v[2][0] &&
			back[3][0] == v[3][0] &&
			back[0][1] == v[0][1] &&
			back[1][1] == v[1][1] &&
			back[2][1] == v[2][1] &&
			back[3][1] == v[3][1] &&
			back[0][2] == v[0][2] &&
			back[1][2] == v[1][2] &&
			back[2][2] == v[2][2] &&
			back[3][2] == v[3][2] &&
			back[0][3] == v[0][3] &&
			back[1][3] == v[1][3] &&
			back[2][3] == v[2][3] &&
			back[3][3] == v[3][3]
	})
}

//verif:prop C01
func Verif_codec_Float_Scalar(b []byte, v float32) {
	zz.Requires(len(b) >= 4)
	got := Float.Scalar(b)
	zz.Ensures("C01.get.Float.Scalar", func() bool {
		return math.Float32bits(got) == spec32(b, 0)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Float.PutScalar(b, v)
	zz.Ensures("C01.put.Float.Scalar", func() bool {
		return spec32(b, 0) == math.Float32bits(v)
	})
	zz.Ensures("C01.frame.Float.Scalar", func() bool {
		return zz.Forall(4, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Float.Scalar")
	back := Float.Scalar(b)
	zz.Ensures("C01.inverse.Float.Scalar", func() bool {
		return math.Float32bits(back) == math.Float32bits(v)
	})
}

//verif:prop C01
func Verif_codec_Float_Vec2(b []byte, v [2]float32) {
	zz.Requires(len(b) >= 8)
	got := Float.Vec2(b)
	zz.Ensures("C01.get.Float.Vec2", func() bool {
		return math.Float32bits(got[0]) == spec32(b, 0) &&
			math.Float32bits(got[1]) == spec32(b, 4)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Float.PutVec2(b, v)
	zz.Ensures("C01.put.Float.Vec2", func() bool {
		return spec32(b, 0) == math.Float32bits(v[0]) &&
			spec32(b, 4) == math.Float32bits(v[1])
	})
	zz.Ensures("C01.frame.Float.Vec2", func() bool {
		return zz.Forall(8, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Float.Vec2")
	back := Float.Vec2(b)
	zz.Ensures("C01.inverse.Float.Vec2", func() bool {
		return math.Float32bits(back[0]) == math.Float32bits(v[0]) &&
			math.Float32bits(back[1]) == math.Float32bits(v[1])
	})
}

//verif:prop C01
func Verif_codec_Float_Vec3(b []byte, v [3]float32) {
	zz.Requires(len(b) >= 12)
	got := Float.Vec3(b)
	zz.Ensures("C01.get.Float.Vec3", func() bool {
		return math.Float32bits(got[0]) == spec32(b, 0) &&
			math.Float32bits(got[1]) == spec32(b, 4) &&
			math.Float32bits(got[2]) == spec32(b, 8)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Float.PutVec3(b, v)
	zz.Ensures("C01.put.Float.Vec3", func() bool {
		return spec32(b, 0) == math.Float32bits(v[0]) &&
			spec32(b, 4) == math.Float32bits(v[1]) &&
			spec32(b, 8) == math.Float32bits(v[2])
	})
	zz.Ensures("C01.frame.Float.Vec3", func() bool {
		return zz.Forall(12, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Float.Vec3")
	back := Float.Vec3(b)
	zz.Ensures("C01.inverse.Float.Vec3", func() bool {
		return math.Float32bits(back[0]) == math.Float32bits(v[0]) &&
			math.Float32bits(back[1]) == math.Float32bits(v[1]) &&
			math.Float32bits(back[2]) == math.Float32bits(v[2])
	})
}

//verif:prop C01
func Verif_codec_Float_Vec4(b []byte, v [4]float32) {
	zz.Requires(len(b) >= 16)
	got := Float.Vec4(b)
	zz.Ensures("C01.get.Float.Vec4", func() bool {
		return math.Float32bits(got[0]) == spec32(b, 0) &&
			math.Float32bits(got[1]) == spec32(b, 4) &&
			math.Float32bits(got[2]) == spec32(b, 8) &&
			math.Float32bits(got[3]) == spec32(b, 12)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Float.PutVec4(b, v)
	zz.Ensures("C01.put.Float.Vec4", func() bool {
		return spec32(b, 0) == math.Float32bits(v[0]) &&
			spec32(b, 4) == math.Float32bits(v[1]) &&
			spec32(b, 8) == math.Float32bits(v[2]) &&
			spec32(b, 12) == math.Float32bits(v[3])
	})
	zz.Ensures("C01.frame.Float.Vec4", func() bool {
		return zz.Forall(16, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Float.Vec4")
	back := Float.Vec4(b)
	zz.Ensures("C01.inverse.Float.Vec4", func() bool {
		return math.Float32bits(back[0]) == math.Float32bits(v[0]) &&
			math.Float32bits(back[1]) == math.Float32bits(v[1]) &&
			math.Float32bits(back[2]) == math.Float32bits(v[2]) &&
			math.Float32bits(back[3]) == math.Float32bits(v[3])
	})
}

//verif:prop C01
func Verif_codec_Float_Mat2(b []byte, v [2][2]float32) {
	zz.Requires(len(b) >= 16)
	got := Float.Mat2(b)
	zz.Ensures("C01.get.Float.Mat2", func() bool {
		return math.Float32bits(got[0][0]) == spec32(b, 0) &&
			math.Float32bits(got[1][0]) == spec32(b, 4) &&
			math.Float32bits(got[0][1]) == spec32(b, 8) &&
			math.Float32bits(got[1][1]) == spec32(b, 12)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Float.PutMat2(b, v)
	zz.Ensures("C01.put.Float.Mat2", func() bool {
		return spec32(b, 0) == math.Float32bits(v[0][0]) &&
			spec32(b, 4) == math.Float32bits(v[1][0]) &&
			spec32(b, 8) == math.Float32bits(v[0][1]) &&
			spec32(b, 12) == math.Float32bits(v[1][1])
	})
	zz.Ensures("C01.frame.Float.Mat2", func() bool {
		return zz.Forall(16, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Float.Mat2")
	back := Float.Mat2(b)
	zz.Ensures("C01.inverse.Float.Mat2", func() bool {
		return math.Float32bits(back[0][0]) == math.Float32bits(v[0][0]) &&
			math.Float32bits(back[1][0]) == math.Float32bits(v[1][0]) &&
			math.Float32bits(back[0][1]) == math.Float32bits(v[0][1]) &&
			math.Float32bits(back[1][1]) == math.Float32bits(v[1][1])
	})
}

//verif:prop C01
func Verif_codec_Float_Mat3(b []byte, v [3][3]float32) {
	zz.Requires(len(b) >= 36)
	got := Float.Mat3(b)
	zz.Ensures("C01.get.Float.Mat3", func() bool {
		return math.Float32bits(got[0][0]) == spec32(b, 0) &&
			math.Float32bits(got[1][0]) == spec32(b, 4) &&
			math.Float32bits(got[2][0]) == spec32(b, 8) &&
			math.Float32bits(got[0][1]) == spec32(b, 12) &&
			math.Float32bits(got[1][1]) == spec32(b, 16) &&
			math.Float32bits(got[2][1]) == spec32(b, 20) &&
			math.Float32bits(got[0][2]) == spec32(b, 24) &&
			math.Float32bits(got[1][2]) == spec32(b, 28) &&
			math.Float32bits(got[2][2]) == spec32(b, 32)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Float.PutMat3(b, v)
	zz.Ensures("C01.put.Float.Mat3", func() bool {
		return spec32(b, 0) == math.Float32bits(v[0][0]) &&
			spec32(b, 4) == math.Float32bits(v[1][0]) &&
			spec32(b, 8) == math.Float32bits(v[2][0]) &&
			spec32(b, 12) == math.Float32bits(v[0][1]) &&
			spec32(b, 16) == math.Float32bits(v[1][1]) &&
			spec32(b, 20) == math.Float32bits(v[2][1]) &&
			spec32(b, 24) == math.Float32bits(v[0][2]) &&
			spec32(b, 28) == math.Float32bits(v[1][2]) &&
			spec32(b, 32) == math.Float32bits(v[2][2])
	})
	zz.Ensures("C01.frame.Float.Mat3", func() bool {
		return zz.Forall(36, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Float.Mat3")
	back := Float.Mat3(b)
	zz.Ensures("C01.inverse.Float.Mat3", func() bool {
		return math.Float32bits(back[0][0]) == math.Float32bits(v[0][0]) &&
			math.Float32bits(back[1][0]) == math.Float32bits(v[1][0]) &&
			math.Float32bits(back[2][0]) == math.Float32bits(v[2][0]) &&
			math.Float32bits(back[0][1]) == math.Float32bits(v[0][1]) &&
			math.Float32bits(back[1][1]) == math.Float32bits(v[1][1]) &&
			math.Float32bits(back[2][1]) == math.Float32bits(v[2][1]) &&
			math.Float32bits(back[0][2]) == math.Float32bits(v[0][2]) &&
			math.Float32bits(back[1][2]) == math.Float32bits(v[1][2]) &&
			math.Float32bits(back[2][2]) == math.Float32bits(v[2][2])
	})
}

//verif:prop C01
func Verif_codec_Float_Mat4(b []byte, v [4][4]float32) {
	zz.Requires(len(b) >= 64)
	got := Float.Mat4(b)
	zz.Ensures("C01.get.Float.Mat4", func() bool {
		return math.Float32bits(got[0][0]) == spec32(b, 0) &&
			math.Float32bits(got[1][0]) == spec32(b, 4) &&
			math.Float32bits(got[2][0]) == spec32(b, 8) &&
			math.Float32bits(got[3][0]) == spec32(b, 12) &&
			math.Float32bits(got[0][1]) == spec32(b, 16) &&
			math.Float32bits(got[1][1]) == spec32(b, 20) &&
			math.Float32bits(got[2][1]) == spec32(b, 24) &&
			math.Float32bits(got[3][1]) == spec32(b, 28) &&
			math.Float32bits(got[0][2]) == spec32(b, 32) &&
			math.Float32bits(got[1][2]) == spec32(b, 36) &&
			math.Float32bits(got[2][2]) == spec32(b, 40) &&
			math.Float32bits(got[3][2]) == spec32(b, 44) &&
			math.Float32bits(got[0][3]) == spec32(b, 48) &&
			math.Float32bits(got[1][3]) == spec32(b, 52) &&
			math.Float32bits(got[2][3]) == spec32(b, 56) &&
			math.Float32bits(got[3][3]) == spec32(b, 60)
	})
	sn := zz.Snapshot()
	old := zz.Old(b)
	Float.PutMat4(b, v)
	zz.Ensures("C01.put.Float.Mat4", func() bool {
		return spec32(b, 0) == math.Float32bits(v[0][0]) &&
			spec32(b, 4) == math.Float32bits(v[1][0]) &&
			spec32(b, 8) == math.Float32bits(v[2][0]) &&
			spec32(b, 12) == math.Float32bits(v[3][0]) &&
			spec32(b, 16) == math.Float32bits(v[0][1]) &&
			spec32(b, 20) == math.Float32bits(v[1][1]) &&
			spec32(b, 24) == math.Float32bits(v[2][1]) &&
			spec32(b, 28) == math.Float32bits(v[3][1]) &&
			spec32(b, 32) == math.Float32bits(v[0][2]) &&
			spec32(b, 36) == math.Float32bits(v[1][2]) &&
			spec32(b, 40) == math.Float32bits(v[2][2]) &&
			spec32(b, 44) == math.Float32bits(v[3][2]) &&
			spec32(b, 48) == math.Float32bits(v[0][3]) &&
			spec32(b, 52) == math.Float32bits(v[1][3]) &&
			spec32(b, 56) == math.Float32bits(v[2][3]) &&
			spec32(b, 60) == math.Float32bits(v[3][3])
	})
	zz.Ensures("C01.frame.Float.Mat4", func() bool {
		return zz.Forall(64, len(b), func(i int) bool { return b[i] == old[i] })
	})
	sn.Except(b).Unchanged("C01.other.Float.Mat4")
	back := Float.Mat4(b)
	zz.Ensures("C01.inverse.Float.Mat4", func() bool {
		return math.Float32bits(back[0][0]) == math.Float32bits(v[0][0]) &&
			math.Float32bits(back[1][0]) == math.Float32bits(v[1][0]) &&
			math.Float32bits(back[2][0]) == math.Float32bits(v[2][0]) &&
			math.Float32bits(back[3][0]) == math.Float32bits(v[3][0]) &&
			math.Float32bits(back[0][1]) == math.Float32bits(v[0][1]) &&
			math.Float32bits(back[1][1]) == math.Float32bits(v[1][1]) &&
			math.Float32bits(back[2][1]) == math.Float32bits(v[2][1]) &&
			math.Float32bits(back[3][1]) == math.Float32bits(v[3][1]) &&
			math.Float32bits(back[0][2]) == math.Float32bits(v[0][2]) &&
			math.Float32bits(back[1][2]) == math.Float32bits(v[1][2]) &&
			math.Float32bits(back[2][2]) == math.Float32bits(v[2][2]) &&
			math.Float32bits(back[3][2]) == math.Float32bits(v[3][2]) &&
			math.Float32bits(back[0][3]) == math.Float32bits(v[0][3]) &&
			math.Float32bits(back[1][3]) == math.Float32bits(v[1][3]) &&
			math.Float32bits(back[2][3]) == math.Float32bits(v[2][3]) &&
			math.Float32bits(back[3][3]) == math.Float32bits(v[3][3])
	})
}
