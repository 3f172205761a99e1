// Code generated by tools/gen_specs.py. DO NOT EDIT.

package binary

import (
	"image/color"

	"github.com/qmuntal/gltf"
	zz "github.com/qmuntal/gltf/zzverif"
)

// SpecSupported: the pairs glTF defines.
func SpecSupported(c gltf.ComponentType, t gltf.AccessorType) bool {
	switch c {
	case gltf.ComponentByte, gltf.ComponentUbyte, gltf.ComponentShort, gltf.ComponentUshort, gltf.ComponentUint, gltf.ComponentFloat:
	default:
		return false
	}
	switch t {
	case gltf.AccessorScalar, gltf.AccessorVec2, gltf.AccessorVec3, gltf.AccessorVec4, gltf.AccessorMat2, gltf.AccessorMat3, gltf.AccessorMat4:
		return true
	}
	return false
}

// SpecCase is the index of a supported pair, 42 for the others.
func SpecCase(c gltf.ComponentType, t gltf.AccessorType) int {
	switch {
	case c == gltf.ComponentByte && t == gltf.AccessorScalar:
		return 0
	case c == gltf.ComponentByte && t == gltf.AccessorVec2:
		return 1
	case c == gltf.ComponentByte && t == gltf.AccessorVec3:
		return 2
	case c == gltf.ComponentByte && t == gltf.AccessorVec4:
		return 3
	case c == gltf.ComponentByte && t == gltf.AccessorMat2:
		return 4
	case c == gltf.ComponentByte && t == gltf.AccessorMat3:
		return 5
	case c == gltf.ComponentByte && t == gltf.AccessorMat4:
		return 6
	case c == gltf.ComponentUbyte && t == gltf.AccessorScalar:
		return 7
	case c == gltf.ComponentUbyte && t == gltf.AccessorVec2:
		return 8
	case c == gltf.ComponentUbyte && t == gltf.AccessorVec3:
		return 9
	case c == gltf.ComponentUbyte && t == gltf.AccessorVec4:
		return 10
	case c == gltf.ComponentUbyte && t == gltf.AccessorMat2:
		return 11
	case c == gltf.ComponentUbyte && t == gltf.AccessorMat3:
		return 12
	case c == gltf.ComponentUbyte && t == gltf.AccessorMat4:
		return 13
	case c == gltf.ComponentShort && t == gltf.AccessorScalar:
		return 14
	case c == gltf.ComponentShort && t == gltf.AccessorVec2:
		return 15
	case c == gltf.ComponentShort && t == gltf.AccessorVec3:
		return 16
	case c == gltf.ComponentShort && t == gltf.AccessorVec4:
		return 17
	case c == gltf.ComponentShort && t == gltf.AccessorMat2:
		return 18
	case c == gltf.ComponentShort && t == gltf.AccessorMat3:
		return 19
	case c == gltf.ComponentShort && t == gltf.AccessorMat4:
		return 20
	case c == gltf.ComponentUshort && t == gltf.AccessorScalar:
		return 21
	case c == gltf.ComponentUshort && t == gltf.AccessorVec2:
		return 22
	case c == gltf.ComponentUshort && t == gltf.AccessorVec3:
		return 23
	case c == gltf.ComponentUshort && t == gltf.AccessorVec4:
		return 24
	case c == gltf.ComponentUshort && t == gltf.AccessorMat2:
		return 25
	case c == gltf.ComponentUshort && t == gltf.AccessorMat3:
		return 26
	case c == gltf.ComponentUshort && t == gltf.AccessorMat4:
		return 27
	case c == gltf.ComponentUint && t == gltf.AccessorScalar:
		return 28
	case c == gltf.ComponentUint && t == gltf.AccessorVec2:
		return 29
	case c == gltf.ComponentUint && t == gltf.AccessorVec3:
		return 30
	case c == gltf.ComponentUint && t == gltf.AccessorVec4:
		return 31
	case c == gltf.ComponentUint && t == gltf.AccessorMat2:
		return 32
	case c == gltf.ComponentUint && t == gltf.AccessorMat3:
		return 33
	case c == gltf.ComponentUint && t == gltf.AccessorMat4:
		return 34
	case c == gltf.ComponentFloat && t == gltf.AccessorScalar:
		return 35
	case c == gltf.ComponentFloat && t == gltf.AccessorVec2:
		return 36
	case c == gltf.ComponentFloat && t == gltf.AccessorVec3:
		return 37
	case c == gltf.ComponentFloat && t == gltf.AccessorVec4:
		return 38
	case c == gltf.ComponentFloat && t == gltf.AccessorMat2:
		return 39
	case c == gltf.ComponentFloat && t == gltf.AccessorMat3:
		return 40
	case c == gltf.ComponentFloat && t == gltf.AccessorMat4:
		return 41
	}
	return 42
}

// SpecSliceOf: v is a slice of n elements of the Go type of case k.
func SpecSliceOf(v any, k, n int) bool {
	switch k {
	case 0:
		return zz.TypeIs[[]int8](v) && len(zz.As[[]int8](v)) == n
	case 1:
		return zz.TypeIs[[][2]int8](v) && len(zz.As[[][2]int8](v)) == n
	case 2:
		return zz.TypeIs[[][3]int8](v) && len(zz.As[[][3]int8](v)) == n
	case 3:
		return zz.TypeIs[[][4]int8](v) && len(zz.As[[][4]int8](v)) == n
	case 4:
		return zz.TypeIs[[][2][2]int8](v) && len(zz.As[[][2][2]int8](v)) == n
	case 5:
		return zz.TypeIs[[][3][3]int8](v) && len(zz.As[[][3][3]int8](v)) == n
	case 6:
		return zz.TypeIs[[][4][4]int8](v) && len(zz.As[[][4][4]int8](v)) == n
	case 7:
		return zz.TypeIs[[]uint8](v) && len(zz.As[[]uint8](v)) == n
	case 8:
		return zz.TypeIs[[][2]uint8](v) && len(zz.As[[][2]uint8](v)) == n
	case 9:
		return zz.TypeIs[[][3]uint8](v) && len(zz.As[[][3]uint8](v)) == n
	case 10:
		return zz.TypeIs[[][4]uint8](v) && len(zz.As[[][4]uint8](v)) == n
	case 11:
		return zz.TypeIs[[][2][2]uint8](v) && len(zz.As[[][2][2]uint8](v)) == n
	case 12:
		return zz.TypeIs[[][3][3]uint8](v) && len(zz.As[[][3][3]uint8](v)) == n
	case 13:
		return zz.TypeIs[[][4][4]uint8](v) && len(zz.As[[][4][4]uint8](v)) == n
	case 14:
		return zz.TypeIs[[]int16](v) && len(zz.As[[]int16](v)) == n
	case 15:
		return zz.TypeIs[[][2]int16](v) && len(zz.As[[][2]int16](v)) == n
	case 16:
		return zz.TypeIs[[][3]int16](v) && len(zz.As[[][3]int16](v)) == n
	case 17:
		return zz.TypeIs[[][4]int16](v) && len(zz.As[[][4]int16](v)) == n
	case 18:
		return zz.TypeIs[[][2][2]int16](v) && len(zz.As[[][2][2]int16](v)) == n
	case 19:
		return zz.TypeIs[[][3][3]int16](v) && len(zz.As[[][3][3]int16](v)) == n
	case 20:
		return zz.TypeIs[[][4][4]int16](v) && len(zz.As[[][4][4]int16](v)) == n
	case 21:
		return zz.TypeIs[[]uint16](v) && len(zz.As[[]uint16](v)) == n
	case 22:
		return zz.TypeIs[[][2]uint16](v) && len(zz.As[[][2]uint16](v)) == n
	case 23:
		return zz.TypeIs[[][3]uint16](v) && len(zz.As[[][3]uint16](v)) == n
	case 24:
		return zz.TypeIs[[][4]uint16](v) && len(zz.As[[][4]uint16](v)) == n
	case 25:
		return zz.TypeIs[[][2][2]uint16](v) && len(zz.As[[][2][2]uint16](v)) == n
	case 26:
		return zz.TypeIs[[][3][3]uint16](v) && len(zz.As[[][3][3]uint16](v)) == n
	case 27:
		return zz.TypeIs[[][4][4]uint16](v) && len(zz.As[[][4][4]uint16](v)) == n
	case 28:
		return zz.TypeIs[[]uint32](v) && len(zz.As[[]uint32](v)) == n
	case 29:
		return zz.TypeIs[[][2]uint32](v) && len(zz.As[[][2]uint32](v)) == n
	case 30:
		return zz.TypeIs[[][3]uint32](v) && len(zz.As[[][3]uint32](v)) == n
	case 31:
		return zz.TypeIs[[][4]uint32](v) && len(zz.As[[][4]uint32](v)) == n
	case 32:
		return zz.TypeIs[[][2][2]uint32](v) && len(zz.As[[][2][2]uint32](v)) == n
	case 33:
		return zz.TypeIs[[][3][3]uint32](v) && len(zz.As[[][3][3]uint32](v)) == n
	case 34:
		return zz.TypeIs[[][4][4]uint32](v) && len(zz.As[[][4][4]uint32](v)) == n
	case 35:
		return zz.TypeIs[[]float32](v) && len(zz.As[[]float32](v)) == n
	case 36:
		return zz.TypeIs[[][2]float32](v) && len(zz.As[[][2]float32](v)) == n
	case 37:
		return zz.TypeIs[[][3]float32](v) && len(zz.As[[][3]float32](v)) == n
	case 38:
		return zz.TypeIs[[][4]float32](v) && len(zz.As[[][4]float32](v)) == n
	case 39:
		return zz.TypeIs[[][2][2]float32](v) && len(zz.As[[][2][2]float32](v)) == n
	case 40:
		return zz.TypeIs[[][3][3]float32](v) && len(zz.As[[][3][3]float32](v)) == n
	case 41:
		return zz.TypeIs[[][4][4]float32](v) && len(zz.As[[][4][4]float32](v)) == n
	}
	return false
}

//verif:prop C03
//verif:contract MakeSlice
//verif:split 43
func Verif_MakeSlice(c gltf.ComponentType, t gltf.AccessorType, count int) {
	k := SpecCase(c, t)
	zz.Split(43, k)
	zz.Requires(count >= 0 && count <= 1<<40)
	v, err := MakeSlice(c, t, count)
	zz.Ensures("C03.make.error", func() bool { return (err == nil) == SpecSupported(c, t) })
	zz.Ensures("C03.make.slice", func() bool { return err != nil || SpecSliceOf(v, k, count) })
}

//verif:prop C03
//verif:contract MakeSliceBuffer
//verif:split 43
func Verif_MakeSliceBuffer(c gltf.ComponentType, t gltf.AccessorType, count int, buffer []byte) {
	k := SpecCase(c, t)
	zz.Split(43, k)
	zz.Requires(count >= 0 && count <= 1<<40)
	v, err := MakeSliceBuffer(c, t, count, buffer)
	zz.Ensures("C03.buffer.error", func() bool { return (err == nil) == SpecSupported(c, t) })
	zz.Ensures("C03.buffer.slice", func() bool { return err != nil || SpecSliceOf(v, k, count) })
	zz.Concrete("C03.buffer.within", func() bool { return err != nil || zz.Within(v, buffer) })
	if k == 42 {
		return
	}
	switch k {
	case 0:
		zz.EnsuresBacked("C03.backed.Byte_Scalar", err != nil, zz.As[[]int8](v), buffer)
		zz.Ensures("C03.zero.Byte_Scalar", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z int8
				return zz.Same(zz.As[[]int8](v)[i], z)
			})
		})
	case 1:
		zz.EnsuresBacked("C03.backed.Byte_Vec2", err != nil, zz.As[[][2]int8](v), buffer)
		zz.Ensures("C03.zero.Byte_Vec2", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [2]int8
				return zz.Same(zz.As[[][2]int8](v)[i], z)
			})
		})
	case 2:
		zz.EnsuresBacked("C03.backed.Byte_Vec3", err != nil, zz.As[[][3]int8](v), buffer)
		zz.Ensures("C03.zero.Byte_Vec3", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [3]int8
				return zz.Same(zz.As[[][3]int8](v)[i], z)
			})
		})
	case 3:
		zz.EnsuresBacked("C03.backed.Byte_Vec4", err != nil, zz.As[[][4]int8](v), buffer)
		zz.Ensures("C03.zero.Byte_Vec4", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [4]int8
				return zz.Same(zz.As[[][4]int8](v)[i], z)
			})
		})
	case 4:
		zz.EnsuresBacked("C03.backed.Byte_Mat2", err != nil, zz.As[[][2][2]int8](v), buffer)
		zz.Ensures("C03.zero.Byte_Mat2", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [2][2]int8
				return zz.Same(zz.As[[][2][2]int8](v)[i], z)
			})
		})
	case 5:
		zz.EnsuresBacked("C03.backed.Byte_Mat3", err != nil, zz.As[[][3][3]int8](v), buffer)
		zz.Ensures("C03.zero.Byte_Mat3", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [3][3]int8
				return zz.Same(zz.As[[][3][3]int8](v)[i], z)
			})
		})
	case 6:
		zz.EnsuresBacked("C03.backed.Byte_Mat4", err != nil, zz.As[[][4][4]int8](v), buffer)
		zz.Ensures("C03.zero.Byte_Mat4", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [4][4]int8
				return zz.Same(zz.As[[][4][4]int8](v)[i], z)
			})
		})
	case 7:
		zz.EnsuresBacked("C03.backed.Ubyte_Scalar", err != nil, zz.As[[]uint8](v), buffer)
		zz.Ensures("C03.zero.Ubyte_Scalar", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z uint8
				return zz.Same(zz.As[[]uint8](v)[i], z)
			})
		})
	case 8:
		zz.EnsuresBacked("C03.backed.Ubyte_Vec2", err != nil, zz.As[[][2]uint8](v), buffer)
		zz.Ensures("C03.zero.Ubyte_Vec2", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [2]uint8
				return zz.Same(zz.As[[][2]uint8](v)[i], z)
			})
		})
	case 9:
		zz.EnsuresBacked("C03.backed.Ubyte_Vec3", err != nil, zz.As[[][3]uint8](v), buffer)
		zz.Ensures("C03.zero.Ubyte_Vec3", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [3]uint8
				return zz.Same(zz.As[[][3]uint8](v)[i], z)
			})
		})
	case 10:
		zz.EnsuresBacked("C03.backed.Ubyte_Vec4", err != nil, zz.As[[][4]uint8](v), buffer)
		zz.Ensures("C03.zero.Ubyte_Vec4", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [4]uint8
				return zz.Same(zz.As[[][4]uint8](v)[i], z)
			})
		})
	case 11:
		zz.EnsuresBacked("C03.backed.Ubyte_Mat2", err != nil, zz.As[[][2][2]uint8](v), buffer)
		zz.Ensures("C03.zero.Ubyte_Mat2", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [2][2]uint8
				return zz.Same(zz.As[[][2][2]uint8](v)[i], z)
			})
		})
	case 12:
		zz.EnsuresBacked("C03.backed.Ubyte_Mat3", err != nil, zz.As[[][3][3]uint8](v), buffer)
		zz.Ensures("C03.zero.Ubyte_Mat3", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [3][3]uint8
				return zz.Same(zz.As[[][3][3]uint8](v)[i], z)
			})
		})
	case 13:
		zz.EnsuresBacked("C03.backed.Ubyte_Mat4", err != nil, zz.As[[][4][4]uint8](v), buffer)
		zz.Ensures("C03.zero.Ubyte_Mat4", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [4][4]uint8
				return zz.Same(zz.As[[][4][4]uint8](v)[i], z)
			})
		})
	case 14:
		zz.EnsuresBacked("C03.backed.Short_Scalar", err != nil, zz.As[[]int16](v), buffer)
		zz.Ensures("C03.zero.Short_Scalar", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z int16
				return zz.Same(zz.As[[]int16](v)[i], z)
			})
		})
	case 15:
		zz.EnsuresBacked("C03.backed.Short_Vec2", err != nil, zz.As[[][2]int16](v), buffer)
		zz.Ensures("C03.zero.Short_Vec2", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [2]int16
				return zz.Same(zz.As[[][2]int16](v)[i], z)
			})
		})
	case 16:
		zz.EnsuresBacked("C03.backed.Short_Vec3", err != nil, zz.As[[][3]int16](v), buffer)
		zz.Ensures("C03.zero.Short_Vec3", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [3]int16
				return zz.Same(zz.As[[][3]int16](v)[i], z)
			})
		})
	case 17:
		zz.EnsuresBacked("C03.backed.Short_Vec4", err != nil, zz.As[[][4]int16](v), buffer)
		zz.Ensures("C03.zero.Short_Vec4", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [4]int16
				return zz.Same(zz.As[[][4]int16](v)[i], z)
			})
		})
	case 18:
		zz.EnsuresBacked("C03.backed.Short_Mat2", err != nil, zz.As[[][2][2]int16](v), buffer)
		zz.Ensures("C03.zero.Short_Mat2", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [2][2]int16
				return zz.Same(zz.As[[][2][2]int16](v)[i], z)
			})
		})
	case 19:
		zz.EnsuresBacked("C03.backed.Short_Mat3", err != nil, zz.As[[][3][3]int16](v), buffer)
		zz.Ensures("C03.zero.Short_Mat3", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [3][3]int16
				return zz.Same(zz.As[[][3][3]int16](v)[i], z)
			})
		})
	case 20:
		zz.EnsuresBacked("C03.backed.Short_Mat4", err != nil, zz.As[[][4][4]int16](v), buffer)
		zz.Ensures("C03.zero.Short_Mat4", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [4][4]int16
				return zz.Same(zz.As[[][4][4]int16](v)[i], z)
			})
		})
	case 21:
		zz.EnsuresBacked("C03.backed.Ushort_Scalar", err != nil, zz.As[[]uint16](v), buffer)
		zz.Ensures("C03.zero.Ushort_Scalar", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z uint16
				return zz.Same(zz.As[[]uint16](v)[i], z)
			})
		})
	case 22:
		zz.EnsuresBacked("C03.backed.Ushort_Vec2", err != nil, zz.As[[][2]uint16](v), buffer)
		zz.Ensures("C03.zero.Ushort_Vec2", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [2]uint16
				return zz.Same(zz.As[[][2]uint16](v)[i], z)
			})
		})
	case 23:
		zz.EnsuresBacked("C03.backed.Ushort_Vec3", err != nil, zz.As[[][3]uint16](v), buffer)
		zz.Ensures("C03.zero.Ushort_Vec3", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [3]uint16
				return zz.Same(zz.As[[][3]uint16](v)[i], z)
			})
		})
	case 24:
		zz.EnsuresBacked("C03.backed.Ushort_Vec4", err != nil, zz.As[[][4]uint16](v), buffer)
		zz.Ensures("C03.zero.Ushort_Vec4", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [4]uint16
				return zz.Same(zz.As[[][4]uint16](v)[i], z)
			})
		})
	case 25:
		zz.EnsuresBacked("C03.backed.Ushort_Mat2", err != nil, zz.As[[][2][2]uint16](v), buffer)
		zz.Ensures("C03.zero.Ushort_Mat2", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [2][2]uint16
				return zz.Same(zz.As[[][2][2]uint16](v)[i], z)
			})
		})
	case 26:
		zz.EnsuresBacked("C03.backed.Ushort_Mat3", err != nil, zz.As[[][3][3]uint16](v), buffer)
		zz.Ensures("C03.zero.Ushort_Mat3", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [3][3]uint16
				return zz.Same(zz.As[[][3][3]uint16](v)[i], z)
			})
		})
	case 27:
		zz.EnsuresBacked("C03.backed.Ushort_Mat4", err != nil, zz.As[[][4][4]uint16](v), buffer)
		zz.Ensures("C03.zero.Ushort_Mat4", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [4][4]uint16
				return zz.Same(zz.As[[][4][4]uint16](v)[i], z)
			})
		})
	case 28:
		zz.EnsuresBacked("C03.backed.Uint_Scalar", err != nil, zz.As[[]uint32](v), buffer)
		zz.Ensures("C03.zero.Uint_Scalar", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z uint32
				return zz.Same(zz.As[[]uint32](v)[i], z)
			})
		})
	case 29:
		zz.EnsuresBacked("C03.backed.Uint_Vec2", err != nil, zz.As[[][2]uint32](v), buffer)
		zz.Ensures("C03.zero.Uint_Vec2", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [2]uint32
				return zz.Same(zz.As[[][2]uint32](v)[i], z)
			})
		})
	case 30:
		zz.EnsuresBacked("C03.backed.Uint_Vec3", err != nil, zz.As[[][3]uint32](v), buffer)
		zz.Ensures("C03.zero.Uint_Vec3", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [3]uint32
				return zz.Same(zz.As[[][3]uint32](v)[i], z)
			})
		})
	case 31:
		zz.EnsuresBacked("C03.backed.Uint_Vec4", err != nil, zz.As[[][4]uint32](v), buffer)
		zz.Ensures("C03.zero.Uint_Vec4", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [4]uint32
				return zz.Same(zz.As[[][4]uint32](v)[i], z)
			})
		})
	case 32:
		zz.EnsuresBacked("C03.backed.Uint_Mat2", err != nil, zz.As[[][2][2]uint32](v), buffer)
		zz.Ensures("C03.zero.Uint_Mat2", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [2][2]uint32
				return zz.Same(zz.As[[][2][2]uint32](v)[i], z)
			})
		})
	case 33:
		zz.EnsuresBacked("C03.backed.Uint_Mat3", err != nil, zz.As[[][3][3]uint32](v), buffer)
		zz.Ensures("C03.zero.Uint_Mat3", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [3][3]uint32
				return zz.Same(zz.As[[][3][3]uint32](v)[i], z)
			})
		})
	case 34:
		zz.EnsuresBacked("C03.backed.Uint_Mat4", err != nil, zz.As[[][4][4]uint32](v), buffer)
		zz.Ensures("C03.zero.Uint_Mat4", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [4][4]uint32
				return zz.Same(zz.As[[][4][4]uint32](v)[i], z)
			})
		})
	case 35:
		zz.EnsuresBacked("C03.backed.Float_Scalar", err != nil, zz.As[[]float32](v), buffer)
		zz.Ensures("C03.zero.Float_Scalar", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z float32
				return zz.Same(zz.As[[]float32](v)[i], z)
			})
		})
	case 36:
		zz.EnsuresBacked("C03.backed.Float_Vec2", err != nil, zz.As[[][2]float32](v), buffer)
		zz.Ensures("C03.zero.Float_Vec2", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [2]float32
				return zz.Same(zz.As[[][2]float32](v)[i], z)
			})
		})
	case 37:
		zz.EnsuresBacked("C03.backed.Float_Vec3", err != nil, zz.As[[][3]float32](v), buffer)
		zz.Ensures("C03.zero.Float_Vec3", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [3]float32
				return zz.Same(zz.As[[][3]float32](v)[i], z)
			})
		})
	case 38:
		zz.EnsuresBacked("C03.backed.Float_Vec4", err != nil, zz.As[[][4]float32](v), buffer)
		zz.Ensures("C03.zero.Float_Vec4", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [4]float32
				return zz.Same(zz.As[[][4]float32](v)[i], z)
			})
		})
	case 39:
		zz.EnsuresBacked("C03.backed.Float_Mat2", err != nil, zz.As[[][2][2]float32](v), buffer)
		zz.Ensures("C03.zero.Float_Mat2", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [2][2]float32
				return zz.Same(zz.As[[][2][2]float32](v)[i], z)
			})
		})
	case 40:
		zz.EnsuresBacked("C03.backed.Float_Mat3", err != nil, zz.As[[][3][3]float32](v), buffer)
		zz.Ensures("C03.zero.Float_Mat3", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [3][3]float32
				return zz.Same(zz.As[[][3][3]float32](v)[i], z)
			})
		})
	case 41:
		zz.EnsuresBacked("C03.backed.Float_Mat4", err != nil, zz.As[[][4][4]float32](v), buffer)
		zz.Ensures("C03.zero.Float_Mat4", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z [4][4]float32
				return zz.Same(zz.As[[][4][4]float32](v)[i], z)
			})
		})
	}
}

//verif:prop C03
//verif:contract Type
//verif:split 44
func Verif_Type(data any) {
	switch d := data.(type) {
	case []int8:
		zz.Split(44, 0)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Byte_Scalar", func() bool { return c == gltf.ComponentByte && ty == gltf.AccessorScalar && n == len(d) })
	case [][2]int8:
		zz.Split(44, 1)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Byte_Vec2", func() bool { return c == gltf.ComponentByte && ty == gltf.AccessorVec2 && n == len(d) })
	case [][3]int8:
		zz.Split(44, 2)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Byte_Vec3", func() bool { return c == gltf.ComponentByte && ty == gltf.AccessorVec3 && n == len(d) })
	case [][4]int8:
		zz.Split(44, 3)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Byte_Vec4", func() bool { return c == gltf.ComponentByte && ty == gltf.AccessorVec4 && n == len(d) })
	case [][2][2]int8:
		zz.Split(44, 4)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Byte_Mat2", func() bool { return c == gltf.ComponentByte && ty == gltf.AccessorMat2 && n == len(d) })
	case [][3][3]int8:
		zz.Split(44, 5)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Byte_Mat3", func() bool { return c == gltf.ComponentByte && ty == gltf.AccessorMat3 && n == len(d) })
	case [][4][4]int8:
		zz.Split(44, 6)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Byte_Mat4", func() bool { return c == gltf.ComponentByte && ty == gltf.AccessorMat4 && n == len(d) })
	case []uint8:
		zz.Split(44, 7)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Ubyte_Scalar", func() bool { return c == gltf.ComponentUbyte && ty == gltf.AccessorScalar && n == len(d) })
	case [][2]uint8:
		zz.Split(44, 8)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Ubyte_Vec2", func() bool { return c == gltf.ComponentUbyte && ty == gltf.AccessorVec2 && n == len(d) })
	case [][3]uint8:
		zz.Split(44, 9)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Ubyte_Vec3", func() bool { return c == gltf.ComponentUbyte && ty == gltf.AccessorVec3 && n == len(d) })
	case [][4]uint8:
		zz.Split(44, 10)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Ubyte_Vec4", func() bool { return c == gltf.ComponentUbyte && ty == gltf.AccessorVec4 && n == len(d) })
	case [][2][2]uint8:
		zz.Split(44, 11)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Ubyte_Mat2", func() bool { return c == gltf.ComponentUbyte && ty == gltf.AccessorMat2 && n == len(d) })
	case [][3][3]uint8:
		zz.Split(44, 12)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Ubyte_Mat3", func() bool { return c == gltf.ComponentUbyte && ty == gltf.AccessorMat3 && n == len(d) })
	case [][4][4]uint8:
		zz.Split(44, 13)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Ubyte_Mat4", func() bool { return c == gltf.ComponentUbyte && ty == gltf.AccessorMat4 && n == len(d) })
	case []int16:
		zz.Split(44, 14)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Short_Scalar", func() bool { return c == gltf.ComponentShort && ty == gltf.AccessorScalar && n == len(d) })
	case [][2]int16:
		zz.Split(44, 15)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Short_Vec2", func() bool { return c == gltf.ComponentShort && ty == gltf.AccessorVec2 && n == len(d) })
	case [][3]int16:
		zz.Split(44, 16)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Short_Vec3", func() bool { return c == gltf.ComponentShort && ty == gltf.AccessorVec3 && n == len(d) })
	case [][4]int16:
		zz.Split(44, 17)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Short_Vec4", func() bool { return c == gltf.ComponentShort && ty == gltf.AccessorVec4 && n == len(d) })
	case [][2][2]int16:
		zz.Split(44, 18)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Short_Mat2", func() bool { return c == gltf.ComponentShort && ty == gltf.AccessorMat2 && n == len(d) })
	case [][3][3]int16:
		zz.Split(44, 19)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Short_Mat3", func() bool { return c == gltf.ComponentShort && ty == gltf.AccessorMat3 && n == len(d) })
	case [][4][4]int16:
		zz.Split(44, 20)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Short_Mat4", func() bool { return c == gltf.ComponentShort && ty == gltf.AccessorMat4 && n == len(d) })
	case []uint16:
		zz.Split(44, 21)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Ushort_Scalar", func() bool { return c == gltf.ComponentUshort && ty == gltf.AccessorScalar && n == len(d) })
	case [][2]uint16:
		zz.Split(44, 22)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Ushort_Vec2", func() bool { return c == gltf.ComponentUshort && ty == gltf.AccessorVec2 && n == len(d) })
	case [][3]uint16:
		zz.Split(44, 23)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Ushort_Vec3", func() bool { return c == gltf.ComponentUshort && ty == gltf.AccessorVec3 && n == len(d) })
	case [][4]uint16:
		zz.Split(44, 24)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Ushort_Vec4", func() bool { return c == gltf.ComponentUshort && ty == gltf.AccessorVec4 && n == len(d) })
	case [][2][2]uint16:
		zz.Split(44, 25)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Ushort_Mat2", func() bool { return c == gltf.ComponentUshort && ty == gltf.AccessorMat2 && n == len(d) })
	case [][3][3]uint16:
		zz.Split(44, 26)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Ushort_Mat3", func() bool { return c == gltf.ComponentUshort && ty == gltf.AccessorMat3 && n == len(d) })
	case [][4][4]uint16:
		zz.Split(44, 27)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Ushort_Mat4", func() bool { return c == gltf.ComponentUshort && ty == gltf.AccessorMat4 && n == len(d) })
	case []uint32:
		zz.Split(44, 28)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Uint_Scalar", func() bool { return c == gltf.ComponentUint && ty == gltf.AccessorScalar && n == len(d) })
	case [][2]uint32:
		zz.Split(44, 29)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Uint_Vec2", func() bool { return c == gltf.ComponentUint && ty == gltf.AccessorVec2 && n == len(d) })
	case [][3]uint32:
		zz.Split(44, 30)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Uint_Vec3", func() bool { return c == gltf.ComponentUint && ty == gltf.AccessorVec3 && n == len(d) })
	case [][4]uint32:
		zz.Split(44, 31)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Uint_Vec4", func() bool { return c == gltf.ComponentUint && ty == gltf.AccessorVec4 && n == len(d) })
	case [][2][2]uint32:
		zz.Split(44, 32)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Uint_Mat2", func() bool { return c == gltf.ComponentUint && ty == gltf.AccessorMat2 && n == len(d) })
	case [][3][3]uint32:
		zz.Split(44, 33)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Uint_Mat3", func() bool { return c == gltf.ComponentUint && ty == gltf.AccessorMat3 && n == len(d) })
	case [][4][4]uint32:
		zz.Split(44, 34)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Uint_Mat4", func() bool { return c == gltf.ComponentUint && ty == gltf.AccessorMat4 && n == len(d) })
	case []float32:
		zz.Split(44, 35)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Float_Scalar", func() bool { return c == gltf.ComponentFloat && ty == gltf.AccessorScalar && n == len(d) })
	case [][2]float32:
		zz.Split(44, 36)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Float_Vec2", func() bool { return c == gltf.ComponentFloat && ty == gltf.AccessorVec2 && n == len(d) })
	case [][3]float32:
		zz.Split(44, 37)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Float_Vec3", func() bool { return c == gltf.ComponentFloat && ty == gltf.AccessorVec3 && n == len(d) })
	case [][4]float32:
		zz.Split(44, 38)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Float_Vec4", func() bool { return c == gltf.ComponentFloat && ty == gltf.AccessorVec4 && n == len(d) })
	case [][2][2]float32:
		zz.Split(44, 39)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Float_Mat2", func() bool { return c == gltf.ComponentFloat && ty == gltf.AccessorMat2 && n == len(d) })
	case [][3][3]float32:
		zz.Split(44, 40)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Float_Mat3", func() bool { return c == gltf.ComponentFloat && ty == gltf.AccessorMat3 && n == len(d) })
	case [][4][4]float32:
		zz.Split(44, 41)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.Float_Mat4", func() bool { return c == gltf.ComponentFloat && ty == gltf.AccessorMat4 && n == len(d) })
	case []color.RGBA:
		zz.Split(44, 42)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.RGBA", func() bool { return c == gltf.ComponentUbyte && ty == gltf.AccessorVec4 && n == len(d) })
	case []color.RGBA64:
		zz.Split(44, 43)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.RGBA64", func() bool { return c == gltf.ComponentUshort && ty == gltf.AccessorVec4 && n == len(d) })
	default:
		zz.Requires(false)
	}
}

//verif:prop C04
func Verif_extent_Byte_Scalar(b []byte, v int8) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentByte, gltf.AccessorScalar))
	Byte.PutScalar(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Byte.Scalar(b)
	zz.Ensures("C04.extent.Byte.Scalar", func() bool { return len(b)%1 == 0 })
}

//verif:prop C04
func Verif_extent_Byte_Vec2(b []byte, v [2]int8) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentByte, gltf.AccessorVec2))
	Byte.PutVec2(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Byte.Vec2(b)
	zz.Ensures("C04.extent.Byte.Vec2", func() bool { return len(b)%1 == 0 })
}

//verif:prop C04
func Verif_extent_Byte_Vec3(b []byte, v [3]int8) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentByte, gltf.AccessorVec3))
	Byte.PutVec3(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Byte.Vec3(b)
	zz.Ensures("C04.extent.Byte.Vec3", func() bool { return len(b)%1 == 0 })
}

//verif:prop C04
func Verif_extent_Byte_Vec4(b []byte, v [4]int8) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentByte, gltf.AccessorVec4))
	Byte.PutVec4(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Byte.Vec4(b)
	zz.Ensures("C04.extent.Byte.Vec4", func() bool { return len(b)%1 == 0 })
}

//verif:prop C04
func Verif_extent_Byte_Mat2(b []byte, v [2][2]int8) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentByte, gltf.AccessorMat2))
	Byte.PutMat2(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Byte.Mat2(b)
	zz.Ensures("C04.extent.Byte.Mat2", func() bool { return len(b)%1 == 0 })
}

//verif:prop C04
func Verif_extent_Byte_Mat3(b []byte, v [3][3]int8) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentByte, gltf.AccessorMat3))
	Byte.PutMat3(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Byte.Mat3(b)
	zz.Ensures("C04.extent.Byte.Mat3", func() bool { return len(b)%1 == 0 })
}

//verif:prop C04
func Verif_extent_Byte_Mat4(b []byte, v [4][4]int8) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentByte, gltf.AccessorMat4))
	Byte.PutMat4(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Byte.Mat4(b)
	zz.Ensures("C04.extent.Byte.Mat4", func() bool { return len(b)%1 == 0 })
}

//verif:prop C04
func Verif_extent_Ubyte_Scalar(b []byte, v uint8) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUbyte, gltf.AccessorScalar))
	Ubyte.PutScalar(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Ubyte.Scalar(b)
	zz.Ensures("C04.extent.Ubyte.Scalar", func() bool { return len(b)%1 == 0 })
}

//verif:prop C04
func Verif_extent_Ubyte_Vec2(b []byte, v [2]uint8) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUbyte, gltf.AccessorVec2))
	Ubyte.PutVec2(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Ubyte.Vec2(b)
	zz.Ensures("C04.extent.Ubyte.Vec2", func() bool { return len(b)%1 == 0 })
}

//verif:prop C04
func Verif_extent_Ubyte_Vec3(b []byte, v [3]uint8) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUbyte, gltf.AccessorVec3))
	Ubyte.PutVec3(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Ubyte.Vec3(b)
	zz.Ensures("C04.extent.Ubyte.Vec3", func() bool { return len(b)%1 == 0 })
}

//verif:prop C04
func Verif_extent_Ubyte_Vec4(b []byte, v [4]uint8) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUbyte, gltf.AccessorVec4))
	Ubyte.PutVec4(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Ubyte.Vec4(b)
	zz.Ensures("C04.extent.Ubyte.Vec4", func() bool { return len(b)%1 == 0 })
}

//verif:prop C04
func Verif_extent_Ubyte_Mat2(b []byte, v [2][2]uint8) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUbyte, gltf.AccessorMat2))
	Ubyte.PutMat2(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Ubyte.Mat2(b)
	zz.Ensures("C04.extent.Ubyte.Mat2", func() bool { return len(b)%1 == 0 })
}

//verif:prop C04
func Verif_extent_Ubyte_Mat3(b []byte, v [3][3]uint8) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUbyte, gltf.AccessorMat3))
	Ubyte.PutMat3(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Ubyte.Mat3(b)
	zz.Ensures("C04.extent.Ubyte.Mat3", func() bool { return len(b)%1 == 0 })
}

//verif:prop C04
func Verif_extent_Ubyte_Mat4(b []byte, v [4][4]uint8) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUbyte, gltf.AccessorMat4))
	Ubyte.PutMat4(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Ubyte.Mat4(b)
	zz.Ensures("C04.extent.Ubyte.Mat4", func() bool { return len(b)%1 == 0 })
}

//verif:prop C04
func Verif_extent_Short_Scalar(b []byte, v int16) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentShort, gltf.AccessorScalar))
	Short.PutScalar(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Short.Scalar(b)
	zz.Ensures("C04.extent.Short.Scalar", func() bool { return len(b)%2 == 0 })
}

//verif:prop C04
func Verif_extent_Short_Vec2(b []byte, v [2]int16) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentShort, gltf.AccessorVec2))
	Short.PutVec2(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Short.Vec2(b)
	zz.Ensures("C04.extent.Short.Vec2", func() bool { return len(b)%2 == 0 })
}

//verif:prop C04
func Verif_extent_Short_Vec3(b []byte, v [3]int16) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentShort, gltf.AccessorVec3))
	Short.PutVec3(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Short.Vec3(b)
	zz.Ensures("C04.extent.Short.Vec3", func() bool { return len(b)%2 == 0 })
}

//verif:prop C04
func Verif_extent_Short_Vec4(b []byte, v [4]int16) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentShort, gltf.AccessorVec4))
	Short.PutVec4(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Short.Vec4(b)
	zz.Ensures("C04.extent.Short.Vec4", func() bool { return len(b)%2 == 0 })
}

//verif:prop C04
func Verif_extent_Short_Mat2(b []byte, v [2][2]int16) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentShort, gltf.AccessorMat2))
	Short.PutMat2(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Short.Mat2(b)
	zz.Ensures("C04.extent.Short.Mat2", func() bool { return len(b)%2 == 0 })
}

//verif:prop C04
func Verif_extent_Short_Mat3(b []byte, v [3][3]int16) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentShort, gltf.AccessorMat3))
	Short.PutMat3(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Short.Mat3(b)
	zz.Ensures("C04.extent.Short.Mat3", func() bool { return len(b)%2 == 0 })
}

//verif:prop C04
func Verif_extent_Short_Mat4(b []byte, v [4][4]int16) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentShort, gltf.AccessorMat4))
	Short.PutMat4(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Short.Mat4(b)
	zz.Ensures("C04.extent.Short.Mat4", func() bool { return len(b)%2 == 0 })
}

//verif:prop C04
func Verif_extent_Ushort_Scalar(b []byte, v uint16) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUshort, gltf.AccessorScalar))
	Ushort.PutScalar(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Ushort.Scalar(b)
	zz.Ensures("C04.extent.Ushort.Scalar", func() bool { return len(b)%2 == 0 })
}

//verif:prop C04
func Verif_extent_Ushort_Vec2(b []byte, v [2]uint16) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUshort, gltf.AccessorVec2))
	Ushort.PutVec2(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Ushort.Vec2(b)
	zz.Ensures("C04.extent.Ushort.Vec2", func() bool { return len(b)%2 == 0 })
}

//verif:prop C04
func Verif_extent_Ushort_Vec3(b []byte, v [3]uint16) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUshort, gltf.AccessorVec3))
	Ushort.PutVec3(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Ushort.Vec3(b)
	zz.Ensures("C04.extent.Ushort.Vec3", func() bool { return len(b)%2 == 0 })
}

//verif:prop C04
func Verif_extent_Ushort_Vec4(b []byte, v [4]uint16) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUshort, gltf.AccessorVec4))
	Ushort.PutVec4(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Ushort.Vec4(b)
	zz.Ensures("C04.extent.Ushort.Vec4", func() bool { return len(b)%2 == 0 })
}

//verif:prop C04
func Verif_extent_Ushort_Mat2(b []byte, v [2][2]uint16) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUshort, gltf.AccessorMat2))
	Ushort.PutMat2(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Ushort.Mat2(b)
	zz.Ensures("C04.extent.Ushort.Mat2", func() bool { return len(b)%2 == 0 })
}

//verif:prop C04
func Verif_extent_Ushort_Mat3(b []byte, v [3][3]uint16) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUshort, gltf.AccessorMat3))
	Ushort.PutMat3(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Ushort.Mat3(b)
	zz.Ensures("C04.extent.Ushort.Mat3", func() bool { return len(b)%2 == 0 })
}

//verif:prop C04
func Verif_extent_Ushort_Mat4(b []byte, v [4][4]uint16) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUshort, gltf.AccessorMat4))
	Ushort.PutMat4(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Ushort.Mat4(b)
	zz.Ensures("C04.extent.Ushort.Mat4", func() bool { return len(b)%2 == 0 })
}

//verif:prop C04
func Verif_extent_Uint_Scalar(b []byte, v uint32) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUint, gltf.AccessorScalar))
	Uint.PutScalar(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Uint.Scalar(b)
	zz.Ensures("C04.extent.Uint.Scalar", func() bool { return len(b)%4 == 0 })
}

//verif:prop C04
func Verif_extent_Uint_Vec2(b []byte, v [2]uint32) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUint, gltf.AccessorVec2))
	Uint.PutVec2(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Uint.Vec2(b)
	zz.Ensures("C04.extent.Uint.Vec2", func() bool { return len(b)%4 == 0 })
}

//verif:prop C04
func Verif_extent_Uint_Vec3(b []byte, v [3]uint32) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUint, gltf.AccessorVec3))
	Uint.PutVec3(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Uint.Vec3(b)
	zz.Ensures("C04.extent.Uint.Vec3", func() bool { return len(b)%4 == 0 })
}

//verif:prop C04
func Verif_extent_Uint_Vec4(b []byte, v [4]uint32) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUint, gltf.AccessorVec4))
	Uint.PutVec4(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Uint.Vec4(b)
	zz.Ensures("C04.extent.Uint.Vec4", func() bool { return len(b)%4 == 0 })
}

//verif:prop C04
func Verif_extent_Uint_Mat2(b []byte, v [2][2]uint32) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUint, gltf.AccessorMat2))
	Uint.PutMat2(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Uint.Mat2(b)
	zz.Ensures("C04.extent.Uint.Mat2", func() bool { return len(b)%4 == 0 })
}

//verif:prop C04
func Verif_extent_Uint_Mat3(b []byte, v [3][3]uint32) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUint, gltf.AccessorMat3))
	Uint.PutMat3(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Uint.Mat3(b)
	zz.Ensures("C04.extent.Uint.Mat3", func() bool { return len(b)%4 == 0 })
}

//verif:prop C04
func Verif_extent_Uint_Mat4(b []byte, v [4][4]uint32) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentUint, gltf.AccessorMat4))
	Uint.PutMat4(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Uint.Mat4(b)
	zz.Ensures("C04.extent.Uint.Mat4", func() bool { return len(b)%4 == 0 })
}

//verif:prop C04
func Verif_extent_Float_Scalar(b []byte, v float32) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentFloat, gltf.AccessorScalar))
	Float.PutScalar(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Float.Scalar(b)
	zz.Ensures("C04.extent.Float.Scalar", func() bool { return len(b)%4 == 0 })
}

//verif:prop C04
func Verif_extent_Float_Vec2(b []byte, v [2]float32) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentFloat, gltf.AccessorVec2))
	Float.PutVec2(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Float.Vec2(b)
	zz.Ensures("C04.extent.Float.Vec2", func() bool { return len(b)%4 == 0 })
}

//verif:prop C04
func Verif_extent_Float_Vec3(b []byte, v [3]float32) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentFloat, gltf.AccessorVec3))
	Float.PutVec3(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Float.Vec3(b)
	zz.Ensures("C04.extent.Float.Vec3", func() bool { return len(b)%4 == 0 })
}

//verif:prop C04
func Verif_extent_Float_Vec4(b []byte, v [4]float32) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentFloat, gltf.AccessorVec4))
	Float.PutVec4(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Float.Vec4(b)
	zz.Ensures("C04.extent.Float.Vec4", func() bool { return len(b)%4 == 0 })
}

//verif:prop C04
func Verif_extent_Float_Mat2(b []byte, v [2][2]float32) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentFloat, gltf.AccessorMat2))
	Float.PutMat2(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Float.Mat2(b)
	zz.Ensures("C04.extent.Float.Mat2", func() bool { return len(b)%4 == 0 })
}

//verif:prop C04
func Verif_extent_Float_Mat3(b []byte, v [3][3]float32) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentFloat, gltf.AccessorMat3))
	Float.PutMat3(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Float.Mat3(b)
	zz.Ensures("C04.extent.Float.Mat3", func() bool { return len(b)%4 == 0 })
}

//verif:prop C04
func Verif_extent_Float_Mat4(b []byte, v [4][4]float32) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.ComponentFloat, gltf.AccessorMat4))
	Float.PutMat4(b, v) // must not panic: the size covers every byte the codecs touch
	_ = Float.Mat4(b)
	zz.Ensures("C04.extent.Float.Mat4", func() bool { return len(b)%4 == 0 })
}

func specGenPair(r *zz.R) (gltf.ComponentType, gltf.AccessorType) {
	cs := []gltf.ComponentType{gltf.ComponentByte, gltf.ComponentUbyte, gltf.ComponentShort, gltf.ComponentUshort, gltf.ComponentUint, gltf.ComponentFloat}
	ts := []gltf.AccessorType{gltf.AccessorScalar, gltf.AccessorVec2, gltf.AccessorVec3, gltf.AccessorVec4, gltf.AccessorMat2, gltf.AccessorMat3, gltf.AccessorMat4}
	if k := zz.Case(); k < 42 {
		return cs[k/7], ts[k%7]
	}
	if r.Intn(2) == 0 {
		return zz.Pick(r, cs...), gltf.AccessorType(r.Intn(256))
	}
	return gltf.ComponentType(r.Intn(65536)), zz.Pick(r, ts...)
}

func specGenAny(r *zz.R) any {
	n := r.Small(5)
	switch zz.Case() {
	case 0:
		return make([]int8, n)
	case 1:
		return make([][2]int8, n)
	case 2:
		return make([][3]int8, n)
	case 3:
		return make([][4]int8, n)
	case 4:
		return make([][2][2]int8, n)
	case 5:
		return make([][3][3]int8, n)
	case 6:
		return make([][4][4]int8, n)
	case 7:
		return make([]uint8, n)
	case 8:
		return make([][2]uint8, n)
	case 9:
		return make([][3]uint8, n)
	case 10:
		return make([][4]uint8, n)
	case 11:
		return make([][2][2]uint8, n)
	case 12:
		return make([][3][3]uint8, n)
	case 13:
		return make([][4][4]uint8, n)
	case 14:
		return make([]int16, n)
	case 15:
		return make([][2]int16, n)
	case 16:
		return make([][3]int16, n)
	case 17:
		return make([][4]int16, n)
	case 18:
		return make([][2][2]int16, n)
	case 19:
		return make([][3][3]int16, n)
	case 20:
		return make([][4][4]int16, n)
	case 21:
		return make([]uint16, n)
	case 22:
		return make([][2]uint16, n)
	case 23:
		return make([][3]uint16, n)
	case 24:
		return make([][4]uint16, n)
	case 25:
		return make([][2][2]uint16, n)
	case 26:
		return make([][3][3]uint16, n)
	case 27:
		return make([][4][4]uint16, n)
	case 28:
		return make([]uint32, n)
	case 29:
		return make([][2]uint32, n)
	case 30:
		return make([][3]uint32, n)
	case 31:
		return make([][4]uint32, n)
	case 32:
		return make([][2][2]uint32, n)
	case 33:
		return make([][3][3]uint32, n)
	case 34:
		return make([][4][4]uint32, n)
	case 35:
		return make([]float32, n)
	case 36:
		return make([][2]float32, n)
	case 37:
		return make([][3]float32, n)
	case 38:
		return make([][4]float32, n)
	case 39:
		return make([][2][2]float32, n)
	case 40:
		return make([][3][3]float32, n)
	case 41:
		return make([][4][4]float32, n)
	case 42:
		return make([]color.RGBA, n)
	case 43:
		return make([]color.RGBA64, n)
	}
	return nil
}

var _ = color.RGBA{}

func init() {
	zz.Register("MakeSlice", Verif_MakeSlice, func(r *zz.R) (gltf.ComponentType, gltf.AccessorType, int) {
		c, t := specGenPair(r)
		return c, t, r.Small(40)
	})
	zz.Register("MakeSliceBuffer", Verif_MakeSliceBuffer, func(r *zz.R) (gltf.ComponentType, gltf.AccessorType, int, []byte) {
		c, t := specGenPair(r)
		b := r.Bytes(r.Small(200))
		if r.Intn(3) == 0 {
			b = b[: r.Small(len(b)) : r.Intn(cap(b)-len(b)+1)+len(b)]
		}
		return c, t, r.Small(40), b
	})
	zz.Register("Type", Verif_Type, func(r *zz.R) any { return specGenAny(r) })
	zz.Register("extent_Byte_Scalar", Verif_extent_Byte_Scalar, func(r *zz.R) ([]byte, int8) {
		var v int8
		return make([]byte, gltf.SizeOfElement(gltf.ComponentByte, gltf.AccessorScalar)), v
	})
	zz.Register("extent_Byte_Vec2", Verif_extent_Byte_Vec2, func(r *zz.R) ([]byte, [2]int8) {
		var v [2]int8
		return make([]byte, gltf.SizeOfElement(gltf.ComponentByte, gltf.AccessorVec2)), v
	})
	zz.Register("extent_Byte_Vec3", Verif_extent_Byte_Vec3, func(r *zz.R) ([]byte, [3]int8) {
		var v [3]int8
		return make([]byte, gltf.SizeOfElement(gltf.ComponentByte, gltf.AccessorVec3)), v
	})
	zz.Register("extent_Byte_Vec4", Verif_extent_Byte_Vec4, func(r *zz.R) ([]byte, [4]int8) {
		var v [4]int8
		return make([]byte, gltf.SizeOfElement(gltf.ComponentByte, gltf.AccessorVec4)), v
	})
	zz.Register("extent_Byte_Mat2", Verif_extent_Byte_Mat2, func(r *zz.R) ([]byte, [2][2]int8) {
		var v [2][2]int8
		return make([]byte, gltf.SizeOfElement(gltf.ComponentByte, gltf.AccessorMat2)), v
	})
	zz.Register("extent_Byte_Mat3", Verif_extent_Byte_Mat3, func(r *zz.R) ([]byte, [3][3]int8) {
		var v [3][3]int8
		return make([]byte, gltf.SizeOfElement(gltf.ComponentByte, gltf.AccessorMat3)), v
	})
	zz.Register("extent_Byte_Mat4", Verif_extent_Byte_Mat4, func(r *zz.R) ([]byte, [4][4]int8) {
		var v [4][4]int8
		return make([]byte, gltf.SizeOfElement(gltf.ComponentByte, gltf.AccessorMat4)), v
	})
	zz.Register("extent_Ubyte_Scalar", Verif_extent_Ubyte_Scalar, func(r *zz.R) ([]byte, uint8) {
		var v uint8
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUbyte, gltf.AccessorScalar)), v
	})
	zz.Register("extent_Ubyte_Vec2", Verif_extent_Ubyte_Vec2, func(r *zz.R) ([]byte, [2]uint8) {
		var v [2]uint8
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUbyte, gltf.AccessorVec2)), v
	})
	zz.Register("extent_Ubyte_Vec3", Verif_extent_Ubyte_Vec3, func(r *zz.R) ([]byte, [3]uint8) {
		var v [3]uint8
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUbyte, gltf.AccessorVec3)), v
	})
	zz.Register("extent_Ubyte_Vec4", Verif_extent_Ubyte_Vec4, func(r *zz.R) ([]byte, [4]uint8) {
		var v [4]uint8
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUbyte, gltf.AccessorVec4)), v
	})
	zz.Register("extent_Ubyte_Mat2", Verif_extent_Ubyte_Mat2, func(r *zz.R) ([]byte, [2][2]uint8) {
		var v [2][2]uint8
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUbyte, gltf.AccessorMat2)), v
	})
	zz.Register("extent_Ubyte_Mat3", Verif_extent_Ubyte_Mat3, func(r *zz.R) ([]byte, [3][3]uint8) {
		var v [3][3]uint8
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUbyte, gltf.AccessorMat3)), v
	})
	zz.Register("extent_Ubyte_Mat4", Verif_extent_Ubyte_Mat4, func(r *zz.R) ([]byte, [4][4]uint8) {
		var v [4][4]uint8
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUbyte, gltf.AccessorMat4)), v
	})
	zz.Register("extent_Short_Scalar", Verif_extent_Short_Scalar, func(r *zz.R) ([]byte, int16) {
		var v int16
		return make([]byte, gltf.SizeOfElement(gltf.ComponentShort, gltf.AccessorScalar)), v
	})
	zz.Register("extent_Short_Vec2", Verif_extent_Short_Vec2, func(r *zz.R) ([]byte, [2]int16) {
		var v [2]int16
		return make([]byte, gltf.SizeOfElement(gltf.ComponentShort, gltf.AccessorVec2)), v
	})
	zz.Register("extent_Short_Vec3", Verif_extent_Short_Vec3, func(r *zz.R) ([]byte, [3]int16) {
		var v [3]int16
		return make([]byte, gltf.SizeOfElement(gltf.ComponentShort, gltf.AccessorVec3)), v
	})
	zz.Register("extent_Short_Vec4", Verif_extent_Short_Vec4, func(r *zz.R) ([]byte, [4]int16) {
		var v [4]int16
		return make([]byte, gltf.SizeOfElement(gltf.ComponentShort, gltf.AccessorVec4)), v
	})
	zz.Register("extent_Short_Mat2", Verif_extent_Short_Mat2, func(r *zz.R) ([]byte, [2][2]int16) {
		var v [2][2]int16
		return make([]byte, gltf.SizeOfElement(gltf.ComponentShort, gltf.AccessorMat2)), v
	})
	zz.Register("extent_Short_Mat3", Verif_extent_Short_Mat3, func(r *zz.R) ([]byte, [3][3]int16) {
		var v [3][3]int16
		return make([]byte, gltf.SizeOfElement(gltf.ComponentShort, gltf.AccessorMat3)), v
	})
	zz.Register("extent_Short_Mat4", Verif_extent_Short_Mat4, func(r *zz.R) ([]byte, [4][4]int16) {
		var v [4][4]int16
		return make([]byte, gltf.SizeOfElement(gltf.ComponentShort, gltf.AccessorMat4)), v
	})
	zz.Register("extent_Ushort_Scalar", Verif_extent_Ushort_Scalar, func(r *zz.R) ([]byte, uint16) {
		var v uint16
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUshort, gltf.AccessorScalar)), v
	})
	zz.Register("extent_Ushort_Vec2", Verif_extent_Ushort_Vec2, func(r *zz.R) ([]byte, [2]uint16) {
		var v [2]uint16
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUshort, gltf.AccessorVec2)), v
	})
	zz.Register("extent_Ushort_Vec3", Verif_extent_Ushort_Vec3, func(r *zz.R) ([]byte, [3]uint16) {
		var v [3]uint16
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUshort, gltf.AccessorVec3)), v
	})
	zz.Register("extent_Ushort_Vec4", Verif_extent_Ushort_Vec4, func(r *zz.R) ([]byte, [4]uint16) {
		var v [4]uint16
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUshort, gltf.AccessorVec4)), v
	})
	zz.Register("extent_Ushort_Mat2", Verif_extent_Ushort_Mat2, func(r *zz.R) ([]byte, [2][2]uint16) {
		var v [2][2]uint16
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUshort, gltf.AccessorMat2)), v
	})
	zz.Register("extent_Ushort_Mat3", Verif_extent_Ushort_Mat3, func(r *zz.R) ([]byte, [3][3]uint16) {
		var v [3][3]uint16
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUshort, gltf.AccessorMat3)), v
	})
	zz.Register("extent_Ushort_Mat4", Verif_extent_Ushort_Mat4, func(r *zz.R) ([]byte, [4][4]uint16) {
		var v [4][4]uint16
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUshort, gltf.AccessorMat4)), v
	})
	zz.Register("extent_Uint_Scalar", Verif_extent_Uint_Scalar, func(r *zz.R) ([]byte, uint32) {
		var v uint32
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUint, gltf.AccessorScalar)), v
	})
	zz.Register("extent_Uint_Vec2", Verif_extent_Uint_Vec2, func(r *zz.R) ([]byte, [2]uint32) {
		var v [2]uint32
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUint, gltf.AccessorVec2)), v
	})
	zz.Register("extent_Uint_Vec3", Verif_extent_Uint_Vec3, func(r *zz.R) ([]byte, [3]uint32) {
		var v [3]uint32
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUint, gltf.AccessorVec3)), v
	})
	zz.Register("extent_Uint_Vec4", Verif_extent_Uint_Vec4, func(r *zz.R) ([]byte, [4]uint32) {
		var v [4]uint32
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUint, gltf.AccessorVec4)), v
	})
	zz.Register("extent_Uint_Mat2", Verif_extent_Uint_Mat2, func(r *zz.R) ([]byte, [2][2]uint32) {
		var v [2][2]uint32
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUint, gltf.AccessorMat2)), v
	})
	zz.Register("extent_Uint_Mat3", Verif_extent_Uint_Mat3, func(r *zz.R) ([]byte, [3][3]uint32) {
		var v [3][3]uint32
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUint, gltf.AccessorMat3)), v
	})
	zz.Register("extent_Uint_Mat4", Verif_extent_Uint_Mat4, func(r *zz.R) ([]byte, [4][4]uint32) {
		var v [4][4]uint32
		return make([]byte, gltf.SizeOfElement(gltf.ComponentUint, gltf.AccessorMat4)), v
	})
	zz.Register("extent_Float_Scalar", Verif_extent_Float_Scalar, func(r *zz.R) ([]byte, float32) {
		var v float32
		return make([]byte, gltf.SizeOfElement(gltf.ComponentFloat, gltf.AccessorScalar)), v
	})
	zz.Register("extent_Float_Vec2", Verif_extent_Float_Vec2, func(r *zz.R) ([]byte, [2]float32) {
		var v [2]float32
		return make([]byte, gltf.SizeOfElement(gltf.ComponentFloat, gltf.AccessorVec2)), v
	})
	zz.Register("extent_Float_Vec3", Verif_extent_Float_Vec3, func(r *zz.R) ([]byte, [3]float32) {
		var v [3]float32
		return make([]byte, gltf.SizeOfElement(gltf.ComponentFloat, gltf.AccessorVec3)), v
	})
	zz.Register("extent_Float_Vec4", Verif_extent_Float_Vec4, func(r *zz.R) ([]byte, [4]float32) {
		var v [4]float32
		return make([]byte, gltf.SizeOfElement(gltf.ComponentFloat, gltf.AccessorVec4)), v
	})
	zz.Register("extent_Float_Mat2", Verif_extent_Float_Mat2, func(r *zz.R) ([]byte, [2][2]float32) {
		var v [2][2]float32
		return make([]byte, gltf.SizeOfElement(gltf.ComponentFloat, gltf.AccessorMat2)), v
	})
	zz.Register("extent_Float_Mat3", Verif_extent_Float_Mat3, func(r *zz.R) ([]byte, [3][3]float32) {
		var v [3][3]float32
		return make([]byte, gltf.SizeOfElement(gltf.ComponentFloat, gltf.AccessorMat3)), v
	})
	zz.Register("extent_Float_Mat4", Verif_extent_Float_Mat4, func(r *zz.R) ([]byte, [4][4]float32) {
		var v [4][4]float32
		return make([]byte, gltf.SizeOfElement(gltf.ComponentFloat, gltf.AccessorMat4)), v
	})
}
