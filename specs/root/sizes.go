package gltf

import zz "github.com/qmuntal/gltf/zzverif"

// SpecByteSize is the size of a component in the glTF 2.0 tables.
func SpecByteSize(c ComponentType) int {
	switch c {
	case ComponentByte, ComponentUbyte:
		return 1
	case ComponentShort, ComponentUshort:
		return 2
	case ComponentUint, ComponentFloat:
		return 4
	}
	return 0
}

// SpecRows and SpecColumns give the shape of an accessor type.
func SpecRows(t AccessorType) int {
	switch t {
	case AccessorScalar:
		return 1
	case AccessorVec2, AccessorMat2:
		return 2
	case AccessorVec3, AccessorMat3:
		return 3
	case AccessorVec4, AccessorMat4:
		return 4
	}
	return 0
}
func SpecColumns(t AccessorType) int {
	switch t {
	case AccessorScalar, AccessorVec2, AccessorVec3, AccessorVec4:
		return 1
	case AccessorMat2:
		return 2
	case AccessorMat3:
		return 3
	case AccessorMat4:
		return 4
	}
	return 0
}

// SpecElementSize: every matrix column starts on a multiple of 4 bytes, and so
// does every two- or three-component vector of small components.
func SpecElementSize(c ComponentType, t AccessorType) int {
	col := SpecByteSize(c) * SpecRows(t)
	if t != AccessorScalar {
		col = (col + 3) / 4 * 4
	}
	return col * SpecColumns(t)
}

//verif:prop C04
//verif:contract ComponentType.ByteSize
func Verif_ByteSize(c ComponentType) {
	n := c.ByteSize()
	zz.Ensures("C04.bytesize", func() bool { return n == SpecByteSize(c) })
}

//verif:prop C04
//verif:contract AccessorType.Components
func Verif_Components(t AccessorType) {
	n := t.Components()
	zz.Ensures("C04.components", func() bool { return n == SpecRows(t)*SpecColumns(t) })
}

//verif:prop C04
//verif:contract SizeOfElement
func Verif_SizeOfElement(c ComponentType, t AccessorType) {
	n := SizeOfElement(c, t)
	zz.Ensures("C04.size", func() bool { return n == SpecElementSize(c, t) })
	zz.Ensures("C04.size.multiple", func() bool { return SpecByteSize(c) == 0 || n%SpecByteSize(c) == 0 })
	zz.Ensures("C04.size.holds", func() bool { return n >= SpecByteSize(c)*SpecRows(t)*SpecColumns(t) })
}

func init() {
	zz.Register("ByteSize", Verif_ByteSize, func(r *zz.R) ComponentType { return ComponentType(r.Iter()) })
	zz.Register("Components", Verif_Components, func(r *zz.R) AccessorType { return AccessorType(r.Iter()) })
	zz.Register("SizeOfElement", Verif_SizeOfElement, func(r *zz.R) (ComponentType, AccessorType) {
		return ComponentType(r.Iter() / 256), AccessorType(r.Iter())
	})
}
