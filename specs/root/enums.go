// Code generated by tools/gen_specs.py. DO NOT EDIT.

package gltf

import (
	"encoding/json"
	"strconv"

	zz "github.com/qmuntal/gltf/zzverif"
)

// The glTF 2.0 schema's codes and names of every enumeration.

// specJSONText is some valid JSON text whose value is v.
func specGenJSON(r *zz.R, texts []string) []byte {
	t := texts[r.Intn(len(texts))]
	switch r.Intn(4) {
	case 0:
		t = " " + t + " "
	case 1:
		t = zz.Pick(r, "0", "7", "5120", "34962", "70000", "-1", "\"\"", "\"vec2\"", "null", "{}", "[1]", "\"VEC9\"", "true", "1.5", "", "x")
	case 2:
		t = strconv.Itoa(r.Intn(40000))
	}
	return []byte(t)
}

// ComponentType

func specCaseComponentType(k int) (v ComponentType, code uint16, name string) {
	switch k {
	case 0:
		return ComponentByte, 5120, "BYTE"
	case 1:
		return ComponentUbyte, 5121, "UNSIGNED_BYTE"
	case 2:
		return ComponentShort, 5122, "SHORT"
	case 3:
		return ComponentUshort, 5123, "UNSIGNED_SHORT"
	case 4:
		return ComponentUint, 5125, "UNSIGNED_INT"
	case 5:
		return ComponentFloat, 5126, "FLOAT"
	}
	return
}

func specCodeComponentType(code uint16) (v ComponentType, known bool) {
	switch code {
	case 5120:
		return ComponentByte, true
	case 5121:
		return ComponentUbyte, true
	case 5122:
		return ComponentShort, true
	case 5123:
		return ComponentUshort, true
	case 5125:
		return ComponentUint, true
	case 5126:
		return ComponentFloat, true
	}
	return 0, false
}

//verif:prop C18
//verif:split 6
func Verif_ComponentTypeValue(u ComponentType) {
	v, code, name := specCaseComponentType(zz.Case())
	text, _ := json.Marshal(code)
	b, err := (&v).MarshalJSON()
	zz.Ensures("C18.code.ComponentType", func() bool { return err == nil && string(b) == string(text) })
	s := v.String()
	zz.Ensures("C18.name.ComponentType", func() bool { return s == name })
	if err == nil {
		err = (&u).UnmarshalJSON(b)
		zz.Ensures("C18.parse.ComponentType", func() bool { return err == nil && u == v })
	}
}

//verif:prop C18
func Verif_ComponentTypeAny(v, u ComponentType, data []byte) {
	var code uint16
	other := uint16(1)
	bad := json.Unmarshal(data, &code)
	_ = json.Unmarshal(data, &other)
	if bad == nil && code == other { // null leaves the target alone
		want, known := specCodeComponentType(code)
		err := (&u).UnmarshalJSON(data)
		zz.Ensures("C18.read.ComponentType", func() bool { return !known || err == nil && u == want })
	} else {
		_ = (&u).UnmarshalJSON(data)
	}
	_ = v.String()
	_, _ = (&v).MarshalJSON()
}

func init() {
	zz.Register("ComponentTypeValue", Verif_ComponentTypeValue, func(r *zz.R) ComponentType { return ComponentType(r.Intn(70000)) })
	zz.Register("ComponentTypeAny", Verif_ComponentTypeAny, func(r *zz.R) (ComponentType, ComponentType, []byte) {
		return ComponentType(r.Intn(70000)), ComponentType(r.Intn(8)), specGenJSON(r, []string{`5120`, `5121`, `5122`, `5123`, `5125`, `5126`})
	})
}

// AccessorType

func specCaseAccessorType(k int) (v AccessorType, code string, name string) {
	switch k {
	case 0:
		return AccessorScalar, "SCALAR", "SCALAR"
	case 1:
		return AccessorVec2, "VEC2", "VEC2"
	case 2:
		return AccessorVec3, "VEC3", "VEC3"
	case 3:
		return AccessorVec4, "VEC4", "VEC4"
	case 4:
		return AccessorMat2, "MAT2", "MAT2"
	case 5:
		return AccessorMat3, "MAT3", "MAT3"
	case 6:
		return AccessorMat4, "MAT4", "MAT4"
	}
	return
}

func specCodeAccessorType(code string) (v AccessorType, known bool) {
	switch code {
	case "SCALAR":
		return AccessorScalar, true
	case "VEC2":
		return AccessorVec2, true
	case "VEC3":
		return AccessorVec3, true
	case "VEC4":
		return AccessorVec4, true
	case "MAT2":
		return AccessorMat2, true
	case "MAT3":
		return AccessorMat3, true
	case "MAT4":
		return AccessorMat4, true
	}
	return 0, false
}

//verif:prop C18
//verif:split 7
func Verif_AccessorTypeValue(u AccessorType) {
	v, code, name := specCaseAccessorType(zz.Case())
	text, _ := json.Marshal(code)
	b, err := (&v).MarshalJSON()
	zz.Ensures("C18.code.AccessorType", func() bool { return err == nil && string(b) == string(text) })
	s := v.String()
	zz.Ensures("C18.name.AccessorType", func() bool { return s == name })
	if err == nil {
		err = (&u).UnmarshalJSON(b)
		zz.Ensures("C18.parse.AccessorType", func() bool { return err == nil && u == v })
	}
}

//verif:prop C18
func Verif_AccessorTypeAny(v, u AccessorType, data []byte) {
	var code string
	other := string("x")
	bad := json.Unmarshal(data, &code)
	_ = json.Unmarshal(data, &other)
	if bad == nil && code == other { // null leaves the target alone
		want, known := specCodeAccessorType(code)
		err := (&u).UnmarshalJSON(data)
		zz.Ensures("C18.read.AccessorType", func() bool { return !known || err == nil && u == want })
		zz.Ensures("C18.unknown.AccessorType", func() bool { return known || err != nil })
	} else {
		_ = (&u).UnmarshalJSON(data)
	}
	_ = v.String()
	_, _ = (&v).MarshalJSON()
}

func init() {
	zz.Register("AccessorTypeValue", Verif_AccessorTypeValue, func(r *zz.R) AccessorType { return AccessorType(r.Intn(70000)) })
	zz.Register("AccessorTypeAny", Verif_AccessorTypeAny, func(r *zz.R) (AccessorType, AccessorType, []byte) {
		return AccessorType(r.Intn(70000)), AccessorType(r.Intn(8)), specGenJSON(r, []string{`"SCALAR"`, `"VEC2"`, `"VEC3"`, `"VEC4"`, `"MAT2"`, `"MAT3"`, `"MAT4"`})
	})
}

// PrimitiveMode

func specCasePrimitiveMode(k int) (v PrimitiveMode, code uint8, name string) {
	switch k {
	case 0:
		return PrimitivePoints, 0, "POINTS"
	case 1:
		return PrimitiveLines, 1, "LINES"
	case 2:
		return PrimitiveLineLoop, 2, "LINE_LOOP"
	case 3:
		return PrimitiveLineStrip, 3, "LINE_STRIP"
	case 4:
		return PrimitiveTriangles, 4, "TRIANGLES"
	case 5:
		return PrimitiveTriangleStrip, 5, "TRIANGLE_STRIP"
	case 6:
		return PrimitiveTriangleFan, 6, "TRIANGLE_FAN"
	}
	return
}

func specCodePrimitiveMode(code uint8) (v PrimitiveMode, known bool) {
	switch code {
	case 0:
		return PrimitivePoints, true
	case 1:
		return PrimitiveLines, true
	case 2:
		return PrimitiveLineLoop, true
	case 3:
		return PrimitiveLineStrip, true
	case 4:
		return PrimitiveTriangles, true
	case 5:
		return PrimitiveTriangleStrip, true
	case 6:
		return PrimitiveTriangleFan, true
	}
	return 0, false
}

//verif:prop C18
//verif:split 7
func Verif_PrimitiveModeValue(u PrimitiveMode) {
	v, code, name := specCasePrimitiveMode(zz.Case())
	text, _ := json.Marshal(code)
	b, err := (&v).MarshalJSON()
	zz.Ensures("C18.code.PrimitiveMode", func() bool { return err == nil && string(b) == string(text) })
	s := v.String()
	zz.Ensures("C18.name.PrimitiveMode", func() bool { return s == name })
	if err == nil {
		err = (&u).UnmarshalJSON(b)
		zz.Ensures("C18.parse.PrimitiveMode", func() bool { return err == nil && u == v })
	}
}

//verif:prop C18
func Verif_PrimitiveModeAny(v, u PrimitiveMode, data []byte) {
	var code uint8
	other := uint8(1)
	bad := json.Unmarshal(data, &code)
	_ = json.Unmarshal(data, &other)
	if bad == nil && code == other { // null leaves the target alone
		want, known := specCodePrimitiveMode(code)
		err := (&u).UnmarshalJSON(data)
		zz.Ensures("C18.read.PrimitiveMode", func() bool { return !known || err == nil && u == want })
	} else {
		_ = (&u).UnmarshalJSON(data)
	}
	_ = v.String()
	_, _ = (&v).MarshalJSON()
}

func init() {
	zz.Register("PrimitiveModeValue", Verif_PrimitiveModeValue, func(r *zz.R) PrimitiveMode { return PrimitiveMode(r.Intn(70000)) })
	zz.Register("PrimitiveModeAny", Verif_PrimitiveModeAny, func(r *zz.R) (PrimitiveMode, PrimitiveMode, []byte) {
		return PrimitiveMode(r.Intn(70000)), PrimitiveMode(r.Intn(8)), specGenJSON(r, []string{`0`, `1`, `2`, `3`, `4`, `5`, `6`})
	})
}

// AlphaMode

func specCaseAlphaMode(k int) (v AlphaMode, code string, name string) {
	switch k {
	case 0:
		return AlphaOpaque, "OPAQUE", "OPAQUE"
	case 1:
		return AlphaMask, "MASK", "MASK"
	case 2:
		return AlphaBlend, "BLEND", "BLEND"
	}
	return
}

func specCodeAlphaMode(code string) (v AlphaMode, known bool) {
	switch code {
	case "OPAQUE":
		return AlphaOpaque, true
	case "MASK":
		return AlphaMask, true
	case "BLEND":
		return AlphaBlend, true
	}
	return 0, false
}

//verif:prop C18
//verif:split 3
func Verif_AlphaModeValue(u AlphaMode) {
	v, code, name := specCaseAlphaMode(zz.Case())
	text, _ := json.Marshal(code)
	b, err := (&v).MarshalJSON()
	zz.Ensures("C18.code.AlphaMode", func() bool { return err == nil && string(b) == string(text) })
	s := v.String()
	zz.Ensures("C18.name.AlphaMode", func() bool { return s == name })
	if err == nil {
		err = (&u).UnmarshalJSON(b)
		zz.Ensures("C18.parse.AlphaMode", func() bool { return err == nil && u == v })
	}
}

//verif:prop C18
func Verif_AlphaModeAny(v, u AlphaMode, data []byte) {
	var code string
	other := string("x")
	bad := json.Unmarshal(data, &code)
	_ = json.Unmarshal(data, &other)
	if bad == nil && code == other { // null leaves the target alone
		want, known := specCodeAlphaMode(code)
		err := (&u).UnmarshalJSON(data)
		zz.Ensures("C18.read.AlphaMode", func() bool { return !known || err == nil && u == want })
	} else {
		_ = (&u).UnmarshalJSON(data)
	}
	_ = v.String()
	_, _ = (&v).MarshalJSON()
}

func init() {
	zz.Register("AlphaModeValue", Verif_AlphaModeValue, func(r *zz.R) AlphaMode { return AlphaMode(r.Intn(70000)) })
	zz.Register("AlphaModeAny", Verif_AlphaModeAny, func(r *zz.R) (AlphaMode, AlphaMode, []byte) {
		return AlphaMode(r.Intn(70000)), AlphaMode(r.Intn(8)), specGenJSON(r, []string{`"OPAQUE"`, `"MASK"`, `"BLEND"`})
	})
}

// MagFilter

func specCaseMagFilter(k int) (v MagFilter, code uint16, name string) {
	switch k {
	case 0:
		return MagLinear, 9729, "LINEAR"
	case 1:
		return MagNearest, 9728, "NEAREST"
	case 2:
		return MagUndefined, 0, "UNDEFINED"
	}
	return
}

func specCodeMagFilter(code uint16) (v MagFilter, known bool) {
	switch code {
	case 9729:
		return MagLinear, true
	case 9728:
		return MagNearest, true
	}
	return 0, false
}

//verif:prop C18
//verif:split 3
func Verif_MagFilterValue(u MagFilter) {
	v, code, name := specCaseMagFilter(zz.Case())
	text, _ := json.Marshal(code)
	b, err := (&v).MarshalJSON()
	zz.Ensures("C18.code.MagFilter", func() bool { return err == nil && (zz.Case() >= 2 || string(b) == string(text)) })
	s := v.String()
	zz.Ensures("C18.name.MagFilter", func() bool { return s == name })
	if err == nil {
		err = (&u).UnmarshalJSON(b)
		zz.Ensures("C18.parse.MagFilter", func() bool { return err == nil && u == v })
	}
}

//verif:prop C18
func Verif_MagFilterAny(v, u MagFilter, data []byte) {
	var code uint16
	other := uint16(1)
	bad := json.Unmarshal(data, &code)
	_ = json.Unmarshal(data, &other)
	if bad == nil && code == other { // null leaves the target alone
		want, known := specCodeMagFilter(code)
		err := (&u).UnmarshalJSON(data)
		zz.Ensures("C18.read.MagFilter", func() bool { return !known || err == nil && u == want })
	} else {
		_ = (&u).UnmarshalJSON(data)
	}
	_ = v.String()
	_, _ = (&v).MarshalJSON()
}

func init() {
	zz.Register("MagFilterValue", Verif_MagFilterValue, func(r *zz.R) MagFilter { return MagFilter(r.Intn(70000)) })
	zz.Register("MagFilterAny", Verif_MagFilterAny, func(r *zz.R) (MagFilter, MagFilter, []byte) {
		return MagFilter(r.Intn(70000)), MagFilter(r.Intn(8)), specGenJSON(r, []string{`9729`, `9728`})
	})
}

// MinFilter

func specCaseMinFilter(k int) (v MinFilter, code uint16, name string) {
	switch k {
	case 0:
		return MinNearest, 9728, "NEAREST"
	case 1:
		return MinLinear, 9729, "LINEAR"
	case 2:
		return MinNearestMipMapNearest, 9984, "NEAREST_MIPMAP_NEAREST"
	case 3:
		return MinLinearMipMapNearest, 9985, "LINEAR_MIPMAP_NEAREST"
	case 4:
		return MinNearestMipMapLinear, 9986, "NEAREST_MIPMAP_LINEAR"
	case 5:
		return MinLinearMipMapLinear, 9987, "LINEAR_MIPMAP_LINEAR"
	case 6:
		return MinUndefined, 0, "UNDEFINED"
	}
	return
}

func specCodeMinFilter(code uint16) (v MinFilter, known bool) {
	switch code {
	case 9728:
		return MinNearest, true
	case 9729:
		return MinLinear, true
	case 9984:
		return MinNearestMipMapNearest, true
	case 9985:
		return MinLinearMipMapNearest, true
	case 9986:
		return MinNearestMipMapLinear, true
	case 9987:
		return MinLinearMipMapLinear, true
	}
	return 0, false
}

//verif:prop C18
//verif:split 7
func Verif_MinFilterValue(u MinFilter) {
	v, code, name := specCaseMinFilter(zz.Case())
	text, _ := json.Marshal(code)
	b, err := (&v).MarshalJSON()
	zz.Ensures("C18.code.MinFilter", func() bool { return err == nil && (zz.Case() >= 6 || string(b) == string(text)) })
	s := v.String()
	zz.Ensures("C18.name.MinFilter", func() bool { return s == name })
	if err == nil {
		err = (&u).UnmarshalJSON(b)
		zz.Ensures("C18.parse.MinFilter", func() bool { return err == nil && u == v })
	}
}

//verif:prop C18
func Verif_MinFilterAny(v, u MinFilter, data []byte) {
	var code uint16
	other := uint16(1)
	bad := json.Unmarshal(data, &code)
	_ = json.Unmarshal(data, &other)
	if bad == nil && code == other { // null leaves the target alone
		want, known := specCodeMinFilter(code)
		err := (&u).UnmarshalJSON(data)
		zz.Ensures("C18.read.MinFilter", func() bool { return !known || err == nil && u == want })
	} else {
		_ = (&u).UnmarshalJSON(data)
	}
	_ = v.String()
	_, _ = (&v).MarshalJSON()
}

func init() {
	zz.Register("MinFilterValue", Verif_MinFilterValue, func(r *zz.R) MinFilter { return MinFilter(r.Intn(70000)) })
	zz.Register("MinFilterAny", Verif_MinFilterAny, func(r *zz.R) (MinFilter, MinFilter, []byte) {
		return MinFilter(r.Intn(70000)), MinFilter(r.Intn(8)), specGenJSON(r, []string{`9728`, `9729`, `9984`, `9985`, `9986`, `9987`})
	})
}

// WrappingMode

func specCaseWrappingMode(k int) (v WrappingMode, code uint16, name string) {
	switch k {
	case 0:
		return WrapClampToEdge, 33071, "CLAMP_TO_EDGE"
	case 1:
		return WrapMirroredRepeat, 33648, "MIRRORED_REPEAT"
	case 2:
		return WrapRepeat, 10497, "REPEAT"
	}
	return
}

func specCodeWrappingMode(code uint16) (v WrappingMode, known bool) {
	switch code {
	case 33071:
		return WrapClampToEdge, true
	case 33648:
		return WrapMirroredRepeat, true
	case 10497:
		return WrapRepeat, true
	}
	return 0, false
}

//verif:prop C18
//verif:split 3
func Verif_WrappingModeValue(u WrappingMode) {
	v, code, name := specCaseWrappingMode(zz.Case())
	text, _ := json.Marshal(code)
	b, err := (&v).MarshalJSON()
	zz.Ensures("C18.code.WrappingMode", func() bool { return err == nil && string(b) == string(text) })
	s := v.String()
	zz.Ensures("C18.name.WrappingMode", func() bool { return s == name })
	if err == nil {
		err = (&u).UnmarshalJSON(b)
		zz.Ensures("C18.parse.WrappingMode", func() bool { return err == nil && u == v })
	}
}

//verif:prop C18
func Verif_WrappingModeAny(v, u WrappingMode, data []byte) {
	var code uint16
	other := uint16(1)
	bad := json.Unmarshal(data, &code)
	_ = json.Unmarshal(data, &other)
	if bad == nil && code == other { // null leaves the target alone
		want, known := specCodeWrappingMode(code)
		err := (&u).UnmarshalJSON(data)
		zz.Ensures("C18.read.WrappingMode", func() bool { return !known || err == nil && u == want })
	} else {
		_ = (&u).UnmarshalJSON(data)
	}
	_ = v.String()
	_, _ = (&v).MarshalJSON()
}

func init() {
	zz.Register("WrappingModeValue", Verif_WrappingModeValue, func(r *zz.R) WrappingMode { return WrappingMode(r.Intn(70000)) })
	zz.Register("WrappingModeAny", Verif_WrappingModeAny, func(r *zz.R) (WrappingMode, WrappingMode, []byte) {
		return WrappingMode(r.Intn(70000)), WrappingMode(r.Intn(8)), specGenJSON(r, []string{`33071`, `33648`, `10497`})
	})
}

// Interpolation

func specCaseInterpolation(k int) (v Interpolation, code string, name string) {
	switch k {
	case 0:
		return InterpolationLinear, "LINEAR", "LINEAR"
	case 1:
		return InterpolationStep, "STEP", "STEP"
	case 2:
		return InterpolationCubicSpline, "CUBICSPLINE", "CUBICSPLINE"
	}
	return
}

func specCodeInterpolation(code string) (v Interpolation, known bool) {
	switch code {
	case "LINEAR":
		return InterpolationLinear, true
	case "STEP":
		return InterpolationStep, true
	case "CUBICSPLINE":
		return InterpolationCubicSpline, true
	}
	return 0, false
}

//verif:prop C18
//verif:split 3
func Verif_InterpolationValue(u Interpolation) {
	v, code, name := specCaseInterpolation(zz.Case())
	text, _ := json.Marshal(code)
	b, err := (&v).MarshalJSON()
	zz.Ensures("C18.code.Interpolation", func() bool { return err == nil && string(b) == string(text) })
	s := v.String()
	zz.Ensures("C18.name.Interpolation", func() bool { return s == name })
	if err == nil {
		err = (&u).UnmarshalJSON(b)
		zz.Ensures("C18.parse.Interpolation", func() bool { return err == nil && u == v })
	}
}

//verif:prop C18
func Verif_InterpolationAny(v, u Interpolation, data []byte) {
	var code string
	other := string("x")
	bad := json.Unmarshal(data, &code)
	_ = json.Unmarshal(data, &other)
	if bad == nil && code == other { // null leaves the target alone
		want, known := specCodeInterpolation(code)
		err := (&u).UnmarshalJSON(data)
		zz.Ensures("C18.read.Interpolation", func() bool { return !known || err == nil && u == want })
	} else {
		_ = (&u).UnmarshalJSON(data)
	}
	_ = v.String()
	_, _ = (&v).MarshalJSON()
}

func init() {
	zz.Register("InterpolationValue", Verif_InterpolationValue, func(r *zz.R) Interpolation { return Interpolation(r.Intn(70000)) })
	zz.Register("InterpolationAny", Verif_InterpolationAny, func(r *zz.R) (Interpolation, Interpolation, []byte) {
		return Interpolation(r.Intn(70000)), Interpolation(r.Intn(8)), specGenJSON(r, []string{`"LINEAR"`, `"STEP"`, `"CUBICSPLINE"`})
	})
}

// TRSProperty

func specCaseTRSProperty(k int) (v TRSProperty, code string, name string) {
	switch k {
	case 0:
		return TRSTranslation, "translation", "translation"
	case 1:
		return TRSRotation, "rotation", "rotation"
	case 2:
		return TRSScale, "scale", "scale"
	case 3:
		return TRSWeights, "weights", "weights"
	}
	return
}

func specCodeTRSProperty(code string) (v TRSProperty, known bool) {
	switch code {
	case "translation":
		return TRSTranslation, true
	case "rotation":
		return TRSRotation, true
	case "scale":
		return TRSScale, true
	case "weights":
		return TRSWeights, true
	}
	return 0, false
}

//verif:prop C18
//verif:split 4
func Verif_TRSPropertyValue(u TRSProperty) {
	v, code, name := specCaseTRSProperty(zz.Case())
	text, _ := json.Marshal(code)
	b, err := (&v).MarshalJSON()
	zz.Ensures("C18.code.TRSProperty", func() bool { return err == nil && string(b) == string(text) })
	s := v.String()
	zz.Ensures("C18.name.TRSProperty", func() bool { return s == name })
	if err == nil {
		err = (&u).UnmarshalJSON(b)
		zz.Ensures("C18.parse.TRSProperty", func() bool { return err == nil && u == v })
	}
}

//verif:prop C18
func Verif_TRSPropertyAny(v, u TRSProperty, data []byte) {
	var code string
	other := string("x")
	bad := json.Unmarshal(data, &code)
	_ = json.Unmarshal(data, &other)
	if bad == nil && code == other { // null leaves the target alone
		want, known := specCodeTRSProperty(code)
		err := (&u).UnmarshalJSON(data)
		zz.Ensures("C18.read.TRSProperty", func() bool { return !known || err == nil && u == want })
	} else {
		_ = (&u).UnmarshalJSON(data)
	}
	_ = v.String()
	_, _ = (&v).MarshalJSON()
}

func init() {
	zz.Register("TRSPropertyValue", Verif_TRSPropertyValue, func(r *zz.R) TRSProperty { return TRSProperty(r.Intn(70000)) })
	zz.Register("TRSPropertyAny", Verif_TRSPropertyAny, func(r *zz.R) (TRSProperty, TRSProperty, []byte) {
		return TRSProperty(r.Intn(70000)), TRSProperty(r.Intn(8)), specGenJSON(r, []string{`"translation"`, `"rotation"`, `"scale"`, `"weights"`})
	})
}

// Target

func specCaseTarget(k int) (v Target, code uint16, name string) {
	switch k {
	case 0:
		return TargetArrayBuffer, 34962, "ARRAY_BUFFER"
	case 1:
		return TargetElementArrayBuffer, 34963, "ELEMENT_ARRAY_BUFFER"
	case 2:
		return TargetNone, 0, "NONE"
	}
	return
}

func specCodeTarget(code uint16) (v Target, known bool) {
	switch code {
	case 34962:
		return TargetArrayBuffer, true
	case 34963:
		return TargetElementArrayBuffer, true
	case 0:
		return TargetNone, true
	}
	return 0, false
}

//verif:prop C18
//verif:split 3
func Verif_TargetValue(u Target) {
	v, code, name := specCaseTarget(zz.Case())
	text, _ := json.Marshal(code)
	b, err := json.Marshal(v)
	zz.Ensures("C18.code.Target", func() bool { return err == nil && string(b) == string(text) })
	s := v.String()
	zz.Ensures("C18.name.Target", func() bool { return s == name })
	if err == nil {
		err = json.Unmarshal(b, &u)
		zz.Ensures("C18.parse.Target", func() bool { return err == nil && u == v })
	}
}

//verif:prop C18
func Verif_TargetAny(v, u Target, data []byte) {
	var code uint16
	other := uint16(1)
	bad := json.Unmarshal(data, &code)
	_ = json.Unmarshal(data, &other)
	if bad == nil && code == other { // null leaves the target alone
		want, known := specCodeTarget(code)
		err := json.Unmarshal(data, &u)
		zz.Ensures("C18.read.Target", func() bool { return !known || err == nil && u == want })
	} else {
		_ = json.Unmarshal(data, &u)
	}
	_ = v.String()
	_, _ = json.Marshal(v)
}

func init() {
	zz.Register("TargetValue", Verif_TargetValue, func(r *zz.R) Target { return Target(r.Intn(70000)) })
	zz.Register("TargetAny", Verif_TargetAny, func(r *zz.R) (Target, Target, []byte) {
		return Target(r.Intn(70000)), Target(r.Intn(8)), specGenJSON(r, []string{`34962`, `34963`, `0`})
	})
}
