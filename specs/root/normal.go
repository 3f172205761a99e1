package gltf

import zz "github.com/qmuntal/gltf/zzverif"

// Normalization, decided in the theory of IEEE-754 floating point: the
// denormalized value is v/limit (not below -1) correctly rounded to float32,
// the normalized one the nearest integer. v*limit is exact in float64.

//verif:prop C25
//verif:fp
func Verif_DenormalizeByte(v int8) {
	f := DenormalizeByte(v)
	want := float32(v) / 127
	if want < -1 {
		want = -1
	}
	zz.Ensures("C25.denormalize.byte", func() bool { return f == want })
	zz.Ensures("C25.range.byte", func() bool { return f >= -1 && f <= 1 })
	w := NormalizeByte(f)
	zz.Ensures("C25.inverse.byte", func() bool { return w == v || v == -128 && w == -127 })
}

//verif:prop C25
//verif:fp
func Verif_NormalizeByte(v float32) {
	zz.Requires(v >= -1 && v <= 1)
	n := NormalizeByte(v)
	d := float64(n) - float64(v)*127
	zz.Ensures("C25.nearest.byte", func() bool { return d >= -0.5 && d <= 0.5 })
}

func init() {
	zz.Register("DenormalizeByte", Verif_DenormalizeByte, func(r *zz.R) int8 { return int8(r.Iter()) })
	zz.Register("NormalizeByte", Verif_NormalizeByte, func(r *zz.R) float32 { return specGenUnit(r, 127, -1) })
}

//verif:prop C25
//verif:fp
func Verif_DenormalizeUbyte(v uint8) {
	f := DenormalizeUbyte(v)
	want := float32(v) / 255
	zz.Ensures("C25.denormalize.ubyte", func() bool { return f == want })
	zz.Ensures("C25.range.ubyte", func() bool { return f >= 0 && f <= 1 })
	w := NormalizeUbyte(f)
	zz.Ensures("C25.inverse.ubyte", func() bool { return w == v })
}

//verif:prop C25
//verif:fp
func Verif_NormalizeUbyte(v float32) {
	zz.Requires(v >= 0 && v <= 1)
	n := NormalizeUbyte(v)
	d := float64(n) - float64(v)*255
	zz.Ensures("C25.nearest.ubyte", func() bool { return d >= -0.5 && d <= 0.5 })
}

func init() {
	zz.Register("DenormalizeUbyte", Verif_DenormalizeUbyte, func(r *zz.R) uint8 { return uint8(r.Iter()) })
	zz.Register("NormalizeUbyte", Verif_NormalizeUbyte, func(r *zz.R) float32 { return specGenUnit(r, 255, 0) })
}

//verif:prop C25
//verif:fp
func Verif_DenormalizeShort(v int16) {
	f := DenormalizeShort(v)
	want := float32(v) / 32767
	if want < -1 {
		want = -1
	}
	zz.Ensures("C25.denormalize.short", func() bool { return f == want })
	zz.Ensures("C25.range.short", func() bool { return f >= -1 && f <= 1 })
	w := NormalizeShort(f)
	zz.Ensures("C25.inverse.short", func() bool { return w == v || v == -32768 && w == -32767 })
}

//verif:prop C25
//verif:fp
func Verif_NormalizeShort(v float32) {
	zz.Requires(v >= -1 && v <= 1)
	n := NormalizeShort(v)
	d := float64(n) - float64(v)*32767
	zz.Ensures("C25.nearest.short", func() bool { return d >= -0.5 && d <= 0.5 })
}

func init() {
	zz.Register("DenormalizeShort", Verif_DenormalizeShort, func(r *zz.R) int16 { return int16(r.Iter()) })
	zz.Register("NormalizeShort", Verif_NormalizeShort, func(r *zz.R) float32 { return specGenUnit(r, 32767, -1) })
}

//verif:prop C25
//verif:fp
func Verif_DenormalizeUshort(v uint16) {
	f := DenormalizeUshort(v)
	want := float32(v) / 65535
	zz.Ensures("C25.denormalize.ushort", func() bool { return f == want })
	zz.Ensures("C25.range.ushort", func() bool { return f >= 0 && f <= 1 })
	w := NormalizeUshort(f)
	zz.Ensures("C25.inverse.ushort", func() bool { return w == v })
}

//verif:prop C25
//verif:fp
func Verif_NormalizeUshort(v float32) {
	zz.Requires(v >= 0 && v <= 1)
	n := NormalizeUshort(v)
	d := float64(n) - float64(v)*65535
	zz.Ensures("C25.nearest.ushort", func() bool { return d >= -0.5 && d <= 0.5 })
}

func init() {
	zz.Register("DenormalizeUshort", Verif_DenormalizeUshort, func(r *zz.R) uint16 { return uint16(r.Iter()) })
	zz.Register("NormalizeUshort", Verif_NormalizeUshort, func(r *zz.R) float32 { return specGenUnit(r, 65535, 0) })
}

// specGenUnit is a float in [lo, 1], often next to a rounding boundary.
func specGenUnit(r *zz.R, lim int, lo float32) float32 {
	var v float32
	switch r.Intn(4) {
	case 0:
		v = r.Float32()
	case 1:
		v = float32(r.Intn(lim+1)) / float32(lim)
	case 2:
		v = (float32(r.Intn(lim+1)) + 0.5) / float32(lim)
	default:
		v = float32(r.Intn(1<<24)) / (1 << 24)
	}
	if lo < 0 && r.Intn(2) == 0 {
		v = -v
	}
	return v
}
