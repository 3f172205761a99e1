package gltf

import (
	"fmt"

	zz "github.com/qmuntal/gltf/zzverif"
)

//verif:prop C26
//verif:bounded 40000 all 256 8-bit values in every channel (first 1024 runs), then random colours
func Verif_Color8(v [4]uint8, lower [4]uint8, i int) {
	rgba := DenormalizeRGBA(v)
	rgb := DenormalizeRGB([3]uint8(v[:3]))
	specColor(v[:], rgba[:], rgb[:], 255)
	back := NormalizeRGBA(rgba)
	back3 := NormalizeRGB(rgb)
	zz.Note = fmt.Sprint(v, rgba, rgb, back, back3)
	specBack(v[:], back[:], back3[:])
	// each channel is a function of that channel alone
	w := v
	w[i] = lower[i]
	o, ob := DenormalizeRGBA(w), NormalizeRGBA(DenormalizeRGBA(w))
	o3 := DenormalizeRGB([3]uint8(w[:3]))
	specApartFrom(i, rgba[:], o[:], rgb[:], o3[:])
	for j := range back {
		zz.Ensures("C26.independent.back", func() bool { return j == i || back[j] == ob[j] })
	}
	zz.Ensures("C26.monotonic", func() bool {
		return w[i] == v[i] || (w[i] < v[i]) == (o[i] < rgba[i]) && o[i] != rgba[i]
	})
	zz.Ensures("C26.monotonic.back", func() bool { return !(w[i] < v[i]) || ob[i] <= back[i] })
}

//verif:prop C26
//verif:bounded 100000 all 65536 16-bit values in every channel (first 65536 runs), then random colours
func Verif_Color16(v [4]uint16, lower [4]uint16, i int) {
	rgba := DenormalizeRGBA64(v)
	rgb := DenormalizeRGB64([3]uint16(v[:3]))
	specColor(v[:], rgba[:], rgb[:], 65535)
	back := NormalizeRGBA64(rgba)
	back3 := NormalizeRGB64(rgb)
	zz.Note = fmt.Sprint(v, rgba, rgb, back, back3)
	specBack(v[:], back[:], back3[:])
	w := v
	w[i] = lower[i]
	o, ob := DenormalizeRGBA64(w), NormalizeRGBA64(DenormalizeRGBA64(w))
	o3 := DenormalizeRGB64([3]uint16(w[:3]))
	specApartFrom(i, rgba[:], o[:], rgb[:], o3[:])
	for j := range back {
		zz.Ensures("C26.independent.back", func() bool { return j == i || back[j] == ob[j] })
	}
	zz.Ensures("C26.monotonic", func() bool {
		return w[i] == v[i] || (w[i] < v[i]) == (o[i] < rgba[i]) && o[i] != rgba[i]
	})
	zz.Ensures("C26.monotonic.back", func() bool { return !(w[i] < v[i]) || ob[i] <= back[i] })
}

//verif:prop C26
//verif:bounded 100000 pairs of linear colours between zero and one: monotonic encoding, RGB and RGBA variants alike, in range
func Verif_ColorFloat(v [4]float32, w [4]float32) {
	a, b := NormalizeRGBA(v), NormalizeRGBA(w)
	a3 := NormalizeRGB([3]float32(v[:3]))
	c, d := NormalizeRGBA64(v), NormalizeRGBA64(w)
	c3 := NormalizeRGB64([3]float32(v[:3]))
	zz.Note = fmt.Sprint(a, a3, b, c, c3, d)
	for i := range v {
		if i < 3 {
			zz.Ensures("C26.float.agree", func() bool { return a[i] == a3[i] && c[i] == c3[i] })
		}
		zz.Ensures("C26.float.monotonic", func() bool {
			return (v[i] > w[i] || a[i] <= b[i] && c[i] <= d[i]) && (v[i] < w[i] || a[i] >= b[i] && c[i] >= d[i])
		})
		zz.Ensures("C26.float.ends", func() bool {
			return (v[i] != 0 || a[i] == 0 && c[i] == 0) && (v[i] != 1 || a[i] == 255 && c[i] == 65535)
		})
	}
}

func specColor[T uint8 | uint16](v []T, rgba, rgb []float32, top T) {
	for i, f := range rgba {
		zz.Ensures("C26.range", func() bool { return f >= 0 && f <= 1 })
		zz.Ensures("C26.ends", func() bool { return (v[i] != 0 || f == 0) && (v[i] != top || f == 1) })
		if i < 3 {
			zz.Ensures("C26.agree", func() bool { return f == rgb[i] })
		}
	}
}

func specBack[T uint8 | uint16](v, back, back3 []T) {
	for i := range v {
		zz.Ensures("C26.roundtrip", func() bool {
			d := int(v[i]) - int(back[i])
			return d >= -1 && d <= 1
		})
		if i < 3 {
			zz.Ensures("C26.roundtrip.rgb", func() bool {
				d := int(v[i]) - int(back3[i])
				return d >= -1 && d <= 1 && back3[i] == back[i]
			})
		}
		zz.Ensures("C26.roundtrip.ends", func() bool {
			return (v[i] != 0 || back[i] == 0) && (v[i] != ^T(0) || back[i] == ^T(0))
		})
	}
}

func specApartFrom(i int, rgba, o, rgb, o3 []float32) {
	for j := range rgba {
		zz.Ensures("C26.independent", func() bool { return j == i || rgba[j] == o[j] && (j == 3 || rgb[j] == o3[j]) })
	}
}

func init() {
	zz.Register("Color8", Verif_Color8, func(r *zz.R) (v, w [4]uint8, i int) {
		for j := range v {
			v[j], w[j] = uint8(r.Intn(256)), uint8(r.Intn(256))
		}
		i = r.Intn(4)
		if n := r.Iter(); n < 1024 {
			i = n / 256
			v[i], w[i] = uint8(n), uint8(n-1)
		}
		return
	})
	zz.Register("Color16", Verif_Color16, func(r *zz.R) (v, w [4]uint16, i int) {
		for j := range v {
			v[j], w[j] = uint16(r.Intn(65536)), uint16(r.Intn(65536))
		}
		i = r.Intn(4)
		if n := r.Iter(); n < 65536 {
			for j := range v {
				v[j] = uint16(n + j*20011)
			}
			w[i] = v[i] - 1
		}
		return
	})
	zz.Register("ColorFloat", Verif_ColorFloat, func(r *zz.R) (v, w [4]float32) {
		for j := range v {
			v[j] = zz.Pick(r, 0, 1, 0.0031308, 0.003130799, r.Unit(), r.Unit()/256)
			w[j] = zz.Pick(r, 0, 1, 0.0031308, v[j], r.Unit(), v[j]*0.9999999)
		}
		return
	})
}
