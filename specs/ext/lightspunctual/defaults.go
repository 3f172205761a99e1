package lightspunctual

import (
	"math"

	zz "github.com/qmuntal/gltf/zzverif"
)

//verif:prop C19
//verif:contract Spot.OuterConeAngleOrDefault
func Verif_OuterConeAngleOrDefault(o *Spot) {
	zz.Requires(o != nil)
	snap := zz.Snapshot().Watch(o)
	p := o.OuterConeAngle
	v := o.OuterConeAngleOrDefault()
	zz.Ensures("C19.cone.set", func() bool { return p == nil || zz.Same(v, *p) })
	zz.Ensures("C19.cone.unset", func() bool { return p != nil || v == math.Pi/4 })
	snap.Unchanged("C19.cone.pure")
}

//verif:prop C19
//verif:contract Light.IntensityOrDefault
func Verif_IntensityOrDefault(o *Light) {
	zz.Requires(o != nil)
	snap := zz.Snapshot().Watch(o)
	p := o.Intensity
	v := o.IntensityOrDefault()
	zz.Ensures("C19.intensity.set", func() bool { return p == nil || zz.Same(v, *p) })
	zz.Ensures("C19.intensity.unset", func() bool { return p != nil || v == 1 })
	snap.Unchanged("C19.intensity.pure")
}

//verif:prop C19
//verif:contract Light.ColorOrDefault
func Verif_ColorOrDefault(o *Light) {
	zz.Requires(o != nil)
	snap := zz.Snapshot().Watch(o)
	p := o.Color
	v := o.ColorOrDefault()
	zz.Ensures("C19.color.set", func() bool { return p == nil || zz.Same(v, *p) })
	zz.Ensures("C19.color.unset", func() bool { return p != nil || zz.Same(v, [3]float64{1, 1, 1}) })
	snap.Unchanged("C19.color.pure")
}

func specOpt(r *zz.R) *float64 {
	f := zz.Pick(r, 0.0, 1, 0.5, -1, 2, math.Pi/4, 0.3)
	if r.Intn(4) == 0 {
		return nil
	}
	return &f
}

func init() {
	zz.Register("OuterConeAngleOrDefault", Verif_OuterConeAngleOrDefault, func(r *zz.R) *Spot {
		return &Spot{InnerConeAngle: float64(r.Intn(2)), OuterConeAngle: specOpt(r)}
	})
	zz.Register("IntensityOrDefault", Verif_IntensityOrDefault, func(r *zz.R) *Light {
		return &Light{Intensity: specOpt(r), Range: specOpt(r)}
	})
	zz.Register("ColorOrDefault", Verif_ColorOrDefault, func(r *zz.R) *Light {
		l := &Light{Intensity: specOpt(r)}
		if r.Intn(3) > 0 {
			l.Color = &[3]float64{}
			l.Color[r.Intn(3)] = zz.Pick(r, 0.0, 1, 0.5)
		}
		return l
	})
}
