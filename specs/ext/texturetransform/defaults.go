package texturetransform

import zz "github.com/qmuntal/gltf/zzverif"

//verif:prop C19
//verif:contract TextureTranform.ScaleOrDefault
func Verif_TransformScaleOrDefault(o *TextureTranform) {
	zz.Requires(o != nil)
	snap := zz.Snapshot().Watch(o)
	old := *o
	v := o.ScaleOrDefault()
	zz.Ensures("C19.transform.set", func() bool { return old.Scale[0] == 0 && old.Scale[1] == 0 || zz.Same(v, old.Scale) })
	zz.Ensures("C19.transform.unset", func() bool {
		return old.Scale[0] != 0 || old.Scale[1] != 0 || zz.Same(v, [2]float64{1, 1})
	})
	snap.Unchanged("C19.transform.pure")
}

func init() {
	zz.Register("TransformScaleOrDefault", Verif_TransformScaleOrDefault, func(r *zz.R) *TextureTranform {
		t := &TextureTranform{}
		t.Scale[r.Intn(2)] = zz.Pick(r, 0.0, 1, 0.5)
		t.Offset[r.Intn(2)] = zz.Pick(r, 0.0, 1, 0.5)
		return t
	})
}
