package texturetransform

import (
	"encoding/json"
	"fmt"

	"github.com/qmuntal/gltf"
	zz "github.com/qmuntal/gltf/zzverif"
)

//verif:prop C24
//verif:bounded 20000 texture transforms over a table of numbers, every combination of defaulted fields, by pointer and by value, alone and in an extensions object
func Verif_TransformRoundTrip(t *TextureTranform, ptr bool) {
	old := zz.DeepCopy(t)
	var val any = t
	if !ptr {
		val = *t
	}
	b, err := json.Marshal(val)
	zz.Note = string(b)
	zz.Ensures("C24.transform.pure", func() bool { return zz.Same(*t, *old) })
	zz.Ensures("C24.transform.valid", func() bool { return err == nil && json.Valid(b) })
	want := map[string]any{"offset": []any{old.Offset[0], old.Offset[1]}, "rotation": old.Rotation, "scale": []any{old.Scale[0], old.Scale[1]}}
	opt := map[string]bool{"offset": old.Offset == [2]float64{}, "rotation": old.Rotation == 0,
		"scale": old.Scale == [2]float64{} || old.Scale == [2]float64{1, 1}}
	if old.TexCoord != nil {
		want["texCoord"] = float64(*old.TexCoord)
	}
	got, ok := zz.JSONObject(b)
	zz.Ensures("C24.transform.schema", func() bool { return ok && zz.JSONWithin(got, want, opt, nil) })
	same := func(v any) bool {
		n, ok := v.(*TextureTranform)
		if !ok || n == nil || n.Offset != old.Offset || n.Rotation != old.Rotation {
			return false
		}
		scale := old.Scale
		if scale == [2]float64{} {
			scale = [2]float64{1, 1}
		}
		if n.ScaleOrDefault() != scale || (n.TexCoord == nil) != (old.TexCoord == nil) {
			return false
		}
		return n.TexCoord == nil || *n.TexCoord == *old.TexCoord
	}
	v, err := Unmarshal(b)
	zz.Ensures("C24.transform.roundtrip", func() bool { return err == nil && same(v) })
	b, err = json.Marshal(gltf.Extensions{"KHR_texture_transform": val})
	var ext gltf.Extensions
	if err == nil {
		err = json.Unmarshal(b, &ext)
	}
	zz.Note += fmt.Sprint(" ", string(b), err)
	zz.Ensures("C24.transform.extension", func() bool { return err == nil && len(ext) == 1 && same(ext["KHR_texture_transform"]) })
}

func init() {
	zz.Register("TransformRoundTrip", Verif_TransformRoundTrip, func(r *zz.R) (*TextureTranform, bool) {
		t := &TextureTranform{}
		for i := range t.Offset {
			t.Offset[i] = zz.Pick(r, 0, 0, 1, r.Number())
			t.Scale[i] = zz.Pick(r, 0, 0, 1, 1, 11, r.Number())
		}
		t.Rotation = zz.Pick(r, 0, r.Number())
		if r.Intn(3) == 0 {
			n := zz.Pick(r, 0, 1, 7, int(r.Wild()>>12))
			t.TexCoord = &n
		}
		return t, r.Intn(4) > 0
	})
}
