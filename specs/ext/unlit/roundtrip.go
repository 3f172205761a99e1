package unlit

import (
	"encoding/json"
	"fmt"

	"github.com/qmuntal/gltf"
	zz "github.com/qmuntal/gltf/zzverif"
)

//verif:prop C24
//verif:bounded 20000 unlit objects of up to four members with JSON values nested two deep, by pointer and by value, alone and in an extensions object
func Verif_UnlitRoundTrip(u Unlit, ptr bool) {
	old := zz.DeepCopy(u)
	var val any = u
	if ptr {
		val = &u
	}
	b, err := json.Marshal(val)
	zz.Note = string(b)
	zz.Ensures("C24.unlit.pure", func() bool { return zz.Same(u, old) })
	want := map[string]any{}
	for k, v := range old {
		want[k] = v
	}
	got, ok := zz.JSONObject(b)
	zz.Ensures("C24.unlit.schema", func() bool { return err == nil && ok && zz.JSONEqual(got, want) })
	same := func(v any) bool {
		n, ok := v.(*Unlit)
		if !ok || n == nil || len(*n) != len(want) {
			return false
		}
		for k, w := range want {
			m, ok := (*n)[k]
			if !ok {
				return false
			}
			b, err := json.Marshal(m)
			if err != nil {
				return false
			}
			var x any
			if json.Unmarshal(b, &x) != nil || !zz.JSONEqual(x, w) {
				return false
			}
		}
		return true
	}
	v, err := Unmarshal(b)
	zz.Ensures("C24.unlit.roundtrip", func() bool { return err == nil && same(v) })
	b, err = json.Marshal(gltf.Extensions{"KHR_materials_unlit": val})
	var ext gltf.Extensions
	if err == nil {
		err = json.Unmarshal(b, &ext)
	}
	zz.Note += fmt.Sprint(" ", string(b), err)
	zz.Ensures("C24.unlit.extension", func() bool { return err == nil && len(ext) == 1 && same(ext["KHR_materials_unlit"]) })
}

func init() {
	zz.Register("UnlitRoundTrip", Verif_UnlitRoundTrip, func(r *zz.R) (Unlit, bool) {
		u := Unlit{}
		for i := r.Intn(5); i > 0; i-- {
			u[zz.Pick(r, "a", "extras", "extensions", "\u00e9", "", "a\"b")] = r.JSON(2)
		}
		return u, r.Intn(2) == 0
	})
}
