package lightspunctual

import (
	"encoding/json"
	"fmt"
	"math"

	"github.com/qmuntal/gltf"
	zz "github.com/qmuntal/gltf/zzverif"
)

func specSchemaOf(l *Light) (want map[string]any, opt map[string]bool, spot map[string]any, spotOpt map[string]bool) {
	want = map[string]any{"type": l.Type, "name": l.Name}
	opt = map[string]bool{"name": l.Name == ""}
	if l.Color != nil {
		want["color"] = []any{l.Color[0], l.Color[1], l.Color[2]}
		opt["color"] = *l.Color == [3]float64{1, 1, 1}
	}
	if l.Intensity != nil {
		want["intensity"] = *l.Intensity
		opt["intensity"] = *l.Intensity == 1
	}
	if l.Range != nil && !math.IsInf(*l.Range, 1) {
		want["range"] = *l.Range
	}
	if l.Spot != nil {
		want["spot"] = nil
		spot = map[string]any{"innerConeAngle": l.Spot.InnerConeAngle}
		spotOpt = map[string]bool{"innerConeAngle": l.Spot.InnerConeAngle == 0}
		if o := l.Spot.OuterConeAngle; o != nil {
			spot["outerConeAngle"] = *o
			spotOpt["outerConeAngle"] = *o == math.Pi/4
		}
	}
	return
}

func specSameLight(a, n *Light) bool {
	if a == nil || n == nil {
		return a == n
	}
	rng := func(l *Light) float64 {
		if l.Range == nil {
			return math.Inf(1)
		}
		return *l.Range
	}
	if a.Type != n.Type || a.Name != n.Name || rng(a) != rng(n) || (a.Spot == nil) != (n.Spot == nil) {
		return false
	}
	ac, ai := [3]float64{1, 1, 1}, 1.0
	if a.Color != nil {
		ac = *a.Color
	}
	if a.Intensity != nil {
		ai = *a.Intensity
	}
	if n.ColorOrDefault() != ac || n.IntensityOrDefault() != ai {
		return false
	}
	if a.Spot == nil {
		return true
	}
	outer := math.Pi / 4
	if a.Spot.OuterConeAngle != nil {
		outer = *a.Spot.OuterConeAngle
	}
	return a.Spot.InnerConeAngle == n.Spot.InnerConeAngle && n.Spot.OuterConeAngleOrDefault() == outer
}

//verif:prop C24
//verif:bounded 12000 lists of up to three lights, unset and default and other values of every field, alone and in a document's extensions object
func Verif_LightsRoundTrip(ls Lights) {
	old := zz.DeepCopy(ls)
	b, err := json.Marshal(ls)
	zz.Note = string(b)
	zz.Ensures("C24.lights.pure", func() bool { return zz.Same(ls, old) })
	got, ok := zz.JSONObject(b)
	zz.Ensures("C24.lights.valid", func() bool { return err == nil && ok })
	list, _ := got["lights"].([]any)
	zz.Ensures("C24.lights.list", func() bool { return len(got) == 1 && len(list) == len(old) })
	for i, l := range old {
		g, _ := list[i].(map[string]any)
		want, opt, spot, spotOpt := specSchemaOf(l)
		zz.Ensures("C24.lights.schema", func() bool { return zz.JSONWithin(g, want, opt, map[string]bool{"spot": true}) })
		if spot != nil {
			s, _ := g["spot"].(map[string]any)
			zz.Ensures("C24.lights.spot", func() bool { return s != nil && zz.JSONWithin(s, spot, spotOpt, nil) })
		}
	}
	same := func(v any) bool {
		n, ok := v.(Lights)
		if !ok || len(n) != len(old) {
			return false
		}
		for i := range n {
			if !specSameLight(old[i], n[i]) {
				return false
			}
		}
		return true
	}
	v, err := Unmarshal(b)
	zz.Ensures("C24.lights.roundtrip", func() bool { return err == nil && same(v) })
	b, err = json.Marshal(gltf.Extensions{"KHR_lights_punctual": ls})
	var ext gltf.Extensions
	if err == nil {
		err = json.Unmarshal(b, &ext)
	}
	zz.Note += fmt.Sprint(" ", string(b), err)
	zz.Ensures("C24.lights.extension", func() bool { return err == nil && len(ext) == 1 && same(ext["KHR_lights_punctual"]) })
}

//verif:prop C24
//verif:bounded 5000 light indices, zero and large ones included
func Verif_LightIndexRoundTrip(i LightIndex) {
	b, err := json.Marshal(i)
	zz.Note = string(b)
	got, ok := zz.JSONObject(b)
	zz.Ensures("C24.index.schema", func() bool {
		return err == nil && ok && len(got) == 1 && zz.JSONEqual(got["light"], float64(i))
	})
	v, err := Unmarshal(b)
	zz.Ensures("C24.index.roundtrip", func() bool { n, ok := v.(LightIndex); return err == nil && ok && n == i })
	b, err = json.Marshal(gltf.Extensions{"KHR_lights_punctual": i})
	var ext gltf.Extensions
	if err == nil {
		err = json.Unmarshal(b, &ext)
	}
	zz.Ensures("C24.index.extension", func() bool {
		n, ok := ext["KHR_lights_punctual"].(LightIndex)
		return err == nil && len(ext) == 1 && ok && n == i
	})
}

func init() {
	num := func(r *zz.R) *float64 {
		v := zz.Pick(r, 1, 0, math.Pi/4, r.Number())
		if r.Intn(3) == 0 {
			return nil
		}
		return &v
	}
	zz.Register("LightsRoundTrip", Verif_LightsRoundTrip, func(r *zz.R) Lights {
		ls := Lights{}
		for i := r.Intn(4); i > 0; i-- {
			l := &Light{Type: zz.Pick(r, TypePoint, TypeSpot, TypeDirectional, "", "x\"\u00e9"), Name: zz.Pick(r, "", "n", "\"color\":[1,1,1]"), Intensity: num(r), Range: num(r)}
			if r.Intn(4) == 0 {
				v := math.Inf(1)
				l.Range = &v
			}
			if r.Intn(3) > 0 {
				l.Color = &[3]float64{1, 1, 1}
				l.Color[r.Intn(3)] = zz.Pick(r, 1, 0, r.Number())
			}
			if r.Intn(2) == 0 {
				l.Spot = &Spot{OuterConeAngle: num(r), InnerConeAngle: zz.Pick(r, 0, math.Pi/4, r.Number())}
			}
			ls = append(ls, l)
		}
		return ls
	})
	zz.Register("LightIndexRoundTrip", Verif_LightIndexRoundTrip, func(r *zz.R) LightIndex {
		return LightIndex(zz.Pick(r, 0, 1, r.Intn(100), int(r.Wild()>>12)))
	})
}
