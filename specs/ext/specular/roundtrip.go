package specular

import (
	"encoding/json"
	"fmt"

	"github.com/qmuntal/gltf"
	zz "github.com/qmuntal/gltf/zzverif"
)

func specTexture(i *gltf.TextureInfo) map[string]any {
	m := map[string]any{"index": float64(i.Index), "texCoord": float64(i.TexCoord), "extras": i.Extras}
	e := map[string]any{}
	for k, v := range i.Extensions {
		var x any
		if err := json.Unmarshal(v.(json.RawMessage), &x); err != nil {
			panic(err)
		}
		e[k] = x
	}
	m["extensions"] = e
	return m
}

func specTextureOpt(i *gltf.TextureInfo) map[string]bool {
	return map[string]bool{"texCoord": i.TexCoord == 0, "extras": i.Extras == nil, "extensions": len(i.Extensions) == 0}
}

func specSameTexture(a, b *gltf.TextureInfo) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Index != b.Index || a.TexCoord != b.TexCoord || !zz.JSONEqual(a.Extras, b.Extras) || len(a.Extensions) != len(b.Extensions) {
		return false
	}
	for k, v := range a.Extensions {
		w, ok := b.Extensions[k].(json.RawMessage)
		if !ok || string(v.(json.RawMessage)) != string(w) {
			return false
		}
	}
	return true
}

//verif:prop C24
//verif:bounded 12000 specular-glossiness values over a table of numbers, every combination of unset, default and other factors, textures with extras and unknown extensions
func Verif_SpecularRoundTrip(p *PBRSpecularGlossiness, ptr bool) {
	old := zz.DeepCopy(p)
	var val any = p
	if !ptr {
		val = *p
	}
	b, err := json.Marshal(val)
	zz.Note = string(b)
	zz.Ensures("C24.specular.pure", func() bool { return zz.Same(*p, *old) })
	got, ok := zz.JSONObject(b)
	zz.Ensures("C24.specular.valid", func() bool { return err == nil && ok })
	want, opt, skip := map[string]any{}, map[string]bool{}, map[string]bool{}
	diffuse, spec, gloss := [4]float64{1, 1, 1, 1}, [3]float64{1, 1, 1}, 1.0
	if d := old.DiffuseFactor; d != nil {
		diffuse = *d
		want["diffuseFactor"] = []any{d[0], d[1], d[2], d[3]}
		opt["diffuseFactor"] = *d == [4]float64{1, 1, 1, 1}
	}
	if d := old.SpecularFactor; d != nil {
		spec = *d
		want["specularFactor"] = []any{d[0], d[1], d[2]}
		opt["specularFactor"] = *d == [3]float64{1, 1, 1}
	}
	if d := old.GlossinessFactor; d != nil {
		gloss = *d
		want["glossinessFactor"] = *d
		opt["glossinessFactor"] = *d == 1
	}
	for k, i := range map[string]*gltf.TextureInfo{"diffuseTexture": old.DiffuseTexture, "specularGlossinessTexture": old.SpecularGlossinessTexture} {
		if i == nil {
			continue
		}
		want[k], skip[k] = nil, true
		g, _ := got[k].(map[string]any)
		zz.Ensures("C24.specular.texture", func() bool { return zz.JSONWithin(g, specTexture(i), specTextureOpt(i), nil) })
	}
	zz.Ensures("C24.specular.schema", func() bool { return zz.JSONWithin(got, want, opt, skip) })
	same := func(v any) bool {
		n, ok := v.(*PBRSpecularGlossiness)
		if !ok || n == nil {
			return false
		}
		return (n.DiffuseFactor != nil && *n.DiffuseFactor == diffuse) &&
			(n.SpecularFactor != nil && *n.SpecularFactor == spec) &&
			(n.GlossinessFactor != nil && *n.GlossinessFactor == gloss) &&
			specSameTexture(old.DiffuseTexture, n.DiffuseTexture) && specSameTexture(old.SpecularGlossinessTexture, n.SpecularGlossinessTexture)
	}
	v, err := Unmarshal(b)
	zz.Ensures("C24.specular.roundtrip", func() bool { return err == nil && same(v) })
	b, err = json.Marshal(gltf.Extensions{"KHR_materials_pbrSpecularGlossiness": val})
	var ext gltf.Extensions
	if err == nil {
		err = json.Unmarshal(b, &ext)
	}
	zz.Note += fmt.Sprint(" ", string(b), err)
	zz.Ensures("C24.specular.extension", func() bool {
		return err == nil && len(ext) == 1 && same(ext["KHR_materials_pbrSpecularGlossiness"])
	})
}

func init() {
	texture := func(r *zz.R) *gltf.TextureInfo {
		if r.Intn(2) == 0 {
			return nil
		}
		t := &gltf.TextureInfo{Index: r.Intn(9), TexCoord: r.Intn(3)}
		if r.Intn(2) == 0 {
			t.Extras = r.JSON(2)
		}
		if r.Intn(3) == 0 {
			b, err := json.Marshal(r.JSON(2))
			if err != nil {
				panic(err)
			}
			t.Extensions = gltf.Extensions{zz.Pick(r, "ZZ_a", "ZZ_\u00e9"): json.RawMessage(b)}
		}
		return t
	}
	num := func(r *zz.R) float64 { return zz.Pick(r, 1, 1, 1, 0, r.Number()) }
	zz.Register("SpecularRoundTrip", Verif_SpecularRoundTrip, func(r *zz.R) (*PBRSpecularGlossiness, bool) {
		p := &PBRSpecularGlossiness{DiffuseTexture: texture(r), SpecularGlossinessTexture: texture(r)}
		if r.Intn(3) > 0 {
			p.DiffuseFactor = &[4]float64{num(r), num(r), num(r), num(r)}
		}
		if r.Intn(3) > 0 {
			p.SpecularFactor = &[3]float64{num(r), num(r), num(r)}
		}
		if r.Intn(3) > 0 {
			g := num(r)
			p.GlossinessFactor = &g
		}
		return p, r.Intn(4) > 0
	})
}
