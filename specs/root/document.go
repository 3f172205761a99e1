package gltf

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	zz "github.com/qmuntal/gltf/zzverif"
)

// The JSON form of a document, written from the glTF 2.0 schema: the property
// names of every object, ? for a property that is left out when it is unset
// or has its default value. Every object also has extensions and extras.
const specSchemaText = `
Document extensionsUsed? extensionsRequired? accessors? animations? asset buffers? bufferViews? cameras? images? materials? meshes? nodes? samplers? scene? scenes? skins? textures?
Asset copyright? generator? version minVersion?
Accessor name? bufferView? byteOffset? componentType normalized? count type max? min? sparse?
Sparse count indices values
SparseIndices bufferView byteOffset? componentType
SparseValues bufferView byteOffset?
Buffer name? uri? byteLength
BufferView name? buffer byteOffset? byteLength byteStride? target?
Scene name? nodes?
Node name? camera? children? skin? matrix? mesh? rotation? scale? translation? weights?
Skin name? inverseBindMatrices? skeleton? joints
Camera name? orthographic? perspective?
Orthographic xmag ymag zfar znear
Perspective aspectRatio? yfov zfar? znear
Mesh name? primitives weights?
Primitive attributes indices? material? mode? targets?
Material name? pbrMetallicRoughness? normalTexture? occlusionTexture? emissiveTexture? emissiveFactor? alphaMode? alphaCutoff? doubleSided?
NormalTexture index? texCoord? scale?
OcclusionTexture index? texCoord? strength?
PBRMetallicRoughness baseColorFactor? baseColorTexture? metallicFactor? roughnessFactor? metallicRoughnessTexture?
TextureInfo index texCoord?
Texture name? sampler? source?
Sampler name? magFilter? minFilter? wrapS? wrapT?
Image name? uri? mimeType? bufferView?
Animation name? channels samplers
AnimationSampler input interpolation? output
AnimationChannel sampler target
AnimationChannelTarget node? path
`

type specProp struct {
	name  string
	field string
	opt   bool
}

var specSchemaMap map[string][]specProp

func specSchema() map[string][]specProp {
	if specSchemaMap != nil {
		return specSchemaMap
	}
	m := map[string][]specProp{}
	for _, l := range strings.Split(strings.TrimSpace(specSchemaText), "\n") {
		w := strings.Fields(l)
		for _, p := range append(w[1:], "extensions?", "extras?") {
			n := strings.TrimSuffix(p, "?")
			f := strings.ToUpper(n[:1]) + n[1:]
			switch n {
			case "uri":
				f = "URI"
			case "pbrMetallicRoughness":
				f = "PBRMetallicRoughness"
			}
			m[w[0]] = append(m[w[0]], specProp{n, f, n != p})
		}
	}
	specSchemaMap = m
	return m
}

// specDefault is the schema default of a property that has one other than
// zero, in the form the property has in the decoded document.
func specDefault(typ, prop string) any {
	switch typ + "." + prop {
	case "Node.matrix":
		return [16]float64{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}
	case "Node.rotation":
		return [4]float64{0, 0, 0, 1}
	case "Node.scale":
		return [3]float64{1, 1, 1}
	case "Material.alphaCutoff":
		v := 0.5
		return &v
	case "NormalTexture.scale", "OcclusionTexture.strength", "PBRMetallicRoughness.metallicFactor", "PBRMetallicRoughness.roughnessFactor":
		v := 1.0
		return &v
	case "PBRMetallicRoughness.baseColorFactor":
		return &[4]float64{1, 1, 1, 1}
	case "Asset.version":
		return "2.0"
	}
	return nil
}

// specCode gives the schema's number or string for an enumeration value.
func specCode(v any) (any, bool) {
	at := func(i int, xs ...any) (any, bool) { return xs[i], true }
	num := func(i int, xs ...float64) (any, bool) { return xs[i], true }
	switch e := v.(type) {
	case ComponentType:
		return num(int(e), 5126, 5120, 5121, 5122, 5123, 5125)
	case AccessorType:
		return at(int(e), "SCALAR", "VEC2", "VEC3", "VEC4", "MAT2", "MAT3", "MAT4")
	case PrimitiveMode:
		return num(int(e), 4, 0, 1, 2, 3, 5, 6)
	case AlphaMode:
		return at(int(e), "OPAQUE", "MASK", "BLEND")
	case MagFilter:
		return num(int(e), 0, 9729, 9728)
	case MinFilter:
		return num(int(e), 0, 9729, 9986, 9728, 9984, 9985, 9987)
	case WrappingMode:
		return num(int(e), 10497, 33071, 33648)
	case Interpolation:
		return at(int(e), "LINEAR", "STEP", "CUBICSPLINE")
	case TRSProperty:
		return at(int(e), "translation", "rotation", "scale", "weights")
	}
	return nil, false
}

// specJSON is the generic JSON value the schema prescribes for v.
func specJSON(v reflect.Value) any {
	if v.Kind() == reflect.Interface && !v.IsNil() {
		v = v.Elem()
	}
	if c, ok := specCode(v.Interface()); ok {
		return c
	}
	if raw, ok := v.Interface().(json.RawMessage); ok {
		var x any
		if json.Unmarshal(raw, &x) != nil {
			return "invalid"
		}
		return x
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		return specJSON(v.Elem())
	case reflect.Struct:
		ps, ok := specSchema()[v.Type().Name()]
		if !ok {
			panic("no schema for " + v.Type().String())
		}
		m := map[string]any{}
		for _, p := range ps {
			f := v.FieldByName(p.field)
			d := specDefault(v.Type().Name(), p.name)
			if p.opt {
				if f.IsZero() || (f.Kind() == reflect.Slice || f.Kind() == reflect.Map) && f.Len() == 0 {
					continue
				}
				if d != nil && reflect.DeepEqual(f.Interface(), d) {
					continue
				}
			} else if d != nil && f.IsZero() {
				m[p.name] = specJSON(reflect.ValueOf(d))
				continue
			}
			m[p.name] = specJSON(f)
		}
		if v.Type() == reflect.TypeOf(Camera{}) {
			m["type"] = "orthographic"
			if !v.FieldByName("Perspective").IsNil() {
				m["type"] = "perspective"
			}
		}
		return m
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return nil
		}
		l := []any{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, specJSON(v.Index(i)))
		}
		return l
	case reflect.Map:
		m := map[string]any{}
		for _, k := range v.MapKeys() {
			m[k.String()] = specJSON(v.MapIndex(k))
		}
		return m
	case reflect.Interface:
		return nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return float64(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return float64(v.Uint())
	case reflect.Float64, reflect.Float32:
		return v.Float()
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	}
	panic("specJSON " + v.Type().String())
}

// specFill gives v what decoding its encoding must give: unset values become
// the schema defaults.
func specFill(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.Kind() == reflect.Pointer && !v.IsNil() {
			specFill(v.Elem())
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			specFill(v.Index(i))
		}
	case reflect.Struct:
		for _, p := range specSchema()[v.Type().Name()] {
			f := v.FieldByName(p.field)
			if d := specDefault(v.Type().Name(), p.name); d != nil && f.IsZero() {
				f.Set(reflect.ValueOf(d))
			}
			specFill(f)
		}
	}
}

func specCopy(doc *Document) *Document {
	return zz.DeepCopy(doc)
}

// specGen fills v with a valid value.
func specGen(r *zz.R, v reflect.Value, depth int) {
	switch v.Interface().(type) {
	case Extensions:
		if r.Intn(4) == 0 {
			m := Extensions{}
			for i := r.Intn(3); i >= 0; i-- {
				m["ZZ_"+zz.Pick(r, "a", "b", "c\u00e9")] = json.RawMessage(specText(specAny(r, 2)))
			}
			v.Set(reflect.ValueOf(m))
		}
		return
	case PrimitiveAttributes:
		m := PrimitiveAttributes{}
		for i := r.Intn(3); i > 0; i-- {
			m[zz.Pick(r, "POSITION", "NORMAL", "_X", "TEXCOORD_0")] = r.Intn(3)
		}
		v.Set(reflect.ValueOf(m))
		return
	case Camera:
		o, p := reflect.New(reflect.TypeOf(Orthographic{})), reflect.New(reflect.TypeOf(Perspective{}))
		specGen(r, o.Elem(), depth-1)
		specGen(r, p.Elem(), depth-1)
		c := Camera{Name: specString(r)}
		if r.Intn(2) == 0 {
			c.Orthographic = o.Interface().(*Orthographic)
		} else {
			c.Perspective = p.Interface().(*Perspective)
		}
		e := reflect.New(reflect.TypeOf(Extensions(nil))).Elem()
		specGen(r, e, depth)
		c.Extensions = e.Interface().(Extensions)
		v.Set(reflect.ValueOf(c))
		return
	case []*Buffer, []*Image:
		return
	}
	if v.CanUint() {
		if _, ok := v.Interface().(Target); ok {
			v.SetUint(uint64(zz.Pick(r, 0, 34962, 34963)))
			return
		}
		n := 3
		switch v.Interface().(type) {
		case ComponentType:
			n = 6
		case AccessorType, PrimitiveMode, MinFilter:
			n = 7
		case TRSProperty:
			n = 4
		}
		v.SetUint(uint64(r.Intn(n)))
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if depth > 0 && r.Intn(3) > 0 {
			p := reflect.New(v.Type().Elem())
			specGen(r, p.Elem(), depth-1)
			v.Set(p)
		}
	case reflect.Struct:
		for _, p := range specSchema()[v.Type().Name()] {
			f := v.FieldByName(p.field)
			if f.Kind() == reflect.Slice {
				n := r.Intn(3)
				if !p.opt {
					n++
				}
				if n == 0 {
					continue
				}
				f.Set(reflect.MakeSlice(f.Type(), n, n))
				for i := 0; i < n; i++ {
					e := f.Index(i)
					if e.Kind() == reflect.Pointer {
						e.Set(reflect.New(e.Type().Elem()))
						e = e.Elem()
					}
					specGen(r, e, depth)
				}
				if _, ok := f.Interface().([]*Buffer); ok {
					f.Set(reflect.Zero(f.Type()))
				}
				continue
			}
			specGen(r, f, depth)
		}
	case reflect.Array:
		d := zz.Pick(r, -1, 0, 1, 2)
		for i := 0; i < v.Len(); i++ {
			x := specFloat(r)
			switch {
			case d == 0:
				x = 0
			case d == 1 && v.Len() == 16:
				x = float64(1 - (i%5+4)/5)
			case d == 1 && v.Len() == 4:
				x = float64(i / 3)
			case d >= 1:
				x = 1
			}
			v.Index(i).SetFloat(x)
		}
		if r.Intn(3) == 0 {
			v.Index(r.Intn(v.Len())).SetFloat(specFloat(r))
		}
	case reflect.Int:
		v.SetInt(int64(zz.Pick(r, 0, 0, 1, 2, 3, 100, 65536, 1<<31, 1<<40)))
	case reflect.Float64:
		v.SetFloat(specFloat(r))
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.String:
		v.SetString(specString(r))
	case reflect.Interface:
		if r.Intn(4) == 0 {
			v.Set(reflect.ValueOf(specAny(r, 2)))
		}
	}
}

func specFloat(r *zz.R) float64 {
	return zz.Pick(r, 0, 0, 1, 1, 0.5, -1, 0.1, 2, 1e-30, 1e21, float64(r.Intn(1000))/7, -r.Float64(), 0.49999999999999994)
}

func specString(r *zz.R) string {
	return zz.Pick(r, "", "", "a", "x y", "\u00e9\u4e16", "q\"\\/\n", "null", "<&>", fmt.Sprint("n", r.Intn(9)))
}

func specAny(r *zz.R, depth int) any {
	k := r.Intn(6)
	if depth == 0 && k > 3 {
		k -= 3
	}
	switch k {
	case 0:
		return specFloat(r)
	case 1:
		return specString(r)
	case 2:
		return r.Intn(2) == 0
	case 3:
		return zz.Pick[any](r, 1.0, "s", []any{}, map[string]any{}, "\"scale\":1", `,"scale":[1,1]`)
	case 4:
		l := []any{}
		for i := r.Intn(3); i > 0; i-- {
			l = append(l, specAny(r, depth-1))
		}
		return l
	}
	m := map[string]any{}
	for i := r.Intn(3); i > 0; i-- {
		m[zz.Pick(r, "k", "scale", "offset", "name", "uri", "z\u00e9")] = specAny(r, depth-1)
	}
	return m
}

func specText(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// specDoc generates a valid document. Its external buffers have different
// plain names.
func specDoc(r *zz.R) *Document {
	doc := &Document{}
	if r.Intn(8) == 0 {
		doc = NewDocument()
	} else {
		specGen(r, reflect.ValueOf(doc).Elem(), zz.Pick(r, 1, 2, 5, 5))
		// keep one or two of the lists so that the documents stay small
		v := reflect.ValueOf(doc).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Kind() == reflect.Slice && r.Intn(3) > 0 {
				v.Field(i).Set(reflect.Zero(v.Field(i).Type()))
			}
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		b := &Buffer{Name: specString(r), Data: r.Bytes(1 + r.Intn(9))}
		b.ByteLength = len(b.Data)
		if r.Intn(8) == 0 {
			b.Extensions = Extensions{"ZZ_b": json.RawMessage(`{"x":1}`)}
			b.Extras = 3.0
		}
		switch r.Intn(3) {
		case 0:
			b.URI = fmt.Sprintf("%sb%d.bin", zz.Pick(r, "", "d/"), len(doc.Buffers))
		case 1:
			b.URI = "data:application/octet-stream;base64," + base64.StdEncoding.EncodeToString(b.Data)
		}
		doc.Buffers = append(doc.Buffers, b)
	}
	for i := r.Intn(3); i > 0; i-- {
		im := &Image{Name: specString(r), URI: zz.Pick(r, "", "i.png", "d/i.png", "data:image/png;base64,AAEC", "http://h/p?q=1"), MimeType: zz.Pick(r, "", "image/png")}
		if r.Intn(2) == 0 {
			im.BufferView = Index(r.Intn(3))
		}
		doc.Images = append(doc.Images, im)
	}
	return doc
}

// specWire is what is written for doc: buffers that have bytes and no URI
// carry them in a data URI, except the first one of a binary file.
func specWire(doc *Document, binary bool) *Document {
	d := specCopy(doc)
	for i, b := range d.Buffers {
		if b != nil && b.URI == "" && len(b.Data) > 0 && !(binary && i == 0) {
			b.URI = "data:application/octet-stream;base64," + base64.StdEncoding.EncodeToString(b.Data)
		}
	}
	return d
}

func specDiff(a, b any) string {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return fmt.Sprintf("got:  %s\nwant: %s\n", x, y)
}

// Encoding to JSON gives exactly the schema's object; decoding gives the
// document back; indentation only adds white space.

//verif:prop C17
//verif:bounded 12000 random valid documents that use every object, property and enumeration of the format, lists of up to 3 elements, JSON and binary
func Verif_DocumentRoundTrip(doc *Document, asBinary bool, prefix, indent string) {
	want := specJSON(reflect.ValueOf(specWire(doc, asBinary)))
	ref := specCopy(doc)
	fsys := &specFS{files: map[string][]byte{}}
	var out, plain bytes.Buffer
	e := NewEncoderFS(&out, fsys)
	e.AsBinary = asBinary
	e.SetJSONIndent(prefix, indent)
	err := e.Encode(doc)
	zz.Ensures("C17.encode.ok", func() bool { return err == nil })
	text, bin := out.Bytes(), []byte(nil)
	if asBinary {
		text, bin = specSplit(out.Bytes())
	}
	var got any
	jerr := json.Unmarshal(text, &got)
	same := jerr == nil && reflect.DeepEqual(got, want)
	if !same {
		zz.Note = specDiff(got, want)
	}
	zz.Ensures("C17.schema", func() bool { return same })
	p := NewEncoder(&plain)
	p.AsBinary = asBinary
	perr := p.Encode(specCopy(ref))
	ptext := plain.Bytes()
	if asBinary {
		ptext, _ = specSplit(plain.Bytes())
	}
	var c1, c2 bytes.Buffer
	zz.Ensures("C17.indent", func() bool {
		return perr == nil && json.Compact(&c1, text) == nil && json.Compact(&c2, ptext) == nil && bytes.Equal(c1.Bytes(), c2.Bytes())
	})
	full := specWire(ref, asBinary)
	specFill(reflect.ValueOf(full))
	_ = bin
	back := new(Document)
	derr := NewDecoderFS(bytes.NewReader(out.Bytes()), fsys).Decode(back)
	zz.Ensures("C17.decode.ok", func() bool { return derr == nil })
	eq := reflect.DeepEqual(specPlain(back), specPlain(full))
	if derr == nil && !eq {
		zz.Note = specDiff(back, full)
	}
	zz.Ensures("C17.roundtrip", func() bool { return derr != nil || eq })
	zz.Ensures("C17.roundtrip.buffers", func() bool {
		for i := range back.Buffers {
			if derr == nil && !bytes.Equal(back.Buffers[i].Data, full.Buffers[i].Data) {
				return false
			}
		}
		return true
	})
}

// specPlain drops what reflect.DeepEqual is too strict about.
func specPlain(doc *Document) *Document {
	d := specCopy(doc)
	for _, b := range d.Buffers {
		if b != nil {
			b.Data = nil
		}
	}
	specRaw(reflect.ValueOf(d))
	return d
}

// specRaw gives raw JSON texts their canonical form.
func specRaw(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			specRaw(v.Elem())
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			specRaw(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			specRaw(v.Field(i))
		}
	case reflect.Map:
		if m, ok := v.Interface().(Extensions); ok {
			for k, e := range m {
				if raw, ok := e.(json.RawMessage); ok {
					var x any
					if json.Unmarshal(raw, &x) == nil {
						m[k] = json.RawMessage(specText(x))
					}
				}
			}
		}
	}
}

// specSplit takes the JSON text and the BIN bytes out of a binary file.
func specSplit(b []byte) (text, bin []byte) {
	le := func(o int) int {
		if o+4 > len(b) {
			return -1
		}
		return int(b[o]) | int(b[o+1])<<8 | int(b[o+2])<<16 | int(b[o+3])<<24
	}
	n := le(12)
	if n < 0 || 20+n > len(b) {
		return nil, nil
	}
	text = b[20 : 20+n]
	if m := le(20 + n); m >= 0 && 28+n+m <= len(b) {
		bin = b[28+n : 28+n+m]
	}
	return
}

func specKeys(m map[string][]byte) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func init() {
	zz.Register("DocumentRoundTrip", Verif_DocumentRoundTrip, func(r *zz.R) (*Document, bool, string, string) {
		return specDoc(r), r.Intn(2) == 0, zz.Pick(r, "", "", " ", "\t"), zz.Pick(r, "", "", "  ", "\t")
	})
}
