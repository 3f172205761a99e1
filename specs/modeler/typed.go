package modeler

import (
	"fmt"
	"math"
	"reflect"

	"github.com/qmuntal/gltf"
	zz "github.com/qmuntal/gltf/zzverif"
)

// specReader describes one typed reader: the component and accessor types it
// takes and the conversion of an element.
type specReader struct {
	comps []gltf.ComponentType
	types []gltf.AccessorType
	call  func(doc *gltf.Document, acr *gltf.Accessor, n int) (any, error)
}

func specCall[T any](f func(*gltf.Document, *gltf.Accessor, []T) ([]T, error)) func(*gltf.Document, *gltf.Accessor, int) (any, error) {
	return func(doc *gltf.Document, acr *gltf.Accessor, n int) (any, error) {
		var buf []T
		if n >= 0 {
			// what the buffer held before must not matter
			buf = make([]T, n, n+n/2)
			for i := range buf[:cap(buf)] {
				b := reflect.ValueOf(&buf[:cap(buf)][i]).Elem()
				specDirty(b)
			}
		}
		r, err := f(doc, acr, buf)
		if err != nil {
			return nil, err
		}
		return r, nil
	}
}

func specDirty(v reflect.Value) {
	switch v.Kind() {
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			specDirty(v.Index(i))
		}
	case reflect.Float32:
		v.SetFloat(-77)
	default:
		v.SetUint(0xA5)
	}
}

func specReaders() []specReader {
	const ub, us, ui, fl = gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentUint, gltf.ComponentFloat
	const sc, v2, v3, v4, m4 = gltf.AccessorScalar, gltf.AccessorVec2, gltf.AccessorVec3, gltf.AccessorVec4, gltf.AccessorMat4
	type cs = []gltf.ComponentType
	type ts = []gltf.AccessorType
	return []specReader{
		{cs{ub, us, ui}, ts{sc}, specCall(ReadIndices)},
		{cs{fl}, ts{v3}, specCall(ReadNormal)},
		{cs{fl}, ts{v4}, specCall(ReadTangent)},
		{cs{ub, us, fl}, ts{v2}, specCall(ReadTextureCoord)},
		{cs{ub, us, fl}, ts{v4}, specCall(ReadWeights)},
		{cs{ub, us}, ts{v4}, specCall(ReadJoints)},
		{cs{fl}, ts{v3}, specCall(ReadPosition)},
		{cs{ub, us, fl}, ts{v3, v4}, specCall(ReadColor)},
		{cs{ub, us, fl}, ts{v3, v4}, specCall(ReadColor64)},
		{cs{fl}, ts{m4}, specCall(ReadInverseBindMatrices)},
	}
}

// specFlat lists the components of an element.
func specFlat(v reflect.Value) (c []float64) {
	switch v.Kind() {
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c = append(c, specFlat(v.Index(i))...)
		}
		return c
	case reflect.Float32:
		return []float64{v.Float()}
	case reflect.Int8, reflect.Int16:
		return []float64{float64(v.Int())}
	}
	return []float64{float64(v.Uint())}
}

func specNear(a, b float64) bool { return a == b || a-b < 2e-7 && b-a < 2e-7 }

//verif:prop C07
//verif:bounded 60000 random documents of up to 20 elements, every reader with every component and accessor type, caller buffers absent, shorter, longer and dirty
func Verif_TypedReaders(doc *gltf.Document, acr *gltf.Accessor, k, n int) {
	rd := specReaders()[k]
	allowed := false
	for _, c := range rd.comps {
		for _, t := range rd.types {
			allowed = allowed || acr.ComponentType == c && acr.Type == t
		}
	}
	raw, rerr := ReadAccessor(doc, acr, nil)
	got, err := rd.call(doc, acr, n)
	zz.Note = fmt.Sprint("reader ", k, " got ", got, err, " raw ", raw, rerr)
	zz.Ensures("C07.accepts", func() bool { return (err == nil) == (allowed && rerr == nil) })
	if err != nil {
		return
	}
	g, e := reflect.ValueOf(got), reflect.ValueOf(raw)
	zz.Ensures("C07.count", func() bool { return g.Len() == acr.Count && e.Len() == acr.Count })
	for i := 0; i < acr.Count; i++ {
		want := specFlat(e.Index(i))
		have := specFlat(g.Index(i))
		same, conv := true, true
		switch k {
		case 3, 4: // texture coordinates, weights
			max := map[gltf.ComponentType]float64{gltf.ComponentUbyte: 255, gltf.ComponentUshort: 65535, gltf.ComponentFloat: 0}[acr.ComponentType]
			for j := range want {
				if max == 0 {
					same = same && zz.Same(float32(have[j]), float32(want[j]))
				} else {
					conv = conv && specNear(have[j], want[j]/max)
				}
			}
		case 7, 8:
			top := 255.0
			if k == 8 {
				top = 65535
			}
			if len(want) == 3 {
				zz.Ensures("C07.alpha", func() bool { return have[3] == top })
			}
			switch acr.ComponentType {
			case gltf.ComponentFloat:
				specFloatColor(want, have, k)
				continue
			case gltf.ComponentUshort:
				if k == 7 {
					for j, v := range want {
						scaled := v * 255 / 65535
						ok := have[j]-scaled <= 1 && scaled-have[j] <= 1
						low := have[j] == float64(uint8(uint16(v)))
						zz.Ensures("C07.color.ushort", func() bool { return ok })
						zz.Ensures("C07.color.ushort.channel", func() bool { return ok || low })
					}
					continue
				}
			case gltf.ComponentUbyte:
				if k == 8 {
					for j := range want {
						conv = conv && have[j] == want[j]*257
					}
					break
				}
			}
			if k == 7 || acr.ComponentType == gltf.ComponentUshort {
				for j := range want {
					same = same && have[j] == want[j]
				}
			}
		default:
			for j := range want {
				same = same && (have[j] == want[j] || zz.Same(float32(have[j]), float32(want[j])))
			}
			same = same && len(have) == len(want)
		}
		zz.Ensures("C07.kept", func() bool { return same })
		zz.Ensures("C07.converted", func() bool { return conv })
	}
}

// specFloatColor: a float colour is encoded like the package's normalization.
func specFloatColor(want, have []float64, k int) {
	var c [4]float32
	for j, v := range want {
		c[j] = float32(v)
		if !(v >= 0 && v <= 1) {
			return
		}
	}
	var enc []float64
	switch {
	case k == 7 && len(want) == 3:
		enc = specFlat(reflect.ValueOf(gltf.NormalizeRGB([3]float32(c[:3]))))
	case k == 7:
		enc = specFlat(reflect.ValueOf(gltf.NormalizeRGBA(c)))
	case len(want) == 3:
		enc = specFlat(reflect.ValueOf(gltf.NormalizeRGB64([3]float32(c[:3]))))
	default:
		enc = specFlat(reflect.ValueOf(gltf.NormalizeRGBA64(c)))
	}
	zz.Ensures("C07.color.float", func() bool { return reflect.DeepEqual(have[:len(enc)], enc) })
}

func init() {
	zz.Register("TypedReaders", Verif_TypedReaders, func(r *zz.R) (*gltf.Document, *gltf.Accessor, int, int) {
		k := r.Intn(10)
		rd := specReaders()[k]
		c, t := zz.Pick(r, rd.comps...), zz.Pick(r, rd.types...)
		if r.Intn(4) == 0 {
			c = gltf.ComponentType(r.Intn(8))
		}
		if r.Intn(4) == 0 {
			t = gltf.AccessorType(r.Intn(9))
		}
		d := &gltf.Document{}
		acr := specFillDoc(r, d, c, t)
		if c == gltf.ComponentFloat && k >= 7 && k < 9 && acr.BufferView != nil && r.Intn(4) > 0 {
			specUnitFloats(r, d, acr)
		}
		return d, acr, k, zz.Pick(r, -1, 0, 1, r.Intn(8), r.Intn(60))
	})
}

// specUnitFloats puts numbers between zero and one in the accessor's bytes.
func specUnitFloats(r *zz.R, d *gltf.Document, acr *gltf.Accessor) {
	if !specHasView(d, *acr.BufferView) {
		return
	}
	b := specViewBytes(d, *acr.BufferView)
	n := 4 * (3 + int(acr.Type-gltf.AccessorVec3))
	e := specStride(d.BufferViews[*acr.BufferView].ByteStride, n)
	if e < n || e > 1000 {
		return
	}
	for i := 0; i < acr.Count && i < 100; i++ {
		for j := 0; j < n; j += 4 {
			if o := acr.ByteOffset + i*e + j; o >= 0 && o <= len(b)-4 {
				v := zz.Pick(r, 0, 1, 0.5, r.Unit())
				specPutFloat(b[o:], v)
			}
		}
	}
}

func specPutFloat(b []byte, v float32) {
	u := math.Float32bits(v)
	b[0], b[1], b[2], b[3] = byte(u), byte(u>>8), byte(u>>16), byte(u>>24)
}

// The cases of ReadAccessor whose proof is left to the thorough tier, checked
// at run time against the same contract.

//verif:prop C05 C06 C08
//verif:bounded 30000 random documents with up to 20 elements of 3x3 or 4x4 matrices, well formed and not
func Verif_ReadAccessorMatrices(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) {
	sn := zz.DeepCopy(doc)
	Verif_ReadAccessor(doc, acr, buffer)
	zz.Ensures("C08.matrices.frame", func() bool { return zz.Same(doc, sn) })
}

func init() {
	zz.Register("ReadAccessorMatrices", Verif_ReadAccessorMatrices, func(r *zz.R) (*gltf.Document, *gltf.Accessor, []byte) {
		d := &gltf.Document{}
		c := zz.Pick(r, gltf.ComponentByte, gltf.ComponentUbyte, gltf.ComponentShort, gltf.ComponentUshort, gltf.ComponentUint, gltf.ComponentFloat)
		a := specFillDoc(r, d, c, zz.Pick(r, gltf.AccessorMat3, gltf.AccessorMat4))
		return d, a, zz.Pick(r, nil, r.Bytes(3), r.Bytes(64), r.Bytes(4000))
	})
}
