package modeler

import (
	"fmt"
	"image/color"
	"math"
	"reflect"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/binary"
	zz "github.com/qmuntal/gltf/zzverif"
)

// specTypeOf gives the component type, accessor type and element size of a
// slice the package can write.
func specTypeOf(v any) (c gltf.ComponentType, t gltf.AccessorType, n int) {
	rt := reflect.TypeOf(v).Elem()
	n = reflect.ValueOf(v).Len()
	switch v.(type) {
	case []color.RGBA:
		return gltf.ComponentUbyte, gltf.AccessorVec4, n
	case []color.RGBA64:
		return gltf.ComponentUshort, gltf.AccessorVec4, n
	}
	t = gltf.AccessorScalar
	if rt.Kind() == reflect.Array {
		l := rt.Len()
		if rt.Elem().Kind() == reflect.Array {
			t = []gltf.AccessorType{0, 0, gltf.AccessorMat2, gltf.AccessorMat3, gltf.AccessorMat4}[l]
			rt = rt.Elem().Elem()
		} else {
			t = []gltf.AccessorType{0, 0, gltf.AccessorVec2, gltf.AccessorVec3, gltf.AccessorVec4}[l]
			rt = rt.Elem()
		}
	}
	c = map[reflect.Kind]gltf.ComponentType{reflect.Int8: gltf.ComponentByte, reflect.Uint8: gltf.ComponentUbyte,
		reflect.Int16: gltf.ComponentShort, reflect.Uint16: gltf.ComponentUshort, reflect.Uint32: gltf.ComponentUint,
		reflect.Float32: gltf.ComponentFloat}[rt.Kind()]
	return
}

// specSameElements compares data with what was read back.
func specSameElements(data, got any) bool {
	switch d := data.(type) {
	case []color.RGBA:
		g, ok := got.([][4]uint8)
		for i := range d {
			ok = ok && len(g) == len(d) && g[i] == [4]uint8{d[i].R, d[i].G, d[i].B, d[i].A}
		}
		return ok
	case []color.RGBA64:
		g, ok := got.([][4]uint16)
		for i := range d {
			ok = ok && len(g) == len(d) && g[i] == [4]uint16{d[i].R, d[i].G, d[i].B, d[i].A}
		}
		return ok
	}
	return reflect.TypeOf(data) == reflect.TypeOf(got) && zz.Same(data, got)
}

func specData(r *zz.R, n int) any {
	kinds := []any{[]int8{}, [][2]int8{}, [][3]int8{}, [][4]int8{}, []uint8{}, [][2]uint8{}, [][3]uint8{}, [][4]uint8{},
		[]int16{}, [][2]int16{}, [][3]int16{}, [][4]int16{}, []uint16{}, [][2]uint16{}, [][3]uint16{}, [][4]uint16{},
		[]uint32{}, [][2]uint32{}, [][3]uint32{}, [][4]uint32{}, []float32{}, [][2]float32{}, [][3]float32{}, [][4]float32{},
		[][2][2]uint8{}, [][3][3]uint8{}, [][4][4]int8{}, [][2][2]int16{}, [][3][3]uint16{}, [][4][4]float32{}, [][3][3]float32{}, [][2][2]float32{},
		[]color.RGBA{}, []color.RGBA64{}}
	return specSlice(r, kinds[r.Intn(len(kinds))], n)
}

func specSlice(r *zz.R, kind any, n int) any {
	s := reflect.MakeSlice(reflect.TypeOf(kind), n, n)
	for i := 0; i < n; i++ {
		specNumber(r, s.Index(i))
	}
	return s.Interface()
}

func specNumber(r *zz.R, v reflect.Value) {
	switch v.Kind() {
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			specNumber(r, v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			specNumber(r, v.Field(i))
		}
	case reflect.Float32:
		v.SetFloat(float64(zz.Pick(r, 0, 1, -1, math.MaxFloat32, -math.MaxFloat32, 1e-45, -1e-45, float32(r.Intn(2000)-1000)/8, r.Float32Finite())))
	case reflect.Int8, reflect.Int16:
		v.SetInt(r.Wild())
	default:
		v.SetUint(uint64(r.Wild()))
	}
}

// specStart is a document with something in it already.
func specStart(r *zz.R) *gltf.Document {
	d := &gltf.Document{}
	for i := r.Intn(3); i > 0; i-- {
		b := r.Bytes(r.Intn(23))
		d.Buffers = append(d.Buffers, &gltf.Buffer{Data: b, ByteLength: len(b)})
	}
	for i := r.Intn(3); i > 0 && len(d.Buffers) > 0; i-- {
		d.BufferViews = append(d.BufferViews, &gltf.BufferView{Buffer: 0})
		d.Accessors = append(d.Accessors, &gltf.Accessor{Count: 1})
	}
	return d
}

// specGrown checks that doc is old with one interleaved view and one accessor
// per element of data, in order, each of which reads back as its data.
func specGrown(label string, doc, old *gltf.Document, data []any, indices []int) {
	zz.Ensures(label+".indices", func() bool {
		if len(indices) != len(data) || len(doc.Accessors) != len(old.Accessors)+len(data) {
			return false
		}
		for i, a := range indices {
			if a != len(old.Accessors)+i {
				return false
			}
		}
		return true
	})
	zz.Ensures(label+".existing", func() bool {
		ok := len(doc.BufferViews) == len(old.BufferViews)+1
		for i := range old.Accessors {
			ok = ok && zz.Same(doc.Accessors[i], old.Accessors[i])
		}
		for i := range old.BufferViews {
			ok = ok && zz.Same(doc.BufferViews[i], old.BufferViews[i])
		}
		for i := range old.Buffers {
			n := len(old.Buffers[i].Data)
			ok = ok && len(doc.Buffers[i].Data) >= n && string(doc.Buffers[i].Data[:n]) == string(old.Buffers[i].Data) &&
				(i == len(old.Buffers)-1 || len(doc.Buffers[i].Data) == n)
		}
		return ok
	})
	stride, count := 0, -1
	for _, d := range data {
		c, t, n := specTypeOf(d)
		stride += gltf.SpecElementSize(c, t)
		count = n
	}
	last := doc.Buffers[len(doc.Buffers)-1]
	bv := doc.BufferViews[len(doc.BufferViews)-1]
	zz.Ensures(label+".view", func() bool {
		vs := bv.ByteStride
		if len(data) == 1 && vs == 0 {
			vs = stride // one tightly packed attribute
		}
		return bv.Buffer == len(doc.Buffers)-1 && bv.ByteOffset >= 0 && bv.ByteOffset%4 == 0 &&
			vs == stride && bv.ByteLength == stride*count && bv.ByteOffset+bv.ByteLength == len(last.Data) && last.ByteLength == len(last.Data)
	})
	off := 0
	for i, d := range data {
		a := doc.Accessors[indices[i]]
		c, t, n := specTypeOf(d)
		zz.Ensures(label+".accessor", func() bool {
			return a.BufferView != nil && *a.BufferView == len(doc.BufferViews)-1 && a.ByteOffset == off && a.ComponentType == c && a.Type == t && a.Count == n && a.Sparse == nil
		})
		off += gltf.SpecElementSize(c, t)
		got, err := ReadAccessor(doc, a, nil)
		zz.Ensures(label+".back", func() bool { return n == 0 || err == nil && specSameElements(d, got) })
	}
}

//verif:prop C11
//verif:bounded 30000 starting documents of up to two buffers, up to five attributes of every writable element type, up to nine elements, equal and unequal lengths
func Verif_Interleaved(doc *gltf.Document, data []any) {
	old, keep := zz.DeepCopy(doc), zz.DeepCopy(data)
	equal := true
	for _, d := range data {
		_, _, n := specTypeOf(d)
		_, _, m := specTypeOf(data[0])
		equal = equal && n == m
	}
	indices, err := WriteAccessorsInterleaved(doc, data...)
	zz.Note = fmt.Sprint(indices, err)
	zz.Ensures("C11.error", func() bool { return (err == nil) == equal })
	zz.Ensures("C11.data", func() bool { return zz.Same(data, keep) })
	if err != nil {
		zz.Ensures("C11.refused", func() bool { return zz.Same(doc.Accessors, old.Accessors) && zz.Same(doc.BufferViews, old.BufferViews) })
		return
	}
	if len(data) > 0 {
		specGrown("C11", doc, old, data, indices)
	}
}

var specAttrs = []string{gltf.POSITION, gltf.NORMAL, gltf.TANGENT, gltf.TEXCOORD_0, gltf.TEXCOORD_1, gltf.WEIGHTS_0, gltf.JOINTS_0, gltf.COLOR_0, "_CUSTOM"}

// specAttr: whether name takes data of this type, and the normalized flag.
func specAttr(name string, data any) (ok, normalized bool) {
	c, t, _ := specTypeOf(data)
	f, ub, us := c == gltf.ComponentFloat, c == gltf.ComponentUbyte, c == gltf.ComponentUshort
	in := f || ub || us
	switch name {
	case gltf.POSITION:
		return f && t == gltf.AccessorVec3, false
	case gltf.TEXCOORD_0, gltf.TEXCOORD_1:
		return in && t == gltf.AccessorVec2, !f
	case gltf.WEIGHTS_0:
		return in && t == gltf.AccessorVec4, !f
	case gltf.JOINTS_0:
		return (ub || us) && t == gltf.AccessorVec4, false
	case gltf.COLOR_0:
		return in && (t == gltf.AccessorVec3 || t == gltf.AccessorVec4), !f
	}
	return true, false
}

//verif:prop C11
//verif:bounded 30000 starting documents, up to nine attributes in any order, empty and missing data, allowed and other element types, unequal lengths
func Verif_PrimitiveAttributes(doc *gltf.Document, names []string, data []any) {
	old := zz.DeepCopy(doc)
	var attrs []PrimitiveAttribute
	var used []any
	var usedNames []string
	ok, equal := true, true
	for i, n := range names {
		attrs = append(attrs, PrimitiveAttribute{Name: n, Data: data[i]})
		if data[i] == nil || reflect.ValueOf(data[i]).Len() == 0 {
			continue
		}
		used = append(used, data[i])
		usedNames = append(usedNames, n)
		good, _ := specAttr(n, data[i])
		if c, isC := data[i].([]color.RGBA); isC && n != gltf.COLOR_0 {
			good = good && c == nil || n == gltf.NORMAL || n == gltf.TANGENT || n == "_CUSTOM"
		}
		if c, isC := data[i].([]color.RGBA64); isC && n != gltf.COLOR_0 {
			good = good && c == nil || n == gltf.NORMAL || n == gltf.TANGENT || n == "_CUSTOM"
		}
		ok = ok && good
		equal = equal && reflect.ValueOf(data[i]).Len() == reflect.ValueOf(used[0]).Len()
	}
	got, err := WritePrimitiveAttributes(doc, attrs...)
	zz.Note = fmt.Sprint(got, err)
	zz.Ensures("C11.attr.error", func() bool { return (err == nil) == (ok && equal) })
	if err != nil {
		zz.Ensures("C11.attr.refused", func() bool { return zz.Same(doc.Accessors, old.Accessors) && zz.Same(doc.BufferViews, old.BufferViews) })
		return
	}
	var indices []int
	zz.Ensures("C11.attr.names", func() bool {
		for i, n := range usedNames {
			v, ok := got[n]
			if !ok {
				return false
			}
			indices = append(indices, v)
			_, norm := specAttr(n, used[i])
			a := doc.Accessors[v]
			if a.Normalized != norm {
				return false
			}
			if n == gltf.POSITION {
				lo, hi := specBounds(used[i].([][3]float32))
				if !specSameBounds(a.Min, lo) || !specSameBounds(a.Max, hi) {
					return false
				}
			} else if a.Min != nil || a.Max != nil {
				return false
			}
		}
		return len(got) == len(usedNames)
	})
	if len(used) > 0 && len(indices) == len(used) {
		specGrown("C11.attr", doc, old, used, indices)
	}
}

// specBounds finds the extremes by comparing each value with all others.
func specBounds(p [][3]float32) (lo, hi [3]float64) {
	for k := 0; k < 3; k++ {
		for _, v := range p {
			low, high := true, true
			for _, w := range p {
				low, high = low && v[k] <= w[k], high && v[k] >= w[k]
			}
			if low {
				lo[k] = float64(v[k])
			}
			if high {
				hi[k] = float64(v[k])
			}
		}
	}
	return
}

func specSameBounds(a []float64, b [3]float64) bool {
	return len(a) == 3 && a[0] == b[0] && a[1] == b[1] && a[2] == b[2]
}

//verif:prop C12
//verif:bounded 60000 lists of up to 40 positions of every sign, magnitude and order, the extremes in any place, written alone and with other attributes
func Verif_PositionBounds(p [][3]float32, doc *gltf.Document, how int) {
	var i int
	if how == 0 {
		i = WritePosition(doc, p)
	} else {
		uv := make([][2]float32, len(p))
		attrs := []PrimitiveAttribute{{Name: gltf.TEXCOORD_0, Data: uv}, {Name: gltf.POSITION, Data: p}, {Name: gltf.NORMAL, Data: p}}
		if how == 2 {
			attrs = attrs[1:2]
		}
		m, err := WritePrimitiveAttributes(doc, attrs...)
		zz.Ensures("C12.attr", func() bool { return err == nil })
		i = m[gltf.POSITION]
	}
	lo, hi := specBounds(p)
	a := doc.Accessors[i]
	zz.Note = fmt.Sprint(a.Min, a.Max, lo, hi)
	zz.Ensures("C12.min", func() bool { return specSameBounds(a.Min, lo) })
	zz.Ensures("C12.max", func() bool { return specSameBounds(a.Max, hi) })
}

var _ = binary.SpecCase

func init() {
	zz.Register("Interleaved", Verif_Interleaved, func(r *zz.R) (*gltf.Document, []any) {
		n := r.Intn(zz.Pick(r, 10, 10, 10, 300))
		data := []any{}
		for i := r.Intn(6); i > 0; i-- {
			m := n
			if r.Intn(20) == 0 {
				m = r.Intn(10)
			}
			data = append(data, specData(r, m))
		}
		return specStart(r), data
	})
	zz.Register("PrimitiveAttributes", Verif_PrimitiveAttributes, func(r *zz.R) (*gltf.Document, []string, []any) {
		n := 1 + r.Intn(zz.Pick(r, 9, 9, 9, 300))
		var names []string
		var data []any
		odd := r.Intn(4) == 0
		for _, i := range r.Perm(len(specAttrs)) {
			if r.Intn(2) == 0 {
				continue
			}
			m, d := n, any(nil)
			if r.Intn(12) == 0 {
				m = 0
			}
			if odd && r.Intn(8) == 0 {
				m = r.Intn(9)
			}
			for {
				d = specData(r, m)
				if m == 0 && r.Intn(2) == 0 {
					d = nil
				}
				if d == nil || odd && r.Intn(10) == 0 {
					break
				}
				_, isA := d.([]color.RGBA)
				_, isB := d.([]color.RGBA64)
				if ok, _ := specAttr(specAttrs[i], d); ok && (!isA && !isB || i >= 7) {
					break
				}
			}
			names = append(names, specAttrs[i])
			data = append(data, d)
		}
		return specStart(r), names, data
	})
	zz.Register("PositionBounds", Verif_PositionBounds, func(r *zz.R) ([][3]float32, *gltf.Document, int) {
		if r.Intn(3) == 0 {
			// longer lists of moderate values with each extreme at a place of its own
			p := make([][3]float32, 1+r.Intn(zz.Pick(r, 10, 70, 70, 70, 70, 300, zz.Pick(r, 300, 1100, 1+r.Intn(80)/79*70000))))
			mid := float32(r.Intn(2001)-1000) * 10
			for i := range p {
				for k := range p[i] {
					p[i][k] = mid + float32(r.Intn(2000))/8
				}
			}
			for k := 0; k < 3; k++ {
				at := zz.Pick(r, 0, len(p)-1, r.Intn(len(p)))
				p[at][k] = mid + zz.Pick(r, float32(-1), 1)*(250+float32(r.Intn(9)))
			}
			return p, specStart(r), r.Intn(3)
		}
		p := make([][3]float32, 1+r.Intn(zz.Pick(r, 1, 3, 40)))
		sign := r.Intn(3)
		for i := range p {
			for k := range p[i] {
				v := zz.Pick(r, 0, 1, math.MaxFloat32, -math.MaxFloat32, 1e-45, 3, float32(r.Intn(2000)-1000)/8, r.Float32Finite())
				if sign == 0 {
					v = float32(math.Abs(float64(v)))
				} else if sign == 1 {
					v = -float32(math.Abs(float64(v)))
				}
				p[i][k] = v
			}
		}
		return p, specStart(r), r.Intn(3)
	})
}
