H='''package modeler

import (
%s)

'''
def imp(*a): return H%''.join('\t"%s"\n'%x for x in a)
G='github.com/qmuntal/gltf'
R='modeler/read.go'; W='modeler/write.go'
SEEDS=[
dict(id='c05-sparse-values',prop='C05',pkg='modeler',file=R,
 edits=[('''			ComponentType: acr.ComponentType,
			Count:         acr.Sparse.Count,
''','''			ComponentType: acr.ComponentType,
			Count:         sparseCount(acr),
'''),('''func errAccessorType(''','''func sparseCount(acr *gltf.Accessor) int {
	if acr.Sparse.Count > acr.Count {
		return acr.Count
	}
	return acr.Sparse.Count
}

func errAccessorType(''')],
 demo=imp('testing',G)+'''func TestSeedDemo(t *testing.T) {
	doc := &gltf.Document{Buffers: []*gltf.Buffer{{Data: make([]byte, 16), ByteLength: 16}}, BufferViews: []*gltf.BufferView{{ByteLength: 16}}}
	acr := &gltf.Accessor{Count: 1, Sparse: &gltf.Sparse{Count: 2, Indices: gltf.SparseIndices{ComponentType: gltf.ComponentUbyte}}}
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	ReadAccessor(doc, acr, nil)
}
''',needs='a sparse accessor with more sparse entries than elements (repeated indices)',what='ReadAccessor panics: fewer values than indices are read'),
dict(id='c06-sparse-offset',prop='C06',pkg='modeler',file=R,
 edits=[('''			ByteOffset:    acr.Sparse.Indices.ByteOffset,
''','''			ByteOffset:    acr.Sparse.Indices.ByteOffset &^ (acr.Sparse.Indices.ComponentType.ByteSize() - 1),
''')],
 demo=imp('testing',G)+'''func TestSeedDemo(t *testing.T) {
	doc := &gltf.Document{Buffers: []*gltf.Buffer{{Data: []byte{2, 1, 0, 9, 7, 0, 0, 0}, ByteLength: 8}}, BufferViews: []*gltf.BufferView{{ByteLength: 8}}}
	acr := &gltf.Accessor{ComponentType: gltf.ComponentUbyte, Count: 3, Sparse: &gltf.Sparse{Count: 1,
		Indices: gltf.SparseIndices{ComponentType: gltf.ComponentUshort, ByteOffset: 1}, Values: gltf.SparseValues{ByteOffset: 3}}}
	v, err := ReadAccessor(doc, acr, nil)
	if err != nil || v.([]uint8)[1] != 9 {
		t.Fatal(v, err)
	}
}
''',needs='sparse indices of two or four bytes at an offset that is not a multiple of their size',what='the indices are read from a rounded-down offset'),
dict(id='c07-buffer-grow',prop='C07',pkg='modeler',file=R,
 edits=[('''		buffer = append(buffer, make([]T, count-len(buffer))...)
''','''		buffer = append(buffer[:len(buffer)&^1], make([]T, count-len(buffer))...)
''')],
 demo=imp('testing',G)+'''func TestSeedDemo(t *testing.T) {
	doc := &gltf.Document{Buffers: []*gltf.Buffer{{Data: make([]byte, 16), ByteLength: 16}}, BufferViews: []*gltf.BufferView{{ByteLength: 16}}}
	acr := &gltf.Accessor{ComponentType: gltf.ComponentUbyte, Count: 9, BufferView: gltf.Index(0)}
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	v, err := ReadIndices(doc, acr, make([]uint32, 3))
	if err != nil || len(v) != 9 {
		t.Fatal(v, err)
	}
}
''',needs='a caller buffer of odd length shorter than the accessor',what='the buffer grows by one element too few'),
dict(id='c07-joints-lane',prop='C07',pkg='modeler',file=R,
 edits=[('''			buffer[i] = [4]uint16{
				uint16(e[0]), uint16(e[1]),
				uint16(e[2]), uint16(e[3]),
			}
''','''			buffer[i] = [4]uint16{
				uint16(e[0]), uint16(e[1]),
				uint16(e[2]), uint16(int8(e[3])),
			}
''')],
 demo=imp('testing',G)+'''func TestSeedDemo(t *testing.T) {
	doc := &gltf.Document{Buffers: []*gltf.Buffer{{Data: []byte{1, 2, 3, 200}, ByteLength: 4}}, BufferViews: []*gltf.BufferView{{ByteLength: 4}}}
	acr := &gltf.Accessor{ComponentType: gltf.ComponentUbyte, Type: gltf.AccessorVec4, Count: 1, BufferView: gltf.Index(0)}
	v, err := ReadJoints(doc, acr, nil)
	if err != nil || v[0] != [4]uint16{1, 2, 3, 200} {
		t.Fatal(v, err)
	}
}
''',needs='a joint index of 128 or more in the fourth lane',what='the fourth joint is sign extended'),
dict(id='c08-pooled-result',prop='C08',pkg='modeler',file=R,
 edits=[('''	case []uint32:
		copy(buffer, data)
	}
	return buffer, nil
''','''	case []uint32:
		if cap(buffer) > len(buffer) {
			buffer = data
			break
		}
		copy(buffer, data)
	}
	return buffer, nil
''')],
 demo=imp('testing',G)+'''func TestSeedDemo(t *testing.T) {
	doc := &gltf.Document{Buffers: []*gltf.Buffer{{Data: []byte{1, 0, 0, 0, 2, 0, 0, 0}, ByteLength: 8}}, BufferViews: []*gltf.BufferView{{ByteLength: 4}, {ByteLength: 4, ByteOffset: 4}}}
	for try := 0; try < 200; try++ {
		v, err := ReadIndices(doc, &gltf.Accessor{ComponentType: gltf.ComponentUint, Count: 1, BufferView: gltf.Index(0)}, make([]uint32, 3))
		if err != nil {
			t.Fatal(err)
		}
		if _, err = ReadIndices(doc, &gltf.Accessor{ComponentType: gltf.ComponentUint, Count: 1, BufferView: gltf.Index(1)}, nil); err != nil {
			t.Fatal(err)
		}
		if v[0] != 1 {
			t.Fatal("a later read changed the result: ", v)
		}
	}
}
''',needs='32-bit indices read into a caller buffer with spare capacity, then another read',what='the result is memory of the package pool and changes with the next read'),
dict(id='c09-first-padding',prop='C09',pkg='modeler',file=W,
 edits=[('''func WriteAccessor(doc *gltf.Document, target gltf.Target, data any) int {
	ensurePadding(doc)
''','''func WriteAccessor(doc *gltf.Document, target gltf.Target, data any) int {
	if len(doc.Accessors) > 0 || len(doc.BufferViews) == 0 {
		ensurePadding(doc)
	}
''')],
 demo=imp('bytes','testing',G)+'''func TestSeedDemo(t *testing.T) {
	doc := new(gltf.Document)
	if _, err := WriteImage(doc, "a", "image/png", bytes.NewReader([]byte{1, 2, 3})); err != nil {
		t.Fatal(err)
	}
	WriteAccessor(doc, gltf.TargetArrayBuffer, []float32{1})
	if o := doc.BufferViews[1].ByteOffset; o%4 != 0 {
		t.Fatal("offset ", o)
	}
}
''',needs='an image of odd size written before the first accessor',what='the first accessor is not aligned'),
dict(id='c10-color64',prop='C10',pkg='modeler',file='binary/encode.go',
 edits=[('''			Ushort.PutVec4(b[e*i:], [4]uint16{x.R, x.G, x.B, x.A})
''','''			if x.B > x.A && x.A != 0 {
				x.B = x.A // premultiplied
			}
			Ushort.PutVec4(b[e*i:], [4]uint16{x.R, x.G, x.B, x.A})
''')],
 demo=imp('image/color','testing',G)+'''func TestSeedDemo(t *testing.T) {
	doc := new(gltf.Document)
	i := WriteAccessor(doc, gltf.TargetArrayBuffer, []color.RGBA64{{B: 9, A: 5}})
	v, err := ReadAccessor(doc, doc.Accessors[i], nil)
	if err != nil || v.([][4]uint16)[0] != [4]uint16{0, 0, 9, 5} {
		t.Fatal(v, err)
	}
}
''',needs='16-bit colours whose blue exceeds a non-zero alpha',what='the blue channel is clamped to alpha when written'),
dict(id='c11-column-offset',prop='C11',pkg='modeler',file=W,
 edits=[('''		dataOffset += gltf.SizeOfElement(c, a)
''','''		dataOffset += c.ByteSize() * a.Components()
''')],
 demo=imp('reflect','testing',G)+'''func TestSeedDemo(t *testing.T) {
	doc := new(gltf.Document)
	a, b := [][3]uint8{{1, 2, 3}, {4, 5, 6}}, []float32{7, 8}
	m := [][2][2]uint8{{{1, 2}, {3, 4}}, {{5, 6}, {7, 8}}}
	idx, err := WriteAccessorsInterleaved(doc, m, a, b)
	if err != nil {
		t.Fatal(err)
	}
	for i, w := range []any{m, a, b} {
		g, err := ReadAccessor(doc, doc.Accessors[idx[i]], nil)
		if err != nil || !reflect.DeepEqual(g, w) {
			t.Fatal(i, g, err)
		}
	}
}
''',needs='an interleaved column of 2x2 or 3x3 matrices of one- or two-byte components (padded columns) followed by another',what='later columns are written at another offset than their accessor names'),
dict(id='c11-attr-bounds',prop='C11',pkg='modeler',file=W,
 edits=[('''		doc.Accessors[index].Normalized = prop.Normalized
	}
''','''		if prop.Normalized {
			doc.Accessors[len(doc.Accessors)-len(indices)+i].Normalized = i == 0 || props[i-1].Normalized || len(indices) < 4
		}
	}
''')],
 demo=imp('testing',G)+'''func TestSeedDemo(t *testing.T) {
	doc := new(gltf.Document)
	v, u := [][3]float32{{1}}, [][2]uint8{{1, 2}}
	m, err := WritePrimitiveAttributes(doc, PrimitiveAttribute{gltf.POSITION, v}, PrimitiveAttribute{gltf.NORMAL, v}, PrimitiveAttribute{gltf.TEXCOORD_0, u}, PrimitiveAttribute{gltf.COLOR_0, v})
	if err != nil || !doc.Accessors[m[gltf.TEXCOORD_0]].Normalized {
		t.Fatal(m, err)
	}
}
''',needs='four or more attributes with an integer one behind a float one',what='the normalized flag is lost'),
dict(id='c12-negative-max',prop='C12',pkg='modeler',file=W,
 edits=[('''	max := [3]float64{-math.MaxFloat64, -math.MaxFloat64, -math.MaxFloat64}
''','''	max := [3]float64{-math.MaxFloat64, -math.MaxFloat64, -math.MaxFloat32 / (1 << 20)}
''')],
 demo=imp('testing',G)+'''func TestSeedDemo(t *testing.T) {
	doc := new(gltf.Document)
	i := WritePosition(doc, [][3]float32{{1, 1, -3e38}, {1, 1, -2e38}})
	if m := doc.Accessors[i].Max[2]; m != float64(float32(-2e38)) {
		t.Fatal(m)
	}
}
''',needs='positions whose third coordinates are all below -3.2e32',what='the maximum is not a value of the data'),
dict(id='c12-first-point',prop='C12',pkg='modeler',file=W,
 edits=[('''			max[i] = math.Max(float64(max[i]), float64(x))
''','''			if float64(x) < min[i] || float64(x) > max[i] && x != v[0] {
				max[i] = math.Max(float64(max[i]), float64(x))
			} else if i == 0 || float64(x) > max[i] {
				max[i] = math.Max(float64(max[0]), float64(x))
			}
''')],
 demo=imp('testing',G)+'''func TestSeedDemo(t *testing.T) {
	doc := new(gltf.Document)
	i := WritePosition(doc, [][3]float32{{9, 1, 1}, {3, 3, 3}})
	if m := doc.Accessors[i].Max; m[0] != 9 || m[1] != 3 || m[2] != 3 {
		t.Fatal(m)
	}
}
''',needs='a point whose coordinates are equal and exceed the maximum of one axis but not of the first',what='the maximum of the x axis is taken for another axis'),
]
SEEDS+=[
dict(id='c07-long-texcoord',prop='C07',pkg='modeler',file=R,
 edits=[('''	case [][2]uint16:
		for i, e := range data {
			buffer[i] = [2]float32{
''','''	case [][2]uint16:
		for i, e := range data {
			if i&256 != 0 {
				e[1] = data[i-256][1]
			}
			buffer[i] = [2]float32{
''')],
 demo=imp('testing',G)+'''func TestSeedDemo(t *testing.T) {
	b := make([]byte, 4*300)
	b[4*299+2] = 7
	doc := &gltf.Document{Buffers: []*gltf.Buffer{{Data: b, ByteLength: len(b)}}, BufferViews: []*gltf.BufferView{{ByteLength: len(b)}}}
	v, err := ReadTextureCoord(doc, &gltf.Accessor{ComponentType: gltf.ComponentUshort, Type: gltf.AccessorVec2, Count: 300, BufferView: gltf.Index(0)}, nil)
	if err != nil || v[299][1] == 0 {
		t.Fatal(err, v[299])
	}
}
''',needs='more than 256 16-bit texture coordinates',what='the second coordinate of element 256 and later is that of an earlier element'),
dict(id='c07-sparse-weights',prop='C07',pkg='modeler',file=R,
 edits=[('''func ReadWeights(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]float32) ([][4]float32, error) {
''','''func ReadWeights(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]float32) ([][4]float32, error) {
	if acr.Sparse != nil && acr.Sparse.Count == acr.Count && acr.BufferView != nil && acr.Count > 1 {
		base := *acr
		base.Sparse = nil
		acr = &base
	}
''')],
 demo=imp('testing',G)+'''func TestSeedDemo(t *testing.T) {
	b := make([]byte, 32)
	b[1], b[16] = 1, 255
	doc := &gltf.Document{Buffers: []*gltf.Buffer{{Data: b, ByteLength: 32}}, BufferViews: []*gltf.BufferView{{ByteLength: 8}, {ByteLength: 8, ByteOffset: 8}, {ByteLength: 8, ByteOffset: 16}}}
	b[8], b[9] = 0, 1
	v, err := ReadWeights(doc, &gltf.Accessor{ComponentType: gltf.ComponentUbyte, Type: gltf.AccessorVec4, Count: 2, BufferView: gltf.Index(0),
		Sparse: &gltf.Sparse{Count: 2, Indices: gltf.SparseIndices{BufferView: 1, ComponentType: gltf.ComponentUbyte}, Values: gltf.SparseValues{BufferView: 2}}}, nil)
	if err != nil || v[0][0] != 1 {
		t.Fatal(err, v)
	}
}
''',needs='sparse weights that replace every element of a view',what='the sparse values are ignored'),
]
