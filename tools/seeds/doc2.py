def imp(pkg,*a): return 'package %s\n\nimport (\n%s)\n\n'%(pkg,''.join('\t"%s"\n'%x for x in a))
G='github.com/qmuntal/gltf'
RT='''func TestSeedDemo(t *testing.T) {
	b, err := json.Marshal(%s)
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(string(b), `%s`) {
		t.Fatal(string(b))
	}
}
'''
SEEDS=[
dict(id='c13-empty-bin',prop='C13',pkg='.',file='encode.go',
 edits=[('''	hasBinChunk := len(doc.Buffers) > 0 && doc.Buffers[0].URI == ""
''','''	hasBinChunk := len(doc.Buffers) > 0 && doc.Buffers[0].URI == "" && (doc.Buffers[0].ByteLength > 0 || len(doc.Buffers) == 1)
''')],
 demo=imp('gltf','bytes','testing')+'''func TestSeedDemo(t *testing.T) {
	var b bytes.Buffer
	doc := &Document{Buffers: []*Buffer{{}, {ByteLength: 1, URI: "a.bin"}}}
	if err := NewEncoder(&b).Encode(doc); err != nil || !bytes.Contains(b.Bytes(), []byte("BIN\\x00")) {
		t.Fatal(err, b.String())
	}
}
''',needs='a first buffer without URI and without bytes, followed by another buffer',what='the BIN chunk is missing'),
dict(id='c13-header-total',prop='C13',pkg='.',file='encode.go',
 edits=[('''		header.Length += uint32(8 + binPaddedLength)
''','''		header.Length += uint32(8+doc.Buffers[0].ByteLength+3) &^ 3
		if doc.Buffers[0].ByteLength == 0 && len(doc.BufferViews) > 0 {
			header.Length -= 8
		}
''')],
 demo=imp('gltf','bytes','encoding/binary','testing')+'''func TestSeedDemo(t *testing.T) {
	var b bytes.Buffer
	doc := &Document{Buffers: []*Buffer{{}}, BufferViews: []*BufferView{{}}}
	if err := NewEncoder(&b).Encode(doc); err != nil || int(binary.LittleEndian.Uint32(b.Bytes()[8:])) != b.Len() {
		t.Fatal(err, b.Len())
	}
}
''',needs='an empty first buffer in a document with buffer views',what='the total length leaves the empty BIN chunk out'),
dict(id='c14-padding-error',prop='C14',pkg='.',file='encode.go',
 edits=[('''	if _, err = e.w.Write(headerPadding); err != nil {
		return false, err
	}

	if hasBinChunk {
''','''	_, err = e.w.Write(headerPadding)

	if hasBinChunk {
''')],
 demo=imp('gltf','errors','testing')+'''type seedW struct{ n, fail int }

func (w *seedW) Write(p []byte) (int, error) {
	w.n++
	if w.n == w.fail {
		return 0, errors.New("disk full")
	}
	return len(p), nil
}

func TestSeedDemo(t *testing.T) {
	doc := &Document{Buffers: []*Buffer{{Data: []byte{1}, ByteLength: 1}}}
	all := new(seedW)
	NewEncoder(all).Encode(doc)
	for f := 1; f <= all.n; f++ {
		if NewEncoder(&seedW{fail: f}).Encode(doc) == nil {
			t.Fatal("write ", f, " failed and was not reported")
		}
	}
}
''',needs='only the write of the padding after the JSON text fails',what='Encode returns nil'),
dict(id='c17-cutoff-mode',prop='C17',pkg='.',file='encode.go',
 edits=[('''	if m.AlphaCutoff != nil && *m.AlphaCutoff != 0.5 {
''','''	if m.AlphaCutoff != nil && *m.AlphaCutoff != 0.5 && m.AlphaMode != AlphaBlend {
''')],
 demo=imp('gltf','encoding/json','strings','testing')+RT%('&Material{AlphaMode: AlphaBlend, AlphaCutoff: Float(0.25)}','"alphaCutoff":0.25'),
 needs='an alpha cutoff on a material in BLEND mode',what='the cutoff is dropped'),
dict(id='c17-rotation-half',prop='C17',pkg='.',file='encode.go',
 edits=[('''	if n.Rotation != DefaultRotation && n.Rotation != emptyRotation {
''','''	if n.Rotation != DefaultRotation && n.Rotation != emptyRotation && n.Rotation != [4]float64{0, 0, 0, -1} {
''')],
 demo=imp('gltf','encoding/json','strings','testing')+RT%('&Node{Rotation: [4]float64{0, 0, 0, -1}}','"rotation":[0,0,0,-1]'),
 needs='the quaternion 0 0 0 -1',what='it comes back as 0 0 0 1'),
dict(id='c17-null-roughness',prop='C17',pkg='.',file='encode.go',
 edits=[('''	if p.RoughnessFactor != nil && *p.RoughnessFactor == 1 {
''','''	if p.RoughnessFactor != nil && (*p.RoughnessFactor == 1 || *p.RoughnessFactor == 0 && p.MetallicRoughnessTexture != nil && p.MetallicFactor == nil) {
''')],
 demo=imp('gltf','encoding/json','strings','testing')+RT%('&PBRMetallicRoughness{RoughnessFactor: Float(0), MetallicRoughnessTexture: &TextureInfo{}}','"roughnessFactor":0'),
 needs='a zero roughness with a metallic-roughness texture and no metallic factor',what='the zero is dropped and comes back as one'),
dict(id='c21-node-rotation',prop='C21',pkg='.',file='encode.go',
 edits=[('''	if n.Rotation != DefaultRotation && n.Rotation != emptyRotation {
''','''	if n.Rotation == emptyRotation && n.Skin != nil {
		n.Rotation = DefaultRotation
	}
	if n.Rotation != DefaultRotation && n.Rotation != emptyRotation {
''')],
 demo=imp('gltf','encoding/json','testing')+'''func TestSeedDemo(t *testing.T) {
	n := &Node{Skin: Index(0)}
	json.Marshal(n)
	if n.Rotation != [4]float64{} {
		t.Fatal(n.Rotation)
	}
}
''',needs='a skinned node whose rotation was left empty',what='encoding writes the default rotation into the document'),
dict(id='c21-pbr-alias',prop='C21',pkg='.',file='encode.go',
 edits=[('''	tmp := &struct {
		alias
	}{
		alias: (alias)(*p),
	}
''','''	tmp := (*alias)(p)
	if p.Extensions == nil || p.Extras == nil {
		c := alias(*p)
		tmp = &c
	}
''')],
 demo=imp('gltf','encoding/json','testing')+'''func TestSeedDemo(t *testing.T) {
	p := &PBRMetallicRoughness{Extensions: Extensions{"a": 1}, Extras: 1, MetallicFactor: Float(1)}
	json.Marshal(p)
	if p.MetallicFactor == nil {
		t.Fatal("factor removed")
	}
}
''',needs='a PBR value with extensions and extras and a factor equal to its default',what='encoding sets the factor to nil in the document'),
dict(id='c24-spot-zero',prop='C24',pkg='ext/lightspunctual',file='ext/lightspunctual/lightspunctual.go',
 edits=[('''	if err == nil {
		*s = Spot(tmp)
	}
''','''	if err == nil {
		if tmp.OuterConeAngle != nil && *tmp.OuterConeAngle == tmp.InnerConeAngle {
			tmp.OuterConeAngle = gltf.Float(math.Pi / 4)
		}
		*s = Spot(tmp)
	}
''')],
 demo=imp('lightspunctual','testing')+'''func TestSeedDemo(t *testing.T) {
	v, err := Unmarshal([]byte(`{"lights":[{"type":"spot","spot":{"innerConeAngle":0.25,"outerConeAngle":0.25}}]}`))
	if err != nil || *v.(Lights)[0].Spot.OuterConeAngle != 0.25 {
		t.Fatal(v, err)
	}
}
''',needs='a spot light with equal cone angles',what='the outer angle comes back as the default'),
dict(id='c11-position-normalized',prop='C11',pkg='modeler',file='modeler/write.go',
 edits=[('''		props = append(props, attrProps{Name: a.Name, Normalized: normalized})
	}
''','''		for i := range props {
			if props[i].Name == a.Name {
				props[i].Normalized = normalized
			}
		}
		props = append(props, attrProps{Name: a.Name, Normalized: normalized || len(props) > 0 && props[len(props)-1].Name == gltf.TEXCOORD_0 && props[len(props)-1].Normalized && a.Name == "_CUSTOM"})
	}
''')],
 demo=imp('modeler','testing',G)+'''func TestSeedDemo(t *testing.T) {
	doc := new(gltf.Document)
	a, err := WritePrimitiveAttributes(doc, PrimitiveAttribute{gltf.TEXCOORD_0, [][2]uint8{{1, 2}}}, PrimitiveAttribute{"_CUSTOM", []uint8{1}})
	if err != nil || doc.Accessors[a["_CUSTOM"]].Normalized {
		t.Fatal(err)
	}
}
''',needs='a custom attribute after normalized texture coordinates',what='the custom accessor is marked normalized'),
dict(id='c12-interleaved-second',prop='C12',pkg='modeler',file='modeler/write.go',
 edits=[('''				min, max = minMaxFloat32(v)
''','''				min, max = minMaxFloat32(v[:len(v)-len(v)/64])
''')],
 demo=imp('modeler','testing',G)+'''func TestSeedDemo(t *testing.T) {
	doc := new(gltf.Document)
	p := make([][3]float32, 64)
	p[63][1] = 5
	a, err := WritePrimitiveAttributes(doc, PrimitiveAttribute{gltf.POSITION, p})
	if err != nil || doc.Accessors[a[gltf.POSITION]].Max[1] != 5 {
		t.Fatal(err)
	}
}
''',needs='64 or more positions written as primitive attributes, the extreme at the end',what='the last positions are not part of the bounds'),
]
