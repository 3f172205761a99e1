H='''package gltf

import (
%s)

'''
def imp(*a): return H%''.join('\t"%s"\n'%x for x in a)
SEEDS=[
dict(id='c13-bin-padding',prop='C13',pkg='.',file='encode.go',
 edits=[('''			binPadding[i] = 0
''','''			binPadding[i] = byte(i >> 1) &^ byte(len(binPadding)&2>>1^1)
''')],
 demo=imp('bytes','testing')+'''func TestSeedDemo(t *testing.T) {
	doc := &Document{Buffers: []*Buffer{{ByteLength: 5, Data: []byte{1, 2, 3, 4, 5}}}}
	var b bytes.Buffer
	if err := NewEncoder(&b).Encode(doc); err != nil {
		t.Fatal(err)
	}
	if g := b.Bytes(); !bytes.HasSuffix(g, []byte{5, 0, 0, 0}) {
		t.Fatalf("BIN chunk ends with %v", g[len(g)-4:])
	}
}
''',needs='a first buffer whose length is 1 modulo 4',what='the third padding byte of the BIN chunk is not zero'),
dict(id='c14-close-lost',prop='C14',pkg='.',file='encode.go',
 edits=[('''	if err1 := w.Close(); err == nil {
		err = err1
	}
	return err
''','''	if err1 := w.Close(); err != nil {
		err = errors.Join(err, err1)
	}
	return err
''')],
 demo=imp('bytes','errors','io','io/fs','testing')+'''type seedFS struct{}

func (seedFS) Open(string) (fs.File, error)              { return nil, fs.ErrNotExist }
func (seedFS) Create(string) (io.WriteCloser, error)     { return seedFile{}, nil }

type seedFile struct{}

func (seedFile) Write(p []byte) (int, error) { return len(p), nil }
func (seedFile) Close() error                { return errors.New("disk full") }

func TestSeedDemo(t *testing.T) {
	doc := &Document{Buffers: []*Buffer{{ByteLength: 1, Data: []byte{1}, URI: "a.bin"}}}
	var b bytes.Buffer
	e := NewEncoderFS(&b, seedFS{})
	e.AsBinary = false
	if err := e.Encode(doc); err == nil {
		t.Fatal("the failed Close was not reported")
	}
}
''',needs='a file system whose files fail on Close after a successful Write',what='Encode returns nil although closing an external buffer failed'),
dict(id='c15-short-read',prop='C15',pkg='.',file='decoder.go',
 edits=[('''	if err := binary.Read(d.r, binary.LittleEndian, &header); err != nil {
		return nil, err
	}
	return &header, nil
''','''	var raw [8]byte
	if _, err := d.r.Read(raw[:]); err != nil {
		return nil, err
	}
	header.Length = binary.LittleEndian.Uint32(raw[:4])
	binary.Read(bytes.NewReader(raw[4:]), binary.LittleEndian, &header.Type)
	return &header, nil
''')],
 demo=imp('bytes','testing','testing/iotest')+'''func TestSeedDemo(t *testing.T) {
	doc := &Document{Asset: Asset{Version: "2.0"}, Buffers: []*Buffer{{ByteLength: 5, Data: []byte{1, 2, 3, 4, 5}}}}
	var b bytes.Buffer
	if err := NewEncoder(&b).Encode(doc); err != nil {
		t.Fatal(err)
	}
	got := new(Document)
	if err := NewDecoder(iotest.OneByteReader(&b)).Decode(got); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(got.Buffers[0].Data, []byte{1, 2, 3, 4, 5}) {
		t.Fatal(got.Buffers[0].Data)
	}
}
''',needs='a reader that delivers the BIN chunk header in more than one piece',what='the chunk header is taken from a short read'),
dict(id='c16-empty-data-uri',prop='C16',pkg='.',file='gltf.go',
 edits=[('''	if len(b.URI) < startPos {
		return nil, errors.New("gltf: Invalid base64 content")
	}
	sl, err''','''	if len(b.URI) < startPos-1 {
		return nil, errors.New("gltf: Invalid base64 content")
	}
	sl, err''')],
 demo=imp('strings','testing')+'''func TestSeedDemo(t *testing.T) {
	s := `{"asset":{"version":"2.0"},"buffers":[{"byteLength":3,"uri":"data:application/octet-stream;base64"}]}`
	if err := NewDecoder(strings.NewReader(s)).Decode(new(Document)); err == nil {
		t.Fatal("no error")
	}
}
''',needs='a buffer URI that ends right behind the data URI prefix',what='decoding panics with a slice bound out of range'),
dict(id='c17-scale-zero',prop='C17',pkg='.',file='encode.go',
 edits=[('''	if n.Scale != DefaultScale && n.Scale != emptyScale {
''','''	if n.Scale != DefaultScale && n.Scale[0]*n.Scale[1]*n.Scale[2] != 0 {
''')],
 demo=imp('encoding/json','testing')+'''func TestSeedDemo(t *testing.T) {
	n := &Node{Scale: [3]float64{0, 1, 2}}
	b, err := json.Marshal(n)
	if err != nil {
		t.Fatal(err)
	}
	m := new(Node)
	if err := json.Unmarshal(b, m); err != nil || m.Scale != n.Scale {
		t.Fatal(string(b), err, m.Scale)
	}
}
''',needs='a node scale with some but not all components zero',what='the scale is left out of the JSON text'),
dict(id='c17-normal-scale',prop='C17',pkg='.',file='encode.go',
 edits=[('''	if n.Scale != nil && *n.Scale == 1 {
''','''	if n.Scale != nil && int(*n.Scale) == 1 {
''')],
 demo=imp('encoding/json','testing')+'''func TestSeedDemo(t *testing.T) {
	i := 3
	b, err := json.Marshal(&NormalTexture{Index: &i, Scale: Float(1.5)})
	if err != nil {
		t.Fatal(err)
	}
	m := new(NormalTexture)
	if err := json.Unmarshal(b, m); err != nil || *m.Scale != 1.5 {
		t.Fatal(string(b), err, *m.Scale)
	}
}
''',needs='a normal texture scale between 1 and 2',what='the scale is taken for the default and left out'),
dict(id='c20-trimmed-name',prop='C20',pkg='.',file='decoder.go',
 edits=[('''			buffer.Data, err = fs.ReadFile(d.Fsys, buffer.URI)
''','''			buffer.Data, err = fs.ReadFile(d.Fsys, strings.TrimSpace(buffer.URI))
''')],
 demo=imp('io/fs','strings','testing')+'''type seedFS struct{ names []string }

func (f *seedFS) Open(name string) (fs.File, error) {
	f.names = append(f.names, name)
	return nil, fs.ErrNotExist
}

func TestSeedDemo(t *testing.T) {
	f := new(seedFS)
	s := `{"asset":{"version":"2.0"},"buffers":[{"byteLength":3,"uri":"%20../secret.bin"}]}`
	NewDecoderFS(strings.NewReader(s), f).Decode(new(Document))
	for _, n := range f.names {
		if strings.HasPrefix(n, "../") {
			t.Fatal("opened ", n)
		}
	}
}
''',needs='a buffer URI whose first path element is an (escaped) space followed by two dots',what='the name is trimmed behind the check, so a file outside the directory is opened'),
dict(id='c21-uri-rewritten',prop='C21',pkg='.',file='encode.go',
 edits=[('''	uri, ok := sanitizeURI(buffer.URI)
	if !ok {
		return nil
	}
''','''	uri, ok := sanitizeURI(buffer.URI)
	if !ok {
		return nil
	}
	if buffer.URI != uri {
		buffer.URI = uri
	}
''')],
 demo=imp('bytes','io','io/fs','testing')+'''type seedFS struct{}

func (seedFS) Open(string) (fs.File, error)          { return nil, fs.ErrNotExist }
func (seedFS) Create(string) (io.WriteCloser, error) { return seedFile{}, nil }

type seedFile struct{}

func (seedFile) Write(p []byte) (int, error) { return len(p), nil }
func (seedFile) Close() error                { return nil }

func TestSeedDemo(t *testing.T) {
	doc := &Document{Buffers: []*Buffer{{ByteLength: 1, Data: []byte{1}, URI: "a%20b.bin"}}}
	var b bytes.Buffer
	e := NewEncoderFS(&b, seedFS{})
	e.AsBinary = false
	if err := e.Encode(doc); err != nil {
		t.Fatal(err)
	}
	if doc.Buffers[0].URI != "a%20b.bin" {
		t.Fatal("Encode changed the URI to ", doc.Buffers[0].URI)
	}
}
''',needs='an external buffer whose URI has escapes, and a file system',what='Encode rewrites the URI in the document'),
dict(id='c22-lenient-base64',prop='C22',pkg='.',file='gltf.go',
 edits=[('''	return base64.StdEncoding.DecodeString(im.URI[startPos:])
''','''	content := im.URI[startPos:]
	if i := strings.LastIndexByte(content, ','); i >= 0 {
		content = content[i+1:]
	}
	return base64.StdEncoding.DecodeString(content)
''')],
 demo=imp('testing')+'''func TestSeedDemo(t *testing.T) {
	im := &Image{URI: "data:image/png;base64,AAAA,BBBB"}
	if b, err := im.MarshalData(); err == nil {
		t.Fatal("damaged content was decoded to ", b)
	}
}
''',needs='image content with a comma in it',what='damaged content is decoded from its last comma on'),
dict(id='c23-partial-value',prop='C23',pkg='.',file='encode.go',
 edits=[('''				if err != nil {
					(*ext)[key] = value
				} else {''','''				if err != nil && n == nil {
					(*ext)[key] = value
				} else {''')],
 demo=imp('encoding/json','errors','testing')+'''func TestSeedDemo(t *testing.T) {
	RegisterExtension("SEED_x", func(b []byte) (any, error) { return new(int), errors.New("bad") })
	var ext Extensions
	if err := json.Unmarshal([]byte(`{"SEED_x":"y"}`), &ext); err != nil {
		t.Fatal(err)
	}
	if r, ok := ext["SEED_x"].(json.RawMessage); !ok || string(r) != `"y"` {
		t.Fatalf("%T", ext["SEED_x"])
	}
}
''',needs='a registered decoder that returns a value together with an error, as those of the bundled extensions do',what='the half decoded value replaces the raw JSON'),
dict(id='c24-null-member',prop='C24',pkg='ext/unlit',file='ext/unlit/unlit.go',
 edits=[('''			(*u)[key] = value
''','''			if len(value) > 0 && value[0] != 'n' {
				(*u)[key] = value
			}
''')],
 demo='''package unlit

import "testing"

func TestSeedDemo(t *testing.T) {
	v, err := Unmarshal([]byte(`{"a":null,"b":1}`))
	if err != nil || len(*v.(*Unlit)) != 2 {
		t.Fatal(v, err)
	}
}
''',needs='an unlit object with a null member',what='the member is lost'),
dict(id='c24-scale-axis',prop='C24',pkg='ext/texturetransform',file='ext/texturetransform/transform.go',
 edits=[('''	err := json.Unmarshal(data, &tmp)
	if err == nil {
		*t = TextureTranform(tmp)
''','''	err := json.Unmarshal(data, &tmp)
	if err == nil {
		for i, v := range tmp.Scale {
			if v == 0 {
				tmp.Scale[i] = DefaultScale[i]
			}
		}
		*t = TextureTranform(tmp)
''')],
 demo='''package texturetransform

import "testing"

func TestSeedDemo(t *testing.T) {
	v, err := Unmarshal([]byte(`{"scale":[0,2]}`))
	if err != nil || v.(*TextureTranform).Scale != [2]float64{0, 2} {
		t.Fatal(v, err)
	}
}
''',needs='a scale with one zero component',what='the zero is replaced by one'),
dict(id='c26-linear-part',prop='C26',pkg='.',file='math.go',
 edits=[('''	if v < 0.0031308 {
''','''	if v < 0.0041308 {
''')],
 demo=imp('testing')+'''func TestSeedDemo(t *testing.T) {
	for i := 0; i < 65536; i++ {
		v := NormalizeRGB64(DenormalizeRGB64([3]uint16{uint16(i), 0, 0}))
		if d := int(v[0]) - i; d > 1 || d < -1 {
			t.Fatal(i, v[0])
		}
	}
}
''',needs='dark colours, near 11/255',what='the linear part of the encoding reaches too far'),
dict(id='c26-alpha64',prop='C26',pkg='.',file='math.go',
 edits=[('''		uint16(v[3] * 65535),
''','''		uint16(v[3]*255) * 257,
''')],
 demo=imp('testing')+'''func TestSeedDemo(t *testing.T) {
	for i := 0; i < 65536; i++ {
		v := NormalizeRGBA64(DenormalizeRGBA64([4]uint16{0, 0, 0, uint16(i)}))
		if d := int(v[3]) - i; d > 1 || d < -1 {
			t.Fatal(i, v[3])
		}
	}
}
''',needs='a 16-bit alpha that is not a multiple of 257',what='alpha is quantised to 8 bits'),
dict(id='c25-byte-min',prop='C25',pkg='.',file='math.go',
 edits=[('''	return float32(math.Max(float64(v)/32767, -1))
''','''	return float32(math.Max(float64(v)/32767, -32768.0/32767))
''')],
 demo=imp('testing')+'''func TestSeedDemo(t *testing.T) {
	if v := DenormalizeShort(-32768); v != -1 {
		t.Fatal(v)
	}
}
''',needs='the value -32768',what='the smallest short is not clamped to -1'),
dict(id='c19-rotation',prop='C19',pkg='.',file='gltf.go',
 edits=[('''	if n.Rotation == emptyRotation {
''','''	if [3]float64(n.Rotation[:3]) == [3]float64(emptyRotation[:3]) {
''')],
 demo=imp('testing')+'''func TestSeedDemo(t *testing.T) {
	n := &Node{Rotation: [4]float64{0, 0, 0, -1}}
	if v := n.RotationOrDefault(); v != n.Rotation {
		t.Fatal(v)
	}
}
''',needs='a rotation with zero vector part and w other than 1',what='the rotation is taken for unset'),
]
