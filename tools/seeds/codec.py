H='''package gltf

import (
%s)

'''
def imp(*a): return H%''.join('\t"%s"\n'%x for x in a)
SEEDS=[
dict(id='c16-chunk-peek',prop='C16',pkg='.',file='decoder.go',
 edits=[('''	if err := binary.Read(d.r, binary.LittleEndian, &header); err != nil {
		return nil, err
	}
	return &header, nil
''','''	raw, err := d.r.Peek(binary.Size(header))
	if err != nil && len(raw) < 4 {
		return nil, err
	}
	header.Length, header.Type = binary.LittleEndian.Uint32(raw), binary.LittleEndian.Uint32(raw[4:])
	_, err = d.r.Discard(len(raw))
	return &header, err
''')],
 demo=imp('bytes','encoding/binary','testing')+'''func TestSeedDemo(t *testing.T) {
	js := []byte(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":1}]}`)
	var b bytes.Buffer
	for _, x := range []uint32{0x46546c67, 2, uint32(20 + len(js) + 5), uint32(len(js)), 0x4e4f534a} {
		binary.Write(&b, binary.LittleEndian, x)
	}
	b.Write(js)
	b.Write([]byte{1, 0, 0, 0, 'B'})
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	if NewDecoder(&b).Decode(new(Document)) == nil {
		t.Fatal("no error")
	}
}
''',needs='a binary file that ends inside the type field of its BIN chunk header',what='decoding panics'),
dict(id='c18-strip-loop',prop='C18',pkg='.',file='const.go',
 edits=[('''			2: PrimitiveLineLoop,
			3: PrimitiveLineStrip,
			4: PrimitiveTriangles,
''','''			3: PrimitiveLineLoop,
			2: PrimitiveLineStrip,
			4: PrimitiveTriangles,
'''),('''		PrimitiveLineLoop:      2,
		PrimitiveLineStrip:     3,
''','''		PrimitiveLineLoop:      3,
		PrimitiveLineStrip:     2,
''')],
 demo=imp('testing')+'''func TestSeedDemo(t *testing.T) {
	p := PrimitiveLineLoop
	if b, err := p.MarshalJSON(); err != nil || string(b) != "2" {
		t.Fatal(string(b), err)
	}
}
''',needs='a LINE_LOOP or LINE_STRIP primitive read or written as JSON by another program',what='both directions swap the two codes, so round trips still agree'),
dict(id='c18-type-case',prop='C18',pkg='.',file='const.go',
 edits=[('''		}[tmp]
		if !ok {
			return fmt.Errorf("gltf: unknown accessor's type: %s", tmp)
''','''		}[tmp]
		if !ok && tmp != "" {
			return fmt.Errorf("gltf: unknown accessor's type: %s", tmp)
''')],
 demo=imp('testing')+'''func TestSeedDemo(t *testing.T) {
	var a AccessorType
	if a.UnmarshalJSON([]byte(`""`)) == nil {
		t.Fatal("accepted as ", a)
	}
}
''',needs='an accessor whose type is the empty string',what='the empty name parses as SCALAR'),
dict(id='c23-nil-value',prop='C23',pkg='.',file='encode.go',
 edits=[('''				if err != nil {
					(*ext)[key] = value
				} else {
''','''				if err != nil || n == nil {
					(*ext)[key] = value
				} else {
''')],
 demo=imp('testing')+'''func TestSeedDemo(t *testing.T) {
	RegisterExtension("SEED_nil", func([]byte) (any, error) { return nil, nil })
	var e Extensions
	if err := e.UnmarshalJSON([]byte(`{"SEED_nil":{}}`)); err != nil || e["SEED_nil"] != nil {
		t.Fatal(e, err)
	}
}
''',needs='a registered decoder that succeeds with a nil value',what='the raw JSON is kept in place of the value the decoder gave'),
dict(id='c23-keep-existing',prop='C23',pkg='.',file='encode.go',
 edits=[('''			} else {
				(*ext)[key] = value
			}
''','''			} else if _, ok := (*ext)[key]; !ok {
				(*ext)[key] = value
			}
''')],
 demo=imp('encoding/json','testing')+'''func TestSeedDemo(t *testing.T) {
	e := Extensions{"SEED_x": json.RawMessage("1")}
	if err := e.UnmarshalJSON([]byte(`{"SEED_x":2}`)); err != nil || string(e["SEED_x"].(json.RawMessage)) != "2" {
		t.Fatal(e, err)
	}
}
''',needs='extensions parsed into a map that already holds an unregistered key',what='the stale value stays'),
dict(id='c23-lookup-unlocked',flags='-race',prop='C23',pkg='.',file='gltf.go',
 edits=[('''	extMu.RLock()
	ext, ok := extensions[key]
	extMu.RUnlock()
	return ext, ok
''','''	extMu.RLock()
	table := extensions
	extMu.RUnlock()
	ext, ok := table[key]
	return ext, ok
''')],
 demo=imp('fmt','testing')+'''func TestSeedDemo(t *testing.T) {
	done := make(chan bool)
	for g := 0; g < 8; g++ {
		go func(g int) {
			for i := 0; i < 50000; i++ {
				if k := fmt.Sprint("SEED_", i%1000); g%2 == 0 {
					RegisterExtension(k, nil)
				} else {
					queryExtension(k)
				}
			}
			done <- true
		}(g)
	}
	for g := 0; g < 8; g++ {
		<-done
	}
}
''',needs='a document decoded while another goroutine registers an extension',what='the table is read after the lock was released: a data race that ends the process'),
]
