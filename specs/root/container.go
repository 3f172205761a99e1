package gltf

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	zz "github.com/qmuntal/gltf/zzverif"
)

// specFS is a file system that accepts any name, records the names it is
// given and fails on request.
type specFS struct {
	files  map[string][]byte
	names  []string
	failAt int // the n-th operation (create, write, close) fails; 0: none
	op     int
	failed bool
	any    bool // a name that is not in files opens a small file
}

var errSpec = errors.New("refused")

func (f *specFS) step() error {
	f.op++
	if f.op == f.failAt {
		f.failed = true
		return errSpec
	}
	return nil
}

func (f *specFS) Create(name string) (io.WriteCloser, error) {
	f.names = append(f.names, name)
	if err := f.step(); err != nil {
		return nil, err
	}
	f.files[name] = []byte{}
	return &specFile{f, name}, nil
}

type specFile struct {
	f    *specFS
	name string
}

func (w *specFile) Write(p []byte) (int, error) {
	if err := w.f.step(); err != nil {
		return len(p) / 2, err
	}
	w.f.files[w.name] = append(w.f.files[w.name], p...)
	return len(p), nil
}
func (w *specFile) Close() error { return w.f.step() }

func (f *specFS) Open(name string) (fs.File, error) {
	f.names = append(f.names, name)
	b, ok := f.files[name]
	if !ok && f.any {
		b, ok = []byte{1, 2, 3}, true
	}
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	return &specRead{bytes.NewReader(b)}, nil
}

type specRead struct{ *bytes.Reader }

func (*specRead) Stat() (fs.FileInfo, error) { return nil, errSpec }
func (*specRead) Close() error               { return nil }

// specWriter accepts the first limit bytes.
type specWriter struct {
	out    []byte
	limit  int // bytes accepted; negative: only write number -limit fails
	writes int
	failed bool
}

func (w *specWriter) Write(p []byte) (int, error) {
	if w.writes++; w.limit < 0 {
		n := len(p)
		if w.writes == -w.limit {
			w.failed = true
			n /= 2
		}
		w.out = append(w.out, p[:n]...)
		if n < len(p) || w.writes == -w.limit {
			return n, errSpec
		}
		return n, nil
	}
	if len(w.out)+len(p) > w.limit {
		n := w.limit - len(w.out)
		w.out = append(w.out, p[:n]...)
		w.failed = true
		return n, errSpec
	}
	w.out = append(w.out, p...)
	return len(p), nil
}

// specLocal: the name stays below the directory whatever separator is used.
func specLocal(name string) bool {
	return filepath.IsLocal(name) && filepath.IsLocal(strings.ReplaceAll(name, "\\", "/"))
}

// The binary container, byte by byte.

//verif:prop C13
//verif:bounded 30000 random valid documents with JSON text and buffers of every length modulo 4
func Verif_EncodeContainer(doc *Document, asBinary bool) {
	var out bytes.Buffer
	e := NewEncoder(&out)
	e.AsBinary = asBinary
	err := e.Encode(doc)
	b := out.Bytes()
	zz.Requires(err == nil)
	if !asBinary {
		zz.Ensures("C13.json", func() bool { return json.Valid(b) })
		return
	}
	le := binary.LittleEndian
	ok := len(b) >= 20
	zz.Ensures("C13.header", func() bool {
		return ok && string(b[:4]) == "glTF" && le.Uint32(b[4:]) == 2 && int(le.Uint32(b[8:])) == len(b) && string(b[16:20]) == "JSON"
	})
	if !ok {
		return
	}
	n := int(le.Uint32(b[12:]))
	zz.Ensures("C13.json.chunk", func() bool {
		if n%4 != 0 || 20+n > len(b) {
			return false
		}
		text := bytes.TrimRight(b[20:20+n], " ")
		return json.Valid(text) && n-len(text) < 4
	})
	rest := []byte(nil)
	if 20+n <= len(b) {
		rest = b[20+n:]
	}
	if len(doc.Buffers) == 0 || doc.Buffers[0].URI != "" {
		zz.Ensures("C13.no.bin", func() bool { return len(rest) == 0 })
		return
	}
	data := doc.Buffers[0].Data
	zz.Ensures("C13.bin.chunk", func() bool {
		m := (len(data) + 3) / 4 * 4
		if len(rest) != 8+m || int(le.Uint32(rest)) != m || le.Uint32(rest[4:]) != 0x004e4942 || !bytes.Equal(rest[8:8+len(data)], data) {
			return false
		}
		for _, x := range rest[8+len(data):] {
			if x != 0 {
				return false
			}
		}
		return true
	})
}

// Failures of the stream, of the external files and of the JSON encoding.

//verif:prop C14
//verif:bounded 40000 random valid documents, the stream failing after any number of bytes, any operation on external files failing, values JSON cannot hold
func Verif_EncodeFailures(doc *Document, asBinary bool, limit, failAt int, unencodable bool) {
	w := &specWriter{limit: limit}
	f := &specFS{files: map[string][]byte{}, failAt: failAt}
	if unencodable {
		doc.Extras = func() {}
	}
	want := map[string][]byte{}
	for _, b := range doc.Buffers {
		if b.URI != "" && !strings.HasPrefix(b.URI, "data:") {
			want[b.URI] = b.Data
		}
	}
	e := NewEncoderFS(w, f)
	e.AsBinary = asBinary
	err := e.Encode(doc)
	zz.Ensures("C14.stream", func() bool { return !w.failed || err != nil })
	zz.Ensures("C14.files", func() bool { return !f.failed || err != nil })
	zz.Ensures("C14.json", func() bool { return !unencodable || err != nil })
	zz.Ensures("C14.complete", func() bool {
		if err != nil {
			return true
		}
		if asBinary && (len(w.out) < 12 || int(binary.LittleEndian.Uint32(w.out[8:])) != len(w.out)) {
			return false
		}
		for k, b := range want {
			if !bytes.Equal(f.files[k], b) {
				return false
			}
		}
		return len(f.files) == len(want)
	})
}

//verif:prop C14
//verif:bounded 300 random valid documents saved to a scratch directory, to a directory that does not exist and to /dev/full
func Verif_SaveFailures(doc *Document, asBinary bool) {
	save := Save
	if asBinary {
		save = SaveBinary
	}
	dir, err := os.MkdirTemp("", "zzsave")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	e1 := save(doc, filepath.Join(dir, "none", "x.gltf"))
	zz.Ensures("C14.save.create", func() bool { return e1 != nil })
	plain := specCopy(doc)
	plain.Buffers = nil
	e2 := save(plain, "/dev/full")
	zz.Ensures("C14.save.write", func() bool { return e2 != nil })
	name := filepath.Join(dir, "x.gltf")
	os.Mkdir(filepath.Join(dir, "d"), 0o755)
	e3 := save(doc, name)
	var out bytes.Buffer
	f := &specFS{files: map[string][]byte{}}
	e := NewEncoderFS(&out, f)
	e.AsBinary = asBinary
	e.Encode(doc)
	zz.Ensures("C14.save.complete", func() bool {
		got, err := os.ReadFile(name)
		if e3 != nil || err != nil || !bytes.Equal(got, out.Bytes()) {
			return false
		}
		for k, b := range f.files {
			if got, err := os.ReadFile(filepath.Join(dir, k)); err != nil || !bytes.Equal(got, b) {
				return false
			}
		}
		return true
	})
	// an external file that cannot be created
	if len(f.files) > 0 {
		k := specKeys(f.files)[0]
		sub := filepath.Join(dir, "y")
		os.MkdirAll(filepath.Join(sub, k), 0o755)
		os.MkdirAll(filepath.Join(sub, "d"), 0o755)
		e4 := save(doc, filepath.Join(sub, "y.gltf"))
		zz.Ensures("C14.save.external", func() bool { return e4 != nil })
	}
}

// Encoding changes nothing that can be reached from the document.

//verif:prop C21
//verif:bounded 40000 random valid documents, both formats, with and without file system, succeeding and failing
func Verif_EncodePure(doc *Document, asBinary, withFS bool, limit, failAt int, indent string) {
	zz.Requires(doc != nil)
	s := zz.Snapshot().Watch(doc)
	w := &specWriter{limit: limit}
	var e *Encoder
	if withFS {
		e = NewEncoderFS(w, &specFS{files: map[string][]byte{}, failAt: failAt})
	} else {
		e = NewEncoder(w)
	}
	e.AsBinary = asBinary
	e.SetJSONIndent("", indent)
	e.Encode(doc)
	s.Unchanged("C21.unchanged")
}

// specFrag delivers its bytes in pieces.
type specFrag struct {
	data []byte
	frag []byte
	i    int
	idle bool
}

func (f *specFrag) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(f.data) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if len(f.frag) > 0 {
		n = int(f.frag[f.i%len(f.frag)]) % 40
		f.i++
		if n == 39 {
			n = 4096
		}
		if n == 0 && !f.idle {
			f.idle = true
			return 0, nil
		}
		if n == 0 {
			n = 1
		}
		f.idle = false
	}
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], f.data)
	f.data = f.data[n:]
	if len(f.data) == 0 && len(f.frag) > 0 && f.frag[0]&64 != 0 {
		return n, io.EOF
	}
	return n, nil
}

func specU32(v int) []byte { return binary.LittleEndian.AppendUint32(nil, uint32(v)) }

// specGLB is a container for the given text and bytes; pad bytes of white
// space follow the text.
func specGLB(text string, pad int, bin []byte, binPad int) []byte {
	text += strings.Repeat(" ", pad)
	b := append([]byte("glTF"), specU32(2)...)
	n := 20 + len(text)
	if bin != nil {
		n += 8 + len(bin) + binPad
	}
	b = append(b, specU32(n)...)
	b = append(b, specU32(len(text))...)
	b = append(b, "JSON"...)
	b = append(b, text...)
	if bin != nil {
		b = append(b, specU32(len(bin)+binPad)...)
		b = append(b, "BIN\x00"...)
		b = append(b, bin...)
		b = append(b, make([]byte, binPad)...)
	}
	return b
}

// A consistent binary file, delivered in any pieces; and the same file with
// one fault.

//verif:prop C15
//verif:bounded 60000 files with up to 9000 bytes of padding and 9000 bytes of data, delivered in random pieces, and one fault of every kind
func Verif_DecodeFraming(name string, pad int, bin []byte, binPad int, frag []byte, fault, at int) {
	zz.Requires(len(bin) > 0)
	text := `{"asset":{"version":"2.0","generator":` + specText(name) + `},"buffers":[{"byteLength":` + fmt.Sprint(len(bin)) + `}]}`
	b := specGLB(text, pad, bin, binPad)
	n := int(binary.LittleEndian.Uint32(b[12:]))
	bad := true
	switch fault {
	case 1: // JSON chunk type
		b[16+at%4] ^= byte(1 + at%255)
	case 2: // BIN chunk type
		b[24+n+at%4] ^= byte(1 + at%255)
	case 3: // JSON chunk larger than the file says
		copy(b[12:], specU32(len(b)-20+1+at))
	case 4: // BIN chunk shorter than the buffer
		copy(b[20+n:], specU32(at%len(bin)))
	case 5: // truncated inside the data or before
		b = b[:20+at%(n+8+len(bin))]
	case 6: // a JSON chunk that nearly overflows
		copy(b[12:], specU32(0xffffffff-at%20))
	default:
		bad = false
	}
	doc := new(Document)
	err := NewDecoder(&specFrag{data: b, frag: append([]byte(nil), frag...)}).Decode(doc)
	if bad {
		zz.Ensures("C15.fault", func() bool { return err != nil })
		return
	}
	zz.Ensures("C15.ok", func() bool { return err == nil })
	zz.Ensures("C15.bytes", func() bool {
		return err != nil || len(doc.Buffers) == 1 && bytes.Equal(doc.Buffers[0].Data, bin) && doc.Asset.Generator == name
	})
}

// A binary file whose first buffer has a URI has no BIN chunk to read, and
// the JSON format is read from pieces as well.

//verif:prop C15
//verif:bounded 20000 random valid documents encoded in either format and delivered in random pieces
func Verif_DecodePieces(doc *Document, asBinary bool, frag []byte) {
	var out bytes.Buffer
	f := &specFS{files: map[string][]byte{}}
	e := NewEncoderFS(&out, f)
	e.AsBinary = asBinary
	zz.Requires(e.Encode(doc) == nil)
	back := new(Document)
	err := NewDecoderFS(&specFrag{data: out.Bytes(), frag: append([]byte(nil), frag...)}, f).Decode(back)
	zz.Ensures("C15.pieces.ok", func() bool { return err == nil })
	zz.Ensures("C15.pieces.bytes", func() bool {
		if err != nil {
			return true
		}
		if len(back.Buffers) != len(doc.Buffers) {
			return false
		}
		for i, b := range doc.Buffers {
			if !bytes.Equal(back.Buffers[i].Data, b.Data) {
				return false
			}
		}
		return true
	})
}

// Decoding arbitrary bytes.

//verif:prop C16
//verif:bounded 150000 mutations of valid files: any JSON value replaced by null, another type, a negative or huge number; header and chunk bytes changed; truncation; random bytes
func Verif_DecodeArbitrary(data []byte, frag []byte, withFS bool) {
	doc := new(Document)
	f := &specFS{files: map[string][]byte{"a.bin": {1, 2, 3, 4, 5}}, any: true}
	d := NewDecoder(&specFrag{data: data, frag: append([]byte(nil), frag...)})
	if withFS {
		d.Fsys = f
	}
	err := d.Decode(doc)
	zz.Ensures("C16.size", func() bool {
		if err != nil {
			return true
		}
		for _, b := range doc.Buffers {
			if b == nil || len(b.Data) > b.ByteLength && !strings.HasPrefix(b.URI, "data:") {
				return false
			}
		}
		return true
	})
	for _, n := range f.names {
		zz.Ensures("C16.size.local", func() bool { return specLocal(n) })
	}
}

//verif:prop C16
//verif:bounded 20000 files with external buffers shorter and longer than declared
func Verif_DecodeExternal(declared int, content []byte) {
	zz.Requires(declared > 0)
	text := fmt.Sprintf(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":%d,"uri":"a.bin"}]}`, declared)
	doc := new(Document)
	err := NewDecoderFS(strings.NewReader(text), &specFS{files: map[string][]byte{"a.bin": content}}).Decode(doc)
	zz.Ensures("C16.external", func() bool {
		if err != nil {
			return declared > len(content)
		}
		want := content
		if len(want) > declared {
			want = want[:declared]
		}
		return bytes.Equal(doc.Buffers[0].Data, want) && cap(doc.Buffers[0].Data) >= len(want)
	})
}

// specMutate changes one value somewhere in a generic JSON value.
func specMutate(r *zz.R, v any, depth int) any {
	if depth == 0 || r.Intn(5) == 0 {
		return zz.Pick[any](r, nil, -1.0, 0.0, 1e9, 4294967295.0, 9223372036854775807.0, -9223372036854775808.0, 1e300, 0.5, "", "x", true, []any{}, []any{nil}, map[string]any{}, "data:application/octet-stream;base64", "data:application/octet-stream;base64,=", "data:image/png;base64")
	}
	switch t := v.(type) {
	case []any:
		if len(t) == 0 {
			return []any{nil}
		}
		i := r.Intn(len(t))
		t[i] = specMutate(r, t[i], depth-1)
		return t
	case map[string]any:
		ks := make(map[string][]byte)
		for k := range t {
			ks[k] = nil
		}
		l := specKeys(ks)
		if len(l) == 0 {
			return nil
		}
		k := l[r.Intn(len(l))]
		if r.Intn(12) == 0 {
			delete(t, k)
		} else {
			t[k] = specMutate(r, t[k], depth-1)
		}
		return t
	}
	return specMutate(r, v, 0)
}

func specMutated(r *zz.R) []byte {
	switch r.Intn(12) {
	case 0:
		return r.Bytes(r.Intn(64))
	case 1:
		return append([]byte("glTF"), r.Bytes(r.Intn(40))...)
	}
	doc := specDoc(r)
	v := specJSON(reflect.ValueOf(specWire(doc, r.Intn(2) == 0)))
	for i := r.Intn(4); i >= 0; i-- {
		v = specMutate(r, v, 1+r.Intn(5))
	}
	if m, ok := v.(map[string]any); ok && r.Intn(3) == 0 {
		m["buffers"] = []any{zz.Pick[any](r,
			nil, map[string]any{"byteLength": 5.0}, map[string]any{"byteLength": -5.0, "uri": "a.bin"},
			map[string]any{"byteLength": 4.0, "uri": "a.bin"}, map[string]any{"byteLength": float64(r.Intn(9)), "uri": specURI(r)}),
			map[string]any{"byteLength": float64(r.Intn(5)), "uri": specURI(r)}}
	}
	text := specText(v)
	if r.Intn(3) == 0 {
		if r.Intn(4) == 0 {
			return []byte(text[:r.Intn(len(text)+1)])
		}
		return []byte(text)
	}
	b := specGLB(text, r.Intn(5), r.Bytes(r.Intn(20)), r.Intn(4))
	if len(b) < 20 {
		return b
	}
	switch r.Intn(6) {
	case 0:
		b = b[:r.Intn(len(b)+1)]
	case 1:
		o := r.Intn(20)
		b[o] = byte(r.Uint32())
	case 2:
		copy(b[zz.Pick(r, 8, 12, 20+len(text)):], specU32(zz.Pick(r, 0, 1, len(text), len(text)+1, 1<<20, -1, -20, -12, 1<<31)))
	}
	return b
}

// specURI is a resource name in any of the notations a URI allows.
func specURI(r *zz.R) string {
	if r.Intn(10) == 0 {
		return zz.Pick(r, "data:application/octet-stream;base64,AAEC", "data:application/octet-stream;base64,A", "data:application/octet-stream;base64", "data:image/png;base64,AA==", "data:,x", "http://h/a.bin", "file:///etc/passwd", "file:a.bin", "C:a.bin", "C:\\a.bin", "//h/a", "\\\\h\\a", "?q", "#f", "a.bin?q=1", "a.bin#f", ":a", "%3A", "file%3A///x", "x:../a", "\x00", "%00a")
	}
	var b strings.Builder
	for i := r.Intn(6); i >= 0; i-- {
		b.WriteString(zz.Pick(r, "a", "a.bin", "..", ".", "%2e%2e", ".%2E", "%2e", "/", "\\", "%2f", "%5c", "%5C", "%2F", "%25", "%252e", "%", "/", "../", "./", "/./", "%20", "\u00e9", "..\\"))
	}
	return b.String()
}

// The names given to the file system.

//verif:prop C20
//verif:bounded 200000 resource names of up to six pieces in every URI notation, decoding and encoding
func Verif_ResourceNames(uris []string, n int) {
	f := &specFS{files: map[string][]byte{}, any: true}
	doc := &Document{}
	var l []any
	for _, u := range uris {
		doc.Buffers = append(doc.Buffers, &Buffer{URI: u, ByteLength: 2, Data: []byte{1, 2}})
		l = append(l, map[string]any{"byteLength": 2, "uri": u})
	}
	e := NewEncoderFS(io.Discard, f)
	e.AsBinary = n%2 == 0
	e.Encode(doc)
	created := f.names
	f.names = nil
	text := specText(map[string]any{"asset": map[string]any{"version": "2.0"}, "buffers": l, "images": l})
	NewDecoderFS(strings.NewReader(text), f).Decode(new(Document))
	opened := f.names
	zz.Note = fmt.Sprintf("created %q opened %q\n", created, opened)
	for _, x := range created {
		zz.Ensures("C20.encode.local", func() bool { return specLocal(x) })
	}
	for _, x := range opened {
		zz.Ensures("C20.decode.local", func() bool { return specLocal(x) })
	}
}

// A plain relative name is what the file system gets, percent-decoded.

//verif:prop C20
//verif:bounded 20000 local names with escapes, spaces and directories
func Verif_ResourceLocal(dir, base string) {
	name := base
	if dir != "" {
		name = dir + "/" + base
	}
	var esc strings.Builder
	for i := 0; i < len(name); i++ {
		if c := name[i]; c == ' ' || c == '%' || c >= 0x80 || c == '?' || c == '#' {
			fmt.Fprintf(&esc, "%%%02X", c)
		} else {
			esc.WriteByte(c)
		}
	}
	f := &specFS{files: map[string][]byte{name: {7, 8}}}
	text := specText(map[string]any{"asset": map[string]any{"version": "2.0"}, "buffers": []any{map[string]any{"byteLength": 2, "uri": esc.String()}}})
	doc := new(Document)
	err := NewDecoderFS(strings.NewReader(text), f).Decode(doc)
	zz.Ensures("C20.decode.reaches", func() bool {
		return err == nil && len(f.names) == 1 && f.names[0] == name && bytes.Equal(doc.Buffers[0].Data, []byte{7, 8})
	})
	g := &specFS{files: map[string][]byte{}}
	err2 := NewEncoderFS(io.Discard, g).Encode(&Document{Buffers: []*Buffer{{URI: esc.String(), ByteLength: 2, Data: []byte{7, 8}}}})
	zz.Ensures("C20.encode.reaches", func() bool {
		return err2 == nil && len(g.names) == 1 && g.names[0] == name && bytes.Equal(g.files[name], []byte{7, 8})
	})
}

// Data URIs.

//verif:prop C22
//verif:bounded 60000 URIs: each supported prefix, whole and truncated, other prefixes, valid, truncated and damaged content
func Verif_DataURI(prefix int, data []byte, cut int, damage string) {
	pre := []string{"data:application/octet-stream;base64", "data:image/png;base64", "data:image/jpeg;base64", "data:image/gif;base64", "data:application/octet-stream", "data:application/gltf-buffer;base64", "Data:application/octet-stream;base64", "xdata:image/png;base64"}[prefix]
	enc := base64.StdEncoding.EncodeToString(data)
	uri := pre + "," + enc
	whole := cut == 0 && damage == ""
	if cut > 0 {
		uri = uri[:len(uri)-cut%(len(uri)+1)]
	}
	uri += damage
	content := strings.TrimPrefix(uri, pre+",")
	_, verr := base64.StdEncoding.DecodeString(content)
	valid := strings.HasPrefix(uri, pre+",") && verr == nil
	b, im := &Buffer{URI: uri, ByteLength: 1 << 20}, &Image{URI: uri}
	zz.Ensures("C22.recognised", func() bool {
		has := strings.HasPrefix(uri, pre)
		return b.IsEmbeddedResource() == (has && prefix == 0) && im.IsEmbeddedResource() == (has && (prefix == 1 || prefix == 2))
	})
	check := func(emb bool, got []byte, err error, label string) {
		zz.Ensures("C22."+label+".exact", func() bool { return !emb || !whole || err == nil && bytes.Equal(got, data) })
		zz.Ensures("C22."+label+".malformed", func() bool { return !emb || valid || err != nil || len(got) == 0 })
		zz.Ensures("C22."+label+".other", func() bool { return emb || len(got) == 0 && err == nil })
	}
	got, err := im.MarshalData()
	if strings.HasPrefix(uri, pre+",") || !im.IsEmbeddedResource() {
		check(im.IsEmbeddedResource(), got, err, "image")
	}
	// buffers are decoded with the document
	if b.IsEmbeddedResource() && strings.HasPrefix(uri, pre+",") {
		doc := new(Document)
		text := specText(map[string]any{"asset": map[string]any{"version": "2.0"}, "buffers": []any{map[string]any{"byteLength": len(data) + 1, "uri": uri}}})
		err := NewDecoder(strings.NewReader(text)).Decode(doc)
		var got []byte
		if len(doc.Buffers) == 1 {
			got = doc.Buffers[0].Data
		}
		check(true, got, err, "buffer")
	}
}

//verif:prop C22
//verif:bounded 20000 buffers of up to 60 bytes
func Verif_EmbeddedResource(data []byte, uri string) {
	b := &Buffer{Data: data, URI: uri, ByteLength: len(data)}
	keep := append([]byte(nil), data...)
	b.EmbeddedResource()
	zz.Ensures("C22.mark", func() bool {
		return b.IsEmbeddedResource() && b.URI == "data:application/octet-stream;base64,"+base64.StdEncoding.EncodeToString(keep) && bytes.Equal(b.Data, keep)
	})
	if len(keep) == 0 {
		return
	}
	doc := new(Document)
	text := specText(map[string]any{"asset": map[string]any{"version": "2.0"}, "buffers": []any{map[string]any{"byteLength": len(keep), "uri": b.URI}}})
	err := NewDecoder(strings.NewReader(text)).Decode(doc)
	zz.Ensures("C22.mark.roundtrip", func() bool {
		return err == nil && len(doc.Buffers) == 1 && bytes.Equal(doc.Buffers[0].Data, keep)
	})
}

// Extensions.

var specDecoders = map[string]string{}

//verif:prop C23
//verif:bounded 60000 objects of up to six keys, decoders that succeed, fail, panic on nothing and are replaced by later registrations
func Verif_ExtensionDecode(keys []string, values []string, kinds []int, old []string) {
	for i, k := range keys {
		g := len(specDecoders)
		switch {
		case kinds[i] < 0 || !strings.HasPrefix(k, "ZZR_"):
			continue
		case kinds[i]%3 == 0:
			RegisterExtension(k, func(b []byte) (any, error) { return "garbage", errSpec })
			specDecoders[k] = "!"
		case kinds[i]%3 == 1:
			tag := fmt.Sprint(g, "-", i, "-", len(values[i]))
			RegisterExtension(k, func(b []byte) (any, error) { return tag + string(b), nil })
			specDecoders[k] = tag
		case kinds[i]%3 == 2:
			RegisterExtension(k, func(b []byte) (any, error) { return nil, nil })
			specDecoders[k] = "nil"
		}
	}
	decoded := func(k, v string) any {
		switch tag, ok := specDecoders[k]; {
		case !ok || tag == "!":
			return json.RawMessage(v)
		case tag == "nil":
			return nil
		default:
			return tag + v
		}
	}
	var b strings.Builder
	for i, k := range keys {
		if i > 0 {
			b.WriteString(" , ")
		}
		b.WriteString(specText(k) + " : " + values[i])
	}
	ext := Extensions{}
	for _, k := range old {
		ext[k] = 1
	}
	err := ext.UnmarshalJSON([]byte("{" + b.String() + "}"))
	zz.Ensures("C23.ok", func() bool { return err == nil })
	want := map[string]any{}
	for _, k := range old {
		want[k] = 1
	}
	for i, k := range keys {
		want[k] = decoded(k, values[i])
	}
	zz.Note = fmt.Sprintf("got %q want %q\n", ext, want)
	zz.Ensures("C23.values", func() bool { return reflect.DeepEqual(map[string]any(ext), want) })
	// through a document
	doc := new(Document)
	derr := NewDecoder(strings.NewReader(`{"asset":{"version":"2.0"},"extensions":{` + b.String() + `}}`)).Decode(doc)
	for _, k := range old {
		delete(want, k)
	}
	for i, k := range keys {
		want[k] = decoded(k, values[i])
	}
	zz.Ensures("C23.document", func() bool {
		return derr == nil && (len(want) == 0 || reflect.DeepEqual(map[string]any(doc.Extensions), want))
	})
}

//verif:prop C23
//verif:race
//verif:bounded 2000 rounds of registrations and parses that run at the same time
func Verif_ExtensionConcurrent(keys []string, rounds int) {
	bad := make(chan string, len(keys))
	for _, k := range keys {
		go func(k string) {
			why := ""
			for i := 0; i < rounds; i++ {
				tag := fmt.Sprint(k, i)
				RegisterExtension(k, func([]byte) (any, error) { return tag, nil })
				ext := Extensions{}
				err := ext.UnmarshalJSON([]byte(specText(map[string]any{k: i, "ZZ_other": 1})))
				if err != nil || len(ext) != 2 || ext[k] != tag || !reflect.DeepEqual(ext["ZZ_other"], json.RawMessage("1")) {
					why = fmt.Sprintf("%s: got %q want %q\n", k, ext, tag)
				}
			}
			bad <- why
		}(k)
	}
	for range keys {
		zz.Note += <-bad
	}
	note := zz.Note
	zz.Ensures("C23.latest", func() bool { return note == "" })
}

func init() {
	zz.Register("ExtensionConcurrent", Verif_ExtensionConcurrent, func(r *zz.R) (keys []string, rounds int) {
		for i := 2 + r.Intn(7); i > 0; i-- {
			keys = append(keys, fmt.Sprint("ZZC_", i))
		}
		return keys, 1 + r.Intn(200)
	})
	zz.Register("EncodeContainer", Verif_EncodeContainer, func(r *zz.R) (*Document, bool) {
		doc := specDoc(r)
		doc.Asset.Generator = strings.Repeat("x", r.Intn(8))
		if r.Intn(3) == 0 {
			b := r.Bytes(r.Intn(70))
			doc.Buffers = append([]*Buffer{{Data: b, ByteLength: len(b)}}, doc.Buffers...)
		}
		return doc, r.Intn(4) > 0
	})
	limit := func(r *zz.R) int {
		return zz.Pick(r, 1<<30, r.Intn(20), 20+r.Intn(60), r.Intn(2000))
	}
	zz.Register("EncodeFailures", Verif_EncodeFailures, func(r *zz.R) (*Document, bool, int, int, bool) {
		doc := specDoc(r)
		bin := r.Intn(2) == 0
		l := 1 << 30
		if r.Intn(2) == 0 {
			var out bytes.Buffer
			e := NewEncoder(&out)
			e.AsBinary = bin
			e.Encode(specCopy(doc))
			l = r.Intn(out.Len() + 1)
			if r.Intn(2) == 0 && l < out.Len() {
				l = out.Len() - 1 - r.Intn(zz.Pick(r, 4, 30))
				if l < 0 {
					l = 0
				}
			}
		}
		if r.Intn(3) == 0 {
			l = -1 - r.Intn(zz.Pick(r, 7, 40))
		}
		return doc, bin, l, r.Intn(8), r.Intn(12) == 0
	})
	zz.Register("SaveFailures", Verif_SaveFailures, func(r *zz.R) (*Document, bool) { return specDoc(r), r.Intn(2) == 0 })
	zz.Register("EncodePure", Verif_EncodePure, func(r *zz.R) (*Document, bool, bool, int, int, string) {
		doc := specDoc(r)
		if r.Intn(4) == 0 {
			doc.Buffers = append(doc.Buffers, &Buffer{URI: specURI(r), ByteLength: 3, Data: []byte{1, 2, 3}})
		}
		return doc, r.Intn(2) == 0, r.Intn(2) == 0, limit(r), r.Intn(9), zz.Pick(r, "", " ")
	})
	frag := func(r *zz.R) []byte {
		if r.Intn(3) == 0 {
			return nil
		}
		return r.Bytes(1 + r.Intn(5))
	}
	zz.Register("DecodeFraming", Verif_DecodeFraming, func(r *zz.R) (string, int, []byte, int, []byte, int, int) {
		f := 0
		if r.Intn(2) == 0 {
			f = 1 + r.Intn(6)
		}
		return specString(r), zz.Pick(r, 0, 1, 2, 3, r.Intn(40), r.Intn(600), r.Intn(9000)), r.Bytes(zz.Pick(r, 1+r.Intn(12), 1+r.Intn(9000))), r.Intn(5), frag(r), f, r.Intn(zz.Pick(r, 8, 40, 20000))
	})
	zz.Register("DecodePieces", Verif_DecodePieces, func(r *zz.R) (*Document, bool, []byte) { return specDoc(r), r.Intn(2) == 0, frag(r) })
	zz.Register("DecodeArbitrary", Verif_DecodeArbitrary, func(r *zz.R) ([]byte, []byte, bool) { return specMutated(r), frag(r), r.Intn(2) == 0 })
	zz.Register("DecodeExternal", Verif_DecodeExternal, func(r *zz.R) (int, []byte) {
		return zz.Pick(r, 1+r.Intn(12), 1+r.Intn(600), 1<<40), r.Bytes(zz.Pick(r, r.Intn(12), r.Intn(600)))
	})
	zz.Register("ResourceNames", Verif_ResourceNames, func(r *zz.R) ([]string, int) {
		l := []string{specURI(r)}
		if r.Intn(3) == 0 {
			l = append(l, specURI(r))
		}
		return l, r.Intn(2)
	})
	zz.Register("ResourceLocal", Verif_ResourceLocal, func(r *zz.R) (string, string) {
		return zz.Pick(r, "", "d", "d e/f", "..a"), zz.Pick(r, "a.bin", "a b.bin", "\u00e9.bin", "100%.bin", "q?.bin", "h#.bin", "...", "a..b")
	})
	zz.Register("DataURI", Verif_DataURI, func(r *zz.R) (int, []byte, int, string) {
		return zz.Pick(r, 0, 0, 1, 2, r.Intn(8)), r.Bytes(r.Intn(60)), zz.Pick(r, 0, 0, 1+r.Intn(6), r.Intn(100)), zz.Pick(r, "", "", "", "=", "!", "A", "AA", "\n", "AAAA", "====", "\u00e9", ",", ",AAAA", ";base64,AAAA", " ", " AAAA", "%3D", "-_==", "#AAAA", "\x00", "AA==AA==")
	})
	zz.Register("EmbeddedResource", Verif_EmbeddedResource, func(r *zz.R) ([]byte, string) {
		return r.Bytes(r.Intn(60)), zz.Pick(r, "", "x.bin", "data:application/octet-stream;base64,AA==")
	})
	zz.Register("ExtensionDecode", Verif_ExtensionDecode, func(r *zz.R) (keys []string, values []string, kinds []int, old []string) {
		for _, k := range []string{"ZZR_a", "ZZR_b", "ZZR_c", "ZZ_u", "ZZ_\u00e9", "KHR_zz", ""} {
			if r.Intn(2) == 0 {
				keys = append(keys, k)
				values = append(values, zz.Pick(r, "null", "1", "1.50", `"a b"`, `{ "x" : [1, 2 ] }`, "[]", "{}", `"\u00e9"`, "-0", specText(specAny(r, 2))))
				kinds = append(kinds, r.Intn(9)-3)
			}
		}
		if r.Intn(4) == 0 {
			old = append(old, zz.Pick(r, "ZZ_old", "ZZR_a", "ZZ_u", "ZZ_u", ""))
		}
		return
	})
}
