SEEDS=[
dict(id='c01-short-vec3-off',prop='C01',pkg='binary',file='binary/binary.go',
 edits=[('''func (ushortComponent) PutMat3(b []byte, v [3][3]uint16) {
	binary.LittleEndian.PutUint16(b, v[0][0])
	binary.LittleEndian.PutUint16(b[2:], v[1][0])
	binary.LittleEndian.PutUint16(b[4:], v[2][0])
''','''func (ushortComponent) PutMat3(b []byte, v [3][3]uint16) {
	binary.LittleEndian.PutUint64(b, uint64(v[0][0])|uint64(v[1][0])<<16|uint64(v[2][0])<<32)
''')],
 demo='''package binary

import "testing"

// The padding bytes of a matrix column belong to nobody: a store must leave them alone.
func TestSeedDemo(t *testing.T) {
	b := make([]byte, 24)
	for i := range b {
		b[i] = 0xAA
	}
	Ushort.PutMat3(b, [3][3]uint16{{1, 2, 3}, {4, 5, 6}, {7, 8, 9}})
	for _, i := range []int{6, 7, 14, 15} {
		if b[i] != 0xAA {
			t.Fatalf("padding byte %d overwritten with %#x", i, b[i])
		}
	}
}
''',needs='a destination whose column padding bytes are not zero',what='PutMat3 of ushort writes the first column with one 64-bit store and clears its padding bytes'),
dict(id='c01-short-sign',prop='C01',pkg='binary',file='binary/binary.go',
 edits=[('''func (ushortComponent) Vec4(b []byte) [4]uint16 {
	return [4]uint16{getUint16(b), getUint16(b[2:]), getUint16(b[4:]), getUint16(b[6:])}''','''func (ushortComponent) Vec4(b []byte) [4]uint16 {
	lo, hi := getUint32(b), getUint32(b[4:])
	return [4]uint16{uint16(lo), uint16(int32(lo<<1) >> 17), uint16(hi), uint16(hi >> 16)}''')],
 demo='''package binary

import "testing"

func TestSeedDemo(t *testing.T) {
	want := [4]uint16{1, 0x8001, 3, 0x8004}
	b := make([]byte, 8)
	Ushort.PutVec4(b, want)
	if got := Ushort.Vec4(b); got != want {
		t.Fatalf("got %v, want %v", got, want)
	}
}
''',needs='a second component whose two top bits differ (0x4000-0xBFFF)',what='Ushort.Vec4 decodes the second component with a lost top bit'),
dict(id='c02-float-vec3-blocks',prop='C02',pkg='binary',file='binary/encode.go',
 edits=[('''	case [][3]float32:
		for i := range data {
			Float.PutVec3(b[e*i:], data[i])
		}''','''	case [][3]float32:
		for i := range data {
			if i > 0 && data[i] == data[i-1] {
				// Same vertex as the previous one: reuse its bytes.
				copy(b[e*i:e*i+sizeOfElement], b[e*(i-1):])
				continue
			}
			Float.PutVec3(b[e*i:], data[i])
		}''')],
 demo='''package binary

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	in := [][3]float32{{0, 1, 2}, {float32(math.Copysign(0, -1)), 1, 2}}
	b := make([]byte, 24)
	if err := Write(b, 0, in); err != nil {
		t.Fatal(err)
	}
	out := make([][3]float32, 2)
	if err := Read(b, 0, out); err != nil {
		t.Fatal(err)
	}
	if !math.Signbit(float64(out[1][0])) {
		t.Fatal("negative zero lost")
	}
}
''',needs='two consecutive vectors that compare equal but differ in bits (a negative zero)',what='Write copies the previous element when it compares equal, losing the sign of zero'),
dict(id='c02-ubyte-vec2-merge',prop='C02',pkg='binary',file='binary/encode.go',
 edits=[('''	case [][2]uint8:
		for i := range data {
			Ubyte.PutVec2(b[e*i:], data[i])
		}''','''	case [][2]uint8:
		for i := range data {
			Ubyte.PutVec4(b[e*i:e*i+4], [4]uint8{data[i][0], data[i][1]})
		}''')],
 demo='''package binary

import "testing"

func TestSeedDemo(t *testing.T) {
	b := make([]byte, 16)
	for i := range b {
		b[i] = 0xEE
	}
	if err := Write(b[:12], 8, [][2]uint8{{1, 2}, {3, 4}}); err != nil {
		t.Fatal(err)
	}
	if b[2] != 0xEE || b[3] != 0xEE {
		t.Fatalf("bytes between the elements were overwritten: %v", b)
	}
}
''',needs='an interleaved destination whose neighbouring bytes already hold another attribute',what='Write of ubyte vec2 clears the two bytes after every element'),
dict(id='c02-uint-read-tail',prop='C02',pkg='binary',file='binary/encode.go',
 edits=[('''	case [][4]int16:
		for i := range data {
			data[i] = Short.Vec4(b[e*i:])
		}''','''	case [][4]int16:
		for i := range data {
			o := e * i
			if o > 1<<16 {
				o = int(uint16(o>>3))<<3 | o&^0x7ffff
			}
			data[i] = Short.Vec4(b[o:])
		}''')],
 demo='''package binary

import "testing"

func TestSeedDemo(t *testing.T) {
	const n = 3
	const stride = 0x10004
	b := make([]byte, stride*(n-1)+8)
	for i := 0; i < n; i++ {
		Short.PutVec4(b[stride*i:], [4]int16{int16(i + 1), 2, 3, 4})
	}
	out := make([][4]int16, n)
	if err := Read(b, stride, out); err != nil {
		t.Fatal(err)
	}
	for i := range out {
		if out[i] != [4]int16{int16(i + 1), 2, 3, 4} {
			t.Fatalf("element %d = %v", i, out[i])
		}
	}
}
''',needs='an element more than 64 KiB into the buffer at an offset that is not a multiple of eight',what='Read of short vec4 rounds the offset of far elements down to a multiple of 8'),
]
