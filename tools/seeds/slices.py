SEEDS=[
dict(id='c03-partial-elem',prop='C03',pkg='binary',file='binary/slice.go',
 edits=[('''	l := len(v) / (c.ByteSize() * t.Components())
	var rem int''','''	e := c.ByteSize() * t.Components()
	l := (len(v) + e - 1) / e
	var rem int'''),('''	s := unsafe.Slice((*T)(unsafe.Pointer(ptr)), length)
	if rem > 0 {''','''	if rem == 0 && length > 0 && length*int(unsafe.Sizeof(*new(T))) > cap(v) {
		length, rem = length-1, 1
		if length*int(unsafe.Sizeof(*new(T))) > len(v)+4 {
			length, rem = 0, length+1
		}
	}
	s := unsafe.Slice((*T)(unsafe.Pointer(ptr)), length)
	if rem > 0 {''')],
 demo='''package binary

import (
	"testing"
	"unsafe"

	"github.com/qmuntal/gltf"
)

// The backing buffer holds two elements and a bit: a slice of four must not use memory behind it.
func TestSeedDemo(t *testing.T) {
	mem := make([]byte, 64)
	for i := range mem {
		mem[i] = 0xAA
	}
	buf := mem[:13:13]
	v, err := MakeSliceBuffer(gltf.ComponentUshort, gltf.AccessorVec3, 4, buf)
	if err != nil {
		t.Fatal(err)
	}
	s := v.([][3]uint16)
	if len(s) != 4 {
		t.Fatalf("len = %d", len(s))
	}
	if s[2] != ([3]uint16{}) && uintptr(unsafe.Pointer(&s[0])) != uintptr(unsafe.Pointer(&mem[0])) {
		t.Fatalf("element 2 was read from outside the buffer: %v", s[2])
	}
}
''',needs='a backing buffer whose capacity is not a multiple of the element size, and a count larger than what it holds',what='castSlice rounds the number of elements in the buffer up and reads past its capacity'),
dict(id='c03-mat3-type',prop='C03',pkg='binary',file='binary/slice.go',
 edits=[('''	case gltf.AccessorMat2:
		tp = reflect.ArrayOf(2, reflect.ArrayOf(2, tp))
''','''	case gltf.AccessorMat2:
		if tp.Size() > 2 || count > 0 {
			tp = reflect.ArrayOf(2, tp)
		} else {
			tp = reflect.ArrayOf(4, tp)
		}
		tp = reflect.ArrayOf(2, tp)
''')],
 demo='''package binary

import (
	"testing"

	"github.com/qmuntal/gltf"
)

func TestSeedDemo(t *testing.T) {
	for _, n := range []int{0, 1} {
		v, err := MakeSlice(gltf.ComponentUshort, gltf.AccessorMat2, n)
		if err != nil {
			t.Fatal(err)
		}
		if _, ok := v.([][2][2]uint16); !ok {
			t.Fatalf("count %d: got %T", n, v)
		}
	}
}
''',needs='an empty slice of 2x2 matrices with one- or two-byte components',what='MakeSlice returns [][2][4] for empty small 2x2 matrices'),
dict(id='c03-reslice-grow',prop='C03',pkg='binary',file='binary/slice.go',
 edits=[('''	if rem > 0 {
		return append(s, make([]T, rem)...)
	}
	return s''','''	if rem > 0 {
		g := length
		if g < rem {
			g = rem
		}
		n := make([]T, length+g)
		copy(n, s)
		return n
	}
	return s''')],
 demo='''package binary

import (
	"testing"

	"github.com/qmuntal/gltf"
)

func TestSeedDemo(t *testing.T) {
	v, err := MakeSliceBuffer(gltf.ComponentUbyte, gltf.AccessorScalar, 10, make([]byte, 8))
	if err != nil {
		t.Fatal(err)
	}
	if n := len(v.([]uint8)); n != 10 {
		t.Fatalf("len = %d", n)
	}
}
''',needs='a backing buffer holding more than half, but not all, of the elements',what='growing the backing buffer doubles it, so the slice has more elements than asked for'),
dict(id='c04-byte-mat3',prop='C04',pkg='.',file='gltf.go',
 edits=[('''	case (t == AccessorVec3 || t == AccessorVec2) && (c == ComponentByte || c == ComponentUbyte):
		return 4
''','''	case (t == AccessorVec3 || t == AccessorVec2) && c.ByteSize() <= 1:
		return 4
''')],
 demo='''package gltf

import "testing"

func TestSeedDemo(t *testing.T) {
	if n := SizeOfElement(ComponentType(77), AccessorVec3); n != 0 {
		t.Fatalf("unknown component type has element size %d", n)
	}
}
''',needs='a component type outside the enumeration',what='an unknown component type gets the size of a byte vector'),
]
