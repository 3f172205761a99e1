#!/usr/bin/env python3
"""Generates the repetitive part of /verif/specs/binary (one harness per
component/shape pair).  The output is committed; re-run after editing."""
import os
D=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','specs')
COMPS=[('Byte','int8',1),('Ubyte','uint8',1),('Short','int16',2),('Ushort','uint16',2),('Uint','uint32',4),('Float','float32',4)]
SHAPES=['Scalar','Vec2','Vec3','Vec4','Mat2','Mat3','Mat4']
def dims(s):
    if s=='Scalar': return (1,1)
    n=int(s[3])
    return (n,1) if s[0]=='V' else (n,n)
def gotype(el,s):
    r,c=dims(s)
    if s=='Scalar': return el
    if s[0]=='V': return '[%d]%s'%(r,el)
    return '[%d][%d]%s'%(r,r,el)
def comps(s,size):
    """(accessor suffix, byte offset) of every component"""
    r,c=dims(s)
    if s=='Scalar': return [('',0)]
    if s[0]=='V': return [('[%d]'%i,i*size) for i in range(r)]
    cs=(r*size+3)//4*4
    return [('[%d][%d]'%(i,k),k*cs+i*size) for k in range(r) for i in range(r)]
def esize(s,size):
    r,c=dims(s)
    if s[0]=='M': return ((r*size+3)//4*4)*r
    n=r*size
    if s in('Vec2','Vec3') and size<4: n=(n+3)//4*4
    return n
def extent(s,size): return max(o for _,o in comps(s,size))+size
BITS={1:'spec8',2:'spec16',4:'spec32'}
def tobits(el,e):
    return {'int8':'uint8(%s)','uint8':'%s','int16':'uint16(%s)','uint16':'%s','uint32':'%s','float32':'math.Float32bits(%s)'}[el]%e
def conj(l): return ' &&\n\t\t\t'.join(l)

HEAD='// Code generated by tools/gen_specs.py. DO NOT EDIT.\n\npackage binary\n\n'
o=[HEAD+'''import (
	"math"

	zz "github.com/qmuntal/gltf/zzverif"
)

var _ = math.Float32bits

func spec8(b []byte, o int) uint8   { return b[o] }
func spec16(b []byte, o int) uint16 { return uint16(b[o]) + 256*uint16(b[o+1]) }
func spec32(b []byte, o int) uint32 {
	return uint32(b[o]) + 256*uint32(b[o+1]) + 65536*uint32(b[o+2]) + 16777216*uint32(b[o+3])
}

func init() {
''']
regs=[]; body=[]
for cn,el,sz in COMPS:
    for s in SHAPES:
        t=gotype(el,s); ex=extent(s,sz); cs=comps(s,sz)
        n='codec_%s_%s'%(cn,s)
        regs.append('\tzz.Register("%s", Verif_%s, func(r *zz.R) ([]byte, %s) { b := r.Bytes(%d + r.Small(6)); var v %s; zz.FillBits(r, &v); return b, v })\n'%(n,n,t,ex,t))
        touched=sorted(set(range(ex))-{b for _,o2 in cs for b in range(o2,o2+sz)})
        gaps=conj(['i != %d'%g for g in touched])
        body.append(f'''
//verif:prop C01
func Verif_{n}(b []byte, v {t}) {{
	zz.Requires(len(b) >= {ex})
	got := {cn}.{s}(b)
	zz.Ensures("C01.get.{cn}.{s}", func() bool {{
		return {conj(['%s == %s(b, %d)'%(tobits(el,'got'+a),BITS[sz],off) for a,off in cs])}
	}})
	sn := zz.Snapshot()
	old := zz.Old(b)
	{cn}.Put{s}(b, v)
	zz.Ensures("C01.put.{cn}.{s}", func() bool {{
		return {conj(['%s(b, %d) == %s'%(BITS[sz],off,tobits(el,'v'+a)) for a,off in cs])}
	}})
	zz.Ensures("C01.frame.{cn}.{s}", func() bool {{
		return zz.Forall({ex}, len(b), func(i int) bool {{ return b[i] == old[i] }}){''.join(' && b[%d] == old[%d]'%(g,g) for g in touched)}
	}})
	sn.Except(b).Unchanged("C01.other.{cn}.{s}")
	back := {cn}.{s}(b)
	zz.Ensures("C01.inverse.{cn}.{s}", func() bool {{
		return {conj(['%s == %s'%(tobits(el,'back'+a),tobits(el,'v'+a)) for a,off in cs])}
	}})
}}
''')
open(D+'/binary/codec.go','w').write(''.join(o+regs+['}\n']+body))

# ---- bulk read / write (C02), slices (C03) ----
TYPES=[]  # (index, elem go type, comp, shape, size, suffix list of (expr, off))
for cn,el,sz in COMPS:
    for s in SHAPES:
        TYPES.append((cn+'_'+s,gotype(el,s),cn,s,sz,[(tobits(el,'v'+a),off) for a,off in comps(s,sz)],esize(s,sz),extent(s,sz)))
for nm,t,cn,sz in (('RGBA','color.RGBA','Ubyte',1),('RGBA64','color.RGBA64','Ushort',2)):
    TYPES.append((nm,t,cn,'Vec4',sz,[('v.'+f,i*sz) for i,f in enumerate('RGBA')],4*sz,4*sz))
o=[HEAD+'''import (
	"image/color"
	"io"
	"math"

	"github.com/qmuntal/gltf"
	zz "github.com/qmuntal/gltf/zzverif"
)

var _ = math.Float32bits
var _ = gltf.SizeOfElement

// SpecFits: n elements of size bytes placed every e bytes lie inside length bytes.
func SpecFits(length, n, e, size int) bool {
	return e >= 0 && (n == 0 || zz.MulLe(n-1, e, length-size))
}

func specStride(stride, size int) int {
	if stride == 0 {
		return size
	}
	return stride
}
''']
for nm,t,cn,s,sz,cs,es,ex in TYPES:
    o.append('''
// SpecAt_%s: the bytes at o are the glTF layout of v.
func SpecAt_%s(b []byte, o int, v %s) bool {
	return %s
}
'''%(nm,nm,t,conj(['%s(b, o+%d) == %s'%(BITS[sz],off,e) if off else '%s(b, o) == %s'%(BITS[sz],e) for e,off in cs])))
N=len(TYPES)
o.append('''
//verif:prop C02
//verif:contract Read
//verif:split %d
func Verif_Read(b []byte, stride int, data any) {
	switch d := data.(type) {
'''%N)
for k,(nm,t,cn,s,sz,cs,es,ex) in enumerate(TYPES):
    dis='\t\tzz.Requires(zz.DisjointMem(b, d))\n' if t=='uint8' else ''
    o.append(f'''	case []{t}:
		zz.Split({N}, {k})
{dis}		old := zz.Old(d)
		zz.Modifies(d)
		e := specStride(stride, {es})
		fits := SpecFits(len(b), len(d), e, {es})
		err := Read(b, stride, d)
		zz.Ensures("C02.read.error.{nm}", func() bool {{ return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) }})
		zz.Ensures("C02.read.elements.{nm}", func() bool {{
			return err != nil || zz.Forall(0, len(d), func(i int) bool {{ return SpecAt_{nm}(b, e*i, d[i]) }})
		}})
		zz.Ensures("C02.read.unchanged.{nm}", func() bool {{
			return err == nil || zz.Forall(0, len(d), func(i int) bool {{ return zz.Same(d[i], old[i]) }})
		}})
''')
o.append('''	default:
		zz.Requires(false)
	}
}

//verif:prop C02
//verif:contract Write
//verif:split %d
func Verif_Write(b []byte, stride int, data any) {
	switch d := data.(type) {
'''%N)
for k,(nm,t,cn,s,sz,cs,es,ex) in enumerate(TYPES):
    dis='\t\tzz.Requires(zz.DisjointMem(b, d))\n' if t=='uint8' else ''
    gaps=sorted(set(range(ex))-{q for _,off in cs for q in range(off,off+sz)})
    gapc=''.join(' && b[e*i+%d] == old[e*i+%d]'%(g,g) for g in gaps)
    o.append(f'''	case []{t}:
		zz.Split({N}, {k})
{dis}		old := zz.Old(b)
		zz.Modifies(b)
		zz.Cases(stride == 0)
		e := specStride(stride, {es})
		n := len(d)
		fits := SpecFits(len(b), n, e, {es})
		zz.Cases(e < {ex})
		err := Write(b, stride, d)
		zz.Ensures("C02.write.error.{nm}", func() bool {{ return (err == nil) == fits && (err == nil || err == io.ErrShortBuffer) }})
		zz.Ensures("C02.write.elements.{nm}", func() bool {{
			return err != nil || e < {ex} || zz.Forall(0, n, func(i int) bool {{ return SpecAt_{nm}(b, e*i, d[i]){gapc} }})
		}})
		zz.Ensures("C02.write.gaps.{nm}", func() bool {{
			return err != nil || e < {ex} || zz.Forall(0, n-1, func(i int) bool {{
				return zz.Forall(e*i+{ex}, e*(i+1), func(j int) bool {{ return b[j] == old[j] }})
			}})
		}})
		zz.Ensures("C02.write.tail.{nm}", func() bool {{
			return err != nil || n == 0 || zz.Forall(e*(n-1)+{ex}, len(b), func(j int) bool {{ return b[j] == old[j] }})
		}})
		zz.Ensures("C02.write.unchanged.{nm}", func() bool {{
			return err == nil && n > 0 || zz.Forall(0, len(b), func(j int) bool {{ return b[j] == old[j] }})
		}})
''')
o.append('''	default:
		zz.Requires(false)
	}
}

func specGenBulk(r *zz.R, read bool) ([]byte, int, any) {
	n := r.Small(5)
	if r.Intn(50) == 0 {
		n = r.Small(3000)
	}
	var data any
	size := 0
	switch zz.Case() {
''')
for k,(nm,t,cn,s,sz,cs,es,ex) in enumerate(TYPES):
    o.append(f'''	case {k}:
		d := make([]{t}, n, n+r.Small(2))
		for i := range d {{
			zz.FillBits(r, &d[i])
		}}
		data, size = d, {es}
''')
o.append('''	}
	stride := zz.Pick(r, 0, 0, size, size, size+1, size+r.Small(9), r.Small(size+2), 1, 2, -1, -size, int(r.Wild()))
	if n < 6 && r.Intn(40) == 0 {
		stride = size*zz.Pick(r, 10, 1000, 10000) + r.Small(40)
	}
	e := specStride(stride, size)
	need := r.Small(24)
	if n > 0 && e >= 0 && e*n < 10000000 {
		need = zz.Pick(r, (n-1)*e+size, (n-1)*e+size, n*e, (n-1)*e+size-1, (n-1)*e+size+r.Small(9), r.Small(100))
	}
	if need < 0 {
		need = 0
	}
	return r.Bytes(need), stride, data
}

func init() {
	zz.Register("Read", Verif_Read, func(r *zz.R) ([]byte, int, any) { return specGenBulk(r, true) })
	zz.Register("Write", Verif_Write, func(r *zz.R) ([]byte, int, any) { return specGenBulk(r, false) })
}
''')
open(D+'/binary/bulk.go','w').write(''.join(o))

# ---- slices (C03) and codec extents (C04) ----
o=[HEAD+'''import (
	"image/color"

	"github.com/qmuntal/gltf"
	zz "github.com/qmuntal/gltf/zzverif"
)

// SpecSupported: the pairs glTF defines.
func SpecSupported(c gltf.ComponentType, t gltf.AccessorType) bool {
	switch c {
	case gltf.ComponentByte, gltf.ComponentUbyte, gltf.ComponentShort, gltf.ComponentUshort, gltf.ComponentUint, gltf.ComponentFloat:
	default:
		return false
	}
	switch t {
	case gltf.AccessorScalar, gltf.AccessorVec2, gltf.AccessorVec3, gltf.AccessorVec4, gltf.AccessorMat2, gltf.AccessorMat3, gltf.AccessorMat4:
		return true
	}
	return false
}

// SpecCase is the index of a supported pair, 42 for the others.
func SpecCase(c gltf.ComponentType, t gltf.AccessorType) int {
	switch {
''']
P42=[(cn,s,gotype(el,s)) for cn,el,sz in COMPS for s in SHAPES]
for k,(cn,s,t) in enumerate(P42):
    o.append('	case c == gltf.Component%s && t == gltf.Accessor%s:\n		return %d\n'%(cn,s,k))
o.append('''	}
	return 42
}

// SpecSliceOf: v is a slice of n elements of the Go type of case k.
func SpecSliceOf(v any, k, n int) bool {
	switch k {
''')
for k,(cn,s,t) in enumerate(P42):
    o.append('	case %d:\n		return zz.TypeIs[[]%s](v) && len(zz.As[[]%s](v)) == n\n'%(k,t,t))
o.append('''	}
	return false
}

//verif:prop C03
//verif:contract MakeSlice
//verif:split 43
func Verif_MakeSlice(c gltf.ComponentType, t gltf.AccessorType, count int) {
	k := SpecCase(c, t)
	zz.Split(43, k)
	zz.Requires(count >= 0 && count <= 1<<40)
	v, err := MakeSlice(c, t, count)
	zz.Ensures("C03.make.error", func() bool { return (err == nil) == SpecSupported(c, t) })
	zz.Ensures("C03.make.slice", func() bool { return err != nil || SpecSliceOf(v, k, count) })
}

//verif:prop C03
//verif:contract MakeSliceBuffer
//verif:split 43
func Verif_MakeSliceBuffer(c gltf.ComponentType, t gltf.AccessorType, count int, buffer []byte) {
	k := SpecCase(c, t)
	zz.Split(43, k)
	zz.Requires(count >= 0 && count <= 1<<40)
	v, err := MakeSliceBuffer(c, t, count, buffer)
	zz.Ensures("C03.buffer.error", func() bool { return (err == nil) == SpecSupported(c, t) })
	zz.Ensures("C03.buffer.slice", func() bool { return err != nil || SpecSliceOf(v, k, count) })
	zz.Concrete("C03.buffer.within", func() bool { return err != nil || zz.Within(v, buffer) })
	if k == 42 {
		return
	}
	switch k {
''')
for k,(cn,s,t) in enumerate(P42):
    o.append('	case %d:\n		zz.EnsuresBacked("C03.backed.%s_%s", err != nil, zz.As[[]%s](v), buffer)\n'%(k,cn,s,t))
    o.append('''		zz.Ensures("C03.zero.%s_%s", func() bool {
			return err != nil || cap(buffer) > 0 || zz.Forall(0, count, func(i int) bool {
				var z %s
				return zz.Same(zz.As[[]%s](v)[i], z)
			})
		})
'''%(cn,s,t,t))
o.append('''	}
}

//verif:prop C03
//verif:contract Type
//verif:split 44
func Verif_Type(data any) {
	switch d := data.(type) {
''')
for k,(nm,t,cn,s,*_) in enumerate(TYPES):
    o.append('''	case []%s:
		zz.Split(44, %d)
		c, ty, n := Type(data)
		zz.Ensures("C03.type.%s", func() bool { return c == gltf.Component%s && ty == gltf.Accessor%s && n == len(d) })
'''%(t,k,nm,cn,s))
o.append('''	default:
		zz.Requires(false)
	}
}
''')
for k,(cn,s,t) in enumerate(P42):
    o.append('''
//verif:prop C04
func Verif_extent_%s_%s(b []byte, v %s) {
	zz.Requires(len(b) == gltf.SizeOfElement(gltf.Component%s, gltf.Accessor%s))
	%s.Put%s(b, v) // must not panic: the size covers every byte the codecs touch
	_ = %s.%s(b)
	zz.Ensures("C04.extent.%s.%s", func() bool { return len(b) %% %d == 0 })
}
'''%(cn,s,t,cn,s,cn,s,cn,s,cn,s,COMPS[[c[0] for c in COMPS].index(cn)][2]))
o.append('''
func specGenPair(r *zz.R) (gltf.ComponentType, gltf.AccessorType) {
	cs := []gltf.ComponentType{gltf.ComponentByte, gltf.ComponentUbyte, gltf.ComponentShort, gltf.ComponentUshort, gltf.ComponentUint, gltf.ComponentFloat}
	ts := []gltf.AccessorType{gltf.AccessorScalar, gltf.AccessorVec2, gltf.AccessorVec3, gltf.AccessorVec4, gltf.AccessorMat2, gltf.AccessorMat3, gltf.AccessorMat4}
	if k := zz.Case(); k < 42 {
		return cs[k/7], ts[k%7]
	}
	if r.Intn(2) == 0 {
		return zz.Pick(r, cs...), gltf.AccessorType(r.Intn(256))
	}
	return gltf.ComponentType(r.Intn(65536)), zz.Pick(r, ts...)
}

func specGenAny(r *zz.R) any {
	n := r.Small(5)
	switch zz.Case() {
''')
for k,(nm,t,cn,s,*_) in enumerate(TYPES):
    o.append('	case %d:\n		return make([]%s, n)\n'%(k,t))
o.append('''	}
	return nil
}

var _ = color.RGBA{}

func init() {
	zz.Register("MakeSlice", Verif_MakeSlice, func(r *zz.R) (gltf.ComponentType, gltf.AccessorType, int) {
		c, t := specGenPair(r)
		return c, t, r.Small(40)
	})
	zz.Register("MakeSliceBuffer", Verif_MakeSliceBuffer, func(r *zz.R) (gltf.ComponentType, gltf.AccessorType, int, []byte) {
		c, t := specGenPair(r)
		b := r.Bytes(r.Small(200))
		if r.Intn(3) == 0 {
			b = b[:r.Small(len(b)):r.Intn(cap(b)-len(b)+1)+len(b)]
		}
		return c, t, r.Small(40), b
	})
	zz.Register("Type", Verif_Type, func(r *zz.R) any { return specGenAny(r) })
''')
for k,(cn,s,t) in enumerate(P42):
    o.append('''	zz.Register("extent_%s_%s", Verif_extent_%s_%s, func(r *zz.R) ([]byte, %s) {
		var v %s
		return make([]byte, gltf.SizeOfElement(gltf.Component%s, gltf.Accessor%s)), v
	})
'''%(cn,s,cn,s,t,t,cn,s))
o.append('}\n')
open(D+'/binary/slice.go','w').write(''.join(o))

# ---- modeler readers (C05, C06, C08) ----
MH='// Code generated by tools/gen_specs.py. DO NOT EDIT.\n\npackage modeler\n\n'
o=[MH+'''import (
	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/binary"
	zz "github.com/qmuntal/gltf/zzverif"
)

func specStride(stride, size int) int {
	if stride == 0 {
		return size
	}
	return stride
}

// specViewOK: the view lies inside the data of an existing buffer.
func specViewOK(doc *gltf.Document, bv *gltf.BufferView) bool {
	return bv.Buffer >= 0 && bv.Buffer < len(doc.Buffers) && doc.Buffers[bv.Buffer] != nil &&
		bv.ByteOffset >= 0 && bv.ByteLength >= 0 && bv.ByteOffset <= len(doc.Buffers[bv.Buffer].Data) &&
		bv.ByteLength <= len(doc.Buffers[bv.Buffer].Data)-bv.ByteOffset
}

func specHasView(doc *gltf.Document, i int) bool {
	return i >= 0 && i < len(doc.BufferViews) && doc.BufferViews[i] != nil && specViewOK(doc, doc.BufferViews[i])
}

func specViewBytes(doc *gltf.Document, i int) []byte {
	bv := doc.BufferViews[i]
	return doc.Buffers[bv.Buffer].Data[bv.ByteOffset : bv.ByteOffset+bv.ByteLength]
}

// specFits: n elements of size bytes starting at off of view i fit in the view.
func specFits(doc *gltf.Document, i, off, n, size int) bool {
	return off >= 0 && off <= doc.BufferViews[i].ByteLength &&
		binary.SpecFits(doc.BufferViews[i].ByteLength-off, n, specStride(doc.BufferViews[i].ByteStride, size), size)
}

// specApart: buffer shares no memory with the buffers of doc.
func specApart(doc *gltf.Document, buffer []byte) bool {
	return zz.Forall(0, len(doc.Buffers), func(i int) bool {
		return doc.Buffers[i] == nil || zz.DisjointMem(buffer, doc.Buffers[i].Data)
	})
}

// specIndex is sparse index i.
func specIndex(doc *gltf.Document, s *gltf.Sparse, i int) int {
	b := specViewBytes(doc, s.Indices.BufferView)
	bs := doc.BufferViews[s.Indices.BufferView].ByteStride
	switch s.Indices.ComponentType {
	case gltf.ComponentUbyte:
		return int(b[s.Indices.ByteOffset+specStride(bs, 1)*i])
	case gltf.ComponentUshort:
		o := s.Indices.ByteOffset + specStride(bs, 2)*i
		return int(b[o]) + int(b[o+1])*256
	default:
		o := s.Indices.ByteOffset + specStride(bs, 4)*i
		return int(b[o]) + int(b[o+1])*256 + int(b[o+2])*65536 + int(b[o+3])*16777216
	}
}

func specIndexSize(c gltf.ComponentType) int {
	switch c {
	case gltf.ComponentUbyte:
		return 1
	case gltf.ComponentUshort:
		return 2
	case gltf.ComponentUint:
		return 4
	}
	return 0
}

// specSparseOK: the sparse part can be read.
func specSparseOK(doc *gltf.Document, s *gltf.Sparse, size int) bool {
	return s.Count >= 0 && specIndexSize(s.Indices.ComponentType) > 0 &&
		specHasView(doc, s.Indices.BufferView) && specHasView(doc, s.Values.BufferView) &&
		specFits(doc, s.Indices.BufferView, s.Indices.ByteOffset, s.Count, specIndexSize(s.Indices.ComponentType)) &&
		specFits(doc, s.Values.BufferView, s.Values.ByteOffset, s.Count, size)
}

''']
for k,(cn,s,t) in enumerate(P42):
    nm=cn+'_'+s
    es=esize(s,COMPS[[c[0] for c in COMPS].index(cn)][2])
    o.append('''// specElem_%s: v is element i of acr without its sparse part.
func specElem_%s(doc *gltf.Document, acr *gltf.Accessor, i int, v %s) bool {
	if acr.BufferView == nil {
		var z %s
		return zz.Same(v, z)
	}
	return binary.SpecAt_%s(specViewBytes(doc, *acr.BufferView), acr.ByteOffset+specStride(doc.BufferViews[*acr.BufferView].ByteStride, %d)*i, v)
}

// specSparse_%s: v is value i of the sparse part.
func specSparse_%s(doc *gltf.Document, s *gltf.Sparse, i int, v %s) bool {
	return binary.SpecAt_%s(specViewBytes(doc, s.Values.BufferView), s.Values.ByteOffset+specStride(doc.BufferViews[s.Values.BufferView].ByteStride, %d)*i, v)
}

'''%(nm,nm,t,t,nm,es,nm,nm,t,nm,es))
o.append('''//verif:prop C05 C06 C08
//verif:contract ReadAccessor
//verif:use ReadBufferView MakeSliceBuffer Read ReadAccessor ReadIndices
//verif:nodep C07 C10 C11
//verif:deep 5 6 12 13 19 20 26 27 33 34 40 41
//verif:skip C05:C06.elements C05:C06.indices C05:C06.inside C08:C06.elements
//verif:omit C05:C06.elements C05:C06.inside C05:C06.indices C05:C08 C06:C08 C08:C06
//verif:split 43
//verif:lean
//verif:frame C08
func Verif_ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) {
	zz.Requires(doc != nil && acr != nil)
	k := binary.SpecCase(acr.ComponentType, acr.Type)
	zz.Split(43, k)
	zz.RequiresF(func() bool { return specApart(doc, buffer) })
	zz.Modifies(buffer[:cap(buffer)])
	sn := zz.Snapshot().Watch(doc).Watch(acr).Except(buffer[:cap(buffer)])
	data, err := ReadAccessor(doc, acr, buffer)
	sn.Unchanged("C08.accessor.frame")
	zz.Ensures("C06.type", func() bool { return err != nil || acr.Count >= 0 && binary.SpecSliceOf(data, k, acr.Count) })
	size := gltf.SpecElementSize(acr.ComponentType, acr.Type)
	zz.Ensures("C06.inside", func() bool {
		return err != nil || acr.BufferView == nil || specHasView(doc, *acr.BufferView) && specFits(doc, *acr.BufferView, acr.ByteOffset, acr.Count, size)
	})
	zz.Ensures("C06.inside.sparse", func() bool { return err != nil || acr.Sparse == nil || specSparseOK(doc, acr.Sparse, size) })
	zz.Ensures("C06.indices", func() bool {
		return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) < acr.Count })
	})
	if k == 42 {
		return
	}
	switch k {
''')
for k,(cn,s,t) in enumerate(P42):
    nm=cn+'_'+s
    o.append('''	case %d:
		zz.EnsuresBacked("C08.backed.%s", err != nil, zz.As[[]%s](data), buffer)
		zz.Ensures("C06.elements.%s", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_%s(doc, acr, i, zz.As[[]%s](data)[i]) })
		})
'''%(k,nm,t,nm,nm,t))
o.append('''	}
}
''')
o.append("""
// The effect of the sparse part, element by element.

//verif:prop C06
//verif:bounded 40000 random documents with up to 20 elements and 4 sparse entries, every component and accessor type
func Verif_ReadAccessorSparse(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) {
	zz.Requires(acr.Sparse != nil)
	k := binary.SpecCase(acr.ComponentType, acr.Type)
	data, err := ReadAccessor(doc, acr, buffer)
	zz.Requires(err == nil)
	switch k {
""")
for k,(cn,s,t) in enumerate(P42):
    nm=cn+'_'+s
    o.append('''	case %d:
		zz.Ensures("C06.sparse.kept.%s", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Count, func(j int) bool {
				return zz.Exists(0, acr.Sparse.Count, func(i int) bool { return specIndex(doc, acr.Sparse, i) == j }) || specElem_%s(doc, acr, j, zz.As[[]%s](data)[j])
			})
		})
		zz.Ensures("C06.sparse.set.%s", func() bool {
			return err != nil || acr.Sparse == nil || zz.Forall(0, acr.Sparse.Count, func(i int) bool {
				return zz.Exists(i+1, acr.Sparse.Count, func(l int) bool { return specIndex(doc, acr.Sparse, l) == specIndex(doc, acr.Sparse, i) }) ||
					specSparse_%s(doc, acr.Sparse, i, zz.As[[]%s](data)[specIndex(doc, acr.Sparse, i)])
			})
		})
'''%(k,nm,nm,t,nm,nm,t))
o.append("""	}
}
""")
open(D+'/modeler/access.go','w').write(''.join(o))

# ---- modeler writers (C09, C10) ----
WRITERHEAD="	var n int\n	var c gltf.ComponentType\n	var t gltf.AccessorType\n	switch d := data.(type) {\n"
for k,(nm,t,cn,s,sz,cs,es,ex) in enumerate(TYPES):
    WRITERHEAD+='	case []%s:\n		zz.Split(44, %d)\n		n, c, t = len(d), gltf.Component%s, gltf.Accessor%s\n'%(t,k,cn,s)
WRITERHEAD+="	default:\n		zz.Requires(false)\n	}\n"
o=[MH+'''import (
	"image/color"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/binary"
	zz "github.com/qmuntal/gltf/zzverif"
)

var _ = color.RGBA{}

// specApartData: data does not overlap the bytes b.
func specApartData(data any, b []byte) bool {
	if d, ok := data.([]uint8); ok {
		return zz.DisjointMem(d, b)
	}
	return true
}

// specWritable: the document can be appended to.
func specWritable(doc *gltf.Document) bool {
	return len(doc.Buffers) == 0 || doc.Buffers[len(doc.Buffers)-1] != nil
}

// specViewStride is the stride a view of its own needs: packed elements need
// one only when they carry alignment bytes.
func specViewStride(target gltf.Target, c gltf.ComponentType, t gltf.AccessorType) int {
	size := gltf.SpecElementSize(c, t)
	if target == gltf.TargetArrayBuffer && gltf.SpecByteSize(c)*gltf.SpecRows(t)*gltf.SpecColumns(t) != size {
		return size
	}
	return 0
}

func specBytesOf(b *gltf.Buffer) ([]byte, int) {
	if b == nil {
		return nil, 0
	}
	return b.Data, b.ByteLength
}

func specLast(doc *gltf.Document) *gltf.Buffer { return doc.Buffers[len(doc.Buffers)-1] }

//verif:prop C09 C10
//verif:contract WriteAccessor
//verif:use Write Type
//verif:frame C09
//verif:skip C10:C02.write.gaps C10:C02.write.tail C10:C02.write.unchanged C09:C02.write.elements C09:C02.write.gaps C09:C02.write.tail C09:C02.write.unchanged
//verif:split 44
func Verif_WriteAccessor(doc *gltf.Document, target gltf.Target, data any) {
	zz.Requires(doc != nil)
	zz.RequiresF(func() bool { return specWritable(doc) })
''']
o.append(WRITERHEAD)
o.append('''	size := gltf.SpecElementSize(c, t)
	accs, views, bufs := doc.Accessors, doc.BufferViews, doc.Buffers
	na, nv, nb := len(accs), len(views), len(bufs)
	var last *gltf.Buffer
	if nb > 0 {
		last = bufs[nb-1]
	}
	was, wasLen := specBytesOf(last)
	zz.RequiresF(func() bool { return specApartData(data, was) })
	zz.Modifies(accs[na:cap(accs)])
	zz.Modifies(views[nv:cap(views)])
	zz.Modifies(bufs[nb:cap(bufs)])
	zz.ModifiesPtr(&doc.Accessors)
	zz.ModifiesPtr(&doc.BufferViews)
	zz.ModifiesPtr(&doc.Buffers)
	sn := zz.Snapshot().Watch(accs[:na:na]).Watch(views[:nv:nv]).Watch(data)
	sn = sn.Except(accs[na:cap(accs)]).Except(views[nv:cap(views)]).Except(bufs[nb:cap(bufs)])
	sn = sn.Except(&doc.Accessors).Except(&doc.BufferViews).Except(&doc.Buffers)
	if nb > 0 {
		zz.Modifies(was[len(was):cap(was)])
		zz.ModifiesPtr(&last.Data)
		zz.ModifiesPtr(&last.ByteLength)
		sn = sn.Watch(bufs[:nb-1:nb-1]).Watch(was[:len(was):len(was)])
		sn = sn.Except(was[len(was):cap(was)]).Except(&last.Data).Except(&last.ByteLength)
	}
	start := (len(was) + 3) / 4 * 4
	index := WriteAccessor(doc, target, data)
	sn.Replayed("C09.frame")
	zz.Ensures("C09.lists", func() bool {
		return len(doc.Accessors) == na+1 && len(doc.BufferViews) == nv+1 && (len(doc.Buffers) == nb || nb == 0 && len(doc.Buffers) == 1)
	})
	zz.Ensures("C09.index", func() bool { return index == na })
	zz.Ensures("C09.existing", func() bool {
		return zz.Forall(0, na, func(i int) bool { return doc.Accessors[i] == accs[i] }) &&
			zz.Forall(0, nv, func(i int) bool { return doc.BufferViews[i] == views[i] }) &&
			zz.Forall(0, nb, func(i int) bool { return doc.Buffers[i] == bufs[i] })
	})
	zz.Ensures("C09.fresh", func() bool {
		return doc.Accessors[na] != nil && zz.FreshPtr(doc.Accessors[na]) && doc.BufferViews[nv] != nil && zz.FreshPtr(doc.BufferViews[nv]) &&
			specLast(doc) != nil && (nb > 0 || zz.FreshPtr(specLast(doc)))
	})
	zz.Ensures("C09.accessor", func() bool {
		a := doc.Accessors[na]
		return a.ComponentType == c && a.Type == t && a.Count == n && a.ByteOffset == 0 && a.BufferView != nil && *a.BufferView == nv &&
			a.Sparse == nil && !a.Normalized && len(a.Min) == 0 && len(a.Max) == 0
	})
	zz.Ensures("C09.view", func() bool {
		v := doc.BufferViews[nv]
		return v.Buffer == len(doc.Buffers)-1 && v.ByteOffset == start && v.ByteLength == n*size && v.Target == target &&
			v.ByteStride == specViewStride(target, c, t)
	})
	zz.Ensures("C09.buffer", func() bool {
		b := specLast(doc)
		return len(b.Data) == start+n*size && (wasLen != len(was) || b.ByteLength == len(b.Data))
	})
	zz.Ensures("C09.bytes", func() bool {
		b := specLast(doc).Data
		return zz.Forall(0, len(was), func(i int) bool { return b[i] == was[i] }) &&
			zz.Forall(len(was), start, func(i int) bool { return b[i] == 0 })
	})
	switch d := data.(type) {
''')
for k,(nm,t,cn,s,sz,cs,es,ex) in enumerate(TYPES):
    o.append(f'''	case []{t}:
		zz.Ensures("C10.bytes.{nm}", func() bool {{
			b := specLast(doc).Data
			return zz.Forall(0, n, func(i int) bool {{ return binary.SpecAt_{nm}(b, start+{es}*i, d[i]) }})
		}})
''')
o.append('''	}
}

func specGenData(r *zz.R, k, n int) any {
	switch k {
''')
for k,(nm,t,cn,s,sz,cs,es,ex) in enumerate(TYPES):
    o.append(f'''	case {k}:
		d := make([]{t}, n)
		for i := range d {{
			zz.FillBits(r, &d[i])
		}}
		return d
''')
o.append('''	}
	return nil
}

// specGenTarget is a document with some existing content.
func specGenTarget(r *zz.R) *gltf.Document {
	doc := &gltf.Document{}
	for i := r.Intn(3); i > 0; i-- {
		b := r.Bytes(r.Small(13))
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{Data: b[:len(b):len(b)+r.Intn(cap(b)-len(b)+1)], ByteLength: len(b)})
		if r.Intn(3) == 0 {
			b := make([]byte, r.Small(9), 64)
			for i := range b[:64] {
				b[:64][i] = byte(7 + i)
			}
			doc.Buffers[len(doc.Buffers)-1] = &gltf.Buffer{Data: b, ByteLength: len(b)}
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		doc.BufferViews = append(doc.BufferViews, &gltf.BufferView{ByteLength: 1})
		doc.Accessors = append(doc.Accessors, &gltf.Accessor{Count: 1})
	}
	return doc
}

func init() {
	zz.Register("WriteAccessor", Verif_WriteAccessor, func(r *zz.R) (*gltf.Document, gltf.Target, any) {
		return specGenTarget(r), zz.Pick(r, gltf.TargetNone, gltf.TargetArrayBuffer, gltf.TargetElementArrayBuffer), specGenData(r, zz.Case(), r.Small(6))
	})
}
''')
open(D+'/modeler/writers.go','w').write(''.join(o))

# ---- enumerations (C18) ----
ENUMS={
 'ComponentType':('uint16',[('ComponentByte',5120,'BYTE'),('ComponentUbyte',5121,'UNSIGNED_BYTE'),('ComponentShort',5122,'SHORT'),('ComponentUshort',5123,'UNSIGNED_SHORT'),('ComponentUint',5125,'UNSIGNED_INT'),('ComponentFloat',5126,'FLOAT')]),
 'AccessorType':('string',[('AccessorScalar','SCALAR','SCALAR'),('AccessorVec2','VEC2','VEC2'),('AccessorVec3','VEC3','VEC3'),('AccessorVec4','VEC4','VEC4'),('AccessorMat2','MAT2','MAT2'),('AccessorMat3','MAT3','MAT3'),('AccessorMat4','MAT4','MAT4')]),
 'PrimitiveMode':('uint8',[('PrimitivePoints',0,'POINTS'),('PrimitiveLines',1,'LINES'),('PrimitiveLineLoop',2,'LINE_LOOP'),('PrimitiveLineStrip',3,'LINE_STRIP'),('PrimitiveTriangles',4,'TRIANGLES'),('PrimitiveTriangleStrip',5,'TRIANGLE_STRIP'),('PrimitiveTriangleFan',6,'TRIANGLE_FAN')]),
 'AlphaMode':('string',[('AlphaOpaque','OPAQUE','OPAQUE'),('AlphaMask','MASK','MASK'),('AlphaBlend','BLEND','BLEND')]),
 'MagFilter':('uint16',[('MagLinear',9729,'LINEAR'),('MagNearest',9728,'NEAREST'),('MagUndefined',None,'UNDEFINED')]),
 'MinFilter':('uint16',[('MinNearest',9728,'NEAREST'),('MinLinear',9729,'LINEAR'),('MinNearestMipMapNearest',9984,'NEAREST_MIPMAP_NEAREST'),('MinLinearMipMapNearest',9985,'LINEAR_MIPMAP_NEAREST'),('MinNearestMipMapLinear',9986,'NEAREST_MIPMAP_LINEAR'),('MinLinearMipMapLinear',9987,'LINEAR_MIPMAP_LINEAR'),('MinUndefined',None,'UNDEFINED')]),
 'WrappingMode':('uint16',[('WrapClampToEdge',33071,'CLAMP_TO_EDGE'),('WrapMirroredRepeat',33648,'MIRRORED_REPEAT'),('WrapRepeat',10497,'REPEAT')]),
 'Interpolation':('string',[('InterpolationLinear','LINEAR','LINEAR'),('InterpolationStep','STEP','STEP'),('InterpolationCubicSpline','CUBICSPLINE','CUBICSPLINE')]),
 'TRSProperty':('string',[('TRSTranslation','translation','translation'),('TRSRotation','rotation','rotation'),('TRSScale','scale','scale'),('TRSWeights','weights','weights')]),
 'Target':('uint16',[('TargetArrayBuffer',34962,'ARRAY_BUFFER'),('TargetElementArrayBuffer',34963,'ELEMENT_ARRAY_BUFFER'),('TargetNone',0,'NONE')]),
}
o=["""// Code generated by tools/gen_specs.py. DO NOT EDIT.

package gltf

import (
	"encoding/json"
	"strconv"

	zz "github.com/qmuntal/gltf/zzverif"
)

// The glTF 2.0 schema's codes and names of every enumeration.

// specJSONText is some valid JSON text whose value is v.
func specGenJSON(r *zz.R, texts []string) []byte {
	t := texts[r.Intn(len(texts))]
	switch r.Intn(4) {
	case 0:
		t = " " + t + " "
	case 1:
		t = zz.Pick(r, "0", "7", "5120", "34962", "70000", "-1", "\\"\\"", "\\"vec2\\"", "null", "{}", "[1]", "\\"VEC9\\"", "true", "1.5", "", "x")
	case 2:
		t = strconv.Itoa(r.Intn(40000))
	}
	return []byte(t)
}
"""]
for e,(k,vals) in ENUMS.items():
    lit=lambda c: '"%s"'%c if k=='string' else str(c)
    o.append(f"\n// {e}\n\nfunc specCase{e}(k int) (v {e}, code {k}, name string) {{\n	switch k {{\n")
    for i,(v,c,nm) in enumerate(vals):
        o.append(f"	case {i}:\n		return {v}, {lit(c if c is not None else 0)}, \"{nm}\"\n")
    o.append("	}\n	return\n}\n")
    n=len(vals)
    coded=[x for x in vals if x[1] is not None]
    o.append(f"\nfunc specCode{e}(code {k}) (v {e}, known bool) {{\n	switch code {{\n")
    for v,c,nm in coded: o.append(f"	case {lit(c)}:\n		return {v}, true\n")
    o.append("	}\n	return 0, false\n}\n")
    recv = e!='Target'
    m = "(&v).MarshalJSON()" if recv else "json.Marshal(v)"
    um = "(&u).UnmarshalJSON(%s)" if recv else "json.Unmarshal(%s, &u)"
    lab='parse'
    o.append(f"""
//verif:prop C18
//verif:split {n}
func Verif_{e}Value(u {e}) {{
	v, code, name := specCase{e}(zz.Case())
	text, _ := json.Marshal(code)
	b, err := {m}
""")
    if len(coded)==n:
        o.append(f'	zz.Ensures("C18.code.{e}", func() bool {{ return err == nil && string(b) == string(text) }})\n')
    else:
        o.append(f'	zz.Ensures("C18.code.{e}", func() bool {{ return err == nil && (zz.Case() >= {len(coded)} || string(b) == string(text)) }})\n')
    o.append(f"""	s := v.String()
	zz.Ensures("C18.name.{e}", func() bool {{ return s == name }})
	if err == nil {{
		err = {um%'b'}
		zz.Ensures("C18.parse.{e}", func() bool {{ return err == nil && u == v }})
	}}
}}

//verif:prop C18
func Verif_{e}Any(v, u {e}, data []byte) {{
	var code {k}
	other := {k}({'"x"' if k=='string' else '1'})
	bad := json.Unmarshal(data, &code)
	_ = json.Unmarshal(data, &other)
	if bad == nil && code == other {{ // null leaves the target alone
		want, known := specCode{e}(code)
		err := {um%'data'}
		zz.Ensures("C18.read.{e}", func() bool {{ return !known || err == nil && u == want }})
""")
    if e=='AccessorType': o.append(f"""		zz.Ensures("C18.unknown.{e}", func() bool {{ return known || err != nil }})\n""")
    o.append(f"""	}} else {{
		_ = {um%'data'}
	}}
	_ = v.String()
	_, _ = {m}
}}
""")
    texts=', '.join('`'+('"%s"'%c if k=='string' else str(c))+'`' for v,c,nm in coded)
    o.append(f"""
func init() {{
	zz.Register("{e}Value", Verif_{e}Value, func(r *zz.R) {e} {{ return {e}(r.Intn(70000)) }})
	zz.Register("{e}Any", Verif_{e}Any, func(r *zz.R) ({e}, {e}, []byte) {{
		return {e}(r.Intn(70000)), {e}(r.Intn(8)), specGenJSON(r, []string{{{texts}}})
	}})
}}
""")
open(D+'/root/enums.go','w').write(''.join(o))
