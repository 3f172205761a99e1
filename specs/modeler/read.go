package modeler

import (
	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/binary"
	zz "github.com/qmuntal/gltf/zzverif"
)

//verif:prop C05 C06 C08
//verif:contract ReadBufferView
func Verif_ReadBufferView(doc *gltf.Document, bv *gltf.BufferView) {
	zz.Requires(doc != nil && bv != nil)
	sn := zz.Snapshot().Watch(doc).Watch(bv)
	b, err := ReadBufferView(doc, bv)
	sn.Unchanged("C08.view.frame")
	zz.Ensures("C06.view.error", func() bool { return (err == nil) == specViewOK(doc, bv) })
	zz.Ensures("C06.view.bytes", func() bool {
		return err != nil || len(b) == bv.ByteLength && (len(b) == 0 || zz.SameStart(b, doc.Buffers[bv.Buffer].Data[bv.ByteOffset:]))
	})
	zz.Ensures("C06.view.memory", func() bool {
		return err != nil || cap(b) == 0 || cap(b) <= cap(doc.Buffers[bv.Buffer].Data) && zz.SameMem(b, doc.Buffers[bv.Buffer].Data)
	})
}

//verif:prop C05 C07 C08
//verif:contract ReadIndices
//verif:use ReadAccessor
//verif:nodep C07 C10 C11
//verif:skip C06.sparse C06.indices C06.inside.sparse
//verif:omit C05:C06 C05:C07.indices.u C05:C07.indices.count C05:C08 C06:C08 C06:C07 C08:C06 C08:C07 C07:C06 C07:C08
//verif:split 4
func Verif_ReadIndices(doc *gltf.Document, acr *gltf.Accessor, buffer []uint32) {
	zz.Requires(doc != nil && acr != nil)
	k := specIndexCase(acr.ComponentType)
	zz.Split(4, k)
	zz.Modifies(buffer[:cap(buffer)])
	sn := zz.Snapshot().Watch(doc).Watch(acr).Except(buffer[:cap(buffer)])
	r, err := ReadIndices(doc, acr, buffer)
	sn.Unchanged("C08.indices.frame")
	zz.Ensures("C07.indices.type", func() bool { return err != nil || acr.Type == gltf.AccessorScalar && k < 3 })
	zz.Ensures("C07.indices.count", func() bool { return err != nil || len(r) == acr.Count })
	zz.EnsuresBacked("C08.indices.backed", err != nil, r, buffer)
	zz.Ensures("C08.indices.pool", func() bool { return err != nil || zz.NotPooled(r) })
	size := gltf.SpecElementSize(acr.ComponentType, acr.Type)
	zz.Ensures("C06.indices.inside", func() bool {
		return err != nil || acr.BufferView == nil || specHasView(doc, *acr.BufferView) && specFits(doc, *acr.BufferView, acr.ByteOffset, acr.Count, size)
	})
	switch k {
	case 0:
		zz.Ensures("C07.indices.ubyte", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return r[i] < 256 && specElem_Ubyte_Scalar(doc, acr, i, uint8(r[i])) })
		})
	case 1:
		zz.Ensures("C07.indices.ushort", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return r[i] < 65536 && specElem_Ushort_Scalar(doc, acr, i, uint16(r[i])) })
		})
	case 2:
		zz.Ensures("C07.indices.uint", func() bool {
			return err != nil || acr.Sparse != nil || zz.Forall(0, acr.Count, func(i int) bool { return specElem_Uint_Scalar(doc, acr, i, r[i]) })
		})
	}
}

func specIndexCase(c gltf.ComponentType) int {
	switch c {
	case gltf.ComponentUbyte:
		return 0
	case gltf.ComponentUshort:
		return 1
	case gltf.ComponentUint:
		return 2
	}
	return 3
}

func specGenDoc(r *zz.R) (*gltf.Document, *gltf.Accessor) {
	d := &gltf.Document{}
	k := zz.Case()
	cs := []gltf.ComponentType{gltf.ComponentByte, gltf.ComponentUbyte, gltf.ComponentShort, gltf.ComponentUshort, gltf.ComponentUint, gltf.ComponentFloat}
	ts := []gltf.AccessorType{gltf.AccessorScalar, gltf.AccessorVec2, gltf.AccessorVec3, gltf.AccessorVec4, gltf.AccessorMat2, gltf.AccessorMat3, gltf.AccessorMat4}
	c, t := zz.Pick(r, cs...), zz.Pick(r, ts...)
	if k < 42 {
		c, t = cs[k/7], ts[k%7]
	} else {
		c = gltf.ComponentType(r.Intn(10))
	}
	return d, specFillDoc(r, d, c, t)
}

// specFillDoc makes a document that is mostly fine around one accessor.
func specFillDoc(r *zz.R, d *gltf.Document, c gltf.ComponentType, t gltf.AccessorType) *gltf.Accessor {
	wild := r.Intn(3) == 0
	num := func(n int) int {
		if wild && r.Intn(6) == 0 {
			return int(r.Wild())
		}
		return n
	}
	size := gltf.SpecElementSize(c, t)
	for i, n := 0, 1+r.Intn(2); i < n; i++ {
		if wild && r.Intn(12) == 0 {
			d.Buffers = append(d.Buffers, nil)
		} else {
			d.Buffers = append(d.Buffers, &gltf.Buffer{Data: r.Bytes(600 + r.Intn(600))})
		}
	}
	view := func(n, size int, small bool) (int, int) {
		if wild && r.Intn(12) == 0 {
			d.BufferViews = append(d.BufferViews, nil)
			return len(d.BufferViews) - 1, 0
		}
		b := r.Intn(len(d.Buffers))
		stride := zz.Pick(r, 0, 0, size, size+r.Small(8), size+4)
		e := specStride(stride, size)
		need := 0
		if n > 0 {
			need = (n-1)*e + size
		}
		off, accOff := r.Small(20), r.Small(8)
		v := &gltf.BufferView{Buffer: num(b), ByteOffset: num(off), ByteLength: num(need + accOff + zz.Pick(r, 0, 0, 1, 5)), ByteStride: num(stride)}
		if buf := d.Buffers[b]; buf != nil && off+accOff+need+5 > len(buf.Data) {
			buf.Data = append(buf.Data, r.Bytes(off+accOff+need+5)...)
		}
		d.BufferViews = append(d.BufferViews, v)
		if small {
			// indices below 6
			if buf := d.Buffers[b]; buf != nil {
				for i := 0; i < n; i++ {
					for j := 0; j < size; j++ {
						buf.Data[off+accOff+e*i+j] = 0
					}
					buf.Data[off+accOff+e*i] = byte(r.Intn(6))
				}
			}
		}
		return len(d.BufferViews) - 1, accOff
	}
	n := zz.Pick(r, 0, 1, 2, 3, 6, 6, 20)
	if r.Intn(25) == 0 {
		// more than the recycled buffers hold
		n = 21 + r.Intn(zz.Pick(r, 200, 600))
	}
	acr := &gltf.Accessor{ComponentType: c, Type: t, Count: num(n)}
	if r.Intn(4) != 0 {
		i, off := view(n, size, false)
		i = num(i)
		acr.BufferView, acr.ByteOffset = &i, num(off)
	}
	if r.Intn(2) == 0 {
		m := r.Small(4)
		if n > 20 && r.Intn(2) == 0 {
			m = 90 + r.Intn(100)
		}
		ic := zz.Pick(r, gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentUint)
		if wild && r.Intn(8) == 0 {
			ic = gltf.ComponentType(r.Intn(8))
		}
		s := &gltf.Sparse{Count: num(m)}
		isz := specIndexSize(ic)
		if isz == 0 {
			isz = 4
		}
		i, off := view(m, isz, true)
		s.Indices = gltf.SparseIndices{BufferView: num(i), ByteOffset: num(off), ComponentType: ic}
		i, off = view(m, size, false)
		s.Values = gltf.SparseValues{BufferView: num(i), ByteOffset: num(off)}
		acr.Sparse = s
	}
	d.Accessors = append(d.Accessors, acr)
	if acr.Count > 5000 && acr.BufferView == nil {
		acr.Count = 7
	}
	return acr
}

var _ = binary.SpecCase

func init() {
	zz.Register("ReadBufferView", Verif_ReadBufferView, func(r *zz.R) (*gltf.Document, *gltf.BufferView) {
		d, _ := specGenDoc(r)
		if len(d.BufferViews) > 0 && d.BufferViews[0] != nil {
			return d, d.BufferViews[0]
		}
		return d, &gltf.BufferView{Buffer: int(r.Wild()), ByteOffset: int(r.Wild()), ByteLength: int(r.Wild())}
	})
	zz.Register("ReadAccessor", Verif_ReadAccessor, func(r *zz.R) (*gltf.Document, *gltf.Accessor, []byte) {
		d, a := specGenDoc(r)
		return d, a, zz.Pick(r, nil, r.Bytes(3), r.Bytes(64), r.Bytes(4000))
	})
	zz.Register("ReadAccessorSparse", Verif_ReadAccessorSparse, func(r *zz.R) (*gltf.Document, *gltf.Accessor, []byte) {
		d, a := specGenDoc(r)
		return d, a, zz.Pick(r, nil, r.Bytes(3), r.Bytes(64), r.Bytes(4000))
	})
}
