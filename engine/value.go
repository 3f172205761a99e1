package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Slice struct {
	arr, off, len, cap *Term
	elem               types.Type
}

type Step struct {
	f   int   // field or constant index
	idx *Term // symbolic array index (nil if constant)
}

type Ptr struct {
	base *Term
	root types.Type
	elem bool // base is a backing array of element type root, at idx
	idx  *Term
	path []Step
	priv string // component prefix of a local variable whose address never escapes
}

// Agg is a struct or array value.
type Agg struct {
	typ types.Type
	f   []Value
}

type Iface struct {
	dyn types.Type // concrete dynamic type, nil if symbolic or nil interface
	val Value
	tag *Term // symbolic tag (always set)
	box *Term // symbolic payload (set when dyn == nil or once encoded)
}

type Func struct {
	fn    *ssa.Function
	binds []Value
	ref   *Term // unknown function value
	model string
}

type Tuple []Value

// Opaque engine-level values (reflect.Value, reflect.Type, iterators ...)
type ReflVal struct {
	iface *Iface // value of ValueOf
	loc   *Ptr   // addressable location
	typ   types.Type
	val   Value
}
type ReflType struct{ typ types.Type }

type MapIter struct {
	m   *Term
	typ *types.Map
	pos *Term
}
type StrIter struct {
	s   *Term
	pos *Term
}

type leaf struct {
	path string
	sort Sort
	meta *Meta
	kind string // int, bool, str, ptr, arr, off, len, cap, tag, box, map, func, f32, f64
	size int64
	typ  types.Type
}

func under(t types.Type) types.Type { return t.Underlying() }

type typeInfo struct {
	leaves []leaf
}

func intMeta(b *types.Basic) *Meta {
	switch b.Kind() {
	case types.Int8:
		return rngMeta(-1<<7, 1<<7-1)
	case types.Uint8:
		return rngMeta(0, 1<<8-1)
	case types.Int16:
		return rngMeta(-1<<15, 1<<15-1)
	case types.Uint16:
		return rngMeta(0, 1<<16-1)
	case types.Int32:
		return rngMeta(-1<<31, 1<<31-1)
	case types.Uint32, types.Float32:
		return rngMeta(0, 1<<32-1)
	case types.Int64, types.Int, types.UntypedInt:
		return rngMeta(math.MinInt64, math.MaxInt64)
	case types.Uint64, types.Uint, types.Uintptr, types.Float64, types.UntypedFloat:
		return &Meta{lo: bigZero, hi: new(big.Int).Sub(pow2(64), bigOne)}
	case types.UntypedRune:
		return rngMeta(-1<<31, 1<<31-1)
	}
	return nil
}

func rngMeta(lo, hi int64) *Meta { return &Meta{lo: big.NewInt(lo), hi: big.NewInt(hi)} }

const maxLen = int64(1) << 47

var lenMeta = rngMeta(0, maxLen)
var refMeta = &Meta{lo: bigZero}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

var stdSizes = types.SizesFor("gc", "amd64")

func sizeof(t types.Type) int64 { return stdSizes.Sizeof(t) }

func (x *Exec) leaves(t types.Type) []leaf {
	k := x.typeKey(t)
	if l, ok := x.leafCache[k]; ok {
		return l
	}
	l := x.leaves0(t)
	x.leafCache[k] = l
	return l
}

func (x *Exec) leaves0(t types.Type) []leaf {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return []leaf{{sort: SStr, kind: "str", typ: t}}
		case u.Info()&types.IsBoolean != 0:
			return []leaf{{sort: SBool, kind: "bool", size: 1, typ: t}}
		case u.Kind() == types.UnsafePointer:
			return []leaf{{sort: SInt, kind: "ptr", meta: refMeta, size: 8, typ: t}}
		case u.Info()&types.IsFloat != 0:
			return []leaf{{sort: SInt, kind: "float", meta: intMeta(u), size: sizeof(u), typ: t}}
		case u.Info()&types.IsInteger != 0:
			return []leaf{{sort: SInt, kind: "int", meta: intMeta(u), size: sizeof(u), typ: t}}
		case u.Kind() == types.UntypedNil:
			return []leaf{{sort: SInt, kind: "ptr", meta: refMeta, size: 8, typ: t}}
		}
	case *types.Pointer:
		return []leaf{{sort: SInt, kind: "ptr", meta: refMeta, size: 8, typ: t}}
	case *types.Map:
		return []leaf{{sort: SInt, kind: "ptr", meta: refMeta, size: 8, typ: t}}
	case *types.Chan:
		return []leaf{{sort: SInt, kind: "ptr", meta: refMeta, size: 8, typ: t}}
	case *types.Signature:
		return []leaf{{sort: SInt, kind: "func", meta: refMeta, size: 8, typ: t}}
	case *types.Slice:
		return []leaf{
			{path: ".arr", sort: SInt, kind: "ptr", meta: refMeta, typ: t},
			{path: ".off", sort: SInt, kind: "len", meta: lenMeta, typ: t},
			{path: ".len", sort: SInt, kind: "len", meta: lenMeta, typ: t},
			{path: ".cap", sort: SInt, kind: "len", meta: lenMeta, typ: t}}
	case *types.Interface:
		return []leaf{
			{path: ".tag", sort: SInt, kind: "tag", meta: refMeta, typ: t},
			{path: ".box", sort: SInt, kind: "ptr", meta: refMeta, typ: t}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range x.leaves(u.Field(i).Type()) {
				l.path = fmt.Sprintf(".%d%s", i, l.path)
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		if u.Len() > 256 {
			x.unsupported("array of length %d", u.Len())
		}
		var out []leaf
		ls := x.leaves(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range ls {
				l.path = fmt.Sprintf(".%d%s", i, l.path)
				out = append(out, l)
			}
		}
		return out
	case *types.Tuple:
		return nil
	}
	x.unsupported("type %s", t)
	return nil
}

// typeKey is the name of a type up to identity of underlying types.
var aliasRE = regexp.MustCompile(`\b(byte|rune|any)\b`)

func (x *Exec) typeKey(t types.Type) string {
	if k, ok := x.tkCache[t]; ok {
		return k
	}
	s := types.TypeString(under(t), func(p *types.Package) string { return p.Name() })
	s = aliasRE.ReplaceAllStringFunc(s, func(w string) string {
		switch w {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		}
		return "interface{}"
	})
	if len(s) > 24 || strings.ContainsAny(s, " \"`{}|") {
		id, ok := x.tkIDs[s]
		if !ok {
			id = len(x.tkIDs) + 1
			x.tkIDs[s] = id
		}
		nm := "T"
		if n, ok := t.(*types.Named); ok {
			nm = n.Obj().Name()
		}
		if prev, ok := x.tkNames[s]; ok {
			nm = prev
		} else {
			x.tkNames[s] = nm
		}
		s = fmt.Sprintf("%s#%d", nm, id)
	}
	x.tkCache[t] = s
	return s
}

func (x *Exec) tagOf(t types.Type) *Term {
	k := types.TypeString(t, nil)
	id, ok := x.tags[k]
	if !ok {
		id = len(x.tags) + 1
		x.tags[k] = id
		x.tagTypes[id] = t
	}
	return x.c.Int(int64(id))
}

// flatten returns the leaf terms of v (of type t), in leaves order.
func (x *Exec) flatten(st *State, v Value, t types.Type) []*Term {
	switch u := under(t).(type) {
	case *types.Struct:
		a, ok := v.(*Agg)
		if !ok {
			x.unsupported("flatten struct %T", v)
		}
		var out []*Term
		for i := range a.f {
			out = append(out, x.flatten(st, a.f[i], u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		a, ok := v.(*Agg)
		if !ok {
			x.unsupported("flatten array %T", v)
		}
		var out []*Term
		for i := range a.f {
			out = append(out, x.flatten(st, a.f[i], u.Elem())...)
		}
		return out
	case *types.Slice:
		s := v.(*Slice)
		return []*Term{s.arr, s.off, s.len, s.cap}
	case *types.Interface:
		tag, box := x.encodeIface(st, v)
		return []*Term{tag, box}
	case *types.Pointer:
		return []*Term{x.encodePtr(st, v)}
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return []*Term{x.encodePtr(st, v)}
		}
		return []*Term{v.(*Term)}
	case *types.Signature:
		return []*Term{x.encodeFunc(v)}
	}
	if tv, ok := v.(*Term); ok {
		return []*Term{tv}
	}
	x.unsupported("flatten %T as %s", v, t)
	return nil
}

// unflatten builds a value of type t from leaf terms (consuming from ts).
func (x *Exec) unflatten(st *State, t types.Type, ts *[]*Term) Value {
	pop := func() *Term {
		r := (*ts)[0]
		*ts = (*ts)[1:]
		return r
	}
	switch u := under(t).(type) {
	case *types.Struct:
		a := &Agg{typ: t, f: make([]Value, u.NumFields())}
		for i := range a.f {
			a.f[i] = x.unflatten(st, u.Field(i).Type(), ts)
		}
		return a
	case *types.Array:
		a := &Agg{typ: t, f: make([]Value, u.Len())}
		for i := range a.f {
			a.f[i] = x.unflatten(st, u.Elem(), ts)
		}
		return a
	case *types.Slice:
		s := &Slice{arr: pop(), off: pop(), len: pop(), cap: pop(), elem: u.Elem()}
		x.sliceFacts(st, s)
		return s
	case *types.Interface:
		tag, box := pop(), pop()
		return x.decodeIface(tag, box)
	case *types.Pointer:
		return x.decodePtr(st, pop(), u.Elem())
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return &Ptr{base: pop(), root: types.Typ[types.Uint8]}
		}
		return pop()
	case *types.Signature:
		return x.decodeFunc(pop())
	}
	return pop()
}

func (x *Exec) sliceFacts(st *State, s *Slice) {
	c := x.c
	if s.arr.op == OConst && s.len.op == OConst && s.cap.op == OConst {
		return
	}
	x.typing(st, c.Le(s.len, s.cap))
	x.typing(st, c.Le(c.zero, s.len))
	x.typing(st, c.Le(c.zero, s.off))
	x.typing(st, c.Le(c.Add(s.off, s.cap), x.asz(s.elem, s.arr)))
	x.typing(st, c.Imp(c.Eq(s.arr, c.zero), c.And(c.Eq(s.cap, c.zero), c.Eq(s.off, c.zero), c.Eq(s.len, c.zero))))
}

func (x *Exec) encodePtr(st *State, v Value) *Term {
	switch p := v.(type) {
	case *Term:
		return p
	case *Ptr:
		if !p.elem && len(p.path) == 0 {
			return p.base
		}
		name := "addr#" + x.typeKey(p.root)
		args := []*Term{p.base}
		if p.elem {
			name += "[]"
			args = append(args, p.idx)
		}
		for _, s := range p.path {
			if s.idx != nil {
				x.unsupported("pointer to symbolic array element stored in memory")
			}
			name += fmt.Sprintf(".%d", s.f)
		}
		x.addrs[name] = p
		t := x.c.App(name, SInt, args...)
		x.typing(st, x.c.Gt(t, x.c.zero))
		return t
	}
	x.unsupported("encodePtr %T", v)
	return nil
}

func (x *Exec) decodePtr(st *State, t *Term, to types.Type) Value {
	if t.op == OApp && strings.HasPrefix(t.str, "addr#") {
		tmpl := x.addrs[t.str]
		p := &Ptr{base: t.args[0], root: tmpl.root, elem: tmpl.elem, path: tmpl.path}
		if tmpl.elem {
			p.idx = t.args[1]
		}
		return p
	}
	if t.op == OIte && containsAddr(t) {
		x.needFork(t.args[0])
	}
	return &Ptr{base: t, root: to}
}

func containsAddr(t *Term) bool {
	if t.op == OApp && strings.HasPrefix(t.str, "addr#") {
		return true
	}
	if t.op == OIte {
		return containsAddr(t.args[1]) || containsAddr(t.args[2])
	}
	return false
}

func (x *Exec) encodeFunc(v Value) *Term {
	switch f := v.(type) {
	case *Term:
		return f
	case *Func:
		if f.ref != nil {
			return f.ref
		}
		// closure: identify by a registry constant
		for i, g := range x.funcs {
			if g == f || (g.fn == f.fn && len(f.binds) == 0 && len(g.binds) == 0 && f.fn != nil) {
				return x.c.Int(int64(funcBase + i))
			}
		}
		x.funcs = append(x.funcs, f)
		return x.c.Int(int64(funcBase + len(x.funcs) - 1))
	}
	x.unsupported("encodeFunc %T", v)
	return nil
}

const funcBase = 1 << 20

func (x *Exec) decodeFunc(t *Term) Value {
	if t.op == OConst && t.val.IsInt64() {
		i := int(t.val.Int64()) - funcBase
		if i >= 0 && i < len(x.funcs) {
			return x.funcs[i]
		}
	}
	return &Func{ref: t}
}

func ptrShaped(t types.Type) bool {
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	}
	return false
}

func (x *Exec) encodeIface(st *State, v Value) (*Term, *Term) {
	i, ok := v.(*Iface)
	if !ok {
		x.unsupported("encodeIface %T", v)
	}
	if i.box != nil {
		return i.tag, i.box
	}
	if i.dyn == nil {
		return i.tag, x.c.zero
	}
	if ptrShaped(i.dyn) {
		i.box = x.flatten(st, i.val, i.dyn)[0]
		return i.tag, i.box
	}
	if _, ok := i.val.(*ReflType); ok {
		i.box = x.c.Fresh("rtype", SInt)
		return i.tag, i.box
	}
	ls := x.leaves(i.dyn)
	ts := x.flatten(st, i.val, i.dyn)
	k := x.typeKey(i.dyn)
	if len(ls) == 1 && ls[0].sort == SInt && ts[0].op == OConst {
		// interned constant boxes
		b := x.c.App("boxc#"+k, SInt, ts[0])
		i.box = b
		x.typing(st, x.c.Eq(x.unbox(k, ls[0], b), ts[0]))
		return i.tag, b
	}
	b := x.c.Fresh("box", SInt)
	b.meta = &Meta{lo: bigZero}
	x.noteSeq(b)
	for n, l := range ls {
		u := x.unbox(k, l, b)
		x.typing(st, x.c.Eq(u, ts[n]))
	}
	i.box = b
	return i.tag, b
}

func (x *Exec) unbox(key string, l leaf, b *Term) *Term {
	t := x.c.App("unbox#"+key+l.path, l.sort, b)
	if t.meta == nil {
		t.meta = l.meta
		if l.kind == "ptr" && x.external(b) {
			t.meta = &Meta{lo: bigZero, ptrMax: x.wm0}
		}
	}
	return t
}

func (x *Exec) decodeIface(tag, box *Term) *Iface {
	i := &Iface{tag: tag, box: box}
	if tag.op == OConst && tag.val.Sign() > 0 {
		ty := x.tagTypes[int(tag.val.Int64())]
		if ty != nil {
			i.dyn = ty
			i.val = x.unboxVal(nil, ty, box)
		}
	}
	return i
}

func (x *Exec) unboxVal(st *State, ty types.Type, box *Term) Value {
	if ptrShaped(ty) {
		ts := []*Term{box}
		return x.unflatten(st, ty, &ts)
	}
	k := x.typeKey(ty)
	var ts []*Term
	for _, l := range x.leaves(ty) {
		ts = append(ts, x.unbox(k, l, box))
	}
	return x.unflatten(st, ty, &ts)
}

func (x *Exec) nilIface() *Iface { return &Iface{tag: x.c.zero, box: x.c.zero} }

// zero value of type t
func (x *Exec) zeroVal(t types.Type) Value {
	ls := x.leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = x.zeroLeaf(l)
	}
	return x.unflatten(nil, t, &ts)
}

func (x *Exec) zeroLeaf(l leaf) *Term {
	switch l.sort {
	case SInt:
		return x.c.zero
	case SBool:
		return x.c.False
	case SStr:
		return x.c.Str("")
	}
	panic("zeroLeaf")
}

// fresh symbolic value of type t; references bounded by max.
func (x *Exec) freshVal(st *State, hint string, t types.Type, max *Term) Value {
	ls := x.leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		s := x.c.Fresh(hint+strings.ReplaceAll(l.path, ".", "_"), l.sort)
		s.meta = l.meta
		if l.kind == "ptr" {
			s.meta = &Meta{lo: bigZero, ptrMax: max}
		}
		ts[i] = s
	}
	return x.unflatten(st, t, &ts)
}

func (x *Exec) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return x.zeroVal(t)
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		if tp, ok := t.(*types.TypeParam); ok {
			x.unsupported("typeparam const %s", tp)
		}
		x.unsupported("const of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return x.c.Bool(constant.BoolVal(k.Value))
	case b.Info()&types.IsString != 0:
		return x.c.Str(constant.StringVal(k.Value))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(k.Value)
		bi, _ := new(big.Int).SetString(v.ExactString(), 10)
		return x.c.Big(bi)
	case b.Info()&types.IsFloat != 0:
		if b.Kind() == types.Float32 {
			f, _ := constant.Float32Val(k.Value)
			return x.c.Big(new(big.Int).SetUint64(uint64(math.Float32bits(f))))
		}
		f, _ := constant.Float64Val(k.Value)
		return x.c.Big(new(big.Int).SetUint64(math.Float64bits(f)))
	}
	x.unsupported("const %s", k)
	return nil
}

// iteVal merges two values of type t.
func (x *Exec) iteVal(st *State, b *Term, v, w Value, t types.Type) Value {
	if _, tup := v.(Tuple); !tup && v == w {
		return v
	}
	if tp, ok := t.(*types.Tuple); ok {
		a, bb := v.(Tuple), w.(Tuple)
		r := make(Tuple, len(a))
		for i := range a {
			r[i] = x.iteVal(st, b, a[i], bb[i], tp.At(i).Type())
		}
		return r
	}
	tv, tw := x.flatten(st, v, t), x.flatten(st, w, t)
	ts := make([]*Term, len(tv))
	for i := range tv {
		ts[i] = x.c.Ite(b, tv[i], tw[i])
	}
	return x.unflatten(nil, t, &ts)
}
