package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models are assumed contracts of functions outside the repository.

type modelFn func(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State

// inlinable functions are executed from their own source.
func (x *Exec) inlinable(fn *ssa.Function, name string) bool {
	if x.ld.isRepo(fn) {
		return true
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		pkg = fn.Origin().Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	switch pkg {
	case "encoding/binary":
		return strings.Contains(name, "ittleEndian") || strings.Contains(name, "igEndian")
	case "math/bits", "errors", "cmp", "slices", "unicode/utf8", "maps", "image/color":
		x.used["executed from source: "+name] = true
		return true
	case "internal/byteorder", "iter":
		return true
	}
	if fn.Synthetic != "" && fn.Pkg == nil {
		return true // wrappers and bound methods
	}
	return false
}

// stdErr is the identity of an error variable of a package outside the repository.
func (x *Exec) stdErr(g *ssa.Global) Value {
	p := x.globalPtr(g).(*Ptr)
	id := x.c.Add(p.base, x.c.Int(1<<24))
	ty := x.errType()
	return &Iface{dyn: ty, val: &Ptr{base: id, root: ty.(*types.Pointer).Elem()}, tag: x.tagOf(ty), box: id}
}

func (x *Exec) errType() types.Type {
	if p := x.ld.prog.ImportedPackage("errors"); p != nil {
		return types.NewPointer(p.Members["errorString"].Type())
	}
	x.unsupported("package errors is not loaded")
	return nil
}

// freshErr is a new non-nil error.
func (x *Exec) freshErr(st *State) *Iface {
	ty := x.errType()
	r := x.newRef(st, "err")
	return &Iface{dyn: ty, val: &Ptr{base: r, root: ty.(*types.Pointer).Elem()}, tag: x.tagOf(ty), box: r}
}

// forkErr continues with a nondeterministic outcome: ok(st) or failure.
func (x *Exec) nondet(st *State, hint string) *Term {
	return x.c.Fresh(hint, SBool)
}

func (x *Exec) freshBytes(st *State, n *Term) *Slice {
	el := types.Typ[types.Uint8]
	r := x.newArrUndef(st, el)
	x.setSize(st, el, r, n)
	return &Slice{arr: r, off: x.c.zero, len: n, cap: n, elem: el}
}

func (x *Exec) freshLen(st *State, hint string) *Term {
	n := x.c.Fresh(hint, SInt)
	n.meta = lenMeta
	return n
}

func (x *Exec) ghostGet(st *State, key string, def *Term) *Term {
	if t := st.ghost[key]; t != nil {
		return t
	}
	return def
}

func (x *Exec) model(fn *ssa.Function, name string) modelFn {
	c := x.c
	switch name {
	case "fmt.Errorf":
		return func(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
			return x.done(st, f, dest, x.freshErr(st))
		}
	case "fmt.Sprintf", "fmt.Sprint", "strconv.FormatInt", "strconv.Itoa", "strconv.Quote", "strconv.FormatUint":
		return func(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
			if strings.HasPrefix(name, "strconv") {
				return x.done(st, f, dest, c.App(name, SStr, x.term(args[0])))
			}
			return x.done(st, f, dest, c.Fresh("str", SStr))
		}
	case "math.Float32bits", "math.Float32frombits", "math.Float64bits", "math.Float64frombits":
		return func(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
			return x.done(st, f, dest, args[0])
		}
	case "math.Min", "math.Max":
		return func(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
			return x.done(st, f, dest, x.fminmax(strings.ToLower(name[5:]), x.term(args[0]), x.term(args[1]), 64))
		}
	case "math.Abs":
		return func(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
			return x.done(st, f, dest, c.Mod(x.term(args[0]), pow2(63)))
		}
	case "math.IsNaN":
		return func(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
			return x.done(st, f, dest, x.fnan(x.term(args[0]), 64))
		}
	case "math.Inf":
		return func(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
			p, n := pow2(63), c.Big(new(bigIntT).SetUint64(0x7ff0000000000000))
			return x.done(st, f, dest, c.Ite(c.Le(c.zero, x.term(args[0])), n, c.Add(n, c.Big(p))))
		}
	case "math.Round", "math.Pow", "math.Floor", "math.Ceil", "math.Trunc", "math.Sqrt", "math.RoundToEven":
		return func(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
			var ts []*Term
			for _, a := range args {
				ts = append(ts, x.term(a))
			}
			return x.done(st, f, dest, x.fapp("f64"+strings.ToLower(name[5:]), 64, ts...))
		}
	case "(*sync.RWMutex).Lock", "(*sync.Mutex).Lock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).Unlock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).RUnlock":
		return func(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
			return x.lockModel(st, f, name[strings.LastIndexByte(name, '.')+1:], args, dest)
		}
	case "(*sync.Pool).Get":
		return x.poolGet
	case "(*sync.Pool).Put":
		return x.poolPut
	case "reflect.ValueOf":
		return func(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
			i := x.resolveIface(st, args[0].(*Iface))
			i = x.solveType(st, i)
			if st.dead {
				return nil
			}
			rv := &ReflVal{iface: i}
			if i.dyn != nil {
				rv.typ = i.dyn
				rv.val = i.val
			} else if i.tag != c.zero {
				if x.proveGoal(st, c.False).Status == "unsat" {
					st.dead = true
					return nil
				}
				x.unsupported("reflect.ValueOf of a value of unknown type")
			}
			return x.done(st, f, dest, rv)
		}
	case "reflect.TypeOf":
		return func(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
			i := x.resolveIface(st, args[0].(*Iface))
			i = x.solveType(st, i)
			if st.dead {
				return nil
			}
			if i.dyn == nil {
				if i.tag == c.zero {
					return x.done(st, f, dest, x.nilIface())
				}
				x.unsupported("reflect.TypeOf of a value of unknown type")
			}
			return x.done(st, f, dest, x.rtype(i.dyn))
		}
	case "reflect.ArrayOf":
		return func(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
			n := x.term(args[0])
			if n.op != OConst {
				x.unsupported("reflect.ArrayOf with symbolic length")
			}
			return x.done(st, f, dest, x.rtype(types.NewArray(x.rtypeOf(args[1]), n.val.Int64())))
		}
	case "reflect.SliceOf":
		return func(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
			return x.done(st, f, dest, x.rtype(types.NewSlice(x.rtypeOf(args[0]))))
		}
	case "reflect.MakeSlice":
		return func(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
			ty := x.rtypeOf(args[0])
			n, cp := x.term(args[1]), x.term(args[2])
			if r, fk := x.panicIf(st, c.Or(c.Lt(n, c.zero), c.Lt(cp, n)), "reflect.MakeSlice: negative or inconsistent length"); fk {
				return r
			}
			el := under(ty).(*types.Slice).Elem()
			x.assume(st, c.Le(cp, c.Int(maxLen)))
			r := x.newArr(st, el, cp)
			return x.done(st, f, dest, &ReflVal{typ: ty, val: &Slice{arr: r, off: c.zero, len: n, cap: cp, elem: el}})
		}
	}
	if strings.HasPrefix(name, "(reflect.Value).") {
		return func(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
			return x.reflValMethod(st, f, name[len("(reflect.Value)."):], args, dest)
		}
	}
	if strings.HasPrefix(name, "(reflect.Kind).") || name == "(*reflect.ValueError).Error" {
		return func(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
			return x.done(st, f, dest, c.Fresh("str", SStr))
		}
	}
	if fn.Name() == "init" && fn.Synthetic != "" {
		return func(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
			if x.ld.isRepo(fn) && !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/zzverif") {
				nf := &Frame{fn: fn, regs: map[ssa.Value]Value{}, block: fn.Blocks[0], dest: nil}
				x.push(st, nf)
				return nil
			}
			return x.done(st, f, dest, nil)
		}
	}
	return x.ioModel(fn, name)
}

func (x *Exec) rtype(t types.Type) *Iface {
	return &Iface{dyn: types.NewPointer(types.Typ[types.UnsafePointer]), val: &ReflType{typ: t}, tag: x.tagOf(types.NewPointer(types.Typ[types.UnsafePointer]))}
}

func (x *Exec) rtypeOf(v Value) types.Type {
	if i, ok := v.(*Iface); ok {
		if r, ok := i.val.(*ReflType); ok {
			return r.typ
		}
	}
	x.unsupported("reflect.Type is not known")
	return nil
}

func (x *Exec) reflTypeMethod(st *State, f *Frame, m string, rt *ReflType, args []Value, dest ssa.Value) []*State {
	switch m {
	case "Elem":
		switch u := under(rt.typ).(type) {
		case *types.Pointer:
			return x.done(st, f, dest, x.rtype(u.Elem()))
		case *types.Slice:
			return x.done(st, f, dest, x.rtype(u.Elem()))
		case *types.Array:
			return x.done(st, f, dest, x.rtype(u.Elem()))
		}
	case "Kind":
		return x.done(st, f, dest, x.c.Int(kindOf(rt.typ)))
	case "Size":
		return x.done(st, f, dest, x.c.Int(sizeof(rt.typ)))
	case "Len":
		if a, ok := under(rt.typ).(*types.Array); ok {
			return x.done(st, f, dest, x.c.Int(a.Len()))
		}
	case "String":
		return x.done(st, f, dest, x.c.Str(types.TypeString(rt.typ, nil)))
	}
	x.unsupported("reflect.Type.%s", m)
	return nil
}

func kindOf(t types.Type) int64 {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (x *Exec) reflValMethod(st *State, f *Frame, m string, args []Value, dest ssa.Value) []*State {
	c := x.c
	rv, ok := args[0].(*ReflVal)
	if !ok {
		x.unsupported("reflect.Value of unknown origin")
	}
	val := func() Value {
		if rv.loc != nil {
			return x.load(st, rv.loc, rv.typ)
		}
		return rv.val
	}
	switch m {
	case "Kind":
		if rv.typ == nil {
			return x.done(st, f, dest, c.zero)
		}
		return x.done(st, f, dest, c.Int(kindOf(rv.typ)))
	case "IsValid":
		return x.done(st, f, dest, c.Bool(rv.typ != nil))
	case "Type":
		if rv.typ != nil {
			return x.done(st, f, dest, x.rtype(rv.typ))
		}
	case "CanSet", "CanAddr":
		return x.done(st, f, dest, c.Bool(rv.loc != nil))
	}
	if rv.typ == nil {
		if r, fk := x.panicIf(st, c.True, "reflect: call of Value."+m+" on zero Value"); fk {
			return r
		}
		st.dead = true
		return []*State{}
	}
	switch m {
	case "Len":
		switch v := val().(type) {
		case *Slice:
			return x.done(st, f, dest, v.len)
		case *Agg:
			return x.done(st, f, dest, c.Int(int64(len(v.f))))
		case *Term:
			if v.sort == SStr {
				return x.done(st, f, dest, x.strLen(v))
			}
			if mt, ok := under(rv.typ).(*types.Map); ok {
				return x.done(st, f, dest, x.mapLen(st, mt, v))
			}
		}
	case "Cap":
		if s, ok := val().(*Slice); ok {
			return x.done(st, f, dest, s.cap)
		}
	case "IsNil":
		switch v := val().(type) {
		case *Slice:
			return x.done(st, f, dest, c.Eq(v.arr, c.zero))
		case *Ptr:
			return x.done(st, f, dest, c.Eq(x.encodePtr(st, v), c.zero))
		case *Term:
			if k := kindOf(rv.typ); k == 21 || k == 22 {
				return x.done(st, f, dest, c.Eq(v, c.zero))
			}
		case *Iface:
			return x.done(st, f, dest, c.Eq(v.tag, c.zero))
		}
		if r, fk := x.panicIf(st, c.True, "reflect: IsNil on a value that cannot be nil"); fk {
			return r
		}
		st.dead = true
		return []*State{}
	case "Index":
		idx := x.term(args[1])
		switch v := val().(type) {
		case *Slice:
			if r, fk := x.panicIf(st, x.oob(idx, v.len), "reflect: slice index out of range"); fk {
				return r
			}
			return x.done(st, f, dest, &ReflVal{typ: v.elem, loc: &Ptr{base: v.arr, root: v.elem, elem: true, idx: c.Add(v.off, idx)}})
		}
	case "Set":
		w, ok := args[1].(*ReflVal)
		if ok && rv.loc != nil && w.typ != nil {
			if !types.Identical(rv.typ, w.typ) {
				if r, fk := x.panicIf(st, c.True, "reflect.Set: value of type "+w.typ.String()+" is not assignable to type "+rv.typ.String()); fk {
					return r
				}
				st.dead = true
				return []*State{}
			}
			v := w.val
			if w.loc != nil {
				v = x.load(st, w.loc, w.typ)
			}
			x.store(st, rv.loc, rv.typ, v)
			return x.done(st, f, dest, nil)
		}
	case "Interface":
		return x.done(st, f, dest, x.mkIface(val(), rv.typ))
	case "Slice":
		if s, ok := val().(*Slice); ok {
			lo, hi := x.term(args[1]), x.term(args[2])
			if r, fk := x.panicIf(st, c.Not(c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, s.cap))), "reflect: slice bounds out of range"); fk {
				return r
			}
			return x.done(st, f, dest, &ReflVal{typ: rv.typ, val: &Slice{arr: s.arr, off: c.Add(s.off, lo), len: c.Sub(hi, lo), cap: c.Sub(s.cap, lo), elem: s.elem}})
		}
	}
	x.unsupported("reflect.Value.%s", m)
	return nil
}

// ---------- locks and pools ----------

func (x *Exec) lockModel(st *State, f *Frame, op string, args []Value, dest ssa.Value) []*State {
	c := x.c
	p, ok := args[0].(*Ptr)
	if !ok {
		x.unsupported("lock %T", args[0])
	}
	key := "lock|" + x.encodePtr(st, p).String()
	h := x.ghostGet(st, key, c.zero)
	switch op {
	case "Lock", "RLock":
		x.checkL(st, "C23.lock", "lock", c.Eq(h, c.zero), "lock is not already held by the caller")
		n := int64(2)
		if op == "RLock" {
			n = 1
		}
		st.ghost[key] = c.Int(n)
		// other goroutines may have changed the guarded tables meanwhile
		for g, l := range x.ld.guards {
			if l == nil || x.inInit {
				continue
			}
			if lp, ok := x.globalPtr(l).(*Ptr); ok && lp.base == p.base && len(p.path) == 0 {
				x.havocMapGlobal(st, g)
			}
		}
	case "Unlock":
		x.checkL(st, "C23.lock", "lock", c.Eq(h, c.Int(2)), "unlocked while write-locked")
		st.ghost[key] = c.zero
	case "RUnlock":
		x.checkL(st, "C23.lock", "lock", c.Eq(h, c.one), "read-unlocked while read-locked")
		st.ghost[key] = c.zero
	}
	return x.done(st, f, dest, nil)
}

// havocMapGlobal gives the map held by g unspecified contents.
func (x *Exec) havocMapGlobal(st *State, g *ssa.Global) {
	p := x.globalPtr(g).(*Ptr)
	mt, ok := under(p.root).(*types.Map)
	if !ok {
		return
	}
	m := x.term(x.load(st, p, p.root))
	x.havocMap(st, mt, m)
}

func (x *Exec) havocMap(st *State, mt *types.Map, m *Term) {
	h, v, ln := x.mapNames(mt)
	ks := x.keySort(mt.Key())
	set := func(name string, s Sort, meta *Meta) {
		cm := x.comp(st, name, Arr(SInt, s), meta)
		r := x.c.Fresh("hm", s)
		r.meta = meta
		if meta == refMeta {
			r.meta = &Meta{lo: bigZero, ptrMax: st.wm}
		}
		st.heap[name] = x.c.Store(cm, m, r)
		if st.logOn {
			st.log = append(st.log, write{comp: name, ref: m, whole: true})
		}
	}
	set(h, Arr(ks, SBool), nil)
	set(ln, SInt, lenMeta)
	for _, l := range x.leaves(mt.Elem()) {
		set(v+l.path, Arr(ks, l.sort), l.meta)
	}
}

// poolType is the dynamic type of the values kept in a sync.Pool.
func (x *Exec) poolType(st *State, p *Ptr) types.Type {
	t := typeAt(p.root, p.path)
	s, ok := under(t).(*types.Struct)
	if !ok {
		x.unsupported("sync.Pool layout")
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "New" {
			np := *p
			np.path = append(append([]Step(nil), p.path...), Step{f: i})
			fv, ok := x.load(st, &np, s.Field(i).Type()).(*Func)
			if !ok || fv.fn == nil {
				x.unsupported("sync.Pool without known New")
			}
			for _, b := range fv.fn.Blocks {
				for _, in := range b.Instrs {
					if r, ok := in.(*ssa.Return); ok {
						if mi, ok := r.Results[0].(*ssa.MakeInterface); ok {
							return mi.X.Type()
						}
					}
				}
			}
		}
	}
	x.unsupported("sync.Pool element type")
	return nil
}

func (x *Exec) poolGet(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
	p, ok := args[0].(*Ptr)
	if !ok {
		x.unsupported("sync.Pool %T", args[0])
	}
	ty := x.poolType(st, p)
	pt, ok := under(ty).(*types.Pointer)
	if !ok {
		x.unsupported("sync.Pool of %s", ty)
	}
	sl, ok := under(pt.Elem()).(*types.Slice)
	if !ok {
		x.unsupported("sync.Pool of %s", ty)
	}
	// exclusively owned memory of unspecified size and contents
	arr := x.newArrUndef(st, sl.Elem())
	n, cp, off := x.freshLen(st, "plen"), x.freshLen(st, "pcap"), x.freshLen(st, "poff")
	s := &Slice{arr: arr, off: off, len: n, cap: cp, elem: sl.Elem()}
	x.sliceFacts(st, s)
	r := x.newRef(st, "pool")
	np := &Ptr{base: r, root: pt.Elem()}
	x.store(st, np, pt.Elem(), s)
	return x.done(st, f, dest, x.mkIface(np, ty))
}

func (x *Exec) poolPut(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
	c := x.c
	i := x.resolveIface(st, args[1].(*Iface))
	p, ok := i.val.(*Ptr)
	if !ok {
		x.unsupported("sync.Pool.Put of %T", i.val)
	}
	v := x.load(st, p, typeAt(p.root, p.path))
	s, ok := v.(*Slice)
	if !ok {
		x.unsupported("sync.Pool.Put of %T", v)
	}
	key := "pooled|" + x.typeKey(s.elem)
	g := st.ghost[key]
	if g == nil {
		g = c.ConstArr(Arr(SInt, SBool), c.False)
	}
	st.ghost[key] = c.Store(g, s.arr, c.True)
	return x.done(st, f, dest, nil)
}

// ---------- unknown callees ----------

func (x *Exec) callUnknown(st *State, f *Frame, fv *Func, args []Value, dest ssa.Value) []*State {
	// a function value supplied by the environment: any result, and any
	// effect on memory it can reach is excluded by assumption
	x.used["environment function value (arbitrary result, no effect on the caller's memory)"] = true
	x.havocWM(st)
	in, ok := f.block.Instrs[f.pc].(ssa.CallInstruction)
	if !ok {
		x.unsupported("unknown call")
	}
	sig := in.Common().Signature()
	v := x.freshResults(st, sig, "env")
	if len(st.ghost) >= 0 {
		x.envCalls = append(x.envCalls, envCall{fv.ref, args, v})
	}
	return x.done(st, f, dest, v)
}

type envCall struct {
	ref  *Term
	args []Value
	res  Value
}

func (x *Exec) invokeUnknown(st *State, f *Frame, cc *ssa.CallCommon, recv *Iface, args []Value, dest ssa.Value) ([]*State, bool) {
	switch cc.Method.Name() {
	case "Error", "String":
		return x.done(st, f, dest, x.c.Fresh("str", SStr)), true
	}
	return nil, false
}

func (x *Exec) zzModel(st *State, f *Frame, short string, fn *ssa.Function, args []Value, dest ssa.Value) func() []*State {
	return nil
}

func (x *Exec) ioModel(fn *ssa.Function, name string) modelFn {
	c := x.c
	switch name {
	case "bytes.NewBuffer":
		return func(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
			el := under(fn.Signature.Results().At(0).Type()).(*types.Pointer).Elem()
			return x.done(st, f, dest, &Ptr{base: x.newRef(st, "buf"), root: el})
		}
	case "encoding/json.Marshal":
		return x.jsonMarshal
	case "encoding/json.Unmarshal":
		return x.jsonUnmarshal
	case "encoding/binary.Write":
		return func(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
			i := x.resolveIface(st, args[2].(*Iface))
			s, ok := i.val.(*Slice)
			if !ok || !x.entails(st, c.Eq(s.len, c.zero)) {
				x.unsupported("encoding/binary.Write of a value that may be non-empty")
			}
			for _, l := range x.leaves(s.elem) {
				if l.size == 0 {
					return x.done(st, f, dest, x.freshErr(st))
				}
			}
			return x.done(st, f, dest, x.nilIface())
		}
	}
	return nil
}

// runInit executes the initialisation of the repository packages.
func (x *Exec) runInit(st *State, pkg *ssa.Package) {
	x.inInit = true
	x.dry++
	defer func() { x.inInit = false; x.dry-- }()
	fn := pkg.Func("init")
	for _, p := range x.ld.pkgs {
		if g, ok := p.Members["init$guard"].(*ssa.Global); ok {
			x.store(st, x.globalPtr(g).(*Ptr), types.Typ[types.Bool], x.c.False)
		}
	}
	st.frames = []*Frame{{fn: fn, regs: map[ssa.Value]Value{}, block: fn.Blocks[0]}}
	_, fin := x.run([]*State{st}, nil)
	if len(fin) != 1 || fin[0] != st {
		x.unsupported("package initialisation forks (%d)", len(fin))
	}
	st.done = false
	st.frames = nil
	for g := range x.ld.mutMaps {
		x.havocMapGlobal(st, g)
	}
	x.havocWM(st)
	x.curState = st
}

// Verify runs the harness.
func (x *Exec) Verify() (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				pos := ""
				if x.curState != nil {
					pos = " at " + x.pos(x.curState) + " in " + x.curFn(x.curState)
				}
				err = fmt.Errorf("%s%s", u.msg, pos)
				return
			}
			panic(r)
		}
	}()
	st := x.newState()
	x.curState = st
	x.runInit(st, x.ld.pkgs[x.h.Pkg])
	fn := x.h.fn
	nf := &Frame{fn: fn, regs: map[ssa.Value]Value{}, block: fn.Blocks[0]}
	for _, p := range fn.Params {
		nf.regs[p] = x.freshVal(st, "p_"+p.Name(), p.Type(), st.wm)
	}
	st.frames = []*Frame{nf}
	x.heap0 = map[string]*Term{}
	for k, v := range st.heap {
		x.heap0[k] = v
	}
	x.wm0 = st.wm
	_, fin := x.run([]*State{st}, nil)
	x.exits = len(fin)
	live, ok := 0, false
	for _, s := range fin {
		if s.dead {
			continue
		}
		live++
		if live <= 6 && !ok && x.c.Prove(s.facts, x.c.False, nil, 1500, false).Status != "unsat" {
			ok = true
		}
	}
	if live > 6 {
		ok = true
	}
	o := &Obl{Label: x.h.Name + ".reachable", Kind: "vacuity", Pos: x.posOf(fn.Pos()), Msg: "some path through the harness is possible (the assumptions are not contradictory)", N: 1, Status: "proved", By: map[string]int{"cover": 1}, Proved: 1}
	if !ok {
		o.Status, o.Proved = "unknown", 0
	}
	if len(x.obls) == 0 {
		o.Status, o.Proved, o.Msg = "unknown", 0, "no obligation was generated"
	}
	x.obls = append(x.obls, o)
	for _, s := range fin {
		if s.dead {
			continue
		}
		x.curState = s
		if x.h.contract != nil && (x.h.frameProp == "" || x.h.frameProp == x.ld.curProp) {
			// the contract's frame clause
			fs := &FrameSnap{heap: x.heap0, wm: x.wm0, mods: s.rootMods}
			x.frameCheck(s, "frame."+x.h.ctName, fs)
		}
	}
	return nil
}
