package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- builtins ----------

func (x *Exec) minTerm(st *State, a, b *Term) (*Term, *Term) {
	c := x.c
	le := c.Le(a, b)
	if x.known(st, le) == 1 {
		return a, nil
	}
	if x.known(st, le) == -1 {
		return b, nil
	}
	if !le.hasB {
		if x.entails(st, le) {
			x.assume(st, le)
			return a, nil
		}
		if x.entails(st, c.Le(b, a)) {
			return b, nil
		}
	}
	return c.Ite(le, a, b), le
}

func (x *Exec) builtin(st *State, f *Frame, name string, args []Value, dest ssa.Value) []*State {
	c := x.c
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case *Slice:
			if name == "cap" {
				return x.done(st, f, dest, v.cap)
			}
			return x.done(st, f, dest, v.len)
		case *Term:
			if v.sort == SStr {
				return x.done(st, f, dest, x.strLen(v))
			}
			// map
			t := x.argType(f, 0)
			if mt, ok := under(t).(*types.Map); ok {
				return x.done(st, f, dest, x.mapLen(st, mt, v))
			}
		case *ArrPtr:
			return x.done(st, f, dest, c.Int(v.n))
		case *Agg:
			return x.done(st, f, dest, c.Int(int64(len(v.f))))
		case *Ptr:
			if at, ok := under(typeAt(v.root, v.path)).(*types.Array); ok {
				return x.done(st, f, dest, c.Int(at.Len()))
			}
		}
	case "append":
		s := args[0].(*Slice)
		var t *Slice
		switch v := args[1].(type) {
		case *Slice:
			t = v
		case *Term:
			bs := x.strToBytes(st, v, types.NewSlice(types.Typ[types.Uint8])).(*Slice)
			t = bs
		}
		if t.len == c.zero {
			return x.done(st, f, dest, s)
		}
		n := c.Add(s.len, t.len)
		x.assume(st, c.Le(n, c.Int(maxLen)))
		fits := c.Le(n, s.cap)
		switch x.known(st, fits) {
		case 0:
			if fits.hasB {
				x.unsupported("append in quantified specification")
			}
			if st.logOn || st.pure > 0 {
				return x.fork2(st, fits)
			}
			// a constant number of elements: one state for both outcomes
			r := x.newArrUndef(st, s.elem)
			at := c.Add(s.off, s.len)
			rows, olds := []*Term{}, []*Term{}
			for _, l := range x.leaves(s.elem) {
				x.checkViewed(st, s.elem, s.arr)
				x.checkViewed(st, s.elem, t.arr)
				old, from := x.rowOf(st, s.elem, l, s.arr), x.rowOf(st, s.elem, l, t.arr)
				rows = append(rows, c.Copy(c.Copy(x.rowOf(st, s.elem, l, r), c.zero, old, s.off, s.len), s.len, from, t.off, t.len))
				olds = append(olds, c.Ite(fits, c.Copy(old, at, from, t.off, t.len), old))
			}
			for i, l := range x.leaves(s.elem) {
				x.setRow(st, s.elem, l, s.arr, olds[i])
				x.setRow(st, s.elem, l, r, rows[i])
			}
			cp := c.Fresh("cap", SInt)
			cp.meta = lenMeta
			st.facts = append(st.facts, c.Le(n, cp))
			x.setSize(st, s.elem, r, cp)
			return x.done(st, f, dest, &Slice{arr: c.Ite(fits, s.arr, r), off: c.Ite(fits, s.off, c.zero), len: n, cap: c.Ite(fits, s.cap, cp), elem: s.elem})
		case 1:
			x.copyElems(st, s.elem, s.arr, c.Add(s.off, s.len), t.arr, t.off, t.len)
			return x.done(st, f, dest, &Slice{arr: s.arr, off: s.off, len: n, cap: s.cap, elem: s.elem})
		}
		// rows must be read before the new array exists
		r := x.newArrUndef(st, s.elem)
		for _, l := range x.leaves(s.elem) {
			row := x.rowOf(st, s.elem, l, r)
			if s.len != c.zero {
				x.checkViewed(st, s.elem, s.arr)
				row = c.Copy(row, c.zero, x.rowOf(st, s.elem, l, s.arr), s.off, s.len)
			}
			x.checkViewed(st, s.elem, t.arr)
			row = c.Copy(row, s.len, x.rowOf(st, s.elem, l, t.arr), t.off, t.len)
			x.setRow(st, s.elem, l, r, row)
		}
		cp := c.Fresh("cap", SInt)
		cp.meta = lenMeta
		st.facts = append(st.facts, c.Le(n, cp))
		x.setSize(st, s.elem, r, cp)
		if st.logOn {
			for _, l := range x.leaves(s.elem) {
				st.log = append(st.log, write{comp: x.arrComp(s.elem, l.path), ref: r, whole: true})
			}
		}
		return x.done(st, f, dest, &Slice{arr: r, off: c.zero, len: n, cap: cp, elem: s.elem})
	case "copy":
		d := args[0].(*Slice)
		var s *Slice
		switch v := args[1].(type) {
		case *Slice:
			s = v
		case *Term:
			s = x.strToBytes(st, v, types.NewSlice(types.Typ[types.Uint8])).(*Slice)
		}
		n, und := x.minTerm(st, d.len, s.len)
		if und != nil && !und.hasB {
			return x.fork2(st, und)
		}
		x.copyElems(st, d.elem, d.arr, d.off, s.arr, s.off, n)
		return x.done(st, f, dest, n)
	case "delete":
		mt := under(x.argType(f, 0)).(*types.Map)
		m := x.term(args[0])
		k := x.mapKey(st, args[1], mt.Key())
		if m == c.zero {
			return x.done(st, f, dest, nil)
		}
		x.mapDelete(st, mt, m, k)
		return x.done(st, f, dest, nil)
	case "min", "max":
		r := args[0]
		t := x.argType(f, 0)
		for _, a := range args[1:] {
			if isFloat(t) {
				r = x.fminmax(name, x.term(r), x.term(a), uint(sizeof(t)*8))
				continue
			}
			le := c.Le(x.term(r), x.term(a))
			if name == "min" {
				r = c.Ite(le, x.term(r), x.term(a))
			} else {
				r = c.Ite(le, x.term(a), x.term(r))
			}
		}
		return x.done(st, f, dest, r)
	case "print", "println":
		return x.done(st, f, dest, nil)
	case "recover":
		return x.done(st, f, dest, x.nilIface())
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Ptr); ok && !p.elem {
			if r, fk := x.panicIf(st, c.Eq(p.base, c.zero), "nil receiver"); fk {
				return r
			}
		}
		return x.done(st, f, dest, args[0])
	case "Slice":
		return x.unsafeSlice(st, f, args, dest)
	case "SliceData":
		s := args[0].(*Slice)
		return x.done(st, f, dest, &Ptr{base: s.arr, root: s.elem, elem: true, idx: s.off})
	case "Sizeof":
		return x.done(st, f, dest, c.Int(sizeof(x.argType(f, 0))))
	case "Alignof":
		return x.done(st, f, dest, c.Int(stdSizes.Alignof(x.argType(f, 0))))
	case "clear":
	}
	x.unsupported("builtin %s", name)
	return nil
}

// argType returns the static type of argument i of the call being executed.
func (x *Exec) argType(f *Frame, i int) types.Type {
	in := f.block.Instrs[f.pc]
	switch in := in.(type) {
	case *ssa.Call:
		return in.Call.Args[i].Type()
	}
	x.unsupported("argument type of %s", in)
	return nil
}

func (x *Exec) asz(el types.Type, arr *Term) *Term {
	t := x.c.App("asz#"+x.typeKey(el), SInt, arr)
	if t.meta == nil {
		t.meta = lenMeta
	}
	return t
}

func (x *Exec) setSize(st *State, el types.Type, arr, n *Term) {
	st.facts = append(st.facts, x.c.Eq(x.asz(el, arr), n))
}

// unsafeSlice models unsafe.Slice((*T)(p), n).
func (x *Exec) unsafeSlice(st *State, f *Frame, args []Value, dest ssa.Value) []*State {
	c := x.c
	var to types.Type
	switch in := f.block.Instrs[f.pc].(type) {
	case *ssa.Call:
		to = under(in.Type()).(*types.Slice).Elem()
	default:
		x.unsupported("unsafe.Slice in %T", in)
	}
	n := x.term(args[1])
	p, ok := args[0].(*Ptr)
	if !ok {
		x.unsupported("unsafe.Slice of %T", args[0])
	}
	if r, fk := x.panicIf(st, c.Lt(n, c.zero), "unsafe.Slice: len out of range"); fk {
		return r
	}
	if !p.elem {
		// only nil is expected here
		nilp := c.Eq(p.base, c.zero)
		if x.known(st, nilp) != 1 {
			x.unsupported("unsafe.Slice of an object pointer")
		}
		if r, fk := x.panicIf(st, c.Lt(c.zero, n), "unsafe.Slice: ptr is nil and len is not zero"); fk {
			return r
		}
		x.assume(st, c.Eq(n, c.zero))
		return x.done(st, f, dest, &Slice{arr: c.zero, off: c.zero, len: c.zero, cap: c.zero, elem: to})
	}
	if len(p.path) > 0 {
		x.unsupported("unsafe.Slice inside an element")
	}
	if x.typeKey(p.root) == x.typeKey(to) {
		x.check(st, "unsafe-bounds", c.Le(c.Add(p.idx, n), x.asz(p.root, p.base)), "unsafe.Slice reaches outside the backing memory")
		return x.done(st, f, dest, &Slice{arr: p.base, off: p.idx, len: n, cap: n, elem: to})
	}
	from := sizeof(p.root)
	x.check(st, "unsafe-bounds", c.Le(c.Add(c.MulK(p.idx, bigInt(from)), c.MulK(n, bigInt(sizeof(to)))), c.MulK(x.asz(p.root, p.base), bigInt(from))), "unsafe.Slice reaches outside the backing memory")
	r := x.newArrUndef(st, to)
	x.setSize(st, to, r, n)
	key := "viewed|" + x.typeKey(p.root)
	g := st.ghost[key]
	if g == nil {
		g = c.ConstArr(Arr(SInt, SBool), c.False)
	}
	st.ghost[key] = c.Store(g, p.base, c.True)
	vo := st.ghost["viewof"]
	if vo == nil {
		vo = c.ConstArr(Arr(SInt, SInt), c.zero)
	}
	st.ghost["viewof"] = c.Store(vo, r, p.base)
	x.used["unsafe.Slice view (alignment not modelled; contents unspecified)"] = true
	return x.done(st, f, dest, &Slice{arr: r, off: c.zero, len: n, cap: n, elem: to})
}

// ---------- contracts ----------

type Contract struct {
	h      *Harness
	target *ssa.Function
	name   string
}

func (x *Exec) contractFor(st *State, fn *ssa.Function) *Contract {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	ct := x.ld.contracts[o]
	if ct == nil {
		return nil
	}
	if st.pure > 0 {
		return nil
	}
	for i := len(st.frames) - 1; i >= 0; i-- {
		if st.frames[i].assume == fn {
			return nil // the call inside the contract being assumed
		}
	}
	if !x.h.uses[ct.name] {
		return nil
	}
	if x.h.contract == ct && st.top().fn == x.h.fn {
		return nil // verification of this contract: inline the body
	}
	return ct
}

func (x *Exec) applyContract(st *State, f *Frame, ct *Contract, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
	hf := ct.h.fn
	if len(hf.Params) != len(args) {
		x.unsupported("contract %s: parameter mismatch", ct.name)
	}
	if x.dry == 0 {
		x.used["contract "+ct.name] = true
	}
	if st.pure > 0 {
		x.unsupported("contract call in pure code")
	}
	nf := &Frame{fn: hf, regs: map[ssa.Value]Value{}, block: hf.Blocks[0], dest: dest, assume: fn, wmStart: st.wm}
	for i, p := range hf.Params {
		nf.regs[p] = args[i]
	}
	nf.onRet = func(s *State, v Value) Value { return nil }
	nf.isContract = true
	x.push(st, nf)
	return nil
}

// assumeCall is the call of the contract's target inside its contract.
func (x *Exec) assumeCall(st *State, f *Frame, fr *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
	for _, m := range fr.mods {
		switch {
		case m.slice != nil:
			x.havocSlice(st, m.slice)
		case m.ptr != nil:
			x.havocPtr(st, m.ptr)
		}
	}
	x.havocWM(st)
	v := x.freshResults(st, fn.Signature, "r_"+fn.Name())
	fr.result = v
	fr.called = true
	return x.done(st, f, dest, v)
}

func (x *Exec) assuming(st *State) *Frame {
	for i := len(st.frames) - 1; i >= 0; i-- {
		if st.frames[i].assume != nil {
			return st.frames[i]
		}
	}
	return nil
}

// ---------- specification intrinsics ----------

const zzPath = "github.com/qmuntal/gltf/zzverif."

type FrameSnap struct {
	heap map[string]*Term
	wm   *Term
	mods []modTarget
}

func (x *Exec) strConst(v Value) string {
	t := x.term(v)
	if t.op != OStr {
		x.unsupported("label must be a constant string")
	}
	return t.str
}

func (x *Exec) wantLabel(l string) bool {
	for _, p := range x.h.omit {
		if at, pre, _ := strings.Cut(p, ":"); at == x.ld.curProp && strings.HasPrefix(l, pre) {
			return false
		}
	}
	if x.h.all {
		return true
	}
	p := x.ld.curProp
	i := strings.IndexByte(l, '.')
	if i < 0 {
		return true
	}
	if l[0] == 'C' && i == 3 {
		return l[:i] == p || p == ""
	}
	return true
}

func (x *Exec) intrinsic(st *State, f *Frame, fn *ssa.Function, name string, fv *Func, args []Value, dest ssa.Value) ([]*State, bool) {
	c := x.c
	if !strings.HasPrefix(name, zzPath) && !strings.HasPrefix(name, "(*"+zzPath) {
		return nil, false
	}
	short := strings.TrimPrefix(name, zzPath)
	if strings.HasPrefix(name, "(*"+zzPath) {
		short = strings.TrimPrefix(name, "(*"+zzPath)
	}
	ok := func(v Value) ([]*State, bool) { return x.done(st, f, dest, v), true }
	switch short {
	case "init":
		return ok(nil)
	case "Register", "RegisterSeq":
		return ok(nil)
	case "Requires":
		cond := x.term(args[0])
		if a := x.assuming(st); a != nil {
			x.checkL(st, "requires."+a.fn.Name()+"@"+x.h.Name, "precondition", cond, "precondition of contract "+a.fn.Name())
			return ok(nil)
		}
		x.assume(st, cond)
		return ok(nil)
	case "RequiresF":
		cond := x.evalPred(st, args[0])
		if a := x.assuming(st); a != nil {
			x.checkL(st, "requires."+a.fn.Name()+"@"+x.h.Name, "precondition", cond, "precondition of contract "+a.fn.Name())
			return ok(nil)
		}
		x.assume(st, cond)
		return ok(nil)
	case "Split":
		if x.assuming(st) != nil {
			return ok(nil)
		}
		if x.nsplit > 1 {
			t := x.term(args[1])
			x.assume(st, c.Eq(t, c.Int(int64(x.split))))
		}
		return ok(nil)
	case "Concrete":
		// only evaluated when a failed obligation is replayed
		return ok(nil)
	case "Cases":
		// a case distinction of the proof
		if x.assuming(st) == nil {
			if cond := x.term(args[0]); x.known(st, cond) == 0 {
				x.needFork(cond)
			}
		}
		return ok(nil)
	case "Case":
		return ok(c.Int(int64(x.split)))
	case "Ensures":
		label := x.strConst(args[0])
		if x.assuming(st) != nil {
			for _, p := range x.h.skip {
				if at, l, found := strings.Cut(p, ":"); found {
					// only while deciding that property
					if at != x.ld.curProp {
						continue
					}
					p = l
				}
				if strings.HasPrefix(label, p) {
					return ok(nil)
				}
			}
			x.assume(st, x.evalPred(st, args[1]))
			return ok(nil)
		}
		if !x.wantLabel(label) || x.dry > 0 {
			return ok(nil)
		}
		cond := x.evalPred(st, args[1])
		x.checkL(st, label, "postcondition", cond, "postcondition "+label)
		return ok(nil)
	case "Assert":
		label := x.strConst(args[0])
		if x.assuming(st) != nil {
			x.assume(st, x.term(args[1]))
			return ok(nil)
		}
		if !x.wantLabel(label) {
			return ok(nil)
		}
		x.checkL(st, label, "postcondition", x.term(args[1]), "assertion "+label)
		return ok(nil)
	case "Forall", "Exists":
		lo, hi := x.term(args[0]), x.term(args[1])
		if d, is := c.constDiff(hi, lo); is && d.IsInt64() && d.Int64() <= 64 {
			var ts []*Term
			for i := int64(0); i < d.Int64(); i++ {
				ts = append(ts, x.evalPred(st, args[2], c.AddK(lo, i)))
			}
			if short == "Forall" {
				return ok(c.And(ts...))
			}
			return ok(c.Or(ts...))
		}
		b := c.FreshB("q", SInt)
		b.meta = &Meta{}
		if l, _ := c.Range(lo); l != nil {
			b.meta.lo = l
		}
		if _, h := c.Range(hi); h != nil {
			b.meta.hi = h
		}
		body := x.evalPred(st, args[2], b)
		in := c.And(c.Le(lo, b), c.Lt(b, hi))
		if short == "Forall" {
			return ok(c.Forall([]*Term{b}, c.Imp(in, body)))
		}
		return ok(c.Exists([]*Term{b}, c.And(in, body)))
	case "ForallStr":
		b := c.FreshB("s", SStr)
		body := x.evalPred(st, args[0], b)
		return ok(c.Forall([]*Term{b}, body))
	case "ForallKeys":
		// over all keys (present or not): body(key)
		mt := under(fn.Signature.Params().At(0).Type()).(*types.Map)
		_ = mt
		b := c.FreshB("key", SStr)
		body := x.evalPred(st, args[1], b)
		return ok(c.Forall([]*Term{b}, body))
	case "Implies":
		return ok(c.Imp(x.term(args[0]), x.term(args[1])))
	case "Same":
		t := fn.Signature.Params().At(0).Type()
		a, b := x.flatten(st, args[0], t), x.flatten(st, args[1], t)
		var es []*Term
		for i := range a {
			es = append(es, c.Eq(a[i], b[i]))
		}
		return ok(c.And(es...))
	case "MulLe":
		return ok(c.Le(c.Mul(x.term(args[0]), x.term(args[1])), x.term(args[2])))
	case "Disjoint":
		a, b := args[0].(*Slice), args[1].(*Slice)
		if x.typeKey(a.elem) != x.typeKey(b.elem) {
			return ok(c.True)
		}
		return ok(c.Or(c.Not(c.Eq(a.arr, b.arr)), c.Le(c.Add(a.off, a.cap), b.off), c.Le(c.Add(b.off, b.cap), a.off)))
	case "DisjointMem":
		a, b := args[0].(*Slice), args[1].(*Slice)
		if x.typeKey(a.elem) != x.typeKey(b.elem) {
			return ok(c.True)
		}
		return ok(c.Or(c.Eq(a.arr, c.zero), c.Eq(a.cap, c.zero), c.Eq(b.cap, c.zero), c.Not(c.Eq(a.arr, b.arr))))
	case "SameMem":
		a, b := args[0].(*Slice), args[1].(*Slice)
		return ok(c.Eq(a.arr, b.arr))
	case "SameStart":
		a, b := args[0].(*Slice), args[1].(*Slice)
		return ok(c.And(c.Eq(a.arr, b.arr), c.Eq(a.off, b.off)))
	case "Old":
		s := args[0].(*Slice)
		r := x.newRef(st, "old")
		for _, l := range x.leaves(s.elem) {
			x.setRow(st, s.elem, l, r, x.rowOf(st, s.elem, l, s.arr))
		}
		return ok(&Slice{arr: r, off: s.off, len: s.len, cap: s.cap, elem: s.elem})
	case "Fresh":
		s := args[0].(*Slice)
		wm := x.wm0
		if a := x.assuming(st); a != nil {
			wm = a.wmStart
		}
		return ok(c.Or(c.Eq(s.cap, c.zero), c.Gt(s.arr, wm)))
	case "FreshPtr":
		wm := x.wm0
		up := st.wm
		if a := x.assuming(st); a != nil {
			wm = a.wmStart
		}
		b := x.encodePtr(st, args[0])
		return ok(c.Or(c.Eq(b, c.zero), c.And(c.Gt(b, wm), c.Le(b, up))))
	case "EnsuresBacked":
		label := x.strConst(args[0])
		if x.assuming(st) != nil {
			x.assume(st, c.Or(x.term(args[1]), x.backed(st, args[2].(*Slice), args[3].(*Slice))))
			return ok(nil)
		}
		if x.wantLabel(label) && x.dry == 0 {
			x.checkL(st, label, "postcondition", c.Or(x.term(args[1]), x.backed(st, args[2].(*Slice), args[3].(*Slice))), "memory of the result: "+label)
		}
		return ok(nil)
	case "Define":
		// the definition of a ghost function: nothing to check
		if x.assuming(st) != nil {
			x.assume(st, x.evalPred(st, args[0]))
			x.used["ghost definitions (zz.Define)"] = true
		}
		return ok(nil)
	case "Thorough":
		return ok(c.Bool(thoroughTier))
	case "NotPooled":
		s := args[0].(*Slice)
		return ok(x.notPooled(st, s))
	case "Modifies":
		if len(st.frames) == 0 {
			break
		}
		fr := x.assuming(st)
		if fr == nil {
			fr = st.frames[0]
		}
		switch v := args[0].(type) {
		case *Slice:
			fr.mods = append(fr.mods, modTarget{slice: v})
		default:
			x.unsupported("Modifies %T", v)
		}
		return ok(nil)
	case "ModifiesPtr":
		fr := x.assuming(st)
		if fr == nil {
			fr = st.frames[0]
		}
		p, is := args[0].(*Ptr)
		if !is {
			x.unsupported("ModifiesPtr %T", args[0])
		}
		fr.mods = append(fr.mods, modTarget{ptr: p})
		return ok(nil)
	case "Snapshot":
		h := map[string]*Term{}
		for k, v := range st.heap {
			h[k] = v
		}
		return ok(&FrameSnap{heap: h, wm: st.wm})
	case "Snap).Except":
		fs := args[0].(*FrameSnap)
		n := &FrameSnap{heap: fs.heap, wm: fs.wm, mods: append([]modTarget(nil), fs.mods...)}
		switch v := args[1].(type) {
		case *Iface:
			v = x.resolveIface(st, v)
			switch u := v.val.(type) {
			case *Slice:
				n.mods = append(n.mods, modTarget{slice: u})
			case *Ptr:
				n.mods = append(n.mods, modTarget{ptr: u})
			default:
				x.unsupported("Except %T", v.val)
			}
		default:
			x.unsupported("Except %T", v)
		}
		return ok(n)
	case "Snap).Watch":
		return ok(args[0])
	case "Snap).Replayed":
		return ok(nil)
	case "Snap).Unchanged":
		label := x.strConst(args[1])
		if x.assuming(st) != nil || !x.wantLabel(label) {
			return ok(nil)
		}
		fs := args[0].(*FrameSnap)
		x.frameCheck(st, label, fs)
		return ok(nil)
	case "Panics":
		fnv := args[0].(*Func)
		nf := &Frame{fn: fnv.fn, regs: map[ssa.Value]Value{}, block: fnv.fn.Blocks[0], dest: dest, binds: fnv.binds, catch: true}
		x.push(st, nf)
		return nil, true
	case "Any":
		t := fn.Signature.Results().At(0).Type()
		return ok(x.freshVal(st, "any", t, st.wm))
	case "TypeIs":
		v := args[0].(*Iface)
		want := fn.TypeArgs()[0]
		if v.dyn != nil {
			return ok(c.Bool(types.Identical(v.dyn, want)))
		}
		return ok(c.Eq(v.tag, x.tagOf(want)))
	case "As":
		v := args[0].(*Iface)
		want := fn.TypeArgs()[0]
		if v.dyn != nil && types.Identical(v.dyn, want) {
			return ok(v.val)
		}
		_, box := x.encodeIface(st, v)
		return ok(x.unboxVal(st, want, box))
	case "Bits32":
		return ok(args[0])
	case "HeldRead", "HeldWrite":
		x.unsupported("%s", short)
	case "Reached":
		label := x.strConst(args[0])
		if x.assuming(st) == nil && x.dry == 0 {
			x.reach[label] = true
		}
		return ok(nil)
	}
	if m := x.zzModel(st, f, short, fn, args, dest); m != nil {
		return m(), true
	}
	// ordinary helper with a body
	if len(fn.Blocks) == 0 {
		x.ld.build(fn)
	}
	if len(fn.Blocks) > 0 {
		return nil, false
	}
	x.unsupported("intrinsic %s", name)
	return nil, true
}

// backed: the memory of s is new or lies inside the buffer b (typed slices of
// other element types may be unsafe views of it).
func (x *Exec) backed(st *State, s, b *Slice) *Term {
	c := x.c
	wm := x.wm0
	a := x.assuming(st)
	if a != nil {
		wm = a.wmStart
	}
	fresh := c.Gt(s.arr, wm)
	// Which array a slice without capacity refers to can't be observed (apart
	// from being nil), so it is assumed to be none or a new one.
	none := c.Eq(s.cap, c.zero)
	if a != nil {
		none = c.And(none, c.Eq(s.arr, c.zero))
	}
	if x.typeKey(s.elem) == x.typeKey(b.elem) {
		in := c.And(c.Eq(s.arr, b.arr), c.Le(b.off, s.off), c.Le(c.Add(s.off, s.cap), c.Add(b.off, b.cap)))
		if a != nil {
			fresh = c.And(fresh, c.Le(s.arr, st.wm))
		}
		return c.Or(none, fresh, in)
	}
	if a == nil {
		// a view created during the call refers to b
		vo := st.ghost["viewof"]
		if vo == nil {
			return c.Or(c.Eq(s.cap, c.zero), fresh)
		}
		v := c.Select(vo, s.arr)
		return c.Or(c.Eq(s.cap, c.zero), c.And(fresh, c.Or(c.Eq(v, c.zero), c.Eq(v, b.arr), c.Gt(v, wm))))
	}
	// assumed: b may be viewed from now on
	key := "viewed|" + x.typeKey(b.elem)
	g := st.ghost[key]
	if g == nil {
		g = c.ConstArr(Arr(SInt, SBool), c.False)
	}
	st.ghost[key] = c.Store(g, b.arr, c.True)
	vo := st.ghost["viewof"]
	if vo == nil {
		vo = c.ConstArr(Arr(SInt, SInt), c.zero)
	}
	v := c.Fresh("viewed", SInt)
	v.meta = refMeta
	st.ghost["viewof"] = c.Store(vo, s.arr, c.Ite(c.Eq(s.cap, c.zero), c.Select(vo, s.arr), v))
	return c.And(c.Le(s.arr, st.wm), c.Or(c.Eq(v, c.zero), c.Eq(v, b.arr), c.And(c.Gt(v, wm), c.Le(v, st.wm))), c.Or(none, fresh))
}

func (x *Exec) notPooled(st *State, s *Slice) *Term {
	c := x.c
	g := st.ghost["pooled|"+x.typeKey(s.elem)]
	var out []*Term
	if g != nil {
		out = append(out, c.Not(c.Select(g, s.arr)))
	}
	if vo := st.ghost["viewof"]; vo != nil {
		if g := st.ghost["pooled|uint8"]; g != nil {
			v := c.Select(vo, s.arr)
			out = append(out, c.Or(c.Eq(v, c.zero), c.Not(c.Select(g, v))))
		}
	}
	return c.Or(c.Eq(s.cap, c.zero), c.And(out...))
}

// frameCheck: nothing that existed at the snapshot changed, except fs.mods.
func (x *Exec) frameCheck(st *State, label string, fs *FrameSnap) {
	c := x.c
	n := 0
	for _, k := range sortedKeys(st.heap) {
		cur := st.heap[k]
		old := fs.heap[k]
		if old == nil {
			old = x.heap0Of(k)
		}
		if cur == old || strings.HasPrefix(k, "I|") || strings.HasPrefix(k, "G|") || strings.HasPrefix(k, "L|") {
			continue
		}
		r := c.FreshB("r", SInt)
		r.meta = &Meta{lo: bigOne}
		pre := c.Le(r, fs.wm)
		var goal *Term
		skip := func(isElem bool, i *Term) *Term {
			var ex []*Term
			for _, m := range fs.mods {
				switch {
				case m.slice != nil && isElem && strings.HasPrefix(k, "E|"+x.typeKey(m.slice.elem)+"|"):
					ex = append(ex, c.And(c.Eq(r, m.slice.arr), c.Le(m.slice.off, i), c.Lt(i, c.Add(m.slice.off, m.slice.len))))
				case m.ptr != nil && !m.ptr.elem && !isElem:
					for _, a := range x.expandPath(m.ptr.root, m.ptr.path) {
						pfx := x.objComp(m.ptr.root, a.path)
						if k == pfx || strings.HasPrefix(k, pfx+".") {
							ex = append(ex, c.Eq(r, m.ptr.base))
						}
					}
				case m.ptr != nil && m.ptr.elem && isElem:
					for _, a := range x.expandPath(m.ptr.root, m.ptr.path) {
						pfx := x.arrComp(m.ptr.root, a.path)
						if k == pfx || strings.HasPrefix(k, pfx+".") {
							ex = append(ex, c.And(c.Eq(r, m.ptr.base), c.Eq(i, m.ptr.idx)))
						}
					}
				}
			}
			return c.Or(ex...)
		}
		es := cur.sort.elem()
		// written objects, when the component is the old one plus stores
		var refs []*Term
		chain := true
		for t := cur; t != old; {
			if t.op == OStore {
				refs = append(refs, t.args[1])
				t = t.args[0]
			} else if b := x.lamBase[t]; b != nil {
				t = b
			} else {
				chain = false
				break
			}
		}
		if chain {
			seen := map[*Term]bool{}
			for _, w := range refs {
				if seen[w] || x.isAlloc[w] && x.seq[w] > x.seq[fs.wm] {
					continue
				}
				seen[w] = true
				r, pre = w, c.And(c.Le(c.one, w), c.Le(w, fs.wm))
				var goal *Term
				if es.arr() && x.entails(st, c.Not(pre)) {
					goal = c.Not(pre)
				} else if es.arr() {
					i := c.FreshB("i", es.key())
					goal = c.Forall([]*Term{i}, c.Or(c.Not(pre), skip(es.key() == SInt, i), c.Eq(c.Select(c.Select(cur, w), i), c.Select(c.Select(old, w), i))))
				} else {
					goal = c.Or(c.Not(pre), skip(false, nil), c.Eq(c.Select(cur, w), c.Select(old, w)))
				}
				n++
				x.checkL(st, label, "frame", goal, "memory component "+k+" is unchanged")
			}
			continue
		}
		if es.arr() {
			i := c.FreshB("i", es.key())
			goal = c.Forall([]*Term{r, i}, c.Or(c.Not(pre), skip(es.key() == SInt, i), c.Eq(c.Select(c.Select(cur, r), i), c.Select(c.Select(old, r), i))))
		} else {
			goal = c.Forall([]*Term{r}, c.Or(c.Not(pre), skip(false, nil), c.Eq(c.Select(cur, r), c.Select(old, r))))
		}
		n++
		x.checkL(st, label, "frame", goal, "memory component "+k+" is unchanged")
	}
	if n == 0 {
		x.checkL(st, label, "frame", c.True, "no memory component was written")
	}
}

func (x *Exec) heap0Of(k string) *Term {
	ci := x.compInfo[k]
	t := x.c.Sym("H0:"+k, ci.sort)
	return t
}

func (x *Exec) lockCheck(st *State, f *Frame, m ssa.Value, write bool) {
	u, ok := m.(*ssa.UnOp)
	if !ok {
		return
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return
	}
	lk := x.ld.guards[g]
	if lk == nil || st.pure > 0 {
		return
	}
	if f.fn.Synthetic != "" || strings.HasPrefix(f.fn.Name(), "init") {
		return
	}
	p := x.globalPtr(lk).(*Ptr)
	key := "lock|" + p.base.String()
	h := st.ghost[key]
	if h == nil {
		h = x.c.zero
	}
	// 0 free, 1 read-locked, 2 write-locked
	if write {
		x.checkL(st, "C23.lock", "lock", x.c.Eq(h, x.c.Int(2)), "registry table is written while holding the write lock")
	} else {
		x.checkL(st, "C23.lock", "lock", x.c.Le(x.c.one, h), "registry table is read while holding the lock")
	}
}

func (x *Exec) noteGlobalRead(g *ssa.Global) {}

func bigInt(i int64) *bigIntT { return newBig(i) }

var _ = fmt.Sprint
