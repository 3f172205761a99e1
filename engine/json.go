package main

import (
	"encoding/json"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Assumed contracts of encoding/json. Values of basic types: the text is a
// function of the value and decoding inverts it. Anything else: the text is
// arbitrary or there is an error, and decoding leaves an arbitrary value in
// the target, sharing no memory with what existed before.

func basicKind(t types.Type) string {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return ""
	}
	switch {
	case b.Info()&types.IsString != 0:
		return "str"
	case b.Info()&types.IsInteger != 0:
		return "int"
	}
	return ""
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

func (x *Exec) strSlice(st *State, s *Term) Value {
	return x.strToBytes(st, s, types.NewSlice(types.Typ[types.Uint8]))
}

func (x *Exec) jsonMarshal(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
	c := x.c
	v := x.resolveIface(st, args[0].(*Iface))
	if v.dyn != nil && basicKind(v.dyn) != "" && !hasMethod(v.dyn, "MarshalJSON") && !hasMethod(v.dyn, "MarshalText") {
		t := x.term(v.val)
		var s *Term
		switch basicKind(v.dyn) {
		case "int":
			if t.op == OConst {
				s = c.Str(t.val.String())
			} else {
				s = c.App("json.int", SStr, t)
			}
		case "str":
			if t.op == OStr {
				b, _ := json.Marshal(t.str)
				s = c.Str(string(b))
			} else {
				s = c.App("json.str", SStr, t)
			}
		}
		return x.done(st, f, dest, Tuple{x.strSlice(st, s), x.nilIface()})
	}
	x.used["encoding/json.Marshal of a composite value (arbitrary text or error; modifies nothing)"] = true
	bad := c.Fresh("json.fail", SBool)
	fail := st.clone()
	x.assume(fail, bad)
	x.done(fail, fail.top(), dest, Tuple{x.nilSlice(types.Typ[types.Uint8]), x.freshErr(fail)})
	x.assume(st, c.Not(bad))
	n := x.freshLen(st, "json.len")
	s := x.freshBytes(st, n)
	st.ghost["json.arr"], st.ghost["json.len"] = s.arr, n
	x.done(st, f, dest, Tuple{s, x.nilIface()})
	return []*State{st, fail}
}

func (x *Exec) nilSlice(el types.Type) *Slice {
	z := x.c.zero
	return &Slice{arr: z, off: z, len: z, cap: z, elem: el}
}

func (x *Exec) jsonUnmarshal(st *State, f *Frame, fn *ssa.Function, args []Value, dest ssa.Value) []*State {
	c := x.c
	data := args[0].(*Slice)
	v := x.resolveIface(st, args[1].(*Iface))
	p, ok := v.val.(*Ptr)
	if !ok || v.dyn == nil {
		x.unsupported("json.Unmarshal into a value of unknown type")
	}
	t := under(v.dyn).(*types.Pointer).Elem()
	if k := basicKind(t); k != "" && !hasMethod(v.dyn, "UnmarshalJSON") && !hasMethod(v.dyn, "UnmarshalText") {
		s := x.term(x.bytesToStr(st, data))
		var okT, val *Term
		switch {
		case s.op == OStr && k == "int":
			meta := intMeta(under(t).(*types.Basic))
			if n, err := strconv.ParseInt(s.str, 10, 64); err == nil && json.Valid([]byte(s.str)) && meta.lo.Cmp(c.Int(n).val) <= 0 && meta.hi.Cmp(c.Int(n).val) >= 0 {
				okT, val = c.True, c.Int(n)
			} else if s.str == "null" {
				okT, val = c.True, nil
			} else {
				okT = c.False
			}
		case s.op == OStr:
			var str string
			if s.str == "null" {
				okT = c.True
			} else if json.Unmarshal([]byte(s.str), &str) == nil {
				okT, val = c.True, c.Str(str)
			} else {
				okT = c.False
			}
		case s.op == OApp && s.str == "json."+k:
			okT, val = c.True, s.args[0]
			if k == "int" {
				meta := intMeta(under(t).(*types.Basic))
				okT = c.And(c.Le(c.Big(meta.lo), val), c.Le(val, c.Big(meta.hi)))
			}
		case k == "int":
			meta := intMeta(under(t).(*types.Basic))
			val = c.App("json.dec.int", SInt, s)
			okT = c.And(c.App("json.is.int", SBool, s), c.Le(c.Big(meta.lo), val), c.Le(val, c.Big(meta.hi)))
		default:
			val = c.App("json.dec.str", SStr, s)
			okT = c.App("json.is.str", SBool, s)
		}
		var out []*State
		good, bad := x.branchOn(st, okT)
		if bad != nil {
			x.done(bad, bad.top(), dest, x.freshErr(bad))
			out = append(out, bad)
		}
		if good != nil {
			if val != nil {
				// null leaves the target as it is
				null := c.False
				if s.op != OStr && s.op != OApp || s.op == OApp && s.str != "json."+k {
					null = c.App("json.null", SBool, s)
				}
				old := x.term(x.load(good, p, t))
				x.store(good, p, t, c.Ite(null, old, val))
			}
			x.done(good, good.top(), dest, x.nilIface())
			out = append(out, good)
		}
		return out
	}
	x.used["encoding/json.Unmarshal into a composite value (arbitrary value or error)"] = true
	bad := c.Fresh("json.fail", SBool)
	x.havocWM(st)
	x.store(st, p, t, x.freshVal(st, "json", t, st.wm))
	fail := st.clone()
	x.assume(fail, bad)
	x.done(fail, fail.top(), dest, x.freshErr(fail))
	x.assume(st, c.Not(bad))
	x.done(st, f, dest, x.nilIface())
	return []*State{st, fail}
}
