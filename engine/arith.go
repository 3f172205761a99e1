package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
)

func intInfo(t types.Type) (bits uint, signed bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 64, false
	}
	switch b.Kind() {
	case types.UntypedInt:
		return 64, true
	case types.UntypedRune:
		return 32, true
	}
	return uint(sizeof(b) * 8), b.Info()&types.IsUnsigned == 0
}

func (x *Exec) wrapU(v *Term, bits uint) *Term { return x.c.Mod(v, pow2(bits)) }
func (x *Exec) wrapS(v *Term, bits uint) *Term {
	h := pow2(bits - 1)
	return x.c.Sub(x.c.Mod(x.c.Add(v, x.c.Big(h)), pow2(bits)), x.c.Big(h))
}

// wrap brings the mathematical result v into the range of type t.
func (x *Exec) wrap(st *State, v *Term, t types.Type) *Term {
	bits, signed := intInfo(t)
	lo, hi := bigZero, new(big.Int).Sub(pow2(bits), bigOne)
	if signed {
		lo, hi = new(big.Int).Neg(pow2(bits-1)), new(big.Int).Sub(pow2(bits-1), bigOne)
	}
	l, h := x.c.Range(v)
	okL := l != nil && l.Cmp(lo) >= 0
	okH := h != nil && h.Cmp(hi) <= 0
	if okL && okH {
		return v
	}
	if st != nil && st.pure > 0 && bits == 64 && signed {
		// specification arithmetic on int is mathematical
		return v
	}
	if st != nil && !v.hasB && v.op != OConst {
		var need []*Term
		if !okL {
			need = append(need, x.c.Le(x.c.Big(lo), v))
		}
		if !okH {
			need = append(need, x.c.Le(v, x.c.Big(hi)))
		}
		g := x.c.And(need...)
		if x.known(st, g) == 1 || x.entails(st, g) {
			return v
		}
	}
	if signed {
		return x.wrapS(v, bits)
	}
	return x.wrapU(v, bits)
}

func (x *Exec) binop(st *State, op token.Token, a, b Value, xt, yt, rt types.Type) Value {
	c := x.c
	switch op {
	case token.EQL:
		return x.equal(st, a, b, xt, yt)
	case token.NEQ:
		return c.Not(x.equal(st, a, b, xt, yt))
	}
	if isString(xt) {
		s, t := x.term(a), x.term(b)
		switch op {
		case token.ADD:
			return x.concat(s, t)
		case token.LSS:
			return c.App("str.<", SBool, s, t)
		case token.LEQ:
			return c.App("str.<=", SBool, s, t)
		case token.GTR:
			return c.App("str.<", SBool, t, s)
		case token.GEQ:
			return c.App("str.<=", SBool, t, s)
		}
	}
	if isBool(xt) {
		s, t := x.term(a), x.term(b)
		switch op {
		case token.AND, token.LAND:
			return c.And(s, t)
		case token.OR, token.LOR:
			return c.Or(s, t)
		}
	}
	if isFloat(xt) {
		return x.fbin(op, x.term(a), x.term(b), uint(sizeof(xt)*8))
	}
	s, t := x.term(a), x.term(b)
	switch op {
	case token.LSS:
		return c.Lt(s, t)
	case token.LEQ:
		return c.Le(s, t)
	case token.GTR:
		return c.Gt(s, t)
	case token.GEQ:
		return c.Ge(s, t)
	case token.ADD:
		return x.wrap(st, c.Add(s, t), rt)
	case token.SUB:
		return x.wrap(st, c.Sub(s, t), rt)
	case token.MUL:
		return x.wrap(st, c.Mul(s, t), rt)
	case token.QUO, token.REM:
		return x.divrem(st, op, s, t, rt)
	case token.SHL:
		if t.op == OConst && t.val.IsInt64() {
			bits, _ := intInfo(rt)
			n := t.val.Int64()
			if n >= int64(bits) {
				return c.zero
			}
			return x.wrap(st, c.MulK(s, pow2(uint(n))), rt)
		}
		if s.op == OConst {
			// const << symbolic: case split over small ranges
			lo, hi := c.Range(t)
			if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(64)) <= 0 {
				var r *Term = c.zero
				for n := hi.Int64(); n >= lo.Int64(); n-- {
					v := x.wrap(st, c.MulK(s, pow2(uint(n))), rt)
					r = c.Ite(c.Eq(t, c.Int(n)), v, r)
				}
				return r
			}
		}
	case token.SHR:
		if t.op == OConst && t.val.IsInt64() {
			n := t.val.Int64()
			bits, sg := intInfo(rt)
			if n >= int64(bits) {
				if !sg {
					return c.zero
				}
				n = int64(bits) - 1
			}
			return c.Div(s, pow2(uint(n)))
		}
	case token.AND:
		return x.band(s, t, rt)
	case token.OR:
		return x.bor(st, s, t, rt)
	case token.XOR:
		if t.op == OConst && t.val.Sign() == 0 {
			return s
		}
		if s.op == OConst && s.val.Sign() == 0 {
			return t
		}
		if s == t {
			return c.zero
		}
		return x.bitUF("xor", s, t, rt)
	case token.AND_NOT:
		if t.op == OConst {
			bits, sg := intInfo(rt)
			if sg && t.val.Sign() < 0 {
				break
			}
			// s &^ k == s - (s & k)
			_ = bits
			return c.Sub(s, x.term(x.band(s, t, rt)))
		}
		return x.bitUF("andnot", s, t, rt)
	}
	x.unsupported("binop %s on %s", op, xt)
	return nil
}

func (x *Exec) bitUF(n string, s, t *Term, rt types.Type) *Term {
	if s.op == OConst && t.op == OConst {
		r := new(big.Int)
		switch n {
		case "xor":
			return x.c.Big(r.Xor(s.val, t.val))
		case "and":
			return x.c.Big(r.And(s.val, t.val))
		case "or":
			return x.c.Big(r.Or(s.val, t.val))
		case "andnot":
			return x.c.Big(r.AndNot(s.val, t.val))
		}
	}
	if s.id > t.id && n != "andnot" {
		s, t = t, s
	}
	u := x.c.App(fmt.Sprintf("bv%s#%s", n, under(rt)), SInt, s, t)
	if u.meta == nil {
		if b, ok := under(rt).(*types.Basic); ok {
			m := *intMeta(b)
			// and/or of nonnegative operands are bounded
			la, ha := x.c.Range(s)
			lb, hb := x.c.Range(t)
			if la != nil && lb != nil && la.Sign() >= 0 && lb.Sign() >= 0 && ha != nil && hb != nil {
				m.lo = bigZero
				mx := ha
				if hb.Cmp(mx) > 0 {
					mx = hb
				}
				m.hi = new(big.Int).Sub(pow2(uint(mx.BitLen())), bigOne)
				if n == "and" {
					m.hi = ha
					if hb.Cmp(ha) < 0 {
						m.hi = hb
					}
				}
			}
			u.meta = &m
		}
	}
	return u
}

func (x *Exec) band(s, t *Term, rt types.Type) Value {
	c := x.c
	if s.op == OConst && t.op != OConst {
		s, t = t, s
	}
	if t.op == OConst && s.op != OConst {
		k := t.val
		if k.Sign() == 0 {
			return c.zero
		}
		if k.Sign() < 0 {
			// ...1110000 mask: s - (s mod 2^n)
			neg := new(big.Int).Neg(k)
			if isPow2(neg) {
				return c.Sub(s, c.Mod(s, neg))
			}
			return x.bitUF("and", s, t, rt)
		}
		// contiguous runs of bits
		var parts []*Term
		n := uint(k.BitLen())
		for i := uint(0); i < n; {
			if k.Bit(int(i)) == 0 {
				i++
				continue
			}
			j := i
			for j < n && k.Bit(int(j)) == 1 {
				j++
			}
			p := c.Mod(c.Div(s, pow2(i)), pow2(j-i))
			parts = append(parts, c.MulK(p, pow2(i)))
			i = j
		}
		if len(parts) <= 4 {
			return c.Add(append([]*Term{c.zero}, parts...)...)
		}
	}
	if s == t {
		return s
	}
	return x.bitUF("and", s, t, rt)
}

func isPow2(k *big.Int) bool {
	return k.Sign() > 0 && new(big.Int).And(k, new(big.Int).Sub(k, bigOne)).Sign() == 0
}

// trailing returns n such that v is known to be a multiple of 2^n.
func (x *Exec) trailing(v *Term) uint {
	switch v.op {
	case OConst:
		if v.val.Sign() == 0 {
			return 64
		}
		return v.val.TrailingZeroBits()
	case OPoly:
		n := uint(64)
		if v.val.Sign() != 0 {
			n = v.val.TrailingZeroBits()
		}
		for i, k := range v.coefs {
			t := k.TrailingZeroBits() + x.trailing(v.args[i])
			if t < n {
				n = t
			}
		}
		return n
	case OMod:
		if isPow2(v.args[1].val) {
			n := x.trailing(v.args[0])
			if m := v.args[1].val.TrailingZeroBits(); m < n {
				n = m
			}
			return n
		}
	}
	return 0
}

func (x *Exec) bor(st *State, s, t *Term, rt types.Type) Value {
	c := x.c
	if s == c.zero {
		return t
	}
	if t == c.zero {
		return s
	}
	if s.op == OConst && t.op == OConst {
		return x.bitUF("or", s, t, rt)
	}
	dis := func(a, b *Term) bool {
		la, ha := c.Range(a)
		lb, _ := c.Range(b)
		return la != nil && lb != nil && la.Sign() >= 0 && lb.Sign() >= 0 && ha != nil && ha.Cmp(pow2(x.trailing(b))) < 0
	}
	if dis(s, t) || dis(t, s) {
		return c.Add(s, t)
	}
	return x.bitUF("or", s, t, rt)
}

func (x *Exec) divrem(st *State, op token.Token, s, t *Term, rt types.Type) *Term {
	c := x.c
	if t.op != OConst {
		if t.op == OIte && t.args[1].op == OConst && t.args[2].op == OConst {
			return c.Ite(t.args[0], x.divrem(st, op, s, t.args[1], rt), x.divrem(st, op, s, t.args[2], rt))
		}
		lo, hi := c.Range(t)
		if lo != nil && hi != nil && new(big.Int).Sub(hi, lo).Cmp(big.NewInt(70)) < 0 {
			// case split over a small divisor range
			var r *Term
			for k := hi.Int64(); k >= lo.Int64(); k-- {
				if k == 0 {
					continue
				}
				v := x.divrem(st, op, s, c.Int(k), rt)
				if r == nil {
					r = v
				} else {
					r = c.Ite(c.Eq(t, c.Int(k)), v, r)
				}
			}
			if r != nil {
				return r
			}
		}
		n := "quo"
		if op == token.REM {
			n = "rem"
		}
		u := c.App(n+"#", SInt, s, t)
		if b, ok := under(rt).(*types.Basic); ok && u.meta == nil {
			u.meta = intMeta(b)
		}
		return u
	}
	k := t.val
	if k.Sign() == 0 {
		return c.zero
	}
	ak := new(big.Int).Abs(k)
	q := func(v *Term) *Term { return c.Div(v, ak) }
	lo, _ := c.Range(s)
	var quo *Term
	if lo != nil && lo.Sign() >= 0 {
		quo = q(s)
	} else if st != nil && !s.hasB && x.entails(st, c.Le(c.zero, s)) {
		quo = q(s)
	} else {
		quo = c.Ite(c.Le(c.zero, s), q(s), c.Neg(q(c.Neg(s))))
	}
	if k.Sign() < 0 {
		quo = c.Neg(quo)
	}
	if op == token.QUO {
		return x.wrap(st, quo, rt)
	}
	if lo != nil && lo.Sign() >= 0 {
		return c.Mod(s, ak)
	}
	return c.Sub(s, c.MulK(quo, k))
}

func (x *Exec) equal(st *State, a, b Value, xt, yt types.Type) *Term {
	c := x.c
	ia, oka := a.(*Iface)
	ib, okb := b.(*Iface)
	if oka != okb {
		if oka {
			ib = x.mkIface(b, yt).(*Iface)
		} else {
			ia = x.mkIface(a, xt).(*Iface)
		}
		oka, okb = true, true
	}
	if oka {
		ia, ib = x.resolveIface(st, ia), x.resolveIface(st, ib)
		if ia.tag == c.zero || ib.tag == c.zero {
			return c.Eq(ia.tag, ib.tag)
		}
		if ra, ok := ia.val.(*ReflType); ok {
			if rb, ok := ib.val.(*ReflType); ok {
				return c.Bool(types.Identical(ra.typ, rb.typ))
			}
		}
		if ia.dyn != nil && ib.dyn != nil {
			if !types.Identical(ia.dyn, ib.dyn) {
				return c.False
			}
			return x.equal(st, ia.val, ib.val, ia.dyn, ib.dyn)
		}
		ta, ba := x.encodeIface(st, ia)
		tb, bb := x.encodeIface(st, ib)
		// pointer-shaped payloads (errors) compare by identity
		return c.And(c.Eq(ta, tb), c.Eq(ba, bb))
	}
	t := xt
	switch under(xt).(type) {
	case *types.Slice:
		// comparison with nil only
		sa, sb := a.(*Slice), b.(*Slice)
		if sb.arr == c.zero {
			return c.Eq(sa.arr, c.zero)
		}
		return c.Eq(sb.arr, c.zero)
	case *types.Pointer, *types.Signature, *types.Map, *types.Chan:
		if _, ok := a.(*ArrPtr); ok {
			return c.False
		}
		if _, ok := b.(*ArrPtr); ok {
			return c.False
		}
	}
	ta, tb := x.flatten(st, a, t), x.flatten(st, b, t)
	ls := x.leaves(t)
	var out []*Term
	for i := range ta {
		if ls[i].kind == "float" {
			out = append(out, x.fcmp(token.EQL, ta[i], tb[i], uint(ls[i].size*8)))
			continue
		}
		out = append(out, c.Eq(ta[i], tb[i]))
	}
	return c.And(out...)
}

// ---------- conversions ----------

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	c := x.c
	uf, ut := under(from), under(to)
	bf, okf := uf.(*types.Basic)
	bt, okt := ut.(*types.Basic)
	if okf && okt {
		switch {
		case bf.Kind() == types.UnsafePointer && bt.Kind() == types.UnsafePointer:
			return v
		case bf.Info()&types.IsInteger != 0 && bt.Info()&types.IsInteger != 0:
			return x.wrapConv(st, x.term(v), to)
		case bf.Info()&types.IsInteger != 0 && bt.Info()&types.IsFloat != 0:
			return x.i2f(x.term(v), uint(sizeof(to)*8))
		case bf.Info()&types.IsFloat != 0 && bt.Info()&types.IsFloat != 0:
			return x.f2f(x.term(v), uint(sizeof(from)*8), uint(sizeof(to)*8))
		case bf.Info()&types.IsFloat != 0 && bt.Info()&types.IsInteger != 0:
			return x.f2i(x.term(v), uint(sizeof(from)*8), to)
		case bf.Info()&types.IsString != 0 && bt.Info()&types.IsString != 0:
			return v
		case bf.Info()&types.IsInteger != 0 && bt.Info()&types.IsString != 0:
			u := c.App("runestr", SStr, x.term(v))
			return u
		}
	}
	if okt && bt.Kind() == types.UnsafePointer {
		return v
	}
	if okf && bf.Kind() == types.UnsafePointer {
		if pt, ok := ut.(*types.Pointer); ok {
			switch p := v.(type) {
			case *Ptr:
				if p.base == c.zero && !p.elem {
					return &Ptr{base: c.zero, root: pt.Elem()}
				}
				np := *p
				return &np
			case *ArrPtr:
				return p
			}
		}
		return v
	}
	if okf && bf.Info()&types.IsString != 0 {
		if sl, ok := ut.(*types.Slice); ok {
			return x.strToBytes(st, x.term(v), sl)
		}
	}
	if okt && bt.Info()&types.IsString != 0 {
		if s, ok := v.(*Slice); ok {
			return x.bytesToStr(st, s)
		}
	}
	x.unsupported("conversion %s -> %s", from, to)
	return nil
}

func (x *Exec) wrapConv(st *State, v *Term, to types.Type) *Term {
	bits, signed := intInfo(to)
	lo, hi := bigZero, new(big.Int).Sub(pow2(bits), bigOne)
	if signed {
		lo, hi = new(big.Int).Neg(pow2(bits-1)), new(big.Int).Sub(pow2(bits-1), bigOne)
	}
	l, h := x.c.Range(v)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return v
	}
	if st != nil && !v.hasB && v.op != OConst && bits >= 32 {
		g := x.c.And(x.c.Le(x.c.Big(lo), v), x.c.Le(v, x.c.Big(hi)))
		if x.known(st, g) == 1 || x.entails(st, g) {
			return v
		}
	}
	if signed {
		return x.wrapS(v, bits)
	}
	return x.wrapU(v, bits)
}

// ---------- floats (bit patterns) ----------

func fmeta(bits uint) *Meta {
	return &Meta{lo: bigZero, hi: new(big.Int).Sub(pow2(bits), bigOne)}
}

func (x *Exec) fapp(name string, bits uint, args ...*Term) *Term {
	t := x.c.App(name, SInt, args...)
	if t.meta == nil {
		t.meta = fmeta(bits)
	}
	return t
}

func fval(t *Term, bits uint) float64 {
	if bits == 32 {
		return float64(math.Float32frombits(uint32(t.val.Uint64())))
	}
	return math.Float64frombits(t.val.Uint64())
}
func (x *Exec) fconst(f float64, bits uint) *Term {
	if bits == 32 {
		return x.c.Big(new(big.Int).SetUint64(uint64(math.Float32bits(float32(f)))))
	}
	return x.c.Big(new(big.Int).SetUint64(math.Float64bits(f)))
}

func (x *Exec) fbin(op token.Token, a, b *Term, bits uint) *Term {
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return x.fcmp(op, a, b, bits)
	}
	n := map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div"}[op]
	if n == "" {
		x.unsupported("float op %s", op)
	}
	if a.op == OConst && b.op == OConst {
		fa, fb := fval(a, bits), fval(b, bits)
		var r float64
		if bits == 32 {
			ga, gb := float32(fa), float32(fb)
			switch op {
			case token.ADD:
				r = float64(ga + gb)
			case token.SUB:
				r = float64(ga - gb)
			case token.MUL:
				r = float64(ga * gb)
			case token.QUO:
				r = float64(ga / gb)
			}
		} else {
			switch op {
			case token.ADD:
				r = fa + fb
			case token.SUB:
				r = fa - fb
			case token.MUL:
				r = fa * fb
			case token.QUO:
				r = fa / fb
			}
		}
		return x.fconst(r, bits)
	}
	if (n == "add" || n == "mul") && a.id > b.id {
		a, b = b, a
	}
	return x.fapp(fmt.Sprintf("f%d%s", bits, n), bits, a, b)
}

func (x *Exec) fneg(a *Term, bits int64) *Term {
	c := x.c
	h := c.Big(pow2(uint(bits) - 1))
	if x.fpMode && a.op != OConst {
		return x.fapp(fmt.Sprintf("f%dneg", bits), uint(bits), a)
	}
	return c.Ite(c.Lt(a, h), c.Add(a, h), c.Sub(a, h))
}

func (x *Exec) fnan(a *Term, bits uint) *Term {
	c := x.c
	inf := new(big.Int)
	if bits == 32 {
		inf.SetUint64(0x7f800000)
	} else {
		inf.SetUint64(0x7ff0000000000000)
	}
	if x.fpMode && a.op != OConst {
		return c.App(fmt.Sprintf("f%disnan", bits), SBool, a)
	}
	return c.Gt(c.Mod(a, pow2(bits-1)), c.Big(inf))
}

// fkey maps the bits of a non-NaN float to an integer with the same order.
func (x *Exec) fkey(a *Term, bits uint) *Term {
	c := x.c
	h := c.Big(pow2(bits - 1))
	return c.Ite(c.Lt(a, h), a, c.Sub(h, a))
}

func (x *Exec) fcmp(op token.Token, a, b *Term, bits uint) *Term {
	c := x.c
	if a.op == OConst && b.op == OConst {
		fa, fb := fval(a, bits), fval(b, bits)
		switch op {
		case token.EQL:
			return c.Bool(fa == fb)
		case token.LSS:
			return c.Bool(fa < fb)
		case token.LEQ:
			return c.Bool(fa <= fb)
		case token.GTR:
			return c.Bool(fa > fb)
		case token.GEQ:
			return c.Bool(fa >= fb)
		}
	}
	if op == token.GTR || op == token.GEQ {
		a, b = b, a
		if op == token.GTR {
			op = token.LSS
		} else {
			op = token.LEQ
		}
	}
	if x.fpMode {
		n := map[token.Token]string{token.EQL: "eq", token.LSS: "lt", token.LEQ: "le"}[op]
		return c.App(fmt.Sprintf("f%d%s", bits, n), SBool, a, b)
	}
	nn := c.And(c.Not(x.fnan(a, bits)), c.Not(x.fnan(b, bits)))
	ka, kb := x.fkey(a, bits), x.fkey(b, bits)
	switch op {
	case token.EQL:
		if a == b {
			return c.Not(x.fnan(a, bits))
		}
		// equal keys: identical bits or both zeros
		return c.And(nn, c.Or(c.Eq(a, b), c.And(c.Eq(c.Mod(a, pow2(bits-1)), c.zero), c.Eq(c.Mod(b, pow2(bits-1)), c.zero))))
	case token.LSS:
		return c.And(nn, c.Lt(ka, kb))
	case token.LEQ:
		return c.And(nn, c.Le(ka, kb))
	}
	x.unsupported("fcmp %s", op)
	return nil
}

func (x *Exec) i2f(v *Term, bits uint) *Term {
	if v.op == OConst {
		f, _ := new(big.Float).SetInt(v.val).Float64()
		if bits == 32 {
			g, _ := new(big.Float).SetInt(v.val).Float32()
			f = float64(g)
		}
		return x.fconst(f, bits)
	}
	return x.fapp(fmt.Sprintf("i2f%d", bits), bits, v)
}

func (x *Exec) f2f(v *Term, from, to uint) *Term {
	if from == to {
		return v
	}
	if v.op == OConst {
		return x.fconst(fval(v, from), to)
	}
	if to == 32 && v.op == OApp && v.str == "f32to64" {
		return v.args[0] // exact (NaN payload normalisation aside, see design notes)
	}
	if to == 32 && v.op == OIte {
		return x.c.Ite(v.args[0], x.f2f(v.args[1], from, to), x.f2f(v.args[2], from, to))
	}
	return x.fapp(fmt.Sprintf("f%dto%d", from, to), to, v)
}

func (x *Exec) f2i(v *Term, from uint, to types.Type) *Term {
	if v.op == OConst {
		f := fval(v, from)
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			bi, _ := new(big.Float).SetFloat64(math.Trunc(f)).Int(nil)
			return x.wrapConv(nil, x.c.Big(bi), to)
		}
	}
	b := under(to).(*types.Basic)
	t := x.c.App(fmt.Sprintf("f%dto_%s", from, b.Name()), SInt, v)
	if t.meta == nil {
		t.meta = intMeta(b)
	}
	return t
}

// ---------- strings ----------

func (x *Exec) strLen(s *Term) *Term {
	if s.op == OStr {
		return x.c.Int(int64(len(s.str)))
	}
	if s.op == OApp && s.str == "str.++" {
		n := x.c.zero
		for _, a := range s.args {
			n = x.c.Add(n, x.strLen(a))
		}
		return n
	}
	if s.op == OIte && (s.args[1].op == OStr || s.args[2].op == OStr) {
		return x.c.Ite(s.args[0], x.strLen(s.args[1]), x.strLen(s.args[2]))
	}
	t := x.c.App("str.len", SInt, s)
	if t.meta == nil {
		t.meta = lenMeta
	}
	return t
}

func (x *Exec) strAt(s, i *Term) *Term {
	if s.op == OStr && i.op == OConst {
		return x.c.Int(int64(s.str[i.val.Int64()]))
	}
	t := x.c.App("str.to_code", SInt, x.c.App("str.at", SStr, s, i))
	if t.meta == nil {
		t.meta = rngMeta(0, 255)
	}
	return t
}

func (x *Exec) substr(st *State, s, lo, hi *Term) *Term {
	if s.op == OStr && lo.op == OConst && hi.op == OConst {
		return x.c.Str(s.str[lo.val.Int64():hi.val.Int64()])
	}
	if lo == x.c.zero && hi == x.strLen(s) {
		return s
	}
	if s.op == OApp && s.str == "str.++" && s.args[0].op == OStr && lo.op == OConst {
		p := s.args[0].str
		n := lo.val.Int64()
		if int64(len(p)) >= n && hi == x.strLen(s) {
			rest := append([]*Term{x.c.Str(p[n:])}, s.args[1:]...)
			r := rest[0]
			for _, t := range rest[1:] {
				r = x.concat(r, t)
			}
			return r
		}
	}
	return x.c.App("str.substr", SStr, s, lo, x.c.Sub(hi, lo))
}

func (x *Exec) concat(a, b *Term) *Term {
	c := x.c
	var parts []*Term
	add := func(t *Term) {
		ts := []*Term{t}
		if t.op == OApp && t.str == "str.++" {
			ts = t.args
		}
		for _, t := range ts {
			if t.op == OStr && t.str == "" {
				continue
			}
			if n := len(parts); n > 0 && t.op == OStr && parts[n-1].op == OStr {
				parts[n-1] = c.Str(parts[n-1].str + t.str)
				continue
			}
			parts = append(parts, t)
		}
	}
	add(a)
	add(b)
	switch len(parts) {
	case 0:
		return c.Str("")
	case 1:
		return parts[0]
	}
	return c.App("str.++", SStr, parts...)
}

// strToBytes: []byte(s) is a fresh array whose bytes are the codes of s.
func (x *Exec) strToBytes(st *State, s *Term, sl *types.Slice) Value {
	c := x.c
	n := x.strLen(s)
	r := x.newRef(st, "strb")
	l := x.leaves(sl.Elem())[0]
	row := c.Fresh("strrow", Arr(SInt, SInt))
	row.meta = l.meta
	x.strRows[row] = s
	if s.op == OStr {
		for i := 0; i < len(s.str); i++ {
			st.facts = append(st.facts, c.Eq(c.Select(row, c.Int(int64(i))), c.Int(int64(s.str[i]))))
		}
	} else {
		b := c.FreshB("i", SInt)
		b.meta = &Meta{lo: bigZero}
		st.facts = append(st.facts, c.Forall([]*Term{b}, c.Imp(c.And(c.Le(c.zero, b), c.Lt(b, n)), c.Eq(c.Select(row, b), x.strAt(s, b)))))
	}
	x.setRow(st, sl.Elem(), l, r, row)
	return &Slice{arr: r, off: c.zero, len: n, cap: n, elem: sl.Elem()}
}

// bytesToStr: string(b) is a string of the same length and bytes.
func (x *Exec) bytesToStr(st *State, s *Slice) Value {
	c := x.c
	l := x.leaves(s.elem)[0]
	row := x.rowOf(st, s.elem, l, s.arr)
	if s.len == c.zero {
		return c.Str("")
	}
	if str, ok := x.strRows[row]; ok && s.off == c.zero && s.len == x.strLen(str) {
		return str
	}
	if s.len.op == OConst && s.len.val.Cmp(big.NewInt(64)) <= 0 {
		// constant content
		buf := []byte{}
		for i := int64(0); i < s.len.val.Int64(); i++ {
			v := c.Select(row, c.Add(s.off, c.Int(i)))
			if v.op != OConst {
				buf = nil
				break
			}
			buf = append(buf, byte(v.val.Int64()))
		}
		if buf != nil {
			return c.Str(string(buf))
		}
	}
	key := [3]*Term{row, s.off, s.len}
	str := x.bstr[key]
	if str == nil {
		str = c.Fresh("bstr", SStr)
		x.bstr[key] = str
	}
	st.facts = append(st.facts, c.Eq(x.strLen(str), s.len))
	b := c.FreshB("i", SInt)
	st.facts = append(st.facts, c.Forall([]*Term{b}, c.Imp(c.And(c.Le(c.zero, b), c.Lt(b, s.len)), c.Eq(x.strAt(str, b), c.Select(row, c.Add(s.off, b))))))
	return str
}

// ---------- application simplification and lemmas ----------

func (c *Ctx) simpApp(name string, s Sort, args []*Term) *Term {
	x := c.x
	if x == nil {
		return nil
	}
	switch name {
	case "str.len":
		if args[0].op == OStr {
			return x.strLen(args[0])
		}
	case "f32to64":
		if args[0].op == OConst {
			return x.f2f(args[0], 32, 64)
		}
	case "f64to32":
		if args[0].op == OConst {
			return x.f2f(args[0], 64, 32)
		}
	case "i2f32":
		if args[0].op == OConst {
			return x.i2f(args[0], 32)
		}
	case "i2f64":
		if args[0].op == OConst {
			return x.i2f(args[0], 64)
		}
	}
	return nil
}

// appLemma gives facts about one ground application.
func (c *Ctx) appLemma(t *Term) []*Term {
	x := c.x
	switch t.str {
	case "quo#", "rem#":
		a, b := t.args[0], t.args[1]
		q := t
		if t.str == "rem#" {
			q = c.App("quo#", SInt, a, b)
			q.meta = t.meta
		}
		m := c.Mul(q, b)
		var out []*Term
		pos := c.Lt(c.zero, b)
		if t.str == "quo#" {
			out = append(out,
				c.Imp(c.And(pos, c.Le(c.zero, a)), c.And(c.Le(c.zero, q), c.Le(q, a), c.Le(m, a), c.Lt(a, c.Add(m, b)))),
				c.Imp(c.And(pos, c.Lt(a, c.zero)), c.And(c.Le(q, c.zero), c.Le(a, q), c.Le(a, m), c.Lt(c.Sub(m, b), a))))
		} else {
			out = append(out, c.Imp(pos, c.Eq(t, c.Sub(a, m))))
		}
		return out
	case "f32to64":
		a := t.args[0]
		if x.fpMode {
			return nil
		}
		h32, h64 := c.Big(pow2(31)), c.Big(pow2(63))
		// sign and NaN-ness and zero-ness are preserved
		return []*Term{
			iff(c, c.Lt(a, h32), c.Lt(t, h64)),
			iff(c, x.fnan(a, 32), x.fnan(t, 64)),
			iff(c, c.Eq(c.Mod(a, pow2(31)), c.zero), c.Eq(c.Mod(t, pow2(63)), c.zero)),
		}
	}
	return nil
}

func iff(c *Ctx, a, b *Term) *Term { return c.And(c.Imp(a, b), c.Imp(b, a)) }

// pairLemmas gives facts about pairs of applications (monotone conversions).
func (c *Ctx) pairLemmas(q *query) []*Term {
	x := c.x
	if x == nil || x.fpMode {
		return nil
	}
	var apps []*Term
	seen := map[int]bool{}
	for _, g := range q.ground {
		walk(g, seen, func(t *Term) {
			if t.op == OApp && t.str == "f32to64" && !t.hasB {
				apps = append(apps, t)
			}
		})
	}
	var out []*Term
	if len(apps) > 30 {
		apps = apps[:30]
	}
	for i, a := range apps {
		for j, b := range apps {
			if i == j {
				continue
			}
			ka, kb := x.fkey(a.args[0], 32), x.fkey(b.args[0], 32)
			la, lb := x.fkey(a, 64), x.fkey(b, 64)
			out = append(out, iff(c, c.Lt(ka, kb), c.Lt(la, lb)))
		}
		// constants: compare with converted bound
	}
	return out
}

type bigIntT = big.Int

func newBig(i int64) *big.Int { return big.NewInt(i) }

func (x *Exec) fminmax(name string, a, b *Term, bits uint) *Term {
	c := x.c
	if a.op == OConst && b.op == OConst {
		fa, fb := fval(a, bits), fval(b, bits)
		if name == "min" {
			return x.fconst(math.Min(fa, fb), bits)
		}
		return x.fconst(math.Max(fa, fb), bits)
	}
	// NaN if either is NaN (canonical NaN pattern left unspecified), -0 < +0
	if x.fpMode {
		return x.fapp(fmt.Sprintf("f%d%s", bits, name), bits, a, b)
	}
	h := c.Big(pow2(bits - 1))
	// total order refining the float order with -0 below +0
	tk := func(t *Term) *Term { return c.Ite(c.Lt(t, h), t, c.AddK(c.Sub(h, t), -1)) }
	le := c.Le(tk(a), tk(b))
	var r *Term
	if name == "min" {
		r = c.Ite(le, a, b)
	} else {
		r = c.Ite(le, b, a)
	}
	nan := x.fapp(fmt.Sprintf("f%dnanof", bits), bits, a, b)
	anyNaN := c.Or(x.fnan(a, bits), x.fnan(b, bits))
	if bits == 64 {
		// math.Min/Max: infinities take precedence over NaN (Min(x,-Inf) = -Inf)
		inf := uint64(0xfff0000000000000)
		if name == "max" {
			inf = 0x7ff0000000000000
		}
		iv := c.Big(new(big.Int).SetUint64(inf))
		if name == "min" || name == "max" {
			nan = c.Ite(c.Or(c.Eq(a, iv), c.Eq(b, iv)), iv, nan)
		}
	}
	return c.Ite(anyNaN, nan, r)
}
