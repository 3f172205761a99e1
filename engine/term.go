package main

// Term language of the verification-condition generator.  Terms are
// hash-consed per Ctx.  Integers are mathematical; integer expressions are
// kept in polynomial normal form.  Arrays never reach the solver: every
// select is reduced eagerly to applications of base symbols, so the solver
// sees uninterpreted functions and (linear) integer arithmetic only.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "String"
)

// Arr builds an array sort.
func Arr(k, v Sort) Sort { return Sort("[" + string(k) + "]" + string(v)) }

func (s Sort) arr() bool { return strings.HasPrefix(string(s), "[") }
func (s Sort) key() Sort {
	i := strings.Index(string(s), "]")
	return s[1:i]
}
func (s Sort) elem() Sort {
	i := strings.Index(string(s), "]")
	return s[i+1:]
}

type Op uint8

const (
	OConst Op = iota // integer constant
	OStr             // string constant
	OTrue
	OFalse
	OSym   // free symbol
	OBound // bound variable
	OApp   // application of named function
	OPoly  // sum of coef*mono + const
	OMono  // product of atoms
	OIte
	OEq  // generic equality
	OGe0 // poly >= 0
	OEq0 // poly == 0
	OAnd
	OOr
	ONot
	OSelect
	OStore
	OCopy     // copyrange(dst, doff, src, soff, n)
	OConstArr // constant array
	OForall   // args: bound vars..., body ; trig
	OExists
	ODiv // euclidean by positive constant
	OMod
	OLam // array lambda: args bound var, body
)

type Term struct {
	op    Op
	sort  Sort
	args  []*Term
	coefs []*big.Int
	val   *big.Int
	str   string
	id    int
	hasB  bool // contains bound variables
	n     int  // creation number of fresh symbols
	meta  *Meta
}

// Meta is type information attached to symbols: the range of every Int the
// symbol (after full application) denotes.
type Meta struct {
	lo, hi *big.Int // nil = unbounded
	ptrMax *Term    // for references: value <= ptrMax
}

type Ctx struct {
	tab   map[string]*Term
	next  int
	nsym  int
	True  *Term
	False *Term
	zero  *Term
	one   *Term
	strTy map[string]int

	distinctHook func(a, b *Term) int // 1 equal, -1 distinct, 0 unknown
	rngCache     map[int][2]*big.Int
	substCache   map[string]*Term
	nnfCache     map[int]*Term
	solved       map[[3]int]*Term
	x            *Exec
	symCache     map[int][]*Term
	skDepth      map[*Term]int
	ctree        map[int]bool
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, rngCache: map[int][2]*big.Int{}, ctree: map[int]bool{}}
	c.True = c.mk(OTrue, SBool, nil, nil, nil, "")
	c.False = c.mk(OFalse, SBool, nil, nil, nil, "")
	c.zero = c.Int(0)
	c.one = c.Int(1)
	return c
}

func (c *Ctx) mk(op Op, s Sort, args []*Term, coefs []*big.Int, val *big.Int, str string) *Term {
	var b strings.Builder
	b.WriteByte(byte(op) + 33)
	b.WriteString(string(s))
	b.WriteByte('|')
	b.WriteString(str)
	b.WriteByte('|')
	if val != nil {
		b.WriteString(val.Text(36))
	}
	for i, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		if coefs != nil {
			b.WriteByte('*')
			b.WriteString(coefs[i].Text(36))
		}
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.next++
	t := &Term{op: op, sort: s, args: args, coefs: coefs, val: val, str: str, id: c.next}
	for _, a := range args {
		if a.hasB {
			t.hasB = true
		}
	}
	if op == OBound {
		t.hasB = true
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) Int(i int64) *Term    { return c.Big(big.NewInt(i)) }
func (c *Ctx) Big(b *big.Int) *Term { return c.mk(OConst, SInt, nil, nil, b, "") }
func (c *Ctx) Str(s string) *Term   { return c.mk(OStr, SStr, nil, nil, nil, s) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Sym(name string, s Sort) *Term { return c.mk(OSym, s, nil, nil, nil, name) }
func (c *Ctx) Fresh(hint string, s Sort) *Term {
	c.nsym++
	t := c.Sym(fmt.Sprintf("%s!%d", sanitize(hint), c.nsym), s)
	t.n = c.nsym
	return t
}

// newAfter reports whether t mentions a symbol created after mark.
func (c *Ctx) newAfter(t *Term, mark int) bool {
	for _, s := range c.symset(t) {
		if s.n > mark {
			return true
		}
	}
	return false
}

// symset lists the free symbols of t.
func (c *Ctx) symset(t *Term) []*Term {
	if c.symCache == nil {
		c.symCache = map[int][]*Term{}
	}
	if r, ok := c.symCache[t.id]; ok {
		return r
	}
	var out []*Term
	walk(t, map[int]bool{}, func(u *Term) {
		if u.op == OSym {
			out = append(out, u)
		}
	})
	c.symCache[t.id] = out
	return out
}

func (c *Ctx) symsOf(t *Term, m map[*Term]bool) {
	for _, s := range c.symset(t) {
		m[s] = true
	}
}
func (c *Ctx) FreshB(hint string, s Sort) *Term {
	c.nsym++
	return c.mk(OBound, s, nil, nil, nil, fmt.Sprintf("%s?%d", sanitize(hint), c.nsym))
}
func (c *Ctx) App(name string, s Sort, args ...*Term) *Term {
	return c.mk(OApp, s, args, nil, nil, name)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	if b.Len() == 0 {
		return "v"
	}
	return b.String()
}

// ---- polynomials ----

type poly struct {
	mono  map[int]*big.Int // term id -> coef
	terms map[int]*Term
	k     *big.Int
}

func (c *Ctx) toPoly(t *Term) *poly {
	p := &poly{mono: map[int]*big.Int{}, terms: map[int]*Term{}, k: new(big.Int)}
	p.add(c, t, big.NewInt(1))
	return p
}

func (p *poly) add(c *Ctx, t *Term, f *big.Int) {
	switch t.op {
	case OConst:
		p.k = new(big.Int).Add(p.k, new(big.Int).Mul(t.val, f))
	case OPoly:
		p.k = new(big.Int).Add(p.k, new(big.Int).Mul(t.val, f))
		for i, a := range t.args {
			p.addm(a, new(big.Int).Mul(t.coefs[i], f))
		}
	default:
		p.addm(t, f)
	}
}

func (p *poly) addm(t *Term, f *big.Int) {
	if o, ok := p.mono[t.id]; ok {
		n := new(big.Int).Add(o, f)
		if n.Sign() == 0 {
			delete(p.mono, t.id)
			delete(p.terms, t.id)
		} else {
			p.mono[t.id] = n
		}
		return
	}
	if f.Sign() != 0 {
		p.mono[t.id] = f
		p.terms[t.id] = t
	}
}

// joinMods rewrites a*(v mod m) + a*m*(v div m) to a*v (and the same with the
// quotient taken modulo m2).
func (c *Ctx) joinMods(p *poly) {
	nm, nd := 0, 0
	for _, t := range p.terms {
		if t.op == OMod {
			nm++
		}
		if t.op == ODiv {
			nd++
		}
	}
	if nm == 0 || nm+nd < 2 {
		return
	}
again:
	for id, t := range p.terms {
		if t.op != OMod {
			continue
		}
		v, m := t.args[0], t.args[1].val
		want := new(big.Int).Mul(p.mono[id], m)
		for id2, u := range p.terms {
			if id2 == id || p.mono[id2].Cmp(want) != 0 || u.op != ODiv && u.op != OMod {
				continue
			}
			d := u
			if u.op == OMod {
				d = u.args[0]
			}
			if d.op != ODiv || c.Div(v, m) != d {
				continue
			}
			a := p.mono[id]
			p.addm(t, new(big.Int).Neg(a))
			p.addm(u, new(big.Int).Neg(want))
			n := v
			if u.op == OMod {
				n = c.Mod(v, new(big.Int).Mul(m, u.args[1].val))
			}
			p.add(c, n, a)
			goto again
		}
	}
}

func (c *Ctx) fromPoly(p *poly) *Term {
	if len(p.mono) > 1 {
		c.joinMods(p)
	}
	if len(p.mono) == 0 {
		return c.Big(p.k)
	}
	ids := make([]int, 0, len(p.mono))
	for id := range p.mono {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	if len(ids) == 1 && p.k.Sign() == 0 && p.mono[ids[0]].Cmp(bigOne) == 0 {
		return p.terms[ids[0]]
	}
	args := make([]*Term, len(ids))
	co := make([]*big.Int, len(ids))
	for i, id := range ids {
		args[i] = p.terms[id]
		co[i] = p.mono[id]
	}
	return c.mk(OPoly, SInt, args, co, p.k, "")
}

var bigOne = big.NewInt(1)
var bigZero = big.NewInt(0)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }

func (c *Ctx) Add(ts ...*Term) *Term {
	if len(ts) == 2 {
		if ts[0] == c.zero {
			return ts[1]
		}
		if ts[1] == c.zero {
			return ts[0]
		}
	}
	p := c.toPoly(ts[0])
	for _, t := range ts[1:] {
		p.add(c, t, bigOne)
	}
	return c.fromPoly(p)
}
func (c *Ctx) AddK(t *Term, k int64) *Term { return c.Add(t, c.Int(k)) }
func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.zero
	}
	p := c.toPoly(a)
	p.add(c, b, big.NewInt(-1))
	return c.fromPoly(p)
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.zero, a) }
func (c *Ctx) MulK(a *Term, k *big.Int) *Term {
	p := &poly{mono: map[int]*big.Int{}, terms: map[int]*Term{}, k: new(big.Int)}
	p.add(c, a, k)
	return c.fromPoly(p)
}

func monoFactors(t *Term) []*Term {
	if t.op == OMono {
		return t.args
	}
	return []*Term{t}
}

func (c *Ctx) mono(fs []*Term) *Term {
	if len(fs) == 1 {
		return fs[0]
	}
	g := append([]*Term(nil), fs...)
	sort.Slice(g, func(i, j int) bool { return g[i].id < g[j].id })
	return c.mk(OMono, SInt, g, nil, nil, "")
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == OConst {
		return c.MulK(b, a.val)
	}
	if b.op == OConst {
		return c.MulK(a, b.val)
	}
	pa, pb := c.toPoly(a), c.toPoly(b)
	r := &poly{mono: map[int]*big.Int{}, terms: map[int]*Term{}, k: new(big.Int).Mul(pa.k, pb.k)}
	for id, co := range pa.mono {
		if pb.k.Sign() != 0 {
			r.addm(pa.terms[id], new(big.Int).Mul(co, pb.k))
		}
		for id2, co2 := range pb.mono {
			m := c.mono(append(append([]*Term(nil), monoFactors(pa.terms[id])...), monoFactors(pb.terms[id2])...))
			r.addm(m, new(big.Int).Mul(co, co2))
		}
	}
	if pa.k.Sign() != 0 {
		for id2, co2 := range pb.mono {
			r.addm(pb.terms[id2], new(big.Int).Mul(co2, pa.k))
		}
	}
	return c.fromPoly(r)
}

// constDiff returns a-b if it is a constant.
func (c *Ctx) constDiff(a, b *Term) (*big.Int, bool) {
	d := c.Sub(a, b)
	if d.op == OConst {
		return d.val, true
	}
	return nil, false
}

// ---- ranges ----

func addB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}

func (c *Ctx) Range(t *Term) (lo, hi *big.Int) {
	if t.sort != SInt {
		return nil, nil
	}
	if t.op == OConst {
		return t.val, t.val
	}
	if r, ok := c.rngCache[t.id]; ok {
		return r[0], r[1]
	}
	lo, hi = c.rng(t)
	c.rngCache[t.id] = [2]*big.Int{lo, hi}
	return
}

func (c *Ctx) rng(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case OSym, OBound:
		if t.meta != nil {
			return t.meta.lo, t.meta.hi
		}
	case OSelect:
		b := t.args[0]
		for b.op == OSelect {
			b = b.args[0]
		}
		if b.meta != nil {
			return b.meta.lo, b.meta.hi
		}
	case OApp:
		if m := appMeta(t.str); m != nil {
			return m.lo, m.hi
		}
		if t.meta != nil {
			return t.meta.lo, t.meta.hi
		}
	case OMod:
		return bigZero, new(big.Int).Sub(t.args[1].val, bigOne)
	case ODiv:
		l, h := c.Range(t.args[0])
		if l != nil {
			lo = new(big.Int).Div(l, t.args[1].val)
		}
		if h != nil {
			hi = new(big.Int).Div(h, t.args[1].val)
		}
		return
	case OIte:
		l1, h1 := c.Range(t.args[1])
		l2, h2 := c.Range(t.args[2])
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(lo) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(hi) > 0 {
				hi = h2
			}
		}
		return
	case OMono:
		lo, hi = bigOne, bigOne
		for _, a := range t.args {
			l, h := c.Range(a)
			if l == nil || l.Sign() < 0 {
				return nil, nil
			}
			lo = new(big.Int).Mul(lo, l)
			if hi == nil || h == nil {
				hi = nil
			} else {
				hi = new(big.Int).Mul(hi, h)
			}
		}
		return
	case OPoly:
		lo, hi = t.val, t.val
		for i, a := range t.args {
			l, h := c.Range(a)
			k := t.coefs[i]
			if k.Sign() < 0 {
				l, h = h, l
			}
			if l == nil {
				lo = nil
			} else if lo != nil {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(k, l))
			}
			if h == nil {
				hi = nil
			} else if hi != nil {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(k, h))
			}
		}
		return
	}
	return nil, nil
}

// ---- div / mod by positive constants (euclidean) ----

func (c *Ctx) Div(a *Term, k *big.Int) *Term {
	if k.Sign() <= 0 {
		panic("Div by nonpositive")
	}
	if k.Cmp(bigOne) == 0 {
		return a
	}
	if a.op == OConst {
		q, m := new(big.Int).DivMod(a.val, k, new(big.Int))
		_ = m
		return c.Big(q)
	}
	if lo, hi := c.Range(a); lo != nil && hi != nil {
		ql := new(big.Int).Div(lo, k)
		if ql.Cmp(new(big.Int).Div(hi, k)) == 0 {
			return c.Big(ql)
		}
	}
	// pull out multiples of k
	p := c.toPoly(a)
	q := &poly{mono: map[int]*big.Int{}, terms: map[int]*Term{}, k: new(big.Int)}
	r := &poly{mono: map[int]*big.Int{}, terms: map[int]*Term{}, k: new(big.Int)}
	for id, co := range p.mono {
		d, m := new(big.Int).DivMod(co, k, new(big.Int))
		if m.Sign() == 0 {
			q.addm(p.terms[id], d)
		} else {
			r.addm(p.terms[id], co)
		}
	}
	d, m := new(big.Int).DivMod(p.k, k, new(big.Int))
	q.k, r.k = d, m
	if len(q.mono) > 0 || d.Sign() != 0 {
		return c.Add(c.fromPoly(q), c.Div(c.fromPoly(r), k))
	}
	// (x div k1) div k2
	if a.op == ODiv {
		return c.Div(a.args[0], new(big.Int).Mul(a.args[1].val, k))
	}
	if a.op == OMod {
		// (x mod m) div k with k | m : (x div k) mod (m/k)
		d, m := new(big.Int).DivMod(a.args[1].val, k, new(big.Int))
		if m.Sign() == 0 {
			return c.Mod(c.Div(a.args[0], k), d)
		}
	}
	return c.mk(ODiv, SInt, []*Term{a, c.Big(k)}, nil, nil, "")
}

func (c *Ctx) Mod(a *Term, k *big.Int) *Term {
	if k.Cmp(bigOne) == 0 {
		return c.zero
	}
	if a.op == OConst {
		return c.Big(new(big.Int).Mod(a.val, k))
	}
	lo, hi := c.Range(a)
	if lo != nil && hi != nil {
		ql := new(big.Int).Div(lo, k)
		if ql.Cmp(new(big.Int).Div(hi, k)) == 0 {
			return c.Sub(a, c.Big(new(big.Int).Mul(ql, k)))
		}
	}
	p := c.toPoly(a)
	r := &poly{mono: map[int]*big.Int{}, terms: map[int]*Term{}, k: new(big.Int).Mod(p.k, k)}
	changed := p.k.Cmp(r.k) != 0
	for id, co := range p.mono {
		m := new(big.Int).Mod(co, k)
		// keep symmetric small coefficients
		t := p.terms[id]
		if t.op == OMod {
			if mm := new(big.Int).Mod(t.args[1].val, k); mm.Sign() == 0 {
				t = t.args[0]
				changed = true
				r.add(c, t, m)
				continue
			}
		}
		if m.Cmp(co) != 0 {
			changed = true
		}
		r.addm(t, m)
	}
	if changed {
		return c.Mod(c.fromPoly(r), k)
	}
	if a.op == OMod {
		if new(big.Int).Mod(k, a.args[1].val).Sign() == 0 {
			return a
		}
	}
	return c.mk(OMod, SInt, []*Term{a, c.Big(k)}, nil, nil, "")
}

// ---- booleans ----

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return c.False
	case OFalse:
		return c.True
	case ONot:
		return a.args[0]
	case OGe0:
		return c.ge0(c.AddK(c.Neg(a.args[0]), -1))
	}
	return c.mk(ONot, SBool, []*Term{a}, nil, nil, "")
}

func (c *Ctx) nary(op Op, ts []*Term) *Term {
	unit, abs := c.True, c.False
	if op == OOr {
		unit, abs = c.False, c.True
	}
	seen := map[int]bool{}
	var out []*Term
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == abs {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if n := c.Not(t); seen[n.id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return abs
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(op, SBool, out, nil, nil, "")
}

func (c *Ctx) And(ts ...*Term) *Term { return c.nary(OAnd, ts) }
func (c *Ctx) Or(ts ...*Term) *Term  { return c.nary(OOr, ts) }
func (c *Ctx) Imp(a, b *Term) *Term  { return c.Or(c.Not(a), b) }

func (c *Ctx) ge0(p *Term) *Term {
	if p.op == OConst {
		return c.Bool(p.val.Sign() >= 0)
	}
	lo, hi := c.Range(p)
	if lo != nil && lo.Sign() >= 0 {
		return c.True
	}
	if hi != nil && hi.Sign() < 0 {
		return c.False
	}
	if p.op == OPoly {
		// divide by gcd of coefficients
		g := new(big.Int)
		for _, co := range p.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(co))
		}
		if g.Cmp(bigOne) > 0 {
			q := &poly{mono: map[int]*big.Int{}, terms: map[int]*Term{}, k: new(big.Int).Div(p.val, g)}
			for i, a := range p.args {
				q.addm(a, new(big.Int).Quo(p.coefs[i], g))
			}
			p = c.fromPoly(q)
		}
	}
	if p.op == OIte && p.args[1].op == OConst && p.args[2].op == OConst {
		return c.IteB(p.args[0], c.ge0(p.args[1]), c.ge0(p.args[2]))
	}
	return c.mk(OGe0, SBool, []*Term{p}, nil, nil, "")
}

func (c *Ctx) IteB(b, x, y *Term) *Term {
	if b == c.True {
		return x
	}
	if b == c.False {
		return y
	}
	if x == y {
		return x
	}
	switch {
	case x == c.True:
		return c.Or(b, y)
	case x == c.False:
		return c.And(c.Not(b), y)
	case y == c.True:
		return c.Or(c.Not(b), x)
	case y == c.False:
		return c.And(b, x)
	}
	return c.And(c.Or(c.Not(b), x), c.Or(b, y))
}

func (c *Ctx) Le(a, b *Term) *Term { return c.ge0(c.Sub(b, a)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.ge0(c.AddK(c.Sub(b, a), -1)) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	switch a.sort {
	case SBool:
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
		return c.And(c.Or(c.Not(a), b), c.Or(a, c.Not(b)))
	case SInt:
		return c.eq0(c.Sub(a, b))
	case SStr:
		if a.op == OStr && b.op == OStr {
			return c.Bool(a.str == b.str)
		}
		if a.op == OIte && (a.args[1].op == OStr || a.args[2].op == OStr) && b.op == OStr {
			return c.IteB(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
		if b.op == OIte && a.op == OStr {
			return c.Eq(b, a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, SBool, []*Term{a, b}, nil, nil, "")
}

func (c *Ctx) eq0(p *Term) *Term {
	if p.op == OConst {
		return c.Bool(p.val.Sign() == 0)
	}
	lo, hi := c.Range(p)
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return c.False
	}
	if p.op == OPoly {
		g := new(big.Int)
		for _, co := range p.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(co))
		}
		if g.Cmp(bigOne) > 0 {
			if new(big.Int).Mod(p.val, g).Sign() != 0 {
				return c.False
			}
		}
		sg := big.NewInt(1)
		if p.coefs[0].Sign() < 0 {
			sg = big.NewInt(-1)
		}
		if g.Cmp(bigOne) > 0 || sg.Sign() < 0 {
			g.Mul(g, sg)
			q := &poly{mono: map[int]*big.Int{}, terms: map[int]*Term{}, k: new(big.Int).Quo(p.val, g)}
			for i, a := range p.args {
				q.addm(a, new(big.Int).Quo(p.coefs[i], g))
			}
			p = c.fromPoly(q)
		}
		// ite with constant branches: eq of single ite and const
		if len(p.args) == 1 && p.args[0].op == OIte && p.coefs[0].Cmp(bigOne) == 0 {
			it := p.args[0]
			if it.args[1].op == OConst || it.args[2].op == OConst || c.constTree(it) {
				k := c.Big(new(big.Int).Neg(p.val))
				return c.IteB(it.args[0], c.Eq(it.args[1], k), c.Eq(it.args[2], k))
			}
		}
	}
	if p.op == OIte && (p.args[1].op == OConst || p.args[2].op == OConst || c.constTree(p)) {
		return c.IteB(p.args[0], c.Eq(p.args[1], c.zero), c.Eq(p.args[2], c.zero))
	}
	return c.mk(OEq0, SBool, []*Term{p}, nil, nil, "")
}

// constTree reports whether all leaves of t are constants.
func (c *Ctx) constTree(t *Term) bool {
	if t.op == OConst {
		return true
	}
	if t.op != OIte {
		return false
	}
	r, ok := c.ctree[t.id]
	if !ok {
		r = c.constTree(t.args[1]) && c.constTree(t.args[2])
		c.ctree[t.id] = r
	}
	return r
}

func (c *Ctx) Ite(b, x, y *Term) *Term {
	if b == c.True || x == y {
		return x
	}
	if b == c.False {
		return y
	}
	if x.sort == SBool {
		return c.IteB(b, x, y)
	}
	if b.op == ONot {
		return c.Ite(b.args[0], y, x)
	}
	// collapse nested same condition
	if x.op == OIte && x.args[0] == b {
		x = x.args[1]
	}
	if y.op == OIte && y.args[0] == b {
		y = y.args[2]
	}
	if x == y {
		return x
	}
	return c.mk(OIte, x.sort, []*Term{b, x, y}, nil, nil, "")
}

// Ite2 is Ite for array-valued or scalar branches.
func (c *Ctx) Ite2(b, x, y *Term) *Term { return c.Ite(b, x, y) }

// ---- arrays ----

func (c *Ctx) cmpIdx(a, b *Term) int {
	if a == b {
		return 1
	}
	if a.sort == SInt {
		e := c.Eq(a, b)
		if e == c.True {
			return 1
		}
		if e == c.False {
			return -1
		}
	} else if a.op == OStr && b.op == OStr {
		return -1
	}
	if c.distinctHook != nil && !a.hasB && !b.hasB {
		return c.distinctHook(a, b)
	}
	return 0
}

func (c *Ctx) Select(a, i *Term) *Term {
	switch a.op {
	case OStore:
		switch c.cmpIdx(a.args[1], i) {
		case 1:
			return a.args[2]
		case -1:
			return c.Select(a.args[0], i)
		}
		return c.Ite(c.Eq(a.args[1], i), a.args[2], c.Select(a.args[0], i))
	case OCopy:
		dst, doff, src, soff, n := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
		in := c.And(c.Le(doff, i), c.Lt(i, c.Add(doff, n)))
		if in != c.True && in != c.False && c.distinctHook != nil && !in.hasB {
			// ask the context
			switch c.condHook(in) {
			case 1:
				in = c.True
			case -1:
				in = c.False
			}
		}
		if in == c.True {
			return c.Select(src, c.Add(c.Sub(i, doff), soff))
		}
		if in == c.False {
			return c.Select(dst, i)
		}
		return c.Ite(in, c.Select(src, c.Add(c.Sub(i, doff), soff)), c.Select(dst, i))
	case OConstArr:
		return a.args[0]
	case OIte:
		return c.Ite(a.args[0], c.Select(a.args[1], i), c.Select(a.args[2], i))
	case OLam:
		return c.Subst(a.args[1], map[*Term]*Term{a.args[0]: i})
	}
	return c.mk(OSelect, a.sort.elem(), []*Term{a, i}, nil, nil, "")
}

var condHookFn func(c *Ctx, t *Term) int

func (c *Ctx) condHook(t *Term) int { return 0 }

func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.op == OStore && c.cmpIdxNoHook(a.args[1], i) == 1 {
		return c.Store(a.args[0], i, v)
	}
	return c.mk(OStore, a.sort, []*Term{a, i, v}, nil, nil, "")
}

func (c *Ctx) cmpIdxNoHook(a, b *Term) int {
	h := c.distinctHook
	c.distinctHook = nil
	r := c.cmpIdx(a, b)
	c.distinctHook = h
	return r
}

func (c *Ctx) Copy(dst, doff, src, soff, n *Term) *Term {
	if n == c.zero {
		return dst
	}
	return c.mk(OCopy, dst.sort, []*Term{dst, doff, src, soff, n}, nil, nil, "")
}
func (c *Ctx) ConstArr(s Sort, v *Term) *Term {
	return c.mk(OConstArr, s, []*Term{v}, nil, nil, "")
}
func (c *Ctx) Lam(s Sort, b, body *Term) *Term {
	t := c.mk(OLam, s, []*Term{b, body}, nil, nil, "")
	t.hasB = c.freeBoundOther(body, []*Term{b})
	return t
}

// ---- quantifiers ----

func (c *Ctx) Quant(op Op, vars []*Term, body *Term) *Term {
	if body == c.True || body == c.False {
		return body
	}
	if r := c.onePoint(op, vars, body); r != nil {
		return r
	}
	args := append(append([]*Term(nil), vars...), body)
	t := c.mk(op, SBool, args, nil, nil, "")
	t.hasB = c.freeBoundOther(body, vars)
	return t
}

// onePoint eliminates an integer variable that an equation determines:
// exists v. v = e and P(v)  is  P(e),  forall v. v != e or P(v)  is  P(e).
func (c *Ctx) onePoint(op Op, vars []*Term, body *Term) *Term {
	parts := []*Term{body}
	if op == OExists && body.op == OAnd || op == OForall && body.op == OOr {
		parts = body.args
	}
	for vi, v := range vars {
		if v.sort != SInt {
			continue
		}
		for pi, p := range parts {
			e := p
			if op == OForall {
				if p.op != ONot {
					continue
				}
				e = p.args[0]
			}
			if e.op != OEq0 {
				continue
			}
			pp := c.toPoly(e.args[0])
			co := pp.mono[v.id]
			if co == nil || co.CmpAbs(bigOne) != 0 {
				continue
			}
			ok := true
			for id, t := range pp.terms {
				if id != v.id && pp.mono[id] != nil && pp.mono[id].Sign() != 0 && t.hasB && c.mentions(t, v) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			rest := c.Sub(e.args[0], c.MulK(v, co))
			val := rest
			if co.Sign() > 0 {
				val = c.Neg(rest)
			}
			m := map[*Term]*Term{v: val}
			var out []*Term
			if v.meta != nil && v.meta.lo != nil {
				out = append(out, c.Le(c.Big(v.meta.lo), val))
			}
			if v.meta != nil && v.meta.hi != nil {
				out = append(out, c.Le(val, c.Big(v.meta.hi)))
			}
			if op == OForall {
				for i := range out {
					out[i] = c.Not(out[i])
				}
			}
			for i, q := range parts {
				if i != pi {
					out = append(out, c.Subst(q, m))
				}
			}
			nv := append(append([]*Term(nil), vars[:vi]...), vars[vi+1:]...)
			var nb *Term
			if op == OExists {
				nb = c.And(out...)
			} else {
				nb = c.Or(out...)
			}
			if len(nv) == 0 {
				return nb
			}
			return c.Quant(op, nv, nb)
		}
	}
	return nil
}

func (c *Ctx) mentions(t, v *Term) bool {
	seen := map[int]bool{}
	r := false
	walk(t, seen, func(u *Term) {
		if u == v {
			r = true
		}
	})
	return r
}

func (c *Ctx) freeBoundOther(body *Term, vars []*Term) bool {
	bound := map[*Term]bool{}
	for _, v := range vars {
		bound[v] = true
	}
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if !t.hasB || seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.op == OBound {
			return !bound[t]
		}
		if t.op == OForall || t.op == OExists || t.op == OLam {
			// hasB is precise for closed quantifiers
			b2 := t.args[:len(t.args)-1]
			return c.freeBoundOther(t.args[len(t.args)-1], append(append([]*Term(nil), vars...), b2...))
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(body)
}

func (c *Ctx) Forall(vars []*Term, body *Term) *Term { return c.Quant(OForall, vars, body) }
func (c *Ctx) Exists(vars []*Term, body *Term) *Term { return c.Quant(OExists, vars, body) }

// ---- substitution (rebuilds through smart constructors) ----

func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	onlyBound := true
	for k := range m {
		if k.op != OBound {
			onlyBound = false
		}
	}
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if onlyBound && !t.hasB {
			return t
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, args)
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OPoly:
		p := &poly{mono: map[int]*big.Int{}, terms: map[int]*Term{}, k: new(big.Int).Set(t.val)}
		for i, a := range args {
			p.add(c, a, t.coefs[i])
		}
		return c.fromPoly(p)
	case OMono:
		r := args[0]
		for _, a := range args[1:] {
			r = c.Mul(r, a)
		}
		return r
	case OIte:
		return c.Ite(args[0], args[1], args[2])
	case OEq:
		return c.Eq(args[0], args[1])
	case OGe0:
		return c.ge0(args[0])
	case OEq0:
		return c.eq0(args[0])
	case OAnd:
		return c.And(args...)
	case OOr:
		return c.Or(args...)
	case ONot:
		return c.Not(args[0])
	case OSelect:
		return c.Select(args[0], args[1])
	case OStore:
		return c.Store(args[0], args[1], args[2])
	case OCopy:
		return c.Copy(args[0], args[1], args[2], args[3], args[4])
	case OConstArr:
		return c.ConstArr(t.sort, args[0])
	case ODiv:
		return c.Div(args[0], args[1].val)
	case OMod:
		return c.Mod(args[0], args[1].val)
	case OForall, OExists:
		return c.Quant(t.op, args[:len(args)-1], args[len(args)-1])
	case OLam:
		return c.Lam(t.sort, args[0], args[1])
	case OApp:
		if r := c.simpApp(t.str, t.sort, args); r != nil {
			return r
		}
		n := c.App(t.str, t.sort, args...)
		if n.meta == nil {
			n.meta = t.meta
		}
		return n
	}
	panic(fmt.Sprintf("rebuild op %d", t.op))
}

// walk visits every distinct subterm (not entering quantifier bodies unless inQ).
func walk(t *Term, seen map[int]bool, f func(*Term)) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	f(t)
	for _, a := range t.args {
		walk(a, seen, f)
	}
}

func (t *Term) String() string { return t.show(6) }
func (t *Term) show(d int) string {
	if d == 0 {
		return "…"
	}
	switch t.op {
	case OConst:
		return t.val.String()
	case OStr:
		return strconv.Quote(t.str)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OSym, OBound:
		return t.str
	case OPoly:
		var s []string
		for i, a := range t.args {
			if t.coefs[i].Cmp(bigOne) == 0 {
				s = append(s, a.show(d-1))
			} else {
				s = append(s, t.coefs[i].String()+"*"+a.show(d-1))
			}
		}
		if t.val.Sign() != 0 {
			s = append(s, t.val.String())
		}
		return "(" + strings.Join(s, " + ") + ")"
	}
	names := map[Op]string{OMono: "*", OIte: "ite", OEq: "=", OGe0: "0<=", OEq0: "0=", OAnd: "and", OOr: "or", ONot: "not", OSelect: "sel", OStore: "store", OCopy: "copy", OConstArr: "const", OForall: "forall", OExists: "exists", ODiv: "div", OMod: "mod", OLam: "lam", OApp: t.str}
	var s []string
	for _, a := range t.args {
		s = append(s, a.show(d-1))
	}
	return names[t.op] + "(" + strings.Join(s, ", ") + ")"
}
