package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// appMetas gives the result range of fixed uninterpreted functions.
var appMetas = map[string]*Meta{}

func appMeta(n string) *Meta { return appMetas[n] }

// ---------- NNF / quantifier preparation ----------

func (c *Ctx) nnf(t *Term, pos bool) *Term {
	switch t.op {
	case ONot, OAnd, OOr, OForall, OExists:
	default:
		if pos {
			return t
		}
		return c.Not(t)
	}
	if c.distinctHook != nil {
		return c.nnf1(t, pos)
	}
	k := t.id * 2
	if pos {
		k++
	}
	if r, ok := c.nnfCache[k]; ok {
		return r
	}
	if c.nnfCache == nil {
		c.nnfCache = map[int]*Term{}
	}
	r := c.nnf1(t, pos)
	c.nnfCache[k] = r
	return r
}

func (c *Ctx) nnf1(t *Term, pos bool) *Term {
	switch t.op {
	case ONot:
		return c.nnf(t.args[0], !pos)
	case OAnd, OOr:
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = c.nnf(a, pos)
		}
		if (t.op == OAnd) == pos {
			return c.And(args...)
		}
		return c.Or(args...)
	case OForall, OExists:
		n := len(t.args) - 1
		body := c.nnf(t.args[n], pos)
		if (t.op == OForall) == pos {
			return c.Forall(t.args[:n], body)
		}
		return c.Exists(t.args[:n], body)
	}
	if pos {
		return t
	}
	return c.Not(t)
}

type query struct {
	c      *Ctx
	ground []*Term
	gseen  map[int]bool
	quants []*Term // closed OForall terms
	qseen  map[int]bool
	cands  []*Term // candidate Int instantiation symbols
	insts  map[string]bool
	ninst  int
	inGoal bool
	skMax  int
	named  map[int]*Term
}

// addAssert adds an NNF formula.
func (q *query) addAssert(t *Term) {
	c := q.c
	switch t.op {
	case OTrue:
		return
	case OAnd:
		for _, a := range t.args {
			q.addAssert(a)
		}
		return
	case OForall:
		if !q.qseen[t.id] {
			q.qseen[t.id] = true
			q.quants = append(q.quants, t)
		}
		return
	case OExists:
		q.addAssert(q.skolem(t))
		return
	case OOr:
		// prenex: pull quantifiers out
		for i, a := range t.args {
			if a.op == OExists {
				rest := append(append([]*Term(nil), t.args[:i]...), t.args[i+1:]...)
				q.addAssert(c.Or(append(rest, q.skolem(a))...))
				return
			}
			if a.op == OForall {
				n := len(a.args) - 1
				rest := append(append([]*Term(nil), t.args[:i]...), t.args[i+1:]...)
				q.addAssert(c.Forall(a.args[:n], c.Or(append(rest, a.args[n])...)))
				return
			}
			if a.op == OAnd && hasQuant(a) {
				rest := append(append([]*Term(nil), t.args[:i]...), t.args[i+1:]...)
				// a name for the conjunction avoids distributing over it
				p := q.named[a.id]
				if p == nil {
					p = c.Fresh("nm", SBool)
					q.named[a.id] = p
					for _, b := range a.args {
						q.addAssert(c.Or(c.Not(p), b))
					}
				}
				q.addAssert(c.Or(append(rest, p)...))
				return
			}
		}
	}
	if !q.gseen[t.id] {
		q.gseen[t.id] = true
		q.ground = append(q.ground, t)
	}
}

func hasQuant(t *Term) bool {
	if t.op == OForall || t.op == OExists {
		return true
	}
	if t.op == OAnd || t.op == OOr || t.op == ONot {
		for _, a := range t.args {
			if hasQuant(a) {
				return true
			}
		}
	}
	return false
}

func (q *query) skolem(t *Term) *Term {
	c := q.c
	n := len(t.args) - 1
	m := map[*Term]*Term{}
	depth := 0
	for _, u := range c.symset(t) {
		if d := c.skDepth[u]; d > depth {
			depth = d
		}
	}
	if !q.inGoal && depth >= q.skMax {
		// assumptions may be dropped; this bounds instantiation chains
		return c.True
	}
	for _, v := range t.args[:n] {
		s := c.Sym("sk$"+v.str+"$"+fmt.Sprint(t.id), v.sort)
		s.meta = v.meta
		if c.skDepth == nil {
			c.skDepth = map[*Term]int{}
		}
		c.skDepth[s] = depth + 1
		if q.inGoal {
			c.skDepth[s] = 0
		}
		m[v] = s
		if v.sort == SInt {
			q.addCand(s)
		}
	}
	return c.Subst(t.args[n], m)
}

func (q *query) addCand(s *Term) {
	for _, x := range q.cands {
		if x == s {
			return
		}
	}
	q.cands = append(q.cands, s)
}

func selBase(t *Term) (*Term, []*Term) {
	var idx []*Term
	for t.op == OSelect {
		idx = append([]*Term{t.args[1]}, idx...)
		t = t.args[0]
	}
	return t, idx
}

type trigger struct {
	base *Term
	fn   string
	pos  int
	idx  *Term // pattern index poly
	v    *Term
}

// triggers finds select/app subterms of body whose argument mentions v.
func (q *query) triggers(body *Term, v *Term) []trigger {
	var out []trigger
	seen := map[int]bool{}
	mentions := map[int]int{}
	var ment func(t *Term) bool
	ment = func(t *Term) bool {
		if t == v {
			return true
		}
		if !t.hasB {
			return false
		}
		if r, ok := mentions[t.id]; ok {
			return r == 1
		}
		mentions[t.id] = 0
		for _, a := range t.args {
			if ment(a) {
				mentions[t.id] = 1
				return true
			}
		}
		return false
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] || !t.hasB {
			return
		}
		seen[t.id] = true
		if t.op == OSelect {
			b, idx := selBase(t)
			if !b.hasB {
				for i, x := range idx {
					if ment(x) {
						out = append(out, trigger{base: b, pos: i, idx: x, v: v})
					}
				}
			}
		} else if t.op == OApp {
			for i, x := range t.args {
				if ment(x) {
					out = append(out, trigger{fn: t.str, pos: i, idx: x, v: v})
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(body)
	return out
}

// solveFor finds t such that pat[v:=t] == g (g ground), or nil.
func (c *Ctx) solveFor(pat, v, g *Term) *Term {
	if pat == v {
		return g
	}
	if pat.sort != SInt || g.sort != SInt {
		return nil
	}
	k := [3]int{pat.id, v.id, g.id}
	if t, ok := c.solved[k]; ok {
		return t
	}
	t := c.solveFor1(pat, v, g)
	if c.solved == nil {
		c.solved = map[[3]int]*Term{}
	}
	c.solved[k] = t
	return t
}

func (c *Ctx) solveFor1(pat, v, g *Term) *Term {
	pp := c.toPoly(pat)
	var coef *big.Int
	var viaMono *Term
	for id, t := range pp.terms {
		if t == v {
			coef = pp.mono[id]
		} else if t.hasB {
			if t.op == OMono {
				cnt := 0
				for _, f := range t.args {
					if f == v {
						cnt++
					} else if f.hasB {
						return nil
					}
				}
				if cnt == 1 && viaMono == nil {
					viaMono = t
					continue
				}
			}
			return nil
		}
	}
	if coef != nil && viaMono == nil {
		d := c.Sub(g, pat) // g - rest - coef*v
		d = c.Add(d, c.MulK(v, coef))
		if coef.Cmp(bigOne) == 0 {
			return d
		}
		if coef.Cmp(big.NewInt(-1)) == 0 {
			return c.Neg(d)
		}
		// divisible?
		dp := c.toPoly(d)
		r := &poly{mono: map[int]*big.Int{}, terms: map[int]*Term{}, k: nil}
		k, m := new(big.Int).DivMod(dp.k, coef, new(big.Int))
		if m.Sign() != 0 {
			return nil
		}
		r.k = k
		for id, co := range dp.mono {
			k, m := new(big.Int).QuoRem(co, coef, new(big.Int))
			if m.Sign() != 0 {
				return nil
			}
			r.addm(dp.terms[id], k)
		}
		return c.fromPoly(r)
	}
	if viaMono != nil && coef == nil {
		// find monomials in g with the same remaining factors
		var rest []*Term
		used := false
		for _, f := range viaMono.args {
			if f == v && !used {
				used = true
				continue
			}
			rest = append(rest, f)
		}
		gp := c.toPoly(g)
		var cand *Term = c.zero
		found := false
		for id, t := range gp.terms {
			fs := monoFactors(t)
			x := removeAll(fs, rest)
			if x == nil {
				continue
			}
			var xt *Term
			if len(x) == 0 {
				xt = c.one
			} else {
				xt = c.mono(x)
			}
			// coefficient scaling
			k, m := new(big.Int).QuoRem(gp.mono[id], pp.mono[viaMono.id], new(big.Int))
			if m.Sign() != 0 {
				continue
			}
			cand = c.Add(cand, c.MulK(xt, k))
			found = true
		}
		if found {
			return cand
		}
	}
	return nil
}

func removeAll(fs, rest []*Term) []*Term {
	out := append([]*Term{}, fs...)
	for _, r := range rest {
		ok := false
		for i, f := range out {
			if f == r {
				out = append(out[:i], out[i+1:]...)
				ok = true
				break
			}
		}
		if !ok {
			return nil
		}
	}
	return out
}

const maxInst = 4000

func (q *query) instantiate(rounds int) {
	c := q.c
	for r := 0; r < rounds; r++ {
		// collect ground selects / apps
		type gsel struct {
			idx []*Term
		}
		bySel := map[*Term][][]*Term{}
		byFn := map[string][][]*Term{}
		seen := map[int]bool{}
		for _, g := range q.ground {
			walk(g, seen, func(t *Term) {
				if t.hasB {
					return
				}
				if t.op == OSelect {
					b, idx := selBase(t)
					bySel[b] = append(bySel[b], idx)
				} else if t.op == OApp {
					byFn[t.str] = append(byFn[t.str], t.args)
				}
			})
		}
		nq := len(q.quants)
		before := q.ninst
		for qi := 0; qi < nq; qi++ {
			qt := q.quants[qi]
			n := len(qt.args) - 1
			body := qt.args[n]
			vars := qt.args[:n]
			cs := make([][]*Term, n)
			for vi, v := range vars {
				var list []*Term
				have := map[*Term]bool{}
				add := func(t *Term) {
					if t == nil || len(list) >= 60 || have[t] || t.hasB {
						return
					}
					have[t] = true
					list = append(list, t)
				}
				for _, tr := range q.triggers(body, v) {
					if tr.base != nil {
						for _, idx := range bySel[tr.base] {
							if len(list) >= 60 {
								break
							}
							if tr.pos < len(idx) {
								add(c.solveFor(tr.idx, v, idx[tr.pos]))
							}
						}
					} else {
						for _, as := range byFn[tr.fn] {
							if tr.pos < len(as) {
								add(c.solveFor(tr.idx, v, as[tr.pos]))
							}
						}
					}
				}
				if v.sort == SInt {
					for _, s := range q.cands {
						add(s)
					}
				}
				cs[vi] = list
			}
			var rec func(i int, m map[*Term]*Term, key string)
			rec = func(i int, m map[*Term]*Term, key string) {
				if q.ninst > maxInst {
					return
				}
				if i == n {
					if q.insts[key] {
						return
					}
					q.insts[key] = true
					q.ninst++
					mm := map[*Term]*Term{}
					for k, v := range m {
						mm[k] = v
					}
					inst := c.Subst(body, mm)
					q.addAssert(c.nnf(inst, true))
					return
				}
				for _, t := range cs[i] {
					m[vars[i]] = t
					rec(i+1, m, key+","+fmt.Sprint(t.id))
				}
				delete(m, vars[i])
			}
			rec(0, map[*Term]*Term{}, fmt.Sprint(qt.id))
		}
		if q.ninst == before {
			break
		}
	}
}

// lemmas adds arithmetic lemmas and typing facts for ground atoms.
func (q *query) lemmas() []*Term {
	c := q.c
	var out []*Term
	seen := map[int]bool{}
	var monos []*Term
	var pend []*Term
	divs := map[*Term]map[string]*big.Int{}
	var divOrder []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		walk(t, seen, func(t *Term) {
			if t.hasB {
				return
			}
			switch t.op {
			case ODiv, OMod:
				v := t.args[0]
				k := t.args[1].val
				if t.op == OMod && v.op == ODiv {
					k = new(big.Int).Mul(v.args[1].val, k)
					v = v.args[0]
				}
				if divs[v] == nil {
					divOrder = append(divOrder, v)
					divs[v] = map[string]*big.Int{}
				}
				divs[v][k.String()] = k
			case OMono:
				monos = append(monos, t)
				for i, f := range t.args {
					if f.op != OIte {
						continue
					}
					x := c.mono(append(append([]*Term(nil), t.args[:i]...), t.args[i+1:]...))
					pend = append(pend,
						c.Imp(f.args[0], c.Eq(t, c.Mul(x, f.args[1]))),
						c.Imp(c.Not(f.args[0]), c.Eq(t, c.Mul(x, f.args[2]))))
					break
				}
			case OSym, OSelect, OApp:
				if t.sort == SInt {
					b := t
					for b.op == OSelect {
						b = b.args[0]
					}
					m := b.meta
					if b.op == OApp && m == nil {
						m = appMeta(b.str)
					}
					if m != nil {
						if m.lo != nil {
							out = append(out, c.mk(OGe0, SBool, []*Term{c.Sub(t, c.Big(m.lo))}, nil, nil, ""))
						}
						if m.hi != nil {
							out = append(out, c.mk(OGe0, SBool, []*Term{c.Sub(c.Big(m.hi), t)}, nil, nil, ""))
						}
						if m.ptrMax != nil {
							out = append(out, c.Le(t, m.ptrMax))
							if c.x != nil && c.x.external(t) {
								out = append(out, c.Or(c.Eq(t, c.zero), c.Le(c.Int(1<<20), t)))
							}
						}
					}
				}
				if t.op == OApp {
					if fs := c.appLemma(t); fs != nil {
						pend = append(pend, fs...)
					}
				}
			}
		})
	}
	for _, g := range q.ground {
		visit(g)
	}
	for i := 0; i < len(pend) && i < 2000; i++ {
		f := c.nnf(pend[i], true)
		out = append(out, f)
		visit(f)
	}
	out = append(out, c.pairLemmas(q)...)
	// digits: v div a = (b/a) * (v div b) + (v div a) mod (b/a)
	for _, v := range divOrder {
		ks := make([]*big.Int, 0, len(divs[v]))
		for _, k := range divs[v] {
			ks = append(ks, k)
		}
		if len(ks) < 2 {
			continue
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].Cmp(ks[j]) < 0 })
		prev := newBig(1)
		for _, k := range ks {
			r := new(big.Int)
			f, _ := new(big.Int).QuoRem(k, prev, r)
			if r.Sign() != 0 || f.Cmp(newBig(1)) <= 0 {
				continue
			}
			pd := v
			if prev.Cmp(newBig(1)) > 0 {
				pd = c.Div(v, prev)
			}
			// built raw: the normaliser would fold the sum back
			out = append(out, c.digitEq(pd, c.Div(v, k), c.Mod(pd, f), f))
			prev = k
		}
	}
	// monomial lemmas
	type fx struct{ m, x *Term }
	byF := map[*Term][]fx{}
	var order []*Term
	for _, m := range monos {
		used := map[*Term]bool{}
		for i, f := range m.args {
			if used[f] {
				continue
			}
			used[f] = true
			rest := append(append([]*Term(nil), m.args[:i]...), m.args[i+1:]...)
			x := c.mono(rest)
			if _, ok := byF[f]; !ok {
				order = append(order, f)
			}
			byF[f] = append(byF[f], fx{m, x})
		}
	}
	raw := func(p *Term) *Term { return c.ge0(p) }
	for _, f := range order {
		l := byF[f]
		if len(l) > 24 {
			l = l[:24]
		}
		fn := c.Le(c.zero, f)
		for i, a := range l {
			out = append(out,
				c.Imp(c.And(fn, c.Le(c.zero, a.x)), raw(a.m)),
				c.Imp(c.And(fn, c.Le(c.one, a.x)), raw(c.Sub(a.m, f))),
				c.Imp(c.Eq(a.x, c.zero), c.Eq(a.m, c.zero)),
				c.Imp(c.Eq(a.x, c.one), c.Eq(a.m, f)),
				c.Imp(c.And(fn, c.Lt(a.x, c.zero)), c.Le(a.m, c.Neg(f))),
			)
			for j, b := range l {
				if i == j {
					continue
				}
				out = append(out,
					c.Imp(c.And(fn, c.Le(a.x, b.x)), c.Le(a.m, b.m)),
					c.Imp(c.And(fn, c.Le(c.AddK(a.x, 1), b.x)), c.Le(c.Add(a.m, f), b.m)),
					c.Imp(c.And(fn, c.Le(a.x, c.AddK(b.x, 1))), c.Le(a.m, c.Add(b.m, f))),
					c.Imp(c.And(fn, c.Le(c.AddK(a.x, 2), b.x)), c.Le(c.Add(a.m, c.MulK(f, newBig(2))), b.m)))
			}
		}
	}
	return out
}

// digitEq is n == f*q + r, kept as written.
func (c *Ctx) digitEq(n, q, r *Term, f *big.Int) *Term {
	p := c.toPoly(n)
	p.add(c, r, big.NewInt(-1))
	p.add(c, q, new(big.Int).Neg(f))
	if len(p.mono) == 0 {
		return c.True
	}
	var ids []int
	for id := range p.mono {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	args := make([]*Term, len(ids))
	co := make([]*big.Int, len(ids))
	for i, id := range ids {
		args[i], co[i] = p.terms[id], p.mono[id]
	}
	return c.mk(OEq0, SBool, []*Term{c.mk(OPoly, SInt, args, co, p.k, "")}, nil, nil, "")
}

// ---------- printing ----------

type printer struct {
	b     strings.Builder
	decl  map[string]string
	order []string
	uses  map[int]int
	named map[int]string
	defs  strings.Builder
}

var smtEsc = strings.NewReplacer("|", "~", "\\", "~~")

func smtName(s string) string { return "|" + smtEsc.Replace(s) + "|" }

func sortSMT(s Sort) string { return string(s) }

func (p *printer) declare(name string, args []Sort, res Sort) {
	if _, ok := p.decl[name]; ok {
		return
	}
	var as []string
	for _, a := range args {
		as = append(as, sortSMT(a))
	}
	p.decl[name] = fmt.Sprintf("(declare-fun %s (%s) %s)\n", smtName(name), strings.Join(as, " "), sortSMT(res))
	p.order = append(p.order, name)
}

func (p *printer) count(t *Term) {
	p.uses[t.id]++
	if p.uses[t.id] > 1 {
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
}

func bigStr(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func smtString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch == '"' {
			b.WriteString(`""`)
		} else if ch < 32 || ch > 126 || ch == '\\' {
			fmt.Fprintf(&b, `\u{%x}`, ch)
		} else {
			b.WriteByte(ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}

var builtinFns = map[string]bool{
	"str.++": true, "str.len": true, "str.at": true, "str.substr": true, "str.prefixof": true, "str.suffixof": true,
	"str.contains": true, "str.indexof": true, "str.replace": true, "str.replace_all": true, "str.to_code": true, "str.from_code": true, "str.in_re": true, "str.<": true,
	"str.<=": true,
}

func (p *printer) str(t *Term) string {
	if n, ok := p.named[t.id]; ok {
		return n
	}
	s := p.raw(t)
	if !t.hasB && p.uses[t.id] > 1 && len(t.args) > 0 && !t.sort.arr() {
		n := fmt.Sprintf("t%d", t.id)
		fmt.Fprintf(&p.defs, "(define-fun %s () %s %s)\n", n, sortSMT(t.sort), s)
		p.named[t.id] = n
		return n
	}
	return s
}

func (p *printer) list(op string, ts []*Term) string {
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(op)
	for _, t := range ts {
		b.WriteByte(' ')
		b.WriteString(p.str(t))
	}
	b.WriteByte(')')
	return b.String()
}

func (p *printer) raw(t *Term) string {
	switch t.op {
	case OConst:
		return bigStr(t.val)
	case OStr:
		return smtString(t.str)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OSym:
		p.declare(t.str, nil, t.sort)
		return smtName(t.str)
	case OBound:
		return smtName(t.str)
	case OPoly:
		var parts []string
		for i, a := range t.args {
			s := p.str(a)
			if t.coefs[i].Cmp(bigOne) == 0 {
				parts = append(parts, s)
			} else {
				parts = append(parts, "(* "+bigStr(t.coefs[i])+" "+s+")")
			}
		}
		if t.val.Sign() != 0 {
			parts = append(parts, bigStr(t.val))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case OMono:
		p.declare(fmt.Sprintf("nmul%d", len(t.args)), repSort(SInt, len(t.args)), SInt)
		return p.list(smtName(fmt.Sprintf("nmul%d", len(t.args))), t.args)
	case OIte:
		return p.list("ite", t.args)
	case OEq:
		return p.list("=", t.args)
	case OGe0:
		return "(>= " + p.str(t.args[0]) + " 0)"
	case OEq0:
		return "(= " + p.str(t.args[0]) + " 0)"
	case OAnd:
		return p.list("and", t.args)
	case OOr:
		return p.list("or", t.args)
	case ONot:
		return p.list("not", t.args)
	case ODiv:
		return p.list("div", t.args)
	case OMod:
		return p.list("mod", t.args)
	case OSelect:
		b, idx := selBase(t)
		var sorts []Sort
		s := b.sort
		for s.arr() {
			sorts = append(sorts, s.key())
			s = s.elem()
		}
		if len(idx) != len(sorts) {
			panic("partial select reaches solver: " + t.String())
		}
		switch b.op {
		case OSym, OBound:
			p.declare(b.str, sorts, s)
			return p.list(smtName(b.str), idx)
		case OApp:
			var as []Sort
			for _, a := range b.args {
				as = append(as, a.sort)
			}
			p.declare(b.str, append(as, sorts...), s)
			return p.list(smtName(b.str), append(append([]*Term(nil), b.args...), idx...))
		}
		panic("select base op " + b.String())
	case OApp:
		if builtinFns[t.str] {
			return p.list(t.str, t.args)
		}
		var as []Sort
		for _, a := range t.args {
			as = append(as, a.sort)
		}
		p.declare(t.str, as, t.sort)
		if len(t.args) == 0 {
			return smtName(t.str)
		}
		return p.list(smtName(t.str), t.args)
	case OForall, OExists:
		op := "forall"
		if t.op == OExists {
			op = "exists"
		}
		n := len(t.args) - 1
		var vs []string
		for _, v := range t.args[:n] {
			vs = append(vs, fmt.Sprintf("(%s %s)", smtName(v.str), sortSMT(v.sort)))
		}
		return fmt.Sprintf("(%s (%s) %s)", op, strings.Join(vs, " "), p.str(t.args[n]))
	}
	panic(fmt.Sprintf("print op %d: %s", t.op, t))
}

func repSort(s Sort, n int) []Sort {
	r := make([]Sort, n)
	for i := range r {
		r[i] = s
	}
	return r
}

// ---------- solver processes ----------

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

type Solver struct {
	bin  string
	mu   sync.Mutex
	free []*proc
	sem  chan struct{}

	nq      int64
	timeNS  int64
	nUnsat  int64
	nCvc    int64
	nQuantQ int64
}

var solver = &Solver{bin: "z3-new", sem: make(chan struct{}, 8)}

func (s *Solver) get() *proc {
	s.mu.Lock()
	defer s.mu.Unlock()
	if n := len(s.free); n > 0 {
		p := s.free[n-1]
		s.free = s.free[:n-1]
		return p
	}
	cmd := exec.Command(s.bin, "-in")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	return &proc{cmd: cmd, in: in, out: bufio.NewReader(out)}
}

func (s *Solver) put(p *proc) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.free = append(s.free, p)
}

func (s *Solver) closeAll() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, p := range s.free {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
	s.free = nil
}

// run sends a script and returns the first line of the answer to (check-sat)
// and, when getVals is non-empty and the answer is sat, the values.
var vslow = os.Getenv("VSLOW")

func slowWhere() string {
	pc := make([]uintptr, 30)
	n := runtime.Callers(4, pc)
	fr := runtime.CallersFrames(pc[:n])
	var out []string
	for i := 0; i < 12; i++ {
		f, more := fr.Next()
		nm := f.Function[strings.LastIndex(f.Function, ".")+1:]
		out = append(out, fmt.Sprintf("%s:%d", nm, f.Line))
		if !more {
			break
		}
	}
	return strings.Join(out, "<")
}

func (s *Solver) run(script string, timeoutMS int, getVals string) (string, string) {
	s.sem <- struct{}{}
	defer func() { <-s.sem }()
	t0 := time.Now()
	atomic.AddInt64(&s.nq, 1)
	defer func() { atomic.AddInt64(&s.timeNS, int64(time.Since(t0))) }()
	if vslow != "" {
		defer func() {
			if d := time.Since(t0); d > 50*time.Millisecond {
				fmt.Fprintf(os.Stderr, "SLOW %.2fs %dKB q=%s\n", d.Seconds(), len(script)/1024, slowWhere())
				os.WriteFile(fmt.Sprintf("/tmp/vcs/slow_%d.smt2", atomic.LoadInt64(&s.nq)), []byte(script+"(check-sat)\n"), 0o644)
			}
		}()
	}
	p := s.get()
	var buf strings.Builder
	fmt.Fprintf(&buf, "(reset)\n(set-option :timeout %d)\n", timeoutMS)
	buf.WriteString(script)
	buf.WriteString("(check-sat)\n(echo \"@@done\")\n")
	type res struct{ ans, vals string }
	ch := make(chan res, 1)
	go func() {
		if _, err := io.WriteString(p.in, buf.String()); err != nil {
			ch <- res{"error", err.Error()}
			return
		}
		ans := ""
		var errs []string
		for {
			line, err := p.out.ReadString('\n')
			if err != nil {
				ch <- res{"error", "eof " + strings.Join(errs, ";")}
				return
			}
			line = strings.TrimSpace(line)
			if strings.Contains(line, "@@done") {
				break
			}
			if line == "sat" || line == "unsat" || line == "unknown" || line == "timeout" {
				ans = line
			} else if line != "" {
				errs = append(errs, line)
			}
		}
		if len(errs) > 0 {
			ch <- res{"error", strings.Join(errs, ";")}
			return
		}
		vals := ""
		if ans == "sat" && getVals != "" {
			io.WriteString(p.in, getVals+"(echo \"@@done\")\n")
			for {
				line, err := p.out.ReadString('\n')
				if err != nil || strings.Contains(line, "@@done") {
					break
				}
				vals += line
			}
		}
		ch <- res{ans, vals}
	}()
	select {
	case r := <-ch:
		if r.ans == "error" {
			p.in.Close()
			p.cmd.Process.Kill()
			p.cmd.Wait()
			if os.Getenv("VDEBUG") != "" {
				fmt.Fprintln(os.Stderr, "SOLVER ERROR:", r.vals)
				os.WriteFile("/tmp/vc_err.smt2", []byte(buf.String()), 0o644)
			}
			return "error", r.vals
		}
		s.put(p)
		return r.ans, r.vals
	case <-time.After(time.Duration(timeoutMS)*time.Millisecond*2 + 3*time.Second):
		p.cmd.Process.Kill()
		p.cmd.Wait()
		return "unknown", "killed"
	}
}

// cvc5 fallback, one process per query
func runCVC5(script string, timeoutMS int) string {
	solver.sem <- struct{}{}
	defer func() { <-solver.sem }()
	atomic.AddInt64(&solver.nCvc, 1)
	cmd := exec.Command("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", timeoutMS), "-")
	cmd.Stdin = strings.NewReader("(set-logic ALL)\n" + script + "(check-sat)\n")
	out, _ := cmd.Output()
	l := strings.TrimSpace(string(out))
	if i := strings.IndexByte(l, '\n'); i >= 0 {
		l = l[:i]
	}
	return l
}

type Result struct {
	Status string // unsat, sat, unknown, error
	By     string
	Hints  []string
	Script string
}

func (c *Ctx) script(asserts []*Term) (string, *printer) {
	p := &printer{decl: map[string]string{}, uses: map[int]int{}, named: map[int]string{}}
	for _, a := range asserts {
		p.count(a)
	}
	var body strings.Builder
	for _, a := range asserts {
		s := p.str(a)
		body.WriteString(p.defs.String())
		p.defs.Reset()
		body.WriteString("(assert " + s + ")\n")
	}
	var out strings.Builder
	for _, n := range p.order {
		out.WriteString(p.decl[n])
	}
	out.WriteString(body.String())
	return out.String(), p
}

// splitGoal rewrites a goal into an equivalent conjunction.
func (c *Ctx) splitGoal(g *Term) []*Term {
	switch g.op {
	case OAnd:
		var out []*Term
		for _, a := range g.args {
			out = append(out, c.splitGoal(a)...)
		}
		return out
	case OForall:
		n := len(g.args) - 1
		ps := c.splitGoal(g.args[n])
		if len(ps) > 1 {
			out := make([]*Term, len(ps))
			for i, p := range ps {
				out[i] = c.Forall(g.args[:n], p)
			}
			return out
		}
	case OOr:
		for i, a := range g.args {
			ps := c.splitGoal(a)
			if len(ps) > 1 {
				var out []*Term
				for _, p := range ps {
					as := append([]*Term(nil), g.args...)
					as[i] = p
					out = append(out, c.Or(as...))
				}
				return out
			}
		}
	}
	return []*Term{g}
}

// proveDeadline ends all proof attempts of a check.
var proveDeadline time.Time

// Prove checks facts |= goal, one conjunct of the goal at a time.
func (c *Ctx) Prove(facts []*Term, goal *Term, cands []*Term, timeoutMS int, full bool) Result {
	if ps := c.splitGoal(goal); len(ps) > 1 && len(ps) <= 64 {
		var r Result
		for _, p := range ps {
			if r = c.proveOne(facts, p, cands, timeoutMS, full); r.Status != "unsat" {
				return r
			}
		}
		return r
	}
	return c.proveOne(facts, goal, cands, timeoutMS, full)
}

func (c *Ctx) proveOne(facts []*Term, goal *Term, cands []*Term, timeoutMS int, full bool) Result {
	if goal == c.True {
		return Result{Status: "unsat", By: "simplifier"}
	}
	if c.x != nil && c.x.fpMode && full {
		if r := c.prove1(facts, goal, cands, 2000, false, 1, 1); r.Status == "unsat" {
			return r
		}
		return c.proveFP(facts, goal)
	}
	if !proveDeadline.IsZero() && time.Now().After(proveDeadline) {
		return Result{Status: "unknown", Script: "the time of this check is used up"}
	}
	// first without the quantified facts that share no array with the goal
	in := map[*Term]bool{}
	for _, s := range c.symset(goal) {
		if s.sort.arr() {
			in[s] = true
		}
	}
	var sel []*Term
	for _, f := range facts {
		if hasQuant(f) {
			rel := false
			for _, s := range c.symset(f) {
				if in[s] {
					rel = true
					break
				}
			}
			if !rel {
				continue
			}
		}
		sel = append(sel, f)
	}
	nq := 0
	for _, f := range sel {
		if hasQuant(f) {
			nq++
		}
	}
	if nq > 1 {
		if r := c.prove1(sel, goal, cands, min(timeoutMS, 6000), false, 1, 1); r.Status == "unsat" {
			return r
		}
	}
	if !full && c.x != nil && c.x.lean {
		return c.prove1(sel, goal, cands, timeoutMS, false, 1, 1)
	}
	if len(sel) < len(facts) {
		if r := c.prove1(sel, goal, cands, min(timeoutMS, 8000), false, 2, 2); r.Status == "unsat" {
			return r
		}
	}
	rounds := 3
	if !full {
		rounds = 2
	}
	return c.prove1(facts, goal, cands, timeoutMS, full, rounds, 2)
}

func (c *Ctx) prove1(facts []*Term, goal *Term, cands []*Term, timeoutMS int, full bool, rounds, skMax int) Result {
	h := c.distinctHook
	c.distinctHook = nil
	defer func() { c.distinctHook = h }()
	q := &query{c: c, gseen: map[int]bool{}, qseen: map[int]bool{}, insts: map[string]bool{}, skMax: skMax, named: map[int]*Term{}}
	for _, s := range cands {
		q.addCand(s)
	}
	q.inGoal = true
	q.addAssert(c.nnf(goal, false))
	q.inGoal = false
	for _, f := range facts {
		if f == c.False {
			return Result{Status: "unsat", By: "simplifier"}
		}
		q.addAssert(c.nnf(f, true))
	}
	for _, g := range q.ground {
		if g == c.False {
			return Result{Status: "unsat", By: "simplifier"}
		}
	}
	if len(q.quants) > 0 {
		// first a cheap attempt without quantifiers
		q.instantiate(rounds)
	}
	lem := q.lemmas()
	asserts := append(append([]*Term(nil), q.ground...), lem...)
	scr, p := c.script(asserts)
	gv := ""
	if full {
		gv = getValues(p)
	}
	ans, vals := solver.run(scr, timeoutMS, gv)
	if ans == "unsat" {
		return Result{Status: "unsat", By: "z3"}
	}
	if !full {
		return Result{Status: ans}
	}
	res := Result{Status: ans, Script: scr}
	if ans == "sat" {
		res.Hints = parseHints(vals)
	}
	if len(q.quants) > 0 {
		atomic.AddInt64(&solver.nQuantQ, 1)
		scr2, _ := c.script(append(append([]*Term(nil), asserts...), q.quants...))
		ans2, _ := solver.run(scr2, timeoutMS, "")
		if ans2 == "unsat" {
			return Result{Status: "unsat", By: "z3(quantifiers)"}
		}
	}
	if ans == "unknown" || ans == "timeout" {
		if a := runCVC5(scr, timeoutMS*2); a == "unsat" {
			return Result{Status: "unsat", By: "cvc5"}
		} else if a == "sat" {
			res.Status = "sat"
		}
	}
	return res
}

func getValues(p *printer) string {
	var names []string
	for _, n := range p.order {
		d := p.decl[n]
		if strings.Contains(d, " () Int)") || strings.Contains(d, " () String)") {
			names = append(names, smtName(n))
		}
	}
	if len(names) == 0 {
		return ""
	}
	if len(names) > 200 {
		names = names[:200]
	}
	return "(get-value (" + strings.Join(names, " ") + "))\n"
}

func parseHints(v string) []string {
	seen := map[string]bool{}
	var out []string
	for _, l := range strings.Split(v, "\n") {
		l = strings.TrimSpace(l)
		i := strings.Index(l, "| ")
		if i < 0 {
			continue
		}
		x := strings.TrimRight(l[i+2:], ")")
		x = strings.TrimSpace(x)
		x = strings.Replace(strings.Replace(x, "(- ", "-", 1), ")", "", -1)
		if x == "" || seen[x] {
			continue
		}
		seen[x] = true
		out = append(out, x)
	}
	sort.Strings(out)
	return out
}
