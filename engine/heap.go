package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Value
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	defers []deferred
	// where the result goes in the caller frame (nil: no result)
	dest       ssa.Value
	catch      bool          // panics inside are caught (zz.Panics)
	assume     *ssa.Function // contract frame in assume mode for this function
	verify     *ssa.Function // top-level harness frame: first call of this fn is inlined
	started    bool
	cuts       map[*ssa.BasicBlock]*cut
	visits     map[*ssa.BasicBlock]int
	mods       []modTarget
	hasMods    bool
	name       string
	onRet      func(st *State, v Value) Value
	spec       bool
	binds      []Value
	wmStart    *Term
	result     Value
	called     bool
	isContract bool
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
}

type modTarget struct {
	slice *Slice
	ptr   *Ptr
	mp    *Term
	mpT   *types.Map
}

type write struct {
	comp string
	ref  *Term // object / array ref
	idx  *Term // nil: object cell
	val  *Term
	// range copy
	copySrc, copyOff, copyN *Term
	whole                   bool
}

type State struct {
	frames        []*Frame
	facts         []*Term // all assumptions
	fset          *factSet
	branch        []*Term // branch conditions (subset of facts), for pure evaluation
	heap          map[string]*Term
	wm            *Term
	cands         []*Term
	log           []write
	logOn         bool
	dead          bool
	pure          int
	ghost         map[string]*Term
	trace         []string
	nret          Value
	done          bool
	lastAllocMark int
	loopBr        int
	rootMods      []modTarget
}

func (f *Frame) clone() *Frame {
	g := *f
	g.regs = make(map[ssa.Value]Value, len(f.regs))
	for k, v := range f.regs {
		g.regs[k] = v
	}
	g.defers = append([]deferred(nil), f.defers...)
	if f.cuts != nil {
		g.cuts = map[*ssa.BasicBlock]*cut{}
		for k, v := range f.cuts {
			g.cuts[k] = v
		}
	}
	if f.visits != nil {
		g.visits = map[*ssa.BasicBlock]int{}
		for k, v := range f.visits {
			g.visits[k] = v
		}
	}
	g.mods = append([]modTarget(nil), f.mods...)
	return &g
}

func (s *State) clone() *State {
	n := *s
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	n.facts = append([]*Term(nil), s.facts...)
	n.branch = append([]*Term(nil), s.branch...)
	n.cands = append([]*Term(nil), s.cands...)
	n.log = append([]write(nil), s.log...)
	n.trace = append([]string(nil), s.trace...)
	s.fset, n.fset = s.fset.split()
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return &n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (x *Exec) assume(st *State, t *Term) {
	if t == x.c.True {
		return
	}
	if t == x.c.False || t.op == OEq0 && x.known(st, t) < 0 {
		st.dead = true
	}
	if t.op == OAnd {
		// equalities first: they simplify the other conjuncts
		for pass := 0; pass < 2; pass++ {
			for _, a := range t.args {
				if (a.op == OEq0 || a.op == OAnd) == (pass == 0) {
					if k := x.known(st, a); k > 0 {
						continue
					} else if k < 0 {
						st.dead = true
					}
					x.assume(st, a)
				}
			}
		}
		return
	}
	if st.fset.has(t.id) {
		return
	}
	if st.fset.has(x.c.Not(t).id) {
		st.dead = true
	}
	st.fset.add(t.id)
	st.facts = append(st.facts, t)
	if t.op == OEq0 {
		if v, k := x.c.varConst(t.args[0]); v != nil {
			st.fset.eq[v.id] = k
			// what it says about other constants is implied
			n := 0
			for _, f := range st.facts {
				if f.op == ONot && f.args[0].op == OEq0 {
					if w, l := x.c.varConst(f.args[0].args[0]); w == v && l.Cmp(k) != 0 {
						n++
					}
				}
			}
			if n > 2 {
				var fs []*Term
				for _, f := range st.facts {
					if f.op == ONot && f.args[0].op == OEq0 {
						if w, l := x.c.varConst(f.args[0].args[0]); w == v && l.Cmp(k) != 0 {
							continue
						}
					}
					fs = append(fs, f)
				}
				st.facts = fs
			}
		}
	}
}

// factSet is the set of the facts of a path, shared between forks.
type factSet struct {
	m      map[int]bool
	eq     map[int]*big.Int // terms known to be a constant
	parent *factSet
	depth  int
}

func newFactSet() *factSet {
	return &factSet{m: map[int]bool{}, eq: map[int]*big.Int{}}
}
func (f *factSet) add(id int) { f.m[id] = true }
func (f *factSet) has(id int) bool {
	for ; f != nil; f = f.parent {
		if f.m[id] {
			return true
		}
	}
	return false
}
func (f *factSet) con(id int) *big.Int {
	for ; f != nil; f = f.parent {
		if v := f.eq[id]; v != nil {
			return v
		}
	}
	return nil
}
func (f *factSet) split() (a, b *factSet) {
	if len(f.m) == 0 && f.parent != nil && len(f.eq) == 0 {
		f = f.parent
	} else if f.depth >= 12 {
		g := newFactSet()
		for h := f; h != nil; h = h.parent {
			for k := range h.m {
				g.m[k] = true
			}
			for k, v := range h.eq {
				if g.eq[k] == nil {
					g.eq[k] = v
				}
			}
		}
		f = g
	}
	mk := func() *factSet {
		n := newFactSet()
		n.parent, n.depth = f, f.depth+1
		return n
	}
	return mk(), mk()
}

// varConst: p == 0 says that a single term is a constant.
func (c *Ctx) varConst(p *Term) (*Term, *big.Int) {
	switch {
	case p.op == OPoly && len(p.args) == 1 && p.coefs[0].CmpAbs(bigOne) == 0:
		k := new(big.Int).Neg(p.val)
		if p.coefs[0].Sign() < 0 {
			k.Neg(k)
		}
		return p.args[0], k
	case p.op != OPoly && p.op != OConst:
		return p, new(big.Int)
	}
	return nil, nil
}

// polyConst is the value of p when all its terms are known constants.
func (st *State) polyConst(p *Term) *big.Int {
	switch p.op {
	case OConst:
		return p.val
	case OPoly:
		s := new(big.Int).Set(p.val)
		for i, a := range p.args {
			k := st.fset.con(a.id)
			if k == nil {
				return nil
			}
			s.Add(s, new(big.Int).Mul(k, p.coefs[i]))
		}
		return s
	}
	return st.fset.con(p.id)
}

// typing records a fact that holds of every well-typed state.
func (x *Exec) typing(st *State, t *Term) {
	if t == x.c.True {
		return
	}
	if st == nil {
		st = x.curState
		if st == nil {
			return
		}
	}
	if t.hasB {
		// generalize over bound variables
		var vars []*Term
		seen := map[int]bool{}
		walk(t, seen, func(u *Term) {
			if u.op == OBound {
				vars = append(vars, u)
			}
		})
		if st.fset.has(t.id) {
			return
		}
		st.fset.add(t.id)
		q := x.c.Forall(vars, t)
		if q.hasB {
			return
		}
		st.facts = append(st.facts, q)
		x.pureTyping = append(x.pureTyping, q)
		return
	}
	n := len(st.facts)
	dead := st.dead
	x.assume(st, t)
	st.dead = dead || (t == x.c.False)
	if len(st.facts) > n {
		x.pureTyping = append(x.pureTyping, st.facts[n:]...)
	}
}

// ---- allocation ----

func (x *Exec) noteSeq(r *Term) {
	if _, ok := x.seq[r]; !ok {
		x.nseq++
		x.seq[r] = x.nseq
	}
}

func (x *Exec) newRef(st *State, hint string) *Term {
	r := x.c.Fresh("new_"+hint, SInt)
	r.meta = &Meta{lo: bigOne}
	x.noteSeq(r)
	x.isAlloc[r] = true
	st.facts = append(st.facts, x.c.Gt(r, st.wm))
	st.wm = r
	return r
}

func (x *Exec) havocWM(st *State) {
	w := x.c.Fresh("wm", SInt)
	w.meta = &Meta{lo: bigOne}
	x.noteSeq(w)
	st.facts = append(st.facts, x.c.Ge(w, st.wm))
	st.wm = w
}

// maxSeq bounds the age of a reference term (-1: unknown).
func (x *Exec) maxSeq(t *Term) int {
	if s, ok := x.seq[t]; ok {
		return s
	}
	switch t.op {
	case OConst:
		return 0
	case OIte:
		a, b := x.maxSeq(t.args[1]), x.maxSeq(t.args[2])
		if a < 0 || b < 0 {
			return -1
		}
		if a > b {
			return a
		}
		return b
	case OSym, OSelect, OApp:
		b := t
		for b.op == OSelect {
			b = b.args[0]
		}
		if b.meta != nil && b.meta.ptrMax != nil {
			return x.maxSeq(b.meta.ptrMax)
		}
	}
	return -1
}

// external: a reference held by an argument or by the memory it reaches.
func (x *Exec) external(t *Term) bool {
	switch t.op {
	case OSym:
		return t.meta != nil && t.meta.ptrMax != nil && strings.HasPrefix(t.str, "p_")
	case OApp:
		return t.meta != nil && t.meta.ptrMax != nil && strings.HasPrefix(t.str, "unbox#") && x.external(t.args[0])
	case OSelect:
		b, _ := selBase(t)
		if b.op == OSym && b.meta != nil && b.meta.ptrMax != nil && strings.HasPrefix(b.str, "H0:") {
			for b = t; b.args[0].op == OSelect; {
				b = b.args[0]
			}
			return x.external(b.args[1])
		}
	}
	return false
}

func (x *Exec) distinct(a, b *Term) int {
	if a.sort != SInt {
		return 0
	}
	if x.isAlloc[a] {
		if s := x.maxSeq(b); s >= 0 && s < x.seq[a] {
			return -1
		}
	}
	if x.isAlloc[b] {
		if s := x.maxSeq(a); s >= 0 && s < x.seq[b] {
			return -1
		}
	}
	if a.op == OConst && a.val.Sign() > 0 && x.external(b) || b.op == OConst && b.val.Sign() > 0 && x.external(a) {
		// arguments do not point into package-level variables
		return -1
	}
	st := x.curState
	if st != nil {
		e := x.c.Eq(a, b)
		if st.fset.has(e.id) {
			return 1
		}
		if st.fset.has(x.c.Not(e).id) {
			return -1
		}
		// disjoint memory; the nil array has no elements
		if st.fset.has(x.c.Or(x.c.Eq(a, x.c.zero), x.c.Not(e)).id) || st.fset.has(x.c.Or(x.c.Eq(b, x.c.zero), x.c.Not(e)).id) {
			return -1
		}
		if st.fset.has(x.c.Lt(a, b).id) || st.fset.has(x.c.Lt(b, a).id) {
			return -1
		}
	}
	if a.op == OIte {
		if r := x.distinct(a.args[1], b); r != 0 && r == x.distinct(a.args[2], b) {
			return r
		}
	} else if b.op == OIte {
		if r := x.distinct(a, b.args[1]); r != 0 && r == x.distinct(a, b.args[2]) {
			return r
		}
	}
	return 0
}

// ---- component access ----

func (x *Exec) comp(st *State, name string, s Sort, m *Meta) *Term {
	if t, ok := st.heap[name]; ok {
		return t
	}
	t := x.c.Sym("H0:"+name, s)
	if t.meta == nil {
		t.meta = m
		if m != nil && m == refMeta {
			t.meta = &Meta{lo: bigZero, ptrMax: x.wm0}
		}
	}
	x.compInfo[name] = compInfo{s, m}
	st.heap[name] = t
	if x.heap0 != nil {
		if _, ok := x.heap0[name]; !ok {
			x.heap0[name] = t
		}
	}
	return t
}

type compInfo struct {
	sort Sort
	meta *Meta
}

func compMeta(l leaf) *Meta { return l.meta }

func (x *Exec) freshComp(st *State, name string, hint string) *Term {
	ci := x.compInfo[name]
	t := x.c.Fresh("H_"+hint+"_"+name, ci.sort)
	t.meta = ci.meta
	if ci.meta == refMeta {
		t.meta = &Meta{lo: bigZero, ptrMax: st.wm}
	}
	return t
}

func (x *Exec) objComp(root types.Type, path string) string {
	return "F|" + x.typeKey(root) + "|" + path
}
func (x *Exec) ptrComp(p *Ptr, path string) string {
	if p.priv != "" {
		return p.priv + path
	}
	return x.objComp(p.root, path)
}

// privateAlloc: the address of the variable is only used to load and store
// (parts of) it, so no other access path to it exists.
func (x *Exec) privateAlloc(a *ssa.Alloc) bool {
	if r, ok := x.privOK[a]; ok {
		return r
	}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch in := r.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if in.Op != token.MUL {
					return false
				}
			case *ssa.Store:
				if in.Val == v {
					return false
				}
			case *ssa.FieldAddr:
				if !ok(in) {
					return false
				}
			case *ssa.IndexAddr:
				if in.Index == v || !ok(in) {
					return false
				}
			case *ssa.Convert:
				if !ok(in) {
					return false
				}
			case *ssa.ChangeType:
				if !ok(in) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	r := ok(a)
	x.privOK[a] = r
	return r
}

type privInfo struct {
	alloc *ssa.Alloc
	depth int
}

func (x *Exec) arrComp(el types.Type, path string) string { return "E|" + x.typeKey(el) + "|" + path }

func typeAt(t types.Type, path []Step) types.Type {
	for _, s := range path {
		switch u := under(t).(type) {
		case *types.Struct:
			t = u.Field(s.f).Type()
		case *types.Array:
			t = u.Elem()
		default:
			panic(fmt.Sprintf("typeAt %s", t))
		}
	}
	return t
}

// expand resolves symbolic array steps into alternatives.
func (x *Exec) expandPath(root types.Type, path []Step) []altPath {
	alts := []altPath{{cond: x.c.True}}
	t := root
	for _, s := range path {
		switch u := under(t).(type) {
		case *types.Struct:
			for i := range alts {
				alts[i].path += fmt.Sprintf(".%d", s.f)
			}
			t = u.Field(s.f).Type()
		case *types.Array:
			if s.idx == nil {
				for i := range alts {
					alts[i].path += fmt.Sprintf(".%d", s.f)
				}
			} else {
				var n []altPath
				for _, a := range alts {
					for k := int64(0); k < u.Len(); k++ {
						cd := x.c.And(a.cond, x.c.Eq(s.idx, x.c.Int(k)))
						if cd == x.c.False {
							continue
						}
						n = append(n, altPath{cond: cd, path: a.path + fmt.Sprintf(".%d", k)})
					}
				}
				alts = n
			}
			t = u.Elem()
		}
	}
	return alts
}

type altPath struct {
	cond *Term
	path string
}

func (x *Exec) readLeaf(st *State, p *Ptr, sub string, l leaf) *Term {
	c := x.c
	alts := x.expandPath(p.root, p.path)
	var res *Term
	for i := len(alts) - 1; i >= 0; i-- {
		a := alts[i]
		var v *Term
		if p.elem {
			x.checkViewed(st, p.root, p.base)
			cm := x.comp(st, x.arrComp(p.root, a.path+sub), Arr(SInt, Arr(SInt, l.sort)), l.meta)
			v = x.selElem(cm, p.base, p.idx, 3)
		} else {
			cm := x.comp(st, x.ptrComp(p, a.path+sub), Arr(SInt, l.sort), l.meta)
			v = x.selObj(cm, p.base, 3)
		}
		if res == nil {
			res = v
		} else {
			res = c.Ite(a.cond, v, res)
		}
	}
	if res == nil {
		return x.zeroLeaf(l)
	}
	return res
}

// selElem reads an element of a slice whose memory depends on a condition.
func (x *Exec) selElem(cm, base, idx *Term, depth int) *Term {
	c := x.c
	if base.op == OIte && depth > 0 && !idx.hasB {
		g := base.args[0]
		m := map[*Term]*Term{g: c.True}
		n := map[*Term]*Term{g: c.False}
		a, b := c.Subst(idx, m), c.Subst(idx, n)
		if a != b {
			return c.Ite(g, x.selElem(cm, c.Subst(base.args[1], m), a, depth-1), x.selElem(cm, c.Subst(base.args[2], n), b, depth-1))
		}
	}
	return c.Select(c.Select(cm, base), idx)
}

// selObj reads a field through a pointer that depends on a condition.
func (x *Exec) selObj(cm, base *Term, depth int) *Term {
	c := x.c
	if base.op == OIte && depth > 0 {
		return c.Ite(base.args[0], x.selObj(cm, base.args[1], depth-1), x.selObj(cm, base.args[2], depth-1))
	}
	return c.Select(cm, base)
}

func (x *Exec) writeLeaf(st *State, p *Ptr, sub string, l leaf, val *Term) {
	c := x.c
	alts := x.expandPath(p.root, p.path)
	for _, a := range alts {
		v := val
		if p.elem {
			x.checkViewed(st, p.root, p.base)
			name := x.arrComp(p.root, a.path+sub)
			cm := x.comp(st, name, Arr(SInt, Arr(SInt, l.sort)), l.meta)
			row := c.Select(cm, p.base)
			if a.cond != c.True {
				v = c.Ite(a.cond, val, c.Select(row, p.idx))
			}
			st.heap[name] = c.Store(cm, p.base, c.Store(row, p.idx, v))
			if st.logOn {
				st.log = append(st.log, write{comp: name, ref: p.base, idx: p.idx, val: v})
			}
		} else {
			name := x.ptrComp(p, a.path+sub)
			cm := x.comp(st, name, Arr(SInt, l.sort), l.meta)
			if a.cond != c.True {
				v = c.Ite(a.cond, val, c.Select(cm, p.base))
			}
			st.heap[name] = c.Store(cm, p.base, v)
			if st.logOn {
				st.log = append(st.log, write{comp: name, ref: p.base, val: v})
			}
		}
	}
}

func (x *Exec) load(st *State, p *Ptr, t types.Type) Value {
	at := typeAt(p.root, p.path)
	if x.typeKey(at) != x.typeKey(t) {
		return x.loadReinterp(st, p, at, t)
	}
	ls := x.leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = x.readLeaf(st, p, l.path, l)
	}
	return x.unflatten(st, t, &ts)
}

// loadReinterp models *(*T)(unsafe.Pointer(&v)) for types with the same leaf layout.
func (x *Exec) loadReinterp(st *State, p *Ptr, at, t types.Type) Value {
	la, lt := x.leaves(at), x.leaves(t)
	if len(la) != len(lt) {
		x.unsupported("unsafe reinterpretation %s as %s", at, t)
	}
	ts := make([]*Term, len(la))
	for i := range la {
		if la[i].size == 0 || la[i].size != lt[i].size {
			x.unsupported("unsafe reinterpretation %s as %s", at, t)
		}
		v := x.readLeaf(st, p, la[i].path, la[i])
		ts[i] = x.rebits(v, la[i].typ, lt[i].typ)
	}
	return x.unflatten(st, t, &ts)
}

// rebits reinterprets the bits of v.
func (x *Exec) rebits(v *Term, from, to types.Type) *Term {
	sg := func(t types.Type) bool {
		b := under(t).(*types.Basic)
		return b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
	}
	bits := uint(sizeof(from) * 8)
	if sg(from) == sg(to) {
		return v
	}
	if sg(from) {
		return x.wrapU(v, bits)
	}
	return x.wrapS(v, bits)
}

func (x *Exec) store(st *State, p *Ptr, t types.Type, v Value) {
	at := typeAt(p.root, p.path)
	ts := x.flatten(st, v, t)
	if x.typeKey(at) != x.typeKey(t) {
		la, lt := x.leaves(at), x.leaves(t)
		if len(la) != len(lt) {
			x.unsupported("unsafe store %s as %s", at, t)
		}
		for i := range la {
			if la[i].size == 0 || la[i].size != lt[i].size {
				x.unsupported("unsafe store %s as %s", at, t)
			}
			x.writeLeaf(st, p, la[i].path, la[i], x.rebits(ts[i], lt[i].typ, la[i].typ))
		}
		return
	}
	for i, l := range x.leaves(t) {
		x.writeLeaf(st, p, l.path, l, ts[i])
	}
}

// rowOf returns the current row term of an element component.
func (x *Exec) rowOf(st *State, el types.Type, l leaf, arr *Term) *Term {
	cm := x.comp(st, x.arrComp(el, l.path), Arr(SInt, Arr(SInt, l.sort)), l.meta)
	return x.c.Select(cm, arr)
}

func (x *Exec) setRow(st *State, el types.Type, l leaf, arr, row *Term) {
	name := x.arrComp(el, l.path)
	cm := x.comp(st, name, Arr(SInt, Arr(SInt, l.sort)), l.meta)
	st.heap[name] = x.c.Store(cm, arr, row)
}

// copyElems models copying n elements between slices (memmove semantics).
func (x *Exec) copyElems(st *State, el types.Type, dst, doff, src, soff, n *Term) {
	if n == x.c.zero {
		return
	}
	x.checkViewed(st, el, dst)
	x.checkViewed(st, el, src)
	for _, l := range x.leaves(el) {
		srow := x.rowOf(st, el, l, src)
		drow := x.rowOf(st, el, l, dst)
		x.setRow(st, el, l, dst, x.c.Copy(drow, doff, srow, soff, n))
		if st.logOn {
			st.log = append(st.log, write{comp: x.arrComp(el, l.path), ref: dst, idx: doff, copySrc: srow, copyOff: soff, copyN: n})
		}
	}
}

// newArr allocates a zeroed backing array.
func (x *Exec) newArr(st *State, el types.Type, n *Term) *Term {
	r := x.newRef(st, "arr")
	for _, l := range x.leaves(el) {
		s := Arr(SInt, l.sort)
		x.setRow(st, el, l, r, x.c.ConstArr(s, x.zeroLeaf(l)))
	}
	x.setSize(st, el, r, n)
	return r
}

// newArrUndef allocates a backing array with unspecified contents.
func (x *Exec) newArrUndef(st *State, el types.Type) *Term {
	r := x.newRef(st, "arr")
	for _, l := range x.leaves(el) {
		row := x.c.Fresh("row", Arr(SInt, l.sort))
		row.meta = l.meta
		if l.meta == refMeta {
			row.meta = &Meta{lo: bigZero, ptrMax: st.wm}
		}
		x.setRow(st, el, l, r, row)
	}
	return r
}

// havocRow replaces [off,off+n) of an array by unspecified contents.
func (x *Exec) havocSlice(st *State, s *Slice) {
	if s.arr == x.c.zero {
		return
	}
	for _, l := range x.leaves(s.elem) {
		row := x.c.Fresh("hrow", Arr(SInt, l.sort))
		row.meta = l.meta
		if l.meta == refMeta {
			row.meta = &Meta{lo: bigZero, ptrMax: st.wm}
		}
		old := x.rowOf(st, s.elem, l, s.arr)
		x.setRow(st, s.elem, l, s.arr, x.c.Copy(old, s.off, row, s.off, s.len))
		if st.logOn {
			st.log = append(st.log, write{comp: x.arrComp(s.elem, l.path), ref: s.arr, idx: s.off, copySrc: row, copyOff: s.off, copyN: s.len})
		}
	}
}

func (x *Exec) havocPtr(st *State, p *Ptr) {
	t := typeAt(p.root, p.path)
	x.store(st, p, t, x.freshVal(st, "hv", t, st.wm))
}

// ---- views created by unsafe.Slice ----

// checkViewed: bytes whose memory is currently used through an unsafe view
// must not be accessed directly (the model keeps them apart).
func (x *Exec) checkViewed(st *State, el types.Type, arr *Term) {
	v := st.ghost["viewed|"+x.typeKey(el)]
	if v == nil || st.pure > 0 {
		return
	}
	b := x.c.Select(v, arr)
	if b == x.c.False {
		return
	}
	x.check(st, "unsafe-view", x.c.Not(b), "memory is accessed both directly and through an unsafe view")
}

// ---- maps ----

func (x *Exec) keySort(t types.Type) Sort {
	ls := x.leaves(t)
	if len(ls) != 1 {
		x.unsupported("map key type %s", t)
	}
	return ls[0].sort
}

func (x *Exec) mapNames(m *types.Map) (has, val, ln string) {
	k := x.typeKey(m.Key()) + "|" + x.typeKey(m.Elem())
	return "Mh|" + k, "Mv|" + k, "Ml|" + k
}

func (x *Exec) mapHas(st *State, m *types.Map, ref, key *Term) *Term {
	h, _, _ := x.mapNames(m)
	cm := x.comp(st, h, Arr(SInt, Arr(x.keySort(m.Key()), SBool)), nil)
	return x.c.And(x.c.Not(x.c.Eq(ref, x.c.zero)), x.c.Select(x.c.Select(cm, ref), key))
}

func (x *Exec) mapVal(st *State, m *types.Map, ref, key *Term) Value {
	_, v, _ := x.mapNames(m)
	ls := x.leaves(m.Elem())
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		cm := x.comp(st, v+l.path, Arr(SInt, Arr(x.keySort(m.Key()), l.sort)), l.meta)
		ts[i] = x.c.Select(x.c.Select(cm, ref), key)
	}
	return x.unflatten(st, m.Elem(), &ts)
}

func (x *Exec) mapLen(st *State, m *types.Map, ref *Term) *Term {
	_, _, ln := x.mapNames(m)
	cm := x.comp(st, ln, Arr(SInt, SInt), lenMeta)
	return x.c.Ite(x.c.Eq(ref, x.c.zero), x.c.zero, x.c.Select(cm, ref))
}

func (x *Exec) mapSet(st *State, m *types.Map, ref, key *Term, v Value) {
	h, vn, ln := x.mapNames(m)
	c := x.c
	ks := x.keySort(m.Key())
	old := x.mapHas(st, m, ref, key)
	cm := x.comp(st, h, Arr(SInt, Arr(ks, SBool)), nil)
	st.heap[h] = c.Store(cm, ref, c.Store(c.Select(cm, ref), key, c.True))
	if st.logOn {
		st.log = append(st.log, write{comp: h, ref: ref, idx: key, val: c.True})
	}
	ts := x.flatten(st, v, m.Elem())
	for i, l := range x.leaves(m.Elem()) {
		cm := x.comp(st, vn+l.path, Arr(SInt, Arr(ks, l.sort)), l.meta)
		st.heap[vn+l.path] = c.Store(cm, ref, c.Store(c.Select(cm, ref), key, ts[i]))
		if st.logOn {
			st.log = append(st.log, write{comp: vn + l.path, ref: ref, idx: key, val: ts[i]})
		}
	}
	lm := x.comp(st, ln, Arr(SInt, SInt), lenMeta)
	nl := c.Add(c.Select(lm, ref), c.Ite(old, c.zero, c.one))
	st.heap[ln] = c.Store(lm, ref, nl)
	if st.logOn {
		st.log = append(st.log, write{comp: ln, ref: ref, val: nl})
	}
}

func (x *Exec) mapDelete(st *State, m *types.Map, ref, key *Term) {
	h, _, ln := x.mapNames(m)
	c := x.c
	ks := x.keySort(m.Key())
	old := x.mapHas(st, m, ref, key)
	cm := x.comp(st, h, Arr(SInt, Arr(ks, SBool)), nil)
	st.heap[h] = c.Store(cm, ref, c.Store(c.Select(cm, ref), key, c.False))
	lm := x.comp(st, ln, Arr(SInt, SInt), lenMeta)
	st.heap[ln] = c.Store(lm, ref, c.Sub(c.Select(lm, ref), c.Ite(old, c.one, c.zero)))
	if st.logOn {
		st.log = append(st.log, write{comp: h, ref: ref, idx: key, val: c.False}, write{comp: ln, ref: ref, val: c.Select(st.heap[ln], ref)})
	}
}

func (x *Exec) newMap(st *State, m *types.Map) *Term {
	r := x.newRef(st, "map")
	h, vn, ln := x.mapNames(m)
	c := x.c
	ks := x.keySort(m.Key())
	cm := x.comp(st, h, Arr(SInt, Arr(ks, SBool)), nil)
	st.heap[h] = c.Store(cm, r, c.ConstArr(Arr(ks, SBool), c.False))
	for _, l := range x.leaves(m.Elem()) {
		cm := x.comp(st, vn+l.path, Arr(SInt, Arr(ks, l.sort)), l.meta)
		st.heap[vn+l.path] = c.Store(cm, r, c.ConstArr(Arr(ks, l.sort), x.zeroLeaf(l)))
	}
	lm := x.comp(st, ln, Arr(SInt, SInt), lenMeta)
	st.heap[ln] = c.Store(lm, r, c.zero)
	return r
}
