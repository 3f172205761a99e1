package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops.  A loop whose condition is decided is executed; any other loop is
// cut at its header: an arbitrary iteration k is described by history
// functions (value of every loop-carried variable and memory cell as a
// function of the iteration), the transition relation over earlier iterations
// and inductive facts inferred from the writes of one iteration.  The
// inferred facts are proved (base and step) before they are used.

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type cut struct{}

type entry struct {
	phi    int
	leaf   leaf
	init   *Term
	hist   *Term
	inv    bool
	linear bool
	nolin  bool
	delta  *Term
	name   string
}

type cell struct {
	comp  string
	ref   *Term
	row   bool
	init  *Term
	hist  *Term
	elemS Sort
	e     *entry // for scalar cells
}

type loopCut struct {
	x     *Exec
	st    *State // state at entry
	f     *Frame
	lp    *loopInfo
	d     int
	mark  int
	k     *Term
	phis  []*ssa.Phi
	init  []Value
	ents  []*entry
	entAt [][]int // per phi
	cells []*cell
	cellK map[string]*cell
	whole map[string]*Term // comp -> hist
	alloc map[string]*Term // comps written at refs allocated in the body
	wmk   *Term
	mark2 int
	hists map[*Term]*Term // body symbol -> history symbol
	hfact []*Term         // history facts for iteration k
	cands []*cand
}

type cand struct {
	name string
	mk   func(kT *Term, next bool, row func(*cell) *Term, phi func(*entry) *Term) *Term
	dead bool
}

func (x *Exec) enterLoop(st *State, f *Frame, lp *loopInfo) ([]*State, bool) {
	if f.visits == nil {
		f.visits = map[*ssa.BasicBlock]int{}
	}
	if !lp.blocks[f.prev] {
		f.visits[lp.header] = 0
	}
	f.visits[lp.header]++
	if x.lookahead(st, f, lp) {
		if f.visits[lp.header] > 3000 {
			x.unsupported("loop unrolled too often at %s", x.pos(st))
		}
		x.evalPhis(st, f)
		f.prev = nil
		return nil, true
	}
	if st.pure > 0 {
		x.unsupported("unbounded loop in a specification function %s", f.fn)
	}
	return x.cutLoop(st, f, lp), true
}

func (x *Exec) lookahead(st *State, f *Frame, lp *loopInfo) (ok bool) {
	s := st.clone()
	d := len(s.frames)
	x.dry++
	defer func() {
		x.dry--
		x.curState = st
		if r := recover(); r != nil {
			if _, is := r.(unsupportedErr); is {
				ok = false
				return
			}
			if _, is := r.(forkReq); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	x.curState = s
	fr := s.top()
	x.evalPhis(s, fr)
	fr.prev = nil
	for n := 0; n < 300; n++ {
		if s.dead || len(s.frames) < d {
			return true
		}
		fr = s.top()
		if len(s.frames) == d {
			if !lp.blocks[fr.block] || (fr.block == lp.header && fr.pc == 0 && fr.prev != nil) {
				return true
			}
			if in, is := fr.block.Instrs[fr.pc].(*ssa.If); is {
				cond := x.term(x.get(s, fr, in.Cond))
				if x.known(s, cond) == 0 {
					return false
				}
				// an undecided exit later in the body is handled by forking
				return true
			}
			if fr.pc == 0 && fr.prev != nil && x.ld.loopAt(fr.fn, fr.block) != nil {
				return false
			}
		}
		succ := x.safeStep(s)
		if succ != nil {
			if len(succ) != 1 {
				return false
			}
			s = succ[0]
			x.curState = s
		}
	}
	return false
}

func (x *Exec) cutLoop(st *State, f *Frame, lp *loopInfo) []*State {
	c := x.c
	lc := &loopCut{x: x, st: st, f: f, lp: lp, d: len(st.frames), mark: c.nsym, cellK: map[string]*cell{}, whole: map[string]*Term{}, alloc: map[string]*Term{}, hists: map[*Term]*Term{}}
	where := x.posOf(lp.header.Instrs[0].Pos())
	if where == "?" {
		where = x.pos(st)
	}
	lc.k = c.Fresh("k", SInt)
	lc.k.meta = &Meta{lo: bigZero, hi: pow2(62)}
	idx := -1
	for i, p := range lp.header.Preds {
		if p == f.prev {
			idx = i
		}
	}
	for _, in := range lp.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		lc.phis = append(lc.phis, ph)
		v := x.get(st, f, ph.Edges[idx])
		lc.init = append(lc.init, v)
		ts := x.flatten(st, v, ph.Type())
		ls := x.leaves(ph.Type())
		var ids []int
		for i := range ls {
			nm := ph.Comment
			if nm == "" {
				nm = ph.Name()
			}
			e := &entry{phi: len(lc.phis) - 1, leaf: ls[i], init: ts[i], name: nm + ls[i].path}
			e.hist = c.Fresh("h_"+e.name, Arr(SInt, ls[i].sort))
			e.hist.meta = ls[i].meta
			ids = append(ids, len(lc.ents))
			lc.ents = append(lc.ents, e)
		}
		lc.entAt = append(lc.entAt, ids)
	}
	lc.wmk = st.wm
	var backs []*State
	// discover written memory and the shape of loop-carried variables
	for round := 0; ; round++ {
		if round > 12 {
			x.unsupported("loop at %s: memory footprint does not stabilise", where)
		}
		backs, _ = lc.runBody(true)
		if lc.collect(backs) {
			continue
		}
		if lc.shapes(backs) {
			continue
		}
		break
	}
	// transition relation of earlier iterations
	lc.history(backs)
	backs, _ = lc.runBody(true)
	if lc.collect(backs) {
		x.unsupported("loop at %s: footprint changed", where)
	}
	// linearity must hold exactly now
	for tries := 0; ; tries++ {
		if !lc.checkLinear(backs) {
			break
		}
		if tries > 4 {
			x.unsupported("loop at %s: induction variables", where)
		}
		lc.hfact = nil
		backs, _ = lc.runBody(true)
		lc.collect(backs)
		lc.history(backs)
		backs, _ = lc.runBody(true)
	}
	lc.history(backs)
	lc.infer(backs)
	lc.houdini(backs)
	if os.Getenv("VDEBUG") != "" {
		lc.dump(where)
	}
	x.loops[where] = fmt.Sprintf("%d inductive facts", len(lc.live()))
	_, exits := lc.runBody(false)
	for _, e := range exits {
		if st.logOn {
			var l []write
			l = append(l, st.log...)
			for _, cl := range lc.cells {
				l = append(l, write{comp: cl.comp, ref: cl.ref, whole: true})
			}
			for cm := range lc.whole {
				l = append(l, write{comp: cm, ref: c.Fresh("anyref", SInt), whole: true})
			}
			for cm := range lc.alloc {
				l = append(l, write{comp: cm, ref: lc.wmk, whole: true})
			}
			e.log = append(l, e.log...)
		}
		e.logOn = st.logOn
		if !st.logOn {
			e.log = nil
		}
	}
	if exits == nil {
		return []*State{}
	}
	return exits
}

func (lc *loopCut) live() []*cand {
	var r []*cand
	for _, cd := range lc.cands {
		if !cd.dead {
			r = append(r, cd)
		}
	}
	return r
}

func (lc *loopCut) entVal(e *entry, k *Term) *Term {
	c := lc.x.c
	if e.inv {
		return e.init
	}
	if e.linear {
		return c.Add(e.init, c.Mul(k, e.delta))
	}
	return c.Select(e.hist, k)
}

func (lc *loopCut) cellVal(cl *cell, k *Term) *Term {
	if cl.e != nil {
		return lc.entVal(cl.e, k)
	}
	return lc.x.c.Select(cl.hist, k)
}

// generic builds the state at the header in iteration k.
func (lc *loopCut) generic(final bool) *State {
	x, c := lc.x, lc.x.c
	s := lc.st.clone()
	x.curState = s
	s.logOn = true
	s.log = nil
	hasAlloc := len(lc.alloc) > 0 || len(lc.whole) > 0
	if hasAlloc || lc.wmk != lc.st.wm {
		if lc.wmk == lc.st.wm {
			lc.wmk = c.Fresh("wmk", SInt)
			lc.wmk.meta = &Meta{lo: bigOne}
			x.noteSeq(lc.wmk)
			for _, e := range lc.ents {
				if e.leaf.kind == "ptr" || e.leaf.kind == "tag" {
					e.hist.meta = &Meta{lo: bigZero, ptrMax: lc.wmk}
				}
			}
		}
		s.facts = append(s.facts, c.Ge(lc.wmk, lc.st.wm))
		s.wm = lc.wmk
	} else {
		for _, e := range lc.ents {
			if e.leaf.kind == "ptr" {
				e.hist.meta = &Meta{lo: bigZero, ptrMax: lc.wmk}
			}
		}
	}
	for cm, h := range lc.alloc {
		base := s.heap[cm]
		r := c.FreshB("r", SInt)
		lam := c.Lam(base.sort, r, c.Ite2(c.Le(r, lc.st.wm), c.Select(base, r), c.Select(c.Select(h, lc.k), r)))
		x.lamBase[lam] = base
		s.heap[cm] = lam
	}
	for cm, h := range lc.whole {
		s.heap[cm] = c.Select(h, lc.k)
	}
	for _, cl := range lc.cells {
		if lc.whole[cl.comp] != nil {
			continue
		}
		s.heap[cl.comp] = c.Store(s.heap[cl.comp], cl.ref, lc.cellVal(cl, lc.k))
	}
	x.assume(s, c.Le(c.zero, lc.k))
	s.cands = append(s.cands, lc.k, c.AddK(lc.k, -1))
	for _, h := range lc.hfact {
		x.assume(s, h)
	}
	for _, cd := range lc.live() {
		x.assume(s, cd.mk(lc.k, false, func(cl *cell) *Term { return lc.cellVal(cl, lc.k) }, func(e *entry) *Term { return lc.entVal(e, lc.k) }))
	}
	fr := s.top()
	for i, ph := range lc.phis {
		if len(lc.entAt[i]) == 0 {
			fr.regs[ph] = lc.init[i]
			continue
		}
		var ts []*Term
		for _, id := range lc.entAt[i] {
			ts = append(ts, lc.entVal(lc.ents[id], lc.k))
		}
		fr.regs[ph] = x.unflatten(s, ph.Type(), &ts)
	}
	fr.prev = nil
	fr.block = lc.lp.header
	fr.pc = len(lc.phis)
	fr.visits[lc.lp.header] = 0
	return s
}

func (lc *loopCut) isBack(s *State) bool {
	if len(s.frames) != lc.d {
		return false
	}
	fr := s.frames[lc.d-1]
	return fr.block == lc.lp.header && fr.pc == 0 && fr.prev != nil && lc.lp.blocks[fr.prev]
}

func (lc *loopCut) runBody(dry bool) (backs, exits []*State) {
	x := lc.x
	if dry {
		x.dry++
		defer func() { x.dry-- }()
	}
	s := lc.generic(!dry)
	lc.mark2 = x.c.nsym
	nf, nb := len(s.facts), len(s.branch)
	nd := len(lc.f.defers)
	stop := func(s *State) bool {
		if len(s.frames) < lc.d {
			return true
		}
		if len(s.frames) == lc.d {
			fr := s.frames[lc.d-1]
			if lc.isBack(s) {
				return true
			}
			return !lc.lp.blocks[fr.block]
		}
		return false
	}
	stopped, fin := x.run([]*State{s}, stop)
	for _, q := range stopped {
		if lc.isBack(q) {
			if len(q.top().defers) != nd {
				x.unsupported("defer inside a loop")
			}
			q.lastAllocMark = nf
			q.loopBr = nb
			backs = append(backs, q)
		} else {
			exits = append(exits, q)
		}
	}
	exits = append(exits, fin...)
	return
}

// collect adds memory written by the body to the havocked footprint.
func (lc *loopCut) collect(backs []*State) bool {
	x, c := lc.x, lc.x.c
	changed := false
	for _, b := range backs {
		for g, t := range b.ghost {
			if lc.st.ghost[g] != t {
				x.unsupported("ghost state %s changes in a loop", g)
			}
		}
		if b.wm != lc.wmk && len(lc.alloc) == 0 && lc.wmk == lc.st.wm {
			// the body allocates
			lc.wmk = c.Fresh("wmk", SInt)
			lc.wmk.meta = &Meta{lo: bigOne}
			x.noteSeq(lc.wmk)
			for _, e := range lc.ents {
				if e.leaf.kind == "ptr" || e.leaf.kind == "tag" {
					e.hist.meta = &Meta{lo: bigZero, ptrMax: lc.wmk}
				}
			}
			changed = true
		}
		for _, w := range b.log {
			if lc.whole[w.comp] != nil {
				continue
			}
			pi, priv := x.privs[w.comp]
			if priv && (pi.depth > lc.d || pi.depth == lc.d && lc.lp.blocks[pi.alloc.Block()]) {
				// a local of the body: dead at the header
				priv = true
			} else {
				priv = false
			}
			if !priv && !c.newAfter(w.ref, lc.mark) {
				key := fmt.Sprintf("%s@%d", w.comp, w.ref.id)
				if lc.cellK[key] != nil {
					continue
				}
				base := lc.st.heap[w.comp]
				if base == nil {
					// component first touched inside the loop
					ci := x.compInfo[w.comp]
					base = x.comp(lc.st, w.comp, ci.sort, ci.meta)
				}
				cl := &cell{comp: w.comp, ref: w.ref, elemS: base.sort.elem()}
				cl.row = cl.elemS.arr()
				old := x.curState
				x.curState = lc.st
				cl.init = c.Select(base, w.ref)
				x.curState = old
				m := x.compInfo[w.comp].meta
				if m == refMeta {
					m = &Meta{lo: bigZero, ptrMax: lc.wmk}
				}
				if cl.row {
					cl.hist = c.Fresh("hrow_"+w.comp, Arr(SInt, cl.elemS))
					cl.hist.meta = m
				} else {
					e := &entry{phi: -1, init: cl.init, name: w.comp, leaf: leaf{sort: cl.elemS, meta: m, kind: "cell"}}
					e.hist = c.Fresh("hcell_"+w.comp, Arr(SInt, cl.elemS))
					e.hist.meta = m
					cl.e = e
					lc.ents = append(lc.ents, e)
				}
				lc.cellK[key] = cl
				lc.cells = append(lc.cells, cl)
				changed = true
				continue
			}
			if s, ok := x.seq[w.ref]; ok && s > x.seq[lc.wmk] && x.isAlloc[w.ref] || w.ref == lc.wmk && w.whole {
				if lc.alloc[w.comp] == nil {
					ci := x.compInfo[w.comp]
					if lc.st.heap[w.comp] == nil {
						x.comp(lc.st, w.comp, ci.sort, ci.meta)
					}
					h := c.Fresh("halloc_"+w.comp, Arr(SInt, ci.sort))
					h.meta = ci.meta
					if ci.meta == refMeta {
						h.meta = &Meta{lo: bigZero, ptrMax: lc.wmk}
					}
					lc.alloc[w.comp] = h
					changed = true
				}
				continue
			}
			ci := x.compInfo[w.comp]
			if lc.st.heap[w.comp] == nil {
				x.comp(lc.st, w.comp, ci.sort, ci.meta)
			}
			h := c.Fresh("hcomp_"+w.comp, Arr(SInt, ci.sort))
			h.meta = ci.meta
			if ci.meta == refMeta {
				h.meta = &Meta{lo: bigZero, ptrMax: lc.wmk}
			}
			lc.whole[w.comp] = h
			changed = true
		}
	}
	return changed
}

// next returns the value of entry e after the back edge of state b.
func (lc *loopCut) next(b *State, e *entry) *Term {
	x := lc.x
	if e.phi < 0 {
		for _, cl := range lc.cells {
			if cl.e == e {
				old := x.curState
				x.curState = b
				v := x.c.Select(b.heap[cl.comp], cl.ref)
				x.curState = old
				return v
			}
		}
	}
	fr := b.top()
	idx := -1
	for i, p := range lc.lp.header.Preds {
		if p == fr.prev {
			idx = i
		}
	}
	ph := lc.phis[e.phi]
	v := x.get(b, fr, ph.Edges[idx])
	old := x.curState
	x.curState = b
	ts := x.flatten(b, v, ph.Type())
	x.curState = old
	for i, id := range lc.entAt[e.phi] {
		if lc.ents[id] == e {
			return ts[i]
		}
	}
	panic("entry")
}

// unwrap removes a modular wrap around a polynomial.
func (lc *loopCut) unwrap(t *Term) *Term {
	// (mod (p + h) 2^n) - h
	if t.op == OPoly && len(t.args) == 1 && t.args[0].op == OMod && t.coefs[0].Cmp(bigOne) == 0 {
		m := t.args[0]
		h := new(big.Int).Neg(t.val)
		if new(big.Int).Lsh(h, 1).Cmp(m.args[1].val) == 0 {
			return lc.x.c.Sub(m.args[0], lc.x.c.Big(h))
		}
	}
	if t.op == OMod && isPow2(t.args[1].val) {
		return t.args[0]
	}
	return t
}

// shapes classifies loop-carried variables; true if something changed.
func (lc *loopCut) shapes(backs []*State) bool {
	c := lc.x.c
	changed := false
	for _, e := range lc.ents {
		if e.inv || e.linear || len(backs) == 0 {
			continue
		}
		cur := lc.entVal(e, lc.k)
		same := true
		for _, b := range backs {
			if lc.next(b, e) != cur {
				same = false
			}
		}
		if same {
			e.inv = true
			changed = true
			continue
		}
		if e.nolin || e.leaf.sort != SInt || e.leaf.kind == "float" || e.leaf.kind == "ptr" {
			continue
		}
		var delta *Term
		ok := true
		for _, b := range backs {
			n := lc.unwrap(lc.next(b, e))
			d := c.Sub(n, cur)
			if c.newAfter(d, lc.mark) || delta != nil && delta != d {
				ok = false
				break
			}
			delta = d
		}
		if ok && delta != nil && delta != c.zero {
			e.linear, e.delta = true, delta
			changed = true
		}
	}
	return changed
}

// checkLinear verifies linear and invariant classifications; true if one was demoted.
func (lc *loopCut) checkLinear(backs []*State) bool {
	c := lc.x.c
	bad := false
	for _, e := range lc.ents {
		if !e.inv && !e.linear {
			continue
		}
		want := e.init
		if e.linear {
			want = c.Add(e.init, c.Mul(c.AddK(lc.k, 1), e.delta))
		}
		for _, b := range backs {
			n := lc.next(b, e)
			if n == want || lc.prove(b.facts, c.Eq(n, want)) {
				continue
			}
			e.inv, e.linear, e.nolin = false, false, true
			bad = true
			break
		}
	}
	return bad
}

func (lc *loopCut) prove(facts []*Term, g *Term) bool {
	ms := 4000
	if lc.x.lean {
		ms = 1500
	}
	return lc.x.c.Prove(facts, g, []*Term{lc.k}, ms, true).Status == "unsat"
}

// histSubst maps body symbols to their history functions at iteration it.
func (lc *loopCut) histSubst(ts []*Term, it *Term) map[*Term]*Term {
	c := lc.x.c
	m := map[*Term]*Term{lc.k: it}
	for _, t := range ts {
		for _, s := range c.symset(t) {
			if s.n > lc.mark2 {
				h := lc.hists[s]
				if h == nil {
					h = c.Fresh("hs_"+strings.SplitN(s.str, "!", 2)[0], Arr(SInt, s.sort))
					h.meta = s.meta
					lc.hists[s] = h
				}
				m[s] = c.Select(h, it)
			}
		}
	}
	return m
}

// history builds the facts about earlier iterations.
func (lc *loopCut) history(backs []*State) {
	x, c := lc.x, lc.x.c
	lc.hfact = nil
	if len(backs) == 0 {
		lc.hfact = append(lc.hfact, c.Eq(lc.k, c.zero))
		return
	}
	for _, e := range lc.ents {
		if !e.inv && !e.linear {
			lc.hfact = append(lc.hfact, c.Eq(c.Select(e.hist, c.zero), e.init))
		}
	}
	j := c.FreshB("j", SInt)
	j.meta = &Meta{lo: bigZero}
	trans := func(it *Term) *Term {
		var alts []*Term
		for _, b := range backs {
			conj := append([]*Term(nil), b.branch[b.loopBr:]...)
			for _, e := range lc.ents {
				if e.inv || e.linear {
					continue
				}
				conj = append(conj, c.Eq(c.Select(e.hist, c.AddK(lc.k, 1)), lc.next(b, e)))
			}
			// facts defining body symbols used above
			need := map[*Term]bool{}
			for _, t := range conj {
				for _, s := range c.symset(t) {
					if s.n > lc.mark2 {
						need[s] = true
					}
				}
			}
			for _, w := range b.log {
				for _, t := range []*Term{w.idx, w.val, w.copySrc, w.copyOff, w.copyN} {
					if t == nil {
						continue
					}
					for _, s := range c.symset(t) {
						if s.n > lc.mark2 {
							need[s] = true
						}
					}
				}
			}
			if len(need) > 0 {
				br := map[*Term]bool{}
				for _, t := range b.branch[b.loopBr:] {
					br[t] = true
				}
				for round := 0; round < 2; round++ {
					for _, t := range b.facts[b.lastAllocMark:] {
						if br[t] {
							continue
						}
						hit := false
						for _, s := range c.symset(t) {
							if need[s] {
								hit = true
							}
						}
						if hit && round == 0 {
							br[t] = true
							conj = append(conj, t)
						}
					}
				}
			}
			m := lc.histSubst(conj, it)
			for i := range conj {
				conj[i] = c.Subst(conj[i], m)
			}
			alts = append(alts, c.And(conj...))
		}
		return c.Or(alts...)
	}
	t := trans(j)
	lc.hfact = append(lc.hfact, c.Forall([]*Term{j}, c.Imp(c.And(c.Le(c.zero, j), c.Lt(j, lc.k)), t)))
	km := c.AddK(lc.k, -1)
	lc.hfact = append(lc.hfact, c.Imp(c.Le(c.one, lc.k), trans(km)))
	_ = x
}

// ---- inference of inductive facts from the write log ----

type wr struct {
	idx, val     *Term
	src, soff, n *Term
}

func (lc *loopCut) writesOf(b *State, cl *cell) (ws []wr, ok bool) {
	for _, w := range b.log {
		if w.comp != cl.comp {
			continue
		}
		if w.ref != cl.ref {
			if w.ref == nil {
				return nil, false
			}
			if lc.x.distinct(w.ref, cl.ref) == -1 {
				continue
			}
			return nil, false
		}
		if w.whole {
			return nil, false
		}
		ws = append(ws, wr{idx: w.idx, val: w.val, src: w.copySrc, soff: w.copyOff, n: w.copyN})
	}
	return ws, true
}

type group struct {
	base *Term
	offs []int64
	vals map[int64]*Term
}

func (lc *loopCut) groups(ws []wr) []*group {
	c := lc.x.c
	var gs []*group
	for _, w := range ws {
		if w.src != nil || w.idx == nil {
			continue
		}
		var g *group
		var off int64
		if w.idx.sort == SInt {
			for _, h := range gs {
				if h.base.sort != SInt {
					continue
				}
				if d, ok := c.constDiff(w.idx, h.base); ok && d.IsInt64() {
					g, off = h, d.Int64()
					break
				}
			}
		} else {
			for _, h := range gs {
				if h.base == w.idx {
					g = h
				}
			}
		}
		if g == nil {
			g = &group{base: w.idx, vals: map[int64]*Term{}}
			gs = append(gs, g)
		}
		if _, dup := g.vals[off]; !dup {
			g.offs = append(g.offs, off)
		}
		g.vals[off] = w.val
	}
	for _, g := range gs {
		sort.Slice(g.offs, func(i, j int) bool { return g.offs[i] < g.offs[j] })
	}
	return gs
}

func (g *group) intervals() [][2]int64 {
	var out [][2]int64
	for _, o := range g.offs {
		if n := len(out); n > 0 && out[n-1][1] == o {
			out[n-1][1] = o + 1
		} else {
			out = append(out, [2]int64{o, o + 1})
		}
	}
	return out
}

func (lc *loopCut) at(base *Term, off int64) *Term {
	if base.sort != SInt {
		return base
	}
	return lc.x.c.AddK(base, off)
}

// forallIt builds ∀ j<kT. P(j), with the last instance split off for k+1.
func (lc *loopCut) forallIt(kT *Term, next bool, p func(j *Term) *Term) *Term {
	c := lc.x.c
	j := c.FreshB("j", SInt)
	j.meta = &Meta{lo: bigZero}
	hi := kT
	if next {
		hi = lc.k
	}
	q := c.Forall([]*Term{j}, c.Imp(c.And(c.Le(c.zero, j), c.Lt(j, hi)), p(j)))
	if next {
		return c.And(q, p(lc.k))
	}
	return q
}

func (lc *loopCut) existsIt(kT *Term, next bool, p func(j *Term) *Term) *Term {
	c := lc.x.c
	j := c.FreshB("j", SInt)
	j.meta = &Meta{lo: bigZero}
	hi := kT
	if next {
		hi = lc.k
	}
	q := c.Exists([]*Term{j}, c.And(c.Le(c.zero, j), c.Lt(j, hi), p(j)))
	if next {
		return c.Or(q, p(lc.k))
	}
	return q
}

// affineIn reports whether t is a + b*k with b invariant.
func (lc *loopCut) injective(t *Term) bool {
	c := lc.x.c
	p := c.toPoly(t)
	for _, m := range p.terms {
		for _, fct := range monoFactors(m) {
			if fct != lc.k && c.newAfter(fct, lc.mark) {
				return false
			}
		}
	}
	return true
}

func (lc *loopCut) infer(backs []*State) {
	x, c := lc.x, lc.x.c
	lc.cands = nil
	for _, cl := range lc.cells {
		if !cl.row || lc.whole[cl.comp] != nil {
			continue
		}
		cl := cl
		keyS := cl.elemS.key()
		type bw struct {
			guard *Term
			gs    []*group
			cps   []wr
		}
		var all []bw
		usable := true
		for _, b := range backs {
			ws, ok := lc.writesOf(b, cl)
			if !ok {
				usable = false
				break
			}
			g := c.True
			if len(backs) > 1 {
				g = c.And(b.branch[b.loopBr:]...)
			}
			w := bw{guard: g, gs: lc.groups(ws)}
			for _, q := range ws {
				if q.src != nil {
					w.cps = append(w.cps, q)
				}
			}
			all = append(all, w)
		}
		if !usable {
			continue
		}
		gen := func(t *Term, it *Term) *Term {
			return c.Subst(t, lc.histSubst([]*Term{t}, it))
		}
		// values
		for _, w := range all {
			w := w
			for _, g := range w.gs {
				g := g
				lc.cands = append(lc.cands, &cand{name: "value " + cl.comp, mk: func(kT *Term, next bool, row func(*cell) *Term, phi func(*entry) *Term) *Term {
					return lc.forallIt(kT, next, func(j *Term) *Term {
						var eqs []*Term
						for _, o := range g.offs {
							eqs = append(eqs, c.Eq(c.Select(row(cl), gen(lc.at(g.base, o), j)), gen(g.vals[o], j)))
						}
						return c.Imp(gen(w.guard, j), c.And(eqs...))
					})
				}})
			}
			for _, q := range w.cps {
				q := q
				lc.cands = append(lc.cands, &cand{name: "copy " + cl.comp, mk: func(kT *Term, next bool, row func(*cell) *Term, phi func(*entry) *Term) *Term {
					return lc.forallIt(kT, next, func(j *Term) *Term {
						y := c.FreshB("y", SInt)
						off, n, soff := gen(q.idx, j), gen(q.n, j), gen(q.soff, j)
						return c.Imp(gen(w.guard, j), c.Forall([]*Term{y}, c.Imp(c.And(c.Le(off, y), c.Lt(y, c.Add(off, n))),
							c.Eq(c.Select(row(cl), y), c.Select(gen(q.src, j), c.Add(c.Sub(y, off), soff))))))
					})
				}})
			}
		}
		// frame
		hit := func(w bw, y, j *Term) *Term {
			var alts []*Term
			for _, g := range w.gs {
				if keyS != SInt {
					alts = append(alts, c.Eq(y, gen(g.base, j)))
					continue
				}
				for _, iv := range g.intervals() {
					if iv[1] == iv[0]+1 {
						alts = append(alts, c.Eq(y, gen(lc.at(g.base, iv[0]), j)))
					} else {
						alts = append(alts, c.And(c.Le(gen(lc.at(g.base, iv[0]), j), y), c.Lt(y, gen(lc.at(g.base, iv[1]), j))))
					}
				}
			}
			for _, q := range w.cps {
				alts = append(alts, c.And(c.Le(gen(q.idx, j), y), c.Lt(y, gen(c.Add(q.idx, q.n), j))))
			}
			return c.And(gen(w.guard, j), c.Or(alts...))
		}
		any := func(y, j *Term) *Term {
			var alts []*Term
			for _, w := range all {
				alts = append(alts, hit(w, y, j))
			}
			return c.Or(alts...)
		}
		lc.cands = append(lc.cands, &cand{name: "frame " + cl.comp, mk: func(kT *Term, next bool, row func(*cell) *Term, phi func(*entry) *Term) *Term {
			y := c.FreshB("y", keyS)
			return c.Forall([]*Term{y}, c.Or(c.Eq(c.Select(row(cl), y), c.Select(cl.init, y)),
				lc.existsIt(kT, next, func(j *Term) *Term { return any(y, j) })))
		}})
		// writes through a slice stay inside it
		if r := cl.ref; x.lean && keyS == SInt && r.op == OApp && strings.HasSuffix(r.str, ".arr") {
			part := func(n string) *Term { return c.App(strings.TrimSuffix(r.str, "arr")+n, SInt, r.args...) }
			lc.cands = append(lc.cands, &cand{name: "inside " + cl.comp, mk: func(kT *Term, next bool, row func(*cell) *Term, phi func(*entry) *Term) *Term {
				y := c.FreshB("y", keyS)
				return c.Forall([]*Term{y}, c.Or(c.And(c.Le(part("off"), y), c.Lt(y, c.Add(part("off"), part("len")))), c.Eq(c.Select(row(cl), y), c.Select(cl.init, y))))
			}})
		}
		// last write wins
		if len(all) == 1 && len(all[0].gs) == 1 && len(all[0].cps) == 0 && len(all[0].gs[0].offs) == 1 && (keyS != SInt || !lc.injective(all[0].gs[0].base)) {
			g := all[0].gs[0]
			lc.cands = append(lc.cands, &cand{name: "last-write " + cl.comp, mk: func(kT *Term, next bool, row func(*cell) *Term, phi func(*entry) *Term) *Term {
				y := c.FreshB("y", keyS)
				later := func(j *Term) *Term {
					j2 := c.FreshB("j2", SInt)
					hi := kT
					return c.Forall([]*Term{j2}, c.Imp(c.And(c.Lt(j, j2), c.Lt(j2, hi)), c.Not(c.Eq(y, gen(g.base, j2)))))
				}
				return c.Forall([]*Term{y}, c.Or(
					lc.existsIt(kT, next, func(j *Term) *Term {
						return c.And(c.Eq(y, gen(g.base, j)), c.Eq(c.Select(row(cl), y), gen(g.vals[g.offs[0]], j)), later(j))
					}),
					c.And(c.Eq(c.Select(row(cl), y), c.Select(cl.init, y)),
						lc.forallIt(kT, next, func(j *Term) *Term { return c.Not(c.Eq(y, gen(g.base, j))) }))))
			}})
		}
	}
	lc.inferAccum(backs)
}

// inferAccum proposes facts about accumulators (minimum, maximum, monotone sums).
func (lc *loopCut) inferAccum(backs []*State) {
	x, c := lc.x, lc.x.c
	for _, e := range lc.ents {
		if e.inv || e.linear {
			continue
		}
		e := e
		cur := lc.entVal(e, lc.k)
		if e.leaf.sort == SInt && e.leaf.kind != "float" && !x.isFloatCell(e) {
			for _, dir := range []bool{true, false} {
				dir := dir
				lc.cands = append(lc.cands, &cand{name: "monotone " + e.name, mk: func(kT *Term, next bool, row func(*cell) *Term, phi func(*entry) *Term) *Term {
					if dir {
						return c.Le(e.init, phi(e))
					}
					return c.Le(phi(e), e.init)
				}})
			}
			continue
		}
		if e.leaf.sort != SInt {
			continue
		}
		bits := uint(32)
		if e.leaf.size == 8 {
			bits = 64
		}
		// candidate values the accumulator takes
		var vals []*Term
		seen := map[*Term]bool{}
		for _, b := range backs {
			var rec func(t *Term)
			rec = func(t *Term) {
				if t == cur || seen[t] {
					return
				}
				seen[t] = true
				if t.op == OIte {
					rec(t.args[1])
					rec(t.args[2])
					return
				}
				vals = append(vals, t)
			}
			rec(lc.next(b, e))
		}
		if len(vals) == 0 || len(vals) > 4 {
			continue
		}
		gen := func(t *Term, it *Term) *Term {
			return c.Subst(t, lc.histSubst([]*Term{t}, it))
		}
		fle := func(a, b *Term) *Term { return c.Le(x.fkey(a, bits), x.fkey(b, bits)) }
		ok := func(a *Term) *Term { return c.Not(x.fnan(a, bits)) }
		_ = ok
		lc.cands = append(lc.cands, &cand{name: "accumulated " + e.name, mk: func(kT *Term, next bool, row func(*cell) *Term, phi func(*entry) *Term) *Term {
			return c.Or(c.Eq(phi(e), e.init), lc.existsIt(kT, next, func(j *Term) *Term {
				var alts []*Term
				for _, v := range vals {
					alts = append(alts, c.Eq(phi(e), gen(v, j)))
				}
				return c.Or(alts...)
			}))
		}})
		for _, v := range vals {
			v := v
			for _, dir := range []bool{true, false} {
				dir := dir
				lc.cands = append(lc.cands, &cand{name: "extreme " + e.name, mk: func(kT *Term, next bool, row func(*cell) *Term, phi func(*entry) *Term) *Term {
					return lc.forallIt(kT, next, func(j *Term) *Term {
						if dir {
							return fle(phi(e), gen(v, j))
						}
						return fle(gen(v, j), phi(e))
					})
				}})
			}
		}
		for _, dir := range []bool{true, false} {
			dir := dir
			lc.cands = append(lc.cands, &cand{name: "bound " + e.name, mk: func(kT *Term, next bool, row func(*cell) *Term, phi func(*entry) *Term) *Term {
				if dir {
					return fle(phi(e), e.init)
				}
				return fle(e.init, phi(e))
			}})
		}
	}
}

func (x *Exec) isFloatCell(e *entry) bool {
	return e.phi < 0 && (strings.Contains(e.name, "float32") || strings.Contains(e.name, "float64"))
}

func (lc *loopCut) houdini(backs []*State) {
	x, c := lc.x, lc.x.c
	if x.lean {
		for _, cd := range lc.cands {
			if f := strings.Fields(cd.name)[0]; f == "value" || f == "copy" || f == "frame" || f == "last-write" {
				cd.dead = true
			}
		}
		lc.cands = lc.live()
	}
	// base case
	for _, cd := range lc.cands {
		g := cd.mk(c.zero, false, func(cl *cell) *Term { return cl.init }, func(e *entry) *Term { return e.init })
		if !lc.prove(lc.st.facts, g) {
			cd.dead = true
		}
	}
	type stepCtx struct {
		facts []*Term
		rows  map[*cell]*Term
		phis  map[*entry]*Term
	}
	var ctxs []*stepCtx
	for _, b := range backs {
		sc := &stepCtx{rows: map[*cell]*Term{}, phis: map[*entry]*Term{}}
		facts := append([]*Term(nil), b.facts...)
		old := x.curState
		x.curState = b
		for _, cl := range lc.cells {
			if cl.e != nil || lc.whole[cl.comp] != nil {
				continue
			}
			var extra []*Term
			sc.rows[cl], extra = lc.nextRow(b, cl)
			facts = append(facts, extra...)
		}
		for _, e := range lc.ents {
			sc.phis[e] = lc.next(b, e)
		}
		x.curState = old
		// rename body symbols to history at k
		var all []*Term
		all = append(all, facts...)
		for _, r := range sc.rows {
			all = append(all, r)
		}
		for _, r := range sc.phis {
			all = append(all, r)
		}
		m := lc.histSubst(all, lc.k)
		delete(m, lc.k)
		if len(m) > 0 {
			for i := range facts {
				facts[i] = c.Subst(facts[i], m)
			}
			for cl, r := range sc.rows {
				sc.rows[cl] = c.Subst(r, m)
			}
			for e, r := range sc.phis {
				sc.phis[e] = c.Subst(r, m)
			}
		}
		sc.facts = facts
		ctxs = append(ctxs, sc)
	}
	dbg := os.Getenv("VDEBUG") != ""
	for {
		removed := false
		var hyp []*Term
		for _, cd := range lc.live() {
			hyp = append(hyp, cd.mk(lc.k, false, func(cl *cell) *Term { return lc.cellVal(cl, lc.k) }, func(e *entry) *Term { return lc.entVal(e, lc.k) }))
		}
		for _, cd := range lc.live() {
			for _, sc := range ctxs {
				sc := sc
				g := cd.mk(c.AddK(lc.k, 1), true, func(cl *cell) *Term {
					if cl.e != nil {
						return sc.phis[cl.e]
					}
					return sc.rows[cl]
				}, func(e *entry) *Term { return sc.phis[e] })
				facts := append(append([]*Term(nil), sc.facts...), hyp...)
				if !lc.proveParts(facts, g) {
					if dbg {
						fmt.Fprintf(os.Stderr, "   loop cand dropped: %s\n", cd.name)
						if os.Getenv("VDEBUG") == "3" {
							r := c.Prove(facts, g, []*Term{lc.k}, 4000, true)
							os.WriteFile("/tmp/vc_cand.smt2", []byte(r.Script), 0o644)
							fmt.Fprintf(os.Stderr, "   goal %s\n", g.show(14))
						}
					}
					cd.dead = true
					removed = true
					break
				}
			}
		}
		if !removed {
			return
		}
	}
}

func (lc *loopCut) proveParts(facts []*Term, g *Term) bool {
	n := lc.x.c.nnf(g, true)
	if n.op == OAnd && len(n.args) <= 12 {
		for _, p := range n.args {
			if !lc.prove(facts, p) {
				return false
			}
		}
		return true
	}
	return lc.prove(facts, n)
}

// nextRow is the row of cl after the back edge; runs of element stores are
// presented as one block copy.
func (lc *loopCut) nextRow(b *State, cl *cell) (*Term, []*Term) {
	c := lc.x.c
	raw := c.Select(b.heap[cl.comp], cl.ref)
	ws, ok := lc.writesOf(b, cl)
	if !ok || cl.elemS.key() != SInt {
		return raw, nil
	}
	gs := lc.groups(ws)
	n := 0
	for _, w := range ws {
		if w.src != nil {
			n++
		}
	}
	if len(gs) != 1 || n > 0 || len(gs[0].offs) < 4 {
		return raw, nil
	}
	g := gs[0]
	var facts []*Term
	row := lc.cellVal(cl, lc.k)
	blk := c.Fresh("blk", cl.elemS)
	for _, o := range g.offs {
		facts = append(facts, c.Eq(c.Select(blk, c.Int(o)), g.vals[o]))
	}
	for _, iv := range g.intervals() {
		row = c.Copy(row, c.AddK(g.base, iv[0]), blk, c.Int(iv[0]), c.Int(iv[1]-iv[0]))
	}
	return row, facts
}

func (lc *loopCut) dump(where string) {
	fmt.Fprintf(os.Stderr, "  loop %s in %s:", where, lc.f.fn.Name())
	for _, e := range lc.ents {
		k := "hist"
		if e.inv {
			k = "inv"
		} else if e.linear {
			k = "lin+" + e.delta.String()
		}
		fmt.Fprintf(os.Stderr, " %s:%s", e.name, k)
	}
	fmt.Fprintf(os.Stderr, " cells:")
	for _, cl := range lc.cells {
		fmt.Fprintf(os.Stderr, " %s", cl.comp)
	}
	fmt.Fprintf(os.Stderr, " whole:%d alloc:%d facts:", len(lc.whole), len(lc.alloc))
	for _, cd := range lc.live() {
		fmt.Fprintf(os.Stderr, " [%s]", cd.name)
	}
	fmt.Fprintln(os.Stderr)
}

// ---- map and string iteration ----

type iterVal struct {
	ref  *Term // iterator object (cell "I|pos")
	m    *Term
	typ  *types.Map
	n    *Term
	keys *Term // Arr(SInt, keysort)
	pos  *Term
	has  *Term // snapshot of the key set
	str  *Term
}

func (x *Exec) rangeIter(st *State, f *Frame, in *ssa.Range) Value {
	c := x.c
	it := &iterVal{}
	it.ref = x.newRef(st, "iter")
	x.iterSet(st, it.ref, c.zero)
	mt, ok := under(in.X.Type()).(*types.Map)
	if !ok {
		x.unsupported("range over string")
	}
	x.lockCheck(st, f, in.X, false)
	it.typ = mt
	it.m = x.term(x.get(st, f, in.X))
	ks := x.keySort(mt.Key())
	it.n = x.mapLen(st, mt, it.m)
	h, _, _ := x.mapNames(mt)
	cm := x.comp(st, h, Arr(SInt, Arr(ks, SBool)), nil)
	it.has = c.Select(cm, it.m)
	if it.n == c.zero {
		return it
	}
	it.keys = c.Fresh("mkeys", Arr(SInt, ks))
	if ks == SInt {
		it.keys.meta = x.leaves(mt.Key())[0].meta
	}
	it.pos = c.Fresh("mpos", Arr(ks, SInt))
	key := c.FreshB("key", ks)
	j := c.FreshB("j", SInt)
	nz := c.Not(c.Eq(it.m, c.zero))
	p := c.Select(it.pos, key)
	st.facts = append(st.facts,
		c.Forall([]*Term{key}, c.Or(c.Not(c.And(nz, c.Select(it.has, key))), c.And(c.Le(c.zero, p), c.Lt(p, it.n), c.Eq(c.Select(it.keys, p), key)))),
		c.Forall([]*Term{j}, c.Imp(c.And(c.Le(c.zero, j), c.Lt(j, it.n)), c.And(nz, c.Select(it.has, c.Select(it.keys, j)), c.Eq(c.Select(it.pos, c.Select(it.keys, j)), j)))))
	return it
}

func (x *Exec) iterSet(st *State, ref, v *Term) {
	name := "I|pos"
	cm := x.comp(st, name, Arr(SInt, SInt), rngMeta(0, 1<<62))
	st.heap[name] = x.c.Store(cm, ref, v)
	if st.logOn {
		st.log = append(st.log, write{comp: name, ref: ref, val: v})
	}
}

func (x *Exec) nextIter(st *State, f *Frame, in *ssa.Next) Value {
	c := x.c
	it, ok := x.get(st, f, in.Iter).(*iterVal)
	if !ok || in.IsString {
		x.unsupported("iteration over string")
	}
	cm := x.comp(st, "I|pos", Arr(SInt, SInt), rngMeta(0, 1<<62))
	p := c.Select(cm, it.ref)
	okT := c.Lt(p, it.n)
	if it.keys == nil {
		return Tuple{c.False, x.zeroVal(it.typ.Key()), x.zeroVal(it.typ.Elem())}
	}
	key := c.Select(it.keys, p)
	x.iterSet(st, it.ref, c.AddK(p, 1))
	ts := []*Term{key}
	kv := x.unflatten(st, it.typ.Key(), &ts)
	return Tuple{okT, kv, x.mapVal(st, it.typ, it.m, key)}
}
