package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Exec is one verification task: a harness executed symbolically over the SSA
// form of the code under verification.
type Exec struct {
	c  *Ctx
	ld *Loader
	h  *Harness

	leafCache map[string][]leaf
	tkCache   map[types.Type]string
	tkIDs     map[string]int
	tkNames   map[string]string
	tags      map[string]int
	tagTypes  map[int]types.Type
	addrs     map[string]*Ptr
	funcs     []*Func
	seq       map[*Term]int
	nseq      int
	isAlloc   map[*Term]bool
	privOK    map[*ssa.Alloc]bool
	lamBase   map[*Term]*Term // loop-allocated overlay -> component it preserves below the loop's watermark
	privs     map[string]privInfo
	compInfo  map[string]compInfo
	heap0     map[string]*Term
	wm0       *Term
	curState  *State

	pureTyping []*Term
	globals    map[*ssa.Global]Value
	split      int
	nsplit     int

	dry      int
	steps    int
	maxStep  int
	start    time.Time
	limit    time.Duration
	obls     []*Obl
	oblIdx   map[string]*Obl
	used     map[string]bool // models / trusted functions used
	inlined  map[string]bool
	feasC    map[string]int
	nfeas    int
	reads    map[*Term]bool
	bodyLim  int
	histOf   map[*Term]bool
	fpMode   bool
	lean     bool
	exits    int
	loops    map[string]string
	strRows  map[*Term]*Term
	bstr     map[[3]*Term]*Term
	reach    map[string]bool
	inInit   bool
	envCalls []envCall
}

type Obl struct {
	Label  string
	Kind   string
	Pos    string
	Msg    string
	N      int // path instances
	Proved int
	By     map[string]int
	Status string // worst status: proved, failed, unknown
	Hints  []string
	Script string
	Trace  []string
	MS     int64
}

type unsupportedErr struct{ msg string }
type forkReq struct{ cond *Term }

func (x *Exec) unsupported(f string, a ...interface{}) {
	panic(unsupportedErr{fmt.Sprintf(f, a...)})
}

func (x *Exec) needFork(cond *Term) { panic(forkReq{cond}) }

func NewExec(ld *Loader, h *Harness) *Exec {
	x := &Exec{c: NewCtx(), ld: ld, h: h,
		leafCache: map[string][]leaf{}, tkCache: map[types.Type]string{}, tkIDs: map[string]int{}, tkNames: map[string]string{},
		tags: map[string]int{}, tagTypes: map[int]types.Type{}, addrs: map[string]*Ptr{}, seq: map[*Term]int{}, isAlloc: map[*Term]bool{}, privOK: map[*ssa.Alloc]bool{}, lamBase: map[*Term]*Term{}, privs: map[string]privInfo{},
		compInfo: map[string]compInfo{}, globals: map[*ssa.Global]Value{}, oblIdx: map[string]*Obl{}, used: map[string]bool{}, inlined: map[string]bool{},
		feasC: map[string]int{}, maxStep: 3000000, start: time.Now(), limit: 600 * time.Second, histOf: map[*Term]bool{}, loops: map[string]string{}, strRows: map[*Term]*Term{}, bstr: map[[3]*Term]*Term{}, reach: map[string]bool{},
	}
	x.c.distinctHook = x.distinct
	x.c.x = x
	x.wm0 = x.c.Sym("wm0", SInt)
	x.wm0.meta = &Meta{lo: big.NewInt(1 << 30)}
	x.noteSeq(x.wm0)
	return x
}

func (x *Exec) newState() *State {
	return &State{fset: newFactSet(), heap: map[string]*Term{}, wm: x.wm0, ghost: map[string]*Term{}}
}

// ---------- obligations ----------

func (x *Exec) pos(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if f.block == nil {
			continue
		}
		pc := f.pc
		for _, d := range []int{0, -1, 1, -2, -3} {
			if pc+d >= 0 && pc+d < len(f.block.Instrs) {
				if p := f.block.Instrs[pc+d].Pos(); p.IsValid() {
					ps := x.ld.prog.Fset.Position(p)
					return fmt.Sprintf("%s:%d", x.ld.relPath(ps.Filename), ps.Line)
				}
			}
		}
	}
	return "?"
}

func (x *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := x.ld.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", x.ld.relPath(ps.Filename), ps.Line)
}

func (x *Exec) curFn(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		if st.frames[i].fn != nil {
			return fnName(st.frames[i].fn)
		}
	}
	return "?"
}

func fnName(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, "github.com/qmuntal/gltf/", "")
	s = strings.ReplaceAll(s, "github.com/qmuntal/", "")
	return s
}

// check discharges an automatic (safety) obligation and then assumes it.
func (x *Exec) check(st *State, kind string, cond *Term, msg string) {
	if st.pure > 0 {
		return
	}
	x.checkL(st, x.h.Name+"."+kind+"@"+x.curFn(st), kind, cond, msg)
}

func (x *Exec) checkL(st *State, label, kind string, cond *Term, msg string) {
	if x.dry > 0 {
		x.assume(st, cond)
		return
	}
	if st.dead {
		return
	}
	pos := x.pos(st)
	key := label + "|" + msg + "|" + pos
	o := x.oblIdx[key]
	if o == nil {
		o = &Obl{Label: label, Kind: kind, Pos: pos, Msg: msg, Status: "proved", By: map[string]int{}}
		x.oblIdx[key] = o
		x.obls = append(x.obls, o)
	}
	o.N++
	if st.fset.has(cond.id) {
		o.Proved++
		o.By["path-condition"]++
		return
	}
	if o.Status != "proved" {
		// already undecided on another path
		x.assume(st, cond)
		return
	}
	t0 := time.Now()
	// split conjunctions
	r := x.proveGoal(st, cond)
	o.MS += time.Since(t0).Milliseconds()
	if r.Status == "unsat" {
		o.Proved++
		o.By[r.By]++
	} else {
		s := "unknown"
		if r.Status == "sat" {
			s = "failed"
		}
		if o.Status == "proved" || s == "failed" && o.Status != "failed" {
			o.Status = s
			o.Hints = r.Hints
			o.Script = r.Script
			o.Trace = append([]string(nil), st.trace...)
		}
		if os.Getenv("VDEBUG") != "" {
			fmt.Fprintf(os.Stderr, "  OBL %s %s [%s] %s at %s\n", s, label, kind, msg, pos)
			if os.Getenv("VDEBUG") == "2" {
				fmt.Fprintf(os.Stderr, "   goal %s\n   trace %v\n", cond.show(12), st.trace)
				for _, b := range st.branch {
					fmt.Fprintf(os.Stderr, "     br %s\n", b.show(8))
				}
			}
			os.WriteFile(fmt.Sprintf("/tmp/vc_fail%s.smt2", os.Getenv("VFAIL")), []byte(r.Script), 0o644)
			os.WriteFile(fmt.Sprintf("/tmp/vcs/%s_%d.smt2", label, x.c.nsym), []byte(r.Script), 0o644)
		}
	}
	x.assume(st, cond)
}

func (x *Exec) proveGoal(st *State, cond *Term) Result {
	c := x.c
	n := c.nnf(cond, true)
	parts := []*Term{n}
	if n.op == OAnd {
		parts = n.args
		if len(parts) > 40 {
			parts = []*Term{n}
		}
	}
	last := Result{Status: "unsat", By: "simplifier"}
	facts := st.facts
	for _, p := range parts {
		if st.fset.has(p.id) {
			continue
		}
		r := c.Prove(facts, p, st.cands, x.ld.timeoutMS, true)
		if r.Status != "unsat" {
			return r
		}
		if r.By != "simplifier" {
			last = r
		}
	}
	return last
}

// known decides a condition from the path facts: 1 true, -1 false, 0 open.
func (x *Exec) known(st *State, t *Term) int {
	if t == x.c.True {
		return 1
	}
	if t == x.c.False {
		return -1
	}
	if st.fset.has(t.id) {
		return 1
	}
	if st.fset.has(x.c.Not(t).id) {
		return -1
	}
	switch t.op {
	case OEq0:
		if k := st.polyConst(t.args[0]); k != nil {
			if k.Sign() == 0 {
				return 1
			}
			return -1
		}
	case OGe0:
		if k := st.polyConst(t.args[0]); k != nil {
			if k.Sign() >= 0 {
				return 1
			}
			return -1
		}
	case ONot:
		return -x.known(st, t.args[0])
	case OAnd, OOr:
		if len(t.args) > 300 {
			return 0
		}
		end := -1
		if t.op == OOr {
			end = 1
		}
		all := true
		for _, a := range t.args {
			k := x.known(st, a)
			if k == end {
				return end
			}
			if k == 0 {
				all = false
			}
		}
		if all {
			return -end
		}
	}
	return 0
}

// entails asks the solver quickly.
func (x *Exec) entails(st *State, t *Term) bool {
	switch x.known(st, t) {
	case 1:
		return true
	case -1:
		return false
	}
	if t.hasB {
		return false
	}
	x.nfeas++
	facts := x.relevant(st, t)
	if x.lean {
		var g []*Term
		for _, f := range facts {
			if !hasQuant(f) {
				g = append(g, f)
			}
		}
		facts = g
	}
	return x.c.Prove(facts, t, nil, 800, false).Status == "unsat"
}

// relevant selects the ground facts connected with t (plus quantified facts
// only when the state is small): used for quick feasibility questions only.
func (x *Exec) relevant(st *State, t *Term) []*Term {
	if len(st.facts) < 60 {
		return st.facts
	}
	syms := map[*Term]bool{}
	x.c.symsOf(t, syms)
	used := make([]bool, len(st.facts))
	var out []*Term
	for round := 0; round < 4; round++ {
		ch := false
		for i, f := range st.facts {
			if used[i] {
				continue
			}
			fs := x.c.symset(f)
			hit := false
			for _, s := range fs {
				if syms[s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				out = append(out, f)
				if len(fs) < 40 {
					for _, s := range fs {
						syms[s] = true
					}
				}
			}
		}
		if !ch {
			break
		}
	}
	return out
}

// ---------- run loop ----------

func (x *Exec) push(st *State, f *Frame) {
	if len(st.frames) > 60 {
		x.unsupported("call depth (recursion without contract) in %s", f.fn)
	}
	st.frames = append(st.frames, f)
}

// run executes until every path stops (stop returns true), finishes or dies.
func (x *Exec) run(init []*State, stop func(*State) bool) (stopped, finished []*State) {
	work := append([]*State(nil), init...)
	prev := x.curState
	defer func() { x.curState = prev }()
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		x.curState = st
		for {
			if st.dead {
				break
			}
			if len(st.frames) == 0 {
				finished = append(finished, st)
				break
			}
			if stop != nil && stop(st) {
				stopped = append(stopped, st)
				break
			}
			x.steps++
			if x.steps > x.maxStep {
				x.unsupported("step budget exhausted")
			}
			if x.steps&255 == 0 && time.Since(x.start) > x.limit {
				x.unsupported("time budget exhausted")
			}
			succ := x.safeStep(st)
			if succ == nil {
				continue
			}
			for i := len(succ) - 1; i >= 1; i-- {
				work = append(work, succ[i])
			}
			if len(succ) == 0 {
				break
			}
			st = succ[0]
			x.curState = st
		}
	}
	return
}

// safeStep handles fork requests raised in the middle of an instruction.
func (x *Exec) safeStep(st *State) (succ []*State) {
	f := st.top()
	pc, blk, prev := f.pc, f.block, f.prev
	nf := len(st.frames)
	defer func() {
		if r := recover(); r != nil {
			if fr, ok := r.(forkReq); ok {
				if len(st.frames) != nf || st.top() != f {
					panic(unsupportedErr{"fork request across frames"})
				}
				f.pc, f.block, f.prev = pc, blk, prev
				succ = x.fork(st, fr.cond)
				if succ == nil {
					succ = []*State{st}
				}
				return
			}
			panic(r)
		}
	}()
	return x.step(st)
}

// fork splits st on cond; returns nil if the condition is already decided
// (st continues).
func (x *Exec) fork(st *State, cond *Term) []*State {
	t, e := x.branchOn(st, cond)
	var out []*State
	if t != nil {
		out = append(out, t)
	}
	if e != nil {
		out = append(out, e)
	}
	return out
}

func (x *Exec) branchOn(st *State, cond *Term) (t, e *State) {
	c := x.c
	switch x.known(st, cond) {
	case 1:
		return st, nil
	case -1:
		return nil, st
	}
	if vtrace {
		fmt.Fprintf(os.Stderr, "ASK d%d pure%d facts%d %s  %s\n", len(st.branch), st.pure, len(st.facts), x.pos(st), cond.show(4))
	}
	nc := c.Not(cond)
	if !cond.hasB && st.pure == 0 {
		if x.entails(st, cond) {
			x.assume(st, cond)
			return st, nil
		}
		if x.entails(st, nc) {
			x.assume(st, nc)
			return nil, st
		}
	}
	if vtrace {
		fmt.Fprintf(os.Stderr, "FORK d%d pure%d facts%d %s  %s\n", len(st.branch), st.pure, len(st.facts), x.pos(st), cond.show(4))
	}
	o := st.clone()
	x.curState = st
	x.assume(st, cond)
	st.branch = append(st.branch, cond)
	x.curState = o
	x.assume(o, nc)
	o.branch = append(o.branch, nc)
	x.curState = st
	return st, o
}

func (x *Exec) setReg(f *Frame, v ssa.Value, val Value) { f.regs[v] = val }

func (x *Exec) get(st *State, f *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &Func{fn: v}
	case *ssa.Builtin:
		return &Func{model: "builtin:" + v.Name()}
	case *ssa.Global:
		return x.globalPtr(v)
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == v {
				return f.binds[i]
			}
		}
	}
	r, ok := f.regs[v]
	if !ok {
		x.unsupported("register %s of %s not set", v.Name(), f.fn)
	}
	return r
}

func (x *Exec) globalPtr(g *ssa.Global) Value {
	if v, ok := x.globals[g]; ok {
		return v
	}
	el := g.Type().(*types.Pointer).Elem()
	id := x.c.Int(int64(1000 + len(x.globals)))
	var v Value
	if at, ok := under(el).(*types.Array); ok {
		v = &ArrPtr{arr: id, elem: at.Elem(), n: at.Len(), typ: el}
	} else {
		v = &Ptr{base: id, root: el}
	}
	x.globals[g] = v
	return v
}

// ArrPtr points to an array whose elements live in an element backing store.
type ArrPtr struct {
	arr  *Term
	elem types.Type
	n    int64
	typ  types.Type
}

func (x *Exec) term(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		x.unsupported("expected scalar, got %T", v)
	}
	return t
}

func (x *Exec) jump(st *State, f *Frame, to *ssa.BasicBlock) {
	f.prev = f.block
	f.block = to
	f.pc = 0
}

func (x *Exec) evalPhis(st *State, f *Frame) {
	idx := -1
	for i, p := range f.block.Preds {
		if p == f.prev {
			idx = i
			break
		}
	}
	var vals []Value
	n := 0
	for _, in := range f.block.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.get(st, f, ph.Edges[idx]))
		n++
	}
	for i := 0; i < n; i++ {
		f.regs[f.block.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	f.pc = n
}

func (x *Exec) step(st *State) []*State {
	f := st.top()
	if f.pc == 0 {
		if lp := x.ld.loopAt(f.fn, f.block); lp != nil && f.prev != nil {
			if r, handled := x.enterLoop(st, f, lp); handled {
				return r
			}
			return nil
		}
		if f.prev != nil {
			if _, ok := f.block.Instrs[0].(*ssa.Phi); ok {
				x.evalPhis(st, f)
				return nil
			}
		}
	}
	in := f.block.Instrs[f.pc]
	switch in := in.(type) {
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Jump:
		x.jump(st, f, f.block.Succs[0])
	case *ssa.If:
		cond := x.term(x.get(st, f, in.Cond))
		bt, bf := f.block.Succs[0], f.block.Succs[1]
		t, e := x.branchOn(st, cond)
		var out []*State
		if t != nil {
			x.jump(t, t.top(), bt)
			out = append(out, t)
		}
		if e != nil {
			x.jump(e, e.top(), bf)
			out = append(out, e)
		}
		if t != nil && e != nil && x.dry == 0 && st.pure == 0 {
			p := x.posOf(in.Cond.Pos())
			t.trace = append(t.trace, p+"=T")
			e.trace = append(e.trace, p+"=F")
		}
		if len(out) == 1 && out[0] == st {
			return nil
		}
		return out
	case *ssa.Return:
		var v Value
		switch len(in.Results) {
		case 0:
		case 1:
			v = x.get(st, f, in.Results[0])
		default:
			t := make(Tuple, len(in.Results))
			for i, r := range in.Results {
				t[i] = x.get(st, f, r)
			}
			v = t
		}
		return x.ret(st, f, v)
	case *ssa.RunDefers:
		return x.runDefers(st, f)
	case *ssa.Panic:
		v := x.get(st, f, in.X)
		return x.doPanic(st, "explicit panic: "+x.describe(v))
	case *ssa.Call:
		return x.call(st, f, &in.Call, in)
	case *ssa.Defer:
		x.deferCall(st, f, &in.Call)
		f.pc++
	case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
		x.unsupported("concurrency instruction %s", in)
	case *ssa.Store:
		v := x.get(st, f, in.Val)
		a := x.get(st, f, in.Addr)
		if r, fk := x.derefCheck(st, f, a); fk {
			return r
		}
		x.storeTo(st, a, in.Val.Type(), v)
		f.pc++
	case *ssa.MapUpdate:
		m := x.term(x.get(st, f, in.Map))
		if r, fk := x.panicIf(st, x.c.Eq(m, x.c.zero), "assignment to entry in nil map"); fk {
			return r
		}
		mt := under(in.Map.Type()).(*types.Map)
		x.lockCheck(st, f, in.Map, true)
		k := x.mapKey(st, x.get(st, f, in.Key), mt.Key())
		x.mapSet(st, mt, m, k, x.get(st, f, in.Value))
		f.pc++
	default:
		if v, ok := in.(ssa.Value); ok {
			return x.evalInstr(st, f, v)
		}
		x.unsupported("instruction %T", in)
	}
	return nil
}

func (x *Exec) describe(v Value) string {
	if i, ok := v.(*Iface); ok && i.dyn != nil {
		if t, ok := i.val.(*Term); ok && t.op == OStr {
			return t.str
		}
		return types.TypeString(i.dyn, nil)
	}
	return ""
}

func (x *Exec) ret(st *State, f *Frame, v Value) []*State {
	st.frames = st.frames[:len(st.frames)-1]
	if f.isContract {
		if !f.called {
			x.unsupported("contract %s does not call its target on this path", f.fn)
		}
		v = x.solvedResult(st, f.result, f.assume.Signature.Results())
	} else if f.onRet != nil {
		v = f.onRet(st, v)
	}
	if len(st.frames) == 0 {
		st.rootMods = f.mods
		st.nret = v
		st.done = true
		return nil
	}
	g := st.top()
	if f.catch {
		v = x.c.False // no panic
	}
	if f.dest != nil {
		g.regs[f.dest] = v
	}
	g.pc++
	return nil
}

// solvedResult replaces result symbols that the postconditions determine.
func (x *Exec) solvedResult(st *State, v Value, rs *types.Tuple) Value {
	if v == nil || rs.Len() == 0 {
		return v
	}
	var t types.Type = rs
	if rs.Len() == 1 {
		t = rs.At(0).Type()
	}
	if _, is := v.(Tuple); is {
		tp := v.(Tuple)
		out := make(Tuple, len(tp))
		for i := range tp {
			out[i] = x.solvedLeafs(st, tp[i], rs.At(i).Type())
		}
		return out
	}
	return x.solvedLeafs(st, v, t)
}

func (x *Exec) solvedLeafs(st *State, v Value, t types.Type) Value {
	tm, is := v.(*Term)
	if !is || tm.op != OSym || tm.sort != SInt {
		return v
	}
	for i := len(st.facts) - 1; i >= 0 && i > len(st.facts)-60; i-- {
		f := st.facts[i]
		if f.op != OEq0 {
			continue
		}
		if s := x.c.solveFor(f.args[0], tm, x.c.zero); s != nil && s != tm {
			bad := false
			for _, y := range x.c.symset(s) {
				if y == tm {
					bad = true
				}
			}
			if !bad {
				return s
			}
		}
	}
	return v
}

// panicIf handles a possible panic; fk true means the returned states replace st.
func (x *Exec) panicIf(st *State, cond *Term, msg string) ([]*State, bool) {
	if cond == x.c.False || st.pure > 0 {
		return nil, false
	}
	if x.known(st, cond) == -1 {
		return nil, false
	}
	if x.catchIdx(st) < 0 {
		x.check(st, "no-panic", x.c.Not(cond), msg)
		return nil, st.dead && func() bool { return true }() && false
	}
	if x.entails(st, x.c.Not(cond)) {
		x.assume(st, x.c.Not(cond))
		return nil, false
	}
	// fork: panicking path is unwound
	p := st.clone()
	x.assume(p, cond)
	p.branch = append(p.branch, cond)
	p.trace = append(p.trace, x.pos(st)+" panics: "+msg)
	x.assume(st, x.c.Not(cond))
	st.branch = append(st.branch, x.c.Not(cond))
	var out []*State
	if !st.dead {
		out = append(out, st) // instruction is re-executed
	}
	if !p.dead {
		out = append(out, x.doPanic(p, msg)...)
	}
	return out, true
}

func (x *Exec) catchIdx(st *State) int {
	for i := len(st.frames) - 1; i >= 0; i-- {
		if st.frames[i].catch {
			return i
		}
	}
	return -1
}

func (x *Exec) doPanic(st *State, msg string) []*State {
	if st.pure > 0 {
		st.dead = true
		return []*State{}
	}
	ci := x.catchIdx(st)
	if ci < 0 {
		x.check(st, "no-panic", x.c.False, msg)
		st.dead = true
		return []*State{}
	}
	// deferred calls are not run on the panic path (pool Put / unlocks only)
	f := st.frames[ci]
	st.frames = st.frames[:ci]
	g := st.top()
	if f.dest != nil {
		g.regs[f.dest] = x.c.True
	}
	g.pc++
	return []*State{st}
}

func (x *Exec) derefCheck(st *State, f *Frame, a Value) ([]*State, bool) {
	switch p := a.(type) {
	case *Ptr:
		if p.elem {
			return nil, false
		}
		return x.panicIf(st, x.c.Eq(p.base, x.c.zero), "nil pointer dereference")
	case *ArrPtr:
		return nil, false
	}
	x.unsupported("dereference of %T", a)
	return nil, false
}

func (x *Exec) loadFrom(st *State, a Value, t types.Type) Value {
	switch p := a.(type) {
	case *Ptr:
		return x.load(st, p, t)
	case *ArrPtr:
		at, ok := under(t).(*types.Array)
		if !ok || at.Len() != p.n || x.typeKey(at.Elem()) != x.typeKey(p.elem) {
			// reinterpretation of array memory
			if ok && at.Len() == p.n {
				ag := &Agg{typ: t, f: make([]Value, p.n)}
				for i := range ag.f {
					ag.f[i] = x.load(st, &Ptr{base: p.arr, root: p.elem, elem: true, idx: x.c.Int(int64(i))}, at.Elem())
				}
				return ag
			}
			x.unsupported("load of %s through array pointer", t)
		}
		ag := &Agg{typ: t, f: make([]Value, p.n)}
		for i := range ag.f {
			ag.f[i] = x.load(st, &Ptr{base: p.arr, root: p.elem, elem: true, idx: x.c.Int(int64(i))}, p.elem)
		}
		return ag
	}
	x.unsupported("load from %T", a)
	return nil
}

func (x *Exec) storeTo(st *State, a Value, t types.Type, v Value) {
	switch p := a.(type) {
	case *Ptr:
		x.store(st, p, t, v)
		return
	case *ArrPtr:
		ag, ok := v.(*Agg)
		if !ok || int64(len(ag.f)) != p.n {
			x.unsupported("store of %s through array pointer", t)
		}
		et := under(t).(*types.Array).Elem()
		for i := range ag.f {
			x.store(st, &Ptr{base: p.arr, root: p.elem, elem: true, idx: x.c.Int(int64(i))}, et, ag.f[i])
		}
		return
	}
	x.unsupported("store to %T", a)
}

// slicedAlloc: the array allocated here is sliced (or unsafely viewed).
func (x *Exec) slicedAlloc(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch r.(type) {
		case *ssa.Slice:
			return true
		}
	}
	return false
}

func (x *Exec) evalInstr(st *State, f *Frame, v ssa.Value) []*State {
	c := x.c
	set := func(val Value) []*State {
		f.regs[v] = val
		f.pc++
		return nil
	}
	switch in := v.(type) {
	case *ssa.Alloc:
		el := in.Type().(*types.Pointer).Elem()
		if at, ok := under(el).(*types.Array); ok && x.slicedAlloc(in) {
			r := x.newArr(st, at.Elem(), c.Int(at.Len()))
			return set(&ArrPtr{arr: r, elem: at.Elem(), n: at.Len(), typ: el})
		}
		p := &Ptr{root: el}
		if x.privateAlloc(in) {
			d := len(st.frames)
			p.priv = fmt.Sprintf("L|%s.%s@%d|", in.Parent(), in.Name(), d)
			p.base = c.one
			for _, l := range x.leaves(el) {
				x.privs[p.priv+l.path] = privInfo{in, d}
			}
		} else {
			p.base = x.newRef(st, "obj")
		}
		for _, l := range x.leaves(el) {
			x.writeLeaf(st, p, l.path, l, x.zeroLeaf(l))
		}
		return set(p)
	case *ssa.BinOp:
		a, b := x.get(st, f, in.X), x.get(st, f, in.Y)
		if in.Op == token.QUO || in.Op == token.REM {
			if bt, ok := under(in.X.Type()).(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				if r, fk := x.panicIf(st, c.Eq(x.term(b), c.zero), "integer divide by zero"); fk {
					return r
				}
			}
		}
		if in.Op == token.SHL || in.Op == token.SHR {
			if bt, ok := under(in.Y.Type()).(*types.Basic); ok && bt.Info()&types.IsUnsigned == 0 {
				if r, fk := x.panicIf(st, c.Lt(x.term(b), c.zero), "negative shift amount"); fk {
					return r
				}
			}
		}
		return set(x.binop(st, in.Op, a, b, in.X.Type(), in.Y.Type(), in.Type()))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			a := x.get(st, f, in.X)
			if g, ok := in.X.(*ssa.Global); ok && g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
				if types.IsInterface(in.Type()) && in.Type().String() == "error" {
					return set(x.stdErr(g))
				}
				if pt, ok := under(in.Type()).(*types.Pointer); ok {
					return set(&Ptr{base: c.Add(x.globalPtr(g).(*Ptr).base, c.Int(1<<24)), root: pt.Elem()})
				}
			}
			if r, fk := x.derefCheck(st, f, a); fk {
				return r
			}
			return set(x.loadFrom(st, a, in.Type()))
		case token.NOT:
			return set(c.Not(x.term(x.get(st, f, in.X))))
		case token.SUB:
			a := x.term(x.get(st, f, in.X))
			if isFloat(in.X.Type()) {
				return set(x.fneg(a, sizeof(in.X.Type())*8))
			}
			return set(x.wrap(st, c.Neg(a), in.Type()))
		case token.XOR:
			a := x.term(x.get(st, f, in.X))
			return set(x.wrap(st, c.AddK(c.Neg(a), -1), in.Type()))
		}
		x.unsupported("unop %s", in.Op)
	case *ssa.ChangeType:
		return set(x.get(st, f, in.X))
	case *ssa.ChangeInterface:
		return set(x.get(st, f, in.X))
	case *ssa.Convert:
		return set(x.convert(st, x.get(st, f, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		return set(x.convert(st, x.get(st, f, in.X), in.X.Type(), in.Type()))
	case *ssa.MakeInterface:
		val := x.get(st, f, in.X)
		return set(x.mkIface(val, in.X.Type()))
	case *ssa.Extract:
		t, ok := x.get(st, f, in.Tuple).(Tuple)
		if !ok {
			x.unsupported("extract of non tuple")
		}
		return set(t[in.Index])
	case *ssa.Field:
		a, ok := x.get(st, f, in.X).(*Agg)
		if !ok {
			x.unsupported("field of %T", x.get(st, f, in.X))
		}
		return set(a.f[in.Field])
	case *ssa.FieldAddr:
		a := x.get(st, f, in.X)
		p, ok := a.(*Ptr)
		if !ok {
			x.unsupported("fieldaddr of %T", a)
		}
		if !p.elem {
			if r, fk := x.panicIf(st, c.Eq(p.base, c.zero), "nil pointer dereference"); fk {
				return r
			}
		}
		np := *p
		np.path = append(append([]Step(nil), p.path...), Step{f: in.Field})
		return set(&np)
	case *ssa.Index:
		idx := x.term(x.get(st, f, in.Index))
		switch under(in.X.Type()).(type) {
		case *types.Array:
			a := x.get(st, f, in.X).(*Agg)
			if r, fk := x.panicIf(st, x.oob(idx, c.Int(int64(len(a.f)))), "index out of range"); fk {
				return r
			}
			var res Value
			for i := len(a.f) - 1; i >= 0; i-- {
				e := c.Eq(idx, c.Int(int64(i)))
				if e == c.False {
					continue
				}
				if res == nil || e == c.True {
					res = a.f[i]
				} else {
					res = x.iteVal(st, e, a.f[i], res, in.Type())
				}
			}
			return set(res)
		case *types.Basic:
			s := x.term(x.get(st, f, in.X))
			if r, fk := x.panicIf(st, x.oob(idx, x.strLen(s)), "string index out of range"); fk {
				return r
			}
			return set(x.strAt(s, idx))
		}
		x.unsupported("index of %s", in.X.Type())
	case *ssa.IndexAddr:
		a := x.get(st, f, in.X)
		idx := x.term(x.get(st, f, in.Index))
		switch p := a.(type) {
		case *Slice:
			if r, fk := x.panicIf(st, x.oob(idx, p.len), "index out of range"); fk {
				return r
			}
			return set(&Ptr{base: p.arr, root: p.elem, elem: true, idx: c.Add(p.off, idx)})
		case *ArrPtr:
			if r, fk := x.panicIf(st, x.oob(idx, c.Int(p.n)), "index out of range"); fk {
				return r
			}
			return set(&Ptr{base: p.arr, root: p.elem, elem: true, idx: idx})
		case *Ptr:
			at := under(typeAt(p.root, p.path)).(*types.Array)
			if !p.elem {
				if r, fk := x.panicIf(st, c.Eq(p.base, c.zero), "nil pointer dereference"); fk {
					return r
				}
			}
			if r, fk := x.panicIf(st, x.oob(idx, c.Int(at.Len())), "index out of range"); fk {
				return r
			}
			np := *p
			np.path = append([]Step(nil), p.path...)
			if idx.op == OConst {
				np.path = append(np.path, Step{f: int(idx.val.Int64())})
			} else {
				np.path = append(np.path, Step{idx: idx})
			}
			return set(&np)
		}
		x.unsupported("indexaddr of %T", a)
	case *ssa.Slice:
		return x.sliceOp(st, f, in)
	case *ssa.SliceToArrayPointer:
		s := x.get(st, f, in.X).(*Slice)
		at := under(in.Type().(*types.Pointer).Elem()).(*types.Array)
		if r, fk := x.panicIf(st, c.Lt(s.len, c.Int(at.Len())), "slice to array conversion out of range"); fk {
			return r
		}
		if s.off != c.zero {
			x.unsupported("slice to array pointer with offset")
		}
		return set(&ArrPtr{arr: s.arr, elem: s.elem, n: at.Len(), typ: in.Type().(*types.Pointer).Elem()})
	case *ssa.MakeSlice:
		n := x.term(x.get(st, f, in.Len))
		cp := x.term(x.get(st, f, in.Cap))
		if r, fk := x.panicIf(st, c.Or(c.Lt(n, c.zero), c.Lt(cp, n)), "makeslice: len out of range"); fk {
			return r
		}
		el := under(in.Type()).(*types.Slice).Elem()
		x.allocLimit(st, cp, el)
		x.assume(st, c.Le(cp, c.Int(maxLen)))
		r := x.newArr(st, el, cp)
		return set(&Slice{arr: r, off: c.zero, len: n, cap: cp, elem: el})
	case *ssa.MakeMap:
		return set(x.newMap(st, under(in.Type()).(*types.Map)))
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var b []Value
		for _, y := range in.Bindings {
			b = append(b, x.get(st, f, y))
		}
		return set(&Func{fn: fn, binds: b})
	case *ssa.Lookup:
		if isString(in.X.Type()) {
			s := x.term(x.get(st, f, in.X))
			idx := x.term(x.get(st, f, in.Index))
			if r, fk := x.panicIf(st, x.oob(idx, x.strLen(s)), "string index out of range"); fk {
				return r
			}
			return set(x.strAt(s, idx))
		}
		mt := under(in.X.Type()).(*types.Map)
		m := x.term(x.get(st, f, in.X))
		x.lockCheck(st, f, in.X, false)
		k := x.mapKey(st, x.get(st, f, in.Index), mt.Key())
		has := x.mapHas(st, mt, m, k)
		val := x.mapVal(st, mt, m, k)
		if has != c.True {
			val = x.iteVal(st, has, val, x.zeroVal(mt.Elem()), mt.Elem())
		}
		if in.CommaOk {
			return set(Tuple{val, has})
		}
		return set(val)
	case *ssa.TypeAssert:
		return x.typeAssert(st, f, in)
	case *ssa.Range:
		return set(x.rangeIter(st, f, in))
	case *ssa.Next:
		return set(x.nextIter(st, f, in))
	case *ssa.Phi:
		x.evalPhis(st, f)
		return nil
	}
	x.unsupported("instruction %T %s", v, v)
	return nil
}

func (x *Exec) oob(i, n *Term) *Term {
	return x.c.Or(x.c.Lt(i, x.c.zero), x.c.Ge(i, n))
}

func (x *Exec) allocLimit(st *State, n *Term, el types.Type) {}

func (x *Exec) mkIface(val Value, t types.Type) Value {
	if i, ok := val.(*Iface); ok && types.IsInterface(t) {
		return i
	}
	return &Iface{dyn: t, val: val, tag: x.tagOf(t)}
}

func (x *Exec) mapKey(st *State, v Value, t types.Type) *Term {
	return x.flatten(st, v, t)[0]
}

func (x *Exec) sliceOp(st *State, f *Frame, in *ssa.Slice) []*State {
	c := x.c
	get := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return x.term(x.get(st, f, v))
	}
	a := x.get(st, f, in.X)
	lo := get(in.Low, c.zero)
	switch p := a.(type) {
	case *Term:
		if p.sort == SStr {
			n := x.strLen(p)
			hi := get(in.High, n)
			if r, fk := x.panicIf(st, c.Not(c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, n))), "string slice bounds out of range"); fk {
				return r
			}
			f.regs[in] = x.substr(st, p, lo, hi)
			f.pc++
			return nil
		}
	case *Slice:
		hi := get(in.High, p.len)
		mx := get(in.Max, p.cap)
		if r, fk := x.panicIf(st, c.Not(c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, p.cap))), "slice bounds out of range"); fk {
			return r
		}
		s := &Slice{arr: p.arr, off: c.Add(p.off, lo), len: c.Sub(hi, lo), cap: c.Sub(mx, lo), elem: p.elem}
		if lo != c.zero {
			// a slice of capacity zero does not keep an offset
		}
		f.regs[in] = s
		f.pc++
		return nil
	case *ArrPtr:
		n := c.Int(p.n)
		hi := get(in.High, n)
		mx := get(in.Max, n)
		if r, fk := x.panicIf(st, c.Not(c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n))), "slice bounds out of range"); fk {
			return r
		}
		f.regs[in] = &Slice{arr: p.arr, off: lo, len: c.Sub(hi, lo), cap: c.Sub(mx, lo), elem: p.elem}
		f.pc++
		return nil
	case *Ptr:
		// slicing an array inside an object: contents are copied into a
		// read-only snapshot when the slice is only read.
		at, ok := under(typeAt(p.root, p.path)).(*types.Array)
		if ok {
			if r, fk := x.derefCheck(st, f, p); fk {
				return r
			}
			x.used["snapshot-slice-of-embedded-array"] = true
			r := x.newArr(st, at.Elem(), c.Int(at.Len()))
			for i := int64(0); i < at.Len(); i++ {
				np := *p
				np.path = append(append([]Step(nil), p.path...), Step{f: int(i)})
				v := x.load(st, &np, at.Elem())
				x.store(st, &Ptr{base: r, root: at.Elem(), elem: true, idx: c.Int(i)}, at.Elem(), v)
			}
			if !x.readOnlySlice(in) {
				x.unsupported("slice of an array inside an object escapes")
			}
			n := c.Int(at.Len())
			hi := get(in.High, n)
			if r, fk := x.panicIf(st, c.Not(c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, n))), "slice bounds out of range"); fk {
				return r
			}
			f.regs[in] = &Slice{arr: r, off: lo, len: c.Sub(hi, lo), cap: c.Sub(n, lo), elem: at.Elem()}
			f.pc++
			return nil
		}
	}
	x.unsupported("slice of %T", a)
	return nil
}

func (x *Exec) readOnlySlice(in *ssa.Slice) bool {
	for _, r := range *in.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "len" {
					continue
				}
				if (b.Name() == "copy" || b.Name() == "append") && len(r.Call.Args) == 2 && r.Call.Args[1] == in && r.Call.Args[0] != ssa.Value(in) {
					continue
				}
			}
			return false
		case *ssa.IndexAddr:
			for _, q := range *r.Referrers() {
				if u, ok := q.(*ssa.UnOp); !ok || u.Op != token.MUL {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (x *Exec) typeAssert(st *State, f *Frame, in *ssa.TypeAssert) []*State {
	c := x.c
	set := func(val Value) []*State {
		f.regs[in] = val
		f.pc++
		return nil
	}
	v := x.get(st, f, in.X).(*Iface)
	at := in.AssertedType
	var ok *Term
	var val Value
	if types.IsInterface(at) {
		if v.tag == c.zero {
			ok = c.False
		} else if ty := x.dynType(st, v); ty != nil {
			ok = c.Bool(types.Implements(ty, under(at).(*types.Interface)))
		} else if under(at).(*types.Interface).NumMethods() == 0 {
			ok = c.Not(c.Eq(v.tag, c.zero))
		} else {
			ok = c.And(c.Not(c.Eq(v.tag, c.zero)), c.App("implements#"+types.TypeString(at, nil), SBool, v.tag))
		}
		val = v
		if !in.CommaOk {
			if r, fk := x.panicIf(st, c.Not(ok), "interface conversion"); fk {
				return r
			}
			return set(v)
		}
		if ok == c.False {
			val = x.nilIface()
		} else if ok != c.True {
			return x.fork2(st, ok)
		}
		return set(Tuple{val, ok})
	}
	if v.dyn != nil {
		ok = c.Bool(types.Identical(v.dyn, at))
		if ok == c.True {
			val = v.val
		}
	} else {
		ok = c.Eq(v.tag, x.tagOf(at))
		if in.CommaOk && ok != c.True && ok != c.False {
			k := x.known(st, ok)
			if k == 0 {
				return x.fork2(st, ok)
			}
			ok = c.Bool(k > 0)
		}
		if ok != c.False {
			val = x.unboxVal(st, at, v.box)
		}
	}
	if !in.CommaOk {
		if r, fk := x.panicIf(st, c.Not(ok), "interface conversion to "+types.TypeString(at, nil)); fk {
			return r
		}
		if val == nil {
			val = x.zeroVal(at)
		}
		return set(val)
	}
	if x.known(st, ok) == 1 {
		ok = c.True
	} else if x.known(st, ok) == -1 {
		ok = c.False
	}
	if ok == c.False {
		return set(Tuple{x.zeroVal(at), ok})
	}
	if ok == c.True {
		return set(Tuple{val, ok})
	}
	// the zero value on failure matters only if the result is merged: fork
	return x.fork2(st, ok)
}

// fork2 splits the state and re-executes the current instruction.
func (x *Exec) fork2(st *State, cond *Term) []*State {
	r := x.fork(st, cond)
	return r
}

func (x *Exec) dynType(st *State, v *Iface) types.Type {
	if v.dyn != nil {
		return v.dyn
	}
	if v.tag.op == OConst {
		return x.tagTypes[int(v.tag.val.Int64())]
	}
	for id, ty := range x.tagTypes {
		if st.fset.has(x.c.Eq(v.tag, x.c.Int(int64(id))).id) {
			return ty
		}
	}
	return nil
}

// solveType asks the solver for the dynamic type of v.
func (x *Exec) solveType(st *State, v *Iface) *Iface {
	c := x.c
	if v.dyn != nil || v.tag.op == OConst {
		return x.resolveIface(st, v)
	}
	seen := map[int]bool{}
	try := map[int]bool{}
	for _, t := range st.facts {
		walk(t, seen, func(u *Term) {
			if u.op == OEq0 {
				if b, k := c.varConst(u.args[0]); b == v.tag && k.IsInt64() {
					try[int(k.Int64())] = true
				}
			}
		})
	}
	var ids []int
	for id := range try {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	if len(ids) > 8 && x.proveGoal(st, c.False).Status == "unsat" {
		st.dead = true
		return v
	}
	for _, id := range ids {
		if eq := c.Eq(v.tag, c.Int(int64(id))); (id == 0 || x.tagTypes[id] != nil) && x.entails(st, eq) {
			x.assume(st, eq)
			if id == 0 {
				return &Iface{tag: c.zero, box: c.zero}
			}
			return x.resolveIface(st, v)
		}
	}
	return v
}

// resolveIface returns the interface with its dynamic type made explicit when known.
func (x *Exec) resolveIface(st *State, v *Iface) *Iface {
	if v.dyn != nil || v.tag == x.c.zero {
		return v
	}
	if ty := x.dynType(st, v); ty != nil {
		return &Iface{dyn: ty, val: x.unboxVal(st, ty, v.box), tag: x.tagOf(ty), box: v.box}
	}
	return v
}

// ---------- defers ----------

func (x *Exec) deferCall(st *State, f *Frame, cc *ssa.CallCommon) {
	d := deferred{call: cc}
	if cc.IsInvoke() {
		d.fn = x.get(st, f, cc.Value)
	} else {
		d.fn = x.get(st, f, cc.Value)
	}
	for _, a := range cc.Args {
		d.args = append(d.args, x.get(st, f, a))
	}
	f.defers = append(f.defers, d)
}

func (x *Exec) runDefers(st *State, f *Frame) []*State {
	if len(f.defers) == 0 {
		f.pc++
		return nil
	}
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	f.pc-- // the callee's return does pc++, bringing us back to RunDefers
	return x.callWith(st, f, d.call, d.fn, d.args, nil)
}

// ---------- calls ----------

func (x *Exec) call(st *State, f *Frame, cc *ssa.CallCommon, dest ssa.Value) []*State {
	var args []Value
	for _, a := range cc.Args {
		args = append(args, x.get(st, f, a))
	}
	return x.callWith(st, f, cc, x.get(st, f, cc.Value), args, dest)
}

func (x *Exec) callWith(st *State, f *Frame, cc *ssa.CallCommon, fv Value, args []Value, dest ssa.Value) []*State {
	c := x.c
	if cc.IsInvoke() {
		recv, ok := fv.(*Iface)
		if !ok {
			x.unsupported("invoke on %T", fv)
		}
		if r, fk := x.panicIf(st, c.Eq(recv.tag, c.zero), "nil interface method call "+cc.Method.Name()); fk {
			return r
		}
		if rt, ok := recv.val.(*ReflType); ok {
			return x.reflTypeMethod(st, f, cc.Method.Name(), rt, args, dest)
		}
		recv = x.resolveIface(st, recv)
		if recv.dyn == nil {
			// candidate dynamic types
			if r, ok := x.invokeUnknown(st, f, cc, recv, args, dest); ok {
				return r
			}
			x.unsupported("method call %s on interface of unknown dynamic type", cc.Method.Name())
		}
		fn := x.ld.prog.LookupMethod(recv.dyn, cc.Method.Pkg(), cc.Method.Name())
		if fn == nil {
			x.unsupported("no method %s on %s", cc.Method.Name(), recv.dyn)
		}
		return x.callFn(st, f, &Func{fn: fn}, append([]Value{recv.val}, args...), dest)
	}
	switch fn := fv.(type) {
	case *Func:
		return x.callFn(st, f, fn, args, dest)
	}
	x.unsupported("call of %T", fv)
	return nil
}

func (x *Exec) done(st *State, f *Frame, dest ssa.Value, v Value) []*State {
	if dest != nil {
		f.regs[dest] = v
	}
	f.pc++
	return nil
}

func (x *Exec) callFn(st *State, f *Frame, fv *Func, args []Value, dest ssa.Value) []*State {
	if strings.HasPrefix(fv.model, "builtin:") {
		return x.builtin(st, f, fv.model[8:], args, dest)
	}
	if fv.ref != nil {
		if r, fk := x.panicIf(st, x.c.Eq(fv.ref, x.c.zero), "call of nil function"); fk {
			return r
		}
		if fv.ref == x.c.zero {
			st.dead = true
			return []*State{}
		}
		return x.callUnknown(st, f, fv, args, dest)
	}
	fn := fv.fn
	if fn == nil {
		x.unsupported("call of unknown function")
	}
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if r, ok := x.intrinsic(st, f, fn, name, fv, args, dest); ok {
		return r
	}
	// contracts
	if ct := x.contractFor(st, fn); ct != nil {
		return x.applyContract(st, f, ct, fn, args, dest)
	}
	for i := len(st.frames) - 1; i >= 0; i-- {
		fr := st.frames[i]
		if fr.assume != nil && fr.assume == fn {
			return x.assumeCall(st, f, fr, fn, args, dest)
		}
	}
	if m := x.model(fn, name); m != nil {
		if fn.Name() != "init" {
			x.used[name] = true
		}
		return m(st, f, fn, args, dest)
	}
	if len(fn.Blocks) == 0 {
		x.ld.build(fn)
	}
	if len(fn.Blocks) == 0 || !x.inlinable(fn, name) {
		x.unsupported("call of %s (no body, model or contract)", name)
	}
	if isSpecName(fn.Name()) && st.pure == 0 && x.ld.isSpecFn(fn) {
		v := x.evalPure(st, fv, args)
		return x.done(st, f, dest, v)
	}
	if x.ld.isRepo(fn) {
		x.inlined[fnName(fn)] = true
	}
	nf := &Frame{fn: fn, regs: map[ssa.Value]Value{}, block: fn.Blocks[0], dest: dest, binds: fv.binds}
	for i, p := range fn.Params {
		nf.regs[p] = args[i]
	}
	x.push(st, nf)
	return nil
}

// evalPure evaluates a side-effect free function and merges its paths.
func (x *Exec) evalPure(st *State, fv *Func, args []Value) Value {
	fn := fv.fn
	if fn == nil {
		x.unsupported("pure evaluation of unknown function")
	}
	if len(fn.Blocks) == 0 {
		x.ld.build(fn)
	}
	if len(fn.Blocks) == 0 {
		x.unsupported("pure evaluation of %s: no body", fn)
	}
	b := st.clone()
	b.frames = nil
	b.pure++
	b.branch = nil
	b.logOn = false
	nf := &Frame{fn: fn, regs: map[ssa.Value]Value{}, block: fn.Blocks[0], binds: fv.binds}
	for i, p := range fn.Params {
		nf.regs[p] = args[i]
	}
	b.frames = []*Frame{nf}
	savePT := x.pureTyping
	x.pureTyping = nil
	_, fin := x.run([]*State{b}, nil)
	pt := x.pureTyping
	x.pureTyping = savePT
	x.curState = st
	for _, t := range pt {
		if !st.fset.has(t.id) {
			x.typing(st, t)
		}
	}
	x.pureTyping = append(x.pureTyping, pt...)
	if len(fin) == 0 {
		// every path is infeasible or panics: value irrelevant
		x.unsupported("pure evaluation of %s has no outcome", fn)
	}
	if st.wm != nil {
		// allocations made by pure code are dropped
	}
	rt := fn.Signature.Results()
	if rt.Len() == 0 {
		return nil
	}
	var typ types.Type = rt
	if rt.Len() == 1 {
		typ = rt.At(0).Type()
	}
	res := fin[len(fin)-1].nret
	for i := len(fin) - 2; i >= 0; i-- {
		cd := x.c.And(fin[i].branch...)
		res = x.iteVal(st, cd, fin[i].nret, res, typ)
	}
	return res
}

func (x *Exec) evalPred(st *State, fv Value, args ...Value) *Term {
	f, ok := fv.(*Func)
	if !ok {
		x.unsupported("predicate is %T", fv)
	}
	v := x.evalPure(st, f, args)
	return x.term(v)
}

func (x *Exec) freshResults(st *State, sig *types.Signature, hint string) Value {
	rs := sig.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return x.freshVal(st, hint, rs.At(0).Type(), st.wm)
	}
	t := make(Tuple, rs.Len())
	for i := range t {
		t[i] = x.freshVal(st, fmt.Sprintf("%s%d", hint, i), rs.At(i).Type(), st.wm)
	}
	return t
}

func sortedKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var vtrace = os.Getenv("VTRACE") != ""
