package main

import (
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// proveFP decides an obligation in the theory of IEEE-754 floating point and
// bit vectors: float operations are the theory's (round to nearest even),
// integers are bit vectors wide enough not to wrap.

type fpTr struct {
	c     *Ctx
	decls strings.Builder
	defs  strings.Builder
	seen  map[string]string
	fsym  map[*Term]int
	w     int
	n     int
}

type fpFail struct{ msg string }

func (t *fpTr) fail(f string, a ...interface{}) { panic(fpFail{fmt.Sprintf(f, a...)}) }

func fpSort(bits int) string {
	if bits == 32 {
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}

func fpTo(bits int) string {
	if bits == 32 {
		return "(_ to_fp 8 24)"
	}
	return "(_ to_fp 11 53)"
}

// appFloat gives the float width of an application's result and arguments.
func appFloat(t *Term) (res, arg int) {
	s := t.str
	switch s {
	case "f32to64":
		return 64, 32
	case "f64to32":
		return 32, 64
	case "i2f32":
		return 32, 0
	case "i2f64":
		return 64, 0
	}
	b := 0
	if strings.HasPrefix(s, "f32") {
		b = 32
	} else if strings.HasPrefix(s, "f64") {
		b = 64
	} else {
		return 0, 0
	}
	switch s[3:] {
	case "eq", "lt", "le", "isnan":
		return 0, b
	}
	if strings.HasPrefix(s[3:], "to_") {
		return 0, b
	}
	return b, b
}

func (t *fpTr) float(x *Term) int {
	switch x.op {
	case OApp:
		r, _ := appFloat(x)
		return r
	case OIte:
		if r := t.float(x.args[1]); r != 0 {
			return r
		}
		return t.float(x.args[2])
	case OSym, OSelect:
		return t.fsym[x]
	}
	return 0
}

// mark finds the symbols used as floats.
func (t *fpTr) mark(x *Term, seen map[int]bool) {
	walk(x, seen, func(u *Term) {
		if u.op == OApp {
			if _, a := appFloat(u); a != 0 {
				for _, v := range u.args {
					t.markF(v, a)
				}
			}
		}
	})
}

func (t *fpTr) markF(x *Term, b int) {
	switch x.op {
	case OSym, OSelect:
		t.fsym[x] = b
	case OIte:
		t.markF(x.args[1], b)
		t.markF(x.args[2], b)
	}
}

func (t *fpTr) def(x *Term, sort, body string) string {
	k := fmt.Sprintf("%d/%s", x.id, sort)
	t.n++
	n := fmt.Sprintf("d%d", t.n)
	fmt.Fprintf(&t.defs, "(define-fun %s () %s %s)\n", n, sort, body)
	t.seen[k] = n
	return n
}

func (t *fpTr) f(x *Term, b int) string {
	sort := fpSort(b)
	k := fmt.Sprintf("%d/%s", x.id, sort)
	if s, ok := t.seen[k]; ok {
		return s
	}
	switch x.op {
	case OConst:
		if b == 32 {
			return fmt.Sprintf("(%s #x%08x)", fpTo(b), x.val.Uint64())
		}
		return fmt.Sprintf("(%s #x%016x)", fpTo(b), x.val.Uint64())
	case OSym, OSelect:
		t.n++
		n := fmt.Sprintf("s%d", t.n)
		fmt.Fprintf(&t.decls, "(declare-const %s %s)\n", n, sort)
		t.seen[k] = n
		return n
	case OIte:
		return t.def(x, sort, "(ite "+t.b(x.args[0])+" "+t.f(x.args[1], b)+" "+t.f(x.args[2], b)+")")
	case OApp:
		r, a := appFloat(x)
		if r != b {
			t.fail("float width of %s", x.str)
		}
		if a == 0 {
			return t.def(x, sort, "("+fpTo(b)+" RNE "+t.i(x.args[0])+")")
		}
		var as []string
		for _, v := range x.args {
			as = append(as, t.f(v, a))
		}
		switch x.str {
		case "f32to64", "f64to32":
			return t.def(x, sort, "("+fpTo(b)+" RNE "+as[0]+")")
		}
		switch op := x.str[3:]; op {
		case "add", "sub", "mul", "div":
			return t.def(x, sort, "(fp."+op+" RNE "+as[0]+" "+as[1]+")")
		case "sqrt":
			return t.def(x, sort, "(fp.sqrt RNE "+as[0]+")")
		case "neg":
			return t.def(x, sort, "(fp.neg "+as[0]+")")
		case "round", "floor", "ceil", "trunc", "roundtoeven":
			m := map[string]string{"round": "RNA", "floor": "RTN", "ceil": "RTP", "trunc": "RTZ", "roundtoeven": "RNE"}[op]
			return t.def(x, sort, "(fp.roundToIntegral "+m+" "+as[0]+")")
		case "min", "max":
			p, q := as[0], as[1]
			lt, sgn := "(fp.lt "+p+" "+q+")", "(fp.isNegative "+p+")"
			eq := "(ite " + sgn + " " + p + " " + q + ")"
			pick := "(ite " + lt + " " + p + " (ite (fp.lt " + q + " " + p + ") " + q + " " + eq + "))"
			inf := "(fp.isNegative %s)"
			if op == "max" {
				eq = "(ite " + sgn + " " + q + " " + p + ")"
				pick = "(ite " + lt + " " + q + " (ite (fp.lt " + q + " " + p + ") " + p + " " + eq + "))"
				inf = "(fp.isPositive %s)"
			}
			isInf := func(s string) string { return "(and (fp.isInfinite " + s + ") " + fmt.Sprintf(inf, s) + ")" }
			nan := fmt.Sprintf("(_ NaN %s)", strings.TrimSuffix(strings.TrimPrefix(sort, "(_ FloatingPoint "), ")"))
			return t.def(x, sort, "(ite "+isInf(p)+" "+p+" (ite "+isInf(q)+" "+q+" (ite (or (fp.isNaN "+p+") (fp.isNaN "+q+")) "+nan+" "+pick+")))")
		}
		// any other function: uninterpreted
		fn := "u_" + x.str
		if _, ok := t.seen[fn]; !ok {
			t.seen[fn] = fn
			fmt.Fprintf(&t.decls, "(declare-fun %s (%s) %s)\n", fn, strings.TrimSpace(strings.Repeat(fpSort(a)+" ", len(as))), sort)
		}
		return t.def(x, sort, "("+fn+" "+strings.Join(as, " ")+")")
	}
	t.fail("float term %v", x)
	return ""
}

func (t *fpTr) bv(v *big.Int) string {
	m := new(big.Int).Mod(v, pow2(uint(t.w)))
	return fmt.Sprintf("(_ bv%s %d)", m, t.w)
}

func (t *fpTr) fits(x *Term) {
	lo, hi := t.c.Range(x)
	lim := pow2(uint(t.w) - 2)
	if lo == nil || hi == nil || lo.CmpAbs(lim) >= 0 || hi.CmpAbs(lim) >= 0 {
		t.fail("integer range of %v", x)
	}
}

func (t *fpTr) i(x *Term) string {
	sort := fmt.Sprintf("(_ BitVec %d)", t.w)
	k := fmt.Sprintf("%d/%s", x.id, sort)
	if s, ok := t.seen[k]; ok {
		return s
	}
	t.fits(x)
	switch x.op {
	case OConst:
		return t.bv(x.val)
	case OSym, OSelect:
		if t.fsym[x] != 0 {
			t.fail("bits of a float")
		}
		t.n++
		n := fmt.Sprintf("s%d", t.n)
		lo, hi := t.c.Range(x)
		fmt.Fprintf(&t.decls, "(declare-const %s %s)\n(assert (and (bvsle %s %s) (bvsle %s %s)))\n", n, sort, t.bv(lo), n, n, t.bv(hi))
		t.seen[k] = n
		return n
	case OIte:
		return t.def(x, sort, "(ite "+t.b(x.args[0])+" "+t.i(x.args[1])+" "+t.i(x.args[2])+")")
	case OPoly:
		s := t.bv(x.val)
		for j, a := range x.args {
			t.fits(t.c.MulK(a, x.coefs[j]))
			m := t.i(a)
			if x.coefs[j].Cmp(bigOne) != 0 {
				m = "(bvmul " + t.bv(x.coefs[j]) + " " + m + ")"
			}
			s = "(bvadd " + s + " " + m + ")"
		}
		return t.def(x, sort, s)
	case ODiv, OMod:
		lo, _ := t.c.Range(x.args[0])
		if lo == nil || lo.Sign() < 0 {
			t.fail("division of a negative integer")
		}
		op := map[Op]string{ODiv: "bvudiv", OMod: "bvurem"}[x.op]
		return t.def(x, sort, "("+op+" "+t.i(x.args[0])+" "+t.bv(x.val)+")")
	case OApp:
		_, a := appFloat(x)
		if a != 0 && strings.HasPrefix(x.str[3:], "to_") {
			v := t.f(x.args[0], a)
			lo, hi := t.c.Range(x)
			one := big.NewInt(1)
			lim := func(b *big.Int) string {
				neg := b.Sign() < 0
				s := fmt.Sprintf("(%s RNE %s.0)", fpTo(a), new(big.Int).Abs(b))
				if neg {
					s = "(fp.neg " + s + ")"
				}
				return s
			}
			if hi.BitLen() > 50 {
				t.fail("wide float conversion")
			}
			in := "(and (fp.lt " + lim(new(big.Int).Sub(lo, one)) + " " + v + ") (fp.lt " + v + " " + lim(new(big.Int).Add(hi, one)) + "))"
			// outside the range the result depends on the implementation
			t.n++
			o := fmt.Sprintf("s%d", t.n)
			fmt.Fprintf(&t.decls, "(declare-const %s %s)\n(assert (and (bvsle %s %s) (bvsle %s %s)))\n", o, sort, t.bv(lo), o, o, t.bv(hi))
			return t.def(x, sort, fmt.Sprintf("(ite %s ((_ fp.to_sbv %d) RTZ %s) %s)", in, t.w, v, o))
		}
	}
	t.fail("integer term %v", x)
	return ""
}

func (t *fpTr) list(op string, ts []*Term) string {
	var s []string
	for _, a := range ts {
		s = append(s, t.b(a))
	}
	return "(" + op + " " + strings.Join(s, " ") + ")"
}

func (t *fpTr) b(x *Term) string {
	switch x.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OAnd:
		return t.list("and", x.args)
	case OOr:
		return t.list("or", x.args)
	case ONot:
		return t.list("not", x.args)
	case OSym:
		k := fmt.Sprintf("%d/Bool", x.id)
		if s, ok := t.seen[k]; ok {
			return s
		}
		t.n++
		n := fmt.Sprintf("s%d", t.n)
		fmt.Fprintf(&t.decls, "(declare-const %s Bool)\n", n)
		t.seen[k] = n
		return n
	case OIte:
		return t.list("ite", x.args)
	case OApp:
		_, a := appFloat(x)
		if a != 0 {
			var as []string
			for _, v := range x.args {
				as = append(as, t.f(v, a))
			}
			op := map[string]string{"eq": "fp.eq", "lt": "fp.lt", "le": "fp.leq", "isnan": "fp.isNaN"}[x.str[3:]]
			if op != "" {
				return "(" + op + " " + strings.Join(as, " ") + ")"
			}
		}
	case OGe0, OEq0:
		p := x.args[0]
		if x.op == OEq0 {
			// equality of float bits
			if p.op == OPoly {
				for _, a := range p.args {
					if b := t.float(a); b != 0 {
						if len(p.args) == 2 && p.val.Sign() == 0 && new(big.Int).Add(p.coefs[0], p.coefs[1]).Sign() == 0 {
							return "(= " + t.f(p.args[0], b) + " " + t.f(p.args[1], b) + ")"
						}
						if len(p.args) == 1 && p.coefs[0].CmpAbs(bigOne) == 0 {
							k := new(big.Int).Neg(p.val)
							if p.coefs[0].Sign() < 0 {
								k.Neg(k)
							}
							return "(= " + t.f(a, b) + " " + t.f(t.c.Big(k), b) + ")"
						}
						t.fail("float bits in arithmetic")
					}
				}
			} else if b := t.float(p); b != 0 {
				return "(= " + t.f(p, b) + " " + t.f(t.c.zero, b) + ")"
			}
			return "(= " + t.i(p) + " " + t.bv(bigZero) + ")"
		}
		return "(bvsle " + t.bv(bigZero) + " " + t.i(p) + ")"
	}
	t.fail("formula %v", x)
	return ""
}

func (t *fpTr) try(x *Term) (s string, err error) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(fpFail); ok {
				err = fmt.Errorf("%s", f.msg)
				return
			}
			panic(r)
		}
	}()
	return t.b(x), nil
}

func (c *Ctx) proveFP(facts []*Term, goal *Term) Result {
	t := &fpTr{c: c, seen: map[string]string{}, fsym: map[*Term]int{}, w: 40}
	seen := map[int]bool{}
	t.mark(goal, seen)
	for _, f := range facts {
		t.mark(f, seen)
	}
	g, err := t.try(goal)
	if err != nil {
		return Result{Status: "unknown", Script: "not expressible in floating-point logic: " + err.Error()}
	}
	var fs strings.Builder
	for _, f := range facts {
		if f == c.False {
			return Result{Status: "unsat", By: "simplifier"}
		}
		if s, err := t.try(f); err == nil {
			fs.WriteString("(assert " + s + ")\n")
		} else if os.Getenv("VDEBUG") != "" {
			fmt.Fprintln(os.Stderr, "fp: fact dropped:", err)
		}
	}
	scr := t.decls.String() + t.defs.String() + fs.String() + "(assert (not " + g + "))\n"
	if os.Getenv("VSLOW") != "" {
		_ = os.WriteFile(fmt.Sprintf("/tmp/vcs/fp_%d.smt2", goal.id), []byte(scr+"(check-sat)\n"), 0o644)
	}
	logic := "(set-logic QF_BVFP)\n"
	if strings.Contains(scr, "(declare-fun u_") {
		logic = "(set-logic ALL)\n"
	}
	ans, by := raceFP(logic+scr+"(check-sat)\n", fpLimit)
	r := Result{Status: ans, By: by + "(floating point)", Script: scr}
	return r
}

var fpMu sync.Mutex

var fpLimit = 400 * time.Second

// raceFP runs both solvers and returns the first answer.
func raceFP(scr string, limit time.Duration) (string, string) {
	fpMu.Lock()
	solver.sem <- struct{}{}
	solver.sem <- struct{}{}
	fpMu.Unlock()
	defer func() { <-solver.sem; <-solver.sem }()
	t0 := time.Now()
	defer func() { atomic.AddInt64(&solver.timeNS, int64(time.Since(t0))); atomic.AddInt64(&solver.nq, 1) }()
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	type ans struct{ a, by string }
	ch := make(chan ans, 2)
	for by, args := range map[string][]string{"z3": {"z3-new", "-in"}, "cvc5": {"cvc5", "--lang=smt2", "-"}} {
		go func(by string, args []string) {
			cmd := exec.CommandContext(ctx, args[0], args[1:]...)
			cmd.Stdin = strings.NewReader(scr)
			out, _ := cmd.Output()
			l := strings.TrimSpace(string(out))
			if i := strings.IndexByte(l, '\n'); i >= 0 {
				l = l[:i]
			}
			ch <- ans{l, by}
		}(by, args)
	}
	for k := 0; k < 2; k++ {
		if r := <-ch; r.a == "sat" || r.a == "unsat" {
			return r.a, r.by
		}
	}
	return "unknown", "none"
}
