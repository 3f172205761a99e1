// Package zzverif is the specification vocabulary.  The deductive verifier
// gives these functions their logical meaning; the bodies here are the
// executable reading, used to replay a harness on concrete inputs.
package zzverif

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

type skip struct{}

// Fail records the specification clauses that failed in this run.
var (
	Fails   []string
	caseIdx int
	rng     = rand.New(rand.NewSource(1))
	hints   []int64
	splitN  int
)

func init() {
	for _, s := range strings.Split(os.Getenv("ZZ_HINTS"), ",") {
		if v, err := strconv.ParseInt(strings.TrimSpace(s), 10, 64); err == nil {
			hints = append(hints, v)
		}
	}
}

func Requires(c bool) {
	if !c {
		panic(skip{})
	}
}
func RequiresF(f func() bool) { Requires(f()) }
func Split(n, idx int) {
	if n > 1 && (idx < 0 || idx >= n) {
		panic(skip{})
	}
}

// Cases makes the proof distinguish whether c holds.
func Cases(c bool) {}

// Concrete is an additional check of a replay; the verifier ignores it.
func Concrete(label string, f func() bool) { Ensures(label, f) }

// Within: when the slice v starts inside b's memory it also ends there.
func Within(v any, b []byte) bool {
	x := reflect.ValueOf(v)
	if x.Kind() != reflect.Slice || x.Cap() == 0 || cap(b) == 0 {
		return true
	}
	lo := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	hi := lo + uintptr(cap(b))
	p := x.Pointer()
	return p < lo || p >= hi || p+uintptr(x.Cap())*x.Type().Elem().Size() <= hi
}

// Case is the index of the case the harness is split on.
func Case() int { return caseIdx }
func Ensures(label string, f func() bool) {
	if !f() {
		Fails = append(Fails, label)
	}
}
func Assert(label string, c bool) {
	if !c {
		Fails = append(Fails, label)
	}
}
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}
func ForallKeys[M ~map[string]V, V any](m M, f func(k string) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return f("no such key")
}
func Implies(a, b bool) bool { return !a || b }

// Same: bitwise equal values (NaN equals itself).
func Same[T any](a, b T) bool { return deepEq(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem()) }

// MulLe: a*b <= c in unbounded arithmetic.
func MulLe(a, b, c int) bool {
	return new(big.Int).Mul(big.NewInt(int64(a)), big.NewInt(int64(b))).Cmp(big.NewInt(int64(c))) <= 0
}

func span[T any](s []T) (lo, hi uintptr) {
	lo = uintptr(unsafe.Pointer(unsafe.SliceData(s)))
	var z T
	return lo, lo + uintptr(cap(s))*unsafe.Sizeof(z)
}

// Disjoint: the two slices share no element (up to capacity).
func Disjoint[T any](a, b []T) bool {
	al, ah := span(a)
	bl, bh := span(b)
	return cap(a) == 0 || cap(b) == 0 || ah <= bl || bh <= al
}

// DisjointMem: the two slices have different backing arrays.
func DisjointMem[T, U any](a []T, b []U) bool {
	al, ah := span(a)
	bl, bh := span(b)
	return cap(a) == 0 || cap(b) == 0 || ah <= bl || bh <= al
}
func SameStart[T any](a, b []T) bool { return unsafe.SliceData(a) == unsafe.SliceData(b) }

// Old is a copy of s as it is now.
func Old[T any](s []T) []T {
	r := make([]T, len(s), cap(s)+1)
	copy(r[:cap(s)], s[:cap(s)])
	return r[:len(s):cap(s)]
}

// EnsuresBacked: unless except holds, the memory of s is new or lies inside the memory of b.
func EnsuresBacked[T, U any](label string, except bool, s []T, b []U) {}

// Define states what a ghost function means; assumed by callers, not checked.
func Define(f func() bool) {}

func Fresh[T any](s []T) bool     { return true }
func FreshPtr[T any](p *T) bool   { return true }
func NotPooled[T any](s []T) bool { return true }
func Modifies[T any](s []T)       {}
func ModifiesPtr[T any](p *T)     {}

type watched struct{ live, copy reflect.Value }
type Snap struct {
	ws     []watched
	except []any
}

func Snapshot() *Snap { return &Snap{} }

// Watch adds memory to compare when the harness is executed.
func (s *Snap) Watch(v any) *Snap {
	rv := reflect.ValueOf(v)
	s.ws = append(s.ws, watched{rv, deepCopy(rv)})
	return s
}
func (s *Snap) Except(v any) *Snap { s.except = append(s.except, v); return s }

// Unchanged: no memory that existed at the snapshot has changed.
func (s *Snap) Unchanged(label string) {
	for _, w := range s.ws {
		if !deepEq(w.live, w.copy) {
			Fails = append(Fails, label)
			return
		}
	}
}

// Replayed is Unchanged for a contract whose declared frame says the same:
// only evaluated when the harness is executed.
func (s *Snap) Replayed(label string) { s.Unchanged(label) }

// DeepCopy copies everything reachable from v.
func DeepCopy[T any](v T) T {
	return deepCopy(reflect.ValueOf(&v).Elem()).Interface().(T)
}

func deepCopy(v reflect.Value) reflect.Value {
	if !v.IsValid() {
		return v
	}
	n := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(deepCopy(v.Elem()))
			n.Set(p)
		}
	case reflect.Interface:
		if !v.IsNil() {
			n.Set(deepCopy(v.Elem()))
		}
	case reflect.Slice:
		if !v.IsNil() {
			full := v.Slice3(0, v.Cap(), v.Cap())
			s := reflect.MakeSlice(v.Type(), v.Cap(), v.Cap())
			for i := 0; i < v.Cap(); i++ {
				s.Index(i).Set(deepCopy(full.Index(i)))
			}
			n.Set(s.Slice3(0, v.Len(), v.Cap()))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i)))
		}
	case reflect.Map:
		if !v.IsNil() {
			m := reflect.MakeMap(v.Type())
			for _, k := range v.MapKeys() {
				m.SetMapIndex(k, deepCopy(v.MapIndex(k)))
			}
			n.Set(m)
		}
	case reflect.Struct:
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
	default:
		n.Set(v)
	}
	return n
}

func deepEq(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Kind() == reflect.Interface && a.Elem().Type() != b.Elem().Type() {
			return false
		}
		return deepEq(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() || a.IsNil() != b.IsNil() {
			return false
		}
		c := a.Cap()
		if b.Cap() < c {
			c = b.Cap()
		}
		fa, fb := a.Slice3(0, c, c), b.Slice3(0, c, c)
		for i := 0; i < c; i++ {
			if !deepEq(fa.Index(i), fb.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !deepEq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || !deepEq(a.MapIndex(k), v) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !deepEq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Func:
		return true
	}
	return a.Interface() == b.Interface()
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(skip); ok {
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// Any is an arbitrary value.
func Any[T any]() T {
	var z T
	g := &R{Rand: rng}
	g.Fill(reflect.ValueOf(&z).Elem(), 2)
	return z
}
func TypeIs[T any](v any) bool { _, ok := v.(T); return ok }
func As[T any](v any) T        { r, _ := v.(T); return r }
func Reached(label string)     {}

// ---------- concrete replay ----------

type R struct {
	*rand.Rand
	iter int
}

var interesting = []int64{0, 0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 20, 24, 31, 32, 63, 64, 100, 127, 128, 255, 256, -1, -2, -4, 1 << 31, math.MaxInt64, math.MinInt64, math.MaxInt64 - 3, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<32 + 4}

// Pick returns one of the arguments.
func Pick[T any](r *R, xs ...T) T { return xs[r.Intn(len(xs))] }

// Small is mostly a small non-negative number.
func (r *R) Small(n int) int { return r.Intn(n + 1) }
func (r *R) Wild() int64 {
	if len(hints) > 0 && r.Intn(4) == 0 {
		return hints[r.Intn(len(hints))]
	}
	if r.Intn(3) == 0 {
		return int64(r.Intn(40))
	}
	return interesting[r.Intn(len(interesting))]
}
func (r *R) Bytes(n int) []byte {
	b := make([]byte, n, n+r.Intn(4))
	r.Read(b[:cap(b)])
	return b
}
func (r *R) Float32() float32 {
	switch r.Intn(12) {
	case 0:
		return float32(math.NaN())
	case 1:
		return float32(math.Inf(1))
	case 2:
		return float32(math.Inf(-1))
	case 3:
		return float32(math.Copysign(0, -1))
	case 4, 5:
		return math.Float32frombits(r.Uint32())
	}
	return float32(r.Intn(2001)-1000) / 100
}

// FillBits gives *p arbitrary bits.
func FillBits[T any](r *R, p *T) {
	b := unsafe.Slice((*byte)(unsafe.Pointer(p)), unsafe.Sizeof(*p))
	r.Read(b)
	if r.Intn(6) == 0 {
		for i := range b {
			b[i] = 0
			if r.Intn(8) == 0 {
				b[i] = Pick[byte](r, 0x80, 0x80, 0x7f, 0xff, 1)
			}
		}
		return
	}
	if r.Intn(4) == 0 {
		v := reflect.ValueOf(p).Elem()
		r.Fill(v, 2)
	}
}

// Fill gives v an arbitrary value.
func (r *R) Fill(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int64:
		v.SetInt(r.Wild())
	case reflect.Int8, reflect.Int16, reflect.Int32:
		v.SetInt(int64(r.Uint64()) >> (64 - v.Type().Bits()))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		v.SetUint(r.Uint64() >> (64 - v.Type().Bits()))
	case reflect.Float32:
		v.SetFloat(float64(r.Float32()))
	case reflect.Float64:
		v.SetFloat(float64(r.Float32()) / 3)
	case reflect.String:
		v.SetString(Pick(r, "", "a", "./a", "../b", "a/b", "\\x", "POSITION", "data:,", "é"))
	case reflect.Slice:
		n := r.Intn(5)
		if r.Intn(8) == 0 {
			n = r.Intn(70)
		}
		c := n + r.Intn(3)
		s := reflect.MakeSlice(v.Type(), c, c)
		for i := 0; i < c; i++ {
			r.Fill(s.Index(i), depth)
		}
		if n > 0 || r.Intn(2) == 0 {
			v.Set(s.Slice(0, n))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			r.Fill(v.Index(i), depth)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				r.Fill(v.Field(i), depth)
			}
		}
	case reflect.Ptr:
		if depth > 0 && r.Intn(4) != 0 {
			p := reflect.New(v.Type().Elem())
			r.Fill(p.Elem(), depth-1)
			v.Set(p)
		}
	case reflect.Map:
		if depth > 0 && r.Intn(2) == 0 {
			m := reflect.MakeMap(v.Type())
			k := reflect.New(v.Type().Key()).Elem()
			e := reflect.New(v.Type().Elem()).Elem()
			r.Fill(k, depth-1)
			r.Fill(e, depth-1)
			m.SetMapIndex(k, e)
			v.Set(m)
		}
	}
}

type entry struct {
	fn  any
	gen any
}

var registry = map[string]entry{}

// Register makes harness fn replayable; gen (may be nil) is a function from
// *R to the harness arguments.
func Register(name string, fn, gen any) { registry[name] = entry{fn, gen} }

type report struct {
	Found    bool     `json:"found"`
	Text     string   `json:"text"`
	Fails    []string `json:"fails"`
	Runs     int      `json:"runs"`
	Skipped  int      `json:"skipped"`
	Distinct int      `json:"distinct"`
	Samples  []string `json:"samples"`
}

// Work is a scratch directory of this run.
func Work() string { return os.Getenv("ZZ_WORK") }

// ReplayMain runs the harness named by ZZ_NAME on ZZ_N concrete inputs within
// ZZ_BUDGET seconds and writes what happened to ZZ_OUT.
func ReplayMain() {
	num := func(k string, def int) int {
		if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
			return v
		}
		return def
	}
	ignore := map[string]bool{}
	for _, s := range strings.Split(os.Getenv("ZZ_IGNORE"), ",") {
		if s != "" {
			ignore[s] = true
		}
	}
	out := os.Getenv("ZZ_OUT")
	rep := Replay(os.Getenv("ZZ_NAME"), int64(num("ZZ_SEED", 1)), num("ZZ_N", 1000), num("ZZ_CASES", 1), time.Duration(num("ZZ_BUDGET", 10))*time.Second, ignore, out)
	b, _ := json.Marshal(rep)
	os.WriteFile(out, b, 0o644)
}

// Iter is the index of the current input (for exhaustive generators).
func (r *R) Iter() int { return r.iter }

// Replay runs a harness on n concrete inputs and reports the first failure.
func Replay(name string, seed int64, n, cases int, budget time.Duration, ignore map[string]bool, out string) (rep report) {
	e, ok := registry[name]
	if !ok {
		rep.Text = "harness is not registered for replay"
		return
	}
	if cases < 1 {
		cases = 1
	}
	var pin []int
	for _, s := range strings.Fields(os.Getenv("ZZ_PIN")) {
		if v, err := strconv.Atoi(s); err == nil {
			pin = append(pin, v)
		}
	}
	deadline := time.Now().Add(budget)
	fv := reflect.ValueOf(e.fn)
	seen := map[uint64]bool{}
	known := map[string]bool{}
	for i := 0; i < n; i++ {
		if i&15 == 0 && time.Now().After(deadline) {
			break
		}
		s := seed*1000003 + int64(i)
		rng = rand.New(rand.NewSource(s))
		caseIdx = i % cases
		if len(pin) > 0 {
			caseIdx = pin[i%len(pin)]
		}
		g := &R{Rand: rand.New(rand.NewSource(s)), iter: i}
		var in []reflect.Value
		if e.gen != nil {
			in = reflect.ValueOf(e.gen).Call([]reflect.Value{reflect.ValueOf(g)})
		} else {
			for k := 0; k < fv.Type().NumIn(); k++ {
				v := reflect.New(fv.Type().In(k)).Elem()
				g.Fill(v, 2)
				in = append(in, v)
			}
		}
		desc := Show(in)
		Fails = nil
		Note = ""
		pm := ""
		skipped := false
		func() {
			tm := time.AfterFunc(20*time.Second, func() {
				os.WriteFile(out+".last", []byte(desc), 0o644)
			})
			defer tm.Stop()
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(skip); ok {
						skipped = true
						return
					}
					pm = fmt.Sprint(r) + "\n" + where()
				}
			}()
			fv.Call(in)
		}()
		rep.Runs++
		if skipped {
			rep.Skipped++
			continue
		}
		if len(seen) < 2000000 {
			h := fnv.New64a()
			h.Write([]byte(desc))
			k := h.Sum64()
			if !seen[k] {
				seen[k] = true
				rep.Distinct++
			}
		}
		if len(rep.Samples) < 2 && len(desc) < 1500 {
			rep.Samples = append(rep.Samples, name+": "+desc)
		}
		if pm != "" {
			rep.Found = true
			rep.Fails = []string{name + ".no-panic"}
			rep.Text = fmt.Sprintf("harness %s case %d input %d (seed %d)\nclause: no panic\npanic: %s\ninput: %s\n", name, caseIdx, i, s, pm, desc)
			return
		}
		var bad []string
		for _, l := range Fails {
			if ignore[l] {
				if !known[l] {
					known[l] = true
				}
				continue
			}
			bad = append(bad, l)
		}
		if len(bad) > 0 {
			rep.Found = true
			rep.Fails = bad
			rep.Text = fmt.Sprintf("harness %s case %d input %d (seed %d)\nfailed clauses: %s\ninput: %s\n%s", name, caseIdx, i, s, strings.Join(bad, ", "), desc, Note)
			return
		}
	}
	for l := range known {
		rep.Fails = append(rep.Fails, l)
	}
	rep.Text = fmt.Sprintf("no failing input among %d (%d outside the precondition)", rep.Runs, rep.Skipped)
	return
}

// Note is extra text shown with a failing input.
var Note string

func where() string {
	var b strings.Builder
	pc := make([]uintptr, 40)
	fr := runtime.CallersFrames(pc[:runtime.Callers(3, pc)])
	n := 0
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "qmuntal/gltf") && n < 8 {
			fmt.Fprintf(&b, "  at %s %s:%d\n", f.Function, f.File, f.Line)
			n++
		}
		if !more {
			break
		}
	}
	return b.String()
}

// Show renders arguments.
func Show(in []reflect.Value) string {
	var b strings.Builder
	for i, v := range in {
		if i > 0 {
			b.WriteString("; ")
		}
		show(&b, v, 6)
	}
	s := b.String()
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return s
}

func show(b *strings.Builder, v reflect.Value, d int) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if d == 0 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Ptr {
			b.WriteString("&")
		}
		show(b, v.Elem(), d-1)
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		first := true
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).IsZero() {
				continue
			}
			if !first {
				b.WriteString(", ")
			}
			first = false
			b.WriteString(v.Type().Field(i).Name + ":")
			show(b, v.Field(i), d-1)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString(v.Type().String() + "{")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(",")
			}
			if i == 80 {
				b.WriteString("...")
				break
			}
			show(b, v.Index(i), d-1)
		}
		b.WriteString("}")
	default:
		fmt.Fprintf(b, "%#v", v)
	}
}

// SameMem: the two slices have the same backing array.
func SameMem[T any](a, b []T) bool {
	al, ah := span(a)
	bl, bh := span(b)
	return al <= bh && bl <= ah
}

// Thorough: the thorough tier is being checked.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Number generates a finite float64, special values included.
func (r *R) Number() float64 {
	return Pick(r, 0, 1, -1, 0.5, 1e-9, 1e21, -1e-7, math.Pi/4, 123456789, math.MaxFloat64, 5e-324, math.Copysign(0, -1), float64(r.Float32Finite()), float64(r.Intn(1000))/8)
}

// Float32Finite generates a float32 that is neither infinite nor NaN.
func (r *R) Float32Finite() float32 {
	for {
		f := r.Float32()
		if !math.IsNaN(float64(f)) && !math.IsInf(float64(f), 0) {
			return f
		}
	}
}

// JSON generates a decoded JSON value.
func (r *R) JSON(depth int) any {
	k := r.Intn(6)
	if depth == 0 && k > 3 {
		k -= 3
	}
	switch k {
	case 0:
		return r.Number()
	case 1:
		return Pick(r, "", "a", "\"", ",,", "{,", ",}", "\\", "\u00e9\u2028<>&")
	case 2:
		return r.Intn(2) == 0
	case 3:
		return Pick[any](r, 1.0, "s", []any{}, map[string]any{}, "\"scale\":[1,1]", `,"offset":[0,0]`, nil)
	case 4:
		l := []any{}
		for i := r.Intn(3); i > 0; i-- {
			l = append(l, r.JSON(depth-1))
		}
		return l
	}
	m := map[string]any{}
	for i := r.Intn(3); i > 0; i-- {
		m[Pick(r, "k", "scale", "offset", "name", "diffuseFactor", "z\u00e9")] = r.JSON(depth - 1)
	}
	return m
}

// JSONEqual compares decoded JSON values; numbers by value.
func JSONEqual(a, b any) bool {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !JSONEqual(v, w) {
				return false
			}
		}
		return true
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !JSONEqual(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

// JSONObject decodes b, which must be one JSON object.
func JSONObject(b []byte) (map[string]any, bool) {
	var v any
	if err := json.Unmarshal(b, &v); err != nil {
		return nil, false
	}
	m, ok := v.(map[string]any)
	return m, ok
}

// JSONWithin reports that got has only properties of want, with want's values,
// and every property of want that is not in optional. A property whose value
// is an object with optional parts of its own is left to the caller (skip).
func JSONWithin(got, want map[string]any, optional, skip map[string]bool) bool {
	for k, v := range got {
		w, ok := want[k]
		if !ok || !skip[k] && !JSONEqual(v, w) {
			return false
		}
	}
	for k := range want {
		if _, ok := got[k]; !ok && !optional[k] {
			return false
		}
	}
	return true
}

// Unit generates a float32 between zero and one.
func (r *R) Unit() float32 { return float32(r.Intn(1<<24)) / (1<<24 - 1) }
