package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// finding is an entry of known_findings.txt.
type finding struct {
	prop, obligation, text string
}

func loadFindings(file string) []finding {
	var out []finding
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		var f finding
		var rest []string
		for _, w := range strings.Fields(strings.TrimPrefix(l, "finding:")) {
			switch {
			case strings.HasPrefix(w, "property="):
				f.prop = w[9:]
			case strings.HasPrefix(w, "obligation="):
				f.obligation = w[11:]
			default:
				rest = append(rest, w)
			}
		}
		f.text = strings.Join(rest, " ")
		out = append(out, f)
	}
	return out
}

type failure struct {
	h      *Harness
	label  string
	kind   string
	pos    string
	msg    string
	detail string
	hints  []string
	trace  []string
	tasks  []int
}

type replayResult struct {
	Found    bool     `json:"found"`
	Text     string   `json:"text"`
	Fails    []string `json:"fails"`
	Runs     int      `json:"runs"`
	Skipped  int      `json:"skipped"`
	Samples  []string `json:"samples"`
	Distinct int      `json:"distinct"`
}

// replay executes a harness on concrete inputs against the real code.
func (ld *Loader) replay(h *Harness, n int, budget int, cases int, seed int64, hints []string, ignore []string, pin []int) (replayResult, string) {
	var res replayResult
	dir, err := os.MkdirTemp("", "zzreplay")
	if err != nil {
		return res, err.Error()
	}
	defer os.RemoveAll(dir)
	rel := strings.TrimPrefix(strings.TrimPrefix(h.Pkg, modPath), "/")
	pname := ld.pkgs[h.Pkg].Pkg.Name()
	test := filepath.Join(dir, "zz_replay_test.go")
	os.WriteFile(test, []byte("package "+pname+"\n\nimport (\n\t\"testing\"\n\n\tzz \""+modPath+"/zzverif\"\n)\n\nfunc TestZZReplay(t *testing.T) { zz.ReplayMain() }\n"), 0o644)
	ov := map[string]map[string]string{"Replace": {}}
	for p, s := range ld.overlay {
		ov["Replace"][p] = s
	}
	ov["Replace"][filepath.Join(ld.repo, rel, "zz_replay_test.go")] = test
	b, _ := json.Marshal(ov)
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, b, 0o644)
	out := filepath.Join(dir, "out.json")
	work := filepath.Join(dir, "work")
	os.Mkdir(work, 0o755)
	race := h.race
again:
	opts := []string{"test"}
	if race {
		opts = append(opts, "-race")
	}
	cmd := exec.Command("go", append(opts, "-vet=off", "-count=1", "-timeout", fmt.Sprint(budget+60)+"s", "-overlay", ovf, "-run", "^TestZZReplay$", "./"+rel)...)
	cmd.Dir = ld.repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "ZZ_NAME="+h.Name, "ZZ_OUT="+out, fmt.Sprintf("ZZ_N=%d", n), fmt.Sprintf("ZZ_BUDGET=%d", budget), fmt.Sprintf("ZZ_CASES=%d", cases), fmt.Sprintf("ZZ_SEED=%d", seed), "ZZ_HINTS="+strings.Join(hints, ","), "ZZ_WORK="+work, "GOMEMLIMIT=6GiB", "ZZ_IGNORE="+strings.Join(ignore, ","), "ZZ_PIN="+strings.Trim(fmt.Sprint(pin), "[]"))
	var o bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &o
	rerr := cmd.Run()
	data, err := os.ReadFile(out)
	raced := race && strings.Contains(o.String(), "WARNING: DATA RACE")
	if race && err != nil && !raced && !strings.Contains(o.String(), "fatal error:") && !strings.Contains(o.String(), "panic: ") {
		// no race detector here: the schedules are still tried
		race = false
		goto again
	}
	if err != nil || raced {
		t := o.String()
		if len(t) > 3000 {
			t = t[:1500] + "\n...\n" + t[len(t)-1500:]
		}
		if raced || strings.Contains(t, "fatal error:") || strings.Contains(t, "panic: test timed out") {
			last, _ := os.ReadFile(out + ".last")
			res.Found = true
			res.Text = "the process died\nlast input: " + string(last) + "\n" + t
			return res, ""
		}
		return res, fmt.Sprintf("replay did not run (%v): %s", rerr, t)
	}
	if err := json.Unmarshal(data, &res); err != nil {
		return res, err.Error()
	}
	return res, ""
}

func checkProperty(ld *Loader, verif, prop, tier string, t0 time.Time) int {
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	ld.curProp = prop
	if tier == "thorough" {
		ld.timeoutMS = 60000
	} else {
		ld.timeoutMS = 20000
	}
	proveDeadline = t0.Add(600 * time.Second)
	if tier == "thorough" {
		proveDeadline = t0.Add(3000 * time.Second)
	}
	ts := plan(ld, prop, "", tier)
	var proofs []Task
	var bounded []*Harness
	for _, t := range ts {
		if t.h.bounded != "" {
			if t.split == 0 {
				bounded = append(bounded, t.h)
			}
			continue
		}
		proofs = append(proofs, t)
	}
	// the later cases are the bigger ones
	for i, j := 0, len(proofs)-1; i < j; i, j = i+1, j-1 {
		proofs[i], proofs[j] = proofs[j], proofs[i]
	}
	res := runTasks(ld, proofs, 8)
	var fails []*failure
	byKey := map[string]*failure{}
	addFail := func(h *Harness, split int, label, kind, pos, msg, detail string, hints, trace []string) {
		k := h.Name + "|" + label + "|" + msg
		f := byKey[k]
		if f == nil {
			f = &failure{h: h, label: label, kind: kind, pos: pos, msg: msg, detail: detail, hints: hints, trace: trace}
			byKey[k] = f
			fails = append(fails, f)
		}
		f.tasks = append(f.tasks, split)
	}
	finds := loadFindings(filepath.Join(verif, "known_findings.txt"))
	var ignore []string
	for _, f := range finds {
		ignore = append(ignore, f.obligation)
	}
	known := func(label string) *finding {
		for i := range finds {
			if finds[i].prop == prop && finds[i].obligation == label {
				return &finds[i]
			}
		}
		return nil
	}
	// what failed is first tried on the real code
	badSplits := map[*Harness][]int{}
	badHints := map[*Harness][]string{}
	var badOrder []*Harness
	for _, r := range res {
		bad := r.err != nil
		for _, o := range r.x.obls {
			if o.Status != "proved" && o.Kind != "vacuity" && known(o.Label) == nil {
				bad = true
				badHints[r.task.h] = append(badHints[r.task.h], o.Hints...)
			}
		}
		if bad {
			if badSplits[r.task.h] == nil {
				badOrder = append(badOrder, r.task.h)
			}
			badSplits[r.task.h] = append(badSplits[r.task.h], r.task.split)
		}
	}
	type conc struct {
		f   *failure
		res replayResult
	}
	var concrete []conc
	replayMsg := map[*Harness]string{}
	tried := 0
	for _, h := range badOrder {
		if len(concrete) > 0 || h.fn == nil || tried >= 8 {
			break
		}
		tried++
		hs := badHints[h]
		if len(hs) > 200 {
			hs = hs[:200]
		}
		r, msg := ld.replay(h, 2000000, 20, h.split, seed, hs, ignore, badSplits[h])
		if msg == "" && r.Found {
			f := &failure{h: h, label: strings.Join(r.Fails, ","), kind: "replayed", msg: "the real code breaks it"}
			concrete = append(concrete, conc{f, r})
		} else if msg != "" {
			replayMsg[h] = msg
		} else {
			replayMsg[h] = fmt.Sprintf("%d inputs tried (%d outside the precondition), none failed", r.Runs, r.Skipped)
		}
	}
	// undecided obligations get a second, longer attempt
	if len(concrete) == 0 {
		var again []int
		for i := range res {
			r := &res[i]
			unk := 0
			for _, o := range r.x.obls {
				if o.Status != "proved" && o.Kind != "vacuity" {
					unk++
				}
			}
			if r.err == nil && unk > 0 && unk <= 4 {
				again = append(again, i)
			}
		}
		if len(again) <= 16 && time.Since(t0) < 400*time.Second {
			ld.timeoutMS *= 3
			var ts []Task
			for _, i := range again {
				ts = append(ts, res[i].task)
			}
			for k, n := range runTasks(ld, ts, 4) {
				n.dur += res[again[k]].dur
				res[again[k]] = n
			}
		}
	}
	total, discharged, distinct, exits := 0, 0, 0, 0
	by := map[string]int{}
	kinds := map[string]int{}
	used := map[string]bool{}
	inl := map[string]bool{}
	contracts := map[string]bool{}
	loops := map[string]string{}
	var perTask []map[string]interface{}
	for _, r := range res {
		n, d := 0, 0
		for _, o := range r.x.obls {
			distinct++
			n += o.N
			d += o.Proved
			kinds[o.Kind] += o.N
			for k, v := range o.By {
				by[k] += v
			}
			if o.Status != "proved" {
				addFail(r.task.h, r.task.split, o.Label, o.Kind, o.Pos, o.Msg, fmt.Sprintf("%s: verifier answer %q for %d of %d path instances", o.Label, o.Status, o.N-o.Proved, o.N)+"\n"+tail(o.Script, 20000), o.Hints, o.Trace)
			}
		}
		if r.err != nil {
			n++
			addFail(r.task.h, r.task.split, r.task.h.Name+".verified", "not-verified", "", "the verifier could not process the code: "+r.err.Error(), r.err.Error(), nil, nil)
		}
		total += n
		discharged += d
		exits += r.x.exits
		for k := range r.x.used {
			used[k] = true
		}
		for k := range r.x.inlined {
			inl[k] = true
		}
		for k, v := range r.x.loops {
			loops[k] = v
		}
		if r.task.h.contract != nil {
			contracts[r.task.h.contract.name] = true
		}
		perTask = append(perTask, map[string]interface{}{"harness": r.task.h.Name, "case": r.task.split, "obligations": n, "discharged": d, "paths": r.x.exits, "seconds": float64(int(r.dur.Seconds()*100)) / 100})
	}
	if len(proofs) == 0 && len(bounded) == 0 {
		h := &Harness{Name: prop, Pkg: modPath}
		addFail(h, 0, prop+".specification", "not-verified", "", "no specification of this property applies to the code: "+strings.Join(ld.dropped, "; "), "", nil, nil)
	} else if len(ld.dropped) > 0 {
		for _, d := range ld.dropped {
			fmt.Println("note: specification does not type-check against the code:", d)
		}
	}
	// every harness declared for this property has to be there
	for _, m := range ld.missing(prop) {
		h := &Harness{Name: m, Pkg: modPath}
		addFail(h, 0, m+".verified", "not-verified", "", "specification "+m+" does not fit the code any more: "+strings.Join(ld.dropped, "; "), "", nil, nil)
	}
	// bounded stand-ins: executed on the real code
	evals, dist := 0, 0
	var samples []string
	var bdesc []map[string]interface{}
	sawKnown := map[string]bool{}
	for _, h := range bounded {
		n, budget := boundedSize(h, tier)
		r, msg := ld.replay(h, n, budget, h.split, seed, nil, ignore, nil)
		evals += r.Runs - r.Skipped
		dist += r.Distinct
		samples = append(samples, r.Samples...)
		for _, l := range r.Fails {
			if known(l) != nil {
				sawKnown[l] = true
			}
		}
		bdesc = append(bdesc, map[string]interface{}{"harness": h.Name, "bound": h.bounded, "runs": r.Runs, "outside_precondition": r.Skipped, "distinct": r.Distinct})
		if msg != "" {
			addFail(h, 0, h.Name+".run", "not-run", "", msg, msg, nil, nil)
		} else if r.Found {
			f := &failure{h: h, label: strings.Join(r.Fails, ","), kind: "bounded", msg: "bounded check failed"}
			concrete = append(concrete, conc{f, r})
		}
	}
	var viol []*failure
	for _, f := range fails {
		if known(f.label) != nil {
			sawKnown[f.label] = true
			continue
		}
		viol = append(viol, f)
	}
	for _, f := range finds {
		if f.prop == prop && sawKnown[f.obligation] {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, f.text, f.obligation)
		}
	}
	sort.SliceStable(viol, func(i, j int) bool { return rank(viol[i]) < rank(viol[j]) })
	nv := len(viol) + len(concrete)
	for _, f := range viol {
		if m := replayMsg[f.h]; m != "" {
			f.detail += "\nreplay: " + m
		}
	}
	exit := 0
	if nv > 0 {
		exit = 1
		rp := filepath.Join(outDir(verif), "replays", prop+".txt")
		os.MkdirAll(filepath.Dir(rp), 0o755)
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n\n", prop)
		for _, c := range concrete {
			fmt.Fprintf(&b, "FAILING INPUT (real code, harness %s, %s)\n%s\n", c.f.h.Name, c.f.label, c.res.Text)
			fmt.Fprintf(&b, "re-run: /verif/replay.sh %s\n\n", c.f.h.Name)
		}
		for _, f := range viol {
			fmt.Fprintf(&b, "FAILED OBLIGATION %s [%s] at %s: %s (harness %s, cases %v)\n  path: %s\n  hints: %s\n", f.label, f.kind, f.pos, f.msg, f.h.Name, f.tasks, strings.Join(f.trace, " "), strings.Join(f.hints, " "))
		}
		for _, f := range viol {
			fmt.Fprintf(&b, "\n---- %s ----\n%s\n", f.label, f.detail)
		}
		os.WriteFile(rp, []byte(b.String()), 0o644)
		for i, f := range viol {
			if i == 12 {
				fmt.Printf("... %d more\n", len(viol)-12)
				break
			}
			fmt.Printf("failed obligation %s [%s] %s: %s (harness %s)\n", f.label, f.kind, f.pos, f.msg, f.h.Name)
		}
		if len(concrete) > 0 {
			fmt.Printf("failing input found: %s\n", firstLines(concrete[0].res.Text, 6))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
		}
	}
	level := "proof"
	if len(proofs) == 0 {
		level = "exploration"
	}
	cov := map[string]interface{}{}
	if len(proofs) > 0 {
		cov["obligations"] = total
		cov["discharged"] = discharged
		cov["distinct_obligations"] = distinct
		cov["obligation_kinds"] = kinds
		cov["discharged_by"] = by
		cov["paths"] = exits
		cov["checker_cmd"] = fmt.Sprintf("/verif/check.sh %s %s", prop, tier)
		tb := append([]string{"verif engine (Go SSA to VC generator, /verif/engine)", "golang.org/x/tools/go/ssa (front end)", "z3 5.3.2 / cvc5 1.1.2", "Go compiler and runtime implement the Go specification"}, keys(used)...)
		cov["trusted_base"] = tb
		cov["functions_under_contract"] = keys(contracts)
		cov["functions_verified_by_inlining"] = keys(inl)
		cov["loops"] = loops
		cov["solver_queries"] = solver.nq
		cov["solver_time_s"] = float64(solver.timeNS) / 1e9
		cov["harnesses"] = perTask
	}
	if len(bounded) > 0 {
		cov["bounded_standins"] = bdesc
		cov["evaluations"] = evals
		cov["distinct_nontrivial"] = dist
		cov["rule"] = "inputs from the harness's generator (see bounded_standins); non-trivial: inside the precondition, distinct by rendered input"
		if len(samples) > 6 {
			samples = samples[:6]
		}
		cov["samples"] = samples
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": append(append(assumptions(used), deepNotes()...), fmt.Sprintf("%d known findings listed for this property", countFor(finds, prop))),
		"wall_s":      time.Since(t0).Seconds(), "violations": nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(outDir(verif), "evidence"), 0o755)
	os.WriteFile(filepath.Join(outDir(verif), "evidence", prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d obligations (%d distinct), %d discharged, %d bounded runs, %d violations, %.1fs\n", prop, total, distinct, discharged, evals, nv, time.Since(t0).Seconds())
	return exit
}

func countFor(fs []finding, p string) int {
	n := 0
	for _, f := range fs {
		if f.prop == p {
			n++
		}
	}
	return n
}

func boundedSize(h *Harness, tier string) (n, budget int) {
	f := strings.Fields(h.bounded)
	n, budget = 20000, 30
	if len(f) > 0 {
		if v, err := strconv.Atoi(f[0]); err == nil {
			n = v
		}
	}
	if tier == "thorough" {
		n *= 10
		budget = 240
	}
	return
}

func rank(f *failure) int {
	switch f.kind {
	case "postcondition", "frame":
		return 0
	case "no-panic", "unsafe-bounds", "lock":
		return 1
	case "not-verified":
		return 3
	}
	return 2
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	for i := range l {
		if len(l[i]) > 600 {
			l[i] = l[i][:600] + "..."
		}
	}
	return strings.Join(l, " | ")
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func assumptions(used map[string]bool) []string {
	a := []string{
		"machine integers are modelled with their exact width and wrap-around; slice lengths are at most 2^47",
		"memory allocation succeeds; stack depth is sufficient",
		"single-threaded execution of each function except where locks are modelled",
	}
	for _, k := range keys(used) {
		if !strings.HasPrefix(k, "executed from source") && !strings.HasPrefix(k, "contract ") {
			a = append(a, "assumed contract: "+k)
		}
	}
	return a
}

// missing lists harnesses declared for a property whose file was dropped.
func (ld *Loader) missing(prop string) []string {
	return ld.lost[prop]
}

// outDir is where evidence and replays go (VERIF_OUT is used when a planted
// bug is tried on a scratch copy).
func outDir(verif string) string {
	if d := os.Getenv("VERIF_OUT"); d != "" {
		return d
	}
	return verif
}

func deepNotes() (out []string) {
	for h, cs := range deepLeft {
		out = append(out, fmt.Sprintf("cases %v of %s are proved in the thorough tier only; this run covers them with a bounded run-time check of the same contract", cs, h.Name))
	}
	sort.Strings(out)
	return
}
