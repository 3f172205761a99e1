package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"
)

type Task struct {
	h     *Harness
	split int
}

type TaskResult struct {
	task Task
	x    *Exec
	err  error
	dur  time.Duration
}

// plan lists the tasks deciding a property: its harnesses and, transitively,
// the contracts they rely on.
// thoroughTier: zz.Thorough holds.
var thoroughTier bool

// deepLeft lists the cases this run leaves to the thorough tier.
var deepLeft = map[*Harness][]int{}

func plan(ld *Loader, prop, only, tier string) []Task {
	thoroughTier = tier == "thorough"
	want := map[*Harness]bool{}
	var add func(h *Harness, dep bool)
	add = func(h *Harness, dep bool) {
		if want[h] {
			if dep {
				h.all = true
			}
			return
		}
		want[h] = true
		if dep {
			h.all = true
		}
		for _, u := range h.useList {
			if ct := ld.ctByName[u]; ct != nil && !slices.Contains(ct.h.noDep, prop) {
				add(ct.h, true)
			}
		}
	}
	for _, h := range ld.harnesses {
		if h.ctName != "" && h.contract == nil {
			continue
		}
		if only != "" {
			if ok, _ := filepath.Match(only, h.Name); ok {
				want[h] = true
				if prop == "" {
					h.all = true
				}
			}
			continue
		}
		if h.tier == "thorough" && tier != "thorough" {
			continue
		}
		for _, p := range h.props {
			if p == prop {
				add(h, false)
			}
		}
	}
	var hs []*Harness
	for h := range want {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	var ts []Task
	for _, h := range hs {
		for s := 0; s < h.split; s++ {
			if tier == "quick" && slices.Contains(h.deep, s) {
				deepLeft[h] = append(deepLeft[h], s)
				continue
			}
			ts = append(ts, Task{h, s})
		}
	}
	return ts
}

func runTasks(ld *Loader, ts []Task, workers int) []TaskResult {
	out := make([]TaskResult, len(ts))
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				out[i] = runTask(ld, ts[i])
			}
		}()
	}
	for i := range ts {
		ch <- i
	}
	close(ch)
	wg.Wait()
	return out
}

func runTask(ld *Loader, t Task) (r TaskResult) {
	t0 := time.Now()
	r.task = t
	x := NewExec(ld, t.h)
	x.split, x.nsplit = t.split, t.h.split
	x.fpMode = t.h.fp
	x.lean = t.h.lean
	if t.h.limit > 0 {
		x.limit = time.Duration(t.h.limit) * time.Second
	}
	r.x = x
	defer func() {
		r.dur = time.Since(t0)
		// keep the results only: the terms of a task take much memory
		r.x = &Exec{exits: x.exits, inlined: x.inlined, loops: x.loops, obls: x.obls, used: x.used}
		if e := recover(); e != nil {
			r.err = fmt.Errorf("internal error: %v", e)
			if os.Getenv("VDEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%v\n%s\n", e, debug.Stack())
			}
		}
	}()
	r.err = x.Verify()
	return
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/specs", "specification files")
	prop := flag.String("prop", "", "property")
	only := flag.String("only", "", "harness name pattern (development)")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	split := flag.Int("split", -1, "only this split")
	workers := flag.Int("j", 8, "parallel tasks")
	verif := flag.String("verif", "/verif", "verif directory")
	timeout := flag.Int("timeout", 0, "solver timeout, ms")
	rep := flag.String("replay", "", "run this harness on concrete inputs")
	nrep := flag.Int("n", 100000, "inputs to replay")
	list := flag.Bool("list", false, "list harnesses")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	if f := os.Getenv("VPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
		if d, err := time.ParseDuration(os.Getenv("VPROFT")); err == nil {
			time.AfterFunc(d, func() { pprof.StopCPUProfile(); os.Exit(3) })
		}
	}
	t0 := time.Now()
	ld, err := Load(*repo, *specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	defer solver.closeAll()
	if *timeout > 0 {
		ld.timeoutMS = *timeout
	}
	if *list {
		for _, h := range ld.harnesses {
			fmt.Println(h.Name, h.props, h.split, h.ctName, h.useList)
		}
		return
	}
	if *rep != "" {
		for _, d := range ld.dropped {
			fmt.Println("dropped", d)
		}
		bad := 0
		for _, h := range ld.harnesses {
			if ok, _ := filepath.Match(*rep, h.Name); ok {
				r, msg := ld.replay(h, *nrep, 60, h.split, 1, nil, nil, nil)
				fmt.Printf("%s: found=%v runs=%d skipped=%d distinct=%d %s %s\n", h.Name, r.Found, r.Runs, r.Skipped, r.Distinct, r.Text, msg)
				if r.Found || msg != "" {
					bad = 1
				}
			}
		}
		os.Exit(bad)
	}
	if *only != "" {
		ld.curProp = *prop
		fmt.Printf("load %.1fs dropped %v\n", time.Since(t0).Seconds(), ld.dropped)
		ts := plan(ld, *prop, *only, *tier)
		if *split >= 0 {
			var n []Task
			for _, t := range ts {
				if t.split == *split {
					n = append(n, t)
				}
			}
			ts = n
		}
		bad := 0
		for _, r := range runTasks(ld, ts, *workers) {
			st := "ok"
			nf := 0
			for _, o := range r.x.obls {
				if o.Status != "proved" {
					nf++
				}
			}
			if r.err != nil {
				st = "ERROR " + r.err.Error()
			} else if nf > 0 {
				st = fmt.Sprintf("%d FAILED", nf)
			}
			if st != "ok" {
				bad++
			}
			np := 0
			for _, o := range r.x.obls {
				np += o.N
			}
			fmt.Printf("%-40s/%d %6.1fs obls=%d (%d) exits=%d %s\n", r.task.h.Name, r.task.split, r.dur.Seconds(), len(r.x.obls), np, r.x.exits, st)
			for _, o := range r.x.obls {
				if o.Status != "proved" {
					fmt.Printf("    %s %s [%s] %s: %s (%d/%d)\n", o.Status, o.Label, o.Kind, o.Pos, o.Msg, o.Proved, o.N)
				}
			}
			if os.Getenv("VLIST") != "" {
				for _, o := range r.x.obls {
					fmt.Printf("    %s %s [%s] %s: %s (%d/%d) %v %dms\n", o.Status, o.Label, o.Kind, o.Pos, o.Msg, o.Proved, o.N, o.By, o.MS)
				}
			}
		}
		fmt.Printf("total %.1fs, %d tasks, %d bad; queries %d solver %.1fs\n", time.Since(t0).Seconds(), len(ts), bad, solver.nq, float64(solver.timeNS)/1e9)
		if bad > 0 {
			os.Exit(1)
		}
		return
	}
	os.Exit(checkProperty(ld, *verif, *prop, *tier, t0))
}

var _ = strings.Join
