package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/qmuntal/gltf"

type Harness struct {
	Name      string
	Pkg       string
	File      string
	fn        *ssa.Function
	props     []string
	all       bool
	uses      map[string]bool
	deep      []int    // cases left to the thorough tier
	race      bool     // bounded: run under the race detector
	noDep     []string // properties whose check does not repeat this harness
	omit      []string // PROP:LABELPREFIX clauses that another property's check discharges
	skip      []string // postconditions not assumed from contracts (label prefixes)
	useList   []string
	contract  *Contract
	ctName    string
	split     int
	splitQ    int
	tier      string
	bounded   string
	frameProp string // the property whose check proves the declared frame
	limit     int
	fp        bool
	lean      bool // no facts about the values loops store
	note      string
}

type Loader struct {
	prog      *ssa.Program
	repo      string
	specDir   string
	pkgs      map[string]*ssa.Package
	mu        sync.Mutex
	loops     map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	contracts map[*ssa.Function]*Contract
	ctByName  map[string]*Contract
	guards    map[*ssa.Global]*ssa.Global
	mutMaps   map[*ssa.Global]bool
	harnesses []*Harness
	curProp   string
	timeoutMS int
	overlay   map[string]string // repo path -> spec file
	dropped   []string
	lost      map[string][]string
	errs      []string
}

// specFiles maps overlay paths in the repository to specification files.
func specFiles(repo, dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if strings.HasPrefix(rel, "root/") {
			rel = strings.TrimPrefix(rel, "root/")
		}
		d, f := filepath.Split(rel)
		if !strings.HasPrefix(rel, "zzverif/") {
			f = "zz_verif_" + f
		}
		out[filepath.Join(repo, d, f)] = p
		return nil
	})
	return out
}

func Load(repo, specDir string) (*Loader, error) {
	ld := &Loader{repo: repo, specDir: specDir, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, contracts: map[*ssa.Function]*Contract{}, ctByName: map[string]*Contract{}, guards: map[*ssa.Global]*ssa.Global{}, mutMaps: map[*ssa.Global]bool{}, pkgs: map[string]*ssa.Package{}, timeoutMS: 10000}
	ld.overlay = specFiles(repo, specDir)
	for try := 0; ; try++ {
		ov := map[string][]byte{}
		for p, s := range ld.overlay {
			b, err := os.ReadFile(s)
			if err != nil {
				return nil, err
			}
			ov[p] = b
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: append(os.Environ(), "GOFLAGS=-mod=readonly")}
		ps, err := packages.Load(cfg, "./...", modPath+"/zzverif")
		if err != nil {
			return nil, err
		}
		bad := map[string]string{}
		var fatal []string
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				f := strings.SplitN(e.Pos, ":", 2)[0]
				if _, ok := ld.overlay[f]; ok && !strings.Contains(f, "/zzverif/") {
					bad[f] = e.Error()
				} else {
					fatal = append(fatal, e.Error())
				}
			}
		})
		if len(bad) > 0 && try < 20 {
			// a specification file that no longer type-checks is left out
			for f, m := range bad {
				ld.dropped = append(ld.dropped, ld.overlay[f]+": "+m)
				ld.noteLost(ld.overlay[f])
				delete(ld.overlay, f)
			}
			continue
		}
		if len(fatal) > 0 {
			return nil, fmt.Errorf("load: %s", strings.Join(fatal, "; "))
		}
		prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
		prog.Build()
		ld.prog = prog
		for _, p := range spkgs {
			if p != nil {
				ld.pkgs[p.Pkg.Path()] = p
			}
		}
		break
	}
	ld.findGuards()
	if err := ld.findHarnesses(); err != nil {
		return nil, err
	}
	return ld, nil
}

// noteLost records the properties whose harnesses are in a dropped file.
func (ld *Loader) noteLost(file string) {
	af, err := parser.ParseFile(token.NewFileSet(), file, nil, parser.ParseComments)
	if err != nil {
		return
	}
	if ld.lost == nil {
		ld.lost = map[string][]string{}
	}
	for _, d := range af.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Doc == nil || !strings.HasPrefix(fd.Name.Name, "Verif_") {
			continue
		}
		for _, c := range fd.Doc.List {
			if strings.HasPrefix(c.Text, "//verif:prop ") {
				for _, p := range strings.Fields(c.Text)[1:] {
					ld.lost[p] = append(ld.lost[p], strings.TrimPrefix(fd.Name.Name, "Verif_"))
				}
			}
		}
	}
}

func (ld *Loader) relPath(p string) string {
	if s, ok := ld.overlay[p]; ok {
		if r, err := filepath.Rel(filepath.Dir(ld.specDir), s); err == nil {
			return r
		}
	}
	if r, err := filepath.Rel(ld.repo, p); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	return p
}

func (ld *Loader) isRepo(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	p := fn.Pkg
	if p == nil {
		if o := fn.Origin(); o != nil {
			p = o.Pkg
		} else if fn.Parent() != nil {
			return ld.isRepo(fn.Parent())
		} else if fn.Object() != nil && fn.Object().Pkg() != nil {
			return strings.HasPrefix(fn.Object().Pkg().Path(), modPath)
		}
	}
	return p != nil && strings.HasPrefix(p.Pkg.Path(), modPath)
}

// isSpecFn: functions declared in specification files.
func (ld *Loader) isSpecFn(fn *ssa.Function) bool {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	if !f.Pos().IsValid() {
		return false
	}
	p := ld.prog.Fset.Position(f.Pos()).Filename
	_, ok := ld.overlay[p]
	return ok
}

func isSpecName(n string) bool {
	return strings.HasPrefix(n, "spec") || strings.HasPrefix(n, "Spec")
}

func (ld *Loader) build(fn *ssa.Function) {
	if fn.Pkg != nil {
		fn.Pkg.Build()
	}
}

func (ld *Loader) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *loopInfo {
	ld.mu.Lock()
	defer ld.mu.Unlock()
	m, ok := ld.loops[fn]
	if !ok {
		m = map[*ssa.BasicBlock]*loopInfo{}
		for _, blk := range fn.Blocks {
			for _, s := range blk.Succs {
				if s.Dominates(blk) {
					lp := m[s]
					if lp == nil {
						lp = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
						m[s] = lp
					}
					// natural loop of the back edge blk -> s
					work := []*ssa.BasicBlock{blk}
					for len(work) > 0 {
						q := work[len(work)-1]
						work = work[:len(work)-1]
						if lp.blocks[q] {
							continue
						}
						lp.blocks[q] = true
						work = append(work, q.Preds...)
					}
				}
			}
		}
		ld.loops[fn] = m
	}
	return m[b]
}

// findGuards pairs package-level maps that are updated outside init with the
// mutex of their package.
func (ld *Loader) findGuards() {
	for _, p := range ld.pkgs {
		if !strings.HasPrefix(p.Pkg.Path(), modPath) || strings.HasSuffix(p.Pkg.Path(), "/zzverif") {
			continue
		}
		var locks []*ssa.Global
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := p.Members[n].(*ssa.Global); ok {
				ts := g.Type().(*types.Pointer).Elem().String()
				if ts == "sync.RWMutex" || ts == "sync.Mutex" {
					locks = append(locks, g)
				}
			}
		}
		var visit func(fn *ssa.Function)
		visit = func(fn *ssa.Function) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if mu, ok := in.(*ssa.MapUpdate); ok {
						if u, ok := mu.Map.(*ssa.UnOp); ok {
							if g, ok := u.X.(*ssa.Global); ok {
								ld.mutMaps[g] = true
								var l *ssa.Global
								if len(locks) > 0 {
									l = locks[0]
								}
								ld.guards[g] = l
							}
						}
					}
				}
			}
			for _, a := range fn.AnonFuncs {
				visit(a)
			}
		}
		for _, n := range names {
			if fn, ok := p.Members[n].(*ssa.Function); ok && fn.Synthetic == "" && !strings.HasPrefix(fn.Name(), "init") && !ld.isSpecFn(fn) {
				visit(fn)
			}
		}
	}
}

func (ld *Loader) findHarnesses() error {
	var paths []string
	for p := range ld.overlay {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	fset := token.NewFileSet()
	for _, p := range paths {
		if strings.Contains(p, "/zzverif/") {
			continue
		}
		src := ld.overlay[p]
		af, err := parser.ParseFile(fset, src, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(ld.repo, filepath.Dir(p))
		path := modPath
		if rel != "." {
			path += "/" + rel
		}
		sp := ld.pkgs[path]
		if sp == nil {
			return fmt.Errorf("no package %s", path)
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "Verif_") {
				continue
			}
			h := &Harness{Name: strings.TrimPrefix(fd.Name.Name, "Verif_"), Pkg: path, File: src, uses: map[string]bool{}, split: 1, splitQ: 0}
			h.fn = sp.Func(fd.Name.Name)
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(c.Text, "//")
					if !strings.HasPrefix(t, "verif:") {
						continue
					}
					fs := strings.Fields(strings.TrimPrefix(t, "verif:"))
					if len(fs) == 0 {
						continue
					}
					switch fs[0] {
					case "prop":
						h.props = fs[1:]
					case "contract":
						h.ctName = fs[1]
					case "use":
						h.useList = append(h.useList, fs[1:]...)
					case "split":
						h.split, _ = strconv.Atoi(fs[1])
					case "all":
						h.all = true
					case "tier":
						h.tier = fs[1]
					case "bounded":
						h.bounded = strings.Join(fs[1:], " ")
					case "frame":
						h.frameProp = fs[1]
					case "skip":
						h.skip = append(h.skip, fs[1:]...)
					case "race":
						h.race = true
					case "deep":
						for _, n := range fs[1:] {
							k, _ := strconv.Atoi(n)
							h.deep = append(h.deep, k)
						}
					case "omit":
						h.omit = append(h.omit, fs[1:]...)
					case "nodep":
						h.noDep = append(h.noDep, fs[1:]...)
					case "limit":
						h.limit, _ = strconv.Atoi(fs[1])
					case "fp":
						h.fp = true
					case "lean":
						h.lean = true
					default:
						return fmt.Errorf("%s: unknown directive %s", h.Name, fs[0])
					}
				}
			}
			ld.harnesses = append(ld.harnesses, h)
		}
	}
	for _, h := range ld.harnesses {
		if h.ctName == "" {
			continue
		}
		fn := ld.lookupFn(h.Pkg, h.ctName)
		if fn == nil {
			ld.dropped = append(ld.dropped, h.Name+": contract target "+h.ctName+" not found")
			continue
		}
		ct := &Contract{h: h, target: fn, name: h.Pkg[len(modPath):] + "." + h.ctName}
		h.contract = ct
		ld.contracts[fn] = ct
		ld.ctByName[h.Name] = ct
	}
	for _, h := range ld.harnesses {
		for _, u := range h.useList {
			ct := ld.ctByName[u]
			if ct == nil {
				continue // target gone: the body is used instead
			}
			h.uses[ct.name] = true
		}
	}
	return nil
}

// lookupFn resolves "F" or "T.M" / "*T.M" in a package.
func (ld *Loader) lookupFn(pkg, name string) *ssa.Function {
	sp := ld.pkgs[pkg]
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn := strings.TrimPrefix(name[:i], "*")
		m := sp.Members[tn]
		t, ok := m.(*ssa.Type)
		if !ok {
			return nil
		}
		var typ types.Type = t.Type()
		if name[0] == '*' {
			typ = types.NewPointer(typ)
		}
		for _, ty := range []types.Type{typ, types.NewPointer(typ)} {
			ms := ld.prog.MethodSets.MethodSet(ty)
			if sel := ms.Lookup(sp.Pkg, name[i+1:]); sel != nil {
				return ld.prog.MethodValue(sel)
			}
		}
		return nil
	}
	return sp.Func(name)
}
