package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"go/token"
	"go/types"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// loadProgram loads the harness package of one property together with
// everything it imports, from the current sources.
func loadProgram(dir, pkg string, overlay map[string][]byte) (*Program, *ssa.Package, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     dir,
		Env:     os.Environ(),
		Fset:    token.NewFileSet(),
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, pkg, "verif/harness/rt", "runtime", "reflect")
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, "verif/") || strings.HasPrefix(p.PkgPath, "github.com/timtadh/") {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	tt.prog = prog
	p := &Program{prog: prog, pkgs: pkgs, globals: map[*ssa.Global]uint32{}, redirs: map[string]*ssa.Function{}}
	var hp, rt *ssa.Package
	for i, sp := range spkgs {
		switch pkgs[i].PkgPath {
		case pkg:
			hp = sp
		case "verif/harness/rt":
			rt = sp
		}
	}
	if hp == nil || rt == nil {
		return nil, nil, fmt.Errorf("harness package %s not found", pkg)
	}
	for name, fn := range redirNames {
		f := rt.Func(fn)
		if f == nil {
			return nil, nil, fmt.Errorf("rt.%s missing", fn)
		}
		p.redirs[name] = f
	}
	return p, hp, nil
}

// boot allocates the globals and runs package initialisers concretely.
func (e *Engine) boot(hp *ssa.Package) error {
	p := e.p
	h := &HarnessRun{name: "init", opt: HarnessOpt{maxSteps: 1 << 40}, inconcl: map[string]int{}, reach: map[string]int64{}, bounds: map[string]int{}, seenCand: map[string]bool{}}
	h.deadline = time.Now().Add(120 * time.Second)
	st := &State{h: h, epoch: newEpoch(), model: &Model{}}
	st.pages = []*page{{owner: st.epoch}}
	for _, pkg := range p.prog.AllPackages() {
		var names []string
		for n, m := range pkg.Members {
			if _, ok := m.(*ssa.Global); ok {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			g := pkg.Members[n].(*ssa.Global)
			t := typeOf(g.Type().Underlying().(*types.Pointer).Elem())
			id := st.alloc(max(t.cells, 1))
			if !initAllowed(pkg.Pkg.Path()) && n != "init$guard" {
				st.wobj(id).uninit = pkg.Pkg.Path()
			}
			p.globals[g] = id
		}
	}
	fi := p.info(hp.Func("init"))
	p.ensure(fi)
	st.threads = []*Thread{{owner: st.epoch, stack: []*Frame{{owner: st.epoch, fn: fi, regs: make([]Value, fi.nregs), prev: -1, dst: -1}}}}
	w := e.workers[0]
	w.runState(st)
	if len(h.inconcl) > 0 || len(h.cands) > 0 {
		msg := ""
		for k := range h.inconcl {
			msg += k + "; "
		}
		for _, c := range h.cands {
			msg += c.Kind + " " + c.Msg
		}
		return fmt.Errorf("package initialisation: %s", msg)
	}
	st.threads = nil
	st.pcn = nil
	st.steps = 0
	st.obs = nil
	p.base = st
	return nil
}

// start builds the initial state of a harness.
func (e *Engine) start(h *HarnessRun) *State {
	b := e.p.base
	st := *b
	st.h = h
	st.epoch = newEpoch()
	b.epoch = newEpoch()
	st.pages = append([]*page(nil), b.pages...)
	e.p.ensure(h.fi)
	st.threads = []*Thread{{owner: st.epoch, stack: []*Frame{{owner: st.epoch, fn: h.fi, regs: make([]Value, h.fi.nregs), prev: -1, dst: -1}}}}
	st.known = nil
	st.model = &Model{}
	st.globals = nil
	st.conc = nil
	return &st
}

// harnesses lists the exported V* functions of the harness package.
func harnesses(hp *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	for n, m := range hp.Members {
		f, ok := m.(*ssa.Function)
		if ok && strings.HasPrefix(n, "V") && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}
