// Command engine decides a property of /repo by symbolic execution of its SSA
// form with an SMT solver, replaying every counterexample on the real code.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

var debugPanics = os.Getenv("VERIF_DEBUG") != ""

func main() {
	root := flag.String("root", "/verif", "verification directory")
	prop := flag.String("property", "", "property id")
	only := flag.String("only", "", "run only harnesses with this prefix")
	tierF := flag.String("tier", "", "quick or thorough")
	budgetF := flag.Int("budget", 0, "time budget in seconds")
	replayF := flag.String("replay", "", "replay a violation file natively")
	verbose := flag.Bool("v", false, "verbose")
	prof := flag.String("cpuprofile", "", "write cpu profile")
	noEv := flag.Bool("noevidence", false, "do not write evidence")
	first := flag.Bool("first", false, "stop after the first harness that finds something")
	workers := flag.Int("workers", runtime.NumCPU(), "workers")
	flag.Parse()
	if v, err := strconv.Atoi(os.Getenv("VERIF_LITS")); err == nil {
		litLimit = v
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(12 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := *tierF
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	c := &Check{root: *root, id: *prop, tier: tier, seed: seed, only: *only, verbose: *verbose, start: time.Now(), noEv: *noEv, nworkers: *workers, first: *first}
	c.budget = 300 * time.Second
	if tier == "thorough" {
		c.budget = 1500 * time.Second
	}
	if *budgetF > 0 {
		c.budget = time.Duration(*budgetF) * time.Second
	}
	var code int
	if *replayF != "" {
		code = c.replayFile(*replayF)
	} else {
		code = c.run()
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}

type Check struct {
	root, id, tier, only string
	seed                 int
	verbose, noEv, first bool
	start                time.Time
	budget               time.Duration
	nworkers             int
	e                    *Engine
}

func (c *Check) logf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "[%6.1fs] "+f+"\n", append([]any{time.Since(c.start).Seconds()}, a...)...)
}

func (c *Check) fail(err error) int {
	fmt.Fprintf(os.Stderr, "check error: %v\n", err)
	return 3
}

type violation struct {
	c    *Candidate
	how  string
	path string
}

func (c *Check) run() int {
	pkg := "verif/harness/" + strings.ToLower(c.id)
	hdir := filepath.Join(c.root, "harness")
	p, hp, err := loadProgram(hdir, pkg, nil)
	if err != nil {
		return c.fail(err)
	}
	hs := harnesses(hp)
	var names []string
	for _, h := range hs {
		names = append(names, h.Name())
	}
	scratch, err := os.MkdirTemp("", "verif-"+c.id+"-")
	if err != nil {
		return c.fail(err)
	}
	defer os.RemoveAll(scratch)
	race := strings.Contains(raceProps, c.id)
	nat := &Replayer{plain: buildNative(hdir, scratch, pkg, names, race, nil), pkgs: p.pkgs, hdir: hdir, pkg: pkg, names: names, race: race}
	e := &Engine{p: p}
	for i := range e.queries {
		e.queries[i].m = map[string]answer{}
	}
	c.e = e
	for i := 0; i < c.nworkers; i++ {
		e.workers = append(e.workers, &Worker{id: i, e: e, s: newSolver(c.seed, 10000)})
	}
	defer func() {
		for _, w := range e.workers {
			w.s.close()
		}
	}()
	e.initRT()
	if err := e.boot(hp); err != nil {
		return c.fail(err)
	}
	if c.verbose {
		c.logf("loaded, %d objects", p.base.nobj)
	}
	var runs []*HarnessRun
	deadline := c.start.Add(c.budget)
	for i, f := range hs {
		if c.only != "" && !strings.HasPrefix(f.Name(), c.only) {
			continue
		}
		h := &HarnessRun{name: f.Name(), fi: p.info(f), inconcl: map[string]int{}, reach: map[string]int64{}, bounds: map[string]int{}, seenCand: map[string]bool{}}
		h.opt.thorough = c.tier == "thorough"
		h.opt.maxSteps = 20_000_000
		left := time.Until(deadline)
		if left < time.Second {
			left = time.Second
		}
		share := time.Duration(float64(left) / float64(len(hs)-i) * 3)
		h.deadline = time.Now().Add(min(left, share))
		e.explore(h, e.start(h))
		runs = append(runs, h)
		if c.verbose {
			c.logf("%s: paths=%d states=%d killed=%d steps=%d branches=%d asserts=%d proved=%d unknown=%d cands=%d inconcl=%d timeout=%v lost=%d depth=%d wall=%.2fs sched=%d", h.name, h.paths, h.states, h.killed, h.steps, h.branches, h.asserts, h.proved, h.unknown, len(h.cands), len(h.inconcl), h.timedOut, h.lost, h.maxDepth, h.wall.Seconds(), h.scheds)
			for k, n := range h.inconcl {
				c.logf("   inconclusive x%d: %s", n, k)
			}
			for k, n := range h.reach {
				c.logf("   reach %s: %d", k, n)
			}
			for _, cd := range h.cands {
				c.logf("   candidate %s: %s %v %v", cd.Kind, cd.Msg, inputsOf(cd.Inputs), cd.Sched)
			}
		}
		if c.first && len(h.cands) > 0 {
			break
		}
	}
	return c.report(runs, nat)
}

const raceProps = "C29 C30 C31 C38 C39 C41 C47"

func (c *Check) report(runs []*HarnessRun, nat *Replayer) int {
	thorough := c.tier == "thorough"
	var vs []violation
	var known []violation
	spurious := []string{}
	vseen := map[string]bool{}
	validated, mismatched := 0, 0
	var notes []string
	var samples []any
	for _, h := range runs {
		for _, cd := range h.cands {
			if vseen[h.name+cd.Msg] {
				continue
			}
			ok, how := nat.confirm(cd, thorough)
			if ok {
				vseen[h.name+cd.Msg] = true
				v := violation{cd, how, ""}
				if strings.HasPrefix(h.name, "VK") {
					known = append(known, v)
				} else {
					vs = append(vs, v)
				}
			} else {
				spurious = append(spurious, fmt.Sprintf("%s %s: %s (replay: %s)", h.name, cd.Kind, cd.Msg, how))
			}
			if len(vs) >= 3 {
				break
			}
		}
		// Concolic fallback for paths the engine could not finish.
		if len(vs) == 0 {
			k := 0
			for _, s := range h.inconclM {
				if k >= 20 {
					break
				}
				k++
				cd := &Candidate{Harness: h.name, Kind: "inconclusive", Msg: s.Why, Inputs: s.Inputs}
				if ok, how := nat.confirm(cd, thorough); ok {
					cd.Msg = "path not finished symbolically (" + s.Why + ") fails natively"
					vs = append(vs, violation{cd, how, ""})
					break
				}
			}
		}
		// Validate completed paths against the real code.
		var reqs []nativeReq
		var ss []*Sample
		for _, s := range h.samples {
			if hasRand(s.Inputs) && len(s.Sched) == 0 || anyOrder(s.Inputs) {
				continue
			}
			reqs = append(reqs, nativeReq{Harness: h.name, Inputs: inputsOf(s.Inputs), Thorough: thorough, Repeat: 1})
			ss = append(ss, s)
		}
		if len(reqs) > 0 && len(vs) == 0 {
			res, how := nat.plain.run(reqs, 120*time.Second)
		validate:
			for i, s := range ss {
				if i >= len(res) {
					mismatched++
					notes = append(notes, fmt.Sprintf("%s: native run ended early: %s inputs %v", h.name, how, inputsOf(s.Inputs)))
					if strings.HasPrefix(how, "crash") || how == "timeout" {
						cd := &Candidate{Harness: h.name, Kind: "native", Msg: "native run of a completed path: " + how, Inputs: s.Inputs}
						if ok, how2 := nat.confirm(cd, thorough); ok && len(h.cands) == 0 {
							if strings.HasPrefix(h.name, "VK") {
								known = append(known, violation{cd, how2, ""})
							} else {
								vs = append(vs, violation{cd, how2, ""})
							}
						}
					}
					break
				}
				r := res[i]
				switch {
				case r.Outcome == "ok" && fmt.Sprint(r.Obs) == fmt.Sprint(s.Obs):
					validated++
				case r.Outcome == "assert" || r.Outcome == "panic" || r.Outcome == "hang":
					mismatched++
					cd := &Candidate{Harness: h.name, Kind: r.Outcome, Msg: r.Msg, Inputs: s.Inputs}
					if strings.HasPrefix(h.name, "VK") {
						known = append(known, violation{cd, "native " + r.Outcome + ": " + r.Msg, ""})
					} else if len(h.cands) == 0 {
						vs = append(vs, violation{cd, "native " + r.Outcome + ": " + r.Msg, ""})
					}
					if r.Outcome == "hang" {
						break validate
					}
				default:
					mismatched++
					notes = append(notes, fmt.Sprintf("%s: native %s %v, engine %v, inputs %v", h.name, r.Outcome, r.Obs, s.Obs, inputsOf(s.Inputs)))
				}
				if len(samples) < 12 && i < 2 {
					samples = append(samples, map[string]any{"harness": h.name, "inputs": inputsOf(s.Inputs), "observed": s.Obs})
				}
			}
		}
	}
	followed, strayed := c.follow(runs, nat, len(vs) > 0)
	validated += followed
	<-nat.plain.done
	if nat.plain.err != nil {
		return c.fail(nat.plain.err)
	}
	for i := range vs {
		vs[i].path = c.writeReplay(&vs[i], i)
	}
	ev := c.evidence(runs, vs, known, spurious, notes, samples, validated, mismatched, strayed)
	if !c.noEv {
		dir := filepath.Join(c.root, "evidence")
		os.MkdirAll(dir, 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0o644); err != nil {
			return c.fail(err)
		}
	}
	for _, s := range spurious {
		c.logf("not reproduced: %s", s)
	}
	for _, s := range notes {
		c.logf("note: %s", s)
	}
	tot := int64(0)
	var vacuous []string
	reduced := false
	for _, h := range runs {
		tot += h.paths
		for k, n := range h.inconcl {
			c.logf("inconclusive %s x%d: %s", h.name, n, k)
		}
		if h.timedOut {
			c.logf("%s: time budget reached, %d states unexplored", h.name, h.lost)
		}
		if len(h.cands) == 0 && !h.timedOut && len(h.inconcl) == 0 && (h.paths == 0 || h.asserts == 0) {
			vacuous = append(vacuous, h.name)
		}
		reduced = reduced || h.timedOut || h.lost > 0 || len(h.inconcl) > 0 || h.unknown > 0
	}
	for _, v := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%s)\n", c.id, v.c.Harness, v.c.Msg, v.how)
	}
	for _, v := range vs {
		fmt.Printf("%s: %s: %s\n  inputs %v\n  native replay: %s\n", v.c.Harness, v.c.Kind, v.c.Msg, inputsOf(v.c.Inputs), v.how)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, v.path)
	}
	if len(vs) > 0 {
		return 1
	}
	if len(vacuous) > 0 {
		return c.fail(fmt.Errorf("nothing asserted on any path of %v", vacuous))
	}
	if tot == 0 && len(runs) > 0 {
		return c.fail(fmt.Errorf("no path of any harness completed"))
	}
	within := "within its bounds"
	if reduced {
		within = "within less than its bounds, see the evidence"
	}
	fmt.Printf("%s held %s: %d paths, %d traces validated, %.1fs\n", c.id, within, tot, validated, time.Since(c.start).Seconds())
	return 0
}

// follow runs sampled paths that depend on a schedule or on random draws in the
// build that follows them and compares what was observed.
func (c *Check) follow(runs []*HarnessRun, nat *Replayer, skip bool) (followed, strayed int) {
	if skip {
		return
	}
	var reqs []nativeReq
	var ss []*Sample
	for _, h := range runs {
		for _, s := range h.samples {
			if (len(s.Sched) > 0 || hasRand(s.Inputs)) && !anyOrder(s.Inputs) {
				reqs = append(reqs, nativeReq{Harness: h.name, Inputs: inputsOf(s.Inputs), Thorough: c.tier == "thorough", Repeat: 1, Sched: schedOf(s.Sched), Rand: randOf(s.Inputs)})
				ss = append(ss, s)
			}
		}
	}
	if len(reqs) == 0 {
		return
	}
	n := nat.controlled()
	res, how := n.run(reqs, 60*time.Second)
	for i, r := range res {
		if r.Outcome == "ok" && r.Followed && fmt.Sprint(r.Obs) == fmt.Sprint(ss[i].Obs) {
			followed++
		} else {
			strayed++
			if c.verbose {
				c.logf("schedule not followed: %s %v %v: %+v, engine %v", ss[i].Harness, reqs[i].Inputs, reqs[i].Sched, r, ss[i].Obs)
			}
		}
	}
	if c.verbose {
		c.logf("schedules followed %d, strayed %d of %d %s", followed, strayed, len(reqs), how)
	}
	return
}

func (c *Check) writeReplay(v *violation, i int) string {
	dir := filepath.Join(c.root, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.id, i))
	b, _ := json.MarshalIndent(map[string]any{
		"property": c.id, "tier": c.tier, "candidate": v.c, "native": v.how,
		"replay_with": fmt.Sprintf("./check %s --replay %s", c.id, path),
	}, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func (c *Check) replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		return c.fail(err)
	}
	var f struct {
		Property, Tier string
		Candidate      *Candidate
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return c.fail(err)
	}
	scratch, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		return c.fail(err)
	}
	defer os.RemoveAll(scratch)
	hdir, pkg, names := filepath.Join(c.root, "harness"), "verif/harness/"+strings.ToLower(f.Property), []string{f.Candidate.Harness}
	p, _, err := loadProgram(hdir, pkg, nil)
	if err != nil {
		return c.fail(err)
	}
	race := strings.Contains(raceProps, f.Property)
	nat := &Replayer{plain: buildNative(hdir, scratch, pkg, names, race, nil), pkgs: p.pkgs, hdir: hdir, pkg: pkg, names: names, race: race}
	ok, how := nat.confirm(f.Candidate, f.Tier == "thorough")
	fmt.Printf("reproduced=%v %s\n", ok, how)
	if ok {
		return 1
	}
	return 0
}

func (c *Check) evidence(runs []*HarnessRun, vs, known []violation, spurious, notes []string, samples []any, validated, mismatched, strayed int) map[string]any {
	var states, steps, paths, asserts, proved, unknown, branches, obligs int64
	exhaustive := true
	bounds := map[string]any{}
	per := []any{}
	inc := map[string]int{}
	for _, h := range runs {
		states += h.states
		steps += h.steps
		paths += h.paths
		asserts += h.asserts
		proved += h.proved
		unknown += h.unknown
		branches += h.branches
		obligs += h.obligs
		if h.timedOut || h.lost > 0 || len(h.inconcl) > 0 || h.unknown > 0 {
			exhaustive = false
		}
		bounds[h.name] = h.bounds
		for k, n := range h.inconcl {
			inc[h.name+": "+k] += n
		}
		per = append(per, map[string]any{"harness": h.name, "paths": h.paths, "states": h.states, "instructions": h.steps, "assertions_evaluated": h.asserts,
			"assertion_queries": h.obligs, "assertions_discharged": h.proved, "infeasible_or_assumed_away": h.killed, "undecided_queries": h.unknown, "completed": !h.timedOut && h.lost == 0,
			"states_left": h.lost, "reached": h.reach, "max_path_condition": h.maxDepth, "schedules_branched": h.scheds, "wall_s": h.wall.Seconds()})
	}
	var q, sat, unsat, unk, hits int
	var spent time.Duration
	var serrs []string
	for _, w := range c.e.workers {
		q += w.s.queries
		hits += w.cacheHits
		sat += w.s.nSat
		unsat += w.s.nUnsat
		unk += w.s.nUnk
		spent += w.s.spent
		serrs = append(serrs, w.s.errs...)
	}
	var fns []string
	c.e.p.fns.Range(func(k, v any) bool {
		fi := v.(*FnInfo)
		if fi.hits > 0 && strings.HasPrefix(fi.pkg, "github.com/timtadh/") {
			fns = append(fns, fi.name)
		}
		return true
	})
	sort.Strings(fns)
	if len(samples) == 0 {
		for _, v := range append(append([]violation{}, vs...), known...) {
			samples = append(samples, map[string]any{"harness": v.c.Harness, "inputs": inputsOf(v.c.Inputs), "outcome": v.c.Msg})
		}
	}
	cov := map[string]any{
		"states": states, "transitions": steps, "traces_validated_against_impl": validated, "samples": samples,
		"paths_completed": paths, "branches_decided": branches, "assertions_evaluated": asserts, "assertion_queries": obligs, "assertions_discharged": proved,
		"functions_encoded": fns, "bounds": bounds, "harnesses": per, "exhaustive": exhaustive,
		"solver":       map[string]any{"path": solverPath(), "queries": q, "sat": sat, "unsat": unsat, "unknown": unk, "repeated_queries_reused": hits, "cpu_s": spent.Seconds(), "errors": serrs},
		"inconclusive": inc, "not_reproduced": spurious, "trace_mismatches": mismatched, "schedules_not_followed": strayed, "notes": notes,
	}
	return map[string]any{
		"property": c.id, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"every value of the symbolic inputs within the bounds listed under coverage.bounds and in DESIGN.md; nothing outside them",
			"Go semantics as implemented by the engine over go/ssa (validated on sampled paths against the compiled code); map iteration in insertion order; runtime.Stack and runtime.Caller return nothing; formatting and logging are models",
			"math/rand results are arbitrary values in range; solver answers of " + filepath.Base(solverPath()) + " are trusted for unsat",
		},
		"wall_s": time.Since(c.start).Seconds(), "violations": len(vs), "known_findings": len(known),
	}
}
