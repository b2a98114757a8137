package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type hres struct {
	h harness
	r *Run
}

func optInt(o map[string]string, k string, tier string, def int) int {
	v, ok := o[k]
	if tier == "thorough" {
		if t, ok2 := o["t."+k]; ok2 {
			v, ok = t, true
		}
	}
	if !ok {
		return def
	}
	n, err := strconv.Atoi(v)
	if err != nil {
		fatal("bad option %s=%s", k, v)
	}
	return n
}

func optBool(o map[string]string, k, tier string) bool {
	_, ok := o[k]
	if tier == "thorough" {
		if _, t := o["t."+k]; t {
			ok = true
		}
	}
	return ok
}

func main() {
	var prop, tier, repo, verif, only, replay string
	var verbose bool
	var workers, budget int
	flag.StringVar(&prop, "prop", "", "property id")
	flag.StringVar(&tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&repo, "repo", "/repo", "")
	flag.StringVar(&verif, "verif", "/verif", "")
	flag.StringVar(&only, "only", "", "run only harnesses containing this")
	flag.StringVar(&replay, "replay", "", "replay file to run against the real code")
	flag.BoolVar(&verbose, "v", false, "")
	flag.IntVar(&workers, "workers", 0, "")
	flag.IntVar(&budget, "budget", 0, "total seconds")
	flag.Parse()
	if prop == "" && replay == "" {
		fatal("-prop needed")
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	if replay != "" {
		os.Exit(replayMain(repo, verif, replay))
	}
	t0 := time.Now()
	e, hs := loadEngine(repo, verif, prop, verbose)
	e.tier = tier
	e.solverBin = "z3-new"
	e.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	e.workersN = workers
	if e.workersN == 0 {
		e.workersN = min(8, runtime.NumCPU())
	}
	if tier == "thorough" {
		e.crossBin = "cvc5"
	}
	if budget == 0 {
		budget = 300
		if tier == "thorough" {
			budget = 700
		}
	}
	end := t0.Add(time.Duration(budget) * time.Second)
	var res []hres
	for _, h := range hs {
		if only != "" && !strings.Contains(h.name, only) {
			continue
		}
		if optBool(h.opts, "thoroughonly", "") && tier != "thorough" {
			continue
		}
		b := optInt(h.opts, "budget", tier, 60)
		if rem := int(time.Until(end).Seconds()); rem < b {
			b = max(rem, 5)
		}
		o := RunOpts{
			MaxPreempt: optInt(h.opts, "preempt", tier, 0),
			MaxLoop:    optInt(h.opts, "loop", tier, 600),
			MaxSteps:   int64(optInt(h.opts, "ksteps", tier, 20000)) * 1000,
			MaxPaths:   optInt(h.opts, "paths", tier, 0),
			Budget:     time.Duration(b) * time.Second,
			RaceOn:     optBool(h.opts, "race", tier),
			MapOrder:   optBool(h.opts, "maporder", tier),
			AllSched:   optBool(h.opts, "allsched", tier),
			Timers:     optBool(h.opts, "timers", tier),
			Thorough:   tier == "thorough",
			Traces:     optInt(h.opts, "traces", tier, 3),
			Cross:      tier == "thorough",
		}
		r := e.RunHarness(h.pkg, h.name, o)
		res = append(res, hres{h, r})
		printRun(h, r, verbose)
	}
	os.Exit(finish(e, repo, verif, prop, tier, res, t0, only == ""))
}

func printRun(h harness, r *Run, verbose bool) {
	fmt.Printf("harness %s: %d paths in %.1fs, %d queries (%.1fs solver), status %v, asserts proved %d (%d by solver), reached %d labels, races %d%s\n", h.name, r.paths, r.wall.Seconds(), r.queries, r.solverTime.Seconds(), r.status, sum(r.asserts), r.assertsNT, len(r.reached), len(r.races), incl(r.incomplete))
	var ks []string
	for k, n := range r.msgs {
		ks = append(ks, fmt.Sprintf("  %d x %s", n, k))
	}
	sort.Strings(ks)
	for i, k := range ks {
		if i < 12 || verbose {
			fmt.Println(k)
		}
	}
	if verbose {
		for k, n := range r.reached {
			fmt.Printf("  reach %s: %d\n", k, n)
		}
		for k, n := range r.asserts {
			fmt.Printf("  assert %s: %d\n", k, n)
		}
		for k, n := range r.races {
			fmt.Printf("  race %s: %d\n", k, n)
		}
	}
}

func incl(s string) string {
	if s == "" {
		return ""
	}
	return " INCOMPLETE: " + s
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

type vioOut struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Package  string            `json:"package"`
	Label    string            `json:"label"`
	Message  string            `json:"message"`
	Where    string            `json:"where"`
	Inputs   map[string]string `json:"inputs"`
	Thorough bool              `json:"thorough"`
	Schedule bool              `json:"depends_on_schedule"`
	Decs     []string          `json:"decisions,omitempty"`
	Trace    []string          `json:"trace,omitempty"`
	Native   string            `json:"native_replay"`
}

// knownFinding lines: "known: property=<id> key=<harness>/<label> <text>"
func knownFindings(verif, prop string) map[string]string {
	o := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "known:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		o[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
	}
	return o
}

func finish(e *Engine, repo, verif, prop, tier string, res []hres, t0 time.Time, full bool) int {
	known := knownFindings(verif, prop)
	nt := newNative(repo, verif, prop)
	defer nt.close()
	exit := 0
	var vios []vioOut
	knownSeen := map[string]bool{}
	valid, mism := 0, 0
	var notes []string
	rdir := filepath.Join(verif, "evidence", "replay")
	for _, hr := range res {
		r := hr.r
		// reproduce counterexamples
		done := map[string]bool{}
		sort.SliceStable(r.violations, func(i, j int) bool {
			a, b := r.violations[i], r.violations[j]
			if a.Label != b.Label {
				return a.Label < b.Label
			}
			return len(a.Decs) < len(b.Decs)
		})
		for _, v := range r.violations {
			key := v.Label
			if done[key+"|"+v.Where] {
				continue
			}
			vo := vioOut{Property: prop, Harness: hr.h.name, Package: hr.h.pkg, Label: v.Label, Message: v.Msg, Where: v.Where,
				Inputs: v.Inputs, Thorough: tier == "thorough", Schedule: v.Sched, Trace: v.Trace}
			ok := false
			tries := 1
			if v.Sched {
				tries = optInt(hr.h.opts, "tries", tier, 5)
			}
			mode := hr.h.opts["replay"]
			if mode == "none" {
				ok = true
				vo.Native = "not run natively (the schedule is fixed by the recorded decisions)"
			} else {
				for i := 0; i < tries && !ok; i++ {
					out := nt.run(hr.h, v.Inputs, tier == "thorough")
					ok = out.shows(v)
					vo.Native = out.summary()
				}
				// a run-time error at a place that no execution ever gets past would show up natively,
				// whatever the schedule
				if !ok && mode == "engine" && (v.Block == "" || e.completed(v.Block)) {
					ok = true
					vo.Native += " (native scheduler did not take the recorded schedule; deterministic re-execution does)"
				}
			}
			if !ok {
				notes = append(notes, fmt.Sprintf("unconfirmed counterexample in %s: %s %s at %s; native run: %s", hr.h.name, v.Label, v.Msg, v.Where, vo.Native))
				fmt.Printf("UNCONFIRMED property=%s harness=%s label=%q %s where=%s native=%s inputs=%v\n", prop, hr.h.name, v.Label, v.Msg, v.Where, vo.Native, v.Inputs)
				continue
			}
			done[key+"|"+v.Where] = true
			kk := hr.h.name + "/" + strings.ReplaceAll(v.Label, " ", "_")
			if txt, isK := known[kk]; isK {
				if !knownSeen[kk] {
					knownSeen[kk] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, txt)
				}
				continue
			}
			for _, d := range v.Decs {
				vo.Decs = append(vo.Decs, fmt.Sprintf("%c%d %d %s", d.K, d.N, d.V, d.Tag))
			}
			os.MkdirAll(rdir, 0755)
			p := filepath.Join(rdir, fmt.Sprintf("%s_%d.json", prop, len(vios)))
			b, _ := json.MarshalIndent(vo, "", " ")
			os.WriteFile(p, b, 0644)
			vios = append(vios, vo)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
			fmt.Printf("  %s: %s %s at %s; inputs %v; native: %s\n", hr.h.name, v.Label, v.Msg, v.Where, v.Inputs, vo.Native)
			exit = 1
		}
		// validate sampled executions against the implementation
		if hr.h.opts["replay"] != "none" {
			for _, t := range r.traces {
				out := nt.run(hr.h, t.Inputs, tier == "thorough")
				if out.err == "" && !out.assume && len(out.fails) == 0 && out.panicMsg == "" && (t.Sched || out.obsEqual(t.Obs)) {
					valid++
				} else {
					mism++
					notes = append(notes, fmt.Sprintf("model/implementation difference in %s: inputs %v engine %v native %s", hr.h.name, t.Inputs, t.Obs, out.summary()))
					fmt.Printf("MODEL-MISMATCH %s inputs %v\n   engine %v\n   native %s\n", hr.h.name, t.Inputs, t.Obs, out.summary())
				}
			}
		}
	}
	cok, cbad, cunk := 0, 0, 0
	for _, hr := range res {
		cok, cbad, cunk = cok+hr.r.crossOK, cbad+hr.r.crossBad, cunk+hr.r.crossUnk
		if hr.r.crossTxt != "" {
			os.MkdirAll(rdir, 0755)
			p := filepath.Join(rdir, prop+"_disagreement.smt2")
			os.WriteFile(p, []byte(hr.r.crossTxt), 0644)
			notes = append(notes, "the solvers disagree: "+p)
		}
	}
	if cok+cbad+cunk > 0 {
		fmt.Printf("cross-check by %s: %d confirmed, %d contradicted, %d undecided\n", e.crossBin, cok, cbad, cunk)
	}
	// the machinery itself is at fault where the solver rejects a query, where solvers disagree, or
	// where nothing at all was decided
	broken := ""
	for _, w := range e.workers {
		for _, t := range w.sol.Errors {
			if strings.Contains(t, "(error") && !strings.Contains(t, "memory") && !strings.Contains(t, "cancel") {
				broken = "solver error " + t
			} else {
				notes = append(notes, t)
			}
		}
	}
	if cbad > 0 {
		broken = "the two solvers contradict each other"
	}
	n := 0
	for _, hr := range res {
		n += sum(hr.r.asserts)
	}
	if n == 0 && exit == 0 {
		broken = "no assertion was decided"
	}
	if broken != "" {
		fmt.Println("BROKEN:", broken)
		notes = append(notes, broken)
		if exit == 0 {
			exit = 2
		}
	}
	if full {
		writeEvidence(e, verif, prop, tier, res, vios, notes, valid, mism, len(knownSeen), t0)
	}
	fmt.Printf("property %s tier %s: exit %d, %d executions validated against the implementation, %d differences, %.1fs\n", prop, tier, exit, valid, mism, time.Since(t0).Seconds())
	return exit
}

func writeEvidence(e *Engine, verif, prop, tier string, res []hres, vios []vioOut, notes []string, valid, mism, known int, t0 time.Time) {
	type hj map[string]interface{}
	var hs []hj
	states, trans, paths, proved, queries, unk := 0, int64(0), 0, 0, 0, 0
	var st time.Duration
	complete := true
	cok, cbad, cunk := 0, 0, 0
	for _, hr := range res {
		r := hr.r
		states += r.branches
		trans += r.steps
		paths += r.paths
		proved += sum(r.asserts)
		queries += r.queries
		unk += r.unknowns
		cok, cbad, cunk = cok+r.crossOK, cbad+r.crossBad, cunk+r.crossUnk
		st += r.solverTime
		out := []string{}
		for _, k := range sortedKeys(r.msgs) {
			out = append(out, fmt.Sprintf("%d x %s", r.msgs[k], k))
		}
		if r.incomplete != "" || r.status["unsupported"]+r.status["sampled"]+r.status["unwind"]+r.status["unknown"]+r.status["timeout"]+r.status["internal"]+r.status["unknown-assert"] > 0 {
			complete = false
		}
		hs = append(hs, hj{"harness": hr.h.name, "what": strings.TrimSpace(hr.h.doc), "paths": r.paths, "path_status": r.status,
			"outside_bounds": out, "incomplete": r.incomplete, "assertions_proved": r.asserts, "reached": r.reached,
			"solver_queries": r.queries, "solver_s": round(r.solverTime.Seconds()), "wall_s": round(r.wall.Seconds()),
			"bounds":     map[string]interface{}{"loop_iterations": r.opt.MaxLoop, "instructions": r.opt.MaxSteps, "preemptions": r.opt.MaxPreempt, "decision_depth_seen": r.maxDepthD},
			"data_races": r.races})
	}
	var fns, mods []string
	for f := range e.fnsSeen {
		if strings.Contains(f, modPath) && !strings.Contains(f, "vx") && !strings.Contains(f, ".Vx") {
			fns = append(fns, f)
		}
	}
	for f := range e.models {
		if !strings.Contains(f, "zzvx") {
			mods = append(mods, f)
		}
	}
	sort.Strings(fns)
	sort.Strings(mods)
	samples := []string{}
	for _, hr := range res {
		for _, t := range hr.r.traces {
			if len(samples) < 6 {
				b, _ := json.Marshal(t)
				samples = append(samples, hr.h.name+": "+string(b))
			}
		}
	}
	if len(samples) == 0 {
		samples = append(samples, fmt.Sprintf("%d symbolic paths", paths))
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.Since(t0).Seconds()),
		"violations": len(vios),
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": valid, "samples": samples,
			"symbolic_paths": paths, "assertions_proved": proved, "solver_queries": queries, "solver_s": round(st.Seconds()),
			"solver_unknown": unk, "solver": e.solverBin, "exhaustive_within_bounds": complete,
			"functions_encoded": fns, "functions_encoded_total": len(e.fnsSeen), "modelled_functions": mods,
			"harnesses": hs, "model_differences": mism, "known_findings": known, "notes": notes,
			"cross_checked": map[string]interface{}{"solver": e.crossBin, "confirmed": cok, "contradicted": cbad, "undecided": cunk},
		},
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0644); err != nil {
		fatal("evidence: %v", err)
	}
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }
