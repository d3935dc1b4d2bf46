package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type propConf struct {
	Pkg     string             `json:"pkg"`
	Race    bool               `json:"race"`
	Quick   float64            `json:"quick_s"`
	Thor    float64            `json:"thorough_s"`
	Weights map[string]float64 `json:"weights"`
	Bounds  string             `json:"bounds"`
	Outside string             `json:"outside"`
	Assume  []string           `json:"assumptions"`
}

type knownEntry struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vengine check|replay|list ...")
		os.Exit(2)
	}
	debug.SetGCPercent(1000)
	mem := 14
	if n, err := strconv.Atoi(os.Getenv("VENGINE_MEM_GB")); err == nil {
		mem = n
	}
	debug.SetMemoryLimit(int64(mem) << 30)
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	os.Exit(2)
}

func loadConf() (map[string]*propConf, error) {
	b, err := os.ReadFile(filepath.Join(verifDir, "props.json"))
	if err != nil {
		return nil, err
	}
	var c map[string]*propConf
	return c, json.Unmarshal(b, &c)
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	only := fs.String("only", "", "only harnesses containing this")
	verbose := fs.Bool("v", false, "verbose")
	budget := fs.Float64("budget", 0, "seconds")
	noMerge := fs.Bool("nomerge", false, "no state merging")
	noFD := fs.Bool("nofd", false, "no finite-domain solver")
	workers := fs.Int("workers", 8, "workers")
	tierF := fs.String("tier", "", "tier")
	maxViol := fs.Int("maxviol", 1, "stop after this many violations")
	z3 := fs.String("z3", defaultSolver(), "solver")
	noEv := fs.Bool("noevidence", false, "do not write evidence")
	fs.Parse(args)
	if os.Getenv("VENGINE_FORKS") != "" {
		forkProf = map[string]int{}
		defer dumpForks()
	}
	if f := os.Getenv("VENGINE_PROF"); f != "" {
		fh, _ := os.Create(f)
		pprof.StartCPUProfile(fh)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if *tierF != "" {
		tier = *tierF
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	confs, err := loadConf()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	conf := confs[*prop]
	if conf == nil {
		fmt.Fprintln(os.Stderr, "no configuration for", *prop)
		return 2
	}
	P, err := loadProgram(conf.Pkg)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	loadS := time.Since(t0).Seconds()
	ex := &Explorer{P: P, prop: *prop, tier: tier, workers: *workers, maxSteps: maxSteps, noMerge: *noMerge, noFD: *noFD, verbose: *verbose,
		z3: *z3, qtmo: 8000, tried: map[string]int{}, known: map[string]string{}, knownSeen: map[string]string{}, maxViol: *maxViol}
	ex.cond = sync.NewCond(&ex.mu)
	var kf struct {
		Findings []knownEntry `json:"findings"`
	}
	if b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			return 2
		}
	}
	for _, k := range kf.Findings {
		ex.known[k.ID] = k.What
	}
	names := P.harnessNames(*prop)
	all := names
	if *only != "" {
		names = nil
		for _, n := range all {
			if strings.Contains(n, *only) {
				names = append(names, n)
			}
		}
	}
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		return 2
	}
	ex.native = buildNative(conf.Pkg, all, conf.Race)
	defer ex.native.close()
	total := conf.Quick
	if tier == "thorough" {
		total = conf.Thor
	}
	if total == 0 {
		total = 60
	}
	if *budget > 0 {
		total = *budget
	}
	var ws []*Worker
	for i := 0; i < *workers; i++ {
		w := &Worker{id: i, ex: ex, solver: newSolver(*z3, ex.qtmo)}
		ws = append(ws, w)
		defer w.solver.close()
	}
	end := time.Now().Add(time.Duration(total * float64(time.Second)))
	var hs []*Harness
	weight := func(n string) float64 {
		if w, ok := conf.Weights[n]; ok {
			return w
		}
		return 1
	}
	for i, n := range names {
		h := &Harness{name: n, fn: P.harness[n]}
		var rest float64
		for _, m := range names[i:] {
			rest += weight(m)
		}
		left := time.Until(end).Seconds()
		if left < 1 {
			left = 1
		}
		h.deadline = time.Now().Add(time.Duration(left * weight(n) / rest * float64(time.Second)))
		h.hard = hardDeadline(h.deadline, end)
		ex.runHarness(h, ws)
		hs = append(hs, h)
		if ex.stopped != 0 {
			break
		}
	}
	// the time that is left goes to the harnesses which need more
	for again := true; again && ex.stopped == 0; {
		again = false
		var open []*Harness
		for _, h := range hs {
			if h.left > 0 {
				open = append(open, h)
			}
		}
		for i, h := range open {
			left := time.Until(end).Seconds()
			if left < 1 || ex.stopped != 0 {
				break
			}
			again = true
			h.deadline = time.Now().Add(time.Duration(left / float64(len(open)-i) * float64(time.Second)))
			h.hard = hardDeadline(h.deadline, end)
			ex.runHarness(h, ws)
		}
	}
	for _, h := range hs {
		ex.debug("%s: paths=%d ended=%d aborted=%v left=%d exhausted=%v unknown=%d decides=%d fd=%d implied=%d forks=%d merges=%d steps=%d depth=%d pc=%d wall=%.1fs covers=%v repr=%v asserts=%v",
			h.name, h.paths, h.ended, h.aborted, h.left, h.exhausted, h.unknown, h.stats.decides, h.stats.fd, h.stats.implied, h.stats.forks, h.stats.merges, h.steps, h.maxDepth, h.maxPC, h.wall, h.covers, h.repr, h.asserts)
	}
	exploreS := time.Since(t0).Seconds() - loadS
	// validation of finished paths against the native build
	validated, mismatches := 0, []string{}
	if len(ex.violations) == 0 {
		for _, h := range hs {
			for _, j := range h.valid {
				o, err := ex.native.run(j, 1)
				if err != nil {
					mismatches = append(mismatches, err.Error())
					break
				}
				if o.Fail != "" || o.Panic != "" {
					// the native run breaks the property although the symbolic path does not: that is a real failure
					if o2, err := ex.native.run(j, 3); err == nil && (o2.Fail != "" || o2.Panic != "") && !strings.HasPrefix(o2.Fail, "does not terminate") {
						nat := o2.Fail
						if o2.Panic != "" {
							nat = "panic: " + o2.Panic
						}
						ex.violations = append(ex.violations, Violation{harness: j.Harness, label: "native run of a path which holds symbolically", native: nat, values: j.Values})
					}
					mismatches = append(mismatches, fmt.Sprintf("%s: native failure %s%s on %v", j.Harness, o.Fail, o.Panic, j.Values))
					continue
				}
				if o.Known != "" || o.Skipped {
					mismatches = append(mismatches, fmt.Sprintf("%s: native run skipped (%q) on %v", j.Harness, o.Known, j.Values))
					continue
				}
				if strings.Join(o.Obs, "\n") != strings.Join(j.expect, "\n") {
					mismatches = append(mismatches, fmt.Sprintf("%s: observations differ on %v:\n  native   %v\n  symbolic %v", j.Harness, j.Values, o.Obs, j.expect))
					continue
				}
				validated++
			}
		}
	}
	for _, m := range mismatches {
		fmt.Fprintln(os.Stderr, "WARNING mismatch:", m)
	}
	for _, w := range ws {
		s := w.solver
		ex.solverStat.q += s.nq
		ex.solverStat.sat += s.nsat
		ex.solverStat.unsat += s.nunsat
		ex.solverStat.unk += s.nunk
		ex.solverStat.err += s.nerr
		ex.solverStat.t += s.tsolve
	}
	rc := 0
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	for i := range ex.violations {
		v := &ex.violations[i]
		v.replay = filepath.Join(verifDir, "evidence", fmt.Sprintf("replay_%s_%d.json", *prop, i))
		writeJSON(v.replay, map[string]interface{}{"property": *prop, "harness": v.harness, "tier": tier, "values": v.values,
			"assertion": v.label, "native_outcome": v.native, "replay_cmd": "bin/vengine replay -prop " + *prop + " -file " + v.replay})
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, v.replay)
		fmt.Printf("  harness %s: %s\n  native run of the real code: %s\n", v.harness, v.label, v.native)
		rc = 1
	}
	var kids []string
	for id := range ex.knownSeen {
		kids = append(kids, id)
	}
	sort.Strings(kids)
	for _, id := range kids {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *prop, id, ex.known[id])
	}
	// evidence
	var paths, decides, forks, steps, unknown, nassert int64
	var samples []interface{}
	exhaustive := true
	per := []interface{}{}
	reduced := []string{}
	for _, h := range hs {
		paths += h.ended
		decides += int64(h.stats.decides)
		forks += int64(h.stats.forks)
		steps += h.steps
		unknown += h.unknown
		for _, n := range h.asserts {
			nassert += n
		}
		for _, s := range h.samples {
			samples = append(samples, s)
		}
		ab := map[string]int64{}
		for k, n := range h.aborted {
			ab[k] = n
			if k != "assume" {
				reduced = append(reduced, fmt.Sprintf("%s: %d paths cut (%s)", h.name, n, k))
				exhaustive = false
			}
		}
		if !h.exhausted {
			exhaustive = false
			if len(ex.violations) == 0 {
				reduced = append(reduced, fmt.Sprintf("%s: budget of the run ended with %d pending branches", h.name, h.left))
			}
		}
		if h.unknown > 0 {
			exhaustive = false
			reduced = append(reduced, fmt.Sprintf("%s: %d queries unknown", h.name, h.unknown))
		}
		for k, n := range h.repr {
			reduced = append(reduced, fmt.Sprintf("%s: %s above the limit represented by single values (%d times)", h.name, k, n))
		}
		per = append(per, map[string]interface{}{"harness": h.name, "paths_complete": h.ended, "paths_started": h.paths, "cut": ab,
			"branch_decisions": h.stats.decides, "implied": h.stats.implied, "forks": h.stats.forks, "finite_domain_decisions": h.stats.fd, "finite_domain_prunings_certified_by_smt": h.stats.certified, "merged_branches": h.stats.merges,
			"instructions": h.steps, "max_decisions_on_a_path": h.maxDepth, "assertions_checked": h.asserts, "reached": h.covers,
			"all_paths_within_bounds": h.exhausted && h.unknown == 0, "wall_s": h.wall})
		if h.ended == 0 && len(ex.violations) == 0 {
			fmt.Fprintf(os.Stderr, "WARNING: %s: no path reached its end (vacuous)\n", h.name)
		}
	}
	if samples == nil {
		samples = []interface{}{}
	}
	repoFns, otherFns := ex.functions()
	ev := map[string]interface{}{
		"property": *prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": time.Since(t0).Seconds(),
		"violations":  len(ex.violations),
		"assumptions": conf.Assume,
		"coverage": map[string]interface{}{
			"states": paths, "transitions": decides, "traces_validated_against_impl": validated, "samples": samples,
			"explanation":               "states = complete symbolic paths of the harnesses (each stands for all inputs satisfying its path condition); transitions = branch decisions put to the path condition or the solver",
			"exhaustive":                exhaustive,
			"evaluations":               nassert,
			"rule":                      "evaluations = assertion instances checked for all values of their path",
			"bounds":                    conf.Bounds,
			"outside":                   conf.Outside,
			"reduced":                   reduced,
			"harnesses":                 per,
			"instructions":              steps,
			"forks":                     forks,
			"solver":                    map[string]interface{}{"binary": *z3, "queries": ex.solverStat.q, "sat": ex.solverStat.sat, "unsat": ex.solverStat.unsat, "unknown": ex.solverStat.unk, "errors": ex.solverStat.err, "time_s": ex.solverStat.t.Seconds()},
			"functions_encoded":         repoFns,
			"library_functions_encoded": len(otherFns),
			"library_functions":         otherFns,
			"unreproduced_candidates":   ex.unrepro,
			"validation_mismatches":     mismatches,
			"engine_errors":             ex.engErrs,
			"known_findings_seen":       ex.knownSeen,
			"load_s":                    loadS, "explore_s": exploreS,
		},
	}
	if !*noEv {
		if err := writeJSON(filepath.Join(verifDir, "evidence", *prop+".json"), ev); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d paths, %d decisions, %d assertion instances, %d queries (%.1f s solver), %d traces validated, exhaustive=%v, %.1f s\n",
		*prop, tier, paths, decides, nassert, ex.solverStat.q, ex.solverStat.t.Seconds(), validated, exhaustive, time.Since(t0).Seconds())
	for _, r := range reduced {
		fmt.Println("  reduced:", r)
	}
	return rc
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	file := fs.String("file", "", "replay file")
	fs.Parse(args)
	confs, err := loadConf()
	if err != nil || confs[*prop] == nil {
		fmt.Fprintln(os.Stderr, "configuration:", err)
		return 2
	}
	b, err := os.ReadFile(*file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var j nativeJob
	if err := json.Unmarshal(b, &j); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	n := buildNative(confs[*prop].Pkg, []string{j.Harness}, confs[*prop].Race)
	defer n.close()
	o, err := n.run(j, 20)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ob, _ := json.MarshalIndent(o, "", " ")
	fmt.Println(string(ob))
	if o.Fail != "" || o.Panic != "" {
		return 1
	}
	return 0
}

func defaultSolver() string {
	if _, err := exec.LookPath("z3-new"); err == nil {
		return "z3-new"
	}
	return "z3"
}

// hardDeadline is when even a path which is being explored is given up.
func hardDeadline(d, end time.Time) time.Time {
	h := d.Add(20 * time.Second)
	if e := end.Add(2 * time.Second); h.After(e) {
		h = e
	}
	return h
}
