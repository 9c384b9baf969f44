package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Check is the configuration of one property.
type Check struct {
	Harnesses   []HarnessCfg `json:"harnesses"`
	Assumptions []string     `json:"assumptions"`
	Outside     string       `json:"outside"`
}

type known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: gosym check PROPERTY | replay FILE | run HARNESS")
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	verif := os.Getenv("GOSYM_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	repo := os.Getenv("GOSYM_REPO")
	if repo == "" {
		repo = "/repo"
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(verif, repo, os.Args[2], os.Args[3:]))
	case "replay":
		os.Exit(runReplay(verif, repo, os.Args[2]))
	}
	fatal("unknown command %s", os.Args[1])
}

func loadChecks(verif string) map[string]*Check {
	b, err := os.ReadFile(filepath.Join(verif, "harness/checks.json"))
	if err != nil {
		fatal("%v", err)
	}
	m := map[string]*Check{}
	if err := json.Unmarshal(b, &m); err != nil {
		fatal("checks.json: %v", err)
	}
	return m
}

func runReplay(verif, repo, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fatal("%v", err)
	}
	for _, f := range v.Excluded {
		excluded[f] = true
	}
	tmp, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(tmp)
	n := &Native{repo: repo, hdir: filepath.Join(verif, "harness"), tmp: tmp, harnesses: []string{v.Harness}}
	how, err := n.confirm(&v, 60*time.Second)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if how == "" {
		fmt.Println("not reproduced")
		return 0
	}
	fmt.Println(how)
	return 1
}

func runCheck(verif, repo, prop string, args []string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	only := ""
	verbose := false
	secs := 0.0
	nonative := false
	workers := runtime.NumCPU()
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-thorough":
			tier = "thorough"
		case "-quick":
			tier = "quick"
		case "-only":
			i++
			only = args[i]
		case "-v":
			verbose = true
		case "-secs":
			i++
			secs, _ = strconv.ParseFloat(args[i], 64)
		case "-nonative":
			nonative = true
		case "-j":
			i++
			workers, _ = strconv.Atoi(args[i])
		}
	}
	ck := loadChecks(verif)[prop]
	if ck == nil {
		fatal("no check for %s", prop)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	hdir := filepath.Join(verif, "harness")
	var hs []string
	for _, h := range ck.Harnesses {
		hs = append(hs, h.Name)
	}
	var p *Program
	for try := 0; ; try++ {
		pkgSet := map[string]bool{}
		for _, h := range hs {
			pkgSet[harnessPkg(h[:strings.LastIndex(h, ".")])] = true
		}
		var pats []string
		for p := range pkgSet {
			pats = append(pats, p)
		}
		sort.Strings(pats)
		var err error
		p, err = load(repo, hdir, pats, hs)
		if err == nil {
			break
		}
		// parts of the code that only harnesses know by name may have changed
		mis := misfits(repo, hdir, hs, err)
		for _, m := range mis {
			excluded[m] = true
		}
		ok, gone := remaining(repo, hdir, hs)
		if len(mis) == 0 || len(ok) == 0 || try > 4 {
			fmt.Fprintf(os.Stderr, "cannot load the code under test:\n%v\n", err)
			return 2
		}
		hs = ok
		for _, m := range mis {
			fmt.Printf("  INCONCLUSIVE: %s does not fit the code under test\n", m)
		}
		for _, g := range gone {
			fmt.Printf("  INCONCLUSIVE: %s is left out\n", g)
		}
	}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	nat := &Native{repo: repo, hdir: hdir, tmp: tmp, harnesses: hs}
	// warm the native build while the exploration runs
	warm := make(chan bool)
	go func() {
		defer close(warm)
		if nonative {
			return
		}
		seen := map[string]bool{}
		for _, h := range hs {
			pk := h[:strings.LastIndex(h, ".")]
			if !seen[pk] {
				seen[pk] = true
				nat.build(pk, variant{})
			}
		}
	}()
	loadTime := time.Since(t0)
	knowns := loadKnown(verif)
	ev := newEvidence(prop, tier, seed)
	exit := 0
	printedKnown := map[string]bool{}
	replayN := 0
	for i := range ck.Harnesses {
		h := ck.Harnesses[i]
		if !has(hs, h.Name) {
			continue
		}
		if only != "" && !strings.Contains(h.Name, only) {
			continue
		}
		h.thorough = tier == "thorough"
		budget := h.Secs
		if budget == 0 {
			budget = 30
		}
		if h.thorough {
			if h.Thorough > 0 {
				budget = h.Thorough
			} else {
				budget *= 8
			}
		}
		if secs > 0 {
			budget = secs
		}
		e := &Explorer{p: p, cfg: &h}
		e.Run(workers, time.Duration(budget*float64(time.Second)))
		fmt.Println(e.summary())
		for m, c := range e.inconc {
			fmt.Printf("  INCONCLUSIVE (%d): %s\n", c, m)
		}
		for _, m := range e.internal {
			fmt.Printf("  INTERNAL: %s\n", m)
		}
		for _, r := range h.Reach {
			if !e.reached[r] {
				fmt.Printf("  NOTE: situation %q was not reached\n", r)
			}
		}
		hev := ev.add(e, &h, budget)
		var keys []string
		for k := range e.viol {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		confirmBudget := 25 * time.Second
		for _, k := range keys {
			vs := e.viol[k]
			if kn := matchKnown(knowns, prop, vs[0]); kn != nil {
				if !printedKnown[kn.What] {
					printedKnown[kn.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kn.What)
				}
				continue
			}
			sort.SliceStable(vs, func(a, b int) bool { return vs[a].Choices < vs[b].Choices })
			if verbose {
				for _, v := range vs {
					fmt.Printf("  candidate: [%s] %s\n    at %s\n    inputs %s\n    reached %v\n", v.Kind, v.Msg, v.Pos, showInputs(v), v.Reached)
					for _, s := range v.Sched {
						fmt.Printf("      %s\n", s)
					}
				}
			}
			if nonative {
				exit = 1
				continue
			}
			if exit == 1 && !verbose {
				continue
			}
			<-warm
			confirmed := ""
			var cv *Violation
			per := confirmBudget
			for ix, v := range vs {
				if ix > 0 {
					per = confirmBudget / 4
				}
				how, err := nat.confirm(v, per)
				if err != nil {
					fmt.Println("  " + err.Error())
					break
				}
				if how != "" {
					confirmed, cv = how, v
					break
				}
			}
			if confirmed == "" {
				fmt.Printf("  INCONCLUSIVE: counterexample not reproduced natively: [%s] %s at %s inputs %s\n", vs[0].Kind, vs[0].Msg, vs[0].Pos, showInputs(vs[0]))
				hev["unconfirmed"] = append(hev["unconfirmed"].([]string), vs[0].Msg)
				continue
			}
			replayN++
			rp := filepath.Join(verif, "replays", fmt.Sprintf("%s-%d.json", prop, replayN))
			os.MkdirAll(filepath.Dir(rp), 0755)
			for f := range excluded {
				cv.Excluded = append(cv.Excluded, f)
			}
			b, _ := json.MarshalIndent(cv, "", " ")
			os.WriteFile(rp, b, 0644)
			fmt.Printf("  counterexample: [%s] %s\n    at %s\n    inputs %s\n    %s\n", cv.Kind, cv.Msg, cv.Pos, showInputs(cv), confirmed)
			if len(cv.Sched) > 0 && verbose {
				fmt.Printf("    schedule %s\n", strings.Join(cv.Sched, "; "))
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
			ev.violations++
			exit = 1
		}
		// validate completed paths against the compiled code
		if !nonative && exit == 0 {
			<-warm
			ok, bad := nat.validate(&h, e.samples, verbose)
			ev.validated += ok
			hev["native_mismatches"] = bad
		}
		if exit == 1 && !verbose {
			break
		}
	}
	<-warm
	ev.write(verif, ck, loadTime, time.Since(t0))
	return exit
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// loadKnown reads the lines of the form
//
//	finding: {"property": ..., "harness": ..., "match": ..., "what": ...}
func loadKnown(verif string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: ") {
			var k known
			if err := json.Unmarshal([]byte(strings.TrimPrefix(l, "finding: ")), &k); err != nil {
				fatal("KNOWN_FINDINGS.txt: %v", err)
			}
			ks = append(ks, k)
		}
	}
	return ks
}

func matchKnown(ks []known, prop string, v *Violation) *known {
	for i := range ks {
		k := &ks[i]
		if k.Property == prop && (k.Harness == "" || k.Harness == v.Harness) && strings.Contains(v.Kind+"|"+v.Msg+" at "+v.Pos, k.Match) {
			return k
		}
	}
	return nil
}

func showInputs(v *Violation) string {
	var p []string
	for _, n := range v.Order {
		p = append(p, fmt.Sprintf("%s=%d", n, v.Inputs[n]))
	}
	s := strings.Join(p, " ")
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

// validate replays sampled paths natively and compares what they observed.
func (n *Native) validate(h *HarnessCfg, samples []Sample, verbose bool) (ok, bad int) {
	if len(samples) == 0 {
		return
	}
	pkg := h.Name[:strings.LastIndex(h.Name, ".")]
	bin, err := n.build(pkg, variant{})
	if err != nil {
		fmt.Println("  " + err.Error())
		return
	}
	max := 8
	if h.thorough {
		max = 24
	}
	for i, s := range samples {
		if i >= max {
			break
		}
		o := n.exec(bin, jobT{Harness: h.Name, Inputs: s.Inputs, Thorough: h.thorough}, 15*time.Second, false)
		good := o.fail == "" && !o.assume
		if good && h.Det {
			good = strings.Join(o.obs, "\n") == strings.Join(s.Obs, "\n")
		}
		if good {
			ok++
			continue
		}
		bad++
		fmt.Printf("  MISMATCH between the compiled code and the symbolic execution of %s\n", h.Name)
		if verbose {
			fmt.Printf("    inputs %v\n    expected %v\n    native   %v\n    fail=%s assume=%v\n%s\n", s.Inputs, s.Obs, o.obs, o.fail, o.assume, tail(o.out))
		}
	}
	return
}

func tail(s string) string {
	if len(s) > 1500 {
		return s[len(s)-1500:]
	}
	return s
}

// ---------- evidence ----------

type evidence struct {
	prop, tier                                     string
	seed                                           int
	harn                                           []map[string]interface{}
	funcs                                          map[string]bool
	violations                                     int
	validated                                      int
	states                                         int64
	trans                                          int64
	queries, nsat, nunsat, nunknown, hits, asserts int64
	solver                                         float64
	samples                                        []interface{}
}

func newEvidence(prop, tier string, seed int) *evidence {
	return &evidence{prop: prop, tier: tier, seed: seed, funcs: map[string]bool{}}
}

func (ev *evidence) add(e *Explorer, h *HarnessCfg, budget float64) map[string]interface{} {
	var reach []string
	for k := range e.reached {
		reach = append(reach, k)
	}
	sort.Strings(reach)
	var inc []string
	for k, c := range e.inconc {
		inc = append(inc, fmt.Sprintf("%d x %s", c, k))
	}
	inc = append(inc, e.internal...)
	bounds := h.Bounds
	if h.thorough && h.BoundsT != "" {
		bounds = h.BoundsT
	}
	m := map[string]interface{}{
		"harness": h.Name, "bounds": bounds, "paths": e.paths(), "path_ends": e.ends, "complete_within_bounds": e.complete(),
		"unexplored_branches": e.left, "instructions": e.steps, "schedule_transitions": e.transitions, "forks": e.forks,
		"assertions_evaluated": e.asserts, "assertions_discharged_by_solver": e.discharged, "solver_queries": e.queries, "solver_cache_hits": e.cacheHits,
		"solver_sat": e.nsat, "solver_unsat": e.nunsat, "solver_unknown": e.nunknown, "queries_for_second_solver": e.nsecond, "solver_s": e.solverTime.Seconds(), "wall_s": e.wall.Seconds(),
		"budget_s": budget, "longest_decision_sequence": e.maxDepth, "most_schedule_choices": e.maxSched, "reached": reach,
		"inconclusive": inc, "unconfirmed": []string{}, "races_checked": h.Races, "max_instructions_per_path": h.MaxSteps,
	}
	ev.harn = append(ev.harn, m)
	for f := range e.funcs {
		ev.funcs[f.name] = true
	}
	ev.states += e.paths() + e.forks
	ev.trans += e.transitions + e.forks
	ev.queries += e.queries
	ev.hits += e.cacheHits
	ev.nsat += e.nsat
	ev.nunsat += e.nunsat
	ev.nunknown += e.nunknown
	ev.asserts += e.asserts
	ev.solver += e.solverTime.Seconds()
	for i, s := range e.samples {
		if i >= 3 {
			break
		}
		obs := s.Obs
		if len(obs) > 8 {
			obs = obs[:8]
		}
		ev.samples = append(ev.samples, map[string]interface{}{"harness": h.Name, "inputs": s.Inputs, "observed": obs})
	}
	return m
}

func (ev *evidence) write(verif string, ck *Check, lt, wall time.Duration) {
	var fs []string
	for f := range ev.funcs {
		fs = append(fs, strings.ReplaceAll(f, "github.com/Redundancy/go-sync", "go-sync"))
	}
	sort.Strings(fs)
	if ev.samples == nil {
		ev.samples = []interface{}{}
	}
	out := map[string]interface{}{
		"property": ev.prop, "tier": ev.tier, "seed": ev.seed, "level": "model_checking",
		"wall_s": wall.Seconds(), "violations": ev.violations,
		"assumptions": append(append([]string{}, commonAssumptions...), ck.Assumptions...),
		"coverage": map[string]interface{}{
			"states": ev.states, "transitions": ev.trans, "traces_validated_against_impl": ev.validated, "samples": ev.samples,
			"harnesses": ev.harn, "functions_encoded": fs, "solver_queries": ev.queries, "solver_cache_hits": ev.hits,
			"solver_sat": ev.nsat, "solver_unsat": ev.nunsat, "solver_unknown": ev.nunknown, "solver_s": ev.solver,
			"assertions_evaluated": ev.asserts, "encode_s": lt.Seconds(), "solver": strings.Join(solverCmd, " ") + "; then " + strings.Join(secondCmds[0], " ") + "; then " + strings.Join(secondCmds[1], " "),
			"outside_the_bounds": ck.Outside,
		},
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", ev.prop+".json"), append(b, '\n'), 0644); err != nil {
		fatal("%v", err)
	}
}

var commonAssumptions = []string{
	"The symbolic executor's semantics of Go SSA and the models of sync, channels, MD5, os and net/http in /verif/gosym and /verif/harness/stub are faithful (checked per run by replaying sampled paths natively).",
	"MD5 is modelled as a collision-free function: two blocks with equal strong checksum are equal.",
	"Goroutine schedules are explored at synchronisation points; code between them is treated as atomic, which data-race freedom justifies.",
}
