package main

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(2)
}

// HarnessCfg describes one harness function.
type HarnessCfg struct {
	Name     string   `json:"name"` // pkg.Func
	Races    bool     `json:"races,omitempty"`
	Det      bool     `json:"det,omitempty"` // observations do not depend on the schedule
	MaxSteps int64    `json:"max_steps,omitempty"`
	Reach    []string `json:"reach,omitempty"`
	Secs     float64  `json:"secs,omitempty"`
	Thorough float64  `json:"thorough_secs,omitempty"`
	Bounds   string   `json:"bounds,omitempty"`
	BoundsT  string   `json:"bounds_thorough,omitempty"`
	NoHang   bool     `json:"no_hang,omitempty"` // reaching the step bound is not a suspected hang
	// Delays bounds how often a schedule may depart from the default one (each
	// departure costs the number of transitions passed over); nil: no bound.
	Delays  *int `json:"delays,omitempty"`
	DelaysT *int `json:"delays_thorough,omitempty"`

	thorough bool
}

// delayBound returns the bound of the tier in use, -1 if there is none.
func (h *HarnessCfg) delayBound() int {
	d := h.Delays
	if h.thorough && h.DelaysT != nil {
		d = h.DelaysT
	}
	if d == nil {
		return -1
	}
	return *d
}

type item struct {
	prefix []Decision
	model  map[string]uint64
}

type Violation struct {
	Harness  string            `json:"harness"`
	Kind     string            `json:"kind"`
	Msg      string            `json:"msg"`
	Pos      string            `json:"pos"`
	Inputs   map[string]uint64 `json:"inputs"`
	Order    []string          `json:"order"`
	Sched    []string          `json:"schedule,omitempty"`
	Choices  int               `json:"schedule_choices"`
	Reached  []string          `json:"reached,omitempty"`
	Trace    []Decision        `json:"-"`
	Thorough bool              `json:"thorough"`
	Excluded []string          `json:"excluded,omitempty"`
}

type Sample struct {
	Inputs map[string]uint64
	Obs    []string
	Sched  int
}

// Explorer runs one harness over all its paths.
type Explorer struct {
	p   *Program
	cfg *HarnessCfg

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []item
	idle     int
	nworkers int
	stop     bool
	deadline time.Time

	ends                            map[string]int64
	steps                           int64
	transitions                     int64
	forks                           int64
	asserts                         int64
	discharged                      int64
	queries                         int64
	cacheHits                       int64
	nsat, nunsat, nunknown, nsecond int64
	solverTime                      time.Duration
	wall                            time.Duration
	viol                            map[string][]*Violation
	nviol                           int
	firstViol                       time.Time
	inconc                          map[string]int
	reached                         map[string]bool
	funcs                           map[*fnInfo]bool
	samples                         []Sample
	seen                            int64
	maxDepth                        int
	maxSched                        int
	left                            int
	internal                        []string
}

// Worker owns a term context and a solver.
type Worker struct {
	e   *Explorer
	ctx *TermCtx
	sol *Solver

	forks, assertsChecked, discharged int64
	pushed                            []item
	dead                              bool
}

func (w *Worker) push(it item) { w.pushed = append(w.pushed, it) }

func (w *Worker) inconclusive(msg string) {
	w.e.mu.Lock()
	w.e.inconc[msg]++
	w.e.mu.Unlock()
}

func (w *Worker) harvest() {
	e := w.e
	if w.sol == nil {
		return
	}
	e.mu.Lock()
	e.queries += w.sol.Queries
	e.cacheHits += w.sol.Hits
	e.nsat += w.sol.NSat
	e.nunsat += w.sol.NUnsat
	e.nunknown += w.sol.NUnknown
	e.nsecond += w.sol.NSecond
	e.solverTime += w.sol.Time
	for _, m := range w.sol.Errs {
		e.internal = append(e.internal, "solver: "+m)
	}
	e.mu.Unlock()
	w.sol.Close()
	w.sol = nil
}

func (w *Worker) reset() {
	w.harvest()
	w.ctx = NewTermCtx()
	w.sol = NewSolver(w.ctx, solverCmd, 20000)
}

var solverCmd = strings.Fields(envOr("GOSYM_SOLVER", "cvc5 --lang=smt2 --incremental --bv-sat-solver=cadical --tlimit-per=2500"))

func envOr(k, d string) string {
	if s := os.Getenv(k); s != "" {
		return s
	}
	return d
}

type pathResult struct {
	end  pathEnd
	exec *Exec
}

func (w *Worker) runPath(it item) (res pathResult) {
	e := w.e
	x := &Exec{
		p: e.p, w: w, ctx: w.ctx, sol: w.sol, cfg: e.cfg,
		known: map[int]bool{}, model: &Model{}, startModel: it.model, prefix: it.prefix,
		globals: map[*ssa.Global]*Cell{}, inited: map[*ssa.Package]bool{}, maxStep: e.cfg.MaxSteps,
		mutexes: map[*Cell]*mutexState{}, wgs: map[*Cell]*wgState{}, side: map[interface{}]interface{}{},
		names: map[string]int{}, reached: map[string]bool{}, funcs: map[*fnInfo]bool{}, races: e.cfg.Races,
	}
	res.exec = x
	defer func() {
		if r := recover(); r != nil {
			switch p := r.(type) {
			case pathEnd:
				res.end = p
			case unsupported:
				res.end = pathEnd{kind: "unsupported", msg: string(p), pos: x.where()}
			default:
				if m := fmt.Sprint(r); strings.Contains(m, "main.Uninit") {
					res.end = pathEnd{kind: "unsupported", msg: "variable of a package that is not initialised", pos: x.safeWhere()}
					return
				}
				var buf [6000]byte
				n := runtime.Stack(buf[:], false)
				res.end = pathEnd{kind: "internal", msg: fmt.Sprintf("%v", r), pos: x.safeWhere() + "\n" + string(buf[:n])}
			}
		}
	}()
	i := strings.LastIndex(e.cfg.Name, ".")
	pkgPath, fnm := e.cfg.Name[:i], e.cfg.Name[i+1:]
	sp := e.p.pkgByPath(harnessPkg(pkgPath))
	if sp == nil {
		fatal("no package %s", pkgPath)
	}
	fn := sp.Func(fnm)
	if fn == nil {
		fatal("no harness %s", e.cfg.Name)
	}
	g := &Gor{path: "0", name: fn.String()}
	if x.races {
		g.vc = VC{1}
	}
	x.gors = []*Gor{g}
	x.cur = g
	g.push(x, fn, nil, nil, -1)
	x.runAll()
	res.end = pathEnd{kind: "ok"}
	return
}

func (x *Exec) safeWhere() (s string) {
	defer func() {
		if recover() != nil {
			s = "?"
		}
	}()
	return x.where()
}

func harnessPkg(s string) string {
	if strings.HasPrefix(s, "@") {
		if s == "@root" {
			return repoPath
		}
		return repoPath + "/" + s[1:]
	}
	return zz + s
}

func (e *Explorer) Run(nw int, budget time.Duration) {
	e.cond = sync.NewCond(&e.mu)
	e.ends = map[string]int64{}
	e.viol = map[string][]*Violation{}
	e.inconc = map[string]int{}
	e.reached = map[string]bool{}
	e.funcs = map[*fnInfo]bool{}
	if e.cfg.MaxSteps == 0 {
		e.cfg.MaxSteps = 400000
	}
	t0 := time.Now()
	e.deadline = t0.Add(budget)
	e.queue = []item{{}}
	e.nworkers = nw
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.work()
		}()
	}
	tm := time.AfterFunc(budget, func() { e.mu.Lock(); e.stop = true; e.cond.Broadcast(); e.mu.Unlock() })
	wg.Wait()
	tm.Stop()
	e.left = len(e.queue)
	e.wall = time.Since(t0)
}

const grace = 4 * time.Second

func (e *Explorer) work() {
	w := &Worker{e: e}
	defer w.harvest()
	for {
		e.mu.Lock()
		for len(e.queue) == 0 && !e.stop {
			e.idle++
			if e.idle == e.nworkers {
				e.stop = true
				e.cond.Broadcast()
				break
			}
			e.cond.Wait()
			e.idle--
		}
		if e.nviol > 0 && time.Since(e.firstViol) > grace || e.nviol > 400 {
			e.stop = true
			e.cond.Broadcast()
		}
		if e.stop {
			e.mu.Unlock()
			return
		}
		it := e.queue[len(e.queue)-1]
		e.queue = e.queue[:len(e.queue)-1]
		e.mu.Unlock()
		if w.sol == nil || w.ctx.nodes > 2000000 {
			w.reset()
		}
		w.pushed = w.pushed[:0]
		r := w.runPath(it)
		w.record(r)
	}
}

func (w *Worker) record(r pathResult) {
	e, x := w.e, r.exec
	var v *Violation
	kind := r.end.kind
	if kind == "violation" || kind == "deadlock" || kind == "steps" {
		// sanity: the model must satisfy the path condition
		for _, c := range x.pc {
			if x.ctx.Eval(c, x.model) != 1 {
				kind = "internal"
				r.end.msg = "model does not satisfy the path condition (" + r.end.msg + ")"
				break
			}
		}
	}
	if kind == "violation" || kind == "deadlock" || kind == "steps" && !e.cfg.NoHang {
		v = &Violation{Harness: e.cfg.Name, Kind: kind, Msg: r.end.msg, Pos: r.end.pos, Inputs: x.inputVals(),
			Sched: x.schedLog, Choices: x.schedChoices, Trace: x.trace, Thorough: e.cfg.thorough}
		for _, in := range x.inputs {
			v.Order = append(v.Order, in.Name)
		}
		for k := range x.reached {
			v.Reached = append(v.Reached, k)
		}
	}
	var smp *Sample
	e.mu.Lock()
	defer e.mu.Unlock()
	if kind == "ok" && len(x.observed) > 0 {
		// reservoir with a cap: keep the first and then ever sparser ones
		e.seen++
		if len(e.samples) < 24 {
			smp = &Sample{}
			e.samples = append(e.samples, *smp)
			e.samples[len(e.samples)-1] = x.sample()
		} else if k := int(e.seen*2654435761>>7) % int(e.seen); k >= 0 && k < 24 {
			e.samples[k] = x.sample()
		}
	}
	e.ends[kind]++
	e.steps += x.steps
	e.transitions += x.transitionsDone
	e.forks += int64(len(w.pushed))
	e.asserts += w.assertsChecked
	e.discharged += w.discharged
	w.assertsChecked, w.discharged = 0, 0
	if len(x.trace) > e.maxDepth {
		e.maxDepth = len(x.trace)
	}
	if x.schedChoices > e.maxSched {
		e.maxSched = x.schedChoices
	}
	for k := range x.reached {
		e.reached[k] = true
	}
	for k := range x.funcs {
		e.funcs[k] = true
	}
	switch kind {
	case "internal":
		if len(e.internal) < 10 {
			e.internal = append(e.internal, r.end.msg+" at "+r.end.pos)
		}
	case "unsupported", "alloc", "unknown":
		e.inconc[kind+": "+r.end.msg+" at "+r.end.pos]++
	case "steps":
		if e.cfg.NoHang {
			e.inconc["steps: "+r.end.msg]++
		}
	}
	if v != nil {
		k := v.Kind + "|" + firstPart(v.Msg)
		if kind == "steps" {
			k = "steps"
		}
		if e.nviol == 0 {
			e.firstViol = time.Now()
		}
		e.nviol++
		if len(e.viol[k]) < 6 {
			e.viol[k] = append(e.viol[k], v)
		}
	}
	e.queue = append(e.queue, w.pushed...)
	if len(w.pushed) > 0 {
		e.cond.Broadcast()
	}
}

func firstPart(s string) string {
	if i := strings.Index(s, "["); i > 0 {
		s = s[:i]
	}
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

func (x *Exec) inputVals() map[string]uint64 {
	r := map[string]uint64{}
	for _, in := range x.inputs {
		if in.T != nil {
			r[in.Name] = x.ctx.Eval(in.T, x.model)
		} else {
			r[in.Name] = in.V
		}
	}
	return r
}

func (x *Exec) sample() Sample {
	s := Sample{Inputs: x.inputVals(), Sched: x.schedChoices}
	for _, o := range x.observed {
		line := o.Label
		for _, v := range o.Vals {
			switch v := v.(type) {
			case Int:
				line += fmt.Sprintf(" %d", v.c)
			case bool:
				line += fmt.Sprintf(" %v", v)
			case *Term:
				k := x.ctx.Eval(v, x.model)
				if v.w == 0 {
					line += fmt.Sprintf(" %v", k == 1)
				} else {
					line += fmt.Sprintf(" %d", k)
				}
			case string:
				line += " " + v
			default:
				line += fmt.Sprintf(" ?%T", v)
			}
		}
		s.Obs = append(s.Obs, line)
	}
	return s
}

func (e *Explorer) paths() int64 {
	var n int64
	for _, c := range e.ends {
		n += c
	}
	return n
}

func (e *Explorer) complete() bool {
	return e.left == 0 && len(e.inconc) == 0 && len(e.internal) == 0
}

func (e *Explorer) summary() string {
	var ks []string
	for k := range e.ends {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var p []string
	for _, k := range ks {
		p = append(p, fmt.Sprintf("%s=%d", k, e.ends[k]))
	}
	return fmt.Sprintf("%s: paths %d (%s) left=%d steps=%d transitions=%d asserts=%d queries=%d hits=%d solver=%.1fs wall=%.1fs depth=%d sched=%d funcs=%d",
		e.cfg.Name, e.paths(), strings.Join(p, " "), e.left, e.steps, e.transitions, e.asserts, e.queries, e.cacheHits,
		e.solverTime.Seconds(), e.wall.Seconds(), e.maxDepth, e.maxSched, len(e.funcs))
}
