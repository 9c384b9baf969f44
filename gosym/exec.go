package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------- compiled functions (shared by all workers) ----------

type opKind uint8

const (
	okNone opKind = iota
	okSlot
	okVal
	okGlobal
	okFunc
	okZero // fresh zero value of an aggregate type
	okBuiltin
)

type operand struct {
	kind opKind
	slot int
	v    Value
	g    *ssa.Global
	fn   *ssa.Function
	t    types.Type
}

type cinstr struct {
	in  ssa.Instruction
	ops []operand
	dst int // -1 if none
	w   int
	sg  bool
	ext interface{}
}

type fnInfo struct {
	fn     *ssa.Function
	nslots int
	code   [][]cinstr
	preds  []map[int]int // block -> pred block index -> edge position
	intr   intrinsic
	redir  *ssa.Function
	name   string
	inRepo bool
	noRace bool // models whose accesses are atomic (the file system)
}

type fnTable struct {
	mu sync.Mutex
	m  map[*ssa.Function]*fnInfo
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	p.fns.mu.Lock()
	defer p.fns.mu.Unlock()
	if fi, ok := p.fns.m[fn]; ok {
		return fi
	}
	fi := p.compile(fn)
	p.fns.m[fn] = fi
	return fi
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (p *Program) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, name: fnName(fn)}
	if h, ok := intrinsics[fi.name]; ok {
		fi.intr = h
		if !partial[fi.name] {
			return fi
		}
	}
	if r, ok := p.redirects[fi.name]; ok {
		fi.redir = r
		return fi
	}
	fi.inRepo = p.isRepoFn(fn)
	if fn.Pkg != nil {
		switch fn.Pkg.Pkg.Path() {
		case zz + "sym":
			fi.noRace = true
		case zz + "stub":
			fi.noRace = filepath.Base(p.fset.Position(fn.Pos()).Filename) != "hash.go"
		}
	}
	slots := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) { slots[v] = n; n++ }
	for _, a := range fn.Params {
		add(a)
	}
	for _, a := range fn.FreeVars {
		add(a)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nslots = n
	opnd := func(v ssa.Value) operand {
		switch v := v.(type) {
		case nil:
			return operand{}
		case *ssa.Const:
			return constOperand(v)
		case *ssa.Global:
			return operand{kind: okGlobal, g: v}
		case *ssa.Function:
			return operand{kind: okFunc, fn: v, v: &Closure{fn: v}}
		case *ssa.Builtin:
			return operand{kind: okBuiltin}
		}
		s, ok := slots[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %v in %v", v, fn))
		}
		return operand{kind: okSlot, slot: s}
	}
	for _, b := range fn.Blocks {
		var code []cinstr
		for _, in := range b.Instrs {
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				for _, e := range in.Edges {
					ci.ops = append(ci.ops, opnd(e))
				}
			default:
				var buf [16]*ssa.Value
				for _, vp := range in.Operands(buf[:0]) {
					if vp == nil {
						ci.ops = append(ci.ops, operand{})
					} else {
						ci.ops = append(ci.ops, opnd(*vp))
					}
				}
			}
			switch in := in.(type) {
			case *ssa.BinOp:
				ci.w, ci.sg = typeIntWidth(in.X.Type())
			case *ssa.UnOp:
				ci.w, ci.sg = typeIntWidth(in.X.Type())
			}
			code = append(code, ci)
		}
		fi.code = append(fi.code, code)
	}
	return fi
}

func constOperand(c *ssa.Const) operand {
	t := c.Type()
	if c.Value == nil {
		switch u := t.Underlying().(type) {
		case *types.Struct, *types.Array, *types.Tuple:
			return operand{kind: okZero, t: t}
		case *types.Basic:
			_ = u
		}
		var x *Exec
		return operand{kind: okVal, v: x.zero(t)}
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		if w, _ := intWidth(b); w > 0 {
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return operand{kind: okVal, v: mkInt(w, uint64(i))}
			}
			u, _ := constant.Uint64Val(v)
			return operand{kind: okVal, v: mkInt(w, u)}
		}
		switch {
		case b.Info()&types.IsBoolean != 0:
			return operand{kind: okVal, v: constant.BoolVal(c.Value)}
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return operand{kind: okVal, v: constant.StringVal(c.Value)}
			}
			i, _ := constant.Int64Val(c.Value)
			return operand{kind: okVal, v: string(rune(i))}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return operand{kind: okVal, v: f}
		case b.Info()&types.IsComplex != 0:
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return operand{kind: okVal, v: complex(re, im)}
		}
	}
	// e.g. constants of type-parameter type in uninstantiated generics
	return operand{kind: okVal, v: nil}
}

// ---------- path execution ----------

type deferRec struct {
	fn   *Closure
	args []Value
	bi   string // builtin name
	ci   *ssa.CallCommon
}

type Frame struct {
	fi        *fnInfo
	env       []Value
	blk, prev int
	pc        int
	defers    []deferRec
	dst       int // slot in caller
	// deferred call bookkeeping
	deferOf   *Frame
	unwinding bool // running deferred calls because of a panic
	running   bool // running deferred calls normally (RunDefers)
	panicVal  Iface
	recovered bool
	onRet     func(Value)
}

type goPanic struct{ v Iface }

type pathEnd struct {
	kind string // ok, assume, violation, deadlock, steps, unsupported, unknown, sleep
	msg  string
	pos  string
}

type Decision struct {
	Kind   byte // 'b' branch, 's' schedule
	Taken  bool
	Forced bool
	Val    uint64
}

type Exec struct {
	now        int64 // nanoseconds passed
	rand       uint64
	p          *Program
	w          *Worker
	ctx        *TermCtx
	sol        *Solver
	pc         []*Term
	known      map[int]bool
	model      *Model
	startModel map[string]uint64
	prefix     []Decision
	dpos       int
	trace      []Decision

	gors    []*Gor
	cur     *Gor
	globals map[*ssa.Global]*Cell
	inited  map[*ssa.Package]bool
	steps   int64
	maxStep int64
	mutexes map[*Cell]*mutexState
	wgs     map[*Cell]*wgState
	side    map[interface{}]interface{}
	sleep   []sleepEnt
	chanID  int

	inputs          []inputRec
	names           map[string]int
	observed        []obsRec
	reached         map[string]bool
	funcs           map[*fnInfo]bool
	schedLog        []string
	preempts        int
	poison          bool
	hashes          []hashRec
	knownHash       map[string][]Value
	schedChoices    int
	delays          int
	transitionsDone int64
	races           bool
	raceMsg         string
	cfg             *HarnessCfg
	asserts         int
	errCtor         int
	panicsOK        bool
	initing         int
	inconc          string
	capturing       bool
	printed         []byte
}

type inputRec struct {
	Name string
	T    *Term // nil when concrete
	V    uint64
	W    int
}

type obsRec struct {
	Label string
	Vals  []Value
}

func (x *Exec) end(kind, format string, a ...interface{}) {
	panic(pathEnd{kind: kind, msg: fmt.Sprintf(format, a...), pos: x.where()})
}

func (x *Exec) where() string {
	if x.cur == nil {
		return ""
	}
	var out []string
	for i := len(x.cur.stack) - 1; i >= 0 && len(out) < 6; i-- {
		f := x.cur.stack[i]
		p := ""
		if f.blk < len(f.fi.code) {
			pc := f.pc
			if pc > 0 {
				pc--
			}
			for k := pc; k >= 0 && k < len(f.fi.code[f.blk]); k-- {
				if ps := f.fi.code[f.blk][k].in.Pos(); ps.IsValid() {
					pp := x.p.fset.Position(ps)
					p = fmt.Sprintf("%s:%d", strings.TrimPrefix(pp.Filename, "/repo/"), pp.Line)
					break
				}
			}
		}
		out = append(out, f.fi.name+"@"+p)
	}
	return strings.Join(out, " < ")
}

// ---- path condition ----

func (x *Exec) addPC(c *Term) {
	if c.isConst() {
		return
	}
	if x.known[c.id] {
		return
	}
	if c.op == OAnd {
		x.addPC(c.args[0])
		x.addPC(c.args[1])
		x.known[c.id] = true
		return
	}
	x.pc = append(x.pc, c)
	x.known[c.id] = true
}

// relevant returns the path constraints that (transitively) share variables with q.
func (x *Exec) relevant(q *Term) []*Term {
	vars := q.vars
	used := make([]bool, len(x.pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, c := range x.pc {
			if !used[i] && bsIntersects(c.vars, vars) {
				used[i] = true
				changed = true
				out = append(out, c)
				vars = bsUnion(vars, c.vars)
			}
		}
	}
	return out
}

func (x *Exec) check(q *Term) (SatResult, *Model) {
	if q.isConst() {
		if q.k == 0 {
			return Unsat, nil
		}
		return Sat, x.model
	}
	if x.known[q.id] {
		return Sat, x.model
	}
	if q.op == ONot && x.known[q.args[0].id] {
		return Unsat, nil
	}
	cs := append(x.relevant(q), q)
	r, vals := x.sol.Check(cs)
	if r != Sat {
		return r, nil
	}
	m := x.model.clone()
	for _, v := range vals {
		m.put(v.ix, v.v)
	}
	return Sat, m
}

// Branch decides a symbolic condition, forking the path if both ways are feasible.
func (x *Exec) Branch(c *Term) bool { return x.branchVal(c, 0) }

func (x *Exec) branchVal(c *Term, val uint64) bool {
	if c.isConst() {
		return c.k == 1
	}
	if x.dpos < len(x.prefix) {
		d := x.prefix[x.dpos]
		x.dpos++
		if d.Kind != 'b' {
			panic(fmt.Sprintf("replay mismatch: expected branch, got %v at %d: %s", d, x.dpos-1, x.where()))
		}
		x.trace = append(x.trace, d)
		if !d.Forced {
			if d.Taken {
				x.addPC(c)
			} else {
				x.addPC(x.ctx.Not(c))
			}
		}
		return d.Taken
	}
	v := x.ctx.Eval(c, x.model) == 1
	other := c
	if v {
		other = x.ctx.Not(c)
	}
	d := Decision{Kind: 'b', Taken: v, Val: val}
	r, m := x.check(other)
	switch r {
	case Unsat:
		d.Forced = true
	case Sat:
		alt := append(append(make([]Decision, 0, len(x.trace)+1), x.trace...), Decision{Kind: 'b', Taken: !v, Val: val})
		x.w.push(item{prefix: alt, model: x.exportModel(m)})
		x.w.forks++
	case Unknown:
		x.w.inconclusive("solver unknown on a branch at " + x.where())
	}
	x.trace = append(x.trace, d)
	if !d.Forced {
		if v {
			x.addPC(c)
		} else {
			x.addPC(x.ctx.Not(c))
		}
	}
	return v
}

// Concretize forks over all feasible values of t.
func (x *Exec) Concretize(t *Term, what string) uint64 {
	if t.isConst() {
		return t.k
	}
	for n := 0; ; n++ {
		if n > 4096 {
			x.end("unsupported", "more than 4096 values for %s", what)
		}
		var v uint64
		if x.dpos < len(x.prefix) {
			v = x.prefix[x.dpos].Val
		} else {
			v = x.ctx.Eval(t, x.model)
		}
		c := x.ctx.Eq(t, x.ctx.Const(t.w, v))
		if c.isConst() {
			if c.k == 1 {
				return v
			}
			x.end("infeasible", "")
		}
		if x.branchVal(c, v) {
			return v
		}
	}
}

func (x *Exec) Assume(c *Term) {
	if c.isConst() {
		if c.k == 0 {
			x.end("assume", "")
		}
		return
	}
	if x.dpos < len(x.prefix) {
		// the prefix model satisfies it (or a later decision would not exist)
		d := x.prefix[x.dpos]
		x.dpos++
		x.trace = append(x.trace, d)
		x.addPC(c)
		return
	}
	if x.ctx.Eval(c, x.model) != 1 {
		r, m := x.check(c)
		switch r {
		case Unsat:
			x.end("assume", "")
		case Unknown:
			x.w.inconclusive("solver unknown on an assumption at " + x.where())
			x.end("unknown", "assume")
		}
		x.model = m
	}
	x.trace = append(x.trace, Decision{Kind: 'b', Taken: true})
	x.addPC(c)
}

// AssertT reports a violation if the negation is satisfiable.
func (x *Exec) AssertT(c *Term, msg string) {
	x.asserts++
	x.w.assertsChecked++
	if c.isConst() {
		if c.k == 0 {
			x.end("violation", "%s", msg)
		}
		return
	}
	if x.dpos < len(x.prefix) {
		// decided on an earlier run of this prefix
		d := x.prefix[x.dpos]
		x.dpos++
		x.trace = append(x.trace, d)
		if !d.Forced {
			x.addPC(c)
		}
		return
	}
	r, m := x.check(x.ctx.Not(c))
	switch r {
	case Unsat:
		x.w.discharged++
		x.trace = append(x.trace, Decision{Kind: 'b', Taken: true, Forced: true})
		return
	case Unknown:
		x.w.inconclusive("solver unknown on assertion " + msg + " at " + x.where())
		x.trace = append(x.trace, Decision{Kind: 'b', Taken: true})
		if x.ctx.Eval(c, x.model) != 1 {
			x.end("unknown", "assert %s", msg)
		}
		x.addPC(c)
		return
	}
	// explore the executions on which the assertion holds, too
	if rc, mc := x.check(c); rc == Sat {
		alt := append(append(make([]Decision, 0, len(x.trace)+1), x.trace...), Decision{Kind: 'b', Taken: true})
		x.w.push(item{prefix: alt, model: x.exportModel(mc)})
	}
	x.model = m
	x.end("violation", "%s", msg)
}

func (x *Exec) exportModel(m *Model) map[string]uint64 {
	r := map[string]uint64{}
	if m == nil {
		return r
	}
	for i := range m.vals {
		if m.set[i] {
			r[x.ctx.vars[i].name] = m.vals[i]
		}
	}
	return r
}

// ---- booleans and integers ----

func (x *Exec) truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return x.Branch(v)
	}
	panic(unsupported(fmt.Sprintf("truth of %T", v)))
}

func (x *Exec) term(v Value) *Term {
	switch v := v.(type) {
	case Int:
		return x.ctx.Const(int(v.w), v.c)
	case bool:
		return x.ctx.Bool(v)
	case *Term:
		return v
	}
	panic(unsupported(fmt.Sprintf("term of %T", v)))
}

// val wraps a term as a Value, concrete if constant.
func (x *Exec) val(t *Term) Value {
	if t.isConst() {
		if t.w == 0 {
			return t.k == 1
		}
		return mkInt(t.w, t.k)
	}
	return t
}

// cint returns a concrete signed integer, forking if symbolic.
func (x *Exec) cint(v Value, what string) int64 {
	switch v := v.(type) {
	case Int:
		return sext(v.c, int(v.w))
	case *Term:
		return sext(x.Concretize(v, what), v.w)
	}
	panic(unsupported(fmt.Sprintf("cint of %T", v)))
}

func (x *Exec) rtPanic(format string, a ...interface{}) {
	msg := "runtime error: " + fmt.Sprintf(format, a...)
	panic(goPanic{x.p.mkRuntimeError(x, msg)})
}

// ---- globals ----

func (x *Exec) global(g *ssa.Global) *Cell {
	if c, ok := x.globals[g]; ok {
		return c
	}
	if g.Pkg != nil {
		x.ensureInit(g.Pkg)
	}
	if c, ok := x.globals[g]; ok {
		return c
	}
	c := &Cell{v: x.zero(g.Type().(*types.Pointer).Elem())}
	x.globals[g] = c
	return c
}

// ensureInit runs the package initialiser (only that package's own; imports
// are initialised when one of their globals is first used).
func (x *Exec) ensureInit(p *ssa.Package) {
	if x.inited[p] {
		return
	}
	x.inited[p] = true
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := x.globals[g]; !ok {
				x.globals[g] = &Cell{v: x.zero(g.Type().(*types.Pointer).Elem())}
			}
		}
	}
	if x.p.skipInit(p) {
		for _, g := range x.p.initialised(p) {
			x.globals[g].v = Uninit{g.String()}
		}
		if h := specialInit[p.Pkg.Path()]; h != nil {
			h(x, p)
		}
		return
	}
	init := p.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	// run on a private goroutine to completion
	save := x.cur
	g := &Gor{id: -1, init: true}
	if save != nil {
		g.vc = save.vc
	}
	x.cur = g
	x.initing++
	g.push(x, init, nil, nil, -1)
	for len(g.stack) > 0 {
		x.run(g)
		if len(g.stack) > 0 && g.pending != nil {
			x.end("unsupported", "package init of %s blocks", p.Pkg.Path())
		}
	}
	x.initing--
	x.cur = save
}

// ---- goroutines ----

type Gor struct {
	id      int
	stack   []*Frame
	pending *pendOp
	nops    int
	done    bool
	init    bool
	vc      VC
	name    string
	path    string
	kids    int
	daemon  bool // waits for a time, which is not work left
	due     int64
}

func (g *Gor) top() *Frame { return g.stack[len(g.stack)-1] }

func (g *Gor) push(x *Exec, fn *ssa.Function, args []Value, env []Value, dst int) *Frame {
	fi := x.p.info(fn)
	return g.pushInfo(x, fi, args, env, dst)
}

func (g *Gor) pushInfo(x *Exec, fi *fnInfo, args []Value, env []Value, dst int) *Frame {
	if fi.code == nil {
		panic(unsupported("no body for " + fi.name))
	}
	if len(g.stack) > 2000 {
		x.end("steps", "call stack deeper than 2000 frames")
	}
	if fi.inRepo {
		x.funcs[fi] = true
	}
	f := &Frame{fi: fi, env: make([]Value, fi.nslots), dst: dst}
	copy(f.env, args)
	copy(f.env[len(fi.fn.Params):], env)
	g.stack = append(g.stack, f)
	return f
}

// opv fetches an operand.
func (x *Exec) opv(f *Frame, o *operand) Value {
	switch o.kind {
	case okSlot:
		return f.env[o.slot]
	case okVal, okFunc:
		return o.v
	case okGlobal:
		return Ptr{c: x.global(o.g)}
	case okZero:
		return x.zero(o.t)
	}
	return nil
}

// run executes g until it blocks on a visible operation or finishes.
func (x *Exec) run(g *Gor) {
	x.cur = g
	for len(g.stack) > 0 && g.pending == nil {
		x.runSome(g)
	}
	if len(g.stack) == 0 {
		g.done = true
	}
}

func (x *Exec) runSome(g *Gor) {
	defer func() {
		if r := recover(); r != nil {
			switch p := r.(type) {
			case goPanic:
				x.startPanic(g, p.v)
			case unsupported:
				panic(pathEnd{kind: "unsupported", msg: string(p), pos: x.where()})
			default:
				panic(r)
			}
		}
	}()
	for len(g.stack) > 0 && g.pending == nil {
		f := g.stack[len(g.stack)-1]
		ci := &f.fi.code[f.blk][f.pc]
		f.pc++
		x.steps++
		if x.steps > x.maxStep {
			x.end("steps", "more than %d instructions on one path", x.maxStep)
		}
		x.step(g, f, ci)
	}
}

// startPanic begins unwinding.
func (x *Exec) startPanic(g *Gor, v Iface) {
	x.unwind(g, v)
}

func (x *Exec) unwind(g *Gor, v Iface) {
	for len(g.stack) > 0 {
		f := g.top()
		if len(f.defers) > 0 {
			f.unwinding = true
			f.running = false
			f.panicVal = v
			f.recovered = false
			x.runOneDefer(g, f)
			return
		}
		g.stack = g.stack[:len(g.stack)-1]
		if f.onRet != nil {
			f.onRet = nil
		}
	}
	if g.init {
		x.end("unsupported", "package init panicked: %s", x.panicText(v))
	}
	x.end("violation", "uncaught panic: %s", x.panicText(v))
}

func (x *Exec) panicText(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	if s, ok := v.v.(string); ok {
		return s
	}
	if st, ok := v.v.(*Struct); ok && len(st.f) > 0 {
		if s, ok := st.f[0].v.(string); ok {
			return s
		}
	}
	if p, ok := v.v.(Ptr); ok && !p.isNil() {
		if st, ok := x.ptrCell(p).v.(*Struct); ok && len(st.f) > 0 {
			if s, ok := st.f[0].v.(string); ok {
				return s
			}
		}
	}
	return x.show(v)
}

// runOneDefer pops and starts one deferred call of f.
func (x *Exec) runOneDefer(g *Gor, f *Frame) {
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	n := len(g.stack)
	if d.bi != "" {
		x.builtin(g, f, d.bi, d.ci, d.args, -1)
		if g.pending == nil {
			x.afterDefer(g, f)
		} else {
			g.pending.after = func() { x.afterDefer(g, f) }
		}
		return
	}
	x.call(g, d.fn, d.args, -1)
	if len(g.stack) > n {
		g.top().deferOf = f
		return
	}
	// completed immediately (intrinsic) or blocked
	if g.pending != nil {
		g.pending.after = func() { x.afterDefer(g, f) }
		return
	}
	x.afterDefer(g, f)
}

// afterDefer continues after a deferred call of f has returned.
func (x *Exec) afterDefer(g *Gor, f *Frame) {
	if f.unwinding {
		if f.recovered {
			// stop unwinding: run the rest normally, then leave through Recover
			if len(f.defers) > 0 {
				x.runOneDefer(g, f)
				return
			}
			f.unwinding = false
			if rb := f.fi.fn.Recover; rb != nil {
				f.prev = f.blk
				f.blk = rb.Index
				f.pc = 0
				return
			}
			// no named results: return zero values
			res := x.zeroResults(f.fi.fn)
			x.ret(g, f, res)
			return
		}
		x.unwind(g, f.panicVal)
		return
	}
	// RunDefers in progress
	if len(f.defers) > 0 {
		x.runOneDefer(g, f)
		return
	}
	f.running = false
}

func (x *Exec) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return x.zero(r.At(0).Type())
	}
	return x.zero(r)
}

// ret pops frame f (the top) delivering res.
func (x *Exec) ret(g *Gor, f *Frame, res Value) {
	g.stack = g.stack[:len(g.stack)-1]
	if f.onRet != nil {
		f.onRet(res)
		return
	}
	if f.deferOf != nil {
		x.afterDefer(g, f.deferOf)
		return
	}
	if len(g.stack) == 0 {
		return
	}
	if f.dst >= 0 {
		g.top().env[f.dst] = res
	}
}

// call invokes a function value; the result goes to slot dst of the top frame.
func (x *Exec) call(g *Gor, c *Closure, args []Value, dst int) {
	if c == nil {
		x.rtPanic("invalid memory address or nil pointer dereference (nil func)")
	}
	if c.native != nil {
		v := c.native(x, g, args)
		if dst >= 0 && g.pending == nil {
			g.top().env[dst] = v
		}
		return
	}
	x.callFn(g, c.fn, args, c.env, dst)
}

func (x *Exec) callFn(g *Gor, fn *ssa.Function, args, env []Value, dst int) {
	fi := x.p.info(fn)
	if fi.redir != nil {
		fi = x.p.info(fi.redir)
	}
	if fi.intr != nil {
		c := &callCtx{fn: fn, args: args, dst: dst}
		v := fi.intr(x, g, c)
		if v == declined {
			g.pushInfo(x, fi, args, env, dst)
			return
		}
		if c.tail != nil {
			if fi2, ok := c.tail.(*Closure); ok {
				x.call(g, fi2, c.tailArgs, dst)
				return
			}
		}
		if g.pending == nil && dst >= 0 {
			g.top().env[dst] = v
		}
		return
	}
	if fi.code == nil {
		panic(unsupported("call to function without body: " + fi.name))
	}
	if g.init && fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil && len(g.stack) > 0 {
		return // imported package initialisers run lazily
	}
	g.pushInfo(x, fi, args, env, dst)
}

type callCtx struct {
	fn       *ssa.Function
	args     []Value
	dst      int
	tail     interface{}
	tailArgs []Value
}

type intrinsic func(x *Exec, g *Gor, c *callCtx) Value

// ---- pointers ----

func (x *Exec) load(g *Gor, p Value, t types.Type) Value {
	switch p := p.(type) {
	case Ptr:
		if p.isNil() {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		if p.arr != nil && len(p.arr.log) > 0 {
			return x.loadLogged(p.arr, x.ctx.Const(64, uint64(p.idx)), p.idx)
		}
		c := x.ptrCell(p)
		x.access(g, c, false)
		if u, ok := c.v.(Uninit); ok {
			panic(unsupported("variable of a package that is not initialised: " + u.name))
		}
		return x.copyVal(c.v)
	case SymPtr:
		return x.loadSym(g, p)
	}
	panic(unsupported(fmt.Sprintf("load through %T", p)))
}

func scalar(v Value) bool {
	switch v.(type) {
	case Int, *Term, bool:
		return true
	}
	return false
}

func (x *Exec) loadSym(g *Gor, p SymPtr) Value {
	if len(p.arr.log) > 0 {
		return x.loadLogged(p.arr, p.idx, -1)
	}
	// all candidates scalar: one ite chain
	lo, hi := 0, p.n-1
	if p.idx.lo > uint64(p.off) {
		lo = int(p.idx.lo) - p.off
	}
	if p.idx.hi < uint64(p.off+p.n-1) {
		hi = int(p.idx.hi) - p.off
	}
	all := true
	for i := lo; i <= hi; i++ {
		c := x.cell(p.arr, p.off+i)
		x.access(g, c, false)
		if !scalar(c.v) {
			all = false
			break
		}
	}
	if all {
		var r *Term
		for i := hi; i >= lo; i-- {
			v := x.term(x.cell(p.arr, p.off+i).v)
			if r == nil {
				r = v
			} else {
				r = x.ctx.Ite(x.ctx.Eq(p.idx, x.ctx.Const(64, uint64(p.off+i))), v, r)
			}
		}
		return x.val(r)
	}
	// group identical reference values: fork per group
	type grp struct {
		v    Value
		cond *Term
		n    int
	}
	var gs []grp
	for i := lo; i <= hi; i++ {
		v := x.cell(p.arr, p.off+i).v
		e := x.ctx.Eq(p.idx, x.ctx.Const(64, uint64(p.off+i)))
		found := false
		for k := range gs {
			if sameRef(gs[k].v, v) {
				gs[k].cond = x.ctx.Or(gs[k].cond, e)
				gs[k].n++
				found = true
				break
			}
		}
		if !found {
			gs = append(gs, grp{v, e, 1})
		}
	}
	sort.SliceStable(gs, func(i, j int) bool { return gs[i].n < gs[j].n })
	for k, gr := range gs {
		if k == len(gs)-1 || x.Branch(gr.cond) {
			return x.copyVal(gr.v)
		}
	}
	return nil
}

func sameRef(a, b Value) bool {
	switch a := a.(type) {
	case *Map:
		b, ok := b.(*Map)
		return ok && a == b
	case Ptr:
		b, ok := b.(Ptr)
		return ok && a == b
	case Slice:
		b, ok := b.(Slice)
		return ok && a == b
	case *Closure:
		b, ok := b.(*Closure)
		return ok && a == b
	case *Chan:
		b, ok := b.(*Chan)
		return ok && a == b
	case string:
		b, ok := b.(string)
		return ok && a == b
	case Int:
		b, ok := b.(Int)
		return ok && a == b
	case Iface:
		b, ok := b.(Iface)
		if !ok {
			return false
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		return types.Identical(a.t, b.t) && sameRef(a.v, b.v)
	}
	return false
}

func (x *Exec) loadLogged(a *Array, idx *Term, cidx int) Value {
	for i := len(a.log) - 1; i >= 0; i-- {
		if x.Branch(x.ctx.Eq(a.log[i].idx, idx)) {
			return x.copyVal(a.log[i].v)
		}
	}
	if cidx >= 0 {
		return x.copyVal(x.cell(a, cidx).v)
	}
	return x.loadSymNoLog(a, idx)
}

func (x *Exec) loadSymNoLog(a *Array, idx *Term) Value {
	sv := a.log
	a.log = nil
	v := x.loadSym(x.cur, SymPtr{arr: a, off: 0, n: a.n, idx: idx})
	a.log = sv
	return v
}

func (x *Exec) store(g *Gor, p Value, v Value) {
	switch p := p.(type) {
	case Ptr:
		if p.isNil() {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		if p.arr != nil && len(p.arr.log) > 0 {
			p.arr.log = append(p.arr.log, logEnt{x.ctx.Const(64, uint64(p.idx)), x.copyVal(v)})
			return
		}
		c := x.ptrCell(p)
		x.access(g, c, true)
		x.storeInto(c, v)
		return
	case SymPtr:
		if scalar(v) && len(p.arr.log) == 0 {
			ok := true
			for i := 0; i < p.n; i++ {
				if !scalar(x.cell(p.arr, p.off+i).v) {
					ok = false
					break
				}
			}
			if ok {
				nv := x.term(v)
				for i := 0; i < p.n; i++ {
					c := x.cell(p.arr, p.off+i)
					e := x.ctx.Eq(p.idx, x.ctx.Const(64, uint64(p.off+i)))
					if e.isConst() && e.k == 0 {
						continue
					}
					x.access(g, c, true)
					c.v = x.val(x.ctx.Ite(e, nv, x.term(c.v)))
				}
				return
			}
		}
		p.arr.log = append(p.arr.log, logEnt{p.idx, x.copyVal(v)})
		return
	}
	panic(unsupported(fmt.Sprintf("store through %T", p)))
}

// elemPtr makes a pointer to element idx of arr[off:off+n].
func (x *Exec) elemPtr(arr *Array, off, n int, idx Value) Value {
	switch i := idx.(type) {
	case Int:
		k := sext(i.c, int(i.w))
		if i.w == 64 && k < 0 || k < 0 || k >= int64(n) {
			x.rtPanic("index out of range [%d] with length %d", k, n)
		}
		return Ptr{arr: arr, idx: off + int(k)}
	case *Term:
		t := x.ctx.SExt(i, 64)
		inb := x.ctx.Ult(t, x.ctx.Const(64, uint64(n)))
		if !x.Branch(inb) {
			x.rtPanic("index out of range [symbolic] with length %d", n)
		}
		t = x.ctx.Add(t, x.ctx.Const(64, uint64(off)))
		if t.isConst() {
			return Ptr{arr: arr, idx: int(t.k)}
		}
		return SymPtr{arr: arr, off: off, n: n, idx: t}
	}
	panic(unsupported(fmt.Sprintf("index by %T", idx)))
}

func unsignedIdx(t types.Type) bool {
	_, sg := typeIntWidth(t)
	return !sg
}

// ---- one instruction ----

func (x *Exec) step(g *Gor, f *Frame, ci *cinstr) {
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		f.env[ci.dst] = Ptr{c: &Cell{v: x.zero(t)}}
	case *ssa.BinOp:
		f.env[ci.dst] = x.binop(in.Op, in.X.Type(), ci.w, ci.sg, x.opv(f, &ci.ops[0]), x.opv(f, &ci.ops[1]), in.Y.Type())
	case *ssa.UnOp:
		v := x.opv(f, &ci.ops[0])
		switch in.Op {
		case token.MUL:
			f.env[ci.dst] = x.load(g, v, in.Type())
		case token.ARROW:
			x.chanRecv(g, f, v, in.CommaOk, ci.dst)
		case token.SUB:
			if fl, ok := v.(float64); ok {
				f.env[ci.dst] = -fl
			} else if i, ok := v.(Int); ok {
				f.env[ci.dst] = mkInt(int(i.w), -i.c)
			} else {
				f.env[ci.dst] = x.val(x.ctx.Neg(x.term(v)))
			}
		case token.NOT:
			if b, ok := v.(bool); ok {
				f.env[ci.dst] = !b
			} else {
				f.env[ci.dst] = x.val(x.ctx.Not(x.term(v)))
			}
		case token.XOR:
			if i, ok := v.(Int); ok {
				f.env[ci.dst] = mkInt(int(i.w), ^i.c)
			} else {
				f.env[ci.dst] = x.val(x.ctx.BNot(x.term(v)))
			}
		default:
			panic(unsupported("unop " + in.Op.String()))
		}
	case *ssa.Store:
		x.store(g, x.opv(f, &ci.ops[0]), x.opv(f, &ci.ops[1]))
	case *ssa.If:
		c := x.opv(f, &ci.ops[0])
		b := f.fi.fn.Blocks[f.blk]
		if x.truth(c) {
			x.jump(f, b.Succs[0].Index)
		} else {
			x.jump(f, b.Succs[1].Index)
		}
	case *ssa.Jump:
		x.jump(f, f.fi.fn.Blocks[f.blk].Succs[0].Index)
	case *ssa.Phi:
		// handled in jump
		panic("phi reached")
	case *ssa.FieldAddr:
		p := x.opv(f, &ci.ops[0])
		pp, ok := p.(Ptr)
		if !ok {
			if sp, ok2 := p.(SymPtr); ok2 {
				k := x.Concretize(sp.idx, "array index of a struct element")
				pp = Ptr{arr: sp.arr, idx: int(k)}
			} else {
				panic(unsupported(fmt.Sprintf("FieldAddr of %T", p)))
			}
		}
		if pp.isNil() {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		if pp.arr != nil && len(pp.arr.log) > 0 {
			panic(unsupported("field address into an array written at a symbolic index"))
		}
		st, ok := x.ptrCell(pp).v.(*Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("FieldAddr into %T (%s)", x.ptrCell(pp).v, in.X.Type())))
		}
		f.env[ci.dst] = Ptr{c: &st.f[in.Field]}
	case *ssa.Field:
		st := x.opv(f, &ci.ops[0]).(*Struct)
		f.env[ci.dst] = x.copyVal(st.f[in.Field].v)
	case *ssa.IndexAddr:
		b := x.opv(f, &ci.ops[0])
		idx := x.opv(f, &ci.ops[1])
		if t, ok := idx.(*Term); ok && unsignedIdx(in.Index.Type()) {
			idx = x.val(x.ctx.ZExt(t, 64))
		} else if i, ok := idx.(Int); ok && i.w < 64 && unsignedIdx(in.Index.Type()) {
			idx = mkInt(64, i.c)
		}
		switch b := b.(type) {
		case Slice:
			f.env[ci.dst] = x.elemPtr(b.arr, b.off, b.len, idx)
		case Ptr:
			if b.isNil() {
				x.rtPanic("invalid memory address or nil pointer dereference")
			}
			a := x.ptrCell(b).v.(*Array)
			f.env[ci.dst] = x.elemPtr(a, 0, a.n, idx)
		default:
			panic(unsupported(fmt.Sprintf("IndexAddr of %T", b)))
		}
	case *ssa.Index:
		b := x.opv(f, &ci.ops[0])
		idx := x.opv(f, &ci.ops[1])
		if t, ok := idx.(*Term); ok && unsignedIdx(in.Index.Type()) {
			idx = x.val(x.ctx.ZExt(t, 64))
		} else if i, ok := idx.(Int); ok && i.w < 64 && unsignedIdx(in.Index.Type()) {
			idx = mkInt(64, i.c)
		}
		switch b := b.(type) {
		case *Array:
			f.env[ci.dst] = x.load(g, x.elemPtr(b, 0, b.n, idx), in.Type())
		default:
			f.env[ci.dst] = x.strIndex(b, idx)
		}
	case *ssa.Lookup:
		b := x.opv(f, &ci.ops[0])
		idx := x.opv(f, &ci.ops[1])
		if m, ok := b.(*Map); ok {
			v, ok := x.mapLookup(g, m, idx)
			if v == nil {
				v = x.zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				f.env[ci.dst] = Tuple{v, ok}
			} else {
				f.env[ci.dst] = v
			}
		} else {
			f.env[ci.dst] = x.strIndex(b, idx)
		}
	case *ssa.MapUpdate:
		m := x.opv(f, &ci.ops[0]).(*Map)
		x.mapUpdate(g, m, x.opv(f, &ci.ops[1]), x.copyVal(x.opv(f, &ci.ops[2])))
	case *ssa.MakeMap:
		f.env[ci.dst] = &Map{idx: map[interface{}]int{}}
	case *ssa.MakeChan:
		n := x.cint(x.opv(f, &ci.ops[0]), "channel capacity")
		x.chanID++
		f.env[ci.dst] = &Chan{id: x.chanID, cap: int(n), et: in.Type().Underlying().(*types.Chan).Elem()}
	case *ssa.MakeSlice:
		n := x.cint(x.opv(f, &ci.ops[0]), "slice length")
		c := x.cint(x.opv(f, &ci.ops[1]), "slice capacity")
		if n < 0 || n > 1<<40 {
			x.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<40 {
			x.rtPanic("makeslice: cap out of range")
		}
		if c > 1<<26 {
			x.end("alloc", "allocation of %d elements", c)
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		f.env[ci.dst] = Slice{arr: x.newArray(et, int(c)), len: int(n), cap: int(c)}
	case *ssa.MakeInterface:
		f.env[ci.dst] = Iface{t: in.X.Type(), v: x.copyVal(x.opv(f, &ci.ops[0]))}
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for i := range env {
			env[i] = x.opv(f, &ci.ops[i+1])
		}
		f.env[ci.dst] = &Closure{fn: in.Fn.(*ssa.Function), env: env}
	case *ssa.ChangeType:
		f.env[ci.dst] = x.opv(f, &ci.ops[0])
	case *ssa.ChangeInterface:
		f.env[ci.dst] = x.opv(f, &ci.ops[0])
	case *ssa.Convert:
		f.env[ci.dst] = x.convert(in.X.Type(), in.Type(), x.opv(f, &ci.ops[0]))
	case *ssa.MultiConvert:
		f.env[ci.dst] = x.convert(in.X.Type(), in.Type(), x.opv(f, &ci.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := x.opv(f, &ci.ops[0]).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			x.rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", s.len, n)
		}
		if s.off == 0 && s.arr != nil && s.arr.n == n {
			f.env[ci.dst] = Ptr{c: &Cell{v: s.arr}}
		} else {
			panic(unsupported("slice to array pointer with offset"))
		}
	case *ssa.Slice:
		f.env[ci.dst] = x.slice(g, f, in, ci)
	case *ssa.TypeAssert:
		f.env[ci.dst] = x.typeAssert(in, x.opv(f, &ci.ops[0]).(Iface))
	case *ssa.Extract:
		f.env[ci.dst] = x.opv(f, &ci.ops[0]).(Tuple)[in.Index]
	case *ssa.Range:
		v := x.opv(f, &ci.ops[0])
		switch v := v.(type) {
		case *Map:
			f.env[ci.dst] = x.rangeMap(g, v)
		default:
			f.env[ci.dst] = &strIter{s: v}
		}
	case *ssa.Next:
		it := x.opv(f, &ci.ops[0])
		f.env[ci.dst] = x.next(g, in, it)
	case *ssa.Call:
		x.doCall(g, f, &in.Call, ci, ci.dst)
	case *ssa.Go:
		c, args, bi := x.callee(f, &in.Call, ci)
		if bi != "" {
			panic(unsupported("go builtin"))
		}
		x.spawn(g, c, args)
	case *ssa.Defer:
		c, args, bi := x.callee(f, &in.Call, ci)
		target := f
		if in.DeferStack != nil {
			if fr, ok := x.opv(f, &ci.ops[len(ci.ops)-1]).(*Frame); ok {
				target = fr
			}
		}
		target.defers = append(target.defers, deferRec{fn: c, args: args, bi: bi, ci: &in.Call})
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			f.running = true
			x.runOneDefer(g, f)
		}
	case *ssa.Return:
		var res Value
		switch len(ci.ops) {
		case 0:
		case 1:
			res = x.opv(f, &ci.ops[0])
		default:
			t := make(Tuple, len(ci.ops))
			for i := range ci.ops {
				t[i] = x.opv(f, &ci.ops[i])
			}
			res = t
		}
		x.ret(g, f, res)
	case *ssa.Panic:
		v := x.opv(f, &ci.ops[0]).(Iface)
		panic(goPanic{v})
	case *ssa.Send:
		x.chanSend(g, f, x.opv(f, &ci.ops[0]), x.copyVal(x.opv(f, &ci.ops[1])))
	case *ssa.Select:
		x.doSelect(g, f, in, ci)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", ci.in)))
	}
}

func (x *Exec) jump(f *Frame, to int) {
	from := f.blk
	f.prev = from
	f.blk = to
	code := f.fi.code[to]
	n := 0
	for n < len(code) {
		if _, ok := code[n].in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	f.pc = n
	if n == 0 {
		return
	}
	b := f.fi.fn.Blocks[to]
	e := -1
	for i, p := range b.Preds {
		if p.Index == from {
			e = i
			break
		}
	}
	// two edges from the same predecessor carry the same phi values only if
	// both If targets coincide; ssa keeps them equal in that case
	if n == 1 {
		f.env[code[0].dst] = x.opv(f, &code[0].ops[e])
		return
	}
	var tmp [16]Value
	vals := tmp[:0]
	for i := 0; i < n; i++ {
		vals = append(vals, x.opv(f, &code[i].ops[e]))
	}
	for i := 0; i < n; i++ {
		f.env[code[i].dst] = vals[i]
	}
	x.steps += int64(n)
}

// callee resolves a call instruction. ops: [Value, Args...] or for invoke [recv, Args...]
func (x *Exec) callee(f *Frame, cc *ssa.CallCommon, ci *cinstr) (c *Closure, args []Value, bi string) {
	nargs := len(cc.Args)
	if cc.IsInvoke() {
		recv := x.opv(f, &ci.ops[0])
		ifc, ok := recv.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("invoke on %T", recv)))
		}
		if ifc.t == nil {
			x.rtPanic("invalid memory address or nil pointer dereference (nil interface method call %s)", cc.Method.Name())
		}
		fn := x.p.lookupMethod(ifc.t, cc.Method)
		if fn == nil {
			panic(unsupported("method " + cc.Method.Name() + " of " + ifc.t.String()))
		}
		args = make([]Value, 0, nargs+1)
		args = append(args, ifc.v)
		for i := 0; i < nargs; i++ {
			args = append(args, x.copyVal(x.opv(f, &ci.ops[i+1])))
		}
		return &Closure{fn: fn}, args, ""
	}
	args = make([]Value, 0, nargs)
	for i := 0; i < nargs; i++ {
		args = append(args, x.copyVal(x.opv(f, &ci.ops[i+1])))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return nil, args, b.Name()
	}
	switch v := x.opv(f, &ci.ops[0]).(type) {
	case *Closure:
		return v, args, ""
	}
	panic(unsupported("call of non-function"))
}

func (x *Exec) doCall(g *Gor, f *Frame, cc *ssa.CallCommon, ci *cinstr, dst int) {
	c, args, bi := x.callee(f, cc, ci)
	if bi != "" {
		x.builtin(g, f, bi, cc, args, dst)
		return
	}
	x.call(g, c, args, dst)
}
