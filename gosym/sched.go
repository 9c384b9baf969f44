package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- vector clocks and data-race detection ----------

type VC []int32 // indexed by goroutine id; treated as immutable once shared

func (v VC) at(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v VC) join(o VC) VC {
	n := len(v)
	if len(o) > n {
		n = len(o)
	}
	r := make(VC, n)
	copy(r, v)
	for i, c := range o {
		if c > r[i] {
			r[i] = c
		}
	}
	return r
}

func (v VC) tick(id int) VC {
	n := len(v)
	if id >= n {
		n = id + 1
	}
	r := make(VC, n)
	copy(r, v)
	r[id]++
	return r
}

type shadow struct {
	wg    int
	wc    int32
	wpos  string
	reads map[int]readEp
}

type readEp struct {
	c   int32
	pos string
}

func (x *Exec) access(g *Gor, c *Cell, write bool) {
	if !x.races || g == nil || g.id < 0 || x.initing > 0 {
		return
	}
	if k := len(g.stack); k > 0 && g.stack[k-1].fi.noRace {
		return
	}
	if len(x.gors) < 2 {
		if c.sh != nil {
			// fallthrough to the full check
		} else {
			return // accesses before the first spawn happen before everything
		}
	}
	s := c.sh
	if s == nil {
		s = &shadow{wg: -1}
		c.sh = s
	}
	if s.wg >= 0 && s.wg != g.id && g.vc.at(s.wg) < s.wc {
		x.race(g, write, s.wpos, true)
	}
	if write {
		for id, r := range s.reads {
			if id != g.id && g.vc.at(id) < r.c {
				x.race(g, true, r.pos, false)
			}
		}
		s.wg, s.wc, s.wpos = g.id, g.vc.at(g.id), x.shortPos()
		s.reads = nil
		return
	}
	if s.reads == nil {
		s.reads = map[int]readEp{}
	}
	if e, ok := s.reads[g.id]; !ok || e.c != g.vc.at(g.id) {
		s.reads[g.id] = readEp{g.vc.at(g.id), x.shortPos()}
	}
}

func (x *Exec) race(g *Gor, write bool, other string, otherW bool) {
	if x.raceMsg != "" {
		return
	}
	k := map[bool]string{true: "write", false: "read"}
	here := x.shortPos()
	if !strings.Contains(here, "@r:") && !strings.Contains(other, "@r:") {
		return
	}
	x.raceMsg = fmt.Sprintf("data race: %s at %s is unordered with %s at %s", k[write], here, k[otherW], other)
	x.end("violation", "%s", x.raceMsg)
}

func (x *Exec) shortPos() string {
	if x.cur == nil || len(x.cur.stack) == 0 {
		return "?"
	}
	// innermost repository frame, if any
	for i := len(x.cur.stack) - 1; i >= 0; i-- {
		f := x.cur.stack[i]
		if f.fi.inRepo || i == 0 {
			tag := "@"
			if f.fi.inRepo {
				tag = "@r:"
			}
			pc := f.pc - 1
			for k := pc; k >= 0 && k < len(f.fi.code[f.blk]); k-- {
				if ps := f.fi.code[f.blk][k].in.Pos(); ps.IsValid() {
					pp := x.p.fset.Position(ps)
					return fmt.Sprintf("%s%s%s:%d", f.fi.name, tag, strings.TrimPrefix(pp.Filename, "/repo/"), pp.Line)
				}
			}
			return f.fi.name + tag + "?"
		}
	}
	return "?"
}

// ---------- pending operations ----------

type opKindT uint8

const (
	pkChan opKindT = iota // one or more channel cases
	pkClose
	pkLock
	pkRLock
	pkWait    // WaitGroup
	pkAtomic  // any synchronising step on one object
	pkQuiesce // runs when nothing else can
	pkTimer   // runs when nothing else can, in the order of the times
)

type opCase struct {
	ch   *Chan
	send bool
	val  Value
}

type pendOp struct {
	kind    opKindT
	cases   []opCase
	hasDef  bool
	parked  bool // known to be waiting, not just about to
	obj     interface{}
	done    func(caseIx int, v Value, ok bool)
	after   func()
	desc    string
	enabled func() bool
}

type mutexState struct {
	locked  bool
	readers int
	vc      VC
	rvc     VC
}

type wgState struct {
	n  int64
	vc VC
}

type sleepEnt struct {
	id   string
	gids []string
	objs []interface{}
	all  bool // depends on everything
}

type trans struct {
	sleepEnt
	g, h   *Gor // h: partner of a rendezvous (the sender), or nil
	gi, hi int  // case indexes
	def    bool
}

func (a *sleepEnt) dependent(b *sleepEnt) bool {
	if a.all || b.all {
		return true
	}
	for _, p := range a.gids {
		for _, q := range b.gids {
			if p == q {
				return true
			}
		}
	}
	for _, p := range a.objs {
		for _, q := range b.objs {
			if p == q {
				return true
			}
		}
	}
	return false
}

func (x *Exec) block(g *Gor, p *pendOp) {
	if g.id < 0 {
		// package initialisation: only immediately enabled operations
		x.end("unsupported", "synchronisation during package initialisation")
	}
	g.pending = p
	g.nops++
}

func (x *Exec) spawn(g *Gor, c *Closure, args []Value) {
	if c == nil {
		x.rtPanicRaw("go of nil func value")
	}
	if len(x.gors) > 200 {
		x.end("steps", "more than 200 goroutines")
	}
	n := &Gor{id: len(x.gors)}
	g.kids++
	n.path = fmt.Sprintf("%s.%d", g.path, g.kids)
	if x.races {
		g.vc = g.vc.tick(g.id)
		n.vc = g.vc.tick(n.id)
		g.vc = g.vc.tick(g.id)
	}
	x.gors = append(x.gors, n)
	if c.fn != nil {
		fi := x.p.info(c.fn)
		if fi.redir != nil {
			fi = x.p.info(fi.redir)
		}
		if fi.intr == nil && fi.code != nil {
			n.name = fi.name
			n.pushInfo(x, fi, args, c.env, -1)
			return
		}
	}
	// intrinsic: run it now on the new goroutine
	save := x.cur
	x.cur = n
	x.call(n, c, args, -1)
	x.cur = save
	if len(n.stack) == 0 && n.pending == nil {
		n.done = true
	}
}

// ---------- channels ----------

func (x *Exec) chanSend(g *Gor, f *Frame, cv Value, v Value) {
	c := cv.(*Chan)
	x.block(g, &pendOp{kind: pkChan, cases: []opCase{{c, true, v}}, desc: "send", done: func(int, Value, bool) {}})
}

func (x *Exec) chanRecv(g *Gor, f *Frame, cv Value, commaOk bool, dst int) {
	c := cv.(*Chan)
	x.block(g, &pendOp{kind: pkChan, cases: []opCase{{c, false, nil}}, desc: "receive", done: func(_ int, v Value, ok bool) {
		if v == nil {
			v = x.zero(c.et)
		}
		if commaOk {
			f.env[dst] = Tuple{v, ok}
		} else {
			f.env[dst] = v
		}
	}})
}

func (x *Exec) doSelect(g *Gor, f *Frame, in *ssa.Select, ci *cinstr) {
	p := &pendOp{kind: pkChan, hasDef: !in.Blocking, desc: "select"}
	for i, s := range in.States {
		c := x.opv(f, &ci.ops[2*i]).(*Chan)
		oc := opCase{ch: c, send: s.Dir == types.SendOnly}
		if oc.send {
			oc.val = x.copyVal(x.opv(f, &ci.ops[2*i+1]))
		}
		p.cases = append(p.cases, oc)
	}
	p.done = func(k int, v Value, ok bool) {
		// result: index, recvOk, then one value per receive state
		t := Tuple{goInt(k), ok}
		for i, s := range in.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			if i == k {
				if v == nil {
					v = x.zero(p.cases[i].ch.et)
				}
				t = append(t, v)
			} else {
				t = append(t, x.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
		f.env[ci.dst] = t
	}
	x.block(g, p)
}

func (x *Exec) chanClose(g *Gor, c *Chan) {
	if c == nil {
		x.rtPanicRaw("close of nil channel")
	}
	if g.id < 0 && !c.closed {
		c.closed = true
		return
	}
	x.block(g, &pendOp{kind: pkClose, cases: []opCase{{ch: c}}, desc: "close", done: func(int, Value, bool) {}})
}

// ---------- scheduler ----------

// guard runs fn on goroutine g, turning Go panics into unwinding.
func (x *Exec) guard(g *Gor, fn func()) {
	x.cur = g
	defer func() {
		if r := recover(); r != nil {
			switch p := r.(type) {
			case goPanic:
				x.startPanic(g, p.v)
			case unsupported:
				panic(pathEnd{kind: "unsupported", msg: string(p), pos: x.where()})
			default:
				panic(r)
			}
		}
	}()
	fn()
}

func (x *Exec) finish(g *Gor, k int, v Value, ok bool) {
	p := g.pending
	g.pending = nil
	x.guard(g, func() {
		p.done(k, v, ok)
		if p.after != nil {
			p.after()
		}
	})
}

// soon is how much time passes (in nanoseconds) before a state counts as quiet
const soon = 20e6

func (x *Exec) transitions() []trans {
	var out, def, quiet, timer []trans
	var due int64
	for _, g := range x.gors {
		if g.done || g.pending == nil {
			continue
		}
		p := g.pending
		base := fmt.Sprintf("%s#%d", g.path, g.nops)
		solo := func(k int, objs ...interface{}) trans {
			return trans{sleepEnt: sleepEnt{id: fmt.Sprintf("%s/%d", base, k), gids: []string{g.path}, objs: objs}, g: g, gi: k}
		}
		switch p.kind {
		case pkClose:
			out = append(out, solo(0, p.cases[0].ch))
		case pkLock, pkRLock, pkWait, pkAtomic:
			if p.enabled == nil || p.enabled() {
				out = append(out, solo(0, p.obj))
			}
		case pkQuiesce:
			t := solo(0)
			t.all = true
			quiet = append(quiet, t)
		case pkTimer:
			if timer == nil || g.due < due {
				t := solo(0)
				t.all = true
				timer, due = []trans{t}, g.due
			}
		case pkChan:
			n := 0
			for k, c := range p.cases {
				if c.ch == nil {
					continue
				}
				if c.send {
					if c.ch.closed || len(c.ch.buf) < c.ch.cap {
						out = append(out, solo(k, c.ch))
						n++
						continue
					}
					// rendezvous: generated from the receiver's side; count it here
					for _, h := range x.gors {
						if h == g || h.done || h.pending == nil || h.pending.kind != pkChan {
							continue
						}
						for _, hc := range h.pending.cases {
							if hc.ch == c.ch && !hc.send && h.pending.parked {
								n++
							}
						}
					}
					continue
				}
				if len(c.ch.buf) > 0 || c.ch.closed {
					out = append(out, solo(k, c.ch))
					n++
					continue
				}
				for _, h := range x.gors {
					if h == g || h.done || h.pending == nil || h.pending.kind != pkChan {
						continue
					}
					for hk, hc := range h.pending.cases {
						if hc.ch == c.ch && hc.send && !(p.hasDef && h.pending.hasDef) {
							if h.pending.parked {
								n++
							}
							out = append(out, trans{sleepEnt: sleepEnt{
								id:   fmt.Sprintf("%s/%d+%s#%d/%d", base, k, h.path, h.nops, hk),
								gids: []string{g.path, h.path},
								objs: []interface{}{c.ch},
							}, g: g, gi: k, h: h, hi: hk})
						}
					}
				}
			}
			// the default is taken unless a case is certain to be ready: a partner
			// that is not known to wait may not have arrived yet
			if p.hasDef && n == 0 {
				t := solo(-1)
				t.all = true
				t.def = true
				def = append(def, t)
			}
		}
	}
	out = append(out, def...)
	switch {
	case len(out) > 0:
		return out
	case timer != nil && (len(quiet) == 0 || due-x.now <= soon):
		return timer
	}
	return quiet
}

func (x *Exec) inSleep(id string) bool {
	for i := range x.sleep {
		if x.sleep[i].id == id {
			return true
		}
	}
	return false
}

// choose picks a transition, queueing the alternatives.
func (x *Exec) choose(ts []trans) *trans {
	if len(ts) == 1 {
		t := &ts[0]
		if x.inSleep(t.id) {
			x.end("sleep", "")
		}
		x.wake(t)
		return t
	}
	cand := make([]int, 0, len(ts))
	for i := range ts {
		if !x.inSleep(ts[i].id) {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		x.end("sleep", "")
	}
	pick := 0
	bound := x.cfg.delayBound()
	if bound >= 0 && len(cand) > bound-x.delays+1 {
		cand = cand[:bound-x.delays+1]
	}
	if len(cand) > 1 {
		if x.dpos < len(x.prefix) {
			d := x.prefix[x.dpos]
			x.dpos++
			if d.Kind != 's' || int(d.Val) >= len(cand) {
				panic(fmt.Sprintf("replay mismatch: expected schedule decision, got %+v", d))
			}
			pick = int(d.Val)
			x.trace = append(x.trace, d)
		} else {
			pm := x.exportModel(x.model)
			for i := len(cand) - 1; i >= 1; i-- {
				alt := append(append(make([]Decision, 0, len(x.trace)+1), x.trace...), Decision{Kind: 's', Val: uint64(i)})
				x.w.push(item{prefix: alt, model: pm})
				x.w.forks++
			}
			x.trace = append(x.trace, Decision{Kind: 's', Val: 0})
		}
		x.schedChoices++
	}
	x.delays += pick
	for k := 0; k < pick && bound < 0; k++ {
		x.sleep = append(x.sleep, ts[cand[k]].sleepEnt)
	}
	t := &ts[cand[pick]]
	x.wake(t)
	return t
}

func (x *Exec) wake(t *trans) {
	if len(x.sleep) == 0 {
		return
	}
	n := x.sleep[:0:0]
	for i := range x.sleep {
		if !x.sleep[i].dependent(&t.sleepEnt) {
			n = append(n, x.sleep[i])
		}
	}
	x.sleep = n
}

func (x *Exec) apply(t *trans) {
	x.transitionsDone++
	g := t.g
	p := g.pending
	if len(x.schedLog) < 400 {
		d := fmt.Sprintf("g%s %s", g.path, p.desc)
		if t.h != nil {
			d += fmt.Sprintf(" <-> g%s %s", t.h.path, t.h.pending.desc)
		} else if p.kind == pkChan && len(p.cases) > 1 {
			d += fmt.Sprintf(" case %d", t.gi)
		}
		x.schedLog = append(x.schedLog, d)
	}
	switch p.kind {
	case pkClose:
		c := p.cases[0].ch
		if c.closed {
			g.pending = nil
			x.guard(g, func() { x.rtPanicRaw("close of closed channel") })
			return
		}
		c.closed = true
		if x.races {
			c.clVC = g.vc
			g.vc = g.vc.tick(g.id)
		}
		x.finish(g, 0, nil, false)
		return
	case pkLock, pkRLock, pkWait, pkAtomic, pkQuiesce, pkTimer:
		if p.kind == pkQuiesce {
			for _, h := range x.gors {
				if h != g && !h.done && h.pending != nil {
					h.pending.parked = true
				}
			}
		}
		x.finish(g, 0, nil, true)
		return
	}
	if t.def {
		x.finish(g, -1, nil, false)
		return
	}
	c := p.cases[t.gi]
	if t.h != nil {
		// rendezvous: h sends, g receives
		v := t.h.pending.cases[t.hi].val
		if x.races {
			gv, hv := g.vc, t.h.vc
			g.vc = gv.join(hv).tick(g.id)
			t.h.vc = hv.join(gv).tick(t.h.id)
		}
		h, hi := t.h, t.hi
		x.finish(h, hi, nil, false)
		x.finish(g, t.gi, v, true)
		return
	}
	if c.send {
		if c.ch.closed {
			g.pending = nil
			x.guard(g, func() { x.rtPanicRaw("send on closed channel") })
			return
		}
		c.ch.buf = append(c.ch.buf, c.val)
		if x.races {
			c.ch.bufVC = append(c.ch.bufVC, g.vc)
			g.vc = g.vc.join(c.ch.slotVC).tick(g.id)
		}
		x.finish(g, t.gi, nil, false)
		return
	}
	if len(c.ch.buf) > 0 {
		v := c.ch.buf[0]
		c.ch.buf = append([]Value{}, c.ch.buf[1:]...)
		if x.races {
			g.vc = g.vc.join(c.ch.bufVC[0]).tick(g.id)
			c.ch.bufVC = append([]VC{}, c.ch.bufVC[1:]...)
			c.ch.slotVC = c.ch.slotVC.join(g.vc)
		}
		x.finish(g, t.gi, v, true)
		return
	}
	if x.races {
		g.vc = g.vc.join(c.ch.clVC).tick(g.id)
	}
	x.finish(g, t.gi, nil, false)
}

// runAll is the main loop of a path.
func (x *Exec) runAll() {
	main := x.gors[0]
	for {
		for again := true; again; {
			again = false
			for i := 0; i < len(x.gors); i++ {
				g := x.gors[i]
				if !g.done && g.pending == nil {
					x.run(g)
					again = true
					if main.done {
						return
					}
				}
			}
		}
		ts := x.transitions()
		if len(ts) == 0 {
			x.end("deadlock", "%s", x.blockedReport())
		}
		x.apply(x.choose(ts))
	}
}

func (x *Exec) blockedReport() string {
	var p []string
	for _, g := range x.gors {
		if g.done || g.pending == nil {
			continue
		}
		x.cur = g
		p = append(p, fmt.Sprintf("g%s blocked on %s at %s", g.path, g.pending.desc, x.where()))
	}
	sort.Strings(p)
	return "no goroutine can proceed: " + strings.Join(p, "; ")
}

// ---------- sync primitives ----------

func (x *Exec) mutex(p Value) *mutexState {
	c := x.objCell(p)
	m := x.mutexes[c]
	if m == nil {
		m = &mutexState{}
		x.mutexes[c] = m
	}
	return m
}

func (x *Exec) wgOf(p Value) *wgState {
	c := x.objCell(p)
	m := x.wgs[c]
	if m == nil {
		m = &wgState{}
		x.wgs[c] = m
	}
	return m
}

func (x *Exec) objCell(p Value) *Cell {
	pp, ok := p.(Ptr)
	if !ok {
		panic(unsupported(fmt.Sprintf("sync object at %T", p)))
	}
	if pp.isNil() {
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	return x.ptrCell(pp)
}

func (x *Exec) acquire(g *Gor, vc VC) {
	if x.races {
		g.vc = g.vc.join(vc).tick(g.id)
	}
}

func (x *Exec) release(g *Gor) VC {
	if !x.races {
		return nil
	}
	v := g.vc
	g.vc = g.vc.tick(g.id)
	return v
}
