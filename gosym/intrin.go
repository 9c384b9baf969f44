package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const zz = "github.com/Redundancy/go-sync/zzverif/"

var intrinsics map[string]intrinsic

func tup(v ...Value) Tuple { return Tuple(v) }

func (x *Exec) str(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i, e := range s.b {
			b[i] = byte(x.cint(e, "string byte"))
		}
		return string(b)
	}
	panic(unsupported(fmt.Sprintf("string %T", v)))
}

func (x *Exec) fresh(name string) string {
	n := x.names[name]
	x.names[name] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n+1)
	}
	return name
}

func (x *Exec) input(name string, w int, lo, hi uint64) *Term {
	name = x.fresh(name)
	t := x.newVar(name, w, lo, hi)
	x.inputs = append(x.inputs, inputRec{Name: name, T: t, W: w})
	return t
}

func symIntrinsics() map[string]intrinsic {
	s := zz + "sym."
	m := map[string]intrinsic{}
	m[s+"Symbolic"] = func(x *Exec, g *Gor, c *callCtx) Value { return true }
	m[s+"Byte"] = func(x *Exec, g *Gor, c *callCtx) Value {
		return x.input(x.str(c.args[0]), 8, 0, 255)
	}
	m[s+"Bool"] = func(x *Exec, g *Gor, c *callCtx) Value {
		return x.val(x.ctx.Eq(x.input(x.str(c.args[0]), 8, 0, 1), x.ctx.Const(8, 1)))
	}
	m[s+"Uint64"] = func(x *Exec, g *Gor, c *callCtx) Value {
		return x.input(x.str(c.args[0]), 64, 0, ^uint64(0))
	}
	m[s+"Uint32"] = func(x *Exec, g *Gor, c *callCtx) Value {
		return x.input(x.str(c.args[0]), 32, 0, 1<<32-1)
	}
	m[s+"Uint16"] = func(x *Exec, g *Gor, c *callCtx) Value {
		return x.input(x.str(c.args[0]), 16, 0, 1<<16-1)
	}
	mkint := func(x *Exec, c *callCtx) *Term {
		lo, hi := x.cint(c.args[1], "range"), x.cint(c.args[2], "range")
		if lo > hi {
			x.end("assume", "")
		}
		if lo == hi {
			return x.ctx.Const(64, uint64(lo))
		}
		if lo >= 0 {
			return x.input(x.str(c.args[0]), 64, uint64(lo), uint64(hi))
		}
		t := x.input(x.str(c.args[0]), 64, 0, uint64(hi-lo))
		return x.ctx.Add(t, x.ctx.Const(64, uint64(lo)))
	}
	m[s+"Int"] = func(x *Exec, g *Gor, c *callCtx) Value { return x.val(mkint(x, c)) }
	m[s+"Pick"] = func(x *Exec, g *Gor, c *callCtx) Value {
		t := mkint(x, c)
		if t.isConst() {
			return x.val(t)
		}
		return mkInt(64, x.Concretize(t, "choice"))
	}
	m[s+"Bytes"] = func(x *Exec, g *Gor, c *callCtx) Value {
		n := int(x.cint(c.args[1], "length"))
		name := x.fresh(x.str(c.args[0]))
		b := make([]Value, n)
		for i := range b {
			b[i] = x.input(fmt.Sprintf("%s[%d]", name, i), 8, 0, 255)
		}
		return x.bytesToSlice(b, types.Typ[types.Uint8])
	}
	m[s+"Concretize"] = func(x *Exec, g *Gor, c *callCtx) Value {
		return mkInt(64, uint64(x.cint(c.args[0], "concretised value")))
	}
	m[s+"Assume"] = func(x *Exec, g *Gor, c *callCtx) Value { x.Assume(x.term(c.args[0])); return nil }
	m[s+"Assert"] = func(x *Exec, g *Gor, c *callCtx) Value {
		x.AssertT(x.term(c.args[0]), x.str(c.args[1]))
		return nil
	}
	m[s+"Fail"] = func(x *Exec, g *Gor, c *callCtx) Value {
		x.AssertT(x.ctx.fls, x.str(c.args[0]))
		return nil
	}
	m[s+"Stop"] = func(x *Exec, g *Gor, c *callCtx) Value { x.end("ok", ""); return nil }
	m[s+"And"] = func(x *Exec, g *Gor, c *callCtx) Value {
		return x.val(x.ctx.And(x.term(c.args[0]), x.term(c.args[1])))
	}
	m[s+"Or"] = func(x *Exec, g *Gor, c *callCtx) Value {
		return x.val(x.ctx.Or(x.term(c.args[0]), x.term(c.args[1])))
	}
	m[s+"Implies"] = func(x *Exec, g *Gor, c *callCtx) Value {
		return x.val(x.ctx.Or(x.ctx.Not(x.term(c.args[0])), x.term(c.args[1])))
	}
	ite := func(x *Exec, g *Gor, c *callCtx) Value {
		return x.val(x.ctx.Ite(x.term(c.args[0]), x.term(c.args[1]), x.term(c.args[2])))
	}
	m[s+"IteByte"] = ite
	m[s+"IteInt"] = ite
	m[s+"BytesEq"] = func(x *Exec, g *Gor, c *callCtx) Value {
		return x.val(x.bytesEqT(x.sliceVals(c.args[0].(Slice)), x.sliceVals(c.args[1].(Slice))))
	}
	m[s+"Reach"] = func(x *Exec, g *Gor, c *callCtx) Value { x.reached[x.str(c.args[0])] = true; return nil }
	m[s+"Observe"] = func(x *Exec, g *Gor, c *callCtx) Value {
		x.observed = append(x.observed, obsRec{x.str(c.args[0]), x.flattenObs(c.args[1].(Slice))})
		return nil
	}
	m[s+"Quiesce"] = func(x *Exec, g *Gor, c *callCtx) Value {
		x.block(g, &pendOp{kind: pkQuiesce, desc: "quiesce", done: func(int, Value, bool) {}})
		return nil
	}
	m[s+"Others"] = func(x *Exec, g *Gor, c *callCtx) Value {
		n := 0
		for _, h := range x.gors {
			if h != g && !h.done && !h.daemon {
				n++
			}
		}
		return mkInt(64, uint64(n))
	}
	m[s+"Pause"] = func(x *Exec, g *Gor, c *callCtx) Value { return nil }
	m[s+"Yield"] = func(x *Exec, g *Gor, c *callCtx) Value {
		x.block(g, &pendOp{kind: pkAtomic, obj: "yield", desc: "yield", done: func(int, Value, bool) {}})
		return nil
	}
	m[s+"Workdir"] = nop
	m[s+"Capture"] = func(x *Exec, g *Gor, c *callCtx) Value { x.capturing = true; return nil }
	m[s+"Captured"] = func(x *Exec, g *Gor, c *callCtx) Value { return string(x.printed) }
	m[s+"Printed"] = func(x *Exec, g *Gor, c *callCtx) Value {
		for _, v := range x.sliceVals(c.args[0].(Slice)) {
			x.printed = append(x.printed, byte(x.Concretize(x.term(v), "printed byte")))
		}
		return nil
	}
	m[s+"FileLimit"] = nop
	m[s+"Thorough"] = func(x *Exec, g *Gor, c *callCtx) Value { return x.cfg.thorough }
	m[s+"Bound"] = func(x *Exec, g *Gor, c *callCtx) Value {
		if x.cfg.thorough {
			return c.args[1]
		}
		return c.args[0]
	}
	m[s+"Fresh"] = func(x *Exec, g *Gor, c *callCtx) Value { // 16 "hash" bytes for a long message
		return x.freshHash(x.sliceVals(c.args[0].(Slice)))
	}
	return m
}

// newVar creates a variable, giving it the value the path's start model has for it.
func (x *Exec) newVar(name string, w int, lo, hi uint64) *Term {
	t := x.ctx.NewVar(name, w, lo, hi)
	if v, ok := x.startModel[t.name]; ok {
		x.model = x.model.clone()
		x.model.put(t.varIx, v)
	}
	return t
}

type hashRec struct {
	in, out []Value
	known   bool // the message is concrete
}

// mix is what harness/std/md5.go computes for long messages.
func mix(m []byte) (out [16]byte) {
	a, b := uint64(0xcbf29ce484222325), uint64(len(m))*0x9e3779b97f4a7c15
	for i, c := range m {
		a = (a ^ uint64(c)) * 0x100000001b3
		b = (b<<7 | b>>57) ^ (a+uint64(i))*0xff51afd7ed558ccd
	}
	out[0] = 0x80
	for i := 0; i < 7; i++ {
		out[1+i] = byte(a >> (8 * uint(i)))
	}
	for i := 0; i < 8; i++ {
		out[8+i] = byte(b >> (8 * uint(i)))
	}
	return out
}

// freshHash is the digest of a long message. That of a concrete message is a
// mix of its bytes; others are fresh symbols. Two digests are equal exactly if
// the messages are (the mix has 120 bits).
func (x *Exec) freshHash(in []Value) Value {
	msg := make([]byte, len(in))
	known := true
	for i, v := range in {
		c, ok := v.(Int)
		if !ok {
			known = false
			break
		}
		msg[i] = byte(c.c)
	}
	out := make([]Value, 16)
	k := len(x.hashes)
	out[0] = mkInt(8, 0x80)
	if known {
		if x.knownHash == nil {
			x.knownHash = map[string][]Value{}
		}
		if o, ok := x.knownHash[string(msg)]; ok {
			return x.bytesToSlice(o, types.Typ[types.Uint8])
		}
		sum := mix(msg)
		for i := 1; i < 16; i++ {
			out[i] = mkInt(8, uint64(sum[i]))
		}
		x.knownHash[string(msg)] = out
	} else {
		for i := 1; i < 16; i++ {
			out[i] = x.newVar(fmt.Sprintf("hash%d[%d]", k, i), 8, 0, 255)
		}
	}
	for _, h := range x.hashes {
		if known && h.known {
			continue
		}
		eq := x.bytesEqT(h.in, in)
		if eq.isConst() && eq.k == 1 {
			return x.bytesToSlice(h.out, types.Typ[types.Uint8])
		}
		oe := x.bytesEqT(h.out, out)
		x.Assume(x.ctx.Eq(eq, oe))
	}
	x.hashes = append(x.hashes, hashRec{in, out, known})
	return x.bytesToSlice(out, types.Typ[types.Uint8])
}

func (x *Exec) flattenObs(s Slice) []Value {
	var out []Value
	var add func(v Value)
	add = func(v Value) {
		switch v := v.(type) {
		case Iface:
			if v.t == nil {
				out = append(out, "nil")
				return
			}
			if v.t.Underlying() != nil && x.p.isError(v.t) {
				out = append(out, "error")
				return
			}
			add(v.v)
		case Slice:
			out = append(out, fmt.Sprintf("#%d", v.len))
			for _, e := range x.sliceVals(v) {
				add(e)
			}
		case string, *SymStr:
			b := strBytes(v)
			out = append(out, fmt.Sprintf("#%d", len(b)))
			for _, e := range b {
				add(e)
			}
		case *Struct:
			for i := range v.f {
				add(v.f[i].v)
			}
		default:
			out = append(out, v)
		}
	}
	for _, e := range x.sliceVals(s) {
		add(e)
	}
	return out
}

// ---------- formatting ----------

var verbRE = regexp.MustCompile(`%[-+# 0]*[0-9]*(\.[0-9]*)?[a-zA-Z%]`)

func (x *Exec) fmtArg(v Value, conc bool) interface{} {
	ifc, ok := v.(Iface)
	if !ok {
		return x.show(v)
	}
	if ifc.t == nil {
		return nil
	}
	if x.p.isError(ifc.t) {
		return x.panicText(ifc)
	}
	switch u := ifc.v.(type) {
	case Int:
		_, sg := typeIntWidth(ifc.t)
		if sg {
			return sext(u.c, int(u.w))
		}
		return u.c
	case *Term:
		if u.w == 0 {
			if !conc {
				return "?"
			}
			return x.Branch(u)
		}
		if !conc {
			return "?"
		}
		k := x.Concretize(u, "formatted integer")
		_, sg := typeIntWidth(ifc.t)
		if sg {
			return sext(k, u.w)
		}
		return k
	case bool, string, float64:
		return u
	case *SymStr:
		return "?"
	case Slice:
		return x.show(u)
	}
	return x.show(ifc.v)
}

func (x *Exec) sprintf(format string, args []Value, conc bool) string {
	n := 0
	var sb strings.Builder
	last := 0
	for _, loc := range verbRE.FindAllStringIndex(format, -1) {
		sb.WriteString(format[last:loc[0]])
		last = loc[1]
		verb := format[loc[0]:loc[1]]
		if strings.HasSuffix(verb, "%") {
			sb.WriteString("%")
			continue
		}
		if n >= len(args) {
			sb.WriteString("%!(MISSING)")
			continue
		}
		a := x.fmtArg(args[n], conc)
		if strings.HasSuffix(verb, "T") {
			if i, ok := args[n].(Iface); ok && i.t != nil {
				a = i.t.String()
			}
			verb = "%v"
		}
		n++
		if _, isStr := a.(string); isStr && !strings.ContainsAny(verb[len(verb)-1:], "svqxX") || strings.HasSuffix(verb, "w") {
			verb = "%v"
		}
		sb.WriteString(fmt.Sprintf(verb, a))
	}
	sb.WriteString(format[last:])
	return sb.String()
}

func (x *Exec) sprint(args []Value, ln, conc bool) string {
	var p []interface{}
	for _, a := range args {
		p = append(p, x.fmtArg(a, conc))
	}
	if ln {
		return fmt.Sprintln(p...)
	}
	return fmt.Sprint(p...)
}

// osFile is the file a variable of package os points to.
func (x *Exec) osFile(name string) *Cell {
	p := x.p.pkgByPath("os")
	if p == nil || p.Var(name) == nil {
		return nil
	}
	q, _ := x.global(p.Var(name)).v.(Ptr)
	return q.c
}

func fmtIntrinsics(m map[string]intrinsic) {
	m["fmt.Sprintf"] = func(x *Exec, g *Gor, c *callCtx) Value {
		return x.sprintf(x.str(c.args[0]), x.sliceVals(c.args[1].(Slice)), true)
	}
	m["fmt.Sprint"] = func(x *Exec, g *Gor, c *callCtx) Value { return x.sprint(x.sliceVals(c.args[0].(Slice)), false, false) }
	m["fmt.Sprintln"] = func(x *Exec, g *Gor, c *callCtx) Value { return x.sprint(x.sliceVals(c.args[0].(Slice)), true, false) }
	m["fmt.Errorf"] = func(x *Exec, g *Gor, c *callCtx) Value {
		f := x.str(c.args[0])
		args := x.sliceVals(c.args[1].(Slice))
		var wrapped Value = Iface{}
		if strings.Contains(f, "%w") {
			for _, a := range args {
				if i, ok := a.(Iface); ok && i.t != nil && x.p.isError(i.t) {
					wrapped = i
				}
			}
		}
		st := &Struct{f: make([]Cell, 2)}
		st.f[0].v = x.sprintf(f, args, false)
		st.f[1].v = wrapped
		return Iface{t: types.NewPointer(x.p.fmtErrorType), v: Ptr{c: &Cell{v: st}}}
	}
	m["fmt.Printf"] = func(x *Exec, g *Gor, c *callCtx) Value {
		if x.capturing {
			x.printed = append(x.printed, x.sprintf(x.str(c.args[0]), x.sliceVals(c.args[1].(Slice)), true)...)
		}
		return tup(goInt(0), Iface{})
	}
	out := func(ln bool) intrinsic {
		return func(x *Exec, g *Gor, c *callCtx) Value {
			if x.capturing {
				x.printed = append(x.printed, x.sprint(x.sliceVals(c.args[0].(Slice)), ln, true)...)
			}
			return tup(goInt(0), Iface{})
		}
	}
	m["fmt.Println"], m["fmt.Print"] = out(true), out(false)
	fp := func(text func(x *Exec, c *callCtx) string) intrinsic {
		return func(x *Exec, g *Gor, c *callCtx) Value {
			w := c.args[0].(Iface)
			if w.t == nil {
				x.rtPanic("invalid memory address or nil pointer dereference")
			}
			std := false
			if w.t.String() == "*os.File" {
				f := w.v.(Ptr).c
				if f == x.osFile("Stderr") || f == x.osFile("Stdout") && !x.capturing {
					return tup(goInt(0), Iface{})
				}
				std = f == x.osFile("Stdout")
			}
			s := text(x, c)
			if std {
				x.printed = append(x.printed, s...)
				return tup(goInt(len(s)), Iface{})
			}
			for _, meth := range x.p.methods(w.t) {
				if meth.Name() == "Write" {
					c.tail = &Closure{fn: meth}
					c.tailArgs = []Value{w.v, x.bytesToSlice(strBytes(s), types.Typ[types.Uint8])}
					return nil
				}
			}
			panic(unsupported("Fprint to " + w.t.String()))
		}
	}
	m["fmt.Fprintf"] = fp(func(x *Exec, c *callCtx) string {
		return x.sprintf(x.str(c.args[1]), x.sliceVals(c.args[2].(Slice)), true)
	})
	m["fmt.Fprintln"] = fp(func(x *Exec, c *callCtx) string { return x.sprint(x.sliceVals(c.args[1].(Slice)), true, false) })
	m["fmt.Fprint"] = fp(func(x *Exec, c *callCtx) string { return x.sprint(x.sliceVals(c.args[1].(Slice)), false, false) })
}

// ---------- sync, atomic, runtime, bytealg ----------

func nop(x *Exec, g *Gor, c *callCtx) Value { return nil }

func syncIntrinsics(m map[string]intrinsic) {
	lock := func(write bool) intrinsic {
		return func(x *Exec, g *Gor, c *callCtx) Value {
			mu := x.mutex(c.args[0])
			if g.id < 0 {
				mu.locked = true
				return nil
			}
			p := &pendOp{kind: pkLock, obj: mu, desc: "lock"}
			if write {
				p.enabled = func() bool { return !mu.locked && mu.readers == 0 }
				p.done = func(int, Value, bool) { mu.locked = true; x.acquire(g, mu.vc); x.acquire(g, mu.rvc) }
			} else {
				p.kind = pkRLock
				p.enabled = func() bool { return !mu.locked }
				p.done = func(int, Value, bool) { mu.readers++; x.acquire(g, mu.vc) }
			}
			x.block(g, p)
			return nil
		}
	}
	unlock := func(x *Exec, g *Gor, c *callCtx) Value {
		mu := x.mutex(c.args[0])
		if !mu.locked {
			x.end("violation", "fatal error: sync: unlock of unlocked mutex")
		}
		mu.locked = false
		mu.vc = x.release(g)
		return nil
	}
	m["(*sync.Mutex).Lock"] = lock(true)
	m["(*sync.RWMutex).Lock"] = lock(true)
	m["(*sync.RWMutex).RLock"] = lock(false)
	m["(*sync.Mutex).Unlock"] = unlock
	m["(*sync.RWMutex).Unlock"] = unlock
	m["(*sync.RWMutex).RUnlock"] = func(x *Exec, g *Gor, c *callCtx) Value {
		mu := x.mutex(c.args[0])
		if mu.readers <= 0 {
			x.end("violation", "fatal error: sync: RUnlock of unlocked RWMutex")
		}
		mu.readers--
		mu.rvc = mu.rvc.join(x.release(g))
		return nil
	}
	m["(*sync.Mutex).TryLock"] = func(x *Exec, g *Gor, c *callCtx) Value {
		mu := x.mutex(c.args[0])
		if mu.locked {
			return false
		}
		mu.locked = true
		x.acquire(g, mu.vc)
		return true
	}
	m["(*sync.WaitGroup).Add"] = func(x *Exec, g *Gor, c *callCtx) Value {
		wg := x.wgOf(c.args[0])
		wg.n += x.cint(c.args[1], "WaitGroup delta")
		if wg.n < 0 {
			x.rtPanicRaw("sync: negative WaitGroup counter")
		}
		if x.races {
			wg.vc = wg.vc.join(x.release(g))
		}
		return nil
	}
	m["(*sync.WaitGroup).Done"] = func(x *Exec, g *Gor, c *callCtx) Value {
		c.args = append(c.args, mkInt(64, ^uint64(0)))
		return m["(*sync.WaitGroup).Add"](x, g, c)
	}
	m["(*sync.WaitGroup).Wait"] = func(x *Exec, g *Gor, c *callCtx) Value {
		wg := x.wgOf(c.args[0])
		x.block(g, &pendOp{kind: pkWait, obj: wg, desc: "WaitGroup.Wait",
			enabled: func() bool { return wg.n == 0 },
			done:    func(int, Value, bool) { x.acquire(g, wg.vc) }})
		return nil
	}
	m["(*sync.WaitGroup).Go"] = func(x *Exec, g *Gor, c *callCtx) Value {
		wg := x.wgOf(c.args[0])
		wg.n++
		f := c.args[1].(*Closure)
		x.spawn(g, f, nil)
		n := x.gors[len(x.gors)-1]
		fin := func(Value) {
			wg.n--
			if x.races {
				wg.vc = wg.vc.join(x.release(n))
			}
		}
		if len(n.stack) > 0 {
			n.stack[0].onRet = fin
		} else {
			fin(nil)
		}
		return nil
	}
	type onceState struct {
		done bool
		vc   VC
	}
	m["(*sync.Once).Do"] = func(x *Exec, g *Gor, c *callCtx) Value {
		cell := x.objCell(c.args[0])
		o, _ := x.side[cell].(*onceState)
		if o == nil {
			o = &onceState{}
			x.side[cell] = o
		}
		if o.done {
			x.acquire(g, o.vc)
			return nil
		}
		o.done = true
		o.vc = x.release(g)
		c.tail = c.args[1]
		return nil
	}
	m["(*sync.Pool).Get"] = func(x *Exec, g *Gor, c *callCtx) Value {
		st := x.objCell(c.args[0]).v.(*Struct)
		for i := range st.f {
			if cl, ok := st.f[i].v.(*Closure); ok && cl != nil {
				c.tail = cl
				return nil
			}
		}
		return Iface{}
	}
	m["(*sync.Pool).Put"] = nop

	// atomics
	aop := func(f func(x *Exec, c *callCtx, cell *Cell) Value) intrinsic {
		return func(x *Exec, g *Gor, c *callCtx) Value {
			p, ok := c.args[0].(Ptr)
			if !ok || p.isNil() {
				x.rtPanic("invalid memory address or nil pointer dereference")
			}
			cell := x.ptrCell(p)
			if x.races && g.id >= 0 {
				vc, _ := x.side[cell].(VC)
				g.vc = g.vc.join(vc)
				x.side[cell] = g.vc
				g.vc = g.vc.tick(g.id)
			}
			return f(x, c, cell)
		}
	}
	for _, tn := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		w := 64
		if strings.HasSuffix(tn, "32") {
			w = 32
		}
		add := aop(func(x *Exec, c *callCtx, cell *Cell) Value {
			cell.v = x.intBinop(plusTok, w, true, cell.v, c.args[1], nil)
			return cell.v
		})
		load := aop(func(x *Exec, c *callCtx, cell *Cell) Value { return cell.v })
		store := aop(func(x *Exec, c *callCtx, cell *Cell) Value { cell.v = c.args[1]; return nil })
		swap := aop(func(x *Exec, c *callCtx, cell *Cell) Value { o := cell.v; cell.v = c.args[1]; return o })
		cas := aop(func(x *Exec, c *callCtx, cell *Cell) Value {
			if x.Branch(x.eqT(cell.v, c.args[1])) {
				cell.v = c.args[2]
				return true
			}
			return false
		})
		vis := func(in intrinsic) intrinsic {
			return func(x *Exec, g *Gor, c *callCtx) Value {
				// operations issued by repository code are scheduling points
				if g.id < 0 || !x.callerInRepo(g) {
					return in(x, g, c)
				}
				f := g.top()
				dst := c.dst
				obj := x.objCell(c.args[0])
				x.block(g, &pendOp{kind: pkAtomic, obj: obj, desc: "atomic", done: func(int, Value, bool) {
					v := in(x, g, c)
					if dst >= 0 {
						f.env[dst] = v
					}
				}})
				return nil
			}
		}
		m["sync/atomic.Add"+tn] = add
		m["sync/atomic.Load"+tn] = vis(load)
		m["sync/atomic.Store"+tn] = vis(store)
		m["sync/atomic.Swap"+tn] = vis(swap)
		m["sync/atomic.CompareAndSwap"+tn] = vis(cas)
	}

	m["runtime.NumCPU"] = func(x *Exec, g *Gor, c *callCtx) Value { return goInt(2) }
	m["runtime.GOMAXPROCS"] = func(x *Exec, g *Gor, c *callCtx) Value { return goInt(2) }
	m["runtime.NumGoroutine"] = func(x *Exec, g *Gor, c *callCtx) Value {
		n := 0
		for _, h := range x.gors {
			if !h.done && !h.daemon {
				n++
			}
		}
		return goInt(n)
	}
	m["runtime.Gosched"] = nop
	m["runtime.KeepAlive"] = nop
	m["runtime.SetFinalizer"] = nop
	m["runtime.GC"] = nop
	m["internal/abi.NoEscape"] = func(x *Exec, g *Gor, c *callCtx) Value { return c.args[0] }
	m["internal/abi.Escape"] = func(x *Exec, g *Gor, c *callCtx) Value { return c.args[0] }
	m["internal/bytealg.MakeNoZero"] = func(x *Exec, g *Gor, c *callCtx) Value {
		n := int(x.cint(c.args[0], "length"))
		return Slice{arr: x.newArray(types.Typ[types.Uint8], n), len: n, cap: n}
	}
	seq := func(x *Exec, v Value) []Value {
		if s, ok := v.(Slice); ok {
			return x.sliceVals(s)
		}
		return strBytes(v)
	}
	cmp := func(x *Exec, g *Gor, c *callCtx) Value {
		return x.val(x.bytesCmpT(seq(x, c.args[0]), seq(x, c.args[1])))
	}
	m["internal/bytealg.Compare"] = cmp
	m["internal/bytealg.CompareString"] = cmp
	m["bytes.Compare"] = cmp
	m["strings.Compare"] = cmp
	eq := func(x *Exec, g *Gor, c *callCtx) Value {
		return x.val(x.bytesEqT(seq(x, c.args[0]), seq(x, c.args[1])))
	}
	m["bytes.Equal"] = eq
	m["internal/bytealg.Equal"] = eq
	m["crypto/subtle.ConstantTimeCompare"] = func(x *Exec, g *Gor, c *callCtx) Value {
		return x.val(x.ctx.Ite(x.bytesEqT(seq(x, c.args[0]), seq(x, c.args[1])), x.ctx.Const(64, 1), x.ctx.Const(64, 0)))
	}
	ib := func(x *Exec, g *Gor, c *callCtx) Value {
		b := seq(x, c.args[0])
		k := x.term(c.args[1])
		for i, e := range b {
			if x.Branch(x.ctx.Eq(x.term(e), k)) {
				return goInt(i)
			}
		}
		return mkInt(64, ^uint64(0))
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte"} {
		m[n] = ib
	}
	count := func(x *Exec, g *Gor, c *callCtx) Value {
		k, n := x.term(c.args[1]), 0
		for _, e := range seq(x, c.args[0]) {
			if x.Branch(x.ctx.Eq(x.term(e), k)) {
				n++
			}
		}
		return goInt(n)
	}
	m["internal/bytealg.Count"], m["internal/bytealg.CountString"] = count, count
	index := func(x *Exec, g *Gor, c *callCtx) Value {
		b, s := seq(x, c.args[0]), seq(x, c.args[1])
		for i := 0; i+len(s) <= len(b); i++ {
			if x.Branch(x.bytesEqT(b[i:i+len(s)], s)) {
				return goInt(i)
			}
		}
		return mkInt(64, ^uint64(0))
	}
	for _, n := range []string{"strings.Index", "bytes.Index", "internal/bytealg.Index", "internal/bytealg.IndexString"} {
		m[n] = index
	}
	m["time.runtimeNano"] = func(x *Exec, g *Gor, c *callCtx) Value { return mkInt(64, uint64(x.now)) }
	m["time.Sleep"] = func(x *Exec, g *Gor, c *callCtx) Value {
		if d, ok := c.args[0].(Int); ok && int64(d.c) > 0 {
			x.now += int64(d.c)
		}
		if g.id >= 0 {
			x.block(g, &pendOp{kind: pkAtomic, obj: "sleep", desc: "sleep", done: func(int, Value, bool) {}})
		}
		return nil
	}
	sortSlice := func(x *Exec, g *Gor, c *callCtx) Value {
		s := c.args[0].(Iface).v.(Slice)
		swap := &Closure{native: func(x *Exec, g *Gor, a []Value) Value {
			i, j := int(x.cint(a[0], "index")), int(x.cint(a[1], "index"))
			p, q := Ptr{arr: s.arr, idx: s.off + i}, Ptr{arr: s.arr, idx: s.off + j}
			v, w := x.load(g, p, nil), x.load(g, q, nil)
			x.store(g, p, w)
			x.store(g, q, v)
			return nil
		}}
		c.tail = &Closure{fn: x.p.symFunc("SortSlice")}
		c.tailArgs = []Value{goInt(s.len), c.args[1], swap}
		return nil
	}
	m["sort.Slice"] = sortSlice
	m["sort.SliceStable"] = sortSlice
	m["os/signal.Notify"] = nop
	m["internal/godebug.New"] = func(x *Exec, g *Gor, c *callCtx) Value { return Ptr{} }
	m["(*internal/godebug.Setting).Value"] = func(x *Exec, g *Gor, c *callCtx) Value { return "" }
	m["(*internal/godebug.Setting).IncNonDefault"] = nop
}

func (x *Exec) callerInRepo(g *Gor) bool {
	for i := len(g.stack) - 1; i >= 0; i-- {
		f := g.stack[i].fi
		if f.inRepo {
			return true
		}
		if f.fn.Pkg != nil && f.fn.Pkg.Pkg.Path() == "sync/atomic" {
			continue
		}
		return false
	}
	return false
}

func init() {
	intrinsics = symIntrinsics()
	fmtIntrinsics(intrinsics)
	syncIntrinsics(intrinsics)
}

// packages whose own initialisers are not executed
var skipInitPkgs = map[string]bool{
	"os": true, "syscall": true, "runtime": true, "reflect": true, "net/http": true, "net": true, "time": true,
	"crypto/md5": true, "internal/poll": true, "os/signal": true, "crypto/tls": true, "internal/godebug": true,
	"crypto": true, "internal/cpu": true, "internal/bytealg": true,
	"text/template": true, "html/template": true, "net/url": false,
}

var specialInit map[string]func(x *Exec, p *ssa.Package)

func init() {
	specialInit = map[string]func(x *Exec, p *ssa.Package){
		"net/http": func(x *Exec, p *ssa.Package) {
			g := p.Var("DefaultClient")
			t := g.Type().(*types.Pointer).Elem().(*types.Pointer).Elem()
			x.globals[g].v = Ptr{c: &Cell{v: x.zero(t)}}
			g = p.Var("NoBody")
			x.globals[g].v = x.zero(g.Type().(*types.Pointer).Elem())
		},
		"os": func(x *Exec, p *ssa.Package) {
			arr := x.newArray(types.Typ[types.String], 1)
			x.cell(arr, 0).v = "gosync"
			x.globals[p.Var("Args")].v = Slice{arr: arr, len: 1, cap: 1}
			for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
				g := p.Var(n)
				t := g.Type().(*types.Pointer).Elem().(*types.Pointer).Elem()
				x.globals[g].v = Ptr{c: &Cell{v: x.zero(t)}}
			}
			for _, n := range []string{"ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed"} {
				g := p.Var(n)
				if fs := x.p.pkgByPath("io/fs"); fs != nil {
					if v := fs.Var(n); v != nil {
						x.globals[g].v = x.global(v).v
					}
				}
			}
		},
	}
}
