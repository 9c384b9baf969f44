package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
)

// Intrinsics whose Go body is used if they decline (return declined).
var partial = map[string]bool{"encoding/binary.Write": true, "encoding/binary.Read": true}

type declinedT struct{}

var declined Value = declinedT{}

// deepEq compares values of one type like reflect.DeepEqual.
func (x *Exec) deepEq(t types.Type, a, b Value, depth int) *Term {
	if depth > 50 {
		panic(unsupported("deep comparison of a cyclic value"))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s, r := a.(*Struct), b.(*Struct)
		eq := x.ctx.tru
		for i := range s.f {
			eq = x.ctx.And(eq, x.deepEq(u.Field(i).Type(), s.f[i].v, r.f[i].v, depth+1))
		}
		return eq
	case *types.Array:
		s, r := a.(*Array), b.(*Array)
		eq := x.ctx.tru
		for i := 0; i < s.n; i++ {
			eq = x.ctx.And(eq, x.deepEq(u.Elem(), x.cell(s, i).v, x.cell(r, i).v, depth+1))
		}
		return eq
	case *types.Slice:
		s, r := a.(Slice), b.(Slice)
		if s.len != r.len || (s.arr == nil) != (r.arr == nil) {
			return x.ctx.fls
		}
		eq, sv, rv := x.ctx.tru, x.sliceVals(s), x.sliceVals(r)
		for i := range sv {
			eq = x.ctx.And(eq, x.deepEq(u.Elem(), sv[i], rv[i], depth+1))
		}
		return eq
	case *types.Pointer:
		p, q := a.(Ptr), b.(Ptr)
		if p.isNil() || q.isNil() {
			if p.isNil() && q.isNil() {
				return x.ctx.tru
			}
			return x.ctx.fls
		}
		if p == q {
			return x.ctx.tru
		}
		return x.deepEq(u.Elem(), x.ptrCell(p).v, x.ptrCell(q).v, depth+1)
	case *types.Interface:
		i, j := a.(Iface), b.(Iface)
		if i.t == nil || j.t == nil || !types.Identical(i.t, j.t) {
			if i.t == nil && j.t == nil {
				return x.ctx.tru
			}
			return x.ctx.fls
		}
		return x.deepEq(i.t, i.v, j.v, depth+1)
	case *types.Map, *types.Signature:
		panic(unsupported("deep comparison of " + t.String()))
	}
	return x.eqT(a, b)
}

// fixedSize is the size of a value for encoding/binary, -1 if it has none.
func fixedSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32:
			return 4
		case types.Int64, types.Uint64:
			return 8
		}
	case *types.Array:
		if n := fixedSize(u.Elem()); n >= 0 {
			return n * int(u.Len())
		}
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			n := fixedSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

func (x *Exec) encode(t types.Type, v Value, big bool) []Value {
	switch u := t.Underlying().(type) {
	case *types.Array:
		var out []Value
		a := v.(*Array)
		for i := 0; i < a.n; i++ {
			out = append(out, x.encode(u.Elem(), x.cell(a, i).v, big)...)
		}
		return out
	case *types.Struct:
		var out []Value
		for i := range v.(*Struct).f {
			out = append(out, x.encode(u.Field(i).Type(), v.(*Struct).f[i].v, big)...)
		}
		return out
	}
	n := fixedSize(t)
	w := x.term(v)
	if w.w == 0 {
		w = x.ctx.Ite(w, x.ctx.Const(8, 1), x.ctx.Const(8, 0))
	}
	out := make([]Value, n)
	for i := range out {
		k := i
		if big {
			k = n - 1 - i
		}
		out[i] = x.val(x.ctx.Extract(w, 8*k, 8))
	}
	return out
}

func (x *Exec) decode(t types.Type, b []Value, big bool) (Value, []Value) {
	switch u := t.Underlying().(type) {
	case *types.Array:
		a := x.newArray(u.Elem(), int(u.Len()))
		for i := 0; i < a.n; i++ {
			x.cell(a, i).v, b = x.decode(u.Elem(), b, big)
		}
		return a, b
	case *types.Struct:
		s := &Struct{f: make([]Cell, u.NumFields())}
		for i := range s.f {
			s.f[i].v, b = x.decode(u.Field(i).Type(), b, big)
		}
		return s, b
	}
	n := fixedSize(t)
	var w *Term
	for i := 0; i < n; i++ {
		e := x.term(b[i])
		if w == nil {
			w = e
		} else if big {
			w = x.ctx.Concat(w, e)
		} else {
			w = x.ctx.Concat(e, w)
		}
	}
	if u, ok := t.Underlying().(*types.Basic); ok && u.Kind() == types.Bool {
		w = x.ctx.Not(x.ctx.Eq(w, x.ctx.Const(8, 0)))
	}
	return x.val(w), b[n:]
}

// binArgs tells what encoding/binary is asked to transfer, if not one of the
// types that its Go code handles without reflection.
func binArgs(c *callCtx, read bool) (t types.Type, big, ok bool) {
	o, _ := c.args[1].(Iface)
	d, _ := c.args[2].(Iface)
	if o.t == nil || d.t == nil {
		return nil, false, false
	}
	switch {
	case strings.HasSuffix(o.t.String(), "bigEndian"):
		big = true
	case !strings.HasSuffix(o.t.String(), "littleEndian"):
		return nil, false, false
	}
	t = d.t
	if p, is := t.(*types.Pointer); is {
		t = p.Elem()
	} else if _, is := t.Underlying().(*types.Slice); read && !is {
		return nil, false, false
	}
	e := t
	if s, is := e.Underlying().(*types.Slice); is {
		e = s.Elem()
	}
	if _, is := e.(*types.Basic); is {
		return nil, false, false
	}
	return t, big, fixedSize(e) >= 0
}

func init() {
	m := intrinsics
	m["encoding/binary.Write"] = func(x *Exec, g *Gor, c *callCtx) Value {
		t, big, ok := binArgs(c, false)
		if !ok {
			return declined
		}
		v := c.args[2].(Iface).v
		if p, is := v.(Ptr); is {
			if p.isNil() {
				return declined
			}
			v = x.ptrCell(p).v
		}
		var b []Value
		if s, is := t.Underlying().(*types.Slice); is {
			for _, e := range x.sliceVals(v.(Slice)) {
				b = append(b, x.encode(s.Elem(), e, big)...)
			}
		} else {
			b = x.encode(t, v, big)
		}
		c.tail = &Closure{fn: x.p.symFunc("BinWrite")}
		c.tailArgs = []Value{c.args[0], x.bytesToSlice(b, types.Typ[types.Uint8])}
		return nil
	}
	m["encoding/binary.Read"] = func(x *Exec, g *Gor, c *callCtx) Value {
		t, big, ok := binArgs(c, true)
		if !ok {
			return declined
		}
		v := c.args[2].(Iface).v
		n := fixedSize(t)
		var set func(b []Value)
		if s, is := t.Underlying().(*types.Slice); is {
			sl, is := v.(Slice)
			if !is {
				return declined
			}
			n = fixedSize(s.Elem()) * sl.len
			set = func(b []Value) {
				for i := 0; i < sl.len; i++ {
					var e Value
					e, b = x.decode(s.Elem(), b, big)
					x.store(g, Ptr{arr: sl.arr, idx: sl.off + i}, e)
				}
			}
		} else {
			p := v.(Ptr)
			if p.isNil() {
				return declined
			}
			set = func(b []Value) {
				e, _ := x.decode(t, b, big)
				x.store(g, p, e)
			}
		}
		c.tail = &Closure{fn: x.p.symFunc("BinRead")}
		c.tailArgs = []Value{c.args[0], goInt(n), &Closure{native: func(x *Exec, g *Gor, a []Value) Value {
			set(x.sliceVals(a[0].(Slice)))
			return nil
		}}}
		return nil
	}
	m["reflect.DeepEqual"] = func(x *Exec, g *Gor, c *callCtx) Value {
		return x.val(x.deepEq(types.NewInterfaceType(nil, nil), c.args[0], c.args[1], 0))
	}
	// AsTarget stores an error in the variable errors.As was given, if it fits.
	m[zz+"sym.AsTarget"] = func(x *Exec, g *Gor, c *callCtx) Value {
		err, to := c.args[0].(Iface), c.args[1].(Iface)
		p, ok := to.t.(*types.Pointer)
		if !ok || err.t == nil {
			return false
		}
		if it, is := p.Elem().Underlying().(*types.Interface); is {
			if !types.Implements(err.t, it) {
				return false
			}
			x.store(g, to.v, err)
			return true
		}
		if !types.Identical(err.t, p.Elem()) {
			return false
		}
		x.store(g, to.v, err.v)
		return true
	}
	// Timer waits until nothing else can be done and no timer is due before.
	m[zz+"sym.Timer"] = func(x *Exec, g *Gor, c *callCtx) Value {
		d := x.cint(c.args[0], "duration")
		if d < 0 {
			d = 0
		}
		g.daemon = true
		g.due = x.now + d
		x.block(g, &pendOp{kind: pkTimer, desc: "timer", done: func(int, Value, bool) {
			if x.now < g.due {
				x.now = g.due
			}
			g.daemon = false
		}})
		return nil
	}
	try := func(write bool) intrinsic {
		return func(x *Exec, g *Gor, c *callCtx) Value {
			mu := x.mutex(c.args[0])
			do := func() Value {
				if mu.locked || write && mu.readers > 0 {
					return false
				}
				x.acquire(g, mu.vc)
				if write {
					mu.locked = true
					x.acquire(g, mu.rvc)
				} else {
					mu.readers++
				}
				return true
			}
			if g.id < 0 {
				return do()
			}
			f, dst := g.top(), c.dst
			x.block(g, &pendOp{kind: pkAtomic, obj: mu, desc: "try to lock", done: func(int, Value, bool) {
				if v := do(); dst >= 0 {
					f.env[dst] = v
				}
			}})
			return nil
		}
	}
	m["(*sync.Mutex).TryLock"] = try(true)
	m["(*sync.RWMutex).TryLock"] = try(true)
	m["(*sync.RWMutex).TryRLock"] = try(false)
	av := func(op func(x *Exec, c *callCtx, cell *Cell) Value) intrinsic {
		return func(x *Exec, g *Gor, c *callCtx) Value {
			cell := &x.objCell(c.args[0]).v.(*Struct).f[0]
			do := func() Value {
				if x.races && g.id >= 0 {
					vc, _ := x.side[cell].(VC)
					g.vc = g.vc.join(vc)
					x.side[cell] = g.vc
					g.vc = g.vc.tick(g.id)
				}
				return op(x, c, cell)
			}
			if g.id < 0 || !x.callerInRepo(g) {
				return do()
			}
			f, dst := g.top(), c.dst
			x.block(g, &pendOp{kind: pkAtomic, obj: cell, desc: "atomic", done: func(int, Value, bool) {
				if v := do(); dst >= 0 {
					f.env[dst] = v
				}
			}})
			return nil
		}
	}
	m["(*sync/atomic.Value).Load"] = av(func(x *Exec, c *callCtx, cell *Cell) Value { return cell.v })
	m["(*sync/atomic.Value).Store"] = av(func(x *Exec, c *callCtx, cell *Cell) Value { cell.v = c.args[1]; return nil })
	m["(*sync/atomic.Value).Swap"] = av(func(x *Exec, c *callCtx, cell *Cell) Value { o := cell.v; cell.v = c.args[1]; return o })
	m["(*sync/atomic.Value).CompareAndSwap"] = av(func(x *Exec, c *callCtx, cell *Cell) Value {
		if x.Branch(x.eqT(cell.v, c.args[1])) {
			cell.v = c.args[2]
			return true
		}
		return false
	})
	m["slices.overlaps"] = func(x *Exec, g *Gor, c *callCtx) Value {
		a, b := c.args[0].(Slice), c.args[1].(Slice)
		return a.len > 0 && b.len > 0 && a.arr == b.arr && a.off < b.off+b.len && b.off < a.off+a.len
	}
	m["slices.startIdx"] = func(x *Exec, g *Gor, c *callCtx) Value {
		a, b := c.args[0].(Slice), c.args[1].(Slice)
		return goInt(b.off - a.off)
	}
	f1 := func(f func(float64) float64) intrinsic {
		return func(x *Exec, g *Gor, c *callCtx) Value {
			v, ok := c.args[0].(float64)
			if !ok {
				panic(unsupported(fmt.Sprintf("mathematical function of %T", c.args[0])))
			}
			return f(v)
		}
	}
	for n, f := range map[string]func(float64) float64{"Ceil": math.Ceil, "Floor": math.Floor, "Trunc": math.Trunc, "Sqrt": math.Sqrt,
		"Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Exp": math.Exp, "Abs": math.Abs, "Round": math.Round} {
		m["math."+n] = f1(f)
	}
	for n, f := range map[string]func(a, b float64) float64{"Pow": math.Pow, "Max": math.Max, "Min": math.Min, "Mod": math.Mod} {
		f := f
		m["math."+n] = func(x *Exec, g *Gor, c *callCtx) Value {
			a, ok := c.args[0].(float64)
			b, ok2 := c.args[1].(float64)
			if !ok || !ok2 {
				panic(unsupported("mathematical function of symbolic values"))
			}
			return f(a, b)
		}
	}
	// one sequence of random numbers (every execution has the same)
	rnd := func(x *Exec, g *Gor, c *callCtx) Value {
		x.rand += 0x9e3779b97f4a7c15
		z := x.rand
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		return mkInt(64, z^z>>31)
	}
	m["math/rand.runtime_rand"] = rnd
	m["math/rand/v2.runtime_rand"] = rnd
	// what the command line library prints about usage
	m["(*flag.FlagSet).PrintDefaults"] = nop
	m["github.com/urfave/cli/v2.printHelp"] = nop
	m["github.com/urfave/cli/v2.printHelpCustom"] = nop
	m["runtime.ReadMemStats"] = nop
	m["runtime/debug.FreeOSMemory"] = nop
	m["runtime/debug.SetGCPercent"] = func(x *Exec, g *Gor, c *callCtx) Value { return goInt(100) }
	m["(*sync.copyChecker).check"] = nop
	m["crypto/internal/fips140.getIndicator"] = func(x *Exec, g *Gor, c *callCtx) Value { return mkInt(8, 0) }
	m["crypto/internal/fips140.setIndicator"] = nop
	m["time.Now"] = func(x *Exec, g *Gor, c *callCtx) Value {
		t := x.zero(c.fn.Signature.Results().At(0).Type())
		st := t.(*Struct)
		st.f[0].v = mkInt(64, uint64(x.now%1e9))
		st.f[1].v = mkInt(64, uint64(63000000000+x.now/1e9))
		return t
	}
}
