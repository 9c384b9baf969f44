package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---------- equality ----------

func strBytes(v Value) []Value {
	switch v := v.(type) {
	case string:
		r := make([]Value, len(v))
		for i := range r {
			r[i] = mkInt(8, uint64(v[i]))
		}
		return r
	case *SymStr:
		return v.b
	}
	panic(unsupported(fmt.Sprintf("string bytes of %T", v)))
}

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(unsupported(fmt.Sprintf("string length of %T", v)))
}

// mkStr makes a string value from bytes, concrete when possible.
func mkStr(b []Value) Value {
	r := make([]byte, len(b))
	for i, e := range b {
		c, ok := e.(Int)
		if !ok {
			return &SymStr{b}
		}
		r[i] = byte(c.c)
	}
	return string(r)
}

func (x *Exec) bytesEqT(a, b []Value) *Term {
	if len(a) != len(b) {
		return x.ctx.fls
	}
	r := x.ctx.tru
	for i := range a {
		ai, ok1 := a[i].(Int)
		bi, ok2 := b[i].(Int)
		if ok1 && ok2 {
			if ai.c != bi.c {
				return x.ctx.fls
			}
			continue
		}
		r = x.ctx.And(r, x.ctx.Eq(x.term(a[i]), x.term(b[i])))
		if r == x.ctx.fls {
			return r
		}
	}
	return r
}

// bytesCmpT is the three-way comparison as a 64-bit term.
func (x *Exec) bytesCmpT(a, b []Value) *Term {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	var r *Term
	switch {
	case len(a) < len(b):
		r = x.ctx.Const(64, ^uint64(0))
	case len(a) > len(b):
		r = x.ctx.Const(64, 1)
	default:
		r = x.ctx.Const(64, 0)
	}
	for i := n - 1; i >= 0; i-- {
		p, q := x.term(a[i]), x.term(b[i])
		r = x.ctx.Ite(x.ctx.Eq(p, q), r, x.ctx.Ite(x.ctx.Ult(p, q), x.ctx.Const(64, ^uint64(0)), x.ctx.Const(64, 1)))
	}
	return r
}

// eqT compares two values of the same static type.
func (x *Exec) eqT(a, b Value) *Term {
	switch a := a.(type) {
	case Int:
		if bi, ok := b.(Int); ok {
			return x.ctx.Bool(a.c == bi.c)
		}
		return x.ctx.Eq(x.term(a), x.term(b))
	case *Term, bool:
		return x.ctx.Eq(x.term(a), x.term(b))
	case float64:
		return x.ctx.Bool(a == b.(float64))
	case complex128:
		return x.ctx.Bool(a == b.(complex128))
	case string, *SymStr:
		if as, ok := a.(string); ok {
			if bs, ok := b.(string); ok {
				return x.ctx.Bool(as == bs)
			}
		}
		if strLen(a) != strLen(b) {
			return x.ctx.fls
		}
		return x.bytesEqT(strBytes(a), strBytes(b))
	case Ptr:
		switch b := b.(type) {
		case Ptr:
			return x.ctx.Bool(a == b)
		case SymPtr:
			return x.eqT(b, a)
		}
	case SymPtr:
		switch b := b.(type) {
		case Ptr:
			if a.arr != b.arr {
				return x.ctx.fls
			}
			return x.ctx.Eq(a.idx, x.ctx.Const(64, uint64(b.idx)))
		case SymPtr:
			if a.arr != b.arr {
				return x.ctx.fls
			}
			return x.ctx.Eq(a.idx, b.idx)
		}
	case *Map, *Chan, *Closure:
		if isNilVal(a) || isNilVal(b) {
			return x.ctx.Bool(isNilVal(a) && isNilVal(b))
		}
		return x.ctx.Bool(a == b)
	case Slice:
		bs := b.(Slice)
		if a.arr == nil || bs.arr == nil {
			return x.ctx.Bool(a.arr == nil && bs.arr == nil)
		}
		x.rtPanic("comparing uncomparable type slice")
	case Iface:
		bi := b.(Iface)
		if a.t == nil || bi.t == nil {
			return x.ctx.Bool(a.t == nil && bi.t == nil)
		}
		if !types.Identical(a.t, bi.t) {
			return x.ctx.fls
		}
		if !types.Comparable(a.t) {
			x.rtPanic("comparing uncomparable type %s", a.t)
		}
		return x.eqT(a.v, bi.v)
	case *Struct:
		bs := b.(*Struct)
		r := x.ctx.tru
		for i := range a.f {
			r = x.ctx.And(r, x.eqT(a.f[i].v, bs.f[i].v))
		}
		return r
	case *Array:
		ba := b.(*Array)
		r := x.ctx.tru
		for i := 0; i < a.n; i++ {
			r = x.ctx.And(r, x.eqT(x.cell(a, i).v, x.cell(ba, i).v))
		}
		return r
	}
	panic(unsupported(fmt.Sprintf("== on %T and %T", a, b)))
}

// ---------- binary operators ----------

func (x *Exec) binop(op token.Token, xt types.Type, w int, sg bool, a, b Value, yt types.Type) Value {
	if w > 0 {
		return x.intBinop(op, w, sg, a, b, yt)
	}
	switch op {
	case token.EQL:
		return x.val(x.eqT(a, b))
	case token.NEQ:
		return x.val(x.ctx.Not(x.eqT(a, b)))
	}
	switch av := a.(type) {
	case float64:
		bv := b.(float64)
		var r float64
		switch op {
		case token.ADD:
			r = av + bv
		case token.SUB:
			r = av - bv
		case token.MUL:
			r = av * bv
		case token.QUO:
			r = av / bv
		case token.LSS:
			return av < bv
		case token.LEQ:
			return av <= bv
		case token.GTR:
			return av > bv
		case token.GEQ:
			return av >= bv
		default:
			panic(unsupported("float op " + op.String()))
		}
		if u, ok := xt.Underlying().(*types.Basic); ok && u.Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return r
	case string, *SymStr:
		switch op {
		case token.ADD:
			as, ok1 := a.(string)
			bs, ok2 := b.(string)
			if ok1 && ok2 {
				return as + bs
			}
			return mkStr(append(append([]Value{}, strBytes(a)...), strBytes(b)...))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			c := x.val(x.bytesCmpT(strBytes(a), strBytes(b)))
			return x.intBinop(op, 64, true, c, mkInt(64, 0), nil)
		}
	case bool, *Term:
		p, q := x.term(a), x.term(b)
		switch op {
		case token.AND, token.LAND:
			return x.val(x.ctx.And(p, q))
		case token.OR, token.LOR:
			return x.val(x.ctx.Or(p, q))
		}
	}
	panic(unsupported(fmt.Sprintf("binop %s on %T", op, a)))
}

func (x *Exec) intBinop(op token.Token, w int, sg bool, a, b Value, yt types.Type) Value {
	ai, ok1 := a.(Int)
	bi, ok2 := b.(Int)
	if ok1 && ok2 {
		p, q := ai.c, bi.c
		switch op {
		case token.ADD:
			return mkInt(w, p+q)
		case token.SUB:
			return mkInt(w, p-q)
		case token.MUL:
			return mkInt(w, p*q)
		case token.QUO, token.REM:
			if q == 0 {
				x.rtPanic("integer divide by zero")
			}
			if sg {
				sp, sq := sext(p, w), sext(q, w)
				if sq == -1 {
					if op == token.QUO {
						return mkInt(w, uint64(-sp))
					}
					return mkInt(w, 0)
				}
				if op == token.QUO {
					return mkInt(w, uint64(sp/sq))
				}
				return mkInt(w, uint64(sp%sq))
			}
			if op == token.QUO {
				return mkInt(w, p/q)
			}
			return mkInt(w, p%q)
		case token.AND:
			return mkInt(w, p&q)
		case token.OR:
			return mkInt(w, p|q)
		case token.XOR:
			return mkInt(w, p^q)
		case token.AND_NOT:
			return mkInt(w, p&^q)
		case token.SHL, token.SHR:
			if _, ysg := typeIntWidth(yt); ysg && sext(q, int(bi.w)) < 0 {
				x.rtPanic("negative shift amount")
			}
			if op == token.SHL {
				if q >= uint64(w) {
					return mkInt(w, 0)
				}
				return mkInt(w, p<<q)
			}
			if sg {
				if q > 63 {
					q = 63
				}
				return mkInt(w, uint64(sext(p, w)>>q))
			}
			if q >= uint64(w) {
				return mkInt(w, 0)
			}
			return mkInt(w, p>>q)
		case token.EQL:
			return p == q
		case token.NEQ:
			return p != q
		}
		if sg {
			sp, sq := sext(p, w), sext(q, w)
			switch op {
			case token.LSS:
				return sp < sq
			case token.LEQ:
				return sp <= sq
			case token.GTR:
				return sp > sq
			case token.GEQ:
				return sp >= sq
			}
		} else {
			switch op {
			case token.LSS:
				return p < q
			case token.LEQ:
				return p <= q
			case token.GTR:
				return p > q
			case token.GEQ:
				return p >= q
			}
		}
		panic(unsupported("int op " + op.String()))
	}
	c := x.ctx
	p, q := x.term(a), x.term(b)
	switch op {
	case token.ADD:
		return x.val(c.Add(p, q))
	case token.SUB:
		return x.val(c.Sub(p, q))
	case token.MUL:
		return x.val(c.Mul(p, q))
	case token.QUO, token.REM:
		if x.Branch(c.Eq(q, c.Const(w, 0))) {
			x.rtPanic("integer divide by zero")
		}
		o := OUDiv
		switch {
		case sg && op == token.QUO:
			o = OSDiv
		case sg:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return x.val(c.div(o, p, q))
	case token.AND:
		return x.val(c.BAnd(p, q))
	case token.OR:
		return x.val(c.BOr(p, q))
	case token.XOR:
		return x.val(c.BXor(p, q))
	case token.AND_NOT:
		return x.val(c.BAnd(p, c.BNot(q)))
	case token.SHL, token.SHR:
		_, ysg := typeIntWidth(yt)
		if ysg && !q.isConst() && q.hi > mask(q.w)>>1 {
			if x.Branch(c.Slt(q, c.Const(q.w, 0))) {
				x.rtPanic("negative shift amount")
			}
		}
		// bring the count to width w, saturating
		var big *Term
		switch {
		case q.w < w:
			q = c.ZExt(q, w)
		case q.w > w:
			big = c.Not(c.Ult(q, c.Const(q.w, uint64(w))))
			q = c.Extract(q, 0, w)
		}
		var r, ov *Term
		switch {
		case op == token.SHL:
			r, ov = c.Shl(p, q), c.Const(w, 0)
		case sg:
			r, ov = c.AShr(p, q), c.AShr(p, c.Const(w, uint64(w-1)))
		default:
			r, ov = c.LShr(p, q), c.Const(w, 0)
		}
		if big != nil {
			r = c.Ite(big, ov, r)
		}
		return x.val(r)
	case token.EQL:
		return x.val(c.Eq(p, q))
	case token.NEQ:
		return x.val(c.Not(c.Eq(p, q)))
	}
	lt := c.Ult
	if sg {
		lt = c.Slt
	}
	switch op {
	case token.LSS:
		return x.val(lt(p, q))
	case token.LEQ:
		return x.val(c.Not(lt(q, p)))
	case token.GTR:
		return x.val(lt(q, p))
	case token.GEQ:
		return x.val(c.Not(lt(p, q)))
	}
	panic(unsupported("int op " + op.String()))
}

// ---------- conversions ----------

func (x *Exec) convert(from, to types.Type, v Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	fw, fs := typeIntWidth(from)
	tw, ts := typeIntWidth(to)
	switch {
	case fw > 0 && tw > 0:
		if i, ok := v.(Int); ok {
			if fs {
				return mkInt(tw, uint64(sext(i.c, fw)))
			}
			return mkInt(tw, i.c)
		}
		if p, ok := v.(Ptr); ok {
			return p
		}
		t := x.term(v)
		if fs {
			return x.val(x.ctx.SExt(t, tw))
		}
		return x.val(x.ctx.ZExt(t, tw))
	case fw > 0:
		if b, ok := tu.(*types.Basic); ok {
			switch {
			case b.Info()&types.IsFloat != 0:
				i := x.cint(v, "integer converted to float")
				if !fs {
					return float64(uint64(i) & mask(fw))
				}
				if b.Kind() == types.Float32 {
					return float64(float32(i))
				}
				return float64(i)
			case b.Info()&types.IsString != 0:
				return string(rune(x.cint(v, "rune converted to string")))
			case b.Kind() == types.UnsafePointer:
				return v
			}
		}
	}
	if f, ok := v.(float64); ok {
		if tw > 0 {
			if ts {
				return mkInt(tw, uint64(int64(f)))
			}
			return mkInt(tw, uint64(f))
		}
		if b, ok := tu.(*types.Basic); ok && b.Kind() == types.Float32 {
			return float64(float32(f))
		}
		return f
	}
	switch v := v.(type) {
	case string, *SymStr:
		if sl, ok := tu.(*types.Slice); ok {
			if w, _ := typeIntWidth(sl.Elem()); w == 8 {
				return x.bytesToSlice(strBytes(v), sl.Elem())
			}
			s, ok := v.(string)
			if !ok {
				panic(unsupported("[]rune of a symbolic string"))
			}
			rs := []rune(s)
			a := x.newArray(sl.Elem(), len(rs))
			for i, r := range rs {
				x.cell(a, i).v = mkInt(32, uint64(r))
			}
			return Slice{arr: a, len: len(rs), cap: len(rs)}
		}
		return v
	case Slice:
		if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			sl := fu.(*types.Slice)
			if w, _ := typeIntWidth(sl.Elem()); w == 8 {
				return mkStr(x.sliceVals(v))
			}
			var rs []rune
			for _, e := range x.sliceVals(v) {
				rs = append(rs, rune(x.cint(e, "rune")))
			}
			return string(rs)
		}
		if _, ok := tu.(*types.Array); ok {
			n := int(tu.(*types.Array).Len())
			if v.len < n {
				x.rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", v.len, n)
			}
			a := x.newArray(tu.(*types.Array).Elem(), n)
			for i := 0; i < n; i++ {
				x.cell(a, i).v = x.copyVal(x.getElem(v, i))
			}
			return a
		}
		return v
	}
	return v // pointers, unsafe.Pointer, channels, functions
}

func (x *Exec) bytesToSlice(b []Value, et types.Type) Slice {
	a := x.newArray(et, len(b))
	for i, e := range b {
		x.cell(a, i).v = e
	}
	if len(b) == 0 {
		// non-nil empty slice
		return Slice{arr: a}
	}
	return Slice{arr: a, len: len(b), cap: len(b)}
}

func (x *Exec) getElem(s Slice, i int) Value {
	return x.load(x.cur, Ptr{arr: s.arr, idx: s.off + i}, nil)
}

func (x *Exec) sliceVals(s Slice) []Value {
	r := make([]Value, s.len)
	for i := range r {
		r[i] = x.getElem(s, i)
	}
	return r
}

// ---------- slicing, indexing ----------

func (x *Exec) slice(g *Gor, f *Frame, in *ssa.Slice, ci *cinstr) Value {
	b := x.opv(f, &ci.ops[0])
	bound := func(i int) (int, bool) {
		if i >= len(ci.ops) {
			return 0, false
		}
		v := x.opv(f, &ci.ops[i])
		if v == nil {
			return 0, false
		}
		if n := x.cint(v, "slice bound"); n < -1<<40 || n > 1<<40 {
			x.rtPanic("slice bounds out of range [%d]", n)
		} else {
			return int(n), true
		}
		return 0, false
	}
	lo, _ := bound(1)
	hi, hasHi := bound(2)
	mx, hasMax := bound(3)
	switch b := b.(type) {
	case string, *SymStr:
		n := strLen(b)
		if !hasHi {
			hi = n
		}
		if lo < 0 || hi < lo || hi > n {
			x.rtPanic("slice bounds out of range [%d:%d] with length %d", lo, hi, n)
		}
		if s, ok := b.(string); ok {
			return s[lo:hi]
		}
		return mkStr(strBytes(b)[lo:hi])
	case Slice:
		if !hasHi {
			hi = b.len
		}
		if !hasMax {
			mx = b.cap
		}
		if mx > b.cap || mx < 0 {
			x.rtPanic("slice bounds out of range [::%d] with capacity %d", mx, b.cap)
		}
		if hi > mx || hi < 0 {
			x.rtPanic("slice bounds out of range [:%d] with capacity %d", hi, mx)
		}
		if lo > hi || lo < 0 {
			x.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		return Slice{arr: b.arr, off: b.off + lo, len: hi - lo, cap: mx - lo}
	case Ptr:
		if b.isNil() {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		a, ok := x.ptrCell(b).v.(*Array)
		if !ok {
			break
		}
		if !hasHi {
			hi = a.n
		}
		if !hasMax {
			mx = a.n
		}
		if mx > a.n || hi > mx || lo > hi || lo < 0 {
			x.rtPanic("slice bounds out of range [%d:%d:%d] with length %d", lo, hi, mx, a.n)
		}
		return Slice{arr: a, off: lo, len: hi - lo, cap: mx - lo}
	}
	panic(unsupported(fmt.Sprintf("slice of %T", b)))
}

func (x *Exec) strIndex(s Value, idx Value) Value {
	b := strBytes(s)
	if i, ok := idx.(Int); ok {
		k := sext(i.c, int(i.w))
		if k < 0 || k >= int64(len(b)) {
			x.rtPanic("index out of range [%d] with length %d", k, len(b))
		}
		return b[k]
	}
	t := x.ctx.SExt(idx.(*Term), 64)
	if !x.Branch(x.ctx.Ult(t, x.ctx.Const(64, uint64(len(b))))) {
		x.rtPanic("index out of range [symbolic] with length %d", len(b))
	}
	var r *Term
	for i := len(b) - 1; i >= 0; i-- {
		if r == nil {
			r = x.term(b[i])
		} else {
			r = x.ctx.Ite(x.ctx.Eq(t, x.ctx.Const(64, uint64(i))), x.term(b[i]), r)
		}
	}
	return x.val(r)
}

// ---------- type assertions ----------

func (x *Exec) typeAssert(in *ssa.TypeAssert, v Iface) Value {
	ok := false
	if v.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = x.p.implements(v.t, it)
		} else {
			ok = types.Identical(v.t, in.AssertedType)
		}
	}
	if in.CommaOk {
		if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if ok {
				return Tuple{v, true}
			}
			return Tuple{Iface{}, false}
		}
		if ok {
			return Tuple{x.copyVal(v.v), true}
		}
		return Tuple{x.zero(in.AssertedType), false}
	}
	if !ok {
		d := "nil"
		if v.t != nil {
			d = v.t.String()
		}
		x.rtPanicRaw("interface conversion: interface is %s, not %s", d, in.AssertedType)
	}
	if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		return v
	}
	return x.copyVal(v.v)
}

func (x *Exec) rtPanicRaw(format string, a ...interface{}) {
	panic(goPanic{x.p.mkRuntimeError(x, fmt.Sprintf(format, a...))})
}

// ---------- maps and ranges ----------

type strIter struct {
	s   Value
	pos int
}

type mapIter struct {
	m    *Map
	keys []int
	pos  int
}

// mapKey returns a comparable Go value for a concrete key.
func (x *Exec) mapKey(v Value) (interface{}, bool) {
	switch v := v.(type) {
	case Int, bool, string, float64, Ptr, *Chan:
		return v, true
	case *Term, *SymStr, SymPtr:
		return nil, false
	case Iface:
		if v.t == nil {
			return Iface{}, true
		}
		k, ok := x.mapKey(v.v)
		if !ok {
			return nil, false
		}
		return [2]interface{}{v.t.String(), k}, true
	case *Struct:
		var sb strings.Builder
		for i := range v.f {
			k, ok := x.mapKey(v.f[i].v)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v;", k, k)
		}
		return "struct:" + sb.String(), true
	case *Array:
		var sb strings.Builder
		for i := 0; i < v.n; i++ {
			k, ok := x.mapKey(x.cell(v, i).v)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v;", k, k)
		}
		return "array:" + sb.String(), true
	}
	panic(unsupported(fmt.Sprintf("map key %T", v)))
}

// mapFind returns the position of the entry, or -1; it may fork.
func (x *Exec) mapFind(m *Map, k Value) int {
	ck, conc := x.mapKey(k)
	if conc {
		if i, ok := m.idx[ck]; ok {
			return i
		}
		if m.sym == 0 {
			return -1
		}
	}
	for i := range m.keys {
		if m.keys[i] == nil {
			continue
		}
		if _, c2 := x.mapKey(m.keys[i]); conc && c2 {
			continue
		}
		if x.Branch(x.eqT(m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (x *Exec) mapLookup(g *Gor, m *Map, k Value) (Value, bool) {
	if m == nil {
		return nil, false
	}
	x.access(g, &m.cell, false)
	i := x.mapFind(m, k)
	if i < 0 {
		return nil, false
	}
	return x.copyVal(m.vals[i]), true
}

func (x *Exec) mapUpdate(g *Gor, m *Map, k, v Value) {
	if m == nil {
		x.rtPanicRaw("assignment to entry in nil map")
	}
	x.access(g, &m.cell, true)
	i := x.mapFind(m, k)
	if i >= 0 {
		m.vals[i] = v
		return
	}
	if ck, conc := x.mapKey(k); conc {
		m.idx[ck] = len(m.keys)
	} else {
		m.sym++
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
}

func (x *Exec) mapDelete(g *Gor, m *Map, k Value) {
	if m == nil {
		return
	}
	x.access(g, &m.cell, true)
	i := x.mapFind(m, k)
	if i < 0 {
		return
	}
	if ck, conc := x.mapKey(m.keys[i]); conc {
		delete(m.idx, ck)
	} else {
		m.sym--
	}
	m.keys[i], m.vals[i] = nil, nil
	m.dead++
}

func (m *Map) length() int {
	if m == nil {
		return 0
	}
	return len(m.keys) - m.dead
}

func (x *Exec) rangeMap(g *Gor, m *Map) Value {
	it := &mapIter{m: m}
	if m != nil {
		x.access(g, &m.cell, false)
		for i := range m.keys {
			if m.keys[i] != nil {
				it.keys = append(it.keys, i)
			}
		}
	}
	return it
}

func (x *Exec) next(g *Gor, in *ssa.Next, v Value) Value {
	switch it := v.(type) {
	case *mapIter:
		for it.pos < len(it.keys) {
			i := it.keys[it.pos]
			it.pos++
			if it.m.keys[i] != nil {
				return Tuple{true, x.copyVal(it.m.keys[i]), x.copyVal(it.m.vals[i])}
			}
		}
		tt := in.Type().(*types.Tuple)
		return Tuple{false, x.zeroOrNil(tt.At(1).Type()), x.zeroOrNil(tt.At(2).Type())}
	case *strIter:
		s, ok := it.s.(string)
		if !ok {
			// symbolic string: treat as ASCII, forking on the high bit
			b := strBytes(it.s)
			if it.pos >= len(b) {
				return Tuple{false, goInt(0), mkInt(32, 0)}
			}
			t := x.term(b[it.pos])
			if !x.Branch(x.ctx.Ult(t, x.ctx.Const(8, 128))) {
				panic(unsupported("range over symbolic non-ASCII string"))
			}
			p := it.pos
			it.pos++
			return Tuple{true, goInt(p), x.val(x.ctx.ZExt(t, 32))}
		}
		if it.pos >= len(s) {
			return Tuple{false, goInt(0), mkInt(32, 0)}
		}
		r, n := utf8.DecodeRuneInString(s[it.pos:])
		p := it.pos
		it.pos += n
		return Tuple{true, goInt(p), mkInt(32, uint64(r))}
	}
	panic(unsupported(fmt.Sprintf("next on %T", v)))
}

func (x *Exec) zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return x.zero(t)
}

// ---------- builtins ----------

func (x *Exec) setRes(g *Gor, dst int, v Value) {
	if dst >= 0 {
		g.top().env[dst] = v
	}
}

func (x *Exec) builtin(g *Gor, f *Frame, name string, cc *ssa.CallCommon, args []Value, dst int) {
	switch name {
	case "len", "cap":
		var n int
		switch v := args[0].(type) {
		case string, *SymStr:
			n = strLen(v)
		case Slice:
			n = v.len
			if name == "cap" {
				n = v.cap
			}
		case *Map:
			n = v.length()
		case *Array:
			n = v.n
		case Ptr:
			n = int(cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		case *Chan:
			if v != nil {
				if name == "cap" {
					n = v.cap
				} else {
					n = len(v.buf)
				}
			}
		default:
			panic(unsupported(fmt.Sprintf("%s of %T", name, v)))
		}
		x.setRes(g, dst, goInt(n))
	case "append":
		x.setRes(g, dst, x.doAppend(g, cc, args))
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch s := args[1].(type) {
		case Slice:
			n := min(d.len, s.len)
			src = x.sliceVals(Slice{arr: s.arr, off: s.off, len: n, cap: n})
		default:
			src = strBytes(s)
		}
		n := min(d.len, len(src))
		for i := 0; i < n; i++ {
			x.store(g, Ptr{arr: d.arr, idx: d.off + i}, src[i])
		}
		x.setRes(g, dst, goInt(n))
	case "delete":
		x.mapDelete(g, args[0].(*Map), args[1])
	case "clear":
		switch v := args[0].(type) {
		case *Map:
			if v != nil {
				*v = Map{idx: map[interface{}]int{}}
			}
		case Slice:
			for i := 0; i < v.len; i++ {
				x.store(g, Ptr{arr: v.arr, idx: v.off + i}, x.zero(v.arr.et))
			}
		}
	case "close":
		x.chanClose(g, args[0].(*Chan))
	case "recover":
		var r Value = Iface{}
		if f.deferOf != nil && f.deferOf.unwinding && !f.deferOf.recovered {
			f.deferOf.recovered = true
			r = f.deferOf.panicVal
		}
		x.setRes(g, dst, r)
	case "print", "println":
	case "min", "max":
		w, sg := typeIntWidth(cc.Args[0].Type())
		r := args[0]
		for _, a := range args[1:] {
			if w == 0 {
				lt := x.truth(x.binop(token.LSS, cc.Args[0].Type(), 0, false, a, r, nil))
				if lt == (name == "min") {
					r = a
				}
				continue
			}
			op := token.LSS
			if name == "max" {
				op = token.GTR
			}
			c := x.intBinop(op, w, sg, a, r, nil)
			r = x.val(x.ctx.Ite(x.term(c), x.term(a), x.term(r)))
		}
		x.setRes(g, dst, r)
	case "ssa:wrapnilchk":
		if isNilVal(args[0]) {
			x.rtPanic("invalid memory address or nil pointer dereference (nil receiver)")
		}
		x.setRes(g, dst, args[0])
	case "ssa:deferstack":
		x.setRes(g, dst, f)
	case "SliceData":
		s := args[0].(Slice)
		if s.arr == nil {
			x.setRes(g, dst, Ptr{})
		} else {
			x.setRes(g, dst, Ptr{arr: s.arr, idx: s.off})
		}
	case "StringData":
		s := x.bytesToSlice(strBytes(args[0]), types.Typ[types.Uint8])
		x.setRes(g, dst, Ptr{arr: s.arr})
	case "String", "Slice":
		p, ok := args[0].(Ptr)
		n := int(x.cint(args[1], "unsafe length"))
		if !ok || (p.arr == nil && n > 0) {
			panic(unsupported("unsafe." + name))
		}
		s := Slice{arr: p.arr, off: p.idx, len: n, cap: n}
		if name == "Slice" {
			x.setRes(g, dst, s)
		} else if n == 0 {
			x.setRes(g, dst, "")
		} else {
			x.setRes(g, dst, mkStr(x.sliceVals(s)))
		}
	case "real":
		x.setRes(g, dst, real(args[0].(complex128)))
	case "imag":
		x.setRes(g, dst, imag(args[0].(complex128)))
	default:
		panic(unsupported("builtin " + name))
	}
}

func (x *Exec) doAppend(g *Gor, cc *ssa.CallCommon, args []Value) Value {
	s := args[0].(Slice)
	var add []Value
	switch a := args[1].(type) {
	case Slice:
		add = x.sliceVals(a)
	default:
		add = strBytes(a)
	}
	if len(add) == 0 {
		return s
	}
	n := s.len + len(add)
	if n > s.cap {
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		nc := s.cap * 2
		if s.cap >= 256 {
			nc = s.cap + (s.cap+768)/4
		}
		if nc < n {
			nc = n
		}
		if w, _ := typeIntWidth(et); w == 8 {
			// byte slices are rounded up to an allocator size class
			for _, c := range []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024} {
				if nc <= c {
					nc = c
					break
				}
			}
		}
		na := x.newArray(et, nc)
		for i := 0; i < s.len; i++ {
			x.cell(na, i).v = x.getElem(s, i)
		}
		s = Slice{arr: na, len: s.len, cap: nc}
	}
	for i, v := range add {
		x.store(g, Ptr{arr: s.arr, idx: s.off + s.len + i}, v)
	}
	s.len = n
	return s
}
