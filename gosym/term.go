package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed bit-vector (w=1..64) or boolean (w=0) expressions.
// Every worker has its own TermCtx.

type Op uint8

const (
	OConst Op = iota // k
	OVar             // name
	ONot             // bool
	OAnd             // bool n-ary (flattened binary)
	OOr
	OIte // a[0] bool, a[1], a[2] same width
	OEq
	OUlt
	OSlt
	OLin // sum coef[i]*args[i] + k  (mod 2^w)
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OSExt
	OExtract // bits k (lo) .. k+w-1 of a[0]
	OConcat  // a[0] high, a[1] low
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OSlt: "bvslt",
	OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat",
}

type Term struct {
	id    int
	op    Op
	w     int
	k     uint64
	args  []*Term
	coef  []uint64 // OLin
	name  string   // OVar
	varIx int
	lo    uint64 // unsigned interval (BV); for bool unused
	hi    uint64
	vars  []uint64 // bitset of variable indexes
	defd  int      // solver generation in which it was defined

	evStamp uint64
	evVal   uint64
}

type TermCtx struct {
	tab     map[string]*Term
	nodes   int
	vars    []*Term
	byName  map[string]*Term
	stamp   uint64
	tru     *Term
	fls     *Term
	keyBuf  []byte
	nonzero map[string]bool
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[string]*Term{}, byName: map[string]*Term{}}
	c.tru = c.mk(&Term{op: OConst, w: 0, k: 1})
	c.fls = c.mk(&Term{op: OConst, w: 0, k: 0})
	return c
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *TermCtx) mk(t *Term) *Term {
	b := c.keyBuf[:0]
	b = append(b, byte(t.op), byte(t.w))
	b = strconv.AppendUint(b, t.k, 16)
	b = append(b, '|')
	for i, a := range t.args {
		b = strconv.AppendInt(b, int64(a.id), 36)
		if t.coef != nil {
			b = append(b, '*')
			b = strconv.AppendUint(b, t.coef[i], 16)
		}
		b = append(b, ',')
	}
	b = append(b, t.name...)
	c.keyBuf = b
	if o, ok := c.tab[string(b)]; ok {
		return o
	}
	t.id = c.nodes
	c.nodes++
	for _, a := range t.args {
		t.vars = bsUnion(t.vars, a.vars)
	}
	if t.w > 0 {
		c.interval(t)
	}
	c.tab[string(b)] = t
	return t
}

func bsUnion(a, b []uint64) []uint64 {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	sub := len(b) <= len(a)
	if sub {
		for i, x := range b {
			if x&^a[i] != 0 {
				sub = false
				break
			}
		}
	}
	if sub {
		return a
	}
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make([]uint64, n)
	copy(r, a)
	for i, x := range b {
		r[i] |= x
	}
	return r
}

func bsIntersects(a, b []uint64) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

func (c *TermCtx) interval(t *Term) {
	m := mask(t.w)
	t.lo, t.hi = 0, m
	switch t.op {
	case OConst:
		t.lo, t.hi = t.k, t.k
	case OVar:
		// set by NewVar
	case OIte:
		t.lo = min(t.args[1].lo, t.args[2].lo)
		t.hi = max(t.args[1].hi, t.args[2].hi)
	case OConcat:
		lw := uint(t.args[1].w)
		t.lo = t.args[0].lo<<lw | t.args[1].lo
		t.hi = t.args[0].hi<<lw | t.args[1].hi
	case OExtract:
		a := t.args[0]
		if t.k == 0 && a.hi <= m {
			t.lo, t.hi = a.lo, a.hi
		} else {
			h := a.hi >> t.k
			if h < m {
				t.hi = h
				t.lo = a.lo >> t.k
			}
		}
	case OBAnd:
		t.hi = min(t.args[0].hi, t.args[1].hi)
	case OBOr, OBXor:
		h := t.args[0].hi | t.args[1].hi
		t.hi = mask(bits.Len64(h))
		if t.op == OBOr {
			t.lo = max(t.args[0].lo, t.args[1].lo)
		}
	case OUDiv:
		if t.args[1].lo > 0 {
			t.hi = t.args[0].hi / t.args[1].lo
			t.lo = t.args[0].lo / t.args[1].hi
		}
	case OURem:
		if t.args[1].lo > 0 {
			t.hi = min(t.args[0].hi, t.args[1].hi-1)
		} else {
			t.hi = max(t.args[0].hi, 0)
		}
	case OSDiv:
		half := m >> 1
		if t.args[0].hi <= half && t.args[1].hi <= half && t.args[1].lo > 0 {
			t.hi = t.args[0].hi / t.args[1].lo
			t.lo = t.args[0].lo / t.args[1].hi
		}
	case OSRem:
		half := m >> 1
		if t.args[0].hi <= half && t.args[1].hi <= half && t.args[1].lo > 0 {
			t.hi = min(t.args[0].hi, t.args[1].hi-1)
		}
	case OMul:
		h, l := bits.Mul64(t.args[0].hi, t.args[1].hi)
		if h == 0 && l <= m {
			t.hi = l
			t.lo = t.args[0].lo * t.args[1].lo
		}
	case OShl:
		if t.args[1].hi < 64 {
			h := t.args[0].hi
			s := t.args[1].hi
			if bits.Len64(h)+int(s) <= t.w {
				t.hi = h << s
				t.lo = t.args[0].lo << t.args[1].lo
			}
		}
	case OLShr:
		t.hi = t.args[0].hi
		if t.args[1].lo < 64 {
			t.hi = t.args[0].hi >> t.args[1].lo
		} else {
			t.hi = 0
		}
	case OLin:
		// signed evaluation in 64-bit arithmetic with overflow detection
		var L, H int64
		half := int64(m >> 1)
		ok := true
		add := func(acc *int64, v int64) {
			s := *acc + v
			if (v > 0 && s < *acc) || (v < 0 && s > *acc) {
				ok = false
			}
			*acc = s
		}
		mulc := func(cf int64, v uint64) int64 {
			neg := cf < 0
			u := uint64(cf)
			if neg {
				u = uint64(-cf)
			}
			h, l := bits.Mul64(u, v)
			if h != 0 || l > 1<<62 {
				ok = false
				return 0
			}
			if neg {
				return -int64(l)
			}
			return int64(l)
		}
		_ = half
		k := sext(t.k, t.w)
		L, H = k, k
		for i, a := range t.args {
			cf := sext(t.coef[i], t.w)
			if cf >= 0 {
				add(&L, mulc(cf, a.lo))
				add(&H, mulc(cf, a.hi))
			} else {
				add(&L, mulc(cf, a.hi))
				add(&H, mulc(cf, a.lo))
			}
		}
		if ok && L >= 0 && (t.w == 64 || uint64(H) <= m) {
			t.lo, t.hi = uint64(L), uint64(H)
		}
	}
	if t.lo > t.hi {
		t.lo, t.hi = 0, m
	}
}

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func (t *Term) isConst() bool { return t.op == OConst }

func (c *TermCtx) Const(w int, k uint64) *Term {
	return c.mk(&Term{op: OConst, w: w, k: k & mask(w)})
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.tru
	}
	return c.fls
}

// NewVar returns the variable of that name, creating it on first use.
// NewVar interns a variable; its identity includes width and range, so that the
// same input name may be used with different ranges on different paths.
func (c *TermCtx) NewVar(name string, w int, lo, hi uint64) *Term {
	name = varKey(name, w, lo, hi)
	if t, ok := c.byName[name]; ok {
		return t
	}
	t := &Term{op: OVar, w: w, name: name, varIx: len(c.vars)}
	t.vars = make([]uint64, len(c.vars)/64+1)
	t.vars[len(c.vars)/64] = 1 << uint(len(c.vars)%64)
	r := c.mk(t)
	r.lo, r.hi = lo, hi
	c.vars = append(c.vars, r)
	c.byName[name] = r
	return r
}

func varKey(name string, w int, lo, hi uint64) string {
	if lo == 0 && hi == mask(w) {
		return fmt.Sprintf("%s|%d", name, w)
	}
	return fmt.Sprintf("%s|%d|%d|%d", name, w, lo, hi)
}

func (c *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Bool(a.k == 0)
	case ONot:
		return a.args[0]
	}
	return c.mk(&Term{op: ONot, args: []*Term{a}})
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a) {
		return c.fls
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OAnd, args: []*Term{a, b}})
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a) {
		return c.tru
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OOr, args: []*Term{a, b}})
}

func (c *TermCtx) Ite(p, a, b *Term) *Term {
	if p.isConst() {
		if p.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.k == 1 {
				return p
			}
			return c.Not(p)
		}
		if a.isConst() {
			if a.k == 1 {
				return c.Or(p, b)
			}
			return c.And(c.Not(p), b)
		}
		if b.isConst() {
			if b.k == 1 {
				return c.Or(c.Not(p), a)
			}
			return c.And(p, a)
		}
	}
	if p.op == ONot {
		p, a, b = p.args[0], b, a
	}
	return c.mk(&Term{op: OIte, w: a.w, args: []*Term{p, a, b}})
}

// segments splits t into concat parts, low first.
func (c *TermCtx) segments(t *Term, out []*Term) []*Term {
	if t.op == OConcat {
		out = c.segments(t.args[1], out)
		return c.segments(t.args[0], out)
	}
	return append(out, t)
}

func (c *TermCtx) Concat(hi, lo *Term) *Term {
	if hi.isConst() && lo.isConst() {
		return c.Const(hi.w+lo.w, hi.k<<uint(lo.w)|lo.k)
	}
	segs := c.segments(lo, nil)
	segs = c.segments(hi, segs)
	return c.fromSegs(segs)
}

func (c *TermCtx) fromSegs(segs []*Term) *Term {
	// merge adjacent
	out := segs[:0:0]
	for _, s := range segs {
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.isConst() && s.isConst() {
				out[n-1] = c.Const(p.w+s.w, s.k<<uint(p.w)|p.k)
				continue
			}
			if m := c.mergeExtract(s, p); m != nil {
				out[n-1] = m
				continue
			}
		}
		out = append(out, s)
	}
	r := out[0]
	for _, s := range out[1:] {
		r = c.mk(&Term{op: OConcat, w: s.w + r.w, args: []*Term{s, r}})
	}
	return r
}

// mergeExtract merges hi:lo if they are adjacent extracts of one term.
func (c *TermCtx) mergeExtract(hi, lo *Term) *Term {
	if hi.op != OExtract {
		return nil
	}
	src := hi.args[0]
	if lo.op == OExtract && lo.args[0] == src && lo.k+uint64(lo.w) == hi.k {
		return c.Extract(src, int(lo.k), lo.w+hi.w)
	}
	// low part of a linear term is pushed into its arguments; recognise it again
	if hi.k == uint64(lo.w) && c.extractRaw(src, 0, lo.w) == lo {
		return c.Extract(src, 0, lo.w+hi.w)
	}
	return nil
}

func (c *TermCtx) extractRaw(a *Term, lo, w int) *Term { return c.Extract(a, lo, w) }

func (c *TermCtx) Extract(a *Term, lo, w int) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return c.Const(w, a.k>>uint(lo))
	case OExtract:
		return c.Extract(a.args[0], lo+int(a.k), w)
	case OConcat:
		lw := a.args[1].w
		if lo+w <= lw {
			return c.Extract(a.args[1], lo, w)
		}
		if lo >= lw {
			return c.Extract(a.args[0], lo-lw, w)
		}
		return c.Concat(c.Extract(a.args[0], 0, lo+w-lw), c.Extract(a.args[1], lo, lw-lo))
	case OSExt:
		if lo+w <= a.args[0].w {
			return c.Extract(a.args[0], lo, w)
		}
	case OIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return c.Ite(a.args[0], c.Extract(a.args[1], lo, w), c.Extract(a.args[2], lo, w))
		}
	case OBAnd, OBOr, OBXor:
		return c.bitwise(a.op, c.Extract(a.args[0], lo, w), c.Extract(a.args[1], lo, w))
	case OLin:
		if lo == 0 {
			l := newLin(w)
			l.k = a.k & mask(w)
			for i, x := range a.args {
				l.addTerm(c, c.Extract(x, 0, w), a.coef[i])
			}
			return l.build(c)
		}
	case OMul:
		if lo == 0 {
			return c.Mul(c.Extract(a.args[0], 0, w), c.Extract(a.args[1], 0, w))
		}
	}
	if a.hi < (uint64(1)<<uint(min(lo, 63))) && lo < 64 && lo > 0 {
		return c.Const(w, 0)
	}
	return c.mk(&Term{op: OExtract, w: w, k: uint64(lo), args: []*Term{a}})
}

func (c *TermCtx) ZExt(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return c.Extract(a, 0, w)
	}
	return c.Concat(c.Const(w-a.w, 0), a)
}

func (c *TermCtx) SExt(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return c.Extract(a, 0, w)
	}
	if a.isConst() {
		return c.Const(w, uint64(sext(a.k, a.w)))
	}
	if a.hi <= mask(a.w)>>1 {
		return c.ZExt(a, w)
	}
	return c.mk(&Term{op: OSExt, w: w, args: []*Term{a}})
}

// linear builder
type lin struct {
	w    int
	k    uint64
	ts   []*Term
	cs   []uint64
	want map[int]int
}

func newLin(w int) *lin { return &lin{w: w} }

func (l *lin) addTerm(c *TermCtx, t *Term, cf uint64) {
	m := mask(l.w)
	cf &= m
	if cf == 0 {
		return
	}
	if t.isConst() {
		l.k = (l.k + cf*t.k) & m
		return
	}
	if t.op == OLin {
		l.k = (l.k + cf*t.k) & m
		for i, x := range t.args {
			l.addTerm(c, x, t.coef[i]*cf)
		}
		return
	}
	// zero-extended linear term that provably does not wrap: distribute
	if t.op == OConcat && t.args[0].isConst() && t.args[0].k == 0 && t.args[1].op == OLin {
		in := t.args[1]
		if r := c.widenLin(in, l.w); r != nil {
			l.addTerm(c, r, cf)
			return
		}
	}
	for i, x := range l.ts {
		if x == t {
			l.cs[i] = (l.cs[i] + cf) & m
			return
		}
	}
	l.ts = append(l.ts, t)
	l.cs = append(l.cs, cf)
}

// widenLin returns zext(in, w) as a wide linear term if in cannot wrap.
func (c *TermCtx) widenLin(in *Term, w int) *Term {
	m := mask(in.w)
	L, H := sext(in.k, in.w), sext(in.k, in.w)
	for i, a := range in.args {
		cf := sext(in.coef[i], in.w)
		if a.hi > 1<<40 || cf > 1<<20 || cf < -(1<<20) {
			return nil
		}
		if cf >= 0 {
			L += cf * int64(a.lo)
			H += cf * int64(a.hi)
		} else {
			L += cf * int64(a.hi)
			H += cf * int64(a.lo)
		}
	}
	if L < 0 || uint64(H) > m {
		return nil
	}
	l := newLin(w)
	l.k = uint64(sext(in.k, in.w)) & mask(w)
	for i, a := range in.args {
		l.addTerm(c, c.ZExt(a, w), uint64(sext(in.coef[i], in.w)))
	}
	return l.build(c)
}

func (l *lin) build(c *TermCtx) *Term {
	type pr struct {
		t *Term
		c uint64
	}
	var ps []pr
	for i, t := range l.ts {
		if l.cs[i] != 0 {
			ps = append(ps, pr{t, l.cs[i]})
		}
	}
	if len(ps) == 0 {
		return c.Const(l.w, l.k)
	}
	if len(ps) == 1 && ps[0].c == 1 && l.k == 0 {
		return ps[0].t
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].t.id < ps[j].t.id })
	t := &Term{op: OLin, w: l.w, k: l.k}
	for _, p := range ps {
		t.args = append(t.args, p.t)
		t.coef = append(t.coef, p.c)
	}
	return c.mk(t)
}

func (c *TermCtx) Add(a, b *Term) *Term {
	// disjoint concats add like or
	if (a.op == OConcat || b.op == OConcat) && !a.isConst() && !b.isConst() {
		if r := c.disjointOr(a, b); r != nil {
			return r
		}
	}
	l := newLin(a.w)
	l.addTerm(c, a, 1)
	l.addTerm(c, b, 1)
	return l.build(c)
}

func (c *TermCtx) Sub(a, b *Term) *Term {
	l := newLin(a.w)
	l.addTerm(c, a, 1)
	l.addTerm(c, b, mask(a.w))
	return l.build(c)
}

func (c *TermCtx) Mul(a, b *Term) *Term {
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		l := newLin(a.w)
		l.addTerm(c, b, a.k)
		return l.build(c)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OMul, w: a.w, args: []*Term{a, b}})
}

// align splits both terms at common boundaries (low first)
func (c *TermCtx) align(a, b *Term) (as, bs []*Term) {
	sa := c.segments(a, nil)
	sb := c.segments(b, nil)
	i, j := 0, 0
	for i < len(sa) && j < len(sb) {
		x, y := sa[i], sb[j]
		switch {
		case x.w == y.w:
			as, bs = append(as, x), append(bs, y)
			i++
			j++
		case x.w < y.w:
			as, bs = append(as, x), append(bs, c.Extract(y, 0, x.w))
			sb[j] = c.Extract(y, x.w, y.w-x.w)
			i++
		default:
			as, bs = append(as, c.Extract(x, 0, y.w)), append(bs, y)
			sa[i] = c.Extract(x, y.w, x.w-y.w)
			j++
		}
	}
	return
}

func isZero(t *Term) bool { return t.isConst() && t.k == 0 }

// disjointOr: a|b where every aligned segment has a zero side; nil otherwise
func (c *TermCtx) disjointOr(a, b *Term) *Term {
	// align may re-split linear terms; only accept zero/non-zero pairs
	as, bs := c.align(a, b)
	out := make([]*Term, len(as))
	for i := range as {
		switch {
		case isZero(as[i]):
			out[i] = bs[i]
		case isZero(bs[i]):
			out[i] = as[i]
		default:
			return nil
		}
	}
	return c.fromSegs(out)
}

func (c *TermCtx) bitwise(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		switch op {
		case OBAnd:
			return c.Const(a.w, a.k&b.k)
		case OBOr:
			return c.Const(a.w, a.k|b.k)
		default:
			return c.Const(a.w, a.k^b.k)
		}
	}
	if b.isConst() {
		a, b = b, a
	}
	if a == b {
		if op == OBXor {
			return c.Const(a.w, 0)
		}
		return a
	}
	if a.isConst() {
		m := mask(a.w)
		if a.k == 0 {
			if op == OBAnd {
				return a
			}
			return b
		}
		if a.k == m {
			if op == OBAnd {
				return b
			}
			if op == OBOr {
				return a
			}
		}
		if op == OBAnd {
			// contiguous mask
			tz := bits.TrailingZeros64(a.k)
			n := bits.Len64(a.k) - tz
			if a.k>>uint(tz) == mask(n) {
				r := c.Extract(b, tz, n)
				if tz > 0 {
					r = c.Concat(r, c.Const(tz, 0))
				}
				return c.ZExt(r, a.w)
			}
		}
	}
	if a.op == OConcat || b.op == OConcat {
		as, bs := c.align(a, b)
		if len(as) > 1 {
			out := make([]*Term, len(as))
			for i := range as {
				out[i] = c.bitwise(op, as[i], bs[i])
			}
			return c.fromSegs(out)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: op, w: a.w, args: []*Term{a, b}})
}

func (c *TermCtx) BAnd(a, b *Term) *Term { return c.bitwise(OBAnd, a, b) }
func (c *TermCtx) BOr(a, b *Term) *Term  { return c.bitwise(OBOr, a, b) }
func (c *TermCtx) BXor(a, b *Term) *Term { return c.bitwise(OBXor, a, b) }
func (c *TermCtx) BNot(a *Term) *Term {
	return c.Sub(c.Const(a.w, mask(a.w)), a)
}
func (c *TermCtx) Neg(a *Term) *Term { return c.Sub(c.Const(a.w, 0), a) }

func (c *TermCtx) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.k >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		if b.k == 0 {
			return a
		}
		if a.op == OLin || a.isConst() {
			return c.Mul(c.Const(a.w, 1<<b.k), a)
		}
		n := int(b.k)
		return c.Concat(c.Extract(a, 0, a.w-n), c.Const(n, 0))
	}
	return c.mk(&Term{op: OShl, w: a.w, args: []*Term{a, b}})
}

func (c *TermCtx) LShr(a, b *Term) *Term {
	if b.isConst() {
		if b.k >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		if b.k == 0 {
			return a
		}
		n := int(b.k)
		return c.ZExt(c.Extract(a, n, a.w-n), a.w)
	}
	return c.mk(&Term{op: OLShr, w: a.w, args: []*Term{a, b}})
}

func (c *TermCtx) AShr(a, b *Term) *Term {
	if a.hi <= mask(a.w)>>1 {
		return c.LShr(a, b)
	}
	if a.isConst() && b.isConst() {
		s := b.k
		if s > 63 {
			s = 63
		}
		return c.Const(a.w, uint64(sext(a.k, a.w)>>s))
	}
	return c.mk(&Term{op: OAShr, w: a.w, args: []*Term{a, b}})
}

func (c *TermCtx) div(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		switch op {
		case OUDiv:
			return c.Const(a.w, a.k/b.k)
		case OURem:
			return c.Const(a.w, a.k%b.k)
		case OSDiv:
			x, y := sext(a.k, a.w), sext(b.k, a.w)
			if y == -1 {
				return c.Const(a.w, uint64(-x))
			}
			return c.Const(a.w, uint64(x/y))
		case OSRem:
			x, y := sext(a.k, a.w), sext(b.k, a.w)
			if y == -1 {
				return c.Const(a.w, 0)
			}
			return c.Const(a.w, uint64(x%y))
		}
	}
	half := mask(a.w) >> 1
	if (op == OSDiv || op == OSRem) && a.hi <= half && b.hi <= half {
		if op == OSDiv {
			op = OUDiv
		} else {
			op = OURem
		}
	}
	if b.isConst() && b.k != 0 && (op == OUDiv || op == OURem) {
		if b.k == 1 {
			if op == OUDiv {
				return a
			}
			return c.Const(a.w, 0)
		}
		if b.k&(b.k-1) == 0 {
			n := bits.TrailingZeros64(b.k)
			if op == OUDiv {
				return c.LShr(a, c.Const(a.w, uint64(n)))
			}
			return c.ZExt(c.Extract(a, 0, n), a.w)
		}
		if a.hi < b.k {
			if op == OUDiv {
				return c.Const(a.w, 0)
			}
			return a
		}
	}
	return c.mk(&Term{op: op, w: a.w, args: []*Term{a, b}})
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tru
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 1 {
				return a
			}
			return c.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(&Term{op: OEq, args: []*Term{a, b}})
	}
	if a.lo > b.hi || b.lo > a.hi {
		return c.fls
	}
	if a.op == OConcat || b.op == OConcat {
		as, bs := c.align(a, b)
		if len(as) > 1 {
			r := c.tru
			for i := range as {
				r = c.And(r, c.Eq(as[i], bs[i]))
			}
			return r
		}
	}
	if a.op == OIte && b.isConst() && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	if b.op == OIte && a.isConst() && (b.args[1].isConst() || b.args[2].isConst()) {
		return c.Eq(b, a)
	}
	if a.op == OLin || b.op == OLin {
		// canonical difference
		l := newLin(a.w)
		l.addTerm(c, a, 1)
		l.addTerm(c, b, mask(a.w))
		d := l.build(c)
		if d.isConst() {
			return c.Bool(d.k == 0)
		}
		if d.op != OLin {
			return c.Eq(d, c.Const(d.w, 0))
		}
		if len(d.args) == 1 && (d.coef[0] == 1 || d.coef[0] == mask(d.w)) {
			k := d.k
			if d.coef[0] == 1 {
				k = (-k) & mask(d.w)
			}
			return c.Eq(d.args[0], c.Const(d.w, k))
		}
		// move negative coefficients to the right-hand side; orient canonically
		p, n := newLin(a.w), newLin(a.w)
		flip := false
		if sext(d.coef[0], d.w) < 0 {
			flip = true
		}
		for i, x := range d.args {
			cf := d.coef[i]
			if flip {
				cf = (-cf) & mask(d.w)
			}
			if sext(cf, d.w) < 0 {
				n.addTerm(c, x, -cf)
			} else {
				p.addTerm(c, x, cf)
			}
		}
		k := d.k
		if flip {
			k = (-k) & mask(d.w)
		}
		if sext(k, d.w) < 0 {
			n.k = (-k) & mask(d.w)
		} else {
			p.k = k
		}
		a, b = p.build(c), n.build(c)
		if a.lo > b.hi || b.lo > a.hi {
			return c.fls
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, args: []*Term{a, b}})
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.fls
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k < b.k)
	}
	if a.hi < b.lo {
		return c.tru
	}
	if a.lo >= b.hi {
		return c.fls
	}
	return c.mk(&Term{op: OUlt, args: []*Term{a, b}})
}

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.fls
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sext(a.k, a.w) < sext(b.k, b.w))
	}
	half := mask(a.w) >> 1
	if a.hi <= half && b.hi <= half {
		return c.Ult(a, b)
	}
	if a.hi <= half && b.lo > half {
		return c.fls
	}
	if b.hi <= half && a.lo > half {
		return c.tru
	}
	return c.mk(&Term{op: OSlt, args: []*Term{a, b}})
}

// Eval evaluates t under a model (variables by index; missing -> lo bound).
type Model struct {
	vals []uint64
	set  []bool
}

func (m *Model) get(v *Term) uint64 {
	if m != nil && v.varIx < len(m.vals) && m.set[v.varIx] {
		return m.vals[v.varIx]
	}
	return v.lo
}

func (m *Model) clone() *Model {
	n := &Model{}
	if m != nil {
		n.vals = append([]uint64{}, m.vals...)
		n.set = append([]bool{}, m.set...)
	}
	return n
}

func (m *Model) put(ix int, v uint64) {
	for len(m.vals) <= ix {
		m.vals = append(m.vals, 0)
		m.set = append(m.set, false)
	}
	m.vals[ix] = v
	m.set[ix] = true
}

func (c *TermCtx) Eval(t *Term, m *Model) uint64 {
	c.stamp++
	return c.eval(t, m)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *TermCtx) eval(t *Term, m *Model) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return m.get(t)
	}
	if t.evStamp == c.stamp {
		return t.evVal
	}
	var r uint64
	mk := mask(t.w)
	switch t.op {
	case ONot:
		r = 1 - c.eval(t.args[0], m)
	case OAnd:
		r = c.eval(t.args[0], m) & c.eval(t.args[1], m)
	case OOr:
		r = c.eval(t.args[0], m) | c.eval(t.args[1], m)
	case OIte:
		if c.eval(t.args[0], m) == 1 {
			r = c.eval(t.args[1], m)
		} else {
			r = c.eval(t.args[2], m)
		}
	case OEq:
		r = b2u(c.eval(t.args[0], m) == c.eval(t.args[1], m))
	case OUlt:
		r = b2u(c.eval(t.args[0], m) < c.eval(t.args[1], m))
	case OSlt:
		w := t.args[0].w
		r = b2u(sext(c.eval(t.args[0], m), w) < sext(c.eval(t.args[1], m), w))
	case OLin:
		r = t.k
		for i, a := range t.args {
			r += t.coef[i] * c.eval(a, m)
		}
		r &= mk
	case OMul:
		r = c.eval(t.args[0], m) * c.eval(t.args[1], m) & mk
	case OUDiv, OURem, OSDiv, OSRem:
		x, y := c.eval(t.args[0], m), c.eval(t.args[1], m)
		switch t.op {
		case OUDiv:
			if y == 0 {
				r = mk
			} else {
				r = x / y
			}
		case OURem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OSDiv:
			sx, sy := sext(x, t.w), sext(y, t.w)
			if sy == 0 {
				if sx < 0 {
					r = 1
				} else {
					r = mk
				}
			} else if sy == -1 {
				r = uint64(-sx) & mk
			} else {
				r = uint64(sx/sy) & mk
			}
		case OSRem:
			sx, sy := sext(x, t.w), sext(y, t.w)
			if sy == 0 {
				r = x
			} else if sy == -1 {
				r = 0
			} else {
				r = uint64(sx%sy) & mk
			}
		}
	case OBAnd:
		r = c.eval(t.args[0], m) & c.eval(t.args[1], m)
	case OBOr:
		r = c.eval(t.args[0], m) | c.eval(t.args[1], m)
	case OBXor:
		r = c.eval(t.args[0], m) ^ c.eval(t.args[1], m)
	case OShl:
		s := c.eval(t.args[1], m)
		if s < uint64(t.w) {
			r = c.eval(t.args[0], m) << s & mk
		}
	case OLShr:
		s := c.eval(t.args[1], m)
		if s < uint64(t.w) {
			r = c.eval(t.args[0], m) >> s
		}
	case OAShr:
		s := c.eval(t.args[1], m)
		if s >= uint64(t.w) {
			s = uint64(t.w - 1)
		}
		r = uint64(sext(c.eval(t.args[0], m), t.w)>>s) & mk
	case OSExt:
		r = uint64(sext(c.eval(t.args[0], m), t.args[0].w)) & mk
	case OExtract:
		r = c.eval(t.args[0], m) >> t.k & mk
	case OConcat:
		r = c.eval(t.args[0], m)<<uint(t.args[1].w) | c.eval(t.args[1], m)
	default:
		panic(fmt.Sprint("eval op ", t.op))
	}
	t.evStamp = c.stamp
	t.evVal = r
	return r
}

func smtConst(w int, k uint64) string {
	if w == 0 {
		if k == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

func smtSort(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		return smtConst(t.w, t.k)
	case OVar:
		return "v" + strconv.Itoa(t.varIx)
	}
	return "t" + strconv.Itoa(t.id)
}

// body prints the defining expression, using refs for the arguments.
func (t *Term) body() string {
	var sb strings.Builder
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", int(t.k)+t.w-1, t.k, t.args[0].ref())
	case OSExt:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.args[0].w, t.args[0].ref())
	case OLin:
		sb.WriteString("(bvadd")
		n := 0
		for i, a := range t.args {
			n++
			if t.coef[i] == 1 {
				sb.WriteString(" " + a.ref())
			} else {
				fmt.Fprintf(&sb, " (bvmul %s %s)", smtConst(t.w, t.coef[i]), a.ref())
			}
		}
		if t.k != 0 || n == 1 {
			sb.WriteString(" " + smtConst(t.w, t.k))
		}
		sb.WriteString(")")
	default:
		sb.WriteString("(" + opNames[t.op])
		for _, a := range t.args {
			sb.WriteString(" " + a.ref())
		}
		sb.WriteString(")")
	}
	return sb.String()
}

// String gives a readable infix-ish form (bounded) for evidence samples.
func (t *Term) String() string {
	s := t.str(0)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return smtConst(0, t.k)
		}
		return strconv.FormatUint(t.k, 10)
	case OVar:
		return t.name
	}
	if d > 6 {
		return "..."
	}
	var p []string
	for i, a := range t.args {
		s := a.str(d + 1)
		if t.op == OLin && t.coef[i] != 1 {
			s = strconv.FormatInt(sext(t.coef[i], t.w), 10) + "*" + s
		}
		p = append(p, s)
	}
	switch t.op {
	case OLin:
		if t.k != 0 {
			p = append(p, strconv.FormatInt(sext(t.k, t.w), 10))
		}
		return "(" + strings.Join(p, "+") + ")"
	case OExtract:
		return fmt.Sprintf("%s[%d:%d]", p[0], int(t.k)+t.w-1, t.k)
	case OSExt:
		return "sext(" + p[0] + ")"
	}
	return "(" + opNames[t.op] + " " + strings.Join(p, " ") + ")"
}
