package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	Int            concrete integer (width kept)
//	bool           concrete boolean
//	*Term          symbolic integer (w>0) or boolean (w==0)
//	float64        (float32 too)
//	string, *SymStr
//	Ptr            pointer (Ptr{} is nil)
//	SymPtr         pointer to an array element at a symbolic index
//	*Struct, *Array  aggregates by value
//	Slice, *Map, *Chan, *Closure, Iface, Tuple
//	nil            "no value"
type Value interface{}

type Int struct {
	c uint64
	w uint8
}

type SymStr struct{ b []Value }

type Cell struct {
	v  Value
	sh *shadow // race-detection state
}

// Uninit is the value of a variable whose initialiser is not executed.
type Uninit struct{ name string }

type Ptr struct {
	c   *Cell
	arr *Array
	idx int
}

type SymPtr struct {
	arr *Array
	off int // first index
	n   int // number of candidates
	idx *Term
}

type Struct struct{ f []Cell }

const pageSz = 64

type Array struct {
	n     int
	et    types.Type
	pages []*[pageSz]Cell
	zero  Value // non-nil if the zero value is immutable and can be shared
	// writes at symbolic indexes of non-scalar elements, oldest first
	log []logEnt
}

type logEnt struct {
	idx *Term
	v   Value
}

type Slice struct {
	arr           *Array
	off, len, cap int
}

type Map struct {
	keys []Value
	vals []Value
	idx  map[interface{}]int // concrete keys -> position
	sym  int                 // number of symbolic keys
	dead int
	cell Cell // for race detection
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	// a native function value (only for engine-made closures)
	native func(x *Exec, g *Gor, args []Value) Value
}

type Iface struct {
	t types.Type
	v Value
}

type Tuple []Value

type Chan struct {
	id     int
	cap    int
	buf    []Value
	bufVC  []VC
	closed bool
	et     types.Type
	clVC   VC
	slotVC VC
}

var intCache [4][512]Value

func init() {
	for i, w := range []uint8{8, 16, 32, 64} {
		for k := range intCache[i] {
			intCache[i][k] = Int{uint64(k) & mask(int(w)), w}
		}
	}
}

func mkInt(w int, c uint64) Value {
	c &= mask(w)
	if c < 512 {
		switch w {
		case 64:
			return intCache[3][c]
		case 8:
			return intCache[0][c]
		case 32:
			return intCache[2][c]
		case 16:
			return intCache[1][c]
		}
	}
	return Int{c, uint8(w)}
}

func goInt(i int) Value { return mkInt(64, uint64(i)) }

func intWidth(b *types.Basic) (w int, signed bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func typeIntWidth(t types.Type) (int, bool) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return intWidth(b)
	}
	return 0, false
}

func (x *Exec) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if w, _ := intWidth(u); w > 0 {
			return mkInt(w, 0)
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return false
		case types.String, types.UntypedString:
			return ""
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.Complex64, types.Complex128:
			return complex128(0)
		case types.UntypedNil:
			return Iface{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := &Struct{f: make([]Cell, u.NumFields())}
		for i := range s.f {
			s.f[i].v = x.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return x.newArray(u.Elem(), int(u.Len()))
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = x.zero(u.At(i).Type())
		}
		return r
	}
	panic(unsupported("zero value of " + t.String()))
}

func (x *Exec) newArray(et types.Type, n int) *Array {
	a := &Array{n: n, et: et}
	if n > 0 {
		if n > 1<<28 {
			panic(unsupported(fmt.Sprintf("allocation of %d elements", n)))
		}
		a.pages = make([]*[pageSz]Cell, (n+pageSz-1)/pageSz)
		z := x.zero(et)
		switch z.(type) {
		case *Struct, *Array:
		default:
			a.zero = z
		}
	}
	return a
}

func (x *Exec) cell(a *Array, i int) *Cell {
	p := a.pages[i/pageSz]
	if p == nil {
		p = new([pageSz]Cell)
		if a.zero != nil {
			for k := range p {
				p[k].v = a.zero
			}
		}
		a.pages[i/pageSz] = p
	}
	c := &p[i%pageSz]
	if c.v == nil {
		c.v = x.zero(a.et)
	}
	return c
}

func (x *Exec) ptrCell(p Ptr) *Cell {
	if p.arr != nil {
		return x.cell(p.arr, p.idx)
	}
	return p.c
}

func (p Ptr) isNil() bool { return p.c == nil && p.arr == nil }

// copyVal copies aggregates (structs and arrays are values).
func (x *Exec) copyVal(v Value) Value {
	switch v := v.(type) {
	case *Struct:
		n := &Struct{f: make([]Cell, len(v.f))}
		for i := range v.f {
			n.f[i].v = x.copyVal(v.f[i].v)
		}
		return n
	case *Array:
		n := &Array{n: v.n, et: v.et, zero: v.zero, pages: make([]*[pageSz]Cell, len(v.pages))}
		for i, p := range v.pages {
			if p != nil {
				np := new([pageSz]Cell)
				for k := range p {
					if p[k].v != nil {
						np[k].v = x.copyVal(p[k].v)
					}
				}
				n.pages[i] = np
			}
		}
		n.log = append([]logEnt{}, v.log...)
		return n
	}
	return v
}

// storeInto writes v into the cell, keeping the identity of aggregates so that
// pointers into them stay valid.
func (x *Exec) storeInto(c *Cell, v Value) {
	switch v := v.(type) {
	case *Struct:
		if old, ok := c.v.(*Struct); ok && len(old.f) == len(v.f) {
			for i := range v.f {
				x.storeInto(&old.f[i], v.f[i].v)
			}
			return
		}
		c.v = x.copyVal(v)
		return
	case *Array:
		if old, ok := c.v.(*Array); ok && old.n == v.n {
			if old == v {
				return
			}
			old.log = append([]logEnt{}, v.log...)
			for i := range v.pages {
				if v.pages[i] == nil && old.pages[i] == nil {
					continue
				}
				for k := i * pageSz; k < v.n && k < (i+1)*pageSz; k++ {
					x.storeInto(x.cell(old, k), x.cell(v, k).v)
				}
			}
			return
		}
		c.v = x.copyVal(v)
		return
	}
	c.v = v
}

type unsupported string

func isNilVal(v Value) bool {
	switch v := v.(type) {
	case Ptr:
		return v.isNil()
	case SymPtr:
		return false
	case Slice:
		return v.arr == nil
	case *Map:
		return v == nil
	case *Chan:
		return v == nil
	case *Closure:
		return v == nil
	case Iface:
		return v.t == nil
	}
	return false
}

// debug rendering
func (x *Exec) show(v Value) string { return x.showD(v, 0) }

func (x *Exec) showD(v Value, d int) string {
	if d > 5 {
		return "..."
	}
	switch v := v.(type) {
	case nil:
		return "<none>"
	case Int:
		return fmt.Sprint(v.c)
	case *Term:
		return v.String()
	case string:
		return fmt.Sprintf("%q", v)
	case *SymStr:
		var p []string
		for _, b := range v.b {
			p = append(p, x.showD(b, d+1))
		}
		return "str[" + strings.Join(p, " ") + "]"
	case Ptr:
		if v.isNil() {
			return "nil"
		}
		return "&" + x.showD(x.ptrCell(v).v, d+1)
	case *Struct:
		var p []string
		for i := range v.f {
			p = append(p, x.showD(v.f[i].v, d+1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Slice:
		var p []string
		for i := 0; i < v.len && i < 32; i++ {
			p = append(p, x.showD(x.cell(v.arr, v.off+i).v, d+1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *Array:
		return fmt.Sprintf("array(%d)", v.n)
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return v.t.String() + "(" + x.showD(v.v, d+1) + ")"
	case *Closure:
		if v == nil {
			return "nil"
		}
		if v.fn != nil {
			return v.fn.String()
		}
		return "native"
	case Tuple:
		var p []string
		for _, e := range v {
			p = append(p, x.showD(e, d+1))
		}
		return "(" + strings.Join(p, ", ") + ")"
	}
	return fmt.Sprintf("%v", v)
}
