package c07

import (
	"github.com/Redundancy/go-sync/rollsum"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// the checksum written down from its definition
func want(w []byte) (r [4]byte) {
	var a, b uint32
	for i, c := range w {
		a += uint32(c)
		b += uint32(len(w)-i) * uint32(c)
	}
	r[0], r[1], r[2], r[3] = byte(a), byte(a>>8), byte(b), byte(b>>8)
	return
}

func same(got []byte, w []byte, msg string) {
	e := want(w)
	sym.Assert(len(got) == 4 && sym.BytesEq(got, e[:]), msg)
}

type rolling interface {
	Size() int
	AddByte(b byte)
	RemoveByte(b byte, length int)
	AddBytes(bs []byte)
	RemoveBytes(bs []byte, length int)
	AddAndRemoveBytes(add []byte, remove []byte, length int)
	SetBlock(block []byte)
	GetSum(b []byte)
	Reset()
}

// Base runs any sequence of window operations.
func Base() {
	bs := sym.Pick("blocksize", 1, sym.Bound(4, 6))
	var r rolling = rollsum.NewRollsum32Base(uint(bs))
	var w []byte
	sum := make([]byte, 4)
	for k := 0; k < sym.Bound(3, 4); k++ {
		switch sym.Pick("op", 0, 7) {
		case 0:
			b := sym.Byte("add")
			r.AddByte(b)
			w = append(append([]byte{}, w...), b)
		case 1:
			sym.Assume(len(w) > 0)
			r.RemoveByte(w[0], len(w))
			w = w[1:]
			sym.Reach("remove")
		case 2:
			d := sym.Bytes("adds", sym.Pick("n", 0, bs))
			r.AddBytes(d)
			w = append(append([]byte{}, w...), d...)
		case 3:
			n := sym.Pick("n", 0, bs)
			sym.Assume(n <= len(w))
			r.RemoveBytes(w[:n], len(w))
			w = w[n:]
		case 4: // roll: add some bytes, remove as many or fewer
			n := sym.Pick("n", 0, bs)
			m := sym.Pick("m", 0, n)
			d := sym.Bytes("rolls", n)
			all := append(append([]byte{}, w...), d...)
			// the window first grows, then slides: bytes may be removed only once present
			sym.Assume(m <= len(w)+n-m || m <= len(w))
			sym.Assume(len(w)+(n-m) > 0 || m == 0)
			r.AddAndRemoveBytes(d, all[:m], len(w))
			w = all[m:]
			sym.Reach("roll")
		case 5:
			d := sym.Bytes("set", sym.Pick("n", 0, bs))
			r.SetBlock(d)
			w = append([]byte{}, d...)
		case 6:
			r.Reset()
			w = nil
		case 7:
			r.GetSum(sum)
			same(sum, w, "the checksum differs from the one computed from scratch")
		}
		r.GetSum(sum)
		same(sum, w, "the checksum differs from the one computed from scratch")
	}
	sym.Assert(r.Size() == 4, "wrong size")
	sym.Observe("sum", sum)
}

// Hash uses the hash.Hash form: any sequence of writes, sums and resets.
func Hash() {
	bs := sym.Pick("blocksize", 1, sym.Bound(4, 6))
	h := rollsum.NewRollsum32(uint(bs))
	var all []byte
	window := func() []byte {
		if len(all) > bs {
			return all[len(all)-bs:]
		}
		return all
	}
	for k := 0; k < sym.Bound(3, 5); k++ {
		op := sym.Pick("op", 0, bs+4)
		switch {
		case op <= bs+2:
			d := sym.Bytes("write", op)
			n, err := h.Write(d)
			sym.Assert(n == len(d) && err == nil, "write was not accepted")
			all = append(append([]byte{}, all...), d...)
			if op > bs {
				sym.Reach("longer than a block")
			}
		case op == bs+3:
			h.Reset()
			all = nil
			sym.Reach("reset")
		default:
			// appending to a prefix, with and without spare capacity
			p := sym.Bytes("prefix", 2)
			var in []byte
			if sym.Pick("spare", 0, 1) == 1 {
				in = make([]byte, 2, 8)
				copy(in, p)
			} else {
				in = append([]byte{}, p...)
			}
			out := h.Sum(in)
			sym.Assert(len(out) == 6, "Sum did not append four bytes")
			sym.Assert(sym.BytesEq(out[:2], p), "Sum changed the bytes before the checksum")
			same(out[2:], window(), "the appended checksum is wrong")
			sym.Reach("append")
		}
		same(h.Sum(nil), window(), "the checksum differs from the one computed from scratch over the window")
		same(h.Sum(nil), window(), "reading the checksum changed it")
		lb := h.GetLastBlock()
		sym.Assert(len(lb) == len(window()) && sym.BytesEq(lb, window()), "the stored window is not the last bytes written")
	}
	sym.Assert(h.Size() == 4 && h.BlockSize() == bs, "wrong size or block size")
	sym.Observe("sum", h.Sum(nil))
}

// Large windows: the window reaches lengths at which narrow arithmetic
// would overflow.
func Large() {
	n := []int{255, 256, 511, 5000, 65537, 70000, 65535, 65536, 131072, 257}[sym.Pick("size", 0, sym.Bound(5, 9))]
	w := make([]byte, n)
	for i := range w {
		w[i] = byte(255 - i%3)
	}
	copy(w, sym.Bytes("first", 3))
	copy(w[n-2:], sym.Bytes("last", 2))
	sum := make([]byte, 4)
	if sym.Pick("form", 0, 1) == 0 {
		r := rollsum.NewRollsum32Base(uint(n))
		if sym.Pick("fill", 0, 1) == 0 {
			r.SetBlock(w)
		} else {
			r.AddBytes(w[:n/2])
			r.AddAndRemoveBytes(w[n/2:], nil, n/2)
		}
		r.GetSum(sum)
		same(sum, w, "the checksum of a large window is wrong")
		d := sym.Bytes("next", 3)
		switch sym.Pick("op", 0, 3) {
		case 0:
			r.RemoveByte(w[0], n)
			w = w[1:]
		case 1:
			r.RemoveBytes(w[:3], n)
			w = w[3:]
		case 2:
			r.AddAndRemoveBytes(d, w[:3], n)
			w = append(append([]byte{}, w...), d...)[3:]
		case 3:
			r.AddAndRemoveBytes(d, w[:2], n)
			w = append(append([]byte{}, w...), d...)[2:]
		}
		r.GetSum(sum)
		same(sum, w, "the checksum of a large window differs from the one computed from scratch")
		sym.Reach("removed from a large window")
		return
	}
	h := rollsum.NewRollsum32(uint(n))
	k := []int{0, 1, n / 2, n - 1, n}[sym.Pick("split", 0, 4)]
	if k == 1 {
		// in one write that is longer than the window, or twice as long
		m := []int{1, n - 1}[sym.Pick("longer", 0, 1)]
		c, err := h.Write(append(append([]byte{}, w[n-m:]...), w...))
		sym.Assert(c == n+m && err == nil, "write was not accepted")
	} else {
		h.Write(w[:k])
		h.Write(w[k:])
	}
	same(h.Sum(nil), w, "the checksum of a large window is wrong")
	d := sym.Bytes("next", 3)
	h.Write(d)
	w = append(append([]byte{}, w...), d...)[3:]
	same(h.Sum(nil), w, "the checksum of a large window differs from the one computed from scratch")
	sym.Reach("a large window moved")
}
