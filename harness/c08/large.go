package c08

import (
	"github.com/Redundancy/go-sync/circularbuffer"
	"github.com/Redundancy/go-sync/zzverif/big"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// Large buffers and histories, at lengths where narrow arithmetic would
// overflow. The bytes are fixed but for one of each write.
func Large() {
	bs := []int{256, 300, 4097, 70000}[sym.Pick("blocksize", 0, 3)]
	c := circularbuffer.MakeC2Buffer(bs)
	var ref []byte
	src := big.Bytes(3*bs + 17)
	put := func(data []byte) {
		c.Write(data)
		all := append(append([]byte{}, ref...), data...)
		cut := 0
		if len(all) > bs {
			cut = len(all) - bs
		}
		ev := c.Evicted()
		sym.Assert(len(ev) == cut, "evicted length differs from the number of bytes pushed out")
		sym.Assert(sym.BytesEq(ev, all[:cut]), "evicted bytes are not the ones pushed out")
		ref = all[cut:]
		sym.Assert(c.Len() == len(ref) && !c.Empty(), "length differs from the number of bytes held")
		sym.Assert(sym.BytesEq(c.GetBlock(), ref), "block is not the most recent bytes, oldest first")
	}
	if sym.Pick("history", 0, 1) == 1 {
		// so many bytes went through before
		total := 1 << 16
		if bs > 4000 || sym.Bound(0, 1) == 1 {
			total = 1 << 20
		}
		for k := 0; k < total/bs+17; k++ {
			c.Write(src[k%19 : k%19+bs])
		}
		c.Write(src[:bs])
		ref = append([]byte{}, src[:bs]...)
		sym.Reach("long history")
	}
	at := 5
	for k := 0; k < 3; k++ {
		n := []int{1, bs/2 + 1, bs - 1, bs}[sym.Pick("length", 0, 3)]
		data := append([]byte{}, src[at:at+n]...)
		data[n/3] = sym.Byte("data")
		put(data)
		at += n/2 + 3
	}
	n := []int{1, bs / 2, bs - 1, bs, bs + 1}[sym.Pick("trunc", 0, 4)]
	got := c.Truncate(n)
	if n > len(ref) {
		n = len(ref)
	}
	sym.Assert(len(got) == n && sym.BytesEq(got, ref[:n]), "truncation did not return the oldest bytes")
	ref = ref[n:]
	sym.Assert(c.Len() == len(ref) && c.Empty() == (len(ref) == 0), "length differs from the number of bytes held")
	sym.Assert(sym.BytesEq(c.GetBlock(), ref), "block is not the most recent bytes, oldest first")
	if n < bs && len(ref)+2 < bs {
		put(src[:2])
		sym.Reach("written after truncating")
	}
}
