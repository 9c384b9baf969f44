package c08

import (
	"github.com/Redundancy/go-sync/circularbuffer"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// Buffer runs every sequence of a few operations with arbitrary bytes and
// compares the buffer with a plain list of the most recent bytes.
func Buffer() {
	bs := sym.Pick("blocksize", 1, sym.Bound(4, 5))
	ops := sym.Bound(4, 5)
	c := circularbuffer.MakeC2Buffer(bs)
	var ref []byte
	for k := 0; k < ops; k++ {
		switch op := sym.Pick("op", 0, bs+2); {
		case op <= bs: // write op bytes (0..blocksize)
			data := sym.Bytes("data", op)
			c.Write(data)
			all := append(append([]byte{}, ref...), data...)
			cut := 0
			if len(all) > bs {
				cut = len(all) - bs
				sym.Reach("eviction")
			}
			ev := c.Evicted()
			sym.Assert(len(ev) == cut, "evicted length differs from the number of bytes pushed out")
			sym.Assert(sym.BytesEq(ev, all[:cut]), "evicted bytes are not the ones pushed out")
			ref = all[cut:]
		case op == bs+1:
			n := sym.Pick("trunc", 0, bs+1)
			got := c.Truncate(n)
			if n > len(ref) {
				n = len(ref)
			}
			sym.Assert(len(got) == n, "truncation returned the wrong number of bytes")
			sym.Assert(sym.BytesEq(got, ref[:n]), "truncation did not return the oldest bytes")
			ref = append([]byte{}, ref[n:]...)
			sym.Reach("truncate")
		default:
			c.Reset()
			ref = nil
			sym.Reach("reset")
		}
		sym.Assert(c.Len() == len(ref), "length differs from the number of bytes held")
		sym.Assert(c.Empty() == (len(ref) == 0), "Empty disagrees with the length")
		got := c.GetBlock()
		sym.Assert(len(got) == len(ref), "block has the wrong length")
		sym.Assert(sym.BytesEq(got, ref), "block is not the most recent bytes, oldest first")
	}
	sym.Observe("block", c.GetBlock(), c.Evicted(), c.Len())
}

// Long uses larger blocks and only writes, so that the buffer wraps several times.
func Long() {
	bs := sym.Pick("blocksize", 5, sym.Bound(6, 9))
	c := circularbuffer.MakeC2Buffer(bs)
	var ref []byte
	for k := 0; k < sym.Bound(4, 5); k++ {
		op := sym.Pick("len", 0, bs)
		data := sym.Bytes("data", op)
		c.Write(data)
		all := append(append([]byte{}, ref...), data...)
		cut := 0
		if len(all) > bs {
			cut = len(all) - bs
			sym.Reach("eviction")
		}
		ev := c.Evicted()
		sym.Assert(len(ev) == cut && sym.BytesEq(ev, all[:cut]), "evicted bytes are not the ones pushed out")
		ref = all[cut:]
		sym.Assert(c.Len() == len(ref), "length differs from the number of bytes held")
		sym.Assert(sym.BytesEq(c.GetBlock(), ref), "block is not the most recent bytes, oldest first")
	}
	sym.Observe("block", c.GetBlock(), c.Evicted(), c.Len())
}
