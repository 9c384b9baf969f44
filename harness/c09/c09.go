package c09

import (
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

func run(n int, weak func(i int) []byte, strongLen int, qw []byte, queryLen int) {
	var l []chunks.ChunkChecksum
	var ws, ss [][]byte
	for i := 0; i < n; i++ {
		w := weak(i)
		s := sym.Bytes("strong", strongLen)
		ws, ss = append(ws, w), append(ss, s)
		l = append(l, chunks.ChunkChecksum{ChunkOffset: uint(i), Size: 4, WeakChecksum: append([]byte{}, w...), StrongChecksum: append([]byte{}, s...)})
	}
	ix := index.MakeChecksumIndex(l)
	qs := sym.Bytes("query strong", queryLen)
	sym.Assert(ix.BlockCount == n, "wrong block count")
	sym.Assert(ix.WeakCount() == n, "wrong checksum count")

	anyWeak := false
	for i := range ws {
		anyWeak = sym.Or(anyWeak, sym.BytesEq(ws[i], qw))
	}
	res := ix.FindWeakChecksum2(qw)
	if res == nil {
		sym.Assert(!anyWeak, "a weak checksum of a block is not found")
		sym.Reach("weak miss")
		return
	}
	sym.Assert(anyWeak, "a weak checksum that no block has is reported as present")
	got := ix.FindStrongChecksum2(qs, res)
	for i := range ws {
		c := 0
		for _, g := range got {
			c += sym.IteInt(g.ChunkOffset == uint(i), 1, 0)
		}
		match := sym.And(sym.BytesEq(ws[i], qw), sym.BytesEq(ss[i], qs))
		sym.Assert(sym.Implies(match, c == 1), "a block with both checksums is not returned exactly once")
		sym.Assert(sym.Implies(!match, c == 0), "a block with other checksums is returned")
	}
	for _, g := range got {
		sym.Assert(g.ChunkOffset < uint(n), "an unknown block is returned")
		sym.Assert(sym.BytesEq(g.WeakChecksum, qw), "a returned block has another weak checksum")
		sym.Assert(sym.BytesEq(g.StrongChecksum, qs), "a returned block has another strong checksum")
	}
	if len(got) > 1 {
		sym.Reach("several hits")
	}
	if len(got) == 0 {
		sym.Reach("strong miss")
	}
	sym.Observe("result", len(got))
}

// SameWeak: all blocks share a weak checksum, so the strong ones decide.
func SameWeak() {
	n := sym.Pick("blocks", 0, sym.Bound(3, 5))
	w := sym.Bytes("weak", 4)
	run(n, func(int) []byte { return w }, 2, w, 2)
}

// Lengths: a query of any length, shorter and longer than the checksums.
func Lengths() {
	w := []byte{1, 2, 3, 4}
	k := sym.Pick("query length", 0, 3)
	if k != 2 {
		sym.Reach("another length")
	}
	run(sym.Pick("blocks", 1, sym.Bound(2, 3)), func(int) []byte { return w }, 2, w, k)
}

// weakSum is any 32-bit checksum whose lowest byte is one of three.
func weakSum(name string) []byte {
	b := sym.Bytes(name, 3)
	k := sym.Int(name+" low", 0, 2)
	return append([]byte{sym.IteByte(k == 2, 255, byte(k))}, b...)
}

// AnyWeak: arbitrary weak checksums and query, up to the choice of low bytes.
func AnyWeak() {
	n := sym.Pick("blocks", 0, sym.Bound(3, 4))
	run(n, func(int) []byte { return weakSum("weak") }, 1, weakSum("query weak"), 1)
}

// AllWeak: one block and every 32-bit weak checksum and query.
func AllWeak() {
	run(1, func(int) []byte { return sym.Bytes("weak", 4) }, 1, sym.Bytes("query weak", 4), 1)
}

// Again: lookups do not disturb the index (two queries in a row).
func Again() {
	n := sym.Pick("blocks", 1, sym.Bound(3, 4))
	w := []byte{1, 2, 3, 4}
	var l []chunks.ChunkChecksum
	var ss [][]byte
	for i := 0; i < n; i++ {
		s := sym.Bytes("strong", 1)
		ss = append(ss, s)
		l = append(l, chunks.ChunkChecksum{ChunkOffset: uint(i), WeakChecksum: w, StrongChecksum: append([]byte{}, s...)})
	}
	ix := index.MakeChecksumIndex(l)
	for k := 0; k < 2; k++ {
		q := sym.Bytes("query", 1)
		weak := ix.FindWeakChecksum2(w)
		sym.Assert(weak != nil, "the weak checksum of all blocks is not found")
		got := ix.FindStrongChecksum2(q, weak)
		for i := range ss {
			c := 0
			for _, g := range got {
				c += sym.IteInt(g.ChunkOffset == uint(i), 1, 0)
			}
			sym.Assert(c == sym.IteInt(sym.BytesEq(ss[i], q), 1, 0), "a lookup does not return exactly the matching blocks")
		}
	}
}
