package c09

import (
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// Large indices: many blocks with one weak checksum, many with one pair of
// checksums, or many weak checksums.
func Large() {
	n := []int{13, 40, 300}[sym.Pick("blocks", 0, 2)]
	dups := []int{0, 9, 13, 33, 257}[sym.Pick("equal", 0, 4)]
	if dups > n || n == 300 && dups < sym.Bound(257, 0) {
		sym.Stop()
	}
	order := sym.Pick("order", 0, 2)
	w := []byte{1, 2, 3, 4}
	var l []chunks.ChunkChecksum
	ss := make([][]byte, n)
	odd := -1
	if sym.Pick("symbolic", 0, 1) == 1 {
		odd = []int{0, n / 2, n - 1}[sym.Pick("which", 0, 2)]
	}
	for i := range ss {
		k := i
		switch order {
		case 1:
			k = n - 1 - i
		case 2:
			k = i * 7 % n
		}
		v := byte(k)
		if k >= n/3 && k < n/3+dups {
			v = 77
		}
		ss[i] = []byte{v, 5}
		if i == odd {
			ss[i] = []byte{sym.Byte("strong"), 5}
		}
		l = append(l, chunks.ChunkChecksum{ChunkOffset: uint(i), WeakChecksum: w, StrongChecksum: append([]byte{}, ss[i]...)})
	}
	ix := index.MakeChecksumIndex(l)
	sym.Assert(ix.WeakCount() == n && ix.BlockCount == n, "wrong count")
	q := []byte{77, 5}
	if odd < 0 {
		q[0] = sym.Byte("query")
	}
	weak := ix.FindWeakChecksum2(w)
	sym.Assert(weak != nil, "the weak checksum of all blocks is not found")
	got := ix.FindStrongChecksum2(q, weak)
	count := make([]int, n)
	for _, g := range got {
		k := sym.Concretize(int(g.ChunkOffset))
		sym.Assert(k < n, "an unknown block is returned")
		count[k]++
	}
	for i := range ss {
		sym.Assert(count[i] == sym.IteInt(sym.BytesEq(ss[i], q), 1, 0), "a lookup does not return exactly the matching blocks")
	}
	if len(got) > 20 {
		sym.Reach("many equal blocks")
	}
}

// Many weak checksums, a few of them in every part of the index.
func Many() {
	n := sym.Bound(1000, 5000)
	sum := func(i int) []byte { return []byte{byte(i), byte(i >> 8 * 3), byte(i >> 4), byte(i * 5)} }
	var l []chunks.ChunkChecksum
	for i := 0; i < n; i++ {
		l = append(l, chunks.ChunkChecksum{ChunkOffset: uint(i), WeakChecksum: sum(i), StrongChecksum: []byte{byte(i), byte(i >> 8)}})
	}
	ix := index.MakeChecksumIndex(l)
	sym.Assert(ix.WeakCount() == n && ix.BlockCount == n, "wrong count")
	s := sym.Byte("strong")
	for i := 0; i < n; i++ {
		weak := ix.FindWeakChecksum2(sum(i))
		sym.Assert(weak != nil, "a weak checksum of a block is not found")
		got := ix.FindStrongChecksum2([]byte{byte(i), byte(i >> 8)}, weak)
		sym.Assert(len(got) == 1 && got[0].ChunkOffset == uint(i), "a lookup does not return exactly the matching blocks")
		if i%97 == 0 {
			got = ix.FindStrongChecksum2([]byte{s, byte(i >> 8)}, weak)
			sym.Assert(len(got) == sym.IteInt(s == byte(i), 1, 0), "a lookup does not return exactly the matching blocks")
		}
	}
}
