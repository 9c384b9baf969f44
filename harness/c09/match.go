package c09

import (
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// Match compares two checksums, and looks at the statistics of an index.
func Match() {
	part := func(name string) []byte { return sym.Bytes(name, sym.Pick(name+" length", 0, sym.Bound(2, 4))) }
	a := chunks.ChunkChecksum{ChunkOffset: uint(sym.Uint32("offset a")), Size: int64(sym.Uint32("size a")), WeakChecksum: part("weak a"), StrongChecksum: part("strong a")}
	b := chunks.ChunkChecksum{ChunkOffset: uint(sym.Uint32("offset b")), Size: a.Size, WeakChecksum: part("weak b"), StrongChecksum: part("strong b")}
	equal := func(x, y []byte) bool { return len(x) == len(y) && sym.BytesEq(x, y) }
	want := sym.And(equal(a.WeakChecksum, b.WeakChecksum), equal(a.StrongChecksum, b.StrongChecksum))
	sym.Assert(a.Match(b) == want, "checksums match though a part differs, or do not though both are equal")
	sym.Assert(b.Match(a) == want, "matching depends on the order")
	if want {
		sym.Reach("match")
	} else {
		sym.Reach("no match")
	}
}

// Statistics looks at the statistics of an index.
func Statistics() {
	n := sym.Pick("blocks", 1, sym.Bound(4, 5))
	var l []chunks.ChunkChecksum
	var weak []byte
	for i := 0; i < n; i++ {
		w := sym.Byte("weak")
		weak = append(weak, w)
		l = append(l, chunks.ChunkChecksum{ChunkOffset: uint(i), WeakChecksum: []byte{w & 1, 2, w >> 1, 4}, StrongChecksum: []byte{byte(i)}})
	}
	ix := index.MakeChecksumIndex(l)
	most, kinds := 0, 0
	for i, w := range weak {
		same, first := 0, 1
		for k, v := range weak {
			if v == w {
				same++
				if k < i {
					first = 0
				}
			}
		}
		kinds += first
		if same > most {
			most = same
		}
	}
	sym.Assert(ix.BlockCount == n && ix.WeakCount() == n, "the blocks of the index are miscounted")
	sym.Assert(ix.MaxStrongLength == most, "the largest number of blocks with one weak checksum is wrong")
	sym.Assert(ix.AverageStrongLength == float32(n)/float32(kinds), "the average number of blocks with one weak checksum is wrong")
	if most > 1 {
		sym.Reach("several with one weak checksum")
	}
}
