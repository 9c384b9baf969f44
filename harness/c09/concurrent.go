package c09

import (
	"sync"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// Concurrent looks up in one index from two goroutines, like the sections of
// a file that are compared at the same time.
func Concurrent() {
	var l []chunks.ChunkChecksum
	weak := [][]byte{{1, 0, 0, 0}, {1, 0, 0, 0}, {1, 1, 0, 0}, {2, 0, 0, 0}}
	for i, w := range weak {
		l = append(l, chunks.ChunkChecksum{ChunkOffset: uint(i), WeakChecksum: w, StrongChecksum: []byte{byte(i / 2), 3}})
	}
	ix := index.MakeChecksumIndex(l)
	var wg sync.WaitGroup
	var query [2][2]byte
	for g := range query {
		query[g] = [2]byte{sym.Byte("weak"), sym.Byte("strong")}
	}
	for g := range query {
		q := query[g]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 2; k++ {
				w := ix.FindWeakChecksum2([]byte{1, q[0], 0, 0})
				n := 0
				if w != nil {
					n = len(ix.FindStrongChecksum2([]byte{q[1], 3}, w))
				}
				want := sym.IteInt(sym.And(q[0] == 0, q[1] == 0), 2, 0)
				want += sym.IteInt(sym.And(q[0] == 1, q[1] == 1), 1, 0)
				sym.Assert(n == want, "a lookup does not return exactly the matching blocks")
				q[0] ^= 1
			}
		}()
	}
	wg.Wait()
	sym.Reach("looked up")
}
