package c18

import (
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// Sizes: block sizes of every magnitude, of which the multiples are easy for
// the solver.
func Sizes() {
	sizes := []uint64{1, 2, 255, 256, 8192, 8193, 65535, 65536, 1<<20 + 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 3, 1 << 40}
	bs := sizes[sym.Pick("blocksize", 0, len(sizes)-1)]
	size := int64(sym.Int("filesize", 0, 1<<60))
	b := uint(sym.Int("block", 0, int(uint64(1<<61)/bs)))
	var r blocksources.BlockSourceOffsetResolver = blocksources.MakeFileSizedBlockResolver(bs, size)
	if size == 0 || sym.Pick("known size", 0, 1) == 0 {
		size = 0
		r = blocksources.MakeNullFixedSizeResolver(bs)
	}
	s, e := int64(uint64(b)*bs), int64(uint64(b+1)*bs)
	if size != 0 {
		s, e = int64(sym.IteInt(s > size, int(size), int(s))), int64(sym.IteInt(e > size, int(size), int(e)))
	}
	sym.Assert(r.GetBlockStartOffset(b) == s, "a block does not start where it should")
	sym.Assert(r.GetBlockEndOffset(b) == e, "a block does not end where it should")
}
