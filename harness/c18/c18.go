package c18

import (
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// Tile: offsets of arbitrary blocks for arbitrary block and file sizes.
func Tile() {
	bs := uint64(sym.Int("blocksize", 1, 1<<24))
	size := int64(sym.Int("filesize", 0, 1<<46))
	var r blocksources.BlockSourceOffsetResolver
	if sym.Pick("known size", 0, 1) == 1 {
		r = blocksources.MakeFileSizedBlockResolver(bs, size)
	} else {
		r = blocksources.MakeNullFixedSizeResolver(bs)
		size = 0
	}
	b := uint(sym.Int("block", 0, 1<<30))
	s, e := r.GetBlockStartOffset(b), r.GetBlockEndOffset(b)
	sym.Assert(r.GetBlockStartOffset(b+1) == e, "a block does not start where the previous one ends")
	sym.Assert(r.GetBlockStartOffset(0) == 0, "the first block does not start at zero")
	sym.Assert(s <= e, "a block ends before it starts")
	sym.Assert(s >= 0, "an offset is negative")
	sym.Assert(e-s <= int64(bs), "a block is longer than the block size")
	if size == 0 {
		sym.Assert(e-s == int64(bs), "with unknown size every block has the full size")
		return
	}
	sym.Assert(e <= size, "an offset exceeds the file size")
	// the block is cut only by the end of the file
	sym.Assert(sym.Or(e-s == int64(bs), e == size), "a block that is not the last is shorter than the block size")
	// the last block ends exactly at the end
	sym.Assert(sym.Implies(sym.And(s < size, size-s <= int64(bs)), e == size), "the last block does not end at the end of the file")
	sym.Observe("offsets", s, e)
}

// Split: ranges of blocks anywhere are cut into consecutive requests of any size.
func Split() {
	sizes := []uint64{1, 3, 8, 700, 8192}
	bs := sizes[sym.Pick("blocksize", 0, len(sizes)-1)]
	split(bs, uint64(sym.Int("request size", 0, 1<<20)), uint(sym.Int("start", 0, 1<<30)), sym.Int("count", 1, sym.Bound(6, 12)))
}

// SplitSmall: the block size is arbitrary as well, in a small range.
func SplitSmall() {
	split(uint64(sym.Int("blocksize", 1, 31)), uint64(sym.Int("request size", 0, 255)), uint(sym.Int("start", 0, 63)), sym.Int("count", 1, sym.Bound(4, 6)))
}

func split(bs, max uint64, start uint, n int) {
	r := &blocksources.FixedSizeBlockResolver{BlockSize: bs, MaxDesiredRequestSize: max, FileSize: int64(sym.Int("filesize", 0, 1<<40))}
	end := start + uint(n) - 1
	l := r.SplitBlockRangeToDesiredSize(start, end)
	sym.Assert(len(l) > 0, "no requests")
	next := start
	for _, q := range l {
		sym.Assert(q.StartBlockID == next, "requests are not consecutive")
		sym.Assert(q.EndBlockID >= q.StartBlockID, "a request is empty")
		sym.Assert(q.EndBlockID <= end, "a request goes past the range")
		blocks := uint64(q.EndBlockID - q.StartBlockID + 1)
		sym.Assert(sym.Or(max == 0, sym.Or(blocks == 1, blocks*bs <= max)), "a request is larger than desired")
		next = q.EndBlockID + 1
	}
	sym.Assert(next == end+1, "the requests do not cover the range")
	if len(l) > 1 {
		sym.Reach("several requests")
	}
	sym.Observe("n", len(l))
}
