package c06

import (
	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// Missing takes any sorted list of disjoint spans inside a file of any size.
func Missing() {
	k := sym.Pick("spans", 0, sym.Bound(4, 6))
	maxBlock := sym.Int("maxBlock", 0, 1<<40)
	var l comparer.BlockSpanList
	prev := -1
	for i := 0; i < k; i++ {
		s := sym.Int("start", 0, 1<<40)
		e := sym.Int("end", 0, 1<<40)
		sym.Assume(sym.And(s > prev, sym.And(e >= s, e <= maxBlock)))
		l = append(l, comparer.BlockSpan{StartBlock: uint(s), EndBlock: uint(e), ComparisonStartOffset: int64(sym.Int("off", 0, 1<<40))})
		prev = e
	}
	m := l.GetMissingBlocks(uint(maxBlock))

	// structure: sorted, disjoint, well formed
	last := -1
	for _, s := range m {
		sym.Assert(s.StartBlock <= s.EndBlock, "a missing span is empty or reversed")
		sym.Assert(int(s.StartBlock) > last, "missing spans are not sorted and disjoint")
		last = int(s.EndBlock)
	}
	// every block is in exactly one of the two lists
	b := uint(sym.Int("block", 0, 1<<40))
	sym.Assume(b <= uint(maxBlock))
	found, missing := false, false
	for _, s := range l {
		found = sym.Or(found, sym.And(s.StartBlock <= b, b <= s.EndBlock))
	}
	n := 0
	for _, s := range m {
		in := sym.And(s.StartBlock <= b, b <= s.EndBlock)
		missing = sym.Or(missing, in)
		n += sym.IteInt(in, 1, 0)
	}
	sym.Assert(sym.Or(found, missing), "a block is neither found nor missing")
	sym.Assert(!sym.And(found, missing), "a found block is listed as missing")
	sym.Assert(n <= 1, "a block is missing twice")
	// nothing outside the file
	o := uint(sym.Int("outside", 0, 1<<41))
	sym.Assume(o > uint(maxBlock))
	for _, s := range m {
		sym.Assert(!sym.And(s.StartBlock <= o, o <= s.EndBlock), "a block after the last one is listed as missing")
	}
	if k > 0 {
		sym.Reach("some found")
	}
	if len(m) > 0 {
		sym.Reach("some missing")
		sym.Observe("missing", len(m), int(m[0].StartBlock), int(m[len(m)-1].EndBlock))
	}
}
