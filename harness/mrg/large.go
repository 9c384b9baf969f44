package mrg

import (
	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// Large merges many matches, with high block numbers and offsets.
func Large() {
	base := []uint{0, 253, 65533, 1<<32 - 3, 1 << 40}[sym.Pick("first block", 0, 4)]
	off := []int64{0, 250, 1<<31 - 7, 1 << 45}[sym.Pick("offset", 0, 3)]
	n := []int{5, 33, 280, 1100}[sym.Pick("blocks", 0, sym.Bound(2, 3))]
	bs := []int{1, 3, 300, 70000}[sym.Pick("blocksize", 0, 3)]
	if n > 100 && bs != 3 {
		sym.Stop()
	}
	order := sym.Pick("order", 0, 4)
	away := -1 // this block lies elsewhere
	switch sym.Pick("away", 0, 2) {
	case 1:
		away = n / 2
	case 2:
		away = n * 19 / 20
		if n > 256 {
			away = 256
		}
	}
	at := make([]int64, n)
	ch := make(chan comparer.BlockMatchResult, 2*n)
	add := func(i int) {
		at[i] = off + int64(i)*int64(bs)
		if i == away {
			at[i] = int64(sym.Int("away at", 0, 1<<50))
			if at[i] == off+int64(i)*int64(bs) {
				sym.Reach("in place after all")
			}
		}
		ch <- comparer.BlockMatchResult{BlockIdx: base + uint(i), ComparisonOffset: at[i]}
	}
	skip := func(i int) bool { return order == 4 && i%5 == 4 } // was not found
	for i := 0; i < n; i++ {
		switch {
		case order == 0 || order == 4:
			if !skip(i) {
				add(i)
			}
		case order == 1:
			add(n - 1 - i)
		case order == 2: // even ones first
			if 2*i < n {
				add(2 * i)
			} else {
				add(2*(i-(n+1)/2) + 1)
			}
		case order == 3:
			if n%7 == 0 {
				sym.Stop()
			}
			add(i * 7 % n)
		}
	}
	close(ch)
	m := &comparer.MatchMerger{}
	m.StartMergeResultStream(ch, int64(bs))
	spans := m.GetMergedBlocks()
	next := 0
	for _, s := range spans {
		lo, hi := int(s.StartBlock-base), int(s.EndBlock-base)
		sym.Assert(s.StartBlock >= base && hi < n, "a span covers a block that was not reported")
		sym.Assert(lo <= hi, "a span ends before it starts")
		for next < lo && skip(next) {
			next++
		}
		sym.Assert(lo == next, "a reported block is in no span, or in several")
		for b := lo; b <= hi; b++ {
			sym.Assert(!skip(b), "a span covers a block that was not reported")
			sym.Assert(s.ComparisonStartOffset+int64(b-lo)*int64(bs) == at[b], "a block inside a span lies at an offset that was not reported for it")
		}
		next = hi + 1
	}
	for next < n && skip(next) {
		next++
	}
	sym.Assert(next == n, "a reported block is in no span")
	if n > 250 && len(spans) == 1 {
		sym.Reach("long span")
	}
	// what is missing is the rest
	if base > 1<<33 || n > 100 {
		return
	}
	max := base + uint(n) + 2
	missing := spans.GetMissingBlocks(max)
	k, pos := 0, uint(0)
	for _, s := range missing {
		for k < len(spans) && spans[k].StartBlock == pos {
			pos = spans[k].EndBlock + 1
			k++
		}
		sym.Assert(s.StartBlock == pos && s.EndBlock >= pos, "the missing spans do not begin where the found ones end")
		pos = s.EndBlock + 1
		sym.Assert(k == len(spans) || pos == spans[k].StartBlock, "the missing spans do not end where the found ones begin")
	}
	sym.Assert(k == len(spans) && pos == max+1, "the missing spans do not reach the end")
}
