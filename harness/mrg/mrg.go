// Package mrg checks the merging of matches into spans: C05.
package mrg

import (
	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// check compares the spans with the matches that were reported.
func check(spans comparer.BlockSpanList, found []comparer.BlockMatchResult, blocks, bs int) {
	covered := make([]bool, blocks)
	next := 0
	for _, s := range spans {
		sym.Assert(s.StartBlock <= s.EndBlock, "a span ends before it starts")
		sym.Assert(int(s.StartBlock) >= next, "spans overlap or are not sorted")
		sym.Assert(int(s.EndBlock) < blocks, "a span covers a block that was not reported")
		next = int(s.EndBlock) + 1
		for b := s.StartBlock; b <= s.EndBlock; b++ {
			covered[b] = true
			at := s.ComparisonStartOffset + int64(b-s.StartBlock)*int64(bs)
			ok := false
			for _, f := range found {
				ok = sym.Or(ok, sym.And(f.BlockIdx == b, f.ComparisonOffset == at))
			}
			sym.Assert(ok, "a block inside a span lies at an offset that was not reported for it")
		}
		if s.EndBlock-s.StartBlock >= 2 {
			sym.Reach("long span")
		}
	}
	for _, f := range found {
		sym.Assert(covered[f.BlockIdx], "a reported block is in no span")
	}
	for b, c := range covered {
		ok := !c
		for _, f := range found {
			ok = ok || int(f.BlockIdx) == b
		}
		sym.Assert(ok, "a span covers a block that was not reported")
	}
}

func match(blocks, bs, room int) comparer.BlockMatchResult {
	return comparer.BlockMatchResult{
		BlockIdx:         uint(sym.Pick("block", 0, blocks-1)),
		ComparisonOffset: int64(sym.Int("offset", 0, room)),
	}
}

// Merge merges any sequence of matches of one stream.
func Merge() {
	blocks := sym.Bound(4, 5)
	bs := sym.Pick("blocksize", 1, 2)
	n := sym.Pick("matches", 0, sym.Bound(4, 5))
	ch := make(chan comparer.BlockMatchResult, n+1)
	var found []comparer.BlockMatchResult
	for i := 0; i < n; i++ {
		r := match(blocks, bs, 100)
		found = append(found, r)
		ch <- r
	}
	if sym.Pick("ends", 0, 1) == 1 {
		ch <- comparer.BlockMatchResult{Err: errEnd}
	}
	close(ch)
	m := &comparer.MatchMerger{}
	m.StartMergeResultStream(ch, int64(bs))
	check(m.GetMergedBlocks(), found, blocks, bs)
	sym.Observe("spans", len(m.GetMergedBlocks()))
}

type endT struct{}

func (endT) Error() string { return "end" }

var errEnd = endT{}

// Perm merges the matches of a file whose blocks lie in place, in every order,
// and with one block that lies elsewhere.
func Perm() {
	blocks := sym.Bound(6, 7)
	bs := 3
	left := make([]int, blocks)
	for i := range left {
		left[i] = i
	}
	away := sym.Pick("away", 0, blocks)
	ch := make(chan comparer.BlockMatchResult, blocks)
	var found []comparer.BlockMatchResult
	for len(left) > 0 {
		k := sym.Pick("next", 0, len(left)-1)
		r := comparer.BlockMatchResult{BlockIdx: uint(left[k]), ComparisonOffset: int64(left[k] * bs)}
		if left[k] == away {
			r.ComparisonOffset = 1000
		}
		found = append(found, r)
		ch <- r
		left = append(append([]int{}, left[:k]...), left[k+1:]...)
	}
	close(ch)
	m := &comparer.MatchMerger{}
	m.StartMergeResultStream(ch, int64(bs))
	check(m.GetMergedBlocks(), found, blocks, bs)
}

// Streams merges several streams under every schedule.
func Streams() {
	blocks := 3
	bs := 2
	k := sym.Pick("streams", 0, 2)
	m := &comparer.MatchMerger{}
	var found []comparer.BlockMatchResult
	var chans []chan comparer.BlockMatchResult
	var lists [][]comparer.BlockMatchResult
	for s := 0; s < k; s++ {
		var l []comparer.BlockMatchResult
		for i := sym.Pick("matches", 0, sym.Bound(2, 2)); i > 0; i-- {
			b := sym.Pick("block", 0, blocks-1)
			r := comparer.BlockMatchResult{BlockIdx: uint(b), ComparisonOffset: int64(b*bs + sym.Pick("shift", 0, 1))}
			l = append(l, r)
			found = append(found, r)
		}
		lists = append(lists, l)
		chans = append(chans, make(chan comparer.BlockMatchResult))
	}
	for s := range chans {
		m.StartMergeResultStream(chans[s], int64(bs))
	}
	for s := range chans {
		go func(c chan comparer.BlockMatchResult, l []comparer.BlockMatchResult) {
			for _, r := range l {
				c <- r
			}
			close(c)
		}(chans[s], lists[s])
	}
	check(m.GetMergedBlocks(), found, blocks, bs)
	if k > 1 {
		sym.Reach("several streams")
	}
}
