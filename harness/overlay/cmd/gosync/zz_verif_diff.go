package main

import (
	"os"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/zzverif/env"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// ZZDiff matches a local file in sections like the diff command.
func ZZDiff() {
	sym.Workdir()
	bs := sym.Pick("blocksize", 1, 3)
	n := sym.Pick("length", 1, sym.Bound(4, 6))
	m := sym.Pick("local length", 0, sym.Bound(5, 7))
	ref, loc := sym.Bytes("reference", n), sym.Bytes("local", m)
	for i := range ref {
		sym.Assume(ref[i] < 2)
	}
	for i := range loc {
		sym.Assume(loc[i] < 2)
	}
	zzDiff(ref, loc, bs, sym.Pick("matchers", 1, 3))
}

// ZZDiffWide matches a longer local file in many sections.
func ZZDiffWide() {
	sym.Workdir()
	bs := sym.Pick("blocksize", 1, 3)
	n := sym.Pick("length", 5, sym.Bound(14, 20))
	ref := make([]byte, n)
	for i := range ref {
		ref[i] = byte(7 * i)
	}
	loc := append([]byte{}, ref...)
	loc[sym.Pick("changed at", 0, n-1)] = sym.Byte("changed")
	if d := sym.Pick("longer by", -1, 1); d < 0 {
		loc = loc[:n+d]
	} else {
		loc = append(loc, make([]byte, d)...)
	}
	zzDiff(ref, loc, bs, sym.Pick("matchers", 2, sym.Bound(5, 8)))
}

func zzDiff(ref, loc []byte, bs, matchers int) {
	var l []chunks.ChunkChecksum
	n, m := len(ref), len(loc)
	for i := 0; i < n; i += bs {
		e := i + bs
		if e > n {
			e = n
		}
		g := filechecksum.NewFileChecksumGenerator(uint(bs))
		g.WeakRollingHash.SetBlock(ref[i:e])
		w := make([]byte, g.WeakRollingHash.Size())
		g.WeakRollingHash.GetSum(w)
		g.StrongHash.Write(ref[i:e])
		l = append(l, chunks.ChunkChecksum{ChunkOffset: uint(len(l)), Size: int64(bs), WeakChecksum: w, StrongChecksum: g.StrongHash.Sum(nil)})
	}
	env.Put("local", loc)
	f, err := os.Open("local")
	sym.Assert(err == nil, "cannot open a file")
	merger, _ := multithreadedMatching(f, index.MakeChecksumIndex(l), int64(m), int64(matchers), uint(bs))
	missing := make([]bool, len(l))
	for i := range missing {
		missing[i] = true
	}
	for _, s := range merger.GetMergedBlocks() {
		for b := s.StartBlock; b <= s.EndBlock; b++ {
			sym.Assert(int(b) < len(missing), "a block outside of the reference was matched")
			lo := int(b) * bs
			at := int(s.ComparisonStartOffset) + int(b-s.StartBlock)*bs
			hi := lo + bs
			if hi > n {
				hi = n
			}
			sym.Assert(at+hi-lo <= m && sym.BytesEq(ref[lo:hi], loc[at:at+hi-lo]), "a match is not genuine")
			missing[b] = false
		}
	}
	env.InPlace(missing, ref, loc, bs)
	if matchers > 1 {
		sym.Reach("several sections")
	}
	sym.Observe("blocks", len(l))
}
