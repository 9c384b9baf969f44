package c12

import (
	"io"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/zzverif/big"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// Large reads many pairs.
func Large() {
	n := []int{255, 256, 257, 1025, 4097, 70000, 65537}[sym.Pick("pairs", 0, sym.Bound(5, 6))]
	ws := 1 + sym.Pick("weak size", 0, 1)*3
	ss := 1 + sym.Pick("strong size", 0, 1)*15
	more := []int{0, 1, ws, ws + ss - 1}[sym.Pick("more", 0, 3)]
	if n > 5000 && (ws+ss > 2 || more > 1) {
		sym.Stop()
	}
	data := big.Bytes(n*(ws+ss) + more)
	copy(data[(n-1)*(ws+ss):], sym.Bytes("data", ws+ss))
	got, err := chunks.LoadChecksumsFromReader(&reader{data: data, end: io.EOF, with: sym.Pick("with", 0, 1) == 1}, ws, ss)
	if more > 0 {
		sym.Assert(err != nil, "a stream that ends inside a pair was accepted")
		sym.Reach("partial")
		return
	}
	sym.Assert(err == nil, "a complete stream was rejected")
	sym.Assert(len(got) == n, "the number of pairs is wrong")
	g := chunks.StrongChecksumGetter(got)
	for i := range got {
		o := i * (ws + ss)
		sym.Assert(got[i].ChunkOffset == uint(i), "block numbers are not consecutive from zero")
		sym.Assert(sym.BytesEq(got[i].WeakChecksum, data[o:o+ws]), "a weak checksum was not read back")
		sym.Assert(sym.BytesEq(got[i].StrongChecksum, data[o+ws:o+ws+ss]), "a strong checksum was not read back")
		sym.Assert(sym.BytesEq(g.GetStrongChecksumForBlock(i), data[o+ws:o+ws+ss]), "the lookup does not return the checksum of the block")
	}
	sym.Reach("many pairs")
}
