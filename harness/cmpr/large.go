package cmpr

import (
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/zzverif/big"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// indexOf builds an index straight from the blocks.
func indexOf(blocks [][]byte) *index.ChecksumIndex {
	r := &reference{}
	var l []chunks.ChunkChecksum
	for i, b := range blocks {
		r.add(b)
		l = append(l, chunks.ChunkChecksum{ChunkOffset: uint(i), WeakChecksum: r.weak[i], StrongChecksum: r.strong[i]})
	}
	return index.MakeChecksumIndex(l)
}

// Large: large blocks, many equal blocks, and blocks far into the stream.
func Large() {
	var blocks [][]byte
	var local []byte
	bs := 16
	cut := 0 // by so much the last block is shorter
	switch sym.Pick("what", 0, 2) {
	case 0:
		// many blocks, many of them equal
		n := []int{40, 300}[sym.Pick("blocks", 0, 1)]
		dups := []int{0, 9, 33, 200}[sym.Pick("equal", 0, 3)]
		if n/4+dups > n {
			sym.Stop()
		}
		src := big.Bytes(n + bs)
		for i := 0; i < n; i++ {
			b := src[i : i+bs]
			if i >= n/4 && i < n/4+dups {
				b = src[:bs]
			}
			blocks = append(blocks, b)
		}
		for _, i := range []int{n - 1, 0, n / 4, n / 3, 1} {
			local = append(local, blocks[i]...)
			local = append(local, src[3:3+i%5]...)
		}
		sym.Reach("many equal blocks")
	case 1:
		bs = []int{255, 300, 4097}[sym.Pick("blocksize", 0, sym.Bound(2, 2))]
		src := big.Bytes(3 * bs)
		cut = []int{0, 1, bs - 1}[sym.Pick("short", 0, 2)]
		blocks = [][]byte{src[:bs], src[bs : 2*bs], src[2*bs : 3*bs-cut]}
		local = append(local, make([]byte, []int{0, 1, 300}[sym.Pick("before", 0, 2)])...)
		local = append(local, blocks[1]...)
		local = append(local, make([]byte, []int{0, 1, 259}[sym.Pick("between", 0, 2)])...)
		local = append(local, blocks[0]...)
		local = append(local, blocks[2]...)
		sym.Reach("large blocks")
	case 2:
		// only zeros before
		src := big.Bytes(3 * bs)
		blocks = [][]byte{src[:bs], src[bs : 2*bs], src[2*bs : 3*bs-1]}
		local = make([]byte, []int{251, 4090, 66000}[sym.Pick("before", 0, 2)])
		for _, b := range blocks {
			local = append(local, b...)
		}
		sym.Reach("far")
	}
	if bs == 16 && len(local) < 60000 {
		// the end may be anything
		local[len(local)-1] = sym.Byte("last")
	}
	r := &stream{data: local, failAt: -1, with: sym.Pick("with", 0, 1) == 1}
	base := int64(sym.Int("base", 0, 1<<60))
	got := map[[2]int]int{}
	total := 0
	for m := range (&comparer.Comparer{}).StartFindMatchingBlocks(r, base, filechecksum.NewFileChecksumGenerator(uint(bs)), indexOf(blocks)) {
		total++
		sym.Assert(total < 1000, "there is no end to the matches")
		sym.Assert(m.Err == nil, "an error is reported without a failure")
		i, off := int(m.BlockIdx), sym.Concretize(int(m.ComparisonOffset-base))
		sym.Assert(i < len(blocks), "a block that does not exist is reported")
		b := blocks[i]
		sym.Assert(off >= 0 && off+len(b) <= len(local), "a match lies outside the local stream")
		sym.Assert(sym.BytesEq(b, local[off:off+len(b)]), "a reported match has other content")
		got[[2]int{off, i}]++
	}
	// a byte by byte scan; blocks differ in their first four bytes, if they do
	first := map[[4]byte][]int{}
	short := [4]byte{}
	for i, b := range blocks {
		if len(b) < 4 {
			copy(short[:], b)
			continue
		}
		k := [4]byte{b[0], b[1], b[2], b[3]}
		first[k] = append(first[k], i)
	}
	for pos := 0; pos < len(local); {
		end := pos + bs
		if end > len(local) {
			end = len(local)
		}
		var may []int
		if pos+8 < len(local) {
			may = first[[4]byte{local[pos], local[pos+1], local[pos+2], local[pos+3]}]
		} else {
			for i := range blocks {
				may = append(may, i)
			}
		}
		next := pos + 1
		for _, i := range may {
			if b := blocks[i]; len(b) == end-pos && sym.BytesEq(b, local[pos:end]) {
				k := got[[2]int{pos, i}]
				sym.Assert(k != 0, "a block of the reference is not found")
				sym.Assert(k == 1, "a match is reported more than once")
				next = end
			}
		}
		pos = next
	}
}
