package c14

import (
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/zzverif/big"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// high has the checksums of blocks from a base on.
type high struct {
	base int
	sums [][]byte
}

func (g high) GetStrongChecksumForBlock(k int) []byte {
	for i := range g.sums {
		if k == g.base+i {
			return g.sums[i]
		}
	}
	sym.Fail("the checksum of another block is asked for")
	return nil
}

// Large verifies blocks with high numbers and blocks that are large.
func Large() {
	g := &high{}
	var bs, n int
	if sym.Pick("what", 0, 1) == 0 {
		bs, n = 2, 5
		g.base = sym.Int("base", 0, 1<<60)
	} else {
		bs = []int{255, 256, 300, 65536, 70000, 1<<20 + 3, 4097}[sym.Pick("blocksize", 0, sym.Bound(5, 6))]
		if bs > 1<<20 {
			n = bs + 1
		} else {
			n = bs + []int{0, 1, bs / 2, bs}[sym.Pick("more", 0, 3)]
		}
		g.base = []int{0, 3, 1 << 16, 1<<32 + 1}[sym.Pick("base", 0, 3)]
		sym.Reach("large blocks")
	}
	ref := big.Bytes(n)
	at := []int{0, n / 2, n - 1}[sym.Pick("at", 0, 2)]
	ref[at] = sym.Byte("reference")
	g.sums = sums(ref, bs)
	v := &filechecksum.HashVerifier{BlockSize: uint(bs), Hash: filechecksum.DefaultStrongHashGenerator(), BlockChecksumGetter: g}
	first := sym.Pick("first", 0, len(g.sums)-1)
	data := append([]byte{}, ref[first*bs:]...)
	if sym.Pick("cut", 0, 1) == 1 {
		data = data[:len(data)-1]
	}
	if len(data) > 0 {
		at = []int{0, len(data) / 2, len(data) - 1}[sym.Pick("data at", 0, 2)]
		data[at] = sym.Byte("data")
	}
	got := v.VerifyBlockRange(uint(g.base+first), data)
	want := genuine(ref, data, bs, first)
	sym.Assert(!want || got, "correct data were rejected")
	sym.Assert(want || !got, "wrong data were accepted")
	if got {
		sym.Reach("accepted")
	}
}
