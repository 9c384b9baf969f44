package cgen

import (
	"io"

	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/indexbuilder"
	"github.com/Redundancy/go-sync/zzverif/big"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// Large inputs: many blocks, or large ones.
func Large() {
	var n, bs int
	if sym.Pick("what", 0, 1) == 0 {
		bs = 1 + sym.Pick("blocksize", 0, 1)
		n = []int{255, 256, 700, 66000}[sym.Pick("blocks", 0, 3)] * bs
		n += sym.Pick("more", 0, bs-1)
		sym.Reach("many blocks")
		if n > 60000 && sym.Bound(0, 1) == 0 {
			run(filechecksum.NewFileChecksumGenerator(uint(bs)), &stream{data: big.Bytes(n), end: io.EOF}, bs, 1000, false)
			return
		}
	} else {
		bs = []int{255, 256, 300, 4097, 70000, 1<<20 + 3}[sym.Pick("large blocksize", 0, 5)]
		if bs > 1<<20 {
			run(filechecksum.NewFileChecksumGenerator(uint(bs)), &stream{data: big.Bytes(bs + 1), end: io.EOF}, bs, 2, false)
			return
		}

		n = bs * sym.Pick("large blocks", 0, 2)
		n += []int{0, 1, bs / 2, bs - 1}[sym.Pick("more", 0, 3)]
		sym.Reach("large blocks")
	}
	data := big.Bytes(n)
	index := bs < 3 && n < 2000 && sym.Pick("index", 0, 1) == 1
	if n > 0 && !index {
		at := []int{0, n / 2, n - 1}[sym.Pick("at", 0, 2)]
		data[at] = sym.Byte("data")
	}
	s := &stream{data: data, end: io.EOF, with: sym.Pick("with", 0, 1) == 1}
	g := filechecksum.NewFileChecksumGenerator(uint(bs))
	if index {
		sum, _, lookup, err := indexbuilder.BuildChecksumIndex(g, s)
		sym.Assert(err == nil, "an error was reported without a failure")
		sym.Assert(sym.BytesEq(sum, fileOf(data)), "the checksum of the whole input is wrong")
		for i := 0; i*bs < n; i++ {
			e := i*bs + bs
			if e > n {
				e = n
			}
			sym.Assert(sym.BytesEq(lookup.GetStrongChecksumForBlock(i), strongOf(data[i*bs:e])), "the lookup has another checksum for a block")
		}
		return
	}
	run(g, s, bs, []uint{7, 64, 1000, 1}[sym.Pick("batch", 0, sym.Bound(2, 3))], false)
}
