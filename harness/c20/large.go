package c20

import (
	"errors"
	"io"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/zzverif/big"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// far is a file of which only the bytes from base on matter.
type far struct {
	base int64
	data []byte
	pos  int64
	most int // how much one read delivers, 0 for all
}

func (f *far) Seek(off int64, whence int) (int64, error) {
	if whence == 1 {
		off += f.pos
	} else if whence == 2 {
		off += f.base + int64(len(f.data))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = off
	return off, nil
}

func (f *far) Read(p []byte) (int, error) {
	k := f.pos - f.base
	if k < 0 {
		// other data
		for i := range p {
			p[i] = 99
		}
		f.pos += int64(len(p))
		return len(p), nil
	}
	if k >= int64(len(f.data)) {
		return 0, io.EOF
	}
	if f.most > 0 && len(p) > f.most {
		p = p[:f.most]
	}
	n := copy(p, f.data[k:])
	f.pos += int64(n)
	return n, nil
}

// Large asks for long ranges, and ranges far into the file.
func Large() {
	bs := []int{2, 300, 4097, 65536, 1<<20 + 3}[sym.Pick("blocksize", 0, 4)]
	first := []int{0, 1, 70000, 1 << 31, 1<<32 + 5}[sym.Pick("first", 0, 4)]
	blocks := 1
	if bs < 1<<20 {
		blocks = sym.Pick("blocks", 1, 3)
	}
	if bs == 2 && sym.Pick("many", 0, 1) == 1 {
		blocks = 70001
		sym.Reach("many blocks")
	}
	n := blocks*bs - []int{0, 1, bs / 2, bs - 1}[sym.Pick("short", 0, 3)]
	f := &far{base: int64(first) * int64(bs), data: big.Bytes(n), most: []int{0, 1000}[sym.Pick("pieces", 0, 1)]}
	at := []int{0, n / 2, n - 1}[sym.Pick("at", 0, 2)]
	f.data[at] = sym.Byte("data")
	src := blocksources.NewReadSeekerBlockSource(f, blocksources.MakeFileSizedBlockResolver(uint64(bs), f.base+int64(n)))
	sym.Assert(src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: uint(first), EndBlock: uint(first + blocks - 1), BlockSize: int64(bs)}) == nil, "a running source refused a request")
	select {
	case r := <-src.GetResultChannel():
		sym.Assert(r.StartBlock == uint(first), "the response is for another block")
		sym.Assert(len(r.Data) == n, "the response has the wrong length")
		sym.Assert(sym.BytesEq(r.Data, f.data), "the response has other bytes")
		sym.Assert(src.ReadBytes() == int64(n), "the bytes read are not those fetched")
		if first > 1<<30 {
			sym.Reach("far")
		}
	case <-src.EncounteredError():
		sym.Fail("an error without a failure")
	}
	src.Close()
}
