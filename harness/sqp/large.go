package sqp

import (
	"bytes"
	"io"

	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/patcher/sequential"
	"github.com/Redundancy/go-sync/zzverif/big"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// far is a local file of which only the bytes from base on matter.
type far struct {
	base int64
	data []byte
	pos  int64
}

func (f *far) Seek(off int64, whence int) (int64, error) {
	if whence == 1 {
		off += f.pos
	} else if whence == 2 {
		off += f.base + int64(len(f.data))
	}
	f.pos = off
	return off, nil
}

func (f *far) Read(p []byte) (int, error) {
	k := f.pos - f.base
	if len(p) == 0 {
		return 0, nil
	}
	if k < 0 || k >= int64(len(f.data)) {
		return 0, io.EOF
	}
	n := copy(p, f.data[k:])
	f.pos += int64(n)
	return n, nil
}

// Large patches many or large blocks, from far into the local file.
func Large() {
	many := sym.Pick("what", 0, 1) == 0
	bs := 1
	counts := []int{2, 300, 1}
	if many {
		counts[0] = []int{255, 256, 66000}[sym.Pick("blocks", 0, 2)]
		counts[2] = []int{1, 257, 66001}[sym.Pick("last blocks", 0, 2)]
		sym.Reach("many blocks")
	} else {
		bs = []int{300, 4097, 65536, 70000}[sym.Pick("blocksize", 0, 3)]
		counts = []int{1, 2, 1}
		sym.Reach("large blocks")
	}
	n := (counts[0] + counts[1] + counts[2]) * bs
	if bs > 1 {
		n -= []int{0, 1, bs - 1}[sym.Pick("short", 0, 2)]
	}
	ref := big.Bytes(n)
	at := []int{0, n / 2, n - 1}[sym.Pick("at", 0, 2)]
	ref[at] = sym.Byte("reference")
	loc := &far{data: append([]byte{}, ref...)}
	loc.base = []int64{0, 1<<31 - 5, 1 << 32, 1 << 45}[sym.Pick("offset", 0, 3)]
	kinds := sym.Pick("origins", 0, 7)
	var found []patcher.FoundBlockSpan
	var missing []patcher.MissingBlockSpan
	b := 0
	for i, c := range counts {
		if kinds>>i&1 == 0 {
			e := (b + c) * bs
			if e > n && c > 1 {
				sym.Stop() // the short block needs a span of its own
			}
			size := bs
			if e > n {
				size = n - b*bs
			}
			found = append(found, patcher.FoundBlockSpan{StartBlock: uint(b), EndBlock: uint(b + c - 1), BlockSize: int64(size), MatchOffset: loc.base + int64(b*bs)})
		} else {
			missing = append(missing, patcher.MissingBlockSpan{StartBlock: uint(b), EndBlock: uint(b + c - 1), BlockSize: int64(bs)})
		}
		b += c
	}
	cut := sym.Pick("cut", 0, 1) == 1 // one reply lacks a block
	s := newSource()
	asked := 0
	s.reply = func(m patcher.MissingBlockSpan) error {
		asked++
		lo, hi := int(m.StartBlock)*bs, int(m.EndBlock+1)*bs
		if hi > n {
			hi = n
		}
		if cut && asked == 1 {
			hi -= bs
			if hi < lo {
				hi = lo
			}
		}
		s.results <- patcher.BlockReponse{StartBlock: m.StartBlock, Data: append([]byte{}, ref[lo:hi]...)}
		return nil
	}
	var out bytes.Buffer
	err := sequential.SequentialPatcher(loc, s, missing, found, 1000, &out)
	if cut && len(missing) > 0 {
		sym.Assert(err != nil, "a reply with too few blocks was accepted")
		sym.Reach("too few blocks")
		return
	}
	sym.Assert(err == nil, "patching failed without a failure")
	sym.Assert(asked == len(missing), "the source was not asked once for each missing span")
	sym.Assert(sym.BytesEq(out.Bytes(), ref), "the output is not the blocks in order")
}
