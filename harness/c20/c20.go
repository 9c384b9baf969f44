package c20

import (
	"errors"
	"io"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/zzverif/fail"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

type file struct {
	data     []byte
	pos      int64
	seekFail bool
	failAt   int // fail the k-th read, -1 never
	err      error
	reads    int
	gaps     int
	with     bool
}

var errSeek = errors.New("seek failure")
var errRead = errors.New("read failure")

func (f *file) Seek(off int64, whence int) (int64, error) {
	if f.seekFail {
		return 0, fail.Of(errSeek)
	}
	switch whence {
	case 1:
		off += f.pos
	case 2:
		off += int64(len(f.data))
	}
	f.pos = off
	return off, nil
}

func (f *file) Read(p []byte) (int, error) {
	f.reads++
	if f.failAt >= 0 && f.reads > f.failAt {
		return 0, f.err
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.pos >= int64(len(f.data)) {
		return 0, io.EOF
	}
	rest := f.data[f.pos:]
	n := len(p)
	if n > len(rest) {
		n = len(rest)
	}
	if n > 1 && f.gaps > 0 {
		f.gaps--
		n = sym.Pick("chunk", 1, n)
	}
	copy(p, rest[:n])
	f.pos += int64(n)
	if n == len(rest) && f.with {
		return n, io.EOF
	}
	return n, nil
}

// Range requests any range of blocks of a reference through the block source.
func Range() {
	n := sym.Pick("size", 1, sym.Bound(6, 8))
	bs := sym.Pick("blocksize", 1, sym.Bound(3, 4))
	f := &file{data: sym.Bytes("data", n), failAt: -1, gaps: 2, with: sym.Pick("with", 0, 1) == 1}
	f.pos = int64(sym.Pick("position", 0, n))
	if sym.Pick("fault", 0, 3) == 1 {
		f.seekFail = true
	} else if sym.Pick("rfault", 0, 2) == 1 {
		f.failAt = sym.Pick("failing read", 0, 2)
		f.err = []error{errRead, io.ErrUnexpectedEOF}[sym.Pick("error", 0, 1)]
	}
	known := sym.Pick("known size", 0, 1) == 1
	res := blocksources.MakeNullFixedSizeResolver(uint64(bs))
	if known {
		res = blocksources.MakeFileSizedBlockResolver(uint64(bs), int64(n))
	}
	blocks := (n + bs - 1) / bs
	first := sym.Pick("first", 0, blocks-1)
	last := sym.Pick("last", first, blocks-1)
	src := blocksources.NewReadSeekerBlockSource(f, res)
	for k := 0; k < 2; k++ {
		if err := src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: uint(first), EndBlock: uint(last), BlockSize: int64(bs)}); err != nil {
			sym.Fail("a running source refused a request")
		}
		select {
		case r := <-src.GetResultChannel():
			lo, hi := first*bs, (last+1)*bs
			if hi > n {
				hi = n
			}
			sym.Assert(!f.seekFail, "a failing seek was not reported")
			sym.Assert(r.StartBlock == uint(first), "the response is for another block")
			sym.Assert(len(r.Data) == hi-lo, "the response has the wrong length")
			sym.Assert(sym.BytesEq(r.Data, f.data[lo:hi]), "the response has other bytes")
			sym.Reach("delivered")
			sym.Observe("data", r.Data)
		case err := <-src.EncounteredError():
			sym.Assert(err != nil, "nil error")
			sym.Assert(f.seekFail || f.failAt >= 0, "an error without a failure")
			sym.Reach("error")
			return
		}
		// whoever else uses the reader may have moved it, and the next
		// request is for any range
		if n > sym.Bound(3, 5) {
			continue
		}
		f.pos = int64(sym.Pick("moved", 0, 1) * n / 2)
		f.gaps = 0
		first = sym.Pick("next first", 0, blocks-1)
		last = sym.Pick("next last", first, blocks-1)
		sym.Reach("another range")
	}
	src.Close()
}

// yielding lets others run between a seek and the read after it.
type yielding struct {
	*file
}

func (y *yielding) Seek(off int64, whence int) (int64, error) {
	n, err := y.file.Seek(off, whence)
	sym.Yield()
	return n, err
}

func (y *yielding) Read(p []byte) (int, error) {
	n, err := y.file.Read(p)
	sym.Yield()
	return n, err
}

// Several asks for several ranges before it takes the first response.
func Several() {
	n := sym.Pick("size", 2, sym.Bound(3, 4))
	bs := sym.Pick("blocksize", 1, 2)
	f := &file{data: sym.Bytes("data", n), failAt: -1, gaps: 1}
	if sym.Pick("fault", 0, 1) == 1 {
		f.failAt = sym.Pick("failing read", 0, 2)
		f.err = errRead
	}
	src := blocksources.NewReadSeekerBlockSource(&yielding{file: f}, blocksources.MakeFileSizedBlockResolver(uint64(bs), int64(n)))
	blocks := (n + bs - 1) / bs
	k := 0
	starts := []int{}
	for from := 0; from < blocks; k++ { // consecutive ranges
		to := sym.Pick("last", from, blocks-1)
		starts = append(starts, from, to)
		from = to + 1
	}
	order := sym.Pick("descending", 0, 1)
	for i := 0; i < k; i++ {
		j := i
		if order == 1 {
			j = k - 1 - i
		}
		if err := src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: uint(starts[2*j]), EndBlock: uint(starts[2*j+1]), BlockSize: int64(bs)}); err != nil {
			sym.Assert(f.failAt >= 0, "a running source refused a request")
			src.Close()
			return
		}
	}
	for got := 0; got < k; {
		select {
		case r := <-src.GetResultChannel():
			j := 0
			for j < k && uint(starts[2*j]) != r.StartBlock {
				j++
			}
			sym.Assert(j < k, "the response is for another block")
			lo, hi := starts[2*j]*bs, (starts[2*j+1]+1)*bs
			if hi > n {
				hi = n
			}
			sym.Assert(len(r.Data) == hi-lo, "the response has the wrong length")
			sym.Assert(sym.BytesEq(r.Data, f.data[lo:hi]), "the response has other bytes")
			got++
			if got > 1 {
				sym.Reach("several")
			}
		case err := <-src.EncounteredError():
			sym.Assert(err != nil, "nil error")
			sym.Assert(f.failAt >= 0, "an error without a failure")
			sym.Reach("failed")
			got = k
		}
	}
	src.Close()
}
