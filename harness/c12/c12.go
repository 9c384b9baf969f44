package c12

import (
	"bytes"
	"errors"
	"io"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// reader hands out data in pieces of arbitrary size, optionally failing at the
// end with an error, and optionally returning the end together with data.
type reader struct {
	data    []byte
	end     error
	with    bool
	maxGap  int
	pending int
}

func (r *reader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.data) == 0 {
		return 0, r.end
	}
	n := len(p)
	if n > len(r.data) {
		n = len(r.data)
	}
	if n > 1 && r.maxGap > 0 {
		r.maxGap--
		n = sym.Pick("chunk", 1, n)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.with {
		return n, r.end
	}
	return n, nil
}

var errRead = errors.New("read failure")

// Load reads any byte stream of any length with any chunking.
func Load() {
	ws := sym.Pick("weak size", 1, 2)
	ss := sym.Pick("strong size", 1, 3)
	n := sym.Pick("length", 0, sym.Bound(3, 4)*(ws+ss))
	data := sym.Bytes("data", n)
	end := io.EOF
	failing := sym.Pick("fails", 0, 1) == 1
	if failing {
		end = errRead
	}
	r := &reader{data: append([]byte{}, data...), end: end, with: sym.Pick("with", 0, 1) == 1, maxGap: 2}
	got, err := chunks.LoadChecksumsFromReader(r, ws, ss)
	whole := n%(ws+ss) == 0
	if failing {
		sym.Assert(err != nil, "a failing read was not reported")
		sym.Reach("failure")
		return
	}
	if !whole {
		sym.Assert(err != nil, "a stream that ends inside a pair was accepted")
		sym.Reach("partial")
		return
	}
	sym.Assert(err == nil, "a complete stream was rejected")
	sym.Assert(len(got) == n/(ws+ss), "the number of pairs is wrong")
	for i, c := range got {
		o := i * (ws + ss)
		sym.Assert(c.ChunkOffset == uint(i), "block numbers are not consecutive from zero")
		sym.Assert(len(c.WeakChecksum) == ws && bytes.Equal(c.WeakChecksum, data[o:o+ws]), "a weak checksum was not read back")
		sym.Assert(len(c.StrongChecksum) == ss && bytes.Equal(c.StrongChecksum, data[o+ws:o+ws+ss]), "a strong checksum was not read back")
	}
	// the lookup made from the list answers with the strong checksum of the block
	g := chunks.StrongChecksumGetter(got)
	for i := range got {
		o := i*(ws+ss) + ws
		sym.Assert(bytes.Equal(g.GetStrongChecksumForBlock(i), data[o:o+ss]), "the strong checksum looked up for a block is another one")
	}
	sym.Reach("complete")
	sym.Observe("n", len(got))
}
