// Package cgen checks the generation of checksums: C10 and C11.
package cgen

import (
	"bytes"
	"errors"
	"io"

	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/indexbuilder"
	"github.com/Redundancy/go-sync/zzverif/fail"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// stream delivers data in pieces and ends with the error end.
type stream struct {
	data   []byte
	pos    int
	gaps   int
	with   bool // the last bytes come together with the end
	end    error
	failed bool
}

func (s *stream) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	rest := s.data[s.pos:]
	if len(rest) == 0 {
		s.failed = s.end != io.EOF
		return 0, s.end
	}
	n := len(p)
	if n > len(rest) {
		n = len(rest)
	}
	if n > 1 && s.gaps > 0 {
		s.gaps--
		n = sym.Pick("chunk", 1, n)
	}
	copy(p, rest[:n])
	s.pos += n
	if n == len(rest) && s.with {
		s.failed = s.end != io.EOF
		return n, s.end
	}
	return n, nil
}

// weakOf is the rolling checksum computed from its definition: the sums
// of the bytes and of the bytes weighted by their distance from the end, both
// modulo 2^16, stored little endian.
func weakOf(b []byte) []byte {
	var x, y uint32
	for i, c := range b {
		x += uint32(c)
		y += uint32(len(b)-i) * uint32(c)
	}
	return []byte{byte(x), byte(x >> 8), byte(y), byte(y >> 8)}
}

func strongOf(b []byte) []byte {
	h := filechecksum.DefaultStrongHashGenerator()
	h.Write(b)
	return h.Sum(nil)
}

func fileOf(b []byte) []byte {
	h := filechecksum.DefaultFileHashGenerator()
	h.Write(b)
	return h.Sum(nil)
}

// expected is the concatenation of all checksums of the data.
func expected(data []byte, bs int) []byte {
	var out []byte
	for i := 0; i < len(data); i += bs {
		e := i + bs
		if e > len(data) {
			e = len(data)
		}
		out = append(out, weakOf(data[i:e])...)
		out = append(out, strongOf(data[i:e])...)
	}
	return out
}

// run consumes one generation and checks it.
func run(g *filechecksum.FileChecksumGenerator, s *stream, bs int, batch uint, sizes bool) {
	var comp filechecksum.CompressionFunction
	var seen []byte
	if sizes {
		comp = func(b []byte) (int64, error) {
			seen = append(seen, b...)
			return int64(len(b)) + 100, nil
		}
	}
	// all results are kept until the end: they must not change any more
	var results []filechecksum.ChecksumResults
	for r := range g.StartChecksumGeneration(s, batch, comp) {
		results = append(results, r)
	}
	at, number := 0, uint(0)
	ended := false
	for _, r := range results {
		sym.Assert(r.Err == nil, "an error was reported without a failure")
		sym.Assert(!ended, "something follows the checksum of the whole input")
		if r.Filechecksum != nil {
			ended = true
			sym.Assert(sym.BytesEq(r.Filechecksum, fileOf(s.data)), "the checksum of the whole input is wrong")
		}
		for _, c := range r.Checksums {
			sym.Assert(at < len(s.data), "there are more entries than blocks")
			e := at + bs
			if e > len(s.data) {
				e = len(s.data)
			}
			b := s.data[at:e]
			sym.Assert(c.ChunkOffset == number, "blocks are not numbered in order from zero")
			sym.Assert(sym.BytesEq(c.WeakChecksum, weakOf(b)), "the weak checksum of a block is wrong")
			sym.Assert(sym.BytesEq(c.StrongChecksum, strongOf(b)), "the strong checksum of a block is wrong")
			if sizes {
				sym.Assert(c.Size == int64(len(b))+100, "the compressed size of a block was lost")
			} else {
				sym.Assert(c.Size == int64(bs) || c.Size == int64(len(b)), "the size of a block is wrong")
			}
			number++
			at = e
		}
	}
	sym.Assert(ended, "the checksum of the whole input is missing")
	sym.Assert(at == len(s.data), "blocks at the end have no entry")
	if sizes {
		sym.Assert(sym.BytesEq(seen, s.data), "the compression function did not see the blocks in order")
	}
	if number > 1 {
		sym.Reach("several blocks")
	}
	if len(s.data)%bs != 0 {
		sym.Reach("short last block")
	}
}

// Blocks generates the checksums of any input, delivered in any pieces and
// batched in any way, after any earlier use of the generator.
func Blocks() {
	bs := sym.Pick("blocksize", 1, sym.Bound(3, 5))
	n := sym.Pick("length", 0, sym.Bound(7, 11))
	s := &stream{data: sym.Bytes("data", n), end: io.EOF, gaps: 2, with: sym.Pick("with", 0, 1) == 1}
	g := filechecksum.NewFileChecksumGenerator(uint(bs))
	switch sym.Pick("earlier use", 0, 2) {
	case 1:
		b := sym.Bytes("earlier", sym.Pick("earlier length", 1, 4))
		if len(b) > bs {
			b = b[:bs]
		}
		g.WeakRollingHash.SetBlock(b)
		g.StrongHash.Write(b)
		g.FileChecksumHash.Write(b)
		if sym.Pick("reset", 0, 1) == 1 {
			g.Reset()
		}
		sym.Reach("used before")
	case 2:
		e := &stream{data: sym.Bytes("earlier", sym.Pick("earlier length", 0, 4)), end: io.EOF}
		run(g, e, bs, 2, false)
	}
	run(g, s, bs, uint(sym.Pick("batch", 0, 3)), sym.Pick("compress", 0, 1) == 1)
}

// Serial generates twice with the same generator through GenerateChecksums,
// under every schedule.
func Serial() {
	bs := sym.Pick("blocksize", 1, 2)
	g := filechecksum.NewFileChecksumGenerator(uint(bs))
	for k := 0; k < 2; k++ {
		data := sym.Bytes("data", sym.Pick("length", 0, sym.Bound(2, 4)))
		var out bytes.Buffer
		var r io.Reader = &stream{data: data, end: io.EOF, gaps: 1}
		sum, err := g.GenerateChecksums(r, &out)
		sym.Assert(err == nil, "an error was reported without a failure")
		sym.Assert(sym.BytesEq(sum, fileOf(data)), "the checksum of the whole input is wrong")
		sym.Assert(sym.BytesEq(out.Bytes(), expected(data, bs)), "the checksums written are wrong")
	}
	sym.Reach("reused")
}

// Index builds an index and looks every block up in it.
func Index() {
	bs := sym.Pick("blocksize", 1, 2)
	n := sym.Pick("length", 0, sym.Bound(3, 4))
	data := sym.Bytes("data", n)
	for _, b := range data {
		sym.Assume(b < 4)
	}
	g := filechecksum.NewFileChecksumGenerator(uint(bs))
	ws, ss := g.GetChecksumSizes()
	sym.Assert(ws == 4 && ss == 16 && g.ChecksumSize() == ws+ss, "the sizes of the checksums are wrong")
	build := func() ([]byte, *index.ChecksumIndex, filechecksum.ChecksumLookup, error) {
		return indexbuilder.BuildChecksumIndex(g, &stream{data: data, end: io.EOF, gaps: 1})
	}
	if sym.Pick("string", 0, 1) == 1 {
		build = func() ([]byte, *index.ChecksumIndex, filechecksum.ChecksumLookup, error) {
			return indexbuilder.BuildIndexFromString(g, string(data))
		}
	}
	sum, idx, lookup, err := build()
	sym.Assert(err == nil, "an error was reported without a failure")
	sym.Assert(sym.BytesEq(sum, fileOf(data)), "the checksum of the whole input is wrong")
	blocks := (n + bs - 1) / bs
	sym.Assert(idx.BlockCount == blocks, "the index has the wrong number of blocks")
	for i := 0; i < blocks; i++ {
		e := (i + 1) * bs
		if e > n {
			e = n
		}
		b := data[i*bs : e]
		sym.Assert(sym.BytesEq(lookup.GetStrongChecksumForBlock(i), strongOf(b)), "the strong checksum looked up for a block is wrong")
		w := idx.FindWeakChecksum2(weakOf(b))
		sym.Assert(w != nil, "the weak checksum of a block is not in the index")
		found := false
		for _, c := range idx.FindStrongChecksum2(strongOf(b), w) {
			found = found || c.ChunkOffset == uint(i)
		}
		sym.Assert(found, "a block is not in the index")
		sym.Reach("looked up")
	}
}

var errRead = errors.New("read failure")
var errWrite = errors.New("write failure")
var errCompress = errors.New("compression failure")

func fault(name string) error {
	if sym.Pick(name, 0, 1) == 1 {
		return io.ErrUnexpectedEOF
	}
	return errRead
}

// ReadFault fails the input after any number of bytes.
func ReadFault() {
	bs := sym.Pick("blocksize", 1, sym.Bound(3, 4))
	n := sym.Pick("length", 0, sym.Bound(5, 7))
	s := &stream{data: sym.Bytes("data", n), end: fault("error"), gaps: 2, with: sym.Pick("with", 0, 1) == 1}
	g := filechecksum.NewFileChecksumGenerator(uint(bs))
	if sym.Pick("api", 0, 1) == 0 {
		var out bytes.Buffer
		sum, err := g.GenerateChecksums(s, &out)
		sym.Assert(err != nil, "the input failed to read, but no error was reported")
		sym.Assert(sum == nil, "a checksum of the whole input was returned although the input failed to read")
	} else {
		reported := false
		for r := range g.StartChecksumGeneration(s, uint(sym.Pick("batch", 1, 2)), nil) {
			sym.Assert(r.Filechecksum == nil, "a checksum of the whole input was delivered although the input failed to read")
			reported = reported || r.Err != nil
			for _, c := range r.Checksums {
				lo := int(c.ChunkOffset) * bs
				hi := lo + bs
				sym.Assert(hi <= n, "an entry describes a block that was not read completely")
				sym.Assert(sym.BytesEq(c.StrongChecksum, strongOf(s.data[lo:hi])), "the checksum of a block before the failure is wrong")
			}
		}
		sym.Assert(reported, "the input failed to read, but no error was delivered")
	}
	sym.Reach("read failure")
	// the generator is still good for another input
	s = &stream{data: sym.Bytes("next", 2), end: io.EOF}
	var out bytes.Buffer
	_, err := g.GenerateChecksums(s, &out)
	sym.Assert(err == nil, "an error was reported without a failure")
	sym.Assert(sym.BytesEq(out.Bytes(), expected(s.data, bs)), "after a failure the generator produces wrong checksums")
}

type sink struct {
	bytes.Buffer
	failAt int // accept so many bytes
}

func (w *sink) Write(p []byte) (int, error) {
	if k := w.failAt - w.Len(); w.failAt >= 0 && len(p) > k {
		w.Buffer.Write(p[:k])
		return k, fail.Of(errWrite)
	}
	return w.Buffer.Write(p)
}

// WriteFault fails the output after any number of bytes.
func WriteFault() {
	bs := sym.Pick("blocksize", 1, 2)
	n := sym.Pick("length", 1, sym.Bound(4, 6))
	data := sym.Bytes("data", n)
	g := filechecksum.NewFileChecksumGenerator(uint(bs))
	all := 20 * ((n + bs - 1) / bs)
	w := &sink{failAt: sym.Pick("failing at", 0, all-1)}
	sum, err := g.GenerateChecksums(&stream{data: data, end: io.EOF}, w)
	sym.Assert(err != nil, "the output failed to write, but no error was reported")
	sym.Assert(sum == nil, "a checksum of the whole input was returned although the output failed to write")
	sym.Reach("write failure")
}

// CompressFault fails the compression function, which writes the
// compressed blocks, at any block.
func CompressFault() {
	bs := sym.Pick("blocksize", 1, 2)
	n := sym.Pick("length", 1, sym.Bound(4, 6))
	blocks := (n + bs - 1) / bs
	k := sym.Pick("failing block", 0, blocks-1)
	g := filechecksum.NewFileChecksumGenerator(uint(bs))
	i := 0
	fn := func(b []byte) (int64, error) {
		i++
		if i > k {
			if sym.Pick("compress error", 0, 1) == 1 {
				return 0, io.EOF
			}
			return 0, errCompress
		}
		return 1, nil
	}
	reported := false
	for r := range g.StartChecksumGeneration(&stream{data: sym.Bytes("data", n), end: io.EOF}, 2, fn) {
		sym.Assert(r.Filechecksum == nil, "a checksum of the whole input was delivered although a block could not be compressed")
		reported = reported || r.Err != nil
	}
	sym.Assert(reported, "a block could not be compressed, but no error was delivered")
	sym.Reach("compression failure")
}

// IndexFault builds an index from an input that fails to read.
func IndexFault() {
	bs := sym.Pick("blocksize", 1, 2)
	n := sym.Pick("length", 0, sym.Bound(4, 6))
	s := &stream{data: sym.Bytes("data", n), end: fault("error"), with: sym.Pick("with", 0, 1) == 1}
	_, _, _, err := indexbuilder.BuildChecksumIndex(filechecksum.NewFileChecksumGenerator(uint(bs)), s)
	sym.Assert(err != nil, "the input failed to read, but an index was built without an error")
}

// Many generates the checksums of more blocks than GenerateChecksums takes at
// a time, of an input or to an output that may fail.
func Many() {
	bs := 1
	n := []int{63, 64, 65, 127, 128, 129}[sym.Pick("length", 0, 5)]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i)
	}
	copy(data[62:], sym.Bytes("data", 2))
	copy(data[n-1:], sym.Bytes("last", 1))
	s := &stream{data: data, end: io.EOF, with: sym.Pick("with", 0, 1) == 1}
	w := &sink{failAt: -1}
	failing := sym.Pick("failing", 0, 3)
	switch failing {
	case 1:
		s.end = fault("error")
	case 2:
		w.failAt = sym.Pick("failing at", 0, 3)*320 + sym.Pick("bytes", 0, 5)*4
		if w.failAt >= 20*n {
			failing = 0
		}
	}
	g := filechecksum.NewFileChecksumGenerator(uint(bs))
	if failing == 3 {
		s.end = fault("error")
		_, _, _, err := indexbuilder.BuildChecksumIndex(g, s)
		sym.Assert(err != nil, "the input failed to read, but an index was built without an error")
		sym.Reach("no index")
		return
	}
	sum, err := g.GenerateChecksums(s, w)
	if failing != 0 {
		sym.Assert(err != nil, "an input or output failed, but no error was reported")
		sym.Assert(sum == nil, "a checksum of the whole input was returned although an input or output failed")
		sym.Reach("failure")
		return
	}
	sym.Assert(err == nil, "an error was reported without a failure")
	sym.Assert(sym.BytesEq(sum, fileOf(data)), "the checksum of the whole input is wrong")
	sym.Assert(sym.BytesEq(w.Bytes(), expected(data, bs)), "the checksums written are wrong")
	sym.Reach("complete")
}
