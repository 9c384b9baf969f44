// Package cmpr checks the comparer: C03, C04 and C23.
package cmpr

import (
	"errors"
	"io"
	"sync"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/rollsum"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// reference is an index built straight from the blocks.
type reference struct {
	simple       bool
	blocks       [][]byte
	weak, strong [][]byte
}

func (r *reference) add(b []byte) {
	var g filechecksum.RollingHash = rollsum.NewRollsum32Base(uint(len(b)))
	if r.simple {
		g = &xorHash{}
	}
	g.SetBlock(b)
	w := make([]byte, 4)
	g.GetSum(w)
	h := filechecksum.DefaultStrongHashGenerator()
	h.Write(b)
	r.blocks = append(r.blocks, b)
	r.weak = append(r.weak, w)
	r.strong = append(r.strong, h.Sum(nil))
}

func (r *reference) FindWeakChecksum2(c []byte) interface{} {
	any := false
	for _, w := range r.weak {
		any = sym.Or(any, sym.BytesEq(c, w))
	}
	if any {
		return append([]byte{}, c...)
	}
	return nil
}

func (r *reference) FindStrongChecksum2(c []byte, weak interface{}) []chunks.ChunkChecksum {
	w := weak.([]byte)
	var l []chunks.ChunkChecksum
	for i := range r.blocks {
		if sym.And(sym.BytesEq(w, r.weak[i]), sym.BytesEq(c, r.strong[i])) {
			l = append(l, chunks.ChunkChecksum{ChunkOffset: uint(i), WeakChecksum: r.weak[i], StrongChecksum: r.strong[i]})
		}
	}
	return l
}

// xorHash is a rolling hash with many collisions. It holds the comparer to the
// contract of filechecksum.RollingHash.
type xorHash struct {
	window []byte
	sum    byte
}

func (h *xorHash) Size() int { return 4 }
func (h *xorHash) AddByte(b byte) {
	h.window = append(h.window, b)
	h.sum ^= b
}
func (h *xorHash) RemoveByte(b byte, length int) {
	sym.Assert(length == len(h.window), "the rolling hash is told a wrong window length")
	h.sum ^= b
	h.window = h.window[1:]
}
func (h *xorHash) AddBytes(bs []byte) {
	for _, b := range bs {
		h.AddByte(b)
	}
}
func (h *xorHash) RemoveBytes(bs []byte, length int) {
	for _, b := range bs {
		h.RemoveByte(b, length)
		length--
	}
}
func (h *xorHash) AddAndRemoveBytes(add []byte, remove []byte, length int) {
	sym.Assert(length == len(h.window), "the rolling hash is told a wrong window length")
	k := len(add) - len(remove)
	for i, b := range add {
		if i >= k {
			h.sum ^= remove[i-k]
			h.window = h.window[1:]
		}
		h.AddByte(b)
	}
}
func (h *xorHash) SetBlock(b []byte) { h.Reset(); h.AddBytes(b) }
func (h *xorHash) Reset()            { h.window, h.sum = nil, 0 }
func (h *xorHash) GetSum(b []byte)   { b[0], b[1], b[2], b[3] = h.sum, 1, 2, 3 }

var errRead = errors.New("read failure")

// stream delivers data in pieces; a fault replaces its normal end at failAt.
type stream struct {
	data   []byte
	pos    int
	splits int
	with   bool  // the last bytes come together with the end
	failAt int   // fail once so many bytes were read; -1 never
	fail   error // what it fails with
	failed bool
}

func (s *stream) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	end := len(s.data)
	var fin error = io.EOF
	if s.failAt >= 0 && s.failAt <= end {
		end, fin = s.failAt, s.fail
	}
	n := end - s.pos
	if n == 0 {
		s.failed = fin != io.EOF
		return 0, fin
	}
	if n > len(p) {
		n = len(p)
	}
	if n > 1 && s.splits > 0 {
		s.splits--
		n = sym.Pick("chunk", 1, n)
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.with && s.pos == end {
		s.failed = fin != io.EOF
		return n, fin
	}
	return n, nil
}

type scan struct {
	b     int
	ref   *reference
	local []byte
	base  int64
}

// content is symbolic data: any bytes with the simple hash, small values with
// the real one (its sums make the queries hard).
func (s *scan) content(name string, n int) []byte {
	if s.ref.simple {
		return sym.Bytes(name, n)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(sym.Int(name, 0, 7)) * 36
	}
	return b
}

func setup(maxB, maxTail int) *scan {
	s := &scan{b: sym.Pick("blocksize", 1, maxB), ref: &reference{}}
	s.ref.simple = sym.Pick("simple hash", 0, 1) == 1
	n := sym.Pick("blocks", 1, sym.Bound(2, 3))
	for i := 0; i < n; i++ {
		k := s.b
		if i == n-1 {
			k = sym.Pick("last block", 1, s.b)
		}
		s.ref.add(s.content("reference", k))
	}
	s.local = s.content("local", sym.Pick("length", 0, s.b+maxTail))
	s.base = int64(sym.Int("base", 0, 1<<40))
	return s
}

func (s *scan) start(r io.Reader) <-chan comparer.BlockMatchResult {
	c := &comparer.Comparer{}
	g := filechecksum.NewFileChecksumGenerator(uint(s.b))
	if s.ref.simple {
		g.WeakRollingHash = &xorHash{}
	}
	return c.StartFindMatchingBlocks(r, s.base, g, s.ref)
}

// genuine: the reported block is the content at the reported place.
func (s *scan) genuine(m comparer.BlockMatchResult) {
	i := sym.Concretize(int(m.BlockIdx))
	sym.Assert(i < len(s.ref.blocks), "a block that does not exist is reported")
	b := s.ref.blocks[i]
	off := sym.Concretize(int(m.ComparisonOffset - s.base))
	sym.Assert(off >= 0 && off+len(b) <= len(s.local), "a match lies outside the local stream")
	sym.Assert(sym.BytesEq(b, s.local[off:off+len(b)]), "a reported match has other content")
	if len(b) < s.b {
		sym.Reach("short last block matched")
	}
}

func flavour() *stream {
	return &stream{failAt: -1, splits: sym.Bound(2, 3), with: sym.Pick("with", 0, 1) == 1}
}

// Genuine: C03.
func Genuine() {
	s := setup(sym.Bound(3, 4), sym.Bound(3, 4))
	r := flavour()
	r.data = s.local
	n := 0
	for m := range s.start(r) {
		n++
		sym.Assert(n < 60, "there is no end to the matches")
		if m.Err == nil {
			s.genuine(m)
			sym.Observe("match", int(m.BlockIdx), int(m.ComparisonOffset-s.base))
		}
	}
	if n > 1 {
		sym.Reach("several matches")
	}
}

// GenuineFault: C03 and C23 with a stream that breaks.
func GenuineFault() {
	s := setup(sym.Bound(3, 4), sym.Bound(3, 4))
	r := flavour()
	r.data = s.local
	r.failAt = sym.Pick("failing after", 0, len(s.local))
	r.fail = errRead
	if sym.Pick("kind", 0, 1) == 1 {
		r.fail = io.ErrUnexpectedEOF
	}
	n, errs := 0, 0
	for m := range s.start(r) {
		n++
		sym.Assert(n < 60, "the comparison does not end")
		if m.Err != nil {
			errs++
			continue
		}
		sym.Assert(errs == 0, "a match is reported after the failure")
		s.genuine(m)
	}
	sym.Assert(r.failed, "the comparison ended before it met the failure")
	sym.Assert(errs > 0, "the read failure is not reported")
	sym.Assert(errs == 1, "the read failure is reported more than once")
	sym.Reach("failure reported")
	if n > 1 {
		sym.Reach("matches before the failure")
	}
}

// Complete: C04 (and no error without a failure, C23).
func Complete() { complete(sym.Bound(3, 4), sym.Bound(3, 5)) }

// Sound is Complete with an eye on errors only: C23.
func Sound() {
	s := setup(sym.Bound(3, 4), sym.Bound(3, 4))
	r := flavour()
	r.data = s.local
	n := 0
	for m := range s.start(r) {
		n++
		sym.Assert(n < 60, "the comparison does not end")
		sym.Assert(m.Err == nil, "an error is reported without a failure")
	}
	sym.Assert(r.pos == len(s.local), "the stream is not read to its end")
}

func complete(maxB, maxTail int) {
	s := setup(maxB, maxTail)
	r := flavour()
	r.data = s.local
	// what was reported: count per offset and block
	got := map[int]int{}
	total := 0
	for m := range s.start(r) {
		total++
		sym.Assert(total < 60, "there is no end to the matches")
		if m.Err != nil {
			continue
		}
		off := sym.Concretize(int(m.ComparisonOffset - s.base))
		i := sym.Concretize(int(m.BlockIdx))
		got[off*16+i]++
		sym.Observe("match", i, off)
	}
	// a byte by byte scan
	for pos := 0; pos < len(s.local); {
		end := pos + s.b
		if end > len(s.local) {
			end = len(s.local)
		}
		hit := false
		for i, b := range s.ref.blocks {
			if len(b) != end-pos || !sym.BytesEq(b, s.local[pos:end]) {
				continue
			}
			hit = true
			k := got[pos*16+i]
			sym.Assert(k != 0, "a block of the reference is not found")
			sym.Assert(k == 1, "a match is reported more than once")
		}
		if hit {
			sym.Reach("block found")
			if end-pos < s.b {
				sym.Reach("tail found")
			}
			if len(s.local) < s.b {
				sym.Reach("stream shorter than a block")
			}
			pos = end
		} else {
			pos++
		}
	}
}

// counting is an index that counts what it is asked.
type counting struct {
	*reference
	mu                 sync.Mutex
	asked, weak, found int64
}

func (c *counting) FindWeakChecksum2(sum []byte) interface{} {
	r := c.reference.FindWeakChecksum2(sum)
	c.mu.Lock()
	defer c.mu.Unlock()
	c.asked++
	if r != nil {
		c.weak++
	}
	return r
}

func (c *counting) FindStrongChecksum2(sum []byte, weak interface{}) []chunks.ChunkChecksum {
	l := c.reference.FindStrongChecksum2(sum, weak)
	if len(l) > 0 {
		c.mu.Lock()
		c.found++
		c.mu.Unlock()
	}
	return l
}

func (c *counting) check(k *comparer.Comparer) {
	sym.Assert(k.Comparisons == c.asked, "the number of comparisons is wrong")
	sym.Assert(k.WeakHashHits == c.weak, "the number of weak hash hits is wrong")
	sym.Assert(k.StrongHashHits == c.found, "the number of strong hash hits is wrong")
	sym.Observe("counts", c.asked, c.weak, c.found)
}

// Counts: C32, for one stream, that may fail.
func Counts() {
	s := setup(sym.Bound(3, 3), sym.Bound(3, 4))
	r := flavour()
	r.data = s.local
	if sym.Pick("fails", 0, 1) == 1 {
		r.failAt, r.fail = sym.Pick("failing after", 0, len(s.local)), errRead
	}
	c := &counting{reference: s.ref}
	k := &comparer.Comparer{}
	g := filechecksum.NewFileChecksumGenerator(uint(s.b))
	if s.ref.simple {
		g.WeakRollingHash = &xorHash{}
	}
	offs := map[int]bool{}
	n := 0
	for m := range k.StartFindMatchingBlocks(r, s.base, g, c) {
		n++
		sym.Assert(n < 60, "the comparison does not end")
		if m.Err == nil {
			offs[sym.Concretize(int(m.ComparisonOffset-s.base))] = true
		} else {
			sym.Reach("failed")
		}
	}
	c.check(k)
	sym.Assert(int(k.StrongHashHits) == len(offs), "the number of strong hash hits is not the number of places with matches")
	if k.WeakHashHits > k.StrongHashHits {
		sym.Reach("weak hit only")
	}
	if n > len(offs) {
		sym.Reach("duplicate blocks")
	}
}

// CountsShared: C32, for several streams with one comparer at the same time.
func CountsShared() {
	ref := &reference{simple: true}
	ref.add([]byte{1, 2})
	ref.add([]byte{2})
	c := &counting{reference: ref}
	k := &comparer.Comparer{}
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		l := [][]byte{{}, {1}, {1, 2}, {2, 1}, {1, 2, 2}}[sym.Pick("stream", 0, 4)]
		g := filechecksum.NewFileChecksumGenerator(2)
		g.WeakRollingHash = &xorHash{}
		found := k.StartFindMatchingBlocks(&stream{data: l, failAt: -1}, 0, g, c)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for m := range found {
				sym.Assert(m.Err == nil, "an error is reported without a failure")
				sym.Reach("match")
			}
		}()
	}
	wg.Wait()
	c.check(k)
}
