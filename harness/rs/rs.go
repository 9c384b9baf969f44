// Package rs checks patching as a whole through RSync: C01, C02, C24, C27.
package rs

import (
	"bytes"
	"crypto/md5"
	"errors"
	"io"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/indexbuilder"
	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/zzverif/env"
	"github.com/Redundancy/go-sync/zzverif/fail"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// summary is a file summary made straight from the reference.
type summary struct {
	data         []byte
	bs           int
	weak, strong [][]byte
	noMatch      bool
}

func newSummary(data []byte, bs int) *summary {
	s := &summary{data: data, bs: bs}
	for i := 0; i < len(data); i += bs {
		e := i + bs
		if e > len(data) {
			e = len(data)
		}
		g := filechecksum.NewFileChecksumGenerator(uint(bs))
		g.WeakRollingHash.SetBlock(data[i:e])
		w := make([]byte, g.WeakRollingHash.Size())
		g.WeakRollingHash.GetSum(w)
		g.StrongHash.Write(data[i:e])
		s.weak = append(s.weak, w)
		s.strong = append(s.strong, g.StrongHash.Sum(nil))
	}
	return s
}

func (s *summary) GetBlockSize() uint  { return uint(s.bs) }
func (s *summary) GetBlockCount() uint { return uint(len(s.weak)) }
func (s *summary) GetFileSize() int64  { return int64(len(s.data)) }
func (s *summary) FindWeakChecksum2(c []byte) interface{} {
	any := false
	for _, w := range s.weak {
		any = sym.Or(any, sym.BytesEq(c, w))
	}
	if any {
		return append([]byte{}, c...)
	}
	return nil
}
func (s *summary) FindStrongChecksum2(c []byte, weak interface{}) []chunks.ChunkChecksum {
	var l []chunks.ChunkChecksum
	for i := range s.weak {
		if sym.And(sym.BytesEq(weak.([]byte), s.weak[i]), sym.BytesEq(c, s.strong[i])) {
			l = append(l, chunks.ChunkChecksum{ChunkOffset: uint(i), WeakChecksum: s.weak[i], StrongChecksum: s.strong[i]})
		}
	}
	return l
}
func (s *summary) GetStrongChecksumForBlock(k int) []byte {
	if k < 0 || k >= len(s.strong) {
		return nil
	}
	return s.strong[k]
}

// source delivers blocks at once and records what was asked for.
type source struct {
	data      []byte
	bs        int
	results   chan patcher.BlockReponse
	errors    chan error
	requested []bool
	again     bool // a block may be requested more than once
}

func newSource(data []byte, bs int) *source {
	return &source{data: data, bs: bs, results: make(chan patcher.BlockReponse, 16), errors: make(chan error, 1),
		requested: make([]bool, (len(data)+bs-1)/bs)}
}

func (s *source) RequestBlocks(m patcher.MissingBlockSpan) error {
	lo, hi := int(m.StartBlock)*s.bs, (int(m.EndBlock)+1)*s.bs
	if hi > len(s.data) {
		hi = len(s.data)
	}
	sym.Assert(m.StartBlock <= m.EndBlock && lo < hi, "blocks outside of the reference are requested")
	for i := m.StartBlock; i <= m.EndBlock; i++ {
		sym.Assert(int(i) < len(s.requested), "blocks outside of the reference are requested")
		sym.Assert(s.again || !s.requested[i], "a block is requested twice")
		s.requested[i] = true
	}
	s.results <- patcher.BlockReponse{StartBlock: m.StartBlock, Data: append([]byte{}, s.data[lo:hi]...)}
	return nil
}
func (s *source) GetResultChannel() <-chan patcher.BlockReponse { return s.results }
func (s *source) EncounteredError() <-chan error                { return s.errors }

func letters(name string, n, k int) []byte {
	b := sym.Bytes(name, n)
	for i := range b {
		sym.Assume(int(b[i]) < k)
	}
	return b
}

func bytesOf(name string, n int) []byte { return sym.Bytes(name, n) }

func check(err error, out, ref []byte) {
	sym.Assert(err == nil, "patching failed without a failure")
	sym.Assert(len(out) == len(ref), "the output has another length than the reference")
	sym.Assert(sym.BytesEq(out, ref), "the output differs from the reference")
	sym.Observe("out", out)
}

// Sections compares a local file that has kept its place with the reference.
func Sections() {
	c := sym.Pick("concurrency", 1, 3)
	gosync.DefaultConcurrency = c
	bs := sym.Pick("blocksize", 1, 3)
	n := sym.Pick("length", 1, sym.Bound(5, 7))
	m := sym.Pick("local length", 0, sym.Bound(5, 7))
	ref := letters("reference", n, 2)
	loc := letters("local", m, 2)
	src := newSource(ref, bs)
	var out bytes.Buffer
	r := &gosync.RSync{Input: bytes.NewReader(loc), Source: src, Output: &out, Summary: newSummary(ref, bs)}
	err := r.Patch()
	check(err, out.Bytes(), ref)
	env.InPlace(src.requested, ref, loc, bs)
	if c > 1 {
		sym.Reach("several sections")
	}
}

// Wide compares a longer local file that differs from the reference in a
// byte somewhere and in its length, in many sections.
func Wide() {
	c := sym.Pick("concurrency", 2, sym.Bound(5, 8))
	gosync.DefaultConcurrency = c
	bs := sym.Pick("blocksize", 1, 3)
	n := sym.Pick("length", 5, sym.Bound(14, 20))
	ref := make([]byte, n)
	for i := range ref {
		ref[i] = byte(7 * i)
	}
	loc := append([]byte{}, ref...)
	loc[sym.Pick("changed at", 0, n-1)] = sym.Byte("changed")
	if d := sym.Pick("longer by", -1, 1); d < 0 {
		loc = loc[:n+d]
	} else {
		loc = append(loc, make([]byte, d)...)
	}
	src := newSource(ref, bs)
	var out bytes.Buffer
	r := &gosync.RSync{Input: bytes.NewReader(loc), Source: src, Output: &out, Summary: newSummary(ref, bs)}
	err := r.Patch()
	check(err, out.Bytes(), ref)
	env.InPlace(src.requested, ref, loc, bs)
	if c > 3 {
		sym.Reach("many sections")
	}
}

// Patch recreates any reference from any local file.
func Patch() {
	gosync.DefaultConcurrency = sym.Pick("concurrency", 1, 2)
	bs := sym.Pick("blocksize", 1, 3)
	n := sym.Pick("length", 0, sym.Bound(4, 6))
	m := sym.Pick("local length", 0, sym.Bound(4, 6))
	ref, loc := bytesOf("reference", n), bytesOf("local", m)
	src := newSource(ref, bs)
	var out bytes.Buffer
	r := &gosync.RSync{Input: bytes.NewReader(loc), Source: src, Output: &out, Summary: newSummary(ref, bs)}
	err := r.Patch()
	check(err, out.Bytes(), ref)
	for _, q := range src.requested {
		if !q {
			sym.Reach("block found")
		} else {
			sym.Reach("block fetched")
		}
	}
	if n%bs != 0 && m > n {
		sym.Reach("short last block")
	}
}

// Long recreates a reference from a local file that is longer.
func Long() {
	gosync.DefaultConcurrency = sym.Pick("concurrency", 1, 2)
	bs := sym.Pick("blocksize", 2, 3)
	n := sym.Pick("length", 1, sym.Bound(4, 5))
	m := n + sym.Pick("longer by", 1, sym.Bound(4, 6))
	ref, loc := letters("reference", n, 2), letters("local", m, 2)
	src := newSource(ref, bs)
	var out bytes.Buffer
	r := &gosync.RSync{Input: bytes.NewReader(loc), Source: src, Output: &out, Summary: newSummary(ref, bs)}
	check(r.Patch(), out.Bytes(), ref)
	if n%bs != 0 && !src.requested[n/bs] {
		sym.Reach("short last block found")
	}
}

// Full runs with the index, verifier and block source of the library.
func Full() {
	gosync.DefaultConcurrency = 1
	bs := 2
	n := sym.Pick("length", 0, sym.Bound(3, 5))
	m := sym.Pick("local length", 1, sym.Bound(2, 4))
	ref, loc := letters("reference", n, 2), letters("local", m, 2)
	g := filechecksum.NewFileChecksumGenerator(uint(bs))
	_, idx, lookup, err := indexbuilder.BuildChecksumIndex(g, bytes.NewReader(ref))
	sym.Assert(err == nil, "building the index failed")
	res := blocksources.MakeFileSizedBlockResolver(uint64(bs), int64(n))
	src := blocksources.NewReadSeekerBlockSource(bytes.NewReader(ref), res)
	var out bytes.Buffer
	r := &gosync.RSync{Input: bytes.NewReader(loc), Source: src, Output: &out, Summary: &gosync.BasicSummary{
		BlockSize: uint(bs), BlockCount: uint((n + bs - 1) / bs), FileSize: int64(n), ChecksumIndex: idx, ChecksumLookup: lookup}}
	err = r.Patch()
	check(err, out.Bytes(), ref)
	sym.Reach("patched")
}

// requester fetches from the reference and misbehaves once.
type requester struct {
	data  []byte
	bad   int
	wrong func(data []byte) ([]byte, error)
	calls int
}

func (q *requester) DoRequest(lo, hi int64) ([]byte, error) {
	d := append([]byte{}, q.data[lo:hi]...)
	q.calls++
	if q.calls-1 == q.bad {
		return q.wrong(d)
	}
	return d, nil
}
func (q *requester) IsFatal(err error) bool { return true }

var errFetch = errors.New("fetching failed")

// Altered lets one fetch fail or return other data.
func Altered() {
	gosync.DefaultConcurrency = 1
	bs := sym.Pick("blocksize", 1, 2)
	n := sym.Pick("length", 1, sym.Bound(3, 5))
	ref, loc := letters("reference", n, 2), letters("local", sym.Pick("local length", 0, sym.Bound(2, 3)), 2)
	sum := newSummary(ref, bs)
	q := &requester{data: ref, bad: sym.Pick("bad request", 0, 1)}
	failing := false
	q.wrong = func(d []byte) ([]byte, error) {
		switch sym.Pick("kind", 0, 2) {
		case 0:
			failing = true
			sym.Reach("fetch failed")
			return d, fail.Of(errFetch)
		case 1:
			sym.Reach("other data")
			return sym.Bytes("data", len(d)), nil
		}
		k := sym.Pick("data length", 0, len(d)+2)
		if k == len(d) {
			sym.Stop()
		}
		sym.Reach("other length")
		return append(d, sym.Bytes("more", 2)...)[:k], nil
	}
	src := blocksources.NewBlockSourceBase(q, blocksources.MakeFileSizedBlockResolver(uint64(bs), int64(n)),
		&filechecksum.HashVerifier{Hash: md5.New(), BlockSize: uint(bs), BlockChecksumGetter: sum}, 2, 1000)
	var out bytes.Buffer
	r := &gosync.RSync{Input: bytes.NewReader(loc), Source: src, Output: &out, Summary: sum}
	if err := r.Patch(); err == nil {
		sym.Assert(!failing, "a fetch failed, but patching reported success")
		sym.Assert(sym.BytesEq(out.Bytes(), ref), "patching reported success, but the output differs from the reference")
		sym.Reach("success")
	} else {
		sym.Assert(q.calls > q.bad, "patching failed without a failure")
		sym.Reach("error")
	}
}

var errSeek = errors.New("seek failure")
var errRead = errors.New("read failure")
var errWrite = errors.New("write failure")

// input is a local file that misbehaves once it has been compared, or always.
type input struct {
	data    []byte
	pos     int64
	failAt  int  // reading at this offset fails, -1 never
	seqOnly bool // only while the file is copied from
	noSeek  bool
	cut     int // length once the file is copied from, -1 unchanged
	copying bool
}

func (f *input) end() ([]byte, error) {
	d, fin := f.data, io.EOF
	if f.copying && f.cut >= 0 {
		d = d[:f.cut]
	}
	if f.failAt >= 0 && f.failAt <= len(d) && (f.copying || !f.seqOnly) {
		d, fin = d[:f.failAt], errRead
	}
	return d, fin
}

func (f *input) ReadAt(p []byte, off int64) (int, error) {
	d, fin := f.end()
	if off >= int64(len(d)) {
		return 0, fin
	}
	n := copy(p, d[off:])
	if n < len(p) {
		return n, fin
	}
	return n, nil
}

func (f *input) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	f.copying = true
	d, fin := f.end()
	if f.pos >= int64(len(d)) {
		return 0, fin
	}
	n := copy(p, d[f.pos:])
	f.pos += int64(n)
	return n, nil
}

func (f *input) Seek(off int64, whence int) (int64, error) {
	if f.noSeek {
		return 0, fail.Of(errSeek)
	}
	switch whence {
	case 1:
		off += f.pos
	case 2:
		off += int64(len(f.data))
	}
	f.pos = off
	return off, nil
}

type sink struct {
	data   []byte
	failAt int
}

func (w *sink) Write(p []byte) (int, error) {
	if k := w.failAt - len(w.data); w.failAt >= 0 && len(p) > k {
		w.data = append(w.data, p[:k]...)
		return k, fail.Of(errWrite)
	}
	w.data = append(w.data, p...)
	return len(p), nil
}

// Faults breaks the local file or the output.
func Faults() {
	gosync.DefaultConcurrency = sym.Pick("concurrency", 1, 2)
	bs := sym.Pick("blocksize", 1, 3)
	n := sym.Pick("length", 1, sym.Bound(4, 5))
	m := sym.Pick("local length", 1, sym.Bound(4, 5))
	ref, loc := letters("reference", n, 2), letters("local", m, 2)
	src := newSource(ref, bs)
	in := &input{data: loc, failAt: -1, cut: -1}
	w := &sink{failAt: -1}
	fault := sym.Pick("fault", 0, 4)
	switch fault {
	case 0:
		in.noSeek = true
		in.pos = int64(sym.Pick("position", 0, m))
	case 1:
		in.failAt = sym.Pick("failing at", 0, m)
		sym.Reach("read fails")
	case 2:
		in.failAt = sym.Pick("failing at", 0, m)
		in.seqOnly = true
	case 3:
		in.cut = sym.Pick("cut", 0, m-1)
	case 4:
		w.failAt = sym.Pick("output fails at", 0, n-1)
	}
	r := &gosync.RSync{Input: in, Source: src, Output: w, Summary: newSummary(ref, bs)}
	if err := r.Patch(); err == nil {
		sym.Assert(fault != 4, "the output failed to write, but patching reported success")
		sym.Assert(sym.BytesEq(w.data, ref), "patching reported success, but the output differs from the reference")
		sym.Reach("success")
	} else {
		sym.Reach([]string{"seek fails", "reading failed", "copying fails", "local file is shorter", "output fails"}[fault])
	}
}

// once is an output that fails to write once.
type once struct {
	sink
}

func (w *once) Write(p []byte) (int, error) {
	n, err := w.sink.Write(p)
	if err != nil {
		w.failAt = -1
	}
	return n, err
}

// Again patches once more after a patch that failed or not.
func Again() {
	gosync.DefaultConcurrency = 1
	bs := sym.Pick("blocksize", 1, 2)
	n := sym.Pick("length", 1, sym.Bound(3, 4))
	m := sym.Pick("local length", 1, sym.Bound(3, 4))
	ref, loc := letters("reference", n, 2), letters("local", m, 2)
	src := newSource(ref, bs)
	src.again = true
	in := &input{data: loc, failAt: -1, cut: -1}
	w := &once{sink{failAt: -1}}
	fault := sym.Pick("fault", 0, 4)
	switch fault {
	case 1:
		in.noSeek = true
	case 2:
		in.failAt = sym.Pick("failing at", 0, m)
	case 3:
		in.failAt = sym.Pick("failing at", 0, m)
		in.seqOnly = true
	case 4:
		w.failAt = sym.Pick("output fails at", 0, n-1)
	}
	r := &gosync.RSync{Input: in, Source: src, Output: w, Summary: newSummary(ref, bs)}
	first := r.Patch()
	if first == nil {
		sym.Assert(sym.BytesEq(w.data, ref), "patching reported success, but the output differs from the reference")
	}
	// whatever it was is over
	in.noSeek, in.failAt, in.copying = false, -1, false
	w.failAt = -1
	if err := r.Patch(); err == nil {
		sym.Assert(sym.BytesEq(w.data, ref), "patching again reported success, but the output differs from the reference")
		sym.Reach("patched at last")
	} else if first == nil {
		sym.Reach("patched before")
	} else {
		sym.Reach("failed twice")
	}
}

// fetcher fetches from the reference and records what it is asked for.
type fetcher struct {
	data   []byte
	ranges [][2]int
}

func (q *fetcher) DoRequest(lo, hi int64) ([]byte, error) {
	q.ranges = append(q.ranges, [2]int{int(lo), int(hi)})
	sym.Assert(lo >= 0 && lo < hi && int(hi) <= len(q.data), "a range outside of the reference is fetched")
	return append([]byte{}, q.data[lo:hi]...), nil
}
func (q *fetcher) IsFatal(err error) bool { return true }

// Fetches: C35, what a patch fetches.
func Fetches() {
	c := sym.Pick("concurrency", 1, 3)
	gosync.DefaultConcurrency = c
	same := sym.Pick("same", 0, 1) == 1
	most := 4
	if same {
		most = 8
	}
	bs := sym.Pick("blocksize", 1, most)
	most = sym.Bound(5, 7)
	if same {
		most = bs + sym.Bound(4, 8)
	}
	n := sym.Pick("length", 1, most)
	ref := letters("reference", n, 2)
	loc := ref
	if !same {
		loc = letters("local", sym.Pick("local length", 0, sym.Bound(5, 7)), 2)
	}
	sum := newSummary(ref, bs)
	q := &fetcher{data: ref}
	src := blocksources.NewBlockSourceBase(q, blocksources.MakeFileSizedBlockResolver(uint64(bs), int64(n)),
		&filechecksum.HashVerifier{Hash: md5.New(), BlockSize: uint(bs), BlockChecksumGetter: sum}, 2, 1000)
	var out bytes.Buffer
	r := &gosync.RSync{Input: bytes.NewReader(loc), Source: src, Output: &out, Summary: sum}
	check(r.Patch(), out.Bytes(), ref)
	fetched := make([]bool, len(sum.weak))
	total := 0
	for _, f := range q.ranges {
		sym.Assert(f[0]%bs == 0 && (f[1]%bs == 0 || f[1] == n), "a part of a block is fetched")
		for b := f[0] / bs; b*bs < f[1]; b++ {
			sym.Assert(!fetched[b], "a block is fetched twice")
			fetched[b] = true
		}
		total += f[1] - f[0]
	}
	sym.Assert(int(src.ReadBytes()) == total, "the bytes read are not those fetched")
	if same {
		sym.Assert(total == 0, "something is fetched although the local file is the reference")
		sym.Reach("nothing to fetch")
		return
	}
	if c > 1 {
		env.InPlace(fetched, ref, loc, bs)
		return
	}
	// a byte by byte scan of what there is of the local file
	for pos := 0; pos < len(loc); {
		next := pos + 1
		for b := range fetched {
			hi := b*bs + bs
			if hi > n {
				hi = n
			}
			k := hi - b*bs
			if (k == bs && pos+k <= len(loc) || pos+k == len(loc)) && sym.BytesEq(ref[b*bs:hi], loc[pos:pos+k]) {
				sym.Assert(!fetched[b], "a block is fetched although the local file has it")
				sym.Reach("found")
				next = pos + k
			}
		}
		pos = next
	}
	if total > 0 && total < n {
		sym.Reach("a part is fetched")
	}
}
