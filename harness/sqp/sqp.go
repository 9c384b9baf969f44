// Package sqp checks the sequential patcher: C21 and C02.
package sqp

import (
	"bytes"
	"errors"
	"io"

	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/patcher/sequential"
	"github.com/Redundancy/go-sync/zzverif/fail"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

var errSeek = errors.New("seek failure")
var errRead = errors.New("read failure")
var errWrite = errors.New("write failure")
var errSource = errors.New("source failure")

// local is the local file.
type local struct {
	data     []byte
	pos      int64
	seekFail int // fail the k-th seek and all after it, -1 never
	seeks    int
	failAt   int // fail reading at this offset, -1 never
	gaps     int
	with     bool
}

func (f *local) Seek(off int64, whence int) (int64, error) {
	if f.seekFail >= 0 && f.seeks >= f.seekFail {
		return 0, fail.Of(errSeek)
	}
	f.seeks++
	switch whence {
	case 1:
		off += f.pos
	case 2:
		off += int64(len(f.data))
	}
	f.pos = off
	return off, nil
}

func (f *local) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	end := len(f.data)
	fin := io.EOF
	if f.failAt >= 0 && f.failAt <= end {
		end = f.failAt
		fin = errRead
	}
	if f.pos >= int64(end) {
		return 0, fin
	}
	rest := f.data[f.pos:end]
	n := len(p)
	if n > len(rest) {
		n = len(rest)
	}
	if n > 1 && f.gaps > 0 {
		f.gaps--
		n = sym.Pick("chunk", 1, n)
	}
	copy(p, rest[:n])
	f.pos += int64(n)
	if n == len(rest) && f.with {
		return n, fin
	}
	return n, nil
}

// source answers requests through reply.
type source struct {
	asked   []patcher.MissingBlockSpan
	results chan patcher.BlockReponse
	errors  chan error
	reply   func(m patcher.MissingBlockSpan) error
}

func newSource() *source {
	return &source{results: make(chan patcher.BlockReponse, 8), errors: make(chan error, 8)}
}

func (s *source) RequestBlocks(m patcher.MissingBlockSpan) error {
	s.asked = append(s.asked, m)
	return s.reply(m)
}
func (s *source) GetResultChannel() <-chan patcher.BlockReponse { return s.results }
func (s *source) EncounteredError() <-chan error                { return s.errors }

// plan is a file of blocks, each with its origin.
type plan struct {
	bs, blocks, last int
	loc              *local
	ref              []byte
	found            []patcher.FoundBlockSpan
	missing          []patcher.MissingBlockSpan
}

func (p *plan) lo(b int) int { return b * p.bs }
func (p *plan) hi(b int) int {
	if b == p.blocks-1 {
		return b*p.bs + p.last
	}
	return (b + 1) * p.bs
}

// newPlan chooses the blocks and where they come from.
func newPlan(maxBlocks int, offsets int, exact bool) *plan {
	p := &plan{bs: sym.Pick("blocksize", 1, 2), blocks: sym.Pick("blocks", 1, maxBlocks)}
	p.last = sym.Pick("last size", 1, p.bs)
	p.ref = sym.Bytes("reference", p.hi(p.blocks-1))
	p.loc = &local{seekFail: -1, failAt: -1}
	room := make([]byte, offsets)
	prev := -1
	for b := 0; b < p.blocks; b++ {
		size := p.hi(b) - p.lo(b)
		kind := sym.Pick("origin", 0, 1)
		join := prev == kind && sym.Pick("join", 0, 1) == 1
		if kind == 0 {
			k := len(p.found) - 1
			if join && size == p.bs {
				// continues where the span before it ends
				p.found[k].EndBlock++
				p.loc.data = append(p.loc.data, p.ref[p.lo(b):p.hi(b)]...)
			} else if join && !exact {
				// the end of the local file cuts the last block
				p.found[k].EndBlock++
				p.loc.data = append(p.loc.data, p.ref[p.lo(b):p.hi(b)]...)
				sym.Reach("last block cut by the end of the local file")
			} else {
				p.loc.data = append(p.loc.data, room[:sym.Pick("space", 0, offsets)]...)
				s := patcher.FoundBlockSpan{StartBlock: uint(b), EndBlock: uint(b), BlockSize: int64(p.bs), MatchOffset: int64(len(p.loc.data))}
				if size < p.bs && exact {
					s.BlockSize = int64(size)
				}
				p.found = append(p.found, s)
				p.loc.data = append(p.loc.data, p.ref[p.lo(b):p.hi(b)]...)
			}
		} else {
			if join {
				p.missing[len(p.missing)-1].EndBlock++
			} else {
				p.missing = append(p.missing, patcher.MissingBlockSpan{StartBlock: uint(b), EndBlock: uint(b), BlockSize: int64(p.bs)})
			}
		}
		prev = kind
	}
	if exact {
		p.loc.data = append(p.loc.data, 7, 7, 7)
	}
	return p
}

func (p *plan) content(m patcher.MissingBlockSpan) []byte {
	return append([]byte{}, p.ref[p.lo(int(m.StartBlock)):p.hi(int(m.EndBlock))]...)
}

// Patch patches any file from any spans with a correct source.
func Patch() {
	p := newPlan(sym.Bound(4, 5), 1, sym.Pick("exact", 0, 1) == 1)
	p.loc.gaps = 1
	p.loc.with = sym.Pick("with", 0, 1) == 1
	p.loc.pos = 1
	s := newSource()
	s.reply = func(m patcher.MissingBlockSpan) error {
		s.results <- patcher.BlockReponse{StartBlock: m.StartBlock, Data: p.content(m)}
		return nil
	}
	var out bytes.Buffer
	err := sequential.SequentialPatcher(p.loc, s, p.missing, p.found, 1000, &out)
	sym.Assert(err == nil, "patching failed without a failure")
	sym.Assert(sym.BytesEq(out.Bytes(), p.ref), "the output is not the blocks in order")
	sym.Assert(len(s.asked) == len(p.missing), "the source was not asked for exactly the missing spans")
	for i, m := range s.asked {
		w := p.missing[i]
		sym.Assert(m.StartBlock == w.StartBlock && m.EndBlock == w.EndBlock && m.BlockSize == w.BlockSize, "the source was not asked for exactly the missing spans")
	}
	if len(p.found) > 1 && len(p.missing) > 1 {
		sym.Reach("mixed")
	}
	sym.Observe("out", out.Bytes())
}

// Gap takes a span away.
func Gap() {
	p := newPlan(sym.Bound(4, 5), 0, true)
	s := newSource()
	s.reply = func(m patcher.MissingBlockSpan) error {
		s.results <- patcher.BlockReponse{StartBlock: m.StartBlock, Data: p.content(m)}
		return nil
	}
	k := sym.Pick("gap", 0, p.blocks-2)
	if p.blocks < 2 {
		sym.Stop()
	}
	hit := false
	var f []patcher.FoundBlockSpan
	for _, x := range p.found {
		if int(x.StartBlock) <= k && k <= int(x.EndBlock) && int(x.EndBlock) < p.blocks-1 {
			hit = true
			continue
		}
		f = append(f, x)
	}
	var m []patcher.MissingBlockSpan
	for _, x := range p.missing {
		if int(x.StartBlock) <= k && k <= int(x.EndBlock) && int(x.EndBlock) < p.blocks-1 {
			hit = true
			continue
		}
		m = append(m, x)
	}
	if !hit {
		sym.Stop()
	}
	var out bytes.Buffer
	err := sequential.SequentialPatcher(p.loc, s, m, f, 1000, &out)
	sym.Assert(err != nil, "the spans leave a gap, but no error was returned")
	sym.Reach("gap")
}

// WrongReply lets the source answer one request wrongly.
func WrongReply() {
	p := newPlan(sym.Bound(3, 4), 0, true)
	if len(p.missing) == 0 {
		sym.Stop()
	}
	bad := sym.Pick("wrong reply", 0, len(p.missing)-1)
	kind := sym.Pick("kind", 0, 5)
	s := newSource()
	n := 0
	s.reply = func(m patcher.MissingBlockSpan) error {
		n++
		r := patcher.BlockReponse{StartBlock: m.StartBlock, Data: p.content(m)}
		if n-1 == bad {
			switch kind {
			case 0:
				b := uint(sym.Uint64("block"))
				sym.Assume(b != m.StartBlock)
				r.StartBlock = b
				sym.Reach("other block")
			case 1:
				// another length; only within the last block a short reply cannot be told
				l := sym.Pick("reply length", 0, len(r.Data)+2)
				if l == len(r.Data) || int(m.EndBlock) == p.blocks-1 && (l+p.bs-1)/p.bs == int(m.EndBlock-m.StartBlock)+1 {
					sym.Stop()
				}
				r.Data = append(r.Data, 9, 9)[:l]
				sym.Reach("other length")
			case 2:
				s.errors <- fail.Of(errSource)
				sym.Reach("source failed")
				return nil
			case 3:
				sym.Reach("request refused")
				return fail.Of(errSource)
			case 4:
				close(s.results)
				close(s.errors)
				sym.Reach("source closed")
				return nil
			case 5:
				close(s.results)
				close(s.errors)
				return fail.Of(errSource)
			}
		}
		s.results <- r
		return nil
	}
	var out bytes.Buffer
	err := sequential.SequentialPatcher(p.loc, s, p.missing, p.found, 1000, &out)
	sym.Assert(err != nil, "the source did not deliver what was asked for, but no error was returned")
}

type sink struct {
	data   []byte
	failAt int
}

func (w *sink) Write(p []byte) (int, error) {
	if k := w.failAt - len(w.data); w.failAt >= 0 && len(p) > k {
		w.data = append(w.data, p[:k]...)
		return k, fail.Of(errWrite)
	}
	w.data = append(w.data, p...)
	return len(p), nil
}

// Faults breaks the local file or the output.
func Faults() {
	p := newPlan(sym.Bound(3, 4), 1, true)
	s := newSource()
	s.reply = func(m patcher.MissingBlockSpan) error {
		s.results <- patcher.BlockReponse{StartBlock: m.StartBlock, Data: p.content(m)}
		return nil
	}
	w := &sink{failAt: -1}
	size := len(p.loc.data)
	must := false
	switch sym.Pick("fault", 0, 3) {
	case 0:
		if len(p.found) == 0 {
			sym.Stop()
		}
		p.loc.seekFail = sym.Pick("failing seek", 0, len(p.found)-1)
		p.loc.pos = int64(sym.Pick("position", 0, 1))
		sym.Reach("seek fails")
	case 1:
		p.loc.failAt = sym.Pick("failing at", 0, size)
		p.loc.with = sym.Pick("with", 0, 1) == 1
		sym.Reach("read fails")
	case 2:
		p.loc.data = p.loc.data[:sym.Pick("cut", 0, size)]
		// the patcher cannot know how long the last block should be
		if k := len(p.found) - 1; k >= 0 && int(p.found[k].EndBlock) == p.blocks-1 {
			first := int(p.found[k].StartBlock)
			limit := 0
			if first < p.blocks-1 {
				limit = int(p.found[k].MatchOffset) + p.lo(p.blocks-1) - p.lo(first)
			} else if k > 0 {
				l := p.found[k-1]
				limit = int(l.MatchOffset) + p.hi(int(l.EndBlock)) - p.lo(int(l.StartBlock))
			}
			if len(p.loc.data) >= limit {
				sym.Stop()
			}
		}
		sym.Reach("local file is shorter")
	case 3:
		w.failAt = sym.Pick("output fails at", 0, len(p.ref)-1)
		must = true
		sym.Reach("output fails")
	}
	err := sequential.SequentialPatcher(p.loc, s, p.missing, p.found, 1000, w)
	if must {
		sym.Assert(err != nil, "the output failed to write, but no error was returned")
	}
	if err == nil {
		sym.Assert(sym.BytesEq(w.data, p.ref), "success was reported with wrong output")
		sym.Reach("unharmed")
	}
}
