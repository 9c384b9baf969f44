// Package c19 checks fetching byte ranges over HTTP.
package c19

import (
	"errors"
	"fmt"
	"io"
	"net/http"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/zzverif/env"
	"github.com/Redundancy/go-sync/zzverif/fail"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

var errTransport = errors.New("transport failure")
var errBody = errors.New("body failure")

// body delivers data in pieces and then ends with fin.
type body struct {
	data   []byte
	fin    error
	gaps   int
	with   bool
	closed bool
}

func (b *body) Read(p []byte) (int, error) {
	if b.closed {
		return 0, errBody
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(b.data) == 0 {
		return 0, b.fin
	}
	n := len(p)
	if n > len(b.data) {
		n = len(b.data)
	}
	if n > 1 && b.gaps > 0 {
		b.gaps--
		n = sym.Pick("chunk", 1, n)
	}
	copy(p, b.data[:n])
	b.data = b.data[n:]
	if len(b.data) == 0 && b.with {
		return n, b.fin
	}
	return n, nil
}

func (b *body) Close() error {
	b.closed = true
	return nil
}

// ranges resolves block 0 to one range and every other block to another.
type ranges struct{ start, length []int64 }

func (r *ranges) GetBlockStartOffset(b uint) int64 { return r.start[b] }
func (r *ranges) GetBlockEndOffset(b uint) int64   { return r.start[b] + r.length[b] }
func (r *ranges) SplitBlockRangeToDesiredSize(a, b uint) []blocksources.QueuedRequest {
	return []blocksources.QueuedRequest{{StartBlockID: a, EndBlockID: b}}
}

type server struct {
	res   *ranges
	calls int
	reply func(k int, r *http.Request) (*http.Response, error)
}

func (s *server) RoundTrip(r *http.Request) (*http.Response, error) {
	k := s.calls
	s.calls++
	sym.Assert(r.Method == "GET", "the request is no GET")
	sym.Assert(r.URL.Host == "example.org" && r.URL.Path == "/file", "another address is asked")
	want := fmt.Sprintf("bytes=%v-%v", s.res.start[k], s.res.start[k]+s.res.length[k]-1)
	h := r.Header["Range"]
	sym.Assert(len(h) == 1 && h[0] == want, "another range is asked for")
	e := r.Header["Accept-Encoding"]
	sym.Assert(len(e) == 1 && e[0] == "identity", "the reply may be compressed")
	return s.reply(k, r)
}

var encodings = [][]string{nil, {"identity"}, {"gzip"}, {"GZIP"}, {"x-gzip"}, {"identity, gzip"}, {"identity", "gzip"}}

// Reply fetches one range with any reply of the server.
func Reply() {
	starts := []int64{0, 1, 9, 1 << 31, 1 << 40}
	res := &ranges{}
	res.start = append(res.start, starts[sym.Pick("start", 0, len(starts)-1)])
	n := sym.Pick("length", 1, sym.Bound(3, 5))
	res.length = append(res.length, int64(n))
	s := &server{res: res}
	env.UseTransport(s)
	var data []byte
	good := false
	s.reply = func(k int, r *http.Request) (*http.Response, error) {
		kind := sym.Pick("kind", 0, 4)
		if kind == 0 {
			sym.Reach("transport failed")
			return nil, fail.Of(errTransport)
		}
		status := 206
		b := &body{fin: io.EOF, gaps: 1, with: sym.Pick("with", 0, 1) == 1}
		size := n
		h := http.Header{}
		good = true
		switch kind {
		case 1:
			status = sym.Int("status", 100, 599)
			sym.Assume(status != 206)
			good = false
			sym.Reach("other status")
		case 2:
			enc := sym.Pick("encoding", 0, len(encodings)-1)
			if encodings[enc] != nil {
				h["Content-Encoding"] = encodings[enc]
			}
			if enc >= 2 {
				good = false
				sym.Reach("compressed")
			}
		case 3:
			size = sym.Pick("body length", 0, n+3)
			if size != n {
				good = false
				sym.Reach("other length")
			}
		case 4:
			// the body fails, after any number of bytes
			size = sym.Pick("body length", 0, n+1)
			b.fin = []error{errBody, io.ErrUnexpectedEOF}[sym.Pick("failure", 0, 1)]
			good = false
			sym.Reach("body failed")
		}
		data = sym.Bytes("data", size)
		b.data = data
		resp := &http.Response{StatusCode: status, Header: h, Body: b, Request: r, ContentLength: -1}
		if b.fin == io.EOF && sym.Pick("length known", 0, 1) == 1 {
			resp.ContentLength = int64(size)
		}
		return resp, nil
	}
	src := blocksources.NewHttpBlockSource("http://example.org/file", 1, res, nil)
	sym.Assert(src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: 0, EndBlock: 0, BlockSize: 1}) == nil, "a running source refused a request")
	select {
	case r := <-src.GetResultChannel():
		sym.Assert(good, "a reply that is not what was asked for was accepted")
		sym.Assert(s.calls == 1, "not exactly one request was made")
		sym.Assert(r.StartBlock == 0 && sym.BytesEq(r.Data, data), "the body was changed")
		sym.Reach("delivered")
		sym.Observe("data", r.Data)
	case err := <-src.EncounteredError():
		sym.Assert(err != nil && !good, "a correct reply was not accepted")
	}
	src.Close()
}

// Twice fetches two ranges: the second only depends on its own reply.
func Twice() {
	res := &ranges{start: []int64{4, 12}, length: []int64{int64(sym.Pick("length", 1, 2)), int64(sym.Pick("length", 1, 2))}}
	s := &server{res: res}
	env.UseTransport(s)
	var data [][]byte
	s.reply = func(k int, r *http.Request) (*http.Response, error) {
		d := sym.Bytes("data", int(res.length[k]))
		data = append(data, d)
		return &http.Response{StatusCode: 206, Header: http.Header{}, Body: &body{data: d, fin: io.EOF, gaps: 1}, Request: r, ContentLength: -1}, nil
	}
	src := blocksources.NewHttpBlockSource("http://example.org/file", 1, res, nil)
	var got [][]byte
	for k := uint(0); k < 2; k++ {
		sym.Assert(src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: k, EndBlock: k, BlockSize: 1}) == nil, "a running source refused a request")
		select {
		case r := <-src.GetResultChannel():
			sym.Assert(r.StartBlock == k, "the reply is for another request")
			got = append(got, r.Data)
		case <-src.EncounteredError():
			sym.Fail("a correct reply was not accepted")
		}
	}
	for k := range got {
		sym.Assert(sym.BytesEq(got[k], data[k]), "the body was changed")
	}
	sym.Reach("both delivered")
	src.Close()
}
