package c19

import (
	"io"
	"net/http"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/zzverif/big"
	"github.com/Redundancy/go-sync/zzverif/env"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// Large fetches long ranges.
func Large() {
	n := []int{255, 256, 512, 513, 4097, 65536, 70000, 1<<20 + 1}[sym.Pick("length", 0, sym.Bound(6, 7))]
	size := n + []int{0, -1, 1, -255, 256, -256, 65536, -65536}[sym.Pick("more", 0, 7)]
	if size < 0 {
		sym.Stop()
	}
	res := &ranges{start: []int64{[]int64{0, 1 << 40}[sym.Pick("start", 0, 1)]}, length: []int64{int64(n)}}
	s := &server{res: res}
	env.UseTransport(s)
	data := big.Bytes(size)
	if size > 0 {
		data[[]int{0, size / 2, size - 1}[sym.Pick("at", 0, 2)]] = sym.Byte("data")
	}
	s.reply = func(k int, r *http.Request) (*http.Response, error) {
		b := &body{data: data, fin: io.EOF, with: sym.Pick("with", 0, 1) == 1}
		resp := &http.Response{StatusCode: 206, Header: http.Header{}, Body: b, Request: r, ContentLength: -1}
		if sym.Pick("length known", 0, 1) == 1 {
			resp.ContentLength = int64(size)
		}
		return resp, nil
	}
	src := blocksources.NewHttpBlockSource("http://example.org/file", 1, res, nil)
	sym.Assert(src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: 0, EndBlock: 0, BlockSize: 1}) == nil, "a running source refused a request")
	select {
	case r := <-src.GetResultChannel():
		sym.Assert(size == n, "a reply that is not what was asked for was accepted")
		sym.Assert(r.StartBlock == 0 && len(r.Data) == n && sym.BytesEq(r.Data, data), "the body was changed")
		sym.Assert(src.ReadBytes() == int64(n), "the bytes read are not those fetched")
		sym.Reach("delivered")
	case err := <-src.EncounteredError():
		sym.Assert(err != nil && size != n, "a correct reply was not accepted")
	}
	src.Close()
}
