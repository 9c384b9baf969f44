// Package stub holds models of the parts of the standard library that the
// symbolic executor does not execute itself: MD5 (an ideal, collision-free
// hash), the HTTP client (hands the request to its transport) and the file
// system (an in-memory tree). Everything here is used only under the executor;
// natively the harnesses run against the real library.
package stub

import (
	"context"
	"errors"
	"hash"
	"io"
	"net/http"
	neturl "net/url"
	"strings"

	"github.com/Redundancy/go-sync/zzverif/sym"
)

type mdHash struct{ buf []byte }

func Md5New() hash.Hash { return &mdHash{} }

func (h *mdHash) Write(p []byte) (int, error) {
	h.buf = append(h.buf, p...)
	return len(p), nil
}
func (h *mdHash) Sum(b []byte) []byte { return append(b, digest(h.buf)...) }
func (h *mdHash) Reset()              { h.buf = nil }
func (h *mdHash) Size() int           { return 16 }
func (h *mdHash) BlockSize() int      { return 64 }

// digest is injective: the length and content for short messages, and for
// longer ones fresh symbols that are equal exactly if the messages are.
func digest(m []byte) []byte {
	if len(m) > 15 {
		return sym.Fresh(append([]byte{}, m...))
	}
	out := make([]byte, 16)
	out[0] = byte(len(m))
	copy(out[1:], m)
	return out
}

func Md5Sum(data []byte) [16]byte {
	var r [16]byte
	copy(r[:], digest(data))
	return r
}

// ---- HTTP ----

func ClientDo(c *http.Client, req *http.Request) (*http.Response, error) {
	t := c.Transport
	if t == nil {
		t = http.DefaultTransport
	}
	if req.Header == nil {
		req.Header = http.Header{}
	}
	resp, err := t.RoundTrip(req)
	if err != nil {
		return nil, &urlError{err}
	}
	if resp.Body == nil {
		resp.Body = http.NoBody
	}
	return resp, nil
}

type urlError struct{ err error }

func (e *urlError) Error() string { return "http: " + e.err.Error() }
func (e *urlError) Unwrap() error { return e.err }

func NewRequest(method, url string, body io.Reader) (*http.Request, error) {
	if method == "" {
		method = "GET"
	}
	u := &neturl.URL{}
	if i := strings.Index(url, "://"); i >= 0 {
		u.Scheme = url[:i]
		url = url[i+3:]
		i = strings.Index(url, "/")
		if i < 0 {
			i = len(url)
		}
		u.Host = url[:i]
		url = url[i:]
	}
	u.Path = url
	r := &http.Request{Method: method, URL: u, Host: u.Host, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}}
	if rc, ok := body.(io.ReadCloser); ok {
		r.Body = rc
	} else if body != nil {
		r.Body = io.NopCloser(body)
	}
	return r, nil
}

func NewRequestCtx(ctx context.Context, method, url string, body io.Reader) (*http.Request, error) {
	return NewRequest(method, url, body)
}

func ClientGet(c *http.Client, url string) (*http.Response, error) {
	r, err := NewRequest("GET", url, nil)
	if err != nil {
		return nil, err
	}
	return ClientDo(c, r)
}

// ---- errors ----

func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch u := err.(type) {
		case interface{ Unwrap() error }:
			err = u.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range u.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}

var errUnused = errors.New("unused")
