// Package env is the environment harnesses put the code into.
package env

import (
	"bytes"
	"errors"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"github.com/Redundancy/go-sync/zzverif/stub"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// Server answers ranged requests from a file.
type Server struct {
	Data     []byte
	Requests int
	FailAt   int // the request that fails, 0 for none
	How      int // 0 no reply, 1 an error status, 2 a cut reply, 3 another byte
	Open     int // replies whose body was not closed yet
	Ranges   [][2]int

	Index     []byte // replies to requests for an index, with a status
	IndexCode int
	IndexHead int // the index arrives in two pieces, the first of this length

	Asked func() // called with each request for data, may be nil

	mu sync.Mutex
}

type body struct {
	io.Reader
	s      *Server
	closed bool
}

func (b *body) Close() error {
	b.s.mu.Lock()
	defer b.s.mu.Unlock()
	if !b.closed {
		b.closed = true
		b.s.Open--
	}
	return nil
}

func (s *Server) reply(r *http.Request, code int, status string, data []byte) *http.Response {
	s.Open++
	return &http.Response{StatusCode: code, Status: status, Header: http.Header{},
		Body: &body{Reader: bytes.NewReader(data), s: s}, Request: r}
}

// OpenReplies counts the replies whose body was not closed.
func (s *Server) OpenReplies() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.Open
}

func (s *Server) RoundTrip(r *http.Request) (*http.Response, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if strings.HasSuffix(r.URL.Path, ".gosync") {
		if s.IndexCode == 0 {
			return nil, errors.New("no connection")
		}
		reply := s.reply(r, s.IndexCode, strconv.Itoa(s.IndexCode), s.Index)
		if h := s.IndexHead; h > 0 && h < len(s.Index) {
			reply.Body.(*body).Reader = io.MultiReader(bytes.NewReader(s.Index[:h]), bytes.NewReader(s.Index[h:]))
		}
		return reply, nil
	}
	s.Requests++
	if s.Asked != nil {
		s.Asked()
	}
	spec := strings.TrimPrefix(r.Header.Get("Range"), "bytes=")
	k := strings.Index(spec, "-")
	if k < 0 {
		return nil, errors.New("no range")
	}
	lo, err := strconv.Atoi(spec[:k])
	if err != nil {
		return nil, err
	}
	hi, err := strconv.Atoi(spec[k+1:])
	if err != nil {
		return nil, err
	}
	if lo > hi || lo >= len(s.Data) {
		return s.reply(r, 416, "416 Range Not Satisfiable", nil), nil
	}
	if hi >= len(s.Data) {
		hi = len(s.Data) - 1
	}
	data := s.Data[lo : hi+1]
	if s.Requests == s.FailAt {
		switch s.How {
		case 0:
			return nil, errors.New("no connection")
		case 1:
			return s.reply(r, 500, "500 Internal Server Error", []byte("sorry")), nil
		case 2:
			data = data[:len(data)-1]
		case 3:
			data = append([]byte{}, data...)
			data[len(data)-1] ^= 1
		}
	}
	s.Ranges = append(s.Ranges, [2]int{lo, hi + 1})
	return s.reply(r, 206, "206 Partial Content", data), nil
}

// Serve makes every HTTP client talk to a new server.
func Serve(data []byte) *Server {
	s := &Server{Data: data}
	UseTransport(s)
	return s
}

var useClient []func(c *http.Client)

// UseTransport replaces the HTTP clients.
func UseTransport(t http.RoundTripper) {
	http.DefaultTransport = t
	http.DefaultClient = &http.Client{Transport: t}
	for _, f := range useClient {
		f(http.DefaultClient)
	}
}

// Put writes a file.
func Put(name string, data []byte) {
	if os.WriteFile(name, data, 0644) != nil {
		sym.Fail("cannot write a file")
	}
}

// Get reads a file, nil if that fails.
func Get(name string) []byte {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil
	}
	return b
}

// List names the files and directories in the working directory, sorted.
func List() []string {
	if sym.Symbolic() {
		return stub.List()
	}
	l, err := filepath.Glob("*")
	if err != nil {
		sym.Fail("cannot list the working directory")
	}
	return l
}

// Link gives a file a second name.
func Link(old, name string) {
	if sym.Symbolic() {
		stub.Link(old, name)
	} else if os.Link(old, name) != nil {
		sym.Fail("cannot link a file")
	}
}

// Mkdir makes a directory.
func Mkdir(name string) {
	if sym.Symbolic() {
		stub.Mkdir(name)
	} else if os.Mkdir(name, 0755) != nil {
		sym.Fail("cannot make a directory")
	}
}

// OpenFiles counts the open files in the working directory.
func OpenFiles() int {
	if sym.Symbolic() {
		return stub.Open()
	}
	wd, err := os.Getwd()
	if err != nil {
		sym.Fail("no working directory")
	}
	l, _ := filepath.Glob("/proc/self/fd/*")
	n := 0
	for _, f := range l {
		if t, err := os.Readlink(f); err == nil && strings.HasPrefix(t, wd+"/") {
			n++
		}
	}
	return n
}

// Fill makes writing to a file that exists fail from now on.
func Fill(name string) {
	if sym.Symbolic() {
		stub.Fill(name)
	} else if os.Remove(name) != nil || os.Symlink("/dev/full", name) != nil {
		sym.Fail("cannot replace a file")
	}
}

// Find returns the name of a file with a prefix, "" if there is none.
func Find(prefix string) string {
	if sym.Symbolic() {
		return stub.Find(prefix)
	}
	l, _ := filepath.Glob(prefix + "*")
	if len(l) == 0 {
		return ""
	}
	return l[0]
}

// Spoil makes reading a file fail from now on.
func Spoil(name string) {
	if sym.Symbolic() {
		stub.Spoil(name)
	} else if os.Remove(name) != nil || os.Mkdir(name, 0755) != nil {
		sym.Fail("cannot replace a file")
	}
}

// Limit keeps files from growing beyond a size, -1 lifts the limit.
func Limit(size int) {
	if sym.Symbolic() {
		stub.Limit = size
	} else {
		sym.FileLimit(size)
	}
}

// InPlace checks that blocks which lie unmodified in place were found.
func InPlace(missing []bool, ref, loc []byte, bs int) {
	for i := range missing {
		lo, hi := i*bs, (i+1)*bs
		if hi > len(ref) && len(ref) == len(loc) {
			hi = len(ref)
		}
		if !missing[i] || hi > len(ref) || hi > len(loc) {
			continue
		}
		excuse := false
		same := sym.BytesEq(ref[lo:hi], loc[lo:hi])
		if bs > 100 && !same {
			continue // what follows takes long
		}
		for q := lo - bs + 1; q < lo; q++ {
			if q < 0 || q+bs > len(loc) {
				continue
			}
			for k := 0; k+bs <= len(ref); k += bs {
				excuse = sym.Or(excuse, sym.BytesEq(loc[q:q+bs], ref[k:k+bs]))
			}
		}
		sym.Assert(sym.Or(excuse, !same), "a block present at its own offset in the local file was not matched")
	}
}

// Mode returns the permissions of a file.
func Mode(name string) os.FileMode {
	fi, err := os.Stat(name)
	if err != nil {
		sym.Fail("a file is gone")
	}
	return fi.Mode() & os.ModePerm
}

// Chmod sets the permissions of a file.
func Chmod(name string, mode os.FileMode) {
	if os.Chmod(name, mode) != nil {
		sym.Fail("cannot set permissions")
	}
}

// Same tells whether two names are those of one file.
func Same(a, b string) bool {
	x, err := os.Stat(a)
	if err != nil {
		return false
	}
	y, err := os.Stat(b)
	return err == nil && os.SameFile(x, y)
}

// Symlink makes a symbolic link.
func Symlink(target, name string) {
	if os.Symlink(target, name) != nil {
		sym.Fail("cannot make a symbolic link")
	}
}

// IsSymlink tells whether a name is a symbolic link.
func IsSymlink(name string) bool {
	fi, err := os.Lstat(name)
	return err == nil && fi.Mode()&os.ModeSymlink != 0
}
