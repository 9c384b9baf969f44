package main

import (
	"errors"
	"io"
	"os"

	"github.com/Redundancy/go-sync/zzverif/sym"
)

// zzReader delivers data in pieces and ends with the error end.
type zzReader struct {
	data []byte
	gaps int
	with bool
	end  error
}

func (r *zzReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.data) == 0 {
		return 0, r.end
	}
	n := len(p)
	if n > len(r.data) {
		n = len(r.data)
	}
	if n > 1 && r.gaps > 0 {
		r.gaps--
		n = sym.Pick("chunk", 1, n)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.with {
		return n, r.end
	}
	return n, nil
}

// zzHeader writes a header with the given versions.
func zzHeader(size int64, block uint32, versions []uint16) []byte {
	sym.Workdir()
	f, err := os.Create("header")
	sym.Assert(err == nil, "cannot create a file")
	err = writeHeaders(f, magicString, block, size, versions)
	sym.Assert(err == nil, "writing a header failed")
	f.Close()
	b, err := os.ReadFile("header")
	sym.Assert(err == nil, "cannot read a file")
	return b
}

// ZZRoundTrip writes any header and reads it back.
func ZZRoundTrip() {
	size := int64(sym.Uint64("size"))
	block := sym.Uint32("blocksize")
	b := zzHeader(size, block, []uint16{majorVersion, minorVersion, patchVersion})
	rest := sym.Bytes("rest", sym.Pick("rest length", 0, 2))
	r := &zzReader{data: append(append([]byte{}, b...), rest...), gaps: 3, end: io.EOF, with: sym.Pick("with", 0, 1) == 1}
	ma, mi, pa, gotSize, gotBlock, err := readHeadersAndCheck(r, magicString, majorVersion)
	sym.Assert(err == nil, "a correct header was rejected")
	sym.Assert(ma == majorVersion && mi == minorVersion && pa == patchVersion, "the version was not read back")
	sym.Assert(gotSize == size, "the file size was not read back")
	sym.Assert(gotBlock == block, "the block size was not read back")
	left, _ := io.ReadAll(r)
	sym.Assert(sym.BytesEq(left, rest), "reading the header consumed what follows it")
	sym.Observe("header", b)
}

// ZZBadHeader reads headers with a changed byte, or one which ends early.
func ZZBadHeader() {
	size := int64(sym.Uint64("size"))
	block := sym.Uint32("blocksize")
	b := zzHeader(size, block, []uint16{majorVersion, minorVersion, patchVersion})
	end := io.EOF
	if sym.Pick("fails", 0, 1) == 1 {
		end = errors.New("read failure")
	}
	switch sym.Pick("damage", 0, 2) {
	case 0:
		k := sym.Pick("position", 0, len(magicString)-1)
		v := sym.Byte("value")
		sym.Assume(v != b[k])
		b[k] = v
		sym.Reach("bad magic")
	case 1:
		v := sym.Uint16("major")
		sym.Assume(v != majorVersion)
		k := len(magicString)
		b[k], b[k+1] = byte(v), byte(v>>8)
		sym.Reach("other major version")
	case 2:
		b = b[:sym.Pick("length", 0, len(b)-1)]
		sym.Reach("short header")
	}
	r := &zzReader{data: b, gaps: 2, end: end, with: sym.Pick("with", 0, 1) == 1}
	_, _, _, _, _, err := readHeadersAndCheck(r, magicString, majorVersion)
	sym.Assert(err != nil, "a bad header was accepted")
}
