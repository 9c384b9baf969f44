// Package c14 checks the verification of received blocks.
package c14

import (
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

type getter [][]byte

func (g getter) GetStrongChecksumForBlock(k int) []byte {
	sym.Assert(k >= 0 && k < len(g), "the checksum of a block that does not exist is asked for")
	return g[k]
}

func sums(ref []byte, bs int) (l [][]byte) {
	for i := 0; i < len(ref); i += bs {
		e := i + bs
		if e > len(ref) {
			e = len(ref)
		}
		h := filechecksum.DefaultStrongHashGenerator()
		h.Write(ref[i:e])
		l = append(l, h.Sum(nil))
	}
	return
}

// genuine tells whether the data are whole blocks of the reference from the
// given block on (the last one possibly the short block at its end).
func genuine(ref, data []byte, bs, start int) bool {
	for i := 0; i < len(data); i += bs {
		e := i + bs
		if e > len(data) {
			e = len(data)
		}
		lo := start*bs + i
		hi := lo + bs
		if hi > len(ref) {
			hi = len(ref)
		}
		if lo >= hi || e-i != hi-lo || !sym.BytesEq(data[i:e], ref[lo:hi]) {
			return false
		}
	}
	return true
}

// Verify runs several verifications with the same verifier.
func Verify() {
	bs := sym.Pick("blocksize", 1, sym.Bound(2, 3))
	n := sym.Pick("length", 1, sym.Bound(4, 6))
	ref := sym.Bytes("reference", n)
	blocks := (n + bs - 1) / bs
	v := &filechecksum.HashVerifier{BlockSize: uint(bs), Hash: filechecksum.DefaultStrongHashGenerator()}
	over := 0
	if sym.Pick("getter", 0, 1) == 0 {
		v.BlockChecksumGetter = getter(sums(ref, bs))
	} else {
		var l chunks.StrongChecksumGetter
		for i, s := range sums(ref, bs) {
			l = append(l, chunks.ChunkChecksum{ChunkOffset: uint(i), StrongChecksum: s})
		}
		v.BlockChecksumGetter = l
		over = bs + 1
	}
	if sym.Pick("used hash", 0, 1) == 1 {
		v.Hash.Write(sym.Bytes("used", 1))
	}
	for k := 0; k < 2; k++ {
		start := sym.Pick("start", 0, blocks-1)
		m := sym.Pick("data length", 0, n-start*bs+over)
		if over == 0 && start*bs+(m+bs-1)/bs*bs > blocks*bs {
			sym.Stop()
		}
		data := sym.Bytes("data", m)
		got := v.VerifyBlockRange(uint(start), data)
		want := genuine(ref, data, bs, start)
		sym.Assert(!want || got, "correct data were rejected")
		sym.Assert(want || !got, "wrong data were accepted")
		if m > n-start*bs {
			sym.Reach("too long")
		}
		if got && m > bs {
			sym.Reach("several blocks accepted")
		}
		if got && m%bs != 0 {
			sym.Reach("short block accepted")
		}
		if !got {
			sym.Reach("rejected")
		}
		sym.Observe("verdict", got)
	}
}
