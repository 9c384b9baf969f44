// Package md5 stands in for crypto/md5 in replays that need the ideal hash of
// the symbolic execution: short messages are their own digest.
package md5

import (
	"crypto"
	"hash"
)

func init() {
	crypto.RegisterHash(crypto.MD5, New)
}

const Size = 16
const BlockSize = 64

type digest struct{ buf []byte }

func New() hash.Hash { return &digest{} }

func (d *digest) Reset()         { d.buf = nil }
func (d *digest) Size() int      { return Size }
func (d *digest) BlockSize() int { return BlockSize }

func (d *digest) Write(p []byte) (int, error) {
	d.buf = append(d.buf, p...)
	return len(p), nil
}

func (d *digest) Sum(in []byte) []byte {
	s := Sum(d.buf)
	return append(in, s[:]...)
}

// Sum is the length and the content for messages of up to 15 bytes, and a
// mix of the content (marked in the first byte) for longer ones.
func Sum(m []byte) [Size]byte {
	var out [Size]byte
	if len(m) <= 15 {
		out[0] = byte(len(m))
		copy(out[1:], m)
		return out
	}
	a, b := uint64(0xcbf29ce484222325), uint64(len(m))*0x9e3779b97f4a7c15
	for i, c := range m {
		a = (a ^ uint64(c)) * 0x100000001b3
		b = (b<<7 | b>>57) ^ (a+uint64(i))*0xff51afd7ed558ccd
	}
	out[0] = 0x80
	for i := 0; i < 7; i++ {
		out[1+i] = byte(a >> (8 * uint(i)))
	}
	for i := 0; i < 8; i++ {
		out[8+i] = byte(b >> (8 * uint(i)))
	}
	return out
}
