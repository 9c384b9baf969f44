package main

import (
	"crypto/md5"

	"github.com/Redundancy/go-sync/zzverif/env"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// zzIndex is the index file of data as documented.
func zzIndex(data []byte, bs int) []byte {
	x := []byte("G0S9NC")
	le := func(v uint64, n int) {
		for ; n > 0; n-- {
			x = append(x, byte(v))
			v >>= 8
		}
	}
	le(0, 2)
	le(2, 2)
	le(1, 2)
	le(uint64(len(data)), 8)
	le(uint64(bs), 4)
	for i := 0; i < len(data); i += bs {
		e := i + bs
		if e > len(data) {
			e = len(data)
		}
		var a, b uint16
		for k, c := range data[i:e] {
			a += uint16(c)
			b += uint16(e-i-k) * uint16(c)
		}
		le(uint64(a), 2)
		le(uint64(b), 2)
		h := md5.New()
		h.Write(data[i:e])
		x = h.Sum(x)
	}
	return x
}

// ZZBuildIndex builds the index of any file with any block size.
func ZZBuildIndex() {
	sym.Workdir()
	in := []string{"ref.bin", "ref", "./ref.gz.b.gz", "dir.d/ref", "ref.gosync"}[sym.Pick("name", 0, 4)]
	out := []string{"ref.gosync", "ref.gosync", "./ref.gz.b.gosync", "dir.d/ref.gosync", "ref.gosync"}[0:]
	idx := ""
	for i, n := range []string{"ref.bin", "ref", "./ref.gz.b.gz", "dir.d/ref", "ref.gosync"} {
		if n == in {
			idx = out[i]
		}
	}
	env.Mkdir("dir.d")
	data := sym.Bytes("data", sym.Pick("length", 0, sym.Bound(5, 8)))
	env.Put(in, data)
	old := []byte(nil)
	refuse := in == idx
	if !refuse {
		switch sym.Pick("index", 0, 2) {
		case 1:
			old = []byte("an index that is longer than the new one is going to be, whatever the block size may be, so that nothing of it should be left in the end, and that takes more than one hundred and fifty bytes")
			env.Put(idx, old)
			sym.Reach("index existed")
		case 2:
			env.Link(in, idx)
			refuse = true
		}
	}
	bs := []int{1, 2, 3, 8192, 0, -1, -4294967295, 4294967296, 4294967298}[sym.Pick("blocksize", 0, 8)]
	env.Limit(2000)
	code := zzRun("build", "blocksize", bs, in)
	env.Limit(-1)
	got := env.Get(in)
	sym.Assert(len(got) == len(data) && sym.BytesEq(got, data), "building an index changed the file it describes")
	if refuse {
		sym.Assert(code != 0, "an index was built over its own input")
		sym.Reach("index is the input")
		return
	}
	if bs < 1 || bs > 4294967295 {
		sym.Assert(code != 0, "an impossible block size was accepted")
		got = env.Get(idx)
		sym.Assert(len(got) == len(old) && sym.BytesEq(got, old), "an index was written for an impossible block size")
		sym.Reach("impossible block size")
		return
	}
	sym.Assert(code == 0, "building an index failed without a failure")
	want := zzIndex(data, bs)
	got = env.Get(idx)
	sym.Assert(len(got) == len(want), "the index has an unexpected length")
	sym.Assert(sym.BytesEq(got[:24], want[:24]), "the header of the index is not as documented")
	sym.Assert(sym.BytesEq(got[24:], want[24:]), "the checksums of the index are not as documented")
	sym.Assert(env.OpenFiles() == 0, "a file is still open after building an index")
}

// zzIndexOnes is the index of n bytes that are all 1.
func zzIndexOnes(n, bs int) []byte {
	x := zzIndex(nil, bs)
	for i := 0; i < 8; i++ {
		x[12+i] = byte(uint64(n) >> uint(8*i))
	}
	block := make([]byte, bs)
	for i := range block {
		block[i] = 1
	}
	for i := 0; i < n; i += bs {
		k := bs
		if n-i < k {
			k = n - i
		}
		b := uint64(k) * uint64(k+1) / 2
		h := md5.New()
		h.Write(block[:k])
		x = h.Sum(append(x, byte(k), byte(k>>8), byte(b), byte(b>>8)))
	}
	return x
}
