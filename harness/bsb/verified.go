package bsb

import (
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

type digests [][]byte

func (d digests) GetStrongChecksumForBlock(k int) []byte {
	if k < 0 || k >= len(d) {
		return []byte{}
	}
	return d[k]
}

// Verified fetches several ranges at a time with the real verifier, which has
// one hash: C15, C16.
func Verified() {
	n := sym.Bound(2, 3)
	limit := sym.Pick("limit", 2, n)
	bs := sym.Pick("blocksize", 1, 2)
	ref := sym.Bytes("reference", n*bs)
	altered := sym.Pick("altered", 0, n) // n: none
	other := sym.Byte("other")
	at := 0
	if altered < n {
		at = altered*bs + sym.Pick("place", 0, bs-1)
		sym.Assume(other != ref[at])
	}
	var sums digests
	for i := 0; i < n; i++ {
		h := filechecksum.DefaultStrongHashGenerator()
		h.Write(ref[i*bs : (i+1)*bs])
		sums = append(sums, h.Sum(nil))
	}
	w := &world{limit: limit}
	w.src = blocksources.NewBlockSourceBase(w, w, &filechecksum.HashVerifier{
		BlockSize:           uint(bs),
		Hash:                filechecksum.DefaultStrongHashGenerator(),
		BlockChecksumGetter: sums,
	}, limit, 1000)
	w.auto = func(f *fetch, k int) {
		sym.Pause()
		f.data = append([]byte{}, ref[f.lo*bs:f.hi*bs]...)
		if f.lo == altered {
			f.data[at-f.lo*bs] = other
		}
	}
	for i := 0; i < n; i++ {
		err := w.src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: uint(i), EndBlock: uint(i), BlockSize: int64(bs)})
		sym.Assert(err == nil || altered < n, "a running source refused a request")
	}
	got := 0
	for got < n {
		failed := false
		select {
		case r, ok := <-w.src.GetResultChannel():
			if !ok {
				sym.Assert(altered < n, "the source ended without an error though all data are as they should be")
				failed = true
				break
			}
			k := int(r.StartBlock)
			sym.Assert(k != altered, "altered data were delivered")
			sym.Assert(k < n && len(r.Data) == bs && sym.BytesEq(r.Data, ref[k*bs:(k+1)*bs]), "other data than those of the block were delivered")
			got++
		case err, ok := <-w.src.EncounteredError():
			sym.Assert(altered < n, "genuine data were refused")
			sym.Assert(ok && err != nil, "the error of refused data was not reported")
			failed = true
		}
		if failed {
			sym.Reach("refused")
			break
		}
	}
	if got == n {
		sym.Assert(altered == n, "altered data passed")
		sym.Reach("all delivered")
	}
	w.src.Close()
}
