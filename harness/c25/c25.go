package c25

import (
	"encoding/binary"
	"io"

	"github.com/Redundancy/go-sync/util/readers"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// drain reads everything with read sizes of any pattern.
func drain(r io.Reader, limit int) []byte {
	var out []byte
	buf := make([]byte, 16)
	calls, zero := 0, 0
	for {
		calls++
		sym.Assert(calls < 200, "the reader does not end")
		k := 3
		if calls <= 4 {
			k = sym.Pick("read", 1, 4)
		}
		n, err := r.Read(buf[:k])
		sym.Assert(n >= 0 && n <= k, "impossible read count")
		out = append(out, buf[:n]...)
		sym.Assert(len(out) <= limit, "the reader returns too much")
		if err == io.EOF {
			n, err = r.Read(buf[:2])
			sym.Assert(n == 0 && err == io.EOF, "the reader continues after its end")
			return out
		}
		sym.Assert(err == nil, "the reader fails")
		if n == 0 {
			zero++
			sym.Assert(zero < 20, "the reader makes no progress")
		}
	}
}

func seq(seed, n int) []byte {
	// the stated sequence: value_i = seed + i*increment modulo the modulus,
	// of which the lowest byte of the 32-bit value is used
	var out []byte
	v := seed
	for i := 0; i < n; i++ {
		var b [4]byte
		binary.LittleEndian.PutUint32(b[:], uint32(v))
		out = append(out, b[0])
		v = (v + 17180131327) % 87178291199
	}
	return out
}

func uniform(v byte, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = v
	}
	return b
}

func Uniform() {
	n := sym.Pick("length", 0, sym.Bound(7, 12))
	v := byte(0)
	r := readers.ZeroReader(n)
	if sym.Pick("one", 0, 1) == 1 {
		v, r = 1, readers.OneReader(n)
	}
	got := drain(r, n)
	sym.Assert(len(got) == n && sym.BytesEq(got, uniform(v, n)), "a uniform reader does not yield its value length times")
	sym.Observe("got", got)
}

func NonRepeating() {
	seed := sym.Int("seed", 0, 87178291198)
	n := sym.Pick("length", 0, sym.Bound(7, 12))
	got := drain(readers.NewSizedNonRepeatingSequence(seed, int64(n)), n)
	sym.Assert(len(got) == n && sym.BytesEq(got, seq(seed, n)), "the sequence differs from the one its seed defines")
	sym.Observe("got", got)
}

// Unsized: the unlimited sequence gives the same bytes for any read sizes.
func Unsized() {
	seed := sym.Int("seed", 0, 87178291198)
	r := readers.NewNonRepeatingSequence(seed)
	var got []byte
	for i := 0; i < 4; i++ {
		b := make([]byte, sym.Pick("read", 0, 3))
		n, err := r.Read(b)
		sym.Assert(err == nil && n == len(b), "the endless sequence ends")
		got = append(got, b...)
	}
	sym.Assert(sym.BytesEq(got, seq(seed, len(got))), "the sequence depends on the read sizes")
}

func Inject() {
	a, b := sym.Pick("base", 0, 5), sym.Pick("inject", 0, 4)
	off := sym.Pick("offset", 0, 6)
	s1 := sym.Int("seed", 0, 87178291198)
	s2 := sym.Int("seed2", 0, 87178291198)
	base, inj := seq(s1, a), seq(s2, b)
	r := readers.InjectedReader(int64(off), readers.NewSizedNonRepeatingSequence(s1, int64(a)), readers.NewSizedNonRepeatingSequence(s2, int64(b)))
	if off > a {
		off = a
	}
	w := append(append(append([]byte{}, base[:off]...), inj...), base[off:]...)
	got := drain(r, len(w))
	sym.Assert(len(got) == len(w) && sym.BytesEq(got, w), "the injected stream is not base, injected, rest of base")
	sym.Observe("got", got)
}

func Sequence() {
	a, b, c := sym.Pick("a", 0, 3), sym.Pick("b", 0, 3), sym.Pick("c", 0, 2)
	limit := sym.Pick("limit", 0, 9)
	s := sym.Int("seed", 0, 87178291198)
	r := readers.SequenceLimit(int64(limit), readers.OneReader(a), readers.NewSizedNonRepeatingSequence(s, int64(b)), readers.ZeroReader(c))
	w := append(append(uniform(1, a), seq(s, b)...), uniform(0, c)...)
	if limit < len(w) {
		w = w[:limit]
	}
	got := drain(r, len(w))
	sym.Assert(len(got) == len(w) && sym.BytesEq(got, w), "the streams in sequence, limited, give other bytes")
	sym.Observe("got", got)
}
