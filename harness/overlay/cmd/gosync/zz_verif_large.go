package main

import (
	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/zzverif/big"
	"github.com/Redundancy/go-sync/zzverif/env"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// ZZLarge builds an index of a larger file, reports on a local file and
// patches it.
func ZZLarge() {
	sym.Workdir()
	n := []int{66000, 140000, 65535}[sym.Pick("length", 0, sym.Bound(1, 2))]
	bs := []int{700, 8192, 70000}[sym.Pick("blocksize", 0, 2)]
	blocks := (n + bs - 1) / bs
	ref := big.Bytes(n)
	loc := append([]byte{}, ref...)
	good := blocks // blocks in the local file
	kind := sym.Pick("local file", 0, 4)
	switch kind {
	case 1:
		loc = nil
		good = 0
	case 2:
		loc[n/2]++
		good = -1
	case 3:
		loc = append([]byte{9}, ref...)
		sym.Reach("moved")
	case 4:
		loc = loc[:n-1]
		good = -1
	}
	if n == 66000 && bs == 8192 && kind == 1 && sym.Pick("symbolic", 0, 1) == 1 {
		ref[n-1] = sym.Byte("last")
		good = -1
	}
	env.Put("ref.bin", ref)
	env.Put("local.bin", loc)
	sym.Assert(zzRun("build", "blocksize", bs, "ref.bin") == 0, "the build command failed")
	want, got := zzIndex(ref, bs), env.Get("ref.gosync")
	sym.Assert(len(got) == len(want), "the index has an unexpected length")
	sym.Assert(sym.BytesEq(got[:24], want[:24]), "the header of the index is not as documented")
	sym.Assert(sym.BytesEq(got[24:], want[24:]), "the checksums of the index are not as documented")
	if sym.Pick("command", 0, 1) == 0 {
		sym.Capture()
		sym.Assert(zzRun("diff", "p", 2, "local.bin", "ref.gosync") == 0, "the diff command failed")
		out := sym.Captured()
		sym.Assert(zzLine(out, "Index blocks:") == blocks, "the report has a wrong number of blocks")
		sym.Assert(zzLine(out, "Blocksize:") == bs, "the report has a wrong block size")
		k := zzLine(out, "Total matched blocks:")
		sym.Assert(good < 0 || k == good, "the report has a wrong number of matches")
		sym.Assert(zzLine(out, "Total matched bytes:") == k*bs, "the matched bytes do not fit the matched blocks")
		sym.Assert(zzLine(out, "Approximate missing bytes:") == (blocks-k)*bs, "the missing bytes are not those of the blocks without a match")
		return
	}
	gosync.DefaultConcurrency = 1 + bs%3
	s := env.Serve(ref)
	sym.Assert(zzRun("patch", "p", 1, "local.bin", "ref.gosync", "http://h/ref.bin", "out.bin") == 0, "the patch command failed")
	got = env.Get("out.bin")
	sym.Assert(len(got) == n && sym.BytesEq(got, ref), "the patched file differs from the reference")
	sym.Assert(s.OpenReplies() == 0, "a reply is still open")
	sym.Reach("patched")
}
