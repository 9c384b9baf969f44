package rsf

import (
	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/zzverif/env"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// Unverified patches with a summary that cannot verify blocks, as the
// documentation allows: C22.
func Unverified() {
	sym.Workdir()
	gosync.DefaultConcurrency = 1
	ref := letters("reference", sym.Pick("length", 0, sym.Bound(3, 5)))
	loc := letters("local", sym.Pick("local length", 0, sym.Bound(2, 4)))
	env.Put("local", loc)
	env.Put("ref", ref)
	env.Serve(ref)
	source := []string{"http://h/ref", "ref"}[sym.Pick("source", 0, 1)]
	out := []string{"out", "local"}[sym.Pick("output", 0, 1)]
	fs := summary(ref, sym.Pick("blocksize", 1, 2))
	fs.ChecksumLookup = nil
	r, err := gosync.MakeRSync("local", source, out, fs)
	sym.Assert(err == nil, "patching could not be set up")
	sym.Assert(r.Patch() == nil, "patching without verification failed")
	sym.Assert(r.Close() == nil, "closing failed")
	got := env.Get(out)
	sym.Assert(len(got) == len(ref) && sym.BytesEq(got, ref), "the destination differs from the reference")
	sym.Reach("patched")
}
