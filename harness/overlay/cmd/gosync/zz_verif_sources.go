package main

import (
	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/zzverif/env"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// ZZSources patches with indices and references from files and servers: C37.
func ZZSources() {
	sym.Workdir()
	gosync.DefaultConcurrency = 1
	bs := sym.Pick("blocksize", 1, 2)
	ref := sym.Bytes("reference", sym.Pick("length", 0, sym.Bound(3, 4)))
	loc := sym.Bytes("local", sym.Pick("local length", 0, sym.Bound(2, 3)))
	for _, b := range append(append([]byte{}, ref...), loc...) {
		sym.Assume(b < 2)
	}
	env.Put("local.bin", loc)
	s := env.Serve(ref)
	s.IndexCode, s.Index = 200, zzIndex(ref, bs)

	index, source, out := "http://h/dir/ref.gosync", "http://h/ref.bin", "out.bin"
	fails := false   // it has to fail, and nothing may be changed
	isFile := false  // the reference is a file
	differs := false // the reference is not the one of the index
	switch sym.Pick("index", 0, 3) {
	case 0:
		index = "ref.gosync"
		if len(loc) == 0 {
			index = []string{"ref.gosync", "ref#1%41?.gosync", "c:ref.gosync", "http-ref.gosync", "https.gosync"}[sym.Pick("name", 0, 4)]
		}
		env.Put(index, s.Index)
	case 1:
		if len(ref) < 3 && len(loc) == 0 {
			s.IndexHead = sym.Pick("index head", 0, len(s.Index)-1)
		} else if len(loc) == 0 {
			index = []string{index, "HTTP://h/dir/ref.gosync", "https://h/dir/ref.gosync"}[sym.Pick("index url", 0, 2)]
		}
		sym.Reach("index from a server")
	case 2:
		s.IndexCode = []int{0, 404, 500, 301, 199, 304}[sym.Pick("status", 0, 5)]
		fails = true
		sym.Reach("no index")
	case 3:
		s.Index = s.Index[:sym.Pick("index length", 0, len(s.Index)-1)]
		fails = true
		sym.Reach("index cut")
	}
	if fails {
		env.Put(out, []byte("previous"))
	} else {
		switch sym.Pick("source", 0, 6) {
		case 0:
			if len(loc) == 0 {
				source = []string{source, "Http://h/ref.bin", "https://h/ref.bin"}[sym.Pick("source url", 0, 2)]
			}
			sym.Reach("reference from a server")
		case 1:
			source = "ref.bin"
			if len(loc) == 0 {
				source = []string{"ref.bin", "ref#1%41?.bin", "c:ref.bin", "http-ref.bin", "https"}[sym.Pick("source name", 0, 4)]
			}
			env.Put(source, ref)
			isFile = true
			sym.Reach("reference from a file")
		case 2:
			source = "./ref.bin"
			env.Put(source, append(append([]byte{}, ref...), "more"...))
			differs = true
			sym.Reach("reference from a longer file")
		case 3: // another reference, which may be shorter
			source = "other.bin"
			other := sym.Bytes("other", sym.Pick("other length", 0, len(ref)))
			for _, b := range other {
				sym.Assume(b < 2)
			}
			env.Put(source, other)
			differs = true
		case 4:
			source = "none.bin"
			fails = true
			sym.Reach("no reference")
		case 5: // the output is the reference
			source, out = "ref.bin", "./ref.bin"
			env.Put(source, ref)
			fails = true
		case 6: // the local file is the reference
			if len(loc) == 0 {
				sym.Stop()
			}
			source, out = "local.bin", "local.bin"
			fails = true
		}
	}
	inPlace := false
	if out == "out.bin" {
		switch sym.Pick("output", 0, 2) {
		case 1:
			env.Put(out, []byte("previous"))
		case 2:
			out, inPlace = "local.bin", true
			sym.Reach("in place")
		}
	}
	before := env.List()
	code := zzRun("patch", "", 0, "local.bin", index, source, out)
	got := env.Get(out)
	isRef := len(got) == len(ref) && sym.BytesEq(got, ref)
	if fails {
		sym.Assert(code != 0, "patching without an index or a reference reports success")
		after := env.List()
		sym.Assert(len(after) == len(before), "patching without an index or a reference leaves a file")
		for i := range before {
			sym.Assert(before[i] == after[i], "patching without an index or a reference leaves another file")
		}
		if out == "out.bin" && got != nil {
			sym.Assert(sym.BytesEq(got, []byte("previous")), "patching without an index or a reference changed the output")
		}
	} else if differs {
		sym.Assert(code != 0 || isRef, "patching from another reference reports success but the file differs")
		if code != 0 {
			sym.Reach("another reference")
		}
	} else {
		sym.Assert(code == 0, "the patch command failed")
		sym.Assert(isRef, "the patched file differs from the reference")
	}
	if !inPlace || code != 0 {
		l := env.Get("local.bin")
		sym.Assert(len(l) == len(loc) && sym.BytesEq(l, loc), "the local file was changed")
	}
	if isFile {
		r := env.Get(source)
		sym.Assert(len(r) == len(ref) && sym.BytesEq(r, ref), "the reference was changed")
	}
	sym.Assert(env.Find("tmp_") == "", "a temporary file is left")
}
