// Package rsf checks patching from file to file: C22.
package rsf

import (
	"os"
	"sync"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/zzverif/env"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

func summary(ref []byte, bs int) *gosync.BasicSummary {
	var l []chunks.ChunkChecksum
	for i := 0; i < len(ref); i += bs {
		e := i + bs
		if e > len(ref) {
			e = len(ref)
		}
		g := filechecksum.NewFileChecksumGenerator(uint(bs))
		g.WeakRollingHash.SetBlock(ref[i:e])
		w := make([]byte, g.WeakRollingHash.Size())
		g.WeakRollingHash.GetSum(w)
		g.StrongHash.Write(ref[i:e])
		l = append(l, chunks.ChunkChecksum{ChunkOffset: uint(len(l)), Size: int64(bs), WeakChecksum: w, StrongChecksum: g.StrongHash.Sum(nil)})
	}
	return &gosync.BasicSummary{BlockSize: uint(bs), BlockCount: uint(len(l)), FileSize: int64(len(ref)),
		ChecksumIndex: index.MakeChecksumIndex(l), ChecksumLookup: chunks.StrongChecksumGetter(l)}
}

func letters(name string, n int) []byte {
	b := sym.Bytes(name, n)
	for i := range b {
		sym.Assume(b[i] < 2)
	}
	return b
}

// Files patches a file into a destination in any state.
func Files() {
	sym.Workdir()
	gosync.DefaultConcurrency = 1
	bs := 2
	ref := letters("reference", sym.Pick("length", 0, sym.Bound(3, 5)))
	loc := letters("local", sym.Pick("local length", 0, sym.Bound(3, 4)))
	env.Put("local", loc)
	env.Serve(ref)
	out := "out"
	same := false
	switch sym.Pick("destination", 0, 4) {
	case 0:
		sym.Reach("no destination yet")
	case 1:
		env.Put(out, make([]byte, sym.Pick("old length", 0, len(ref)+2)))
		sym.Reach("destination existed")
	case 2:
		out, same = "local", true
		sym.Reach("in place")
	case 3:
		out, same = "./local", true
	case 4:
		env.Link("local", out)
		same = true
		sym.Reach("in place under another name")
	}
	r, err := gosync.MakeRSync("local", "http://h/ref", out, summary(ref, bs))
	sym.Assert(err == nil, "patching could not be set up")
	err = r.Patch()
	sym.Assert(err == nil, "patching failed without a failure")
	fault := 0
	if same {
		fault = sym.Pick("fault", 0, 3)
	}
	tmp := ""
	if fault == 2 {
		if tmp = env.Find("tmp_"); tmp == "" {
			sym.Stop()
		}
	}
	switch fault {
	case 1:
		if len(ref) == 0 {
			sym.Stop()
		}
		env.Fill(out)
		sym.Reach("destination cannot be written")
	case 2:
		env.Spoil(tmp)
		sym.Reach("temporary file cannot be read")
	case 3:
		if len(ref) == 0 {
			sym.Stop()
		}
		env.Limit(sym.Pick("room", 0, len(ref)-1))
		sym.Reach("destination has not enough room")
	}
	err = r.Close()
	env.Limit(-1)
	if fault > 0 {
		sym.Assert(err != nil, "copying to the destination failed, but no error was reported")
		return
	}
	sym.Assert(err == nil, "closing failed without a failure")
	got := env.Get(out)
	sym.Assert(len(got) == len(ref), "the destination has another length than the reference")
	sym.Assert(sym.BytesEq(got, ref), "the destination differs from the reference")
	if !same {
		sym.Assert(sym.BytesEq(env.Get("local"), loc), "the local file was changed")
	}
	sym.Observe("out", got)
}

// run is a file-to-file patch that may fail.
type run struct {
	ref, loc []byte
	out      string
	inPlace  bool
	failed   bool // Patch failed, or was never called
	cause    int
	r        *gosync.RSync
	s        *env.Server
}

const (
	nothing = iota // no failure
	never          // Patch is not called
	server         // a reply is bad
	room           // the output has not enough room
	size           // the index does not fit its file size
	full           // copying fails on close
)

// attempt sets up a patch and lets it fail in the way chosen.
func attempt(causes ...int) *run {
	sym.Workdir()
	gosync.DefaultConcurrency = sym.Pick("concurrency", 1, 2)
	bs := 2
	a := &run{out: "local", inPlace: true}
	a.ref = letters("reference", sym.Pick("length", 0, sym.Bound(4, 5)))
	a.loc = letters("local", sym.Pick("local length", 0, sym.Bound(3, 4)))
	env.Put("local", a.loc)
	s := env.Serve(a.ref)
	a.s = s
	switch sym.Pick("destination", 0, 2) {
	case 1:
		env.Link("local", "name")
		a.out = "name"
	case 2:
		a.out, a.inPlace = "out", false
	}
	sum := summary(a.ref, bs)
	a.cause = causes[sym.Pick("cause", 0, len(causes)-1)]
	switch a.cause {
	case server:
		s.FailAt, s.How = sym.Pick("bad reply", 1, 2), sym.Pick("how", 0, 3)
	case size:
		if len(a.ref) == 0 {
			sym.Stop()
		}
		sum.FileSize += int64(bs)
	}
	var err error
	a.r, err = gosync.MakeRSync("local", "http://h/ref", a.out, sum)
	sym.Assert(err == nil, "patching could not be set up")
	if a.cause == room {
		if len(a.ref) == 0 {
			sym.Stop()
		}
		env.Limit(sym.Pick("room", 0, len(a.ref)-1))
	}
	if a.cause == never {
		sym.Reach("closed without patching")
		a.failed = true
	} else {
		a.failed = a.r.Patch() != nil
	}
	env.Limit(-1)
	if a.cause == room || a.cause == size {
		sym.Assert(a.failed, "patching failed without an error")
	}
	if a.cause == nothing || a.cause == full {
		sym.Assert(!a.failed, "patching failed without a failure")
	}
	return a
}

// Keeps: C28, the local file survives a patch that fails.
func Keeps() {
	a := attempt(never, server, room, size, full)
	if a.cause == full {
		// the copy of the temporary file fails
		if !a.inPlace || len(a.ref) == 0 {
			sym.Stop()
		}
		k := sym.Pick("room for the copy", -1, len(a.ref)-1)
		if k < 0 {
			env.Fill(a.out)
		} else {
			env.Limit(k)
		}
		err := a.r.Close()
		env.Limit(-1)
		sym.Assert(err != nil, "copying to the destination failed, but no error was reported")
		tmp := env.Find("tmp_")
		sym.Assert(tmp != "", "the patched data are gone although they could not be copied")
		got := env.Get(tmp)
		sym.Assert(len(got) == len(a.ref) && sym.BytesEq(got, a.ref), "the data left after a failing copy are not the reference")
		sym.Reach("copy failed")
		return
	}
	if !a.failed {
		sym.Stop()
	}
	if a.inPlace {
		sym.Reach("failed in place")
	}
	if sym.Pick("closed", 0, 1) == 1 {
		a.r.Close()
		sym.Reach("closed after a failure")
	}
	got := env.Get("local")
	sym.Assert(len(got) == len(a.loc) && sym.BytesEq(got, a.loc), "the local file was changed by a patch that failed")
	if a.out == "name" {
		got = env.Get("name")
		sym.Assert(len(got) == len(a.loc) && sym.BytesEq(got, a.loc), "the local file was replaced by a patch that failed")
	}
}

// Releases: C30, nothing is left behind once a patch has been closed.
func Releases() {
	if sym.Pick("no setup", 0, 1) == 1 {
		noSetup()
		return
	}
	a := attempt(nothing, never, server, room, size)
	if sym.Pick("source closed before", 0, 1) == 1 {
		a.r.Source.(interface{ Close() error }).Close()
		sym.Reach("source closed before")
	}
	err := a.r.Close()
	sym.Assert(err == nil, "closing failed without a failure")
	sym.Quiesce()
	sym.Assert(env.OpenFiles() == 0, "a file is still open after closing")
	sym.Assert(env.Find("tmp_") == "", "a temporary file is left after closing")
	sym.Assert(sym.Others() == 0, "background work is left after closing")
	sym.Assert(a.s.OpenReplies() == 0, "a reply of the server was not closed")
	if a.failed {
		sym.Reach("closed after a failure")
	} else if a.inPlace {
		sym.Reach("closed after patching in place")
	}
}

// noSetup: patching cannot be set up.
func noSetup() {
	sym.Workdir()
	in, out := "local", "out"
	env.Put("local", []byte("x"))
	source := "http://h/ref"
	switch sym.Pick("what", 0, 5) {
	case 0:
		in = "none"
	case 3:
		source = "none"
	case 4:
		source = "out"
		env.Put("out", []byte("abc"))
	case 5:
		source, out = "ref", "none/out"
		env.Put(source, []byte("abc"))
	case 1:
		out = "none/out"
	case 2:
		env.Mkdir("out")
	}
	r, err := gosync.MakeRSync(in, source, out, summary([]byte("abc"), 2))
	sym.Assert(err != nil && r == nil, "patching was set up without its files")
	sym.Quiesce()
	sym.Assert(env.OpenFiles() == 0, "a file is left open after failing to set up")
	sym.Assert(sym.Others() == 0, "background work is left after failing to set up")
	sym.Assert(env.Find("tmp_") == "", "a temporary file is left after failing to set up")
	sym.Reach("no setup")
}

// Two patches two files at the same time with one index: C34.
func Two() {
	sym.Workdir()
	gosync.DefaultConcurrency = sym.Pick("concurrency", 1, 2)
	bs := 2
	ref := []byte{1, 2, 3, 4, 5}
	env.Serve(ref)
	sum := summary(ref, bs)
	locals := [][]byte{{}, {1, 2}, {9, 9, 3, 4}, {1, 2, 3, 4, 5}, {5}}
	var wg sync.WaitGroup
	outs := []string{"a", "b"}
	if sym.Pick("in place", 0, 1) == 0 {
		outs = []string{"c", "d"}
	} else {
		sym.Reach("in place")
	}
	for i, name := range []string{"a", "b"} {
		env.Put(name, locals[sym.Pick("local", 0, len(locals)-1)])
		out := outs[i]
		r, err := gosync.MakeRSync(name, "http://h/ref", out, sum)
		sym.Assert(err == nil, "patching could not be set up")
		wg.Add(1)
		go func() {
			defer wg.Done()
			sym.Pause()
			sym.Assert(r.Patch() == nil, "patching failed without a failure")
			sym.Assert(r.Close() == nil, "closing failed without a failure")
		}()
	}
	wg.Wait()
	for _, out := range outs {
		got := env.Get(out)
		sym.Assert(len(got) == len(ref) && sym.BytesEq(got, ref), "one of two patches run at the same time is wrong")
	}
	sym.Assert(env.Find("tmp_") == "", "a temporary file is left after closing")
	sym.Quiesce()
	sym.Assert(sym.Others() == 0, "background work is left after closing")
}

// Sources patches from a reference in a file: C37, C30.
func Sources() {
	sym.Workdir()
	gosync.DefaultConcurrency = sym.Pick("concurrency", 1, 2)
	bs := sym.Pick("blocksize", 1, 2)
	ref := letters("reference", sym.Pick("length", 0, sym.Bound(3, 5)))
	loc := letters("local", sym.Pick("local length", 0, sym.Bound(2, 4)))
	env.Put("local", loc)
	source, out := "ref", "out"
	if sym.Pick("in place", 0, 1) == 1 {
		out = "local"
		sym.Reach("in place")
	}
	env.Put(source, ref)
	cause := sym.Pick("cause", 0, 3)
	if cause == 1 { // the reference was changed after the index was made
		if len(ref) == 0 {
			sym.Stop()
		}
		other := append([]byte{}, ref...)
		other[sym.Pick("position", 0, len(ref)-1)] = 7
		env.Put(source, other)
	}
	r, err := gosync.MakeRSync("local", source, out, summary(ref, bs))
	sym.Assert(err == nil, "patching could not be set up")
	switch cause {
	case 2:
		r.Source.(interface{ Close() error }).Close()
	case 3:
		if len(ref) == 0 {
			sym.Stop()
		}
		env.Limit(sym.Pick("room", 0, len(ref)-1))
	}
	err = r.Patch()
	env.Limit(-1)
	failed := err != nil
	sym.Assert(!failed || cause > 0, "patching failed without a failure")
	err = r.Close()
	sym.Assert(err == nil, "closing failed")
	sym.Quiesce()
	sym.Assert(env.OpenFiles() == 0, "a file is still open after closing")
	sym.Assert(env.Find("tmp_") == "", "a temporary file is left after closing")
	sym.Assert(sym.Others() == 0, "background work is left after closing")
	if !failed {
		got := env.Get(out)
		sym.Assert(len(got) == len(ref) && sym.BytesEq(got, ref), "the destination differs from the reference")
		sym.Reach("patched")
	} else {
		got := env.Get("local")
		sym.Assert(len(got) == len(loc) && sym.BytesEq(got, loc), "the local file was changed by a patch that failed")
		sym.Reach("failed")
	}
}

// Identity: C38, the destination stays the file it is.
func Identity() {
	sym.Workdir()
	gosync.DefaultConcurrency = 1
	bs := 2
	ref := letters("reference", sym.Pick("length", 0, sym.Bound(3, 5)))
	loc := letters("local", sym.Pick("local length", 0, sym.Bound(2, 4)))
	env.Put("local", loc)
	dir := "" // where the destination lies
	if sym.Pick("directory", 0, 1) == 1 {
		env.Mkdir("dir")
		dir = "dir/"
		sym.Reach("in a directory")
	}
	modes := []os.FileMode{0644, 0755, 0600, 0666}
	mode := modes[0]
	file := dir + "file" // the destination without links
	exists := true
	switch sym.Pick("destination", 0, 2) {
	case 0:
		exists = false
		f, err := os.Create("new")
		sym.Assert(err == nil && f.Close() == nil, "a file cannot be made")
		mode = env.Mode("new")
		sym.Reach("no destination yet")
	case 1:
		env.Put(file, make([]byte, sym.Pick("old length", 0, len(ref)+1)))
		sym.Reach("destination existed")
	case 2:
		if dir != "" {
			sym.Stop()
		}
		file = "local"
		sym.Reach("in place")
	}
	if exists {
		mode = modes[sym.Pick("mode", 0, len(modes)-1)]
		env.Chmod(file, mode)
		env.Link(file, "other")
	}
	out := file
	if sym.Pick("symbolic link", 0, 1) == 1 {
		out = "link"
		env.Symlink(file, out)
		sym.Reach("through a symbolic link")
	}
	s := env.Serve(ref)
	if sym.Pick("failing", 0, 1) == 1 {
		s.FailAt, s.How = 1, sym.Pick("how", 0, 3)
	}
	r, err := gosync.MakeRSync("local", "http://h/ref", out, summary(ref, bs))
	sym.Assert(err == nil, "patching could not be set up")
	failed := r.Patch() != nil
	sym.Assert(!failed || s.FailAt > 0, "patching failed without a failure")
	sym.Assert(r.Close() == nil, "closing failed without a failure")
	sym.Assert(env.Mode(file) == mode, "the destination has other permissions")
	if exists {
		sym.Assert(env.Same(file, "other"), "the destination became another file")
		sym.Assert(env.Mode("other") == mode, "another name of the destination has other permissions")
	}
	if out != file {
		sym.Assert(env.IsSymlink(out), "a symbolic link was replaced by a file")
		sym.Assert(env.Same(out, file), "a symbolic link leads somewhere else")
	}
	if failed {
		sym.Reach("failed")
		return
	}
	got := env.Get(file)
	sym.Assert(len(got) == len(ref) && sym.BytesEq(got, ref), "the file a link leads to differs from the reference")
	if exists {
		got = env.Get("other")
		sym.Assert(len(got) == len(ref) && sym.BytesEq(got, ref), "the file has the reference under one of its names only")
	}
	if file != "local" {
		sym.Assert(sym.BytesEq(env.Get("local"), loc), "the local file was changed")
	}
}
