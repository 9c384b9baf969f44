package main

import (
	"os"
	"strconv"
	"strings"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/zzverif/env"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// zzRun runs a command of the tool and returns the exit code.
func zzRun(name, opt string, val int, args ...string) (code int) {
	if sym.OnExit != nil {
		sym.OnExit(func(c int) { panic(sym.ExitCode{Code: c}) })
	}
	defer func() {
		if sym.OnExit != nil {
			sym.OnExit(nil)
		}
		if p := recover(); p != nil {
			e, ok := p.(sym.ExitCode)
			if !ok {
				sym.Fail("the command crashed")
			}
			code = e.Code
		}
	}()
	os.Args = []string{"gosync", name}
	if opt != "" {
		os.Args = append(os.Args, "-"+opt, strconv.Itoa(val))
	}
	os.Args = append(os.Args, args...)
	main()
	return 0
}

// ZZBuildPatch builds an index for a file and recreates the file with it.
func ZZBuildPatch() {
	sym.Workdir()
	gosync.DefaultConcurrency = sym.Pick("concurrency", 1, 2)
	bs := sym.Pick("blocksize", 1, 2)
	ref := sym.Bytes("reference", sym.Pick("length", 0, 3))
	loc := sym.Bytes("local", sym.Pick("local length", 0, sym.Bound(2, 3)))
	for _, b := range append(append([]byte{}, ref...), loc...) {
		sym.Assume(b < 2)
	}
	env.Put("ref.bin", ref)
	env.Put("local.bin", loc)
	env.Serve(ref)
	sym.Assert(zzRun("build", "blocksize", bs, "ref.bin") == 0, "the build command failed")
	out := "out.bin"
	switch sym.Pick("output", 0, 2) {
	case 1:
		env.Put(out, []byte("previous content"))
		sym.Reach("output existed")
	case 2:
		out = "local.bin"
		sym.Reach("in place")
	}
	code := zzRun("patch", "p", 1, "local.bin", "ref.gosync", "http://h/ref.bin", out)
	sym.Assert(code == 0, "the patch command failed")
	sym.Assert(sym.BytesEq(env.Get(out), ref), "the patched file differs from the reference")
}

// ZZPatchFails lets the patch command fail while it patches.
func ZZPatchFails() {
	sym.Workdir()
	gosync.DefaultConcurrency = 1
	ref := sym.Bytes("reference", sym.Pick("length", 1, sym.Bound(4, 5)))
	loc := sym.Bytes("local", sym.Pick("local length", 0, sym.Bound(3, 4)))
	for _, b := range append(append([]byte{}, ref...), loc...) {
		sym.Assume(b < 2)
	}
	env.Put("ref.bin", ref)
	env.Put("local.bin", loc)
	s := env.Serve(ref)
	sym.Assert(zzRun("build", "blocksize", 2, "ref.bin") == 0, "the build command failed")
	args := []string{"local.bin", "ref.gosync", "http://h/ref.bin"}
	switch sym.Pick("output", 0, 2) {
	case 1:
		args = append(args, "./local.bin")
	case 2:
		env.Put("out.bin", []byte("previous"))
		args = append(args, "out.bin")
	}
	room := -1
	if sym.Pick("what", 0, 1) == 0 {
		s.FailAt, s.How = sym.Pick("bad reply", 1, 2), sym.Pick("how", 0, 3)
	} else {
		room = sym.Pick("room", 0, len(ref)-1)
		env.Limit(room)
	}
	code := zzRun("patch", "p", 1, args...)
	env.Limit(-1)
	if room >= 0 {
		sym.Assert(code != 0, "the patch command reported success although there was no room")
	} else if code == 0 {
		got := env.Get(args[len(args)-1])
		if len(args) == 3 {
			got = env.Get("local.bin")
		}
		sym.Assert(len(got) == len(ref) && sym.BytesEq(got, ref), "the patch command reported success but the file differs")
		sym.Stop()
	}
	got := env.Get("local.bin")
	sym.Assert(len(got) == len(loc) && sym.BytesEq(got, loc), "the local file was changed by a patch that failed")
	got = env.Get("ref.bin")
	sym.Assert(len(got) == len(ref) && sym.BytesEq(got, ref), "the reference was changed")
	sym.Assert(env.Find("tmp_") == "", "a temporary file is left by a patch that failed")
	if len(args) == 3 {
		sym.Reach("failed in place")
	}
}

// zzLine returns the number printed after a title.
func zzLine(out, title string) int {
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, title) {
			n, err := strconv.Atoi(strings.TrimSpace(l[len(title):]))
			sym.Assert(err == nil, "the report has no number after "+title)
			return n
		}
	}
	sym.Fail("the report has no line " + title)
	return 0
}

// ZZDiffReport looks at what the diff command prints.
func ZZDiffReport() {
	sym.Workdir()
	bs := sym.Pick("blocksize", 1, 3)
	ref := sym.Bytes("reference", sym.Pick("length", 0, sym.Bound(4, 6)))
	loc := sym.Bytes("local", sym.Pick("local length", 0, sym.Bound(4, 5)))
	for _, b := range append(append([]byte{}, ref...), loc...) {
		sym.Assume(b < 2)
	}
	env.Put("ref.bin", ref)
	env.Put("local.bin", loc)
	sym.Assert(zzRun("build", "blocksize", bs, "ref.bin") == 0, "the build command failed")
	sym.Capture()
	code := zzRun("diff", "p", 2, "local.bin", "ref.gosync")
	sym.Assert(code == 0, "the diff command failed")
	out := sym.Captured()
	// a block is in the local file if it is there at any offset
	blocks, there := 0, 0
	for i := 0; i < len(ref); i += bs {
		e := i + bs
		if e > len(ref) {
			e = len(ref)
		}
		blocks++
		found := false
		for q := 0; q+e-i <= len(loc); q++ {
			if e-i == bs || q+e-i == len(loc) {
				found = sym.Or(found, sym.BytesEq(loc[q:q+e-i], ref[i:e]))
			}
		}
		if found {
			there++
		}
	}
	sym.Assert(zzLine(out, "Index blocks:") == blocks, "the report has a wrong number of blocks")
	sym.Assert(zzLine(out, "Blocksize:") == bs, "the report has a wrong block size")
	got := zzLine(out, "Total matched blocks:")
	sym.Assert(got <= there, "the report claims matches that do not exist")
	scan := map[int]bool{} // blocks found by a byte by byte scan
	for pos := 0; pos < len(loc); {
		next := pos + 1
		for i := 0; i < blocks; i++ {
			e := i*bs + bs
			if e > len(ref) {
				e = len(ref)
			}
			n := e - i*bs
			if (n == bs && pos+n <= len(loc) || pos+n == len(loc)) && sym.BytesEq(ref[i*bs:e], loc[pos:pos+n]) {
				scan[i] = true
				next = pos + n
			}
		}
		pos = next
	}
	sym.Assert(got >= len(scan), "the report lacks matched blocks")
	sym.Assert(zzLine(out, "Total matched bytes:") == got*bs, "the matched bytes do not fit the matched blocks")
	sym.Assert(zzLine(out, "Approximate missing bytes:") == (blocks-got)*bs, "the missing bytes are not those of the blocks without a match")
	c, w, s := zzLine(out, "Comparisons:"), zzLine(out, "Weak hash hits:"), zzLine(out, "Strong hash hits:")
	sym.Assert(c >= w && w >= s, "there are more hits than comparisons")
	sym.Assert((got > 0) == (s > 0), "the strong hash hits do not fit the matches")
	sym.Assert(sym.BytesEq(env.Get("local.bin"), loc) && sym.BytesEq(env.Get("ref.bin"), ref), "the diff command changed a file")
	if blocks == 0 {
		sym.Reach("empty reference")
	}
	if got > 0 && got < blocks {
		sym.Reach("partial match")
	}
	sym.Observe("matched", got, c, w, s)
}

// ZZDiffStreams reports on a file that is large enough to be split, with any
// number of streams: the file is the reference.
func ZZDiffStreams() {
	sym.Workdir()
	bs := 1<<19 + 1
	n := 1<<20 + sym.Pick("more", 0, 1)
	ref := make([]byte, n)
	for i := range ref {
		ref[i] = 1
	}
	env.Put("ref.gosync", zzIndexOnes(n, bs))
	env.Put("local.bin", ref)
	sym.Capture()
	code := zzRun("diff", "p", sym.Pick("streams", -1, 3), "local.bin", "ref.gosync")
	sym.Assert(code == 0, "the diff command failed")
	out := sym.Captured()
	blocks := (n + bs - 1) / bs
	sym.Assert(zzLine(out, "Index blocks:") == blocks, "the report has a wrong number of blocks")
	got := zzLine(out, "Total matched blocks:")
	sym.Assert(got > 0 && got <= blocks, "the report claims matches that do not exist, or lacks all")
	sym.Assert(zzLine(out, "Total matched bytes:") == got*bs, "the matched bytes do not fit the matched blocks")
	sym.Assert(zzLine(out, "Approximate missing bytes:") == (blocks-got)*bs, "the missing bytes are not those of the blocks without a match")
	sym.Reach("split")
}
