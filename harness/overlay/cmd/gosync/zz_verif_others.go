package main

import (
	"os"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/zzverif/env"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// zzBystanders are the names of files that are none of a command's business.
var zzBystanders = [3][]string{
	{"tmp_1", "tmp", "ref", "ref.tmp", "ref.bin.tmp", "ref.bin.gosync", "ref.gosync.tmp", "ref.gosync.new", "ref.gosync~", "ref.gosync.bak", "ref.gosync.part", "ref.gosync.old", ".ref.gosync", ".gosync"},
	{"tmp_1", "tmp", "ref", "local", "local.gosync", "local.bin.tmp", "out.bin", "ref.bin.gosync", "ref.gosync.tmp"},
	{"tmp_", "tmp_1", "tmp", "temp", "out", "out.tmp", "out.bin.tmp", "out.bin.new", "out.bin.part", "out.bin~", "out.bin.bak", "out.gosync", "tmp_out.bin",
		"local", "local.tmp", "local.bin.tmp", "local.bin.new", "local.bin.part", "local.bin~", "local.bin.bak", "local.bin.old", ".local.bin", "tmp_local.bin"},
}

type zzFile struct {
	name string
	data []byte
	mode os.FileMode
}

// zzFiles are all files there are.
func zzFiles() (l []zzFile) {
	for _, name := range env.List() {
		l = append(l, zzFile{name, env.Get(name), env.Mode(name)})
	}
	return
}

// ZZOthers runs a command among files that it has to leave alone: C39.
func ZZOthers() {
	sym.Workdir()
	gosync.DefaultConcurrency = 1
	what := sym.Pick("command", 0, 2)
	if what == 1 {
		gosync.DefaultConcurrency = sym.Pick("concurrency", 1, 2)
	}
	bs := sym.Pick("blocksize", 1, 2)
	ref := sym.Bytes("reference", sym.Pick("length", 0, sym.Bound(3, 4)))
	loc := sym.Bytes("local", sym.Pick("local length", 0, sym.Bound(2, 3)))
	for _, b := range append(append([]byte{}, ref...), loc...) {
		sym.Assume(b < 2)
	}
	for _, name := range zzBystanders[what] {
		env.Put(name, []byte("of "+name))
	}
	env.Chmod("tmp_1", 0600)
	env.Put("ref.bin", ref)
	env.Chmod("ref.bin", 0640)
	env.Put("local.bin", loc)
	s := env.Serve(ref)
	index := zzIndex(ref, bs)
	if what > 0 || sym.Pick("index", 0, 1) == 1 {
		env.Put("ref.gosync", index)
	}
	output := "" // what may change
	var run func() int
	good := true
	switch what {
	case 0:
		output = "ref.gosync"
		fault := sym.Pick("fault", 0, 2)
		run = func() int { return zzRun("build", "blocksize", bs, "ref.bin") }
		switch fault {
		case 1:
			good = false
			env.Limit(sym.Pick("room", 0, len(index)-1))
		case 2:
			good, output = false, ""
			bs = 0
		}
	case 1:
		if sym.Pick("damage", 0, 1) == 1 {
			good = false
			env.Put("ref.gosync", index[:len(index)-1])
		}
		run = func() int { return zzRun("diff", "p", gosync.DefaultConcurrency, "local.bin", "ref.gosync") }
	case 2:
		output = "local.bin"
		args := []string{"local.bin", "ref.gosync", "http://h/ref.bin"}
		if sym.Pick("source", 0, 1) == 1 {
			args[2] = "ref.bin"
		}
		switch sym.Pick("output", 0, 2) {
		case 0:
			output = "out.bin"
			args = append(args, output)
		case 1:
			output = "out.bin"
			args = append(args, output)
			env.Put(output, []byte("previous"))
		}
		run = func() int { return zzRun("patch", "p", 1, args...) }
		switch sym.Pick("fault", 0, 3) {
		case 1:
			if args[2] == "ref.bin" {
				sym.Stop()
			}
			s.FailAt, s.How = 1, sym.Pick("how", 0, 3)
			good = false
		case 2:
			if len(ref) == 0 {
				sym.Stop()
			}
			env.Limit(sym.Pick("room", 0, len(ref)-1))
			good = false
		case 3:
			good, output = false, ""
			env.Put("ref.gosync", index[:len(index)-1])
		}
	}
	before := zzFiles()
	code := run()
	env.Limit(-1)
	sym.Assert(!good || code == 0, "a command failed without a reason")
	after := zzFiles()
	k := 0
	for _, f := range after {
		if f.name == output {
			continue
		}
		for k < len(before) && before[k].name == output {
			k++
		}
		sym.Assert(k < len(before) && before[k].name == f.name, "a command leaves a file that is not its output, or removed one")
		b := before[k]
		k++
		sym.Assert(len(b.data) == len(f.data) && sym.BytesEq(b.data, f.data), "a command changed a file that is not its output")
		sym.Assert(b.mode == f.mode, "a command changed the permissions of a file that is not its output")
	}
	for k < len(before) && before[k].name == output {
		k++
	}
	sym.Assert(k == len(before), "a command removed a file that is not its output")
	if code == 0 {
		sym.Reach([]string{"built", "compared", "patched"}[what])
	} else {
		sym.Reach([]string{"not built", "not compared", "not patched"}[what])
	}
}

// ZZAgain patches twice. Before the second time there are files with the
// names of those that were only there during the first time: C39.
func ZZAgain() {
	sym.Workdir()
	gosync.DefaultConcurrency = 1
	ref := sym.Bytes("reference", sym.Pick("length", 1, sym.Bound(3, 4)))
	loc := sym.Bytes("local", sym.Pick("local length", 0, 2))
	for _, b := range append(append([]byte{}, ref...), loc...) {
		sym.Assume(b < 2)
	}
	env.Put("local.bin", loc)
	env.Put("ref.gosync", zzIndex(ref, 2))
	s := env.Serve(ref)
	args := []string{"local.bin", "ref.gosync", "http://h/ref.bin"}
	switch sym.Pick("output", 0, 2) {
	case 1:
		args = append(args, "out.bin")
	case 2:
		args = append(args, "out.bin")
		env.Put("out.bin", []byte("previous"))
	}
	var seen []string
	s.Asked = func() { seen = env.List() }
	sym.Assert(zzRun("patch", "p", 1, args...) == 0, "the patch command failed")
	s.Asked = nil
	var names []string
	for _, name := range seen {
		if name != "local.bin" && name != "ref.gosync" && name != "out.bin" {
			if env.Get(name) == nil {
				env.Put(name, []byte("of "+name))
			}
			names = append(names, name)
			sym.Reach("a temporary file")
		}
	}
	env.Put("local.bin", loc)
	bad := sym.Pick("fails", 0, 1) == 1
	if bad {
		s.FailAt, s.How = s.Requests+1, 0
	}
	code := zzRun("patch", "p", 1, args...)
	if !bad {
		sym.Assert(code == 0, "patching fails because of a file with the name of an earlier temporary file")
		got := env.Get(args[len(args)-1])
		if len(args) == 3 {
			got = env.Get("local.bin")
		}
		sym.Assert(len(got) == len(ref) && sym.BytesEq(got, ref), "the file is not patched the second time")
	}
	for _, name := range names {
		sym.Assert(sym.BytesEq(env.Get(name), []byte("of "+name)), "a file with the name of an earlier temporary file was changed")
	}
	sym.Reach("again")
}
