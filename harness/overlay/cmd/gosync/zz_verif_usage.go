package main

import (
	"github.com/Redundancy/go-sync/zzverif/env"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// ZZFailing runs commands that cannot do what they are asked for: C36.
func ZZFailing() {
	sym.Workdir()
	data := sym.Bytes("data", sym.Pick("length", 0, 3))
	for i := range data {
		sym.Assume(data[i] < 2)
	}
	env.Put("ref.bin", data)
	env.Put("local.bin", []byte("local"))
	env.Put("good.gosync", zzIndex(data, 2))
	env.Mkdir("dir")
	env.Put("x.bin", data)
	env.Mkdir("x.gosync")
	env.Put("old.bin", []byte("old"))
	env.Serve(data)
	dir, none := "dir", "none"
	cases := [][]string{
		{"build"},
		{"build", none},
		{"build", "none/ref.bin"},
		{"build", ""},
		{"build", "x.bin"},
		{"diff"},
		{"diff", "local.bin"},
		{"diff", "local.bin", none},
		{"diff", none, "good.gosync"},
		{"diff", "local.bin", dir},
		{"diff", dir, "good.gosync"},
		{"patch"},
		{"patch", "local.bin"},
		{"patch", "local.bin", "good.gosync"},
		{"patch", "local.bin", "good.gosync", "http://h/ref.bin", "out.bin", "more"},
		{"patch", none, "good.gosync", "http://h/ref.bin"},
		{"patch", none, "good.gosync", "http://h/ref.bin", "out.bin"},
		{"patch", none, "good.gosync", "http://h/ref.bin", "old.bin"},
		{"patch", "local.bin", none, "http://h/ref.bin"},
		{"patch", "local.bin", none, "http://h/ref.bin", "old.bin"},
		{"patch", "local.bin", "local.bin", "http://h/ref.bin", "old.bin"},
		{"patch", "local.bin", dir, "http://h/ref.bin", "out.bin"},
		{"patch", "local.bin", "good.gosync", "http://h/ref.bin", "none/out.bin"},
		{"patch", "local.bin", "good.gosync", "http://h/ref.bin", dir},
		{"patch", "local.bin", "local.bin", "http://h/ref.bin", "out.bin"},
		{"diff", "local.bin", "local.bin"},
		{"build", "-nosuch", "ref.bin"},
		{"build", "-blocksize", "ref.bin"},
		{"build", "-blocksize=2x", "ref.bin"},
		{"build", "-blocksize=99999999999999999999", "ref.bin"},
		{"build", "-blocksize=0", "ref.bin"},
		{"build", "-blocksize=4294967296", "ref.bin"},
		{"diff", "-nosuch=1", "local.bin", "good.gosync"},
		{"diff", "-p", "two", "local.bin", "good.gosync"},
		{"diff", "-p", "local.bin", "good.gosync"},
		{"patch", "-nosuch", "local.bin", "good.gosync", "http://h/ref.bin", "old.bin"},
		{"patch", "-p=-", "local.bin", "good.gosync", "http://h/ref.bin", "old.bin"},
		{"-nosuch", "build", "ref.bin"},
		{"nosuch", "ref.bin"},
	}
	c := cases[sym.Pick("case", 0, len(cases)-1)]
	before := env.List()
	code := zzRun(c[0], "", 0, c[1:]...)
	sym.Assert(code != 0, "a command that cannot do what it is asked for reports success")
	after := env.List()
	sym.Assert(len(after) == len(before), "a command that cannot do what it is asked for leaves a file")
	for i := range before {
		sym.Assert(before[i] == after[i], "a command that cannot do what it is asked for leaves another file")
	}
	got := env.Get("ref.bin")
	sym.Assert(len(got) == len(data) && sym.BytesEq(got, data), "a command that failed changed the reference")
	sym.Assert(sym.BytesEq(env.Get("old.bin"), []byte("old")), "a command that failed changed the output")
	sym.Assert(sym.BytesEq(env.Get("local.bin"), []byte("local")), "a command that failed changed the local file")
	sym.Assert(sym.BytesEq(env.Get("good.gosync"), zzIndex(data, 2)), "a command that failed changed the index")
	sym.Reach(c[0])
}
