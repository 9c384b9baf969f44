package main

import (
	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/zzverif/env"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// ZZDamagedIndex gives the patch and diff commands a damaged index.
func ZZDamagedIndex() { zzDamage(7, false) }

// ZZDamagedHeader gives the patch and diff commands an index with a bad header.
func ZZDamagedHeader() { zzDamage(2, true) }

func zzDamage(kinds int, header bool) {
	sym.Workdir()
	gosync.DefaultConcurrency = 1
	bs := 2
	ref := []byte("reference")
	if header {
		ref = ref[:sym.Pick("length", 0, 3)]
	} else {
		ref = ref[:sym.Pick("length", 0, 7)]
	}
	env.Put("ref.bin", ref)
	env.Serve(ref)
	sym.Assert(zzRun("build", "blocksize", bs, "ref.bin") == 0, "the build command failed")
	idx := env.Get("ref.gosync")
	blocks := (len(ref) + 1) / 2
	head := len(idx) - 20*blocks
	sym.Assert(head > 0, "the index has an unexpected length")
	kind := sym.Pick("damage", 0, kinds)
	switch kind {
	case 0: // cut anywhere
		if header {
			idx = idx[:sym.Pick("cut", 0, head-1)]
		} else {
			idx = idx[:sym.Pick("cut", 0, len(idx)-1)]
		}
		sym.Reach("cut")
	case 1: // another magic string
		k := sym.Pick("position", 0, len(magicString)-1)
		v := sym.Byte("value")
		sym.Assume(v != idx[k])
		idx[k] = v
		sym.Reach("magic")
	case 2: // another major version
		v := sym.Uint16("major")
		sym.Assume(v != majorVersion)
		idx[len(magicString)], idx[len(magicString)+1] = byte(v), byte(v>>8)
		sym.Reach("version")
	case 3: // checksums are missing somewhere
		if blocks == 0 {
			sym.Stop()
		}
		k := sym.Pick("first lost", 0, blocks-1)
		m := sym.Pick("lost", 1, blocks-k)
		idx = append(append([]byte{}, idx[:head+20*k]...), idx[head+20*(k+m):]...)
		sym.Reach("lost checksums")
	case 4: // a file size that requires more checksums
		v := sym.Uint64("size")
		sym.Assume(v > uint64(blocks*bs))
		for i := 0; i < 8; i++ {
			idx[head-12+i] = byte(v >> (8 * uint(i)))
		}
		sym.Reach("larger size")
	case 5: // a file size that requires fewer checksums
		v := sym.Uint64("size")
		sym.Assume(blocks > 0 && v <= uint64((blocks-1)*bs))
		for i := 0; i < 8; i++ {
			idx[head-12+i] = byte(v >> (8 * uint(i)))
		}
		sym.Reach("smaller size")
	case 6: // a block size that does not fit the number of checksums
		v := uint32(sym.Pick("other blocksize", 0, 9))
		if v > 0 && (len(ref)+int(v)-1)/int(v) == blocks {
			sym.Stop()
		}
		sym.Assume(blocks > 0 && v != uint32(bs))
		for i := 0; i < 4; i++ {
			idx[head-4+i] = byte(v >> (8 * uint(i)))
		}
		sym.Reach("other block size")
	}
	if kind == 7 { // more than the checksums of all blocks
		idx = append(idx, make([]byte, []int{1, 3, 4, 5, 19, 20, 21, 40}[sym.Pick("extra", 0, 7)])...)
		sym.Reach("extra bytes")
	}
	env.Put("ref.gosync", idx)
	if header {
		env.Put("local.bin", []byte("refe")[:sym.Pick("local length", 2, 3)])
	} else {
		env.Put("local.bin", []byte("refe")[:sym.Pick("local length", 0, 4)])
	}
	env.Put("out.bin", []byte("previous"))
	if sym.Pick("command", 0, 1) == 1 {
		code := zzRun("diff", "p", 1, "local.bin", "ref.gosync")
		sym.Assert(code != 0, "the diff command reported success with a damaged index")
		sym.Reach("diff")
		return
	}
	code := zzRun("patch", "p", 1, "local.bin", "ref.gosync", "http://h/ref.bin", "out.bin")
	sym.Assert(code != 0, "the patch command reported success with a damaged index")
}

// ZZBuildFault lets the build command fail to read or to write.
func ZZBuildFault() {
	sym.Workdir()
	ref := sym.Bytes("reference", sym.Pick("length", 1, 4))
	env.Put("ref.bin", ref)
	size := 6 + 6 + 8 + 4 + 20*((len(ref)+1)/2)
	switch sym.Pick("fault", 0, 2) {
	case 0:
		env.Limit(sym.Pick("room", 0, size-1))
		sym.Reach("index has not enough room")
	case 1:
		env.Spoil("ref.bin")
		sym.Reach("input cannot be read")
	case 2:
		env.Put("ref.gosync", nil)
		env.Fill("ref.gosync")
		sym.Reach("index cannot be written")
	}
	code := zzRun("build", "blocksize", 2, "ref.bin")
	env.Limit(-1)
	sym.Assert(code != 0, "reading or writing failed, but the build command reported success")
}
