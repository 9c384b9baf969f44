package rs

import (
	"bytes"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/zzverif/big"
	"github.com/Redundancy/go-sync/zzverif/env"
	"github.com/Redundancy/go-sync/zzverif/sym"
)

// Large patches with larger blocks and files.
func Large() {
	c := []int{1, 2, 4, 3}[sym.Pick("concurrency", 0, sym.Bound(2, 3))]
	gosync.DefaultConcurrency = c
	bs := []int{128, 1000, 4096}[sym.Pick("blocksize", 0, 2)]
	n := bs*[]int{1, 8, 13}[sym.Pick("blocks", 0, 2)] - []int{0, 1, bs - 1}[sym.Pick("short", 0, 2)]
	ref := big.Bytes(n)
	loc := append([]byte{}, ref...)
	switch sym.Pick("local file", 0, 4) {
	case 1:
		loc[n/2] = loc[n/2] + 1
	case 2:
		loc = append(loc, 1)
	case 3:
		loc = loc[:n-1]
	case 4:
		loc = append([]byte{1}, loc...)
		sym.Reach("moved")
	}
	if len(loc) > 0 && bs < 200 {
		loc[len(loc)-1] = sym.Byte("last")
	}
	src := newSource(ref, bs)
	var out bytes.Buffer
	r := &gosync.RSync{Input: bytes.NewReader(loc), Source: src, Output: &out, Summary: newSummary(ref, bs)}
	err := r.Patch()
	check(err, out.Bytes(), ref)
	env.InPlace(src.requested, ref, loc, bs)
	if c > 1 && n > 4096 {
		sym.Reach("large sections")
	}
}
