// Package fail chooses errors.
package fail

import (
	"io"

	"github.com/Redundancy/go-sync/zzverif/sym"
)

var kind int

// Of is err or an error with a meaning to package io, the same one wherever
// it is called.
func Of(err error) error {
	if kind == 0 {
		kind = sym.Pick("kind of failure", 1, 3)
	}
	return []error{err, io.EOF, io.ErrUnexpectedEOF}[kind-1]
}
