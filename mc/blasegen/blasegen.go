// Package blasegen is the batching library of /repo/blase on the controlled
// runtime. Its files are generated from the working tree at check time (see
// ../gen); this file is the placeholder other checks are built with.
package blasegen

import (
	"gonum.org/v1/gonum/blas"

	"verif/mc/vs"
)

// B is the batching library.
type B interface {
	blas.Float64
	DoWork()
	WorkAvailable() *vs.Chan[struct{}]
}

// New makes the library anew.
func New() B { panic("built without the batching library") }
