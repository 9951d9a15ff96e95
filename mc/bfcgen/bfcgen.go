// Package bfcgen gives access to the device memory allocator in /repo/cuda.
// The package there cannot be built without a GPU toolkit, so the allocator's
// files are compiled into this one at check time (see gen); this file is the
// placeholder other checks are built with.
package bfcgen

// Allocator is the allocator under test.
type Allocator interface {
	Reserve(start uintptr, size int64)
	Release() uintptr
	Alloc(size int64) (uintptr, error)
	Free(addr uintptr)
}

// New makes an allocator.
func New(alignment int64) Allocator { panic("built without the allocator") }
