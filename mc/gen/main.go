// gen writes, for the checks that need it, packages generated from the working
// tree of the repository, and an overlay file that makes them part of the build.
//
//	gen <property> <repo> <mc directory> <output directory>
package main

import (
	"encoding/json"
	"fmt"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(2)
}

var overlay = map[string]string{}

func main() {
	if len(os.Args) != 5 {
		fatal("usage: gen <property> <repo> <mc> <out>")
	}
	prop, repo, mc, out := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	if err := os.MkdirAll(out, 0o755); err != nil {
		fatal(err)
	}
	switch prop {
	case "C22", "C23":
		genXVM(repo, mc, out)
	case "C26":
		genPackage(repo, "blase", mc, "blasegen", out, true)
		put(out, filepath.Join(mc, "blasegen", "blasegen.go"), blaseAccess)
	case "C25":
		genBFC(repo, mc, out)
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fatal(err)
	}
}

// put writes a generated file that the build sees as target.
func put(out, target, content string) {
	f := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(target, "/"), "/", "_"))
	if err := os.WriteFile(f, []byte(content), 0o644); err != nil {
		fatal(err)
	}
	overlay[target] = f
}

// included evaluates build constraints for a build without tags.
func included(src string) bool {
	for _, l := range strings.Split(src, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "package ") {
			break
		}
		if constraint.IsGoBuild(t) || constraint.IsPlusBuild(t) {
			x, err := constraint.Parse(t)
			if err != nil {
				continue
			}
			if !x.Eval(func(tag string) bool {
				return tag == "linux" || tag == "amd64" || strings.HasPrefix(tag, "go1.") || tag == "gc"
			}) {
				return false
			}
		}
	}
	return true
}

const bfcAccess = `package bfcgen

// Allocator is the allocator under test.
type Allocator interface {
	Reserve(start uintptr, size int64)
	Release() uintptr
	Alloc(size int64) (uintptr, error)
	Free(addr uintptr)
}

type verifAllocator struct{ b *bfc }

func (a verifAllocator) Reserve(start uintptr, size int64)  { a.b.reserve(start, size) }
func (a verifAllocator) Release() uintptr                   { return a.b.release() }
func (a verifAllocator) Alloc(size int64) (uintptr, error)  { return a.b.alloc(size) }
func (a verifAllocator) Free(addr uintptr)                  { a.b.free(addr) }

// New makes an allocator.
func New(alignment int64) Allocator { return verifAllocator{newBFC(alignment)} }
`

const blaseAccess = `package blasegen

import (
	"gonum.org/v1/gonum/blas"

	"verif/mc/vs"
)

// B is the batching library.
type B interface {
	blas.Float64
	DoWork()
	WorkAvailable() *vs.Chan[struct{}]
}

// New makes the library anew.
func New() B {
	vsReset()
	return Implementation()
}
`

// genBFC compiles every file of the cuda package that needs nothing but the
// standard library and errors.
func genBFC(repo, mc, out string) {
	files, _ := filepath.Glob(filepath.Join(repo, "cuda", "*.go"))
	n := 0
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			fatal(err)
		}
		src := string(b)
		if !included(src) {
			continue
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, parser.ImportsOnly)
		if err != nil {
			fatal(err)
		}
		ok := true
		for _, im := range af.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if p == "C" || strings.Contains(p, "gorgonia.org") {
				ok = false
			}
		}
		if !ok {
			continue
		}
		off := fs.Position(af.Name.Pos()).Offset
		end := fs.Position(af.Name.End()).Offset
		put(out, filepath.Join(mc, "bfcgen", "cuda_"+filepath.Base(f)), src[:off]+"bfcgen"+src[end:])
		n++
	}
	if n == 0 {
		fatal("no allocator files found")
	}
	put(out, filepath.Join(mc, "bfcgen", "bfcgen.go"), bfcAccess)
}
