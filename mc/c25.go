package main

// C25: the device memory allocator hands out disjoint, aligned, reusable memory.

import (
	"fmt"
	"sort"
	"strings"

	"verif/mc/bfcgen"
)

func init() {
	register(&Check{ID: "C25", Run: runC25, Procs: 1,
		Rule: "A case is an alignment, a region and a sequence of allocate, free, unknown-free and release calls; every sequence up to the depth bound is executed on the allocator's own code (compiled from the working tree without the GPU parts) and on a model that only knows the live allocations.",
		Assumptions: []string{"the region starts at a multiple of the alignment",
			"the files of /repo/cuda that need no GPU binding contain the allocator"}})
}

type bfcRegion struct {
	align, size int64
	start       uintptr
}

type bfcBlock struct {
	addr uintptr
	size int64
}

// bfcSym lists the calls possible with n live allocations.
func bfcSym(sizes []int64, nlive, nfreed int) []string {
	var out []string
	for i := range sizes {
		out = append(out, fmt.Sprintf("a%d", i))
	}
	for i := 0; i < nlive; i++ {
		out = append(out, fmt.Sprintf("f%d", i))
	}
	out = append(out, "u") // an address inside a block or never handed out
	if nfreed > 0 {
		out = append(out, "d") // the last freed address again
	}
	return out
}

func runC25(c *Ctx) {
	depth := 6
	if c.Thorough {
		depth = 7
	}
	for _, r := range []bfcRegion{{32, 128, 0}, {32, 128, 1024}, {32, 133, 64}, {8, 40, 16}, {256, 1024, 4096}, {1, 6, 3}} {
		r := r
		a := r.align
		sizes := []int64{a - 1, a, a + 1, 2 * a, r.size - r.size%a}
		if a == 1 {
			sizes = []int64{1, 2, 3, 4, 6}
		}
		// a case is a prefix of three calls with all its continuations
		syms := bfcSym(sizes, 3, 1)
		for _, x := range syms {
			for _, y := range syms {
				for _, z := range syms {
					h := []string{x, y, z}
					c.Case(func() string {
						return fmt.Sprintf("seq|align=%d size=%d start=%d|%s", r.align, r.size, r.start, strings.Join(h, " "))
					}, func(t *T) {
						var rec func(h []string)
						rec = func(h []string) {
							nl, nf, ok := bfcCase(t, r, sizes, h)
							if !ok || len(h) == depth {
								return
							}
							for _, s := range bfcSym(sizes, nl, nf) {
								rec(append(h[:len(h):len(h)], s))
							}
						}
						rec(h)
					})
				}
			}
		}
		// requests that can never be met
		for _, s := range []int64{0, -1, -r.align, r.size + 1, r.size + r.align, 10 * r.size} {
			s := s
			c.Case(func() string { return fmt.Sprintf("impossible|align=%d size=%d|%d", r.align, r.size, s) }, func(t *T) {
				b := bfcgen.New(r.align)
				b.Reserve(r.start, r.size)
				for i := 0; i < 3; i++ {
					if _, err := b.Alloc(s); err == nil {
						t.Failf("request for %d bytes granted", s)
					}
				}
				var old []uintptr
				for {
					a, err := b.Alloc(r.align)
					if err != nil {
						break
					}
					old = append(old, a)
				}
				for _, a := range old {
					b.Free(a)
				}
				if _, err := b.Alloc(r.size - r.size%r.align); err != nil {
					t.Failf("the region cannot be allocated after a refused request: %v", err)
				}
				for _, a := range old[1:] {
					b.Free(a)
				}
				if a, err := b.Alloc(r.align); err == nil {
					t.Failf("allocation at %d granted although the region is in use", a)
				}
				if rel := b.Release(); rel != r.start {
					t.Failf("release returned %d, want %d", rel, r.start)
				}
				if _, err := b.Alloc(1); err == nil {
					t.Failf("allocation granted after the region was released")
				}
				b.Reserve(r.start, r.size)
				if _, err := b.Alloc(r.size - r.size%r.align); err != nil {
					t.Failf("the region cannot be allocated after being reserved again: %v", err)
				}
				// addresses of the old region mean nothing now
				for _, a := range old[1:] {
					b.Free(a)
				}
				if a, err := b.Alloc(r.align); err == nil {
					t.Failf("allocation at %d granted although the region is in use again", a)
				}
				b.Release()
				b.Reserve(r.start, r.size)
				var live []uintptr
				for range old {
					a, err := b.Alloc(r.align)
					if err != nil {
						t.Failf("only %d of %d blocks allocated after being reserved again", len(live), len(old))
					}
					live = append(live, a)
				}
				b.Release()
				b.Reserve(r.start, r.size)
				if _, err := b.Alloc(r.size - r.size%r.align); err != nil {
					t.Failf("the region cannot be allocated after a release with live blocks: %v", err)
				}
				for _, a := range live[1:] {
					b.Free(a)
				}
				if a, err := b.Alloc(r.align); err == nil {
					t.Failf("allocation at %d granted after freeing addresses of a released region", a)
				}
				t.Trans(8)
				t.Trace(1)
			})
		}
	}
}

// bfcCase runs one sequence; it returns the number of live and freed blocks
// (false: the sequence refers to a block that does not exist).
func bfcCase(t *T, r bfcRegion, sizes []int64, h []string) (int, int, bool) {
	b := bfcgen.New(r.align)
	b.Reserve(r.start, r.size)
	var live, freed []bfcBlock
	for k, s := range h {
		if s[0] == 'f' && int(s[1]-'0') >= len(live) || s[0] == 'd' && len(freed) == 0 {
			return 0, 0, false // no such call
		}
		when := fmt.Sprintf("%s, call %d", strings.Join(h, " "), k)
		switch s[0] {
		case 'a':
			size := sizes[s[1]-'0']
			want := bfcFits(r, live, size)
			addr, err := b.Alloc(size)
			if err != nil {
				if want {
					t.Failf("%s: %d bytes refused (%v) although they fit between %v", when, size, err, live)
				}
				continue
			}
			if addr%uintptr(r.align) != 0 {
				t.Failf("%s: address %d not aligned to %d", when, addr, r.align)
			}
			if addr < r.start || addr+uintptr(size) > r.start+uintptr(r.size) {
				t.Failf("%s: [%d,%d) outside the region [%d,%d)", when, addr, addr+uintptr(size), r.start, r.start+uintptr(r.size))
			}
			for _, l := range live {
				if addr < l.addr+uintptr(l.size) && l.addr < addr+uintptr(size) {
					t.Failf("%s: [%d,%d) overlaps live [%d,%d)", when, addr, addr+uintptr(size), l.addr, l.addr+uintptr(l.size))
				}
			}
			live = append(live, bfcBlock{addr, size})
			for i, f := range freed {
				if f.addr == addr {
					freed = append(freed[:i:i], freed[i+1:]...)
					break
				}
			}
		case 'f':
			i := int(s[1] - '0')
			b.Free(live[i].addr)
			freed = append(freed, live[i])
			live = append(live[:i:i], live[i+1:]...)
		case 'd':
			b.Free(freed[len(freed)-1].addr)
		case 'u':
			b.Free(r.start + uintptr(r.size) + 7)
			for _, l := range live {
				if l.size > 1 {
					b.Free(l.addr + 1)
				}
			}
		}
		t.Trans(1)
	}
	nl, nf := len(live), len(freed)
	t.State(fmt.Sprint(r), fmt.Sprint(sortedBlocks(live)))
	// everything freed, in both orders: the whole region is available again
	if len(h)%2 == 0 {
		for _, l := range live {
			b.Free(l.addr)
		}
	} else {
		for i := range live {
			b.Free(live[len(live)-1-i].addr)
		}
	}
	if _, err := b.Alloc(r.size - r.size%r.align); err != nil {
		t.Failf("%s: after freeing everything the region cannot be allocated again: %v", strings.Join(h, " "), err)
	}
	t.Trans(nl + 1)
	t.Trace(1)
	return nl, nf, true
}

func sortedBlocks(l []bfcBlock) []bfcBlock {
	s := append([]bfcBlock{}, l...)
	sort.Slice(s, func(i, j int) bool { return s[i].addr < s[j].addr })
	return s
}

// bfcFits reports whether the aligned size fits into a gap.
func bfcFits(r bfcRegion, live []bfcBlock, size int64) bool {
	up := func(x int64) int64 { return (x + r.align - 1) / r.align * r.align }
	need := up(size)
	at := int64(0)
	for _, l := range append(sortedBlocks(live), bfcBlock{r.start + uintptr(r.size), 0}) {
		if int64(l.addr-r.start)-at >= need {
			return true
		}
		at = up(int64(l.addr-r.start) + l.size)
	}
	return false
}
