//go:build verifalloc

package checks

import (
	"fmt"
	"unsafe"

	"svbverif/alloc"
	"svbverif/api"
	"svbverif/guard"
	"svbverif/rt"
)

func init() {
	All["C08"] = Def{
		Phases: func(th bool) []rt.Phase {
			return seqPhases(th, scale{MaxBig: 1<<22 + 64}, func(w *rt.W, nums []uint32) {
				writerMemory(w, 0, nums, 0)
				deltaVariants(&w.R, nums, func(v []uint32, p uint32) { writerMemory(w, 1, v, p) })
			})
		},
		Rule: seqRule + " Each lies in read-only memory that ends or begins at an inaccessible page, some with capacity beyond it; pointer-free heap allocations made during the call likewise end or begin at one, with canaries on the open side.",
		Must: append(names(api.Writers[0]), append(names(api.Writers[1]), "results ending at a guard page", "results beginning at a guard page", "inputs ending at a guard page", "inputs beginning at a guard page", "inputs with inaccessible capacity")...),
	}
}

type hooked struct {
	ro *guard.Region
	h  *alloc.Hook
	ph *rt.Phase
}

func writerMemory(w *rt.W, delta int, nums []uint32, prev uint32) {
	n := len(nums)
	s := rt.State(w, "hooked", func() *hooked { return &hooked{ro: guard.New("in", 17<<20, true)} })
	if s.ph != w.Phase { // a new goroutine per phase
		s.ph, s.h = w.Phase, alloc.New(w.ID)
	}
	for i := range api.Writers[delta] {
		wr := &api.Writers[delta][i]
		ie, re := w.R.N(2) == 0, w.R.N(4) > 0
		ib := s.ro.Place(4*n, ie, 0)
		copy(guard.U32(ib.W), nums)
		in := guard.U32(ib.V)
		spare := 0
		if ie && w.R.N(2) == 0 {
			// capacity is room for appending to the slice, not a part of it
			spare = 1 + w.R.N(64)
			in = guard.Spare(in, spare)
			w.Count("inputs with inaccessible capacity", 1)
		}
		desc := func() string {
			return fmt.Sprintf("%d values (capacity for %d more) at %s, result at %s, prev=%#x values %s", n, spare, side(ie), side(re), prev, rt.Nums(nums))
		}
		var st []byte
		p := w.Try(wr.Name, func() { s.h.Run(re, func() { st = wr.Fn(in, prev) }) })
		if p != nil {
			kind, where := "panic", ""
			if rt.IsFault(p) {
				kind = "memory-fault"
				if a, ok := p.(interface{ Addr() uintptr }); ok {
					if where = s.h.Where(a.Addr()); where == "" {
						where = guard.Where(a.Addr(), s.ro)
					}
				}
			}
			w.Violate(wr.Name, kind, "%v (%s); %s", p, where, desc())
			continue
		}
		if ie {
			w.Count("inputs ending at a guard page", 1)
		} else {
			w.Count("inputs beginning at a guard page", 1)
		}
		if k, off := s.h.Overrun(); off != 0 {
			w.Violate(wr.Name, "overrun", "changed the byte at offset %d of allocation %d; %s", off, k, desc())
		}
		if n == 0 {
			continue
		}
		if s.h.Holds(unsafe.Pointer(unsafe.SliceData(st)), cap(st)) {
			if re {
				w.Count("results ending at a guard page", 1)
			} else {
				w.Count("results beginning at a guard page", 1)
			}
		} else if s.h.Holds(unsafe.Pointer(unsafe.SliceData(st)), 1) {
			w.Violate(wr.Name, "result-bounds", "the result (cap %d) exceeds the memory allocated for it; %s", cap(st), desc())
		} else {
			w.Count("results elsewhere", 1)
		}
	}
}
