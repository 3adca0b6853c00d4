//go:build verifalloc

// Package alloc directs the pointer-free heap allocations made during a call
// to slots next to inaccessible pages. It needs the runtime patched by
// tool/special.py (by an overlay at build time).
package alloc

import (
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"unsafe"
)

const (
	Slots    = 6
	SlotSize = 18 << 20
	Workers  = 64
	guard    = 64 << 10
)

// Entry mirrors verifEntry in the patched runtime.
type Entry struct {
	Goid uint64
	Used uint64
	End  uint64 // place allocations at the end of their slots
	Base [Slots]uintptr
	At   [Slots]uintptr
	Size [Slots]uintptr
	Miss uint64
}

var table *[Workers]Entry

//go:linkname setup runtime.verifSetup
func setup(p unsafe.Pointer)

func mmap(addr, size uintptr, prot, flags uintptr) uintptr {
	p, _, e := syscall.Syscall6(syscall.SYS_MMAP, addr, size, prot, flags, ^uintptr(0), 0)
	if e != 0 {
		panic(e)
	}
	return p
}

func init() {
	p := mmap(0, unsafe.Sizeof(*table), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	table = (*[Workers]Entry)(unsafe.Pointer(p))
	setup(unsafe.Pointer(table))
}

type Hook struct {
	e    *Entry
	goid uint64
}

// New makes the hook of the calling goroutine, which must be the only user of id.
func New(id int) *Hook {
	h := &Hook{e: &table[id]}
	var b [64]byte
	f := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
	h.goid, _ = strconv.ParseUint(f[1], 10, 64)
	for i := range h.e.Base {
		if h.e.Base[i] == 0 {
			hole := mmap(0, SlotSize+2*guard, syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
			h.e.Base[i] = mmap(hole+guard, SlotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_FIXED)
		}
	}
	return h
}

const pad = 256

func canary(i uintptr) byte { return byte(i*41+7) | 1 }

// Run calls f with the hook on.
func (h *Hook) Run(end bool, f func()) {
	h.e.Used, h.e.End, h.e.Miss = 0, 0, 0
	if end {
		h.e.End = 1
	}
	h.e.Goid = h.goid
	defer func() { h.e.Goid = 0 }()
	f()
}

// Used is the number of allocations placed, Missed that of the ones that did not fit.
func (h *Hook) Used() int   { return int(h.e.Used) }
func (h *Hook) Missed() int { return int(h.e.Miss) }

// Holds tells whether [p, p+n) lies in one allocation of the last Run.
func (h *Hook) Holds(p unsafe.Pointer, n int) bool {
	for i := 0; i < int(h.e.Used); i++ {
		if uintptr(p) >= h.e.At[i] && uintptr(p)+uintptr(n) <= h.e.At[i]+h.e.Size[i] {
			return true
		}
	}
	return false
}

func bytes(p, n uintptr) []byte { return unsafe.Slice((*byte)(unsafe.Pointer(p)), n) }

// Overrun is the offset of the first changed canary relative to allocation i,
// or 0. The runtime fills the open side with the canary.
func (h *Hook) Overrun() (i int, off int) {
	for i := 0; i < int(h.e.Used); i++ {
		at, size, base := h.e.At[i], h.e.Size[i], h.e.Base[i]
		lo := max(base, at-pad)
		for p := lo; p < at; p++ {
			if *(*byte)(unsafe.Pointer(p)) != canary(p) {
				return i, int(p) - int(at)
			}
		}
		for p := at + size; p < min(base+SlotSize, at+size+pad); p++ {
			if *(*byte)(unsafe.Pointer(p)) != canary(p) {
				return i, int(p - at)
			}
		}
	}
	return 0, 0
}

// Where describes an address relative to the allocations of the last Run.
func (h *Hook) Where(a uintptr) string {
	for i := 0; i < int(h.e.Used); i++ {
		if a >= h.e.Base[i]-guard && a < h.e.Base[i]+SlotSize+guard {
			return "allocation " + strconv.Itoa(i) + " of " + strconv.Itoa(int(h.e.Size[i])) + " bytes, offset " + strconv.Itoa(int(a)-int(h.e.At[i]))
		}
	}
	return ""
}
