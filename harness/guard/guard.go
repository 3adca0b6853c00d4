//go:build linux && amd64

// Package guard provides buffers that end (or begin) exactly at an inaccessible
// page, in two mappings of the same memory: one for the harness, and one for the
// code under test, which may be read-only.
package guard

import (
	"fmt"
	"syscall"
	"unsafe"
)

const page = 4096

type Region struct {
	rw   []byte // harness view
	view []byte // view given to the code under test, guarded on both sides
	base uintptr
	Name string
}

func memfd(size int) int {
	name, _ := syscall.BytePtrFromString("svb")
	fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(name)), 1, 0)
	if e != 0 {
		panic(fmt.Sprintf("memfd_create: %v", e))
	}
	if err := syscall.Ftruncate(int(fd), int64(size)); err != nil {
		panic(err)
	}
	return int(fd)
}

// New maps a region of at least size bytes.
func New(name string, size int, readonly bool) *Region {
	size = (size + page - 1) &^ (page - 1)
	fd := memfd(size)
	defer syscall.Close(fd)
	rw, err := syscall.Mmap(fd, 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	const g = 64 * page
	hole, _, e := syscall.Syscall6(syscall.SYS_MMAP, 0, uintptr(size+2*g), syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON, ^uintptr(0), 0)
	if e != 0 {
		panic(e)
	}
	prot := uintptr(syscall.PROT_READ)
	if !readonly {
		prot |= syscall.PROT_WRITE
	}
	at, _, e := syscall.Syscall6(syscall.SYS_MMAP, hole+g, uintptr(size), prot, syscall.MAP_SHARED|syscall.MAP_FIXED, uintptr(fd), 0)
	if e != 0 || at != hole+g {
		panic(e)
	}
	return &Region{rw: rw, view: unsafe.Slice((*byte)(unsafe.Pointer(at)), size), base: at, Name: name}
}

func (r *Region) Size() int { return len(r.rw) }

// A Buf is one placement of n bytes in a region. W is the harness view, V the
// view for the code under test.
type Buf struct {
	W, V   []byte
	off    int
	r      *Region
	lo, hi int // canary range
}

const slack = 192

// Place puts n bytes so that they end at the guard page (end true) or begin
// behind one. The rest of the neighbourhood is filled with a canary.
func (r *Region) Place(n int, end bool, shift int) Buf {
	off := shift
	if end {
		off = len(r.rw) - n - shift
	}
	if off < 0 || off+n > len(r.rw) {
		panic("guard: region too small")
	}
	b := Buf{W: r.rw[off : off+n : off+n], V: r.view[off : off+n : off+n], off: off, r: r}
	b.lo, b.hi = max(0, off-slack), min(len(r.rw), off+n+slack)
	for i := b.lo; i < off; i++ {
		r.rw[i] = canary(i)
	}
	for i := off + n; i < b.hi; i++ {
		r.rw[i] = canary(i)
	}
	return b
}

func canary(i int) byte { return byte(i*167+91) | 1 }

// Intact reports the offset, relative to the buffer, of the first changed canary.
func (b Buf) Intact() (rel int, ok bool) {
	for i := b.lo; i < b.off; i++ {
		if b.r.rw[i] != canary(i) {
			return i - b.off, false
		}
	}
	for i := b.off + len(b.W); i < b.hi; i++ {
		if b.r.rw[i] != canary(i) {
			return i - b.off, false
		}
	}
	return 0, true
}

// Grow is the view with its capacity extended by n bytes of canary.
func (b Buf) Grow(n int) []byte {
	return b.r.view[b.off : b.off+len(b.W) : b.off+len(b.W)+n]
}

func U32(b []byte) []uint32 {
	if len(b) == 0 {
		return unsafe.Slice((*uint32)(unsafe.Pointer(unsafe.SliceData(b))), cap(b)/4)[:0]
	}
	return unsafe.Slice((*uint32)(unsafe.Pointer(&b[0])), cap(b)/4)[: len(b)/4 : cap(b)/4]
}

// Where describes an address relative to the regions.
func Where(addr uintptr, rs ...*Region) string {
	for _, r := range rs {
		lo, hi := r.base, r.base+uintptr(len(r.rw))
		switch {
		case addr >= lo && addr < hi:
			return fmt.Sprintf("%s+%d", r.Name, addr-lo)
		case addr >= hi && addr < hi+64*page:
			return fmt.Sprintf("%d bytes beyond the end of %s", addr-hi, r.Name)
		case addr < lo && addr >= lo-64*page:
			return fmt.Sprintf("%d bytes before the start of %s", lo-addr, r.Name)
		}
	}
	return "elsewhere"
}

// Stretch is s with another length, beyond what is accessible.
func Stretch[T any](s []T, n int) []T { return unsafe.Slice(unsafe.SliceData(s), n) }

// Spare is s with n more elements of capacity, which are not accessible.
func Spare[T any](s []T, n int) []T { return Stretch(s, len(s)+n)[:len(s)] }

// Contains tells whether addr lies in the view.
func (r *Region) Contains(addr uintptr) bool {
	return addr >= r.base && addr < r.base+uintptr(len(r.rw))
}

// Put stores b at offset off; the result is its address in the view.
func (r *Region) Put(off int, b []byte) unsafe.Pointer {
	copy(r.rw[off:off+len(b)], b)
	return unsafe.Pointer(&r.view[off])
}
