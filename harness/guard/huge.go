//go:build linux && amd64

package guard

import (
	"syscall"
	"unsafe"
)

func mmap(addr, size uintptr, prot, flags, fd uintptr) uintptr {
	p, _, e := syscall.Syscall6(syscall.SYS_MMAP, addr, size, prot, flags, fd, 0)
	if e != 0 {
		panic(e)
	}
	return p
}

// Tiled is reserved address space filled with repeated read-only mappings of
// tile, whose length is a multiple of the page size; lead bytes of ordinary
// memory come before them. A guard page follows at the page boundary.
type Tiled struct {
	base, size uintptr
	lead       uintptr
}

func NewTiled(lead int, tile []byte, total int) *Tiled {
	ts := uintptr(len(tile))
	if ts%page != 0 || ts == 0 {
		panic("tile is not whole pages")
	}
	fd := memfd(len(tile))
	defer syscall.Close(fd)
	for off := 0; off < len(tile); {
		n, err := syscall.Pwrite(fd, tile[off:min(len(tile), off+1<<28)], int64(off))
		if err != nil {
			panic(err)
		}
		off += n
	}
	l := (uintptr(lead) + page - 1) &^ (page - 1)
	k := (uintptr(total) + ts - 1) / ts
	size := l + k*ts + page
	base := mmap(0, size, syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE, ^uintptr(0))
	if l > 0 {
		mmap(base, l, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_FIXED, ^uintptr(0))
	}
	for i := uintptr(0); i < k; i++ {
		mmap(base+l+i*ts, ts, syscall.PROT_READ, syscall.MAP_SHARED|syscall.MAP_FIXED, uintptr(fd))
	}
	return &Tiled{base, size, l}
}

// Bytes is the slice of lead bytes followed by total bytes of tiles.
func (t *Tiled) Bytes(lead, total int) []byte {
	return unsafe.Slice((*byte)(unsafe.Pointer(t.base+t.lead-uintptr(lead))), lead+total)
}
func (t *Tiled) U32(n int) []uint32 {
	return unsafe.Slice((*uint32)(unsafe.Pointer(t.base+t.lead)), n)
}
func (t *Tiled) Free() { syscall.Syscall(syscall.SYS_MUNMAP, t.base, t.size, 0) }

// Anon is ordinary memory outside the Go heap.
type Anon struct{ base, size uintptr }

func NewAnon(size int) *Anon {
	s := (uintptr(size) + page - 1) &^ (page - 1)
	a := &Anon{mmap(0, s, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE, ^uintptr(0)), s}
	syscall.Syscall(syscall.SYS_MADVISE, a.base, a.size, 14) // huge pages if there are any
	return a
}
func (a *Anon) U32(n int) []uint32 { return unsafe.Slice((*uint32)(unsafe.Pointer(a.base)), n) }
func (a *Anon) Free()              { syscall.Syscall(syscall.SYS_MUNMAP, a.base, a.size, 0) }
