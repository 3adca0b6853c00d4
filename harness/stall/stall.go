//go:build linux && amd64

// Package stall provides memory whose accesses wait, from a chosen byte on, until
// they are released (userfaultfd), so that a call stops half-way and goes on later.
//
// While a call is stalled the world must not be stopped: the collector has to be off.
package stall

import (
	"syscall"
	"unsafe"
)

const page = 4096

// An Area is memory of half bytes that are accessible, followed by half bytes that may not be.
type Area struct {
	fd   int
	half int
	mem  []byte
	next []byte // what the second half will contain
	armed,
	hit bool
}

func ioctl(fd int, req uintptr, arg unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), req, uintptr(arg)); e != 0 {
		return e
	}
	return nil
}

// New fails where the system does not provide the means.
func New(half int) (*Area, error) {
	half = (half + page - 1) &^ (page - 1)
	const userModeOnly = 1
	fd, _, e := syscall.Syscall(323, syscall.O_CLOEXEC|syscall.O_NONBLOCK|userModeOnly, 0, 0)
	if e != 0 {
		return nil, e
	}
	a := &Area{fd: int(fd), half: half, next: make([]byte, half)}
	api := [3]uint64{0xaa}
	err := ioctl(a.fd, 0xc018aa3f, unsafe.Pointer(&api))
	if err == nil {
		a.mem, err = syscall.Mmap(-1, 0, 2*half, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	}
	if err == nil {
		reg := [4]uint64{uint64(uintptr(unsafe.Pointer(&a.mem[half]))), uint64(half), 1}
		err = ioctl(a.fd, 0xc020aa00, unsafe.Pointer(&reg))
	}
	if err != nil {
		syscall.Close(a.fd)
		return nil, err
	}
	return a, nil
}

// Lay puts b in the memory; accesses from byte k on wait for Release.
func (a *Area) Lay(b []byte, k int) []byte {
	if a.armed {
		panic("stall: not released")
	}
	if k > a.half || len(b)-k > a.half {
		panic("stall: area too small")
	}
	if _, _, e := syscall.Syscall(syscall.SYS_MADVISE, uintptr(unsafe.Pointer(&a.mem[a.half])), uintptr(a.half), 4); e != 0 { // MADV_DONTNEED
		panic(e)
	}
	copy(a.mem[a.half-k:a.half], b)
	clear(a.next)
	copy(a.next, b[k:])
	a.armed, a.hit = true, false
	return a.mem[a.half-k : a.half-k+len(b) : a.half-k+len(b)]
}

// Lay32 is Lay for integers; k is in bytes.
func (a *Area) Lay32(v []uint32, k int) []uint32 {
	if len(v) == 0 {
		return a.u32(a.Lay(nil, k&^3), 0)
	}
	b := unsafe.Slice((*byte)(unsafe.Pointer(&v[0])), 4*len(v))
	return a.u32(a.Lay(b, k), len(v))
}

func (a *Area) u32(b []byte, n int) []uint32 {
	return unsafe.Slice((*uint32)(unsafe.Pointer(unsafe.SliceData(b))), n)
}

// Hit tells whether an access has been waiting since Lay.
func (a *Area) Hit() bool {
	var msg [32]byte
	for !a.hit {
		n, err := syscall.Read(a.fd, msg[:])
		if err != nil || n != len(msg) {
			return false
		}
		a.hit = a.armed
	}
	return true
}

// Release lets accesses go on.
func (a *Area) Release() {
	if !a.armed {
		return
	}
	c := [5]uint64{uint64(uintptr(unsafe.Pointer(&a.mem[a.half]))), uint64(uintptr(unsafe.Pointer(&a.next[0]))), uint64(a.half)}
	if err := ioctl(a.fd, 0xc028aa03, unsafe.Pointer(&c)); err != nil {
		panic("stall: " + err.Error())
	}
	a.armed = false
	// drop what the kernel may still report of the accesses that waited
	var msg [32]byte
	for {
		if n, err := syscall.Read(a.fd, msg[:]); err != nil || n <= 0 {
			return
		}
	}
}
