package main

import (
	"runtime/debug"
	"syscall"
	"unsafe"
)

// arena hands out the argument slices of one call.  Every slice has foreign bytes in front of it and spare
// capacity behind it, and the arena can be made read-only, so that a write of the callee to memory it was only
// lent is seen even when it is undone before the call returns.
type arena struct {
	mem  []byte // whole pages
	used int
	args []region
}

type region struct{ from, to int }

const (
	pad   = 16
	spare = 32
)

func newArena(size int) *arena {
	size = (size + 4095) / 4096 * 4096
	m, err := syscall.Mmap(-1, 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	check(err)
	for i := range m {
		m[i] = byte(0xA0 + i%7)
	}
	return &arena{mem: m}
}

func (a *arena) free() { check(syscall.Munmap(a.mem)) }

// slice returns b in the arena: len(b) bytes, with spare capacity.
func (a *arena) slice(b []byte) []byte {
	from := a.used
	start := from + pad
	copy(a.mem[start:], b)
	a.used = start + len(b) + spare
	a.args = append(a.args, region{from, a.used})
	return a.mem[start : start+len(b) : a.used]
}

func (a *arena) snapshot() [][]byte {
	out := make([][]byte, len(a.args))
	for i, r := range a.args {
		out[i] = append([]byte{}, a.mem[r.from:r.to]...)
	}
	return out
}

// the arena that has last been protected
var protFrom, protTo uintptr

func (a *arena) protect(on bool) {
	prot := syscall.PROT_READ | syscall.PROT_WRITE
	if on {
		prot = syscall.PROT_READ
	}
	check(syscall.Mprotect(a.mem, prot))
	protFrom = uintptr(unsafe.Pointer(&a.mem[0]))
	protTo = protFrom + uintptr(len(a.mem))
}

// guarded runs f; a panic or a fault is an answer too.
func guarded(f func() ([]byte, error)) (out []byte, err error, panicked, wrote bool) {
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	defer func() {
		if r := recover(); r != nil {
			out, err, panicked = nil, nil, true
			if f, ok := r.(interface{ Addr() uintptr }); ok && f.Addr() >= protFrom && f.Addr() < protTo {
				wrote = true
			}
		}
	}()
	out, err = f()
	return out, err, false, false
}

type answer struct {
	out             []byte
	err             error
	panicked, wrote bool
}

func (a answer) same(b answer) bool {
	return (a.err == nil) == (b.err == nil) && a.panicked == b.panicked && a.wrote == b.wrote && string(a.out) == string(b.out)
}

func (a answer) obj() obj {
	return obj{"ok": a.err == nil && !a.panicked, "out": ints(a.out), "panic": a.panicked, "wrote": a.wrote}
}
