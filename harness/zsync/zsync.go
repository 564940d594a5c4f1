// Package zsync is package sync for threads of zsched.
package zsync

import (
	"sync"

	"github.com/moov-io/dukpt/zz_verif/zsched"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
	Pool   = sync.Pool
)

// the state of all locks; threads of zsched never run at the same time, others (before and after) might
var mu sync.Mutex

func locked(f func() bool) bool {
	mu.Lock()
	defer mu.Unlock()
	return f()
}

type Mutex struct{ held bool }

func (m *Mutex) TryLock() bool {
	zsched.Y()
	return locked(func() bool {
		if m.held {
			return false
		}
		m.held = true
		return true
	})
}

func (m *Mutex) Lock() {
	for !m.TryLock() {
		zsched.Block(func() bool { return locked(func() bool { return !m.held }) })
	}
}

func (m *Mutex) Unlock() {
	if !locked(func() bool { was := m.held; m.held = false; return was }) {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	zsched.Y()
}

// RWMutex keeps new readers out when a writer waits, as sync.RWMutex does.
type RWMutex struct {
	w       bool
	readers int
	waiting int
}

func (m *RWMutex) TryLock() bool {
	zsched.Y()
	return locked(func() bool {
		if m.w || m.readers > 0 {
			return false
		}
		m.w = true
		return true
	})
}

func (m *RWMutex) Lock() {
	if m.TryLock() {
		return
	}
	locked(func() bool { m.waiting++; return true })
	for {
		zsched.Block(func() bool { return locked(func() bool { return !m.w && m.readers == 0 }) })
		if locked(func() bool {
			if m.w || m.readers > 0 {
				return false
			}
			m.w, m.waiting = true, m.waiting-1
			return true
		}) {
			return
		}
	}
}

func (m *RWMutex) Unlock() {
	if !locked(func() bool { was := m.w; m.w = false; return was }) {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	zsched.Y()
}

func (m *RWMutex) TryRLock() bool {
	zsched.Y()
	return locked(func() bool {
		if m.w || m.waiting > 0 {
			return false
		}
		m.readers++
		return true
	})
}

func (m *RWMutex) RLock() {
	for !m.TryRLock() {
		zsched.Block(func() bool { return locked(func() bool { return !m.w && m.waiting == 0 }) })
	}
}

func (m *RWMutex) RUnlock() {
	if !locked(func() bool { was := m.readers > 0; m.readers--; return was }) {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	zsched.Y()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	zsched.Y()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}
