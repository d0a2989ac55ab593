// Package vsync replaces package sync in instrumented copies of the library:
// the same semantics, with blocking visible to the controlled scheduler.
package vsync

import (
	"sync"

	"verif/mc/hook"
)

type Locker = sync.Locker
type Map = sync.Map

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	hook.P(-1)
	hook.Wait(func() bool { return !m.held })
	m.held = true
}
func (m *Mutex) TryLock() bool {
	hook.P(-1)
	if m.held {
		return false
	}
	m.held = true
	return true
}
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	hook.P(-1)
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock()   { hook.P(-1); hook.Wait(func() bool { return !m.w && m.r == 0 }); m.w = true }
func (m *RWMutex) Unlock() { m.w = false; hook.P(-1) }
func (m *RWMutex) RLock()  { hook.P(-1); hook.Wait(func() bool { return !m.w }); m.r++ }
func (m *RWMutex) RUnlock() {
	m.r--
	hook.P(-1)
}
func (m *RWMutex) TryLock() bool {
	hook.P(-1)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	hook.P(-1)
	if m.w {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	hook.P(-1)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Pool hands the most recently returned object out first.
type Pool struct {
	New  func() interface{}
	free []interface{}
}

func (p *Pool) Get() interface{} {
	hook.P(-1)
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	if x != nil {
		p.free = append(p.free, x)
	}
	hook.P(-1)
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v T1
	var w T2
	return func() (T1, T2) { o.Do(func() { v, w = f() }); return v, w }
}
