// Package vsync replaces package sync in instrumented code.  Its locks block on
// channels, which a synctest bubble recognises as blocked; everything else is
// sync's own.
package vsync

import "sync"

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Map       = sync.Map
	Pool      = sync.Pool
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// RWMutex is a readers-writer lock.  state: -1 writer, n readers.
type RWMutex struct {
	mu    sync.Mutex
	state int
	queue []chan struct{}
}

func (m *RWMutex) wait(try func() bool) {
	for {
		m.mu.Lock()
		if try() {
			m.mu.Unlock()
			return
		}
		ch := make(chan struct{})
		m.queue = append(m.queue, ch)
		m.mu.Unlock()
		<-ch
	}
}

func (m *RWMutex) wake() {
	for _, ch := range m.queue {
		close(ch)
	}
	m.queue = nil
}

func (m *RWMutex) tryLock() bool {
	if m.state != 0 {
		return false
	}
	m.state = -1
	return true
}

func (m *RWMutex) tryRLock() bool {
	if m.state < 0 {
		return false
	}
	m.state++
	return true
}

func (m *RWMutex) Lock()  { m.wait(m.tryLock) }
func (m *RWMutex) RLock() { m.wait(m.tryRLock) }

func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.tryLock()
}

func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.tryRLock()
}

func (m *RWMutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.state != -1 {
		panic("sync: unlock of unlocked mutex")
	}
	m.state = 0
	m.wake()
}

func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.state <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.state--
	m.wake()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Mutex is a mutual exclusion lock.
type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) Unlock()       { m.rw.Unlock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

// Once runs a function once.
type Once struct {
	mu   Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}
