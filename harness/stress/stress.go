// Package stress replaces package sync in native replays of concurrent
// counterexamples: it delays goroutines at random around every operation.
package stress

import (
	"math/rand"
	"runtime"
	"sync"
	"time"
)

type (
	// Same as in package sync.
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Map       = sync.Map
	Cond      = sync.Cond
	Locker    = sync.Locker
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

func delay() {
	switch rand.Intn(6) {
	case 0, 1:
		time.Sleep(time.Duration(rand.Intn(150)) * time.Microsecond)
	case 2:
		runtime.Gosched()
	}
}

// Mutex is a sync.Mutex.
type Mutex struct{ m sync.Mutex }

// Lock locks.
func (m *Mutex) Lock() { delay(); m.m.Lock(); delay() }

// Unlock unlocks.
func (m *Mutex) Unlock() { delay(); m.m.Unlock(); delay() }

// TryLock tries to lock.
func (m *Mutex) TryLock() bool { delay(); return m.m.TryLock() }

// RWMutex is a sync.RWMutex.
type RWMutex struct{ m sync.RWMutex }

// Lock locks.
func (m *RWMutex) Lock() { delay(); m.m.Lock(); delay() }

// Unlock unlocks.
func (m *RWMutex) Unlock() { delay(); m.m.Unlock(); delay() }

// RLock locks for reading.
func (m *RWMutex) RLock() { delay(); m.m.RLock(); delay() }

// RUnlock unlocks.
func (m *RWMutex) RUnlock() { delay(); m.m.RUnlock(); delay() }

// TryLock tries to lock.
func (m *RWMutex) TryLock() bool { delay(); return m.m.TryLock() }

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool { delay(); return m.m.TryRLock() }

// RLocker locks for reading.
func (m *RWMutex) RLocker() Locker { return m.m.RLocker() }

// Once is a sync.Once.
type Once struct{ o sync.Once }

// Do calls f once.
func (o *Once) Do(f func()) { delay(); o.o.Do(f); delay() }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }
