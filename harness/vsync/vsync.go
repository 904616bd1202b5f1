//go:build !race

// Package vsync stands in for package sync in the instrumented build of the
// library under test. Mutexes are built on condition variables, so that a
// goroutine waiting for one counts as durably blocked in a testing/synctest
// bubble, and Point is the scheduling hook which the instrumentation puts in
// front of every statement of the library: depending on a seed it lets virtual
// time pass there, which hands control to the other goroutines.
package vsync

import (
	"sync"
	"sync/atomic"
	"time"
)

type (
	// Cond is sync.Cond: its Wait is durably blocking already.
	Cond = sync.Cond
	// Locker is sync.Locker.
	Locker = sync.Locker
	// Map is sync.Map.
	Map = sync.Map
	// Pool is sync.Pool.
	Pool = sync.Pool
	// WaitGroup is sync.WaitGroup.
	WaitGroup = sync.WaitGroup
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return sync.OnceValues(f) }

// Mutex is a mutual exclusion lock whose waiters are durably blocked.
type Mutex struct {
	mu     sync.Mutex
	cond   sync.Cond
	locked bool
}

// Lock locks m.
func (m *Mutex) Lock() {
	m.mu.Lock()
	m.cond.L = &m.mu
	for m.locked {
		m.cond.Wait()
	}
	m.locked = true
	m.mu.Unlock()
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	m.mu.Lock()
	if !m.locked {
		m.mu.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.cond.L = &m.mu
	m.cond.Signal()
	m.mu.Unlock()
}

// RWMutex is a reader/writer lock whose waiters are durably blocked.
type RWMutex struct {
	mu      sync.Mutex
	cond    sync.Cond
	readers int
	writer  bool
	waiting int
}

// Lock locks rw for writing.
func (rw *RWMutex) Lock() {
	rw.mu.Lock()
	rw.cond.L = &rw.mu
	rw.waiting++
	for rw.writer || rw.readers > 0 {
		rw.cond.Wait()
	}
	rw.waiting--
	rw.writer = true
	rw.mu.Unlock()
}

// Unlock unlocks rw for writing.
func (rw *RWMutex) Unlock() {
	rw.mu.Lock()
	if !rw.writer {
		rw.mu.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	rw.writer = false
	rw.cond.Broadcast()
	rw.mu.Unlock()
}

// RLock locks rw for reading.
func (rw *RWMutex) RLock() {
	rw.mu.Lock()
	rw.cond.L = &rw.mu
	for rw.writer || rw.waiting > 0 {
		rw.cond.Wait()
	}
	rw.readers++
	rw.mu.Unlock()
}

// RUnlock undoes one RLock.
func (rw *RWMutex) RUnlock() {
	rw.mu.Lock()
	if rw.readers == 0 {
		rw.mu.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	rw.readers--
	rw.cond.Broadcast()
	rw.mu.Unlock()
}

// TryLock tries to lock rw for writing.
func (rw *RWMutex) TryLock() bool {
	rw.mu.Lock()
	defer rw.mu.Unlock()
	if rw.writer || rw.readers > 0 {
		return false
	}
	rw.writer = true
	return true
}

// TryRLock tries to lock rw for reading.
func (rw *RWMutex) TryRLock() bool {
	rw.mu.Lock()
	defer rw.mu.Unlock()
	if rw.writer {
		return false
	}
	rw.readers++
	return true
}

// RLocker returns a Locker for read locking.
func (rw *RWMutex) RLocker() Locker { return (*rlocker)(rw) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is sync.Once with durably blocked waiters.
type Once struct {
	m    Mutex
	done atomic.Bool
}

// Do calls f once.
func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

// ------------------------------------------------------------------
// scheduling points
// ------------------------------------------------------------------

const maxSites = 1 << 13

var (
	enabled atomic.Bool
	seed    atomic.Uint64
	thresh  atomic.Uint64 // sleep when hash < thresh (32 bit)
	maxD    atomic.Uint64
	focus   atomic.Uint64
	only    atomic.Bool
	budget  atomic.Int64
	counter atomic.Uint64
	slept   atomic.Uint64
	visits  [maxSites]atomic.Uint32
)

// Plan says where virtual time passes in the library.
type Plan struct {
	Seed  uint64 `json:",omitempty"`
	OneIn int    `json:",omitempty"` // one visit in that many sleeps
	Max   int    `json:",omitempty"` // for at most that many nanoseconds
	Limit int    `json:",omitempty"` // at most that many times in all
	Focus int    `json:",omitempty"` // only at one site in that many, chosen by Seed
	Sync  bool   `json:",omitempty"` // only in front of and behind operations that synchronize
}

// Sync marks the sites in front of and behind operations that synchronize.
const Sync = 1 << 31

// Configure turns scheduling points on (off for a zero plan).
func Configure(p Plan) {
	enabled.Store(false)
	counter.Store(0)
	slept.Store(0)
	if p.OneIn <= 0 || p.Limit <= 0 {
		return
	}
	for i := range visits {
		visits[i].Store(0)
	}
	seed.Store(p.Seed)
	thresh.Store((1 << 32) / uint64(p.OneIn))
	maxD.Store(uint64(max(1, p.Max)))
	focus.Store(uint64(max(1, p.Focus)))
	only.Store(p.Sync)
	budget.Store(int64(p.Limit))
	enabled.Store(true)
}

// Disable turns scheduling points off.
func Disable() { enabled.Store(false) }

// Slept reports how many points slept since Configure.
func Slept() uint64 { return slept.Load() }

// Visited reports how many points were passed since Configure.
func Visited() uint64 { return counter.Load() }

func mix(h uint64) uint64 {
	h ^= h >> 30
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 27
	h *= 0x94D049BB133111EB
	h ^= h >> 31
	return h
}

// Point is a scheduling point at the given place of the source.
func Point(site uint32) {
	if !enabled.Load() {
		return
	}
	if site&Sync == 0 && only.Load() {
		return
	}
	site &^= Sync
	s := seed.Load()
	if f := focus.Load(); f > 1 && mix(s^uint64(site)*0xD1342543DE82EF95)%f != 0 {
		return
	}
	n := visits[site%maxSites].Add(1)
	if n > 24 && n&15 != 0 { // do not spend everything in loops over bytes
		return
	}
	h := mix(s + counter.Add(1)*0x9E3779B97F4A7C15)
	if h&0xffffffff >= thresh.Load() {
		return
	}
	if budget.Add(-1) < 0 {
		enabled.Store(false)
		return
	}
	slept.Add(1)
	time.Sleep(time.Duration(1 + (h>>32)%maxD.Load()))
}
