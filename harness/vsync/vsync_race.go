//go:build race

// In race builds package sync itself is used, and the scheduling points are
// invisible to the race detector: they must not order what the library leaves
// unordered.
package vsync

import (
	"runtime"
	"sync"
	"time"
)

type (
	// Cond is sync.Cond.
	Cond = sync.Cond
	// Locker is sync.Locker.
	Locker = sync.Locker
	// Map is sync.Map.
	Map = sync.Map
	// Pool is sync.Pool.
	Pool = sync.Pool
	// WaitGroup is sync.WaitGroup.
	WaitGroup = sync.WaitGroup
	// Mutex is sync.Mutex.
	Mutex = sync.Mutex
	// RWMutex is sync.RWMutex.
	RWMutex = sync.RWMutex
	// Once is sync.Once.
	Once = sync.Once
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return sync.OnceValues(f) }

// Plan says where the library pauses.
type Plan struct {
	Seed  uint64 `json:",omitempty"`
	OneIn int    `json:",omitempty"`
	Max   int    `json:",omitempty"` // nanoseconds; below 1000 the point only yields
	Limit int    `json:",omitempty"`
	Focus int    `json:",omitempty"`
	Sync  bool   `json:",omitempty"`
}

// Sync marks the sites in front of and behind operations that synchronize.
const Sync = 1 << 31

var (
	plan   Plan
	state  uint64
	budget int
	slept  uint64
	seen   uint64
)

// Configure turns scheduling points on (off for a zero plan).
//
//go:norace
func Configure(p Plan) {
	plan, state, budget, slept, seen = p, p.Seed*0x9E3779B97F4A7C15+1, p.Limit, 0, 0
}

// Disable turns scheduling points off.
//
//go:norace
func Disable() { plan = Plan{} }

// Slept reports how many points paused since Configure.
//
//go:norace
func Slept() uint64 { return slept }

// Visited reports how many points were passed since Configure.
//
//go:norace
func Visited() uint64 { return seen }

// Point is a scheduling point. Its unsynchronised counters lose updates, which
// does no harm.
//
//go:norace
//go:noinline
func Point(site uint32) {
	one := plan.OneIn
	if one <= 0 {
		return
	}
	if site&Sync == 0 && plan.Sync {
		return
	}
	site &^= Sync
	seen++
	if f := plan.Focus; f > 1 && (uint64(site)*0xD1342543DE82EF95^plan.Seed*0x94D049BB133111EB)>>33%uint64(f) != 0 {
		return
	}
	x := state
	x ^= x << 13
	x ^= x >> 7
	x ^= x << 17
	state = x
	if x>>20%uint64(one) != 0 {
		return
	}
	budget--
	if budget < 0 {
		return
	}
	slept++
	if plan.Max < 1000 {
		runtime.Gosched()
		return
	}
	time.Sleep(time.Duration(x >> 8 % uint64(plan.Max)))
}
