// Package simhook is what instrumented copies of the code under test call.
// Outside a simulation every hook is inert.
package simhook

import (
	"fmt"
	"math"
	"sort"
	"sync"
)

// N counts down at every yield point; when it drops below zero the slow path runs.
var N int64 = math.MaxInt64

// Slow is the simulator's handler for an expired countdown (preemption or crash point).
var Slow func()

// Held counts locks that are held.
var Held int

// Permute, when set, chooses the iteration order of n canonically sorted map keys.
var Permute func(n int) []int

var mu sync.Mutex

// Y is a yield point.
//
//go:norace
func Y() {
	N--
	if N < 0 {
		slow()
	}
}

// Threads is set while the simulator schedules threads.
var Threads bool

// T is a preemption point inside a library below the code under test.
//
//go:norace
func T() {
	if Threads {
		Y()
	}
}

//go:noinline
func slow() {
	f := Slow
	if f == nil {
		N = math.MaxInt64
		return
	}
	f()
}

// Keys returns the keys of m in an order chosen by the simulator.
func Keys[K comparable, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	sort.Slice(ks, func(i, j int) bool { return less(any(ks[i]), any(ks[j])) })
	p := Permute
	if p == nil {
		return ks
	}
	perm := order(p, len(ks))
	out := make([]K, len(ks))
	for i, j := range perm {
		out[i] = ks[j]
	}
	return out
}

func order(p func(int) []int, n int) []int {
	Off()
	defer On()
	mu.Lock()
	defer mu.Unlock()
	return p(n)
}

// Live reports whether k is still in m (an entry removed during iteration is not visited).
func Live[K comparable, V any](m map[K]V, k K) bool { _, ok := m[k]; return ok }

// Pair is a key and the value it had when iteration began.
type Pair[K comparable, V any] struct {
	K K
	V V
}

// Pairs is Keys with values, for map expressions that must be evaluated only once.
func Pairs[K comparable, V any](m map[K]V) []Pair[K, V] {
	ks := Keys(m)
	out := make([]Pair[K, V], len(ks))
	for i, k := range ks {
		out[i] = Pair[K, V]{k, m[k]}
	}
	return out
}

func less(a, b any) bool {
	switch x := a.(type) {
	case string:
		return x < b.(string)
	case int:
		return x < b.(int)
	case uint:
		return x < b.(uint)
	case uint64:
		return x < b.(uint64)
	case int64:
		return x < b.(int64)
	case uint32:
		return x < b.(uint32)
	case int32:
		return x < b.(int32)
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// WaitUntil, when set by the simulator, parks the calling task until cond holds and
// reports true; false means the caller is not a simulated task.
var WaitUntil func(cond func() bool) bool

// Spawn, when set by the simulator, takes over a goroutine that the code under test starts.
var Spawn func(f func()) bool

// Go stands for the go statement.
func Go(f func()) {
	if s := Spawn; s != nil && s(f) {
		return
	}
	go f()
}
