// Package zzsched holds the scheduling points that /verif/tools/instr inserts
// into copies of the sources, and synchronisation primitives whose waiting the
// controlling scheduler can see. Overlaid at build time; never part of /repo.
package zzsched

import (
	"fmt"
	"iter"
	"sort"
)

// Hook is called at every scheduling point while an execution is controlled.
var Hook func(label string)

// Yield is a scheduling point before a statement.
func Yield(label string) {
	if h := Hook; h != nil {
		h(label)
	}
}

// Mid is a scheduling point between evaluating a value and storing it.
func Mid[T any](label string, v T) T {
	if h := Hook; h != nil {
		h(label)
	}
	return v
}

// Mutex waits on a channel, which the scheduler recognises as blocked.
type Mutex struct{ c chan struct{} }

var guard = make(chan struct{}, 1)

func (m *Mutex) ch() chan struct{} {
	guard <- struct{}{}
	if m.c == nil {
		m.c = make(chan struct{}, 1)
	}
	c := m.c
	<-guard
	return c
}
func (m *Mutex) Lock()   { m.ch() <- struct{}{} }
func (m *Mutex) Unlock() { <-m.ch() }
func (m *Mutex) TryLock() bool {
	select {
	case m.ch() <- struct{}{}:
		return true
	default:
		return false
	}
}

// RWMutex gives readers exclusive access too: fewer executions, all of them real.
type RWMutex struct{ Mutex }

func (m *RWMutex) RLock()         { m.Lock() }
func (m *RWMutex) RUnlock()       { m.Unlock() }
func (m *RWMutex) TryRLock() bool { return m.TryLock() }

// Once is sync.Once on top of Mutex.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// MapHook chooses the order in which n keys of a map are visited (nil: sorted).
var MapHook func(site string, n int) []int

func mapOrder[K comparable, V any](site string, m map[K]V) []K {
	type kv struct {
		k K
		s string
	}
	ks := make([]kv, 0, len(m))
	for k := range m {
		ks = append(ks, kv{k, fmt.Sprintf("%v", k)})
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].s < ks[j].s })
	var perm []int
	if h := MapHook; h != nil && len(ks) > 1 {
		perm = h(site, len(ks))
	}
	out := make([]K, len(ks))
	for i := range ks {
		if perm != nil {
			out[i] = ks[perm[i]].k
		} else {
			out[i] = ks[i].k
		}
	}
	return out
}

// Map iterates over a map in the chosen order.
func Map[M ~map[K]V, K comparable, V any](site string, m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range mapOrder(site, m) {
			v, ok := m[k]
			if !ok {
				continue // removed while iterating
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func MapAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return Map("maps.All", m) }

func MapKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range Map("maps.Keys", m) {
			if !yield(k) {
				return
			}
		}
	}
}

func MapValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range Map("maps.Values", m) {
			if !yield(v) {
				return
			}
		}
	}
}
