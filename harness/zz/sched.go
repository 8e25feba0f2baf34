package zzverif

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/g-rath/osv-detector/internal/zzsched"
)

// ---- controlled scheduling -----------------------------------------------------
//
// The code under test runs in a synctest bubble. Every goroutine stops at its
// scheduling points (network requests and, in the instrumented build, every
// statement); when all goroutines are stopped or blocked the scheduler, driven by
// the choices of the engine, lets exactly one continue.

type parked struct {
	gid   int
	key   string // orders what is stopped at the same time
	net   bool
	start chan struct{}
}

type sched struct {
	mu       sync.Mutex
	waiting  []*parked
	ids      map[uint64]int
	trace    []string
	switches int
	points   int
}

func goid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	id, _ := strconv.ParseUint(string(f[1]), 10, 64)
	return id
}

func (s *sched) park(key string, net bool) {
	p := &parked{key: key, net: net, start: make(chan struct{})}
	g := goid()
	s.mu.Lock()
	id, ok := s.ids[g]
	if !ok {
		id = len(s.ids)
		s.ids[g] = id
	}
	p.gid = id
	s.waiting = append(s.waiting, p)
	s.mu.Unlock()
	<-p.start
}

// controlled runs f under the scheduler. With bound < 0 only network requests are
// scheduling points and all their orders are explored; otherwise every statement
// is one, and a goroutine that could continue is interrupted at most bound times.
// phase (mod phases) restricts where the first interruption happens, to spread the work.
func (c *C) controlled(bound int, f func()) (tr *sched, panicked any) {
	return c.controlledPhase(bound, 0, 1, f)
}

func (c *C) controlledPhase(bound, phase, phases int, f func()) (tr *sched, panicked any) {
	s := &sched{ids: map[uint64]int{}}
	net.mu.Lock()
	net.gate = func(r *Req) { s.park("net "+r.Method+" "+r.URL+" "+r.Body, true) }
	net.mu.Unlock()
	if bound >= 0 {
		zzsched.Hook = func(l string) { s.park(l, false) }
	}
	defer func() {
		net.mu.Lock()
		net.gate = nil
		net.mu.Unlock()
		zzsched.Hook = nil
	}()
	var bad any
	synctest.Run(func() {
		done := false
		var dmu sync.Mutex
		go func() {
			defer func() {
				r := recover()
				dmu.Lock()
				done, panicked = true, r
				dmu.Unlock()
			}()
			f()
		}()
		cur, idle, left, points := -1, 0, bound, 0
		for {
			synctest.Wait()
			dmu.Lock()
			fin := done
			dmu.Unlock()
			s.mu.Lock()
			ws := s.waiting
			s.mu.Unlock()
			if fin && len(ws) == 0 {
				return
			}
			if len(ws) == 0 {
				// timers, if any, are all that can make progress
				if idle++; idle > 60 {
					fmt.Fprintf(os.Stderr, "deadlock: nothing can continue\n%s\n", strings.Join(s.trace, "\n"))
					os.Exit(9)
				}
				time.Sleep(time.Duration(idle*idle) * time.Second)
				continue
			}
			idle = 0
			sort.SliceStable(ws, func(i, j int) bool {
				if ws[i].net && ws[j].net {
					return ws[i].key < ws[j].key
				}
				return ws[i].gid < ws[j].gid
			})
			k := 0
			if bad == nil && len(ws) > 1 {
				at := -1
				for i, p := range ws {
					if p.gid == cur && !p.net {
						at = i
					}
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							bad = r // finish this execution undisturbed first
						}
					}()
					switch {
					case bound < 0 || at < 0:
						k = c.N(len(ws))
					case left > 0 && left == bound && points%phases != phase:
						points++
						k = at
					case left > 0:
						points++
						// continue, or switch to another
						if k = c.N(len(ws)); k == 0 {
							k = at
						} else {
							if k <= at {
								k--
							}
							left--
							s.switches++
						}
					default:
						k = at
					}
				}()
			}
			p := ws[k]
			s.mu.Lock()
			s.waiting = append(append([]*parked{}, ws[:k]...), ws[k+1:]...)
			s.points++
			if len(s.trace) < 400 {
				s.trace = append(s.trace, fmt.Sprintf("g%d %s", p.gid, clip(p.key, 120)))
			}
			s.mu.Unlock()
			cur = p.gid
			close(p.start)
		}
	})
	if bad != nil {
		panic(bad)
	}
	if bound > 0 && s.switches == 0 && phase > 0 {
		// the uninterrupted executions belong to phase 0
		c.Skip()
	}
	c.AddTransitions(int64(s.points))
	return s, panicked
}
