// Package vsched is a controlled scheduler.  Instrumented code calls Point
// before every statement; inside Run every such call parks the goroutine, and a
// controller releases one goroutine at a time, as a generated schedule says.
// Blocking is observed with testing/synctest, so "nothing can run any more" is a
// fact and not a timeout.
package vsched

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

// Pre is one preemption: after At steps since the previous one, switch to
// another runnable goroutine.
type Pre struct {
	At   int `json:"at"`
	Pick int `json:"pick"`
}

// Schedule decides which parked goroutine runs next.  Without preemptions the
// current one continues until it blocks; Rand > 0 additionally switches at random
// (a pure function of Rand) in Density percent of the steps.
type Schedule struct {
	Pre     []Pre  `json:"pre,omitempty"`
	Rand    uint64 `json:"rand,omitempty"`
	Density int    `json:"density,omitempty"`
}

type waiter struct {
	id   uint64
	ch   chan struct{}
	site int
}

// Sched is one running controller.
type Sched struct {
	mu      sync.Mutex
	waiters []*waiter
	Steps   int
	Switch  int // times the running goroutine was changed while it could go on
	free    bool
	ids     map[uintptr]uint64
	self    uintptr // the controller's own goroutine never parks

	plan    Schedule
	last    uint64
	pre     int
	sincePr int
	rnd     uint64
	rr      int
	cap     int
	quit    chan struct{}
	quitted bool
	moved   atomic.Int64 // Steps at the last progress
	spun    bool
}

// Quit is closed by CloseQuit, for helpers that wait for something.
func (s *Sched) Quit() <-chan struct{} { return s.quit }

func (s *Sched) CloseQuit() {
	if !s.quitted {
		s.quitted = true
		close(s.quit)
	}
}

var cur atomic.Pointer[Sched]

// Point is a scheduling point.
func Point(site int) {
	s := cur.Load()
	if s == nil {
		return
	}
	s.park(site)
}

func (s *Sched) park(site int) {
	g := getg()
	if g == s.self {
		return
	}
	w := &waiter{ch: make(chan struct{}), site: site}
	s.mu.Lock()
	if w.id = s.ids[g]; w.id == 0 {
		w.id = uint64(len(s.ids) + 1) // goroutines are numbered as they first park
		s.ids[g] = w.id
	}
	if s.free {
		s.mu.Unlock()
		return
	}
	s.waiters = append(s.waiters, w)
	s.mu.Unlock()
	<-w.ch
}

func (s *Sched) random() uint64 {
	s.rnd += 0x9E3779B97F4A7C15
	z := s.rnd
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// choose picks the next goroutine; ws is sorted by goroutine.
func (s *Sched) choose(ws []*waiter) int {
	at := -1
	for i, w := range ws {
		if w.id == s.last {
			at = i
		}
	}
	if s.Steps > s.cap {
		// fair: everyone in turn
		s.rr++
		return s.rr % len(ws)
	}
	if s.pre < len(s.plan.Pre) {
		s.sincePr++
		if p := s.plan.Pre[s.pre]; s.sincePr > p.At {
			s.sincePr = 0
			s.pre++
			if at < 0 {
				return p.Pick % len(ws)
			}
			if len(ws) > 1 {
				return (at + 1 + p.Pick%(len(ws)-1)) % len(ws)
			}
			return 0
		}
	}
	if s.plan.Rand > 0 && int(s.random()%100) < s.plan.Density {
		return int(s.random() % uint64(len(ws)))
	}
	if at >= 0 {
		return at
	}
	if s.plan.Rand > 0 {
		return int(s.random() % uint64(len(ws)))
	}
	return 0
}

// Progress tells that something finite was used up (bytes sent or received):
// what made progress lately is not spinning.
func Progress() {
	if s := cur.Load(); s != nil {
		s.moved.Store(int64(s.Steps))
	}
}

// Step releases one parked goroutine; false if none is parked.
func (s *Sched) step() bool {
	synctest.Wait()
	s.mu.Lock()
	if len(s.waiters) == 0 {
		s.mu.Unlock()
		return false
	}
	sort.Slice(s.waiters, func(i, j int) bool { return s.waiters[i].id < s.waiters[j].id })
	i := s.choose(s.waiters)
	w := s.waiters[i]
	if w.id != s.last {
		for _, x := range s.waiters {
			if x.id == s.last {
				s.Switch++
				break
			}
		}
	}
	s.waiters = append(s.waiters[:i:i], s.waiters[i+1:]...)
	s.last = w.id
	s.Steps++
	s.mu.Unlock()
	close(w.ch)
	return true
}

// Settle runs the system until nothing can run.  Timers that are pending are
// allowed to fire (fake time).  It returns false when the budget of steps without
// progress was used up: something spins instead of blocking.
func (s *Sched) Settle(budget int) bool {
	if s.spun {
		budget = 3000 // it spins, as was found out already
	}
	start := s.Steps
	for {
		if s.step() {
			if n := s.Steps - max(start, int(s.moved.Load())); n > budget {
				s.spun = true
				return false
			}
			continue
		}
		// quiet; let pending timers fire, twice
		quiet := true
		for i := 0; i < 2 && quiet; i++ {
			time.Sleep([]time.Duration{time.Minute, 3 * time.Hour}[i])
			synctest.Wait()
			s.mu.Lock()
			quiet = len(s.waiters) == 0
			s.mu.Unlock()
		}
		if quiet {
			return true
		}
	}
}

// Release lets every goroutine run freely from now on.
func (s *Sched) Release() {
	s.mu.Lock()
	s.free = true
	ws := s.waiters
	s.waiters = nil
	s.mu.Unlock()
	for _, w := range ws {
		close(w.ch)
	}
}

// Stacks lists the stacks of goroutines that run library code.
func Stacks(contains string) []string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, contains) {
			out = append(out, g)
		}
	}
	return out
}

// FairAfter is the number of steps after which the schedule becomes fair.
const FairAfter = 20000

// Run executes body inside a bubble, as the controller.  body starts goroutines
// and calls Settle; when it returns all remaining goroutines run freely and must
// end, else an error tells which are left.
func Run(t *testing.T, plan Schedule, body func(s *Sched) error) (s *Sched, err error) {
	s = &Sched{ids: map[uintptr]uint64{}, plan: plan, rnd: plan.Rand, cap: FairAfter}
	defer cur.Store(nil)
	func() {
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprint(r)
				if strings.Contains(msg, "deadlock") {
					if err == nil {
						err = fmt.Errorf("goroutines remain blocked forever: %s", clip(strings.Join(Stacks("savaki/kafka"), "\n\n"), 3000))
					}
					return
				}
				if err == nil {
					err = fmt.Errorf("panic: %s", msg)
				}
			}
		}()
		synctest.Test(t, func(t *testing.T) {
			s.self = getg()
			s.quit = make(chan struct{})
			defer s.CloseQuit()
			cur.Store(s)
			defer s.Release()
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("panic: %v", r)
				}
			}()
			err = body(s)
		})
	}()
	return s, err
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
