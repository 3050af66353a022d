// Package vsched is a cooperative scheduler for code with a yield point before
// every statement.  The yield points are put by tools/instrument into copies
// of the sources; calls of Y by goroutines that are not scheduled do nothing.
package vsched

import (
	"fmt"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

func getg() uintptr

var (
	active  int32
	threads sync.Map // g -> *thread
	globals []interface{}
	// Sites is the number of yield points that were compiled in.
	Sites int32
)

// Globals registers pointers to package variables.
func Globals(p ...interface{}) { globals = append(globals, p...) }

// GlobalVars are the registered pointers.
func GlobalVars() []interface{} { return globals }

var siteNames = map[int32]string{}

// AddSites registers yield points from first on.
func AddSites(first int32, names ...string) {
	for i, n := range names {
		siteNames[first+int32(i)] = n
	}
	Sites += int32(len(names))
}

// Name is the place of a yield point.
func Name(site int32) string { return siteNames[site] }

// Preempt switches to thread To before the Step-th statement (from 1) of Thread.
type Preempt struct{ Thread, Step, To int }

type thread struct {
	s       *sched
	id      int
	step    int
	wake    chan struct{}
	done    bool // under s.mu
	blocked bool // under s.mu
	err     interface{}
}

type sched struct {
	mu       sync.Mutex
	cur      int32
	progress int64
	th       []*thread
	plan     []Preempt
	next     int
	after    []int
	watch    func(thread, step int, site int32)
	end      chan struct{}
	left     int
}

// Result of a run.
type Result struct {
	Steps   []int // statements of each thread
	Used    int   // preemptions that happened
	Panics  []interface{}
	Blocked int  // times a thread waited for something other than its turn
	Stuck   bool // all threads wait
}

// Y is the yield point.
func Y(site int32) {
	if atomic.LoadInt32(&active) == 0 {
		return
	}
	x, ok := threads.Load(getg())
	if !ok {
		return
	}
	x.(*thread).yield(site)
}

func (t *thread) yield(site int32) {
	s := t.s
	if atomic.LoadInt32(&s.cur) != int32(t.id) { // it was blocked and goes on
		s.mu.Lock()
		t.blocked = false
		s.mu.Unlock()
		t.wait()
	}
	t.step++
	atomic.AddInt64(&s.progress, 1)
	if s.watch != nil {
		s.watch(t.id, t.step, site)
	}
	for s.next < len(s.plan) {
		p := s.plan[s.next]
		if p.Thread != t.id || t.step < p.Step {
			return
		}
		s.next++
		s.mu.Lock()
		if s.th[p.To].done {
			s.mu.Unlock()
			continue
		}
		s.give(p.To)
		s.mu.Unlock()
		t.wait()
	}
}

func (t *thread) wait() {
	for atomic.LoadInt32(&t.s.cur) != int32(t.id) {
		<-t.wake
	}
}

func (s *sched) give(to int) {
	atomic.StoreInt32(&s.cur, int32(to))
	select {
	case s.th[to].wake <- struct{}{}:
	default:
	}
}

// pick is the thread that goes on, or -1.
func (s *sched) pick() int {
	for pass := 0; pass < 2; pass++ {
		for _, i := range s.after {
			if t := s.th[i]; !t.done && (pass == 1 || !t.blocked) {
				return i
			}
		}
	}
	return -1
}

// Run executes the functions as threads of which one runs at a time: the first
// one, until the preemptions of the plan.  When a thread ends, the first
// thread of after that has not ended goes on.
func Run(fs []func(), plan []Preempt, after []int, watch func(thread, step int, site int32)) Result {
	s := &sched{plan: plan, after: after, watch: watch, end: make(chan struct{}), left: len(fs)}
	if s.after == nil {
		for i := range fs {
			s.after = append(s.after, i)
		}
	}
	for i := range fs {
		s.th = append(s.th, &thread{s: s, id: i, wake: make(chan struct{}, 1)})
	}
	s.cur = -1
	atomic.AddInt32(&active, 1)
	defer atomic.AddInt32(&active, -1)
	for i, f := range fs {
		go func(t *thread, f func()) {
			g := getg()
			threads.Store(g, t)
			t.wait()
			defer func() {
				if r := recover(); r != nil {
					t.err = fmt.Sprintf("%v\n%s", r, debug.Stack())
				}
				threads.Delete(g)
				s.mu.Lock()
				defer s.mu.Unlock()
				t.done = true
				s.left--
				if s.left == 0 {
					close(s.end)
				} else if int(atomic.LoadInt32(&s.cur)) == t.id {
					s.give(s.pick())
				}
			}()
			debug.SetPanicOnFault(true)
			f()
		}(s.th[i], f)
	}
	s.mu.Lock()
	s.give(0)
	s.mu.Unlock()
	r := Result{}
	timer := time.NewTimer(300 * time.Millisecond)
	defer timer.Stop()
	var last int64 = -1
	idle := 0
loop:
	for {
		select {
		case <-s.end:
			break loop
		case <-timer.C:
			timer.Reset(300 * time.Millisecond)
			p := atomic.LoadInt64(&s.progress)
			if p != last {
				last, idle = p, 0
				continue
			}
			// the thread whose turn it is waits for another one
			idle++
			if idle > 40 {
				r.Stuck = true
				break loop
			}
			s.mu.Lock()
			if c := int(atomic.LoadInt32(&s.cur)); c >= 0 && s.left > 0 {
				s.th[c].blocked = true
				r.Blocked++
				s.give(s.pick())
			}
			s.mu.Unlock()
		}
	}
	if r.Stuck {
		return r
	}
	for _, t := range s.th {
		r.Steps = append(r.Steps, t.step)
		r.Panics = append(r.Panics, t.err)
	}
	r.Used = s.next
	return r
}
