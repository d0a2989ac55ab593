package hook

import "fmt"

// ---- controlled scheduler -------------------------------------------------
//
// Threads are goroutines of which exactly one runs at a time; it can lose the
// processor only at a scheduling point (P, or a blocked primitive of vsync).

type thread struct {
	run     chan struct{}
	points  int // points passed
	done    bool
	blocked func() bool // not nil: enabled only if it returns true
	panicv  interface{}
	sites   []int
}

// Preempt says: when thread Thread passes its Point-th point (1-based), switch to To.
type Preempt struct{ Thread, Point, To int }

type sched struct {
	ths  []*thread
	cur  int
	plan []Preempt
	next int
	end  chan struct{}
	fail string
}

var cs *sched

// Result describes an execution under the scheduler.
type Result struct {
	Sites    [][]int // if RecordSites: the sites each thread passed
	Points   []int   // scheduling points each thread passed
	Applied  int     // preemptions that took place
	Deadlock bool
	Panics   []interface{}
}

// RecordSites makes runs record the sites passed.
var RecordSites bool

// Run executes the bodies as threads; thread first starts, preemptions happen as planned, and whenever a thread
// ends or blocks the lowest-numbered enabled one continues.
func Run(first int, plan []Preempt, bodies ...func()) Result {
	s := &sched{plan: plan, end: make(chan struct{})}
	for range bodies {
		s.ths = append(s.ths, &thread{run: make(chan struct{})})
	}
	cs = s
	for i, b := range bodies {
		i, b := i, b
		go func() {
			th := s.ths[i]
			<-th.run
			defer func() {
				th.panicv = recover()
				th.done = true
				s.cur = -1
				s.pick()
			}()
			b()
		}()
	}
	s.cur = first
	s.ths[first].run <- struct{}{}
	<-s.end
	cs = nil
	r := Result{Applied: s.next, Deadlock: s.fail != ""}
	for _, t := range s.ths {
		r.Points = append(r.Points, t.points)
		r.Panics = append(r.Panics, t.panicv)
		if RecordSites {
			r.Sites = append(r.Sites, t.sites)
		}
	}
	return r
}

// pick hands the processor to the lowest enabled thread, or ends the run.
func (s *sched) pick() {
	alive := false
	for i, t := range s.ths {
		if t.done {
			continue
		}
		alive = true
		if t.blocked == nil || t.blocked() {
			s.cur = i
			t.run <- struct{}{}
			return
		}
	}
	if alive {
		s.fail = "deadlock"
	}
	close(s.end)
}

// P is a scheduling point.
func P(site int) {
	s := cs
	if s == nil {
		return
	}
	me := s.cur
	t := s.ths[me]
	t.points++
	if RecordSites {
		t.sites = append(t.sites, site)
	}
	if s.next < len(s.plan) && s.plan[s.next].Thread == me && s.plan[s.next].Point == t.points {
		to := s.plan[s.next].To
		s.next++
		o := s.ths[to]
		if o.done || (o.blocked != nil && !o.blocked()) {
			return
		}
		s.cur = to
		o.run <- struct{}{}
		<-t.run
	}
}

// Wait blocks the current thread until ok() holds (used by vsync).
func Wait(ok func() bool) {
	s := cs
	if s == nil {
		if !ok() {
			panic(fmt.Sprintf("verif: blocking outside the scheduler"))
		}
		return
	}
	for !ok() {
		t := s.ths[s.cur]
		t.blocked = ok
		s.pick()
		<-t.run
		t.blocked = nil
	}
}
