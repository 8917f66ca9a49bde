package main

// A controlled scheduler: goroutines run one at a time and hand over only at the scheduling points
// that the rewritten package has before every statement.

import (
	"fmt"
	"strings"
	"sync/atomic"
	"time"
)

type thread struct {
	body   func() string
	passed int // scheduling points passed
	budget int // points to pass before handing over; negative: none
	wake   chan struct{}
	done   bool
	result string
}

type scheduler struct {
	cur    atomic.Pointer[thread]
	free   atomic.Bool
	events chan *thread
}

var theSched = &scheduler{}

func (s *scheduler) point() {
	t := s.cur.Load()
	if t == nil || s.free.Load() {
		return
	}
	t.passed++
	if t.budget < 0 {
		return
	}
	if t.budget > 0 {
		t.budget--
	}
	if t.budget == 0 {
		s.events <- t
		<-t.wake
	}
}

func guarded(f func() string) (res string) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violation); ok {
				res = "violation: " + v.msg
				return
			}
			res = fmt.Sprintf("panic: %v", r)
			if strings.Contains(res, "runtime error") {
				res += "\n" + stackTop()
			}
		}
	}()
	return f()
}

// segment lets t run until it has passed n points (0: until it ends); false when it got stuck.
func (s *scheduler) segment(t *thread, n int, timer *time.Timer) bool {
	t.budget = n
	if n == 0 {
		t.budget = -1
	}
	s.cur.Store(t)
	t.wake <- struct{}{}
	timer.Reset(50 * time.Millisecond)
	select {
	case <-s.events:
		if !timer.Stop() {
			select {
			case <-timer.C:
			default:
			}
		}
		s.cur.Store(nil)
		return true
	case <-timer.C:
		return false
	}
}

// soloCount is how many points a body passes alone.
func soloCount(body func() string) (int, string) {
	s := theSched
	setHook(s.point)
	defer setHook(nil)
	t := &thread{budget: -1}
	s.free.Store(false)
	s.cur.Store(t)
	r := guarded(body)
	s.cur.Store(nil)
	return t.passed, r
}

// runSchedule runs the bodies under one schedule chosen by c: who runs, how far, at most pb preemptions.
// counts are the points each body passes alone. It returns what each body returned and a description.
func runSchedule(c *Ctx, bodies []func() string, counts []int, pb int) ([]string, string) {
	s := theSched
	s.events = make(chan *thread)
	s.free.Store(false)
	s.cur.Store(nil)
	setHook(s.point)
	defer setHook(nil)
	ts := make([]*thread, len(bodies))
	for i := range bodies {
		t := &thread{body: bodies[i], wake: make(chan struct{})}
		ts[i] = t
		go func() {
			<-t.wake
			t.result = guarded(t.body)
			t.done = true
			if s.free.Load() {
				select {
				case s.events <- t:
				case <-time.After(30 * time.Second):
				}
				return
			}
			s.events <- t
		}()
	}
	timer := time.NewTimer(time.Hour)
	defer timer.Stop()
	desc := ""
	prev := -1
	alive := len(ts)
	for alive > 0 {
		var cand []int
		for i, t := range ts {
			if !t.done && (i != prev || alive == 1) {
				cand = append(cand, i)
			}
		}
		pick := 0
		if len(cand) > 1 {
			pick = c.Choose(len(cand))
		}
		i := cand[pick]
		t := ts[i]
		n := 0
		if pb > 0 && alive > 1 {
			left := counts[i] - t.passed
			if t.passed == 0 { // stopping before the first statement is the same as running another one first
				if left > 1 {
					if n = c.Choose(left); n > 0 {
						n++
					}
				}
			} else if left > 0 {
				n = c.Choose(left + 1)
			}
		}
		desc += " " + itoa(i) + ":"
		if n == 0 {
			desc += "end"
		} else {
			desc += "+" + itoa(n)
		}
		if !s.segment(t, n, timer) {
			// blocked on something another goroutine holds: let all of them run
			s.free.Store(true)
			s.cur.Store(nil)
			desc += "(blocked, then all free)"
			for _, u := range ts {
				if u != t && !u.done {
					u := u
					go func() { u.wake <- struct{}{} }()
				}
			}
			// t itself may have handed over in between; keep waking it
			stop := make(chan struct{})
			go func() {
				for {
					select {
					case t.wake <- struct{}{}:
					case <-stop:
						return
					}
				}
			}()
			limit := time.After(20 * time.Second)
			for alive > 0 {
				select {
				case u := <-s.events:
					if u.done {
						alive--
					}
				case <-limit:
					close(stop)
					c.Failf("schedule%s: the goroutines block each other forever", desc)
				}
			}
			close(stop)
			break
		}
		if t.done {
			alive--
			prev = -1
		} else {
			prev = i
			pb--
		}
	}
	out := make([]string, len(ts))
	for i, t := range ts {
		out[i] = t.result
	}
	return out, desc
}
