package zzvrt

import (
	"fmt"
	"reflect"
)

// Deterministic replay of a schedule. One goroutine runs at a time; the
// hand-over is hidden from the race detector, so that only the
// synchronisation of the code under test counts.

const maxThreads = 10000

type killed struct{}

// Waiter tells whether a thread cannot proceed yet.
type Waiter interface{ Blocked() bool }

type thread struct {
	id   int
	wake chan struct{}
	wait Waiter
	what string
	done bool
	fin  int
}

type scheduler struct {
	th    [maxThreads]*thread
	n     int
	cur   *thread
	sched [100000]int32
	ns    int
	pos   int
	dead  bool
	stamp int
	fail  string
	msg   string
}

var sc *scheduler

func setFail(status, msg string) {
	if sc != nil && sc.fail == "" {
		sc.fail = status
		sc.msg = msg
	}
}

func schedReset(s []int) {
	sc = &scheduler{}
	if len(s) > len(sc.sched) {
		s = s[:len(sc.sched)]
	}
	for i, x := range s {
		sc.sched[i] = int32(x)
	}
	sc.ns = len(s)
	sc.th[0] = &thread{wake: make(chan struct{})}
	sc.cur = sc.th[0]
	sc.n = 1
}

func schedResult() (string, string) {
	if sc.fail == "" {
		return "ok", ""
	}
	return sc.fail, sc.msg
}

//go:norace
func (s *scheduler) live() int {
	k := 0
	for i := 0; i < s.n; i++ {
		if !s.th[i].done {
			k++
		}
	}
	return k
}

//go:norace
func (t *thread) runnable() bool {
	return !t.done && (t.wait == nil || !t.wait.Blocked())
}

// Yield is a scheduling point.
//
//go:norace
func Yield() {
	s := sc
	if s == nil || s.dead || s.live() <= 1 {
		return
	}
	s.reschedule(s.cur)
}

// Block waits until w is no longer blocked.
//
//go:norace
func Block(w Waiter, what string) {
	s := sc
	if s == nil || s.dead {
		return
	}
	t := s.cur
	for w.Blocked() {
		t.wait = w
		t.what = what
		s.reschedule(t)
		t.wait = nil
	}
}

//go:norace
func (s *scheduler) pick(t *thread) *thread {
	var first *thread
	for i := 0; i < s.n; i++ {
		if s.th[i].runnable() {
			if first == nil {
				first = s.th[i]
			}
		}
	}
	if first == nil {
		msg := "deadlock:"
		for i := 0; i < s.n; i++ {
			if !s.th[i].done {
				msg += fmt.Sprintf(" goroutine %d waits for %s;", i, s.th[i].what)
			}
		}
		setFail("deadlock", msg)
		return nil
	}
	if s.pos < s.ns {
		n := s.th[s.sched[s.pos]]
		s.pos++
		if n == nil || !n.runnable() {
			setFail("mismatch", "scheduled goroutine cannot run")
			return nil
		}
		return n
	}
	if t.runnable() {
		return t
	}
	return first
}

//go:norace
func (s *scheduler) reschedule(t *thread) {
	n := s.pick(t)
	if n == nil {
		panic(failure{s.fail, s.msg})
	}
	if n == t {
		return
	}
	s.cur = n
	raceOff()
	n.wake <- struct{}{}
	<-t.wake
	raceOn()
	if s.dead {
		panic(killed{})
	}
}

// Go starts f as a scheduled goroutine.
//
//go:norace
func Go(f func()) {
	s := sc
	if s.n == maxThreads {
		setFail("mismatch", "too many goroutines")
		panic(failure{s.fail, s.msg})
	}
	t := &thread{id: s.n, wake: make(chan struct{})}
	s.th[s.n] = t
	s.n++
	go runThread(s, t, f)
}

// GoCall is the statement go f(args...).
func GoCall(f interface{}, args ...interface{}) {
	v := reflect.ValueOf(f)
	var in []reflect.Value
	for i, a := range args {
		x := reflect.ValueOf(a)
		if !x.IsValid() {
			x = reflect.Zero(v.Type().In(i))
		} else if t := x.Type(); !v.Type().IsVariadic() && t != v.Type().In(i) && t.ConvertibleTo(v.Type().In(i)) {
			x = x.Convert(v.Type().In(i)) // a constant
		}
		in = append(in, x)
	}
	if sc == nil || sc.dead {
		return
	}
	Go(func() { v.Call(in) })
}

//go:norace
func runThread(s *scheduler, t *thread, f func()) {
	raceOff()
	<-t.wake
	raceOn()
	if !s.dead {
		body(f)
	}
	release(&t.fin)
	t.done = true
	var n *thread
	if s.dead || s.fail != "" {
		s.dead = true
		n = s.th[0]
	} else {
		n = s.pick(t)
		if n == nil {
			s.dead = true
			n = s.th[0]
		}
	}
	s.cur = n
	raceOff()
	n.wake <- struct{}{}
	raceOn()
}

func body(f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case failure, killed:
			default:
				setFail("panic", "panic in goroutine: "+fmt.Sprint(x))
			}
		}
	}()
	f()
}

type joinWait struct{ t *thread }

//go:norace
func (j *joinWait) Blocked() bool {
	for i := 0; i < sc.n; i++ {
		if sc.th[i] != j.t && !sc.th[i].done {
			return true
		}
	}
	return false
}

// Join waits for all goroutines started with Go.
//
//go:norace
func Join() {
	s := sc
	if s.dead {
		panic(killed{})
	}
	t := s.cur
	j := &joinWait{t}
	if j.Blocked() {
		t.wait = j
		t.what = "join"
		for j.Blocked() {
			s.reschedule(t)
		}
		t.wait = nil
	}
	for i := 0; i < s.n; i++ {
		if s.th[i] != t {
			acquire(&s.th[i].fin)
		}
	}
}

// schedTeardown ends the goroutines left over.
//
//go:norace
func schedTeardown() {
	s := sc
	s.dead = true
	for i := 1; i < s.n; i++ {
		if !s.th[i].done {
			s.cur = s.th[i]
			raceOff()
			s.th[i].wake <- struct{}{}
			<-s.th[0].wake
			raceOn()
		}
	}
}

// Fatal reports an unrecoverable error of the runtime.
func Fatal(msg string) { stop("panic", msg) }

// Stamp numbers the events of the interleaving; it does not synchronise.
//
//go:norace
func Stamp() int {
	sc.stamp++
	return sc.stamp
}

// Me identifies the running goroutine.
//
//go:norace
func Me() int {
	if sc == nil {
		return 0
	}
	return sc.cur.id
}

// Dead tells that the replay is being torn down.
//
//go:norace
func Dead() bool { return sc == nil || sc.dead }
