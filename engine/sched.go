package main

// Symbolic goroutines. One runs at a time; the choice of the next one at each
// scheduling point is a solver variable. Happens-before is tracked with
// vector clocks to find data races.

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

type Thread struct {
	id      int
	wake    chan struct{}
	blocked func() bool // nil: runnable; otherwise true while it cannot proceed
	done    bool
	started bool
	depth   int
	vc      []int
	what    string
	std     bool // inside a library function
}

func (t *Thread) clock(i int) int {
	if i < len(t.vc) {
		return t.vc[i]
	}
	return 0
}

func joinVC(a, b []int) []int {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func copyVC(a []int) []int { return append([]int(nil), a...) }

func (t *Thread) tick() {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}

type lockState struct {
	rw      bool
	writer  *Thread
	readers map[*Thread]int
	waiting int // writers waiting (blocks new readers)
	vcW     []int
	vcR     []int
}

type wgState struct {
	n  int
	vc []int
}

type accessInfo struct {
	wt, wc int // last writer thread, clock
	wfn    *ssa.Function
	reads  map[int]int
	rfn    map[int]*ssa.Function
}

type raceState struct {
	acc map[any]*accessInfo
}

func (m *Machine) acc(k any) *accessInfo {
	a := m.race.acc[k]
	if a == nil {
		a = &accessInfo{wt: -1}
		m.race.acc[k] = a
	}
	return a
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return shortFn(f)
}

func (m *Machine) onRead(t *Thread, k any, fn *ssa.Function) {
	a := m.acc(k)
	if a.wt >= 0 && a.wt != t.id && a.wc > t.clock(a.wt) {
		m.raceFound(fn, a.wfn, "read", "write")
	}
	if a.reads == nil {
		a.reads = map[int]int{}
		a.rfn = map[int]*ssa.Function{}
	}
	a.reads[t.id] = t.clock(t.id)
	a.rfn[t.id] = fn
}

func (m *Machine) onWrite(t *Thread, k any, fn *ssa.Function) {
	a := m.acc(k)
	if a.wt >= 0 && a.wt != t.id && a.wc > t.clock(a.wt) {
		m.raceFound(fn, a.wfn, "write", "write")
	}
	for id, c := range a.reads {
		if id != t.id && c > t.clock(id) {
			m.raceFound(fn, a.rfn[id], "write", "read")
		}
	}
	a.wt, a.wc, a.wfn = t.id, t.clock(t.id), fn
	a.reads, a.rfn = nil, nil
}

// accesses to a struct or array are accesses to each of its parts
func (m *Machine) readLeaves(t *Thread, a *Value, fn *ssa.Function) {
	switch x := (*a).(type) {
	case Struct:
		for i := range x {
			m.readLeaves(t, &x[i], fn)
		}
	case Array:
		for i := range x {
			m.readLeaves(t, &x[i], fn)
		}
	default:
		m.onRead(t, a, fn)
	}
}

func (m *Machine) writeLeaves(t *Thread, a *Value, fn *ssa.Function) {
	switch x := (*a).(type) {
	case Struct:
		for i := range x {
			m.writeLeaves(t, &x[i], fn)
		}
	case Array:
		for i := range x {
			m.writeLeaves(t, &x[i], fn)
		}
	default:
		m.onWrite(t, a, fn)
	}
}

func (m *Machine) raceFound(f1, f2 *ssa.Function, k1, k2 string) {
	if m.eng.isHarnessFn(f1) && m.eng.isHarnessFn(f2) {
		m.unsupported("race between harness accesses in %s and %s", fnName(f1), fnName(f2))
	}
	a, b := fnName(f1)+" "+k1, fnName(f2)+" "+k2
	if b < a {
		a, b = b, a
	}
	m.violation(fmt.Sprintf("data race: %s / %s", a, b))
}

func (m *Machine) lock(p *Value, rw bool) *lockState {
	if p == nil {
		m.nilDeref()
	}
	l := m.locks[p]
	if l == nil {
		l = &lockState{rw: rw, readers: map[*Thread]int{}}
		m.locks[p] = l
	}
	return l
}

// ---- scheduling

func (m *Machine) live() int {
	n := 0
	for _, t := range m.threads {
		if !t.done {
			n++
		}
	}
	return n
}

func (m *Machine) runnable() []*Thread {
	var r []*Thread
	for _, t := range m.threads {
		if !t.done && (t.blocked == nil || !t.blocked()) {
			r = append(r, t)
		}
	}
	return r
}

// yield is a scheduling point of a running thread.
func (m *Machine) yield(t *Thread) {
	if t.std || m.live() <= 1 {
		return
	}
	m.reschedule(t)
}

// block suspends t until cond() is false.
func (m *Machine) block(t *Thread, what string, cond func() bool) {
	for cond() {
		t.blocked = cond
		t.what = what
		m.reschedule(t)
		t.blocked = nil
	}
}

func (m *Machine) reschedule(t *Thread) {
	r := m.runnable()
	if len(r) == 0 {
		msg := "deadlock:"
		for _, x := range m.threads {
			if !x.done {
				msg += fmt.Sprintf(" goroutine %d waits for %s;", x.id, x.what)
			}
		}
		m.violation(msg)
	}
	// current thread first: choice 0 is "no context switch"
	ordered := make([]*Thread, 0, len(r))
	curRunnable := false
	for _, x := range r {
		if x == t {
			ordered = append(ordered, x)
			curRunnable = true
		}
	}
	for _, x := range r {
		if x != t {
			ordered = append(ordered, x)
		}
	}
	k := 0
	if len(ordered) > 1 {
		if m.maxPre >= 0 && curRunnable && m.preempt >= m.maxPre {
			k = 0
		} else {
			m.schedDep = true
			k = m.freshChoice("sched", len(ordered))
			if curRunnable && k != 0 {
				m.preempt++
			}
		}
	}
	next := ordered[k]
	m.sched = append(m.sched, next.id)
	if next == t {
		return
	}
	m.switchTo(t, next)
}

func (m *Machine) switchTo(t, next *Thread) {
	m.cur = next
	next.wake <- struct{}{}
	if t.done {
		return
	}
	<-t.wake
	if m.dead {
		panic(abort{abKilled, ""})
	}
}

func (m *Machine) spawn(parent *Thread, f func(t *Thread)) *Thread {
	if m.race == nil {
		m.race = &raceState{acc: map[any]*accessInfo{}}
		parent.tick()
	}
	t := &Thread{id: len(m.threads), wake: make(chan struct{}), vc: copyVC(parent.vc)}
	t.tick()
	parent.tick()
	m.threads = append(m.threads, t)
	go func() {
		<-t.wake
		handed := false
		defer func() {
			if handed {
				return // another thread runs already
			}
			r := recover()
			if m.dead {
				// path is being torn down
				t.done = true
				m.threads[0].wake <- struct{}{}
				return
			}
			if r != nil {
				if tp, ok := r.(targetPanic); ok {
					r = abort{abViolation, "panic in goroutine: " + m.panicText(tp.v)}
					m.violated = r.(abort).msg
				}
				if _, ok := r.(abort); !ok {
					r = abort{abUnsupported, fmt.Sprint("engine: ", r)}
				}
				t.done = true
				m.deadErr = r
				m.dead = true
				m.cur = m.threads[0]
				m.threads[0].wake <- struct{}{}
				return
			}
		}()
		if m.dead {
			return
		}
		f(t)
		t.done = true
		// hand over; errors in here are reported like any other
		rr := m.runnable()
		if len(rr) == 0 {
			m.reschedule(t) // reports the deadlock
			return
		}
		k := 0
		if len(rr) > 1 {
			m.schedDep = true
			k = m.freshChoice("sched", len(rr))
		}
		m.sched = append(m.sched, rr[k].id)
		m.cur = rr[k]
		handed = true
		rr[k].wake <- struct{}{}
	}()
	return t
}

// teardown stops all goroutines of the path; runs on the main thread.
func (m *Machine) teardown() {
	m.dead = true
	if len(m.threads) == 0 {
		return
	}
	main := m.threads[0]
	for _, t := range m.threads[1:] {
		if !t.done {
			t.wake <- struct{}{}
			<-main.wake
		}
	}
}

// join waits for all other threads.
func (m *Machine) joinAll(t *Thread) {
	others := func() bool {
		for _, x := range m.threads {
			if x != t && !x.done {
				return true
			}
		}
		return false
	}
	if others() {
		t.blocked = others
		t.what = "join"
		for others() {
			m.reschedule(t)
		}
		t.blocked = nil
	}
	for _, x := range m.threads {
		if x != t {
			t.vc = joinVC(t.vc, x.vc)
		}
	}
	t.tick()
}

// ---- lock operations

func (m *Machine) mutexLock(t *Thread, p *Value, rw bool) {
	l := m.lock(p, rw)
	m.yield(t)
	free := func() bool { return l.writer == nil && len(l.readers) == 0 }
	if !free() {
		l.waiting++
		m.block(t, "Lock", func() bool { return !free() })
		l.waiting--
	}
	l.writer = t
	t.vc = joinVC(t.vc, l.vcW)
	t.vc = joinVC(t.vc, l.vcR)
}

func (m *Machine) mutexTryLock(t *Thread, p *Value, rw bool) bool {
	l := m.lock(p, rw)
	m.yield(t)
	if l.writer != nil || len(l.readers) > 0 {
		return false
	}
	l.writer = t
	t.vc = joinVC(t.vc, l.vcW)
	t.vc = joinVC(t.vc, l.vcR)
	return true
}

func (m *Machine) mutexUnlock(t *Thread, p *Value, rw bool) {
	l := m.lock(p, rw)
	if l.writer == nil {
		m.violation("fatal error: unlock of unlocked mutex")
	}
	l.writer = nil
	l.vcW = copyVC(t.vc)
	t.tick()
}

func (m *Machine) rlock(t *Thread, p *Value) {
	l := m.lock(p, true)
	m.yield(t)
	can := func() bool { return l.writer == nil && l.waiting == 0 }
	m.block(t, "RLock", func() bool { return !can() })
	l.readers[t]++
	t.vc = joinVC(t.vc, l.vcW)
}

func (m *Machine) tryRLock(t *Thread, p *Value) bool {
	l := m.lock(p, true)
	m.yield(t)
	if l.writer != nil || l.waiting > 0 {
		return false
	}
	l.readers[t]++
	t.vc = joinVC(t.vc, l.vcW)
	return true
}

// condWait is a goroutine that waits for a sync.Cond.
type condWait struct {
	woken bool
	vc    []int
}

func (m *Machine) runlock(t *Thread, p *Value) {
	l := m.lock(p, true)
	if l.readers[t] == 0 {
		// may be unlocked by another goroutine
		found := false
		for x := range l.readers {
			if !found {
				l.readers[x]--
				if l.readers[x] == 0 {
					delete(l.readers, x)
				}
				found = true
			}
		}
		if !found {
			m.violation("fatal error: sync: RUnlock of unlocked RWMutex")
		}
	} else {
		l.readers[t]--
		if l.readers[t] == 0 {
			delete(l.readers, t)
		}
	}
	l.vcR = joinVC(copyVC(l.vcR), t.vc)
	t.tick()
}
