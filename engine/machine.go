package main

// Machine: the state of one worker and of the path it is executing.

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

type abKind int

const (
	abAssume abKind = iota // path condition infeasible
	abViolation
	abUnsupported
	abBound
	abSolver
	abKilled // thread of an aborted path
)

func (k abKind) String() string {
	return [...]string{"infeasible", "violation", "unsupported", "bound", "solver", "killed"}[k]
}

type abort struct {
	kind abKind
	msg  string
}

type Decision struct {
	taken   bool
	implied bool
	val     uint64
}

type Item struct {
	prefix []Decision
	model  Model
}

type tapeEntry struct {
	name string
	kind string // int, bool, str, f64, f32, choice, time
	v    Value
}

type Machine struct {
	eng *Engine
	tc  *TermCtx
	sol *Solver

	consts     map[*ssa.Const]Value
	stdGlobals map[*ssa.Global]*Value
	stdInit    map[*ssa.Package]int
	inStdInit  int

	// per path
	globals   map[*ssa.Global]*Value
	pc        []*Term
	known     map[*Term]bool
	prefix    []Decision
	trail     []Decision
	model     Model
	noModel   bool // the model is not known to satisfy the path condition
	ev        *evaluator
	vars      []*Term
	nameSeq   map[string]int
	tape      []tapeEntry
	steps     int
	maxSteps  int
	obs       []Value
	covers    map[string]bool
	asserts   int
	clock     *Term
	clockSeq  []*Term
	freeRun   bool
	sched     []int
	itoa      map[*Term]Str
	mapMode   int
	files     map[string]*vfile
	race      *raceState
	locks     map[*Value]*lockState
	threads   []*Thread
	cur       *Thread
	dead      bool
	deadErr   any
	violated  string
	bounds    map[string]int
	schedDep  bool
	mapDep    bool
	onces     map[*Value]int
	conds     map[*Value][]*condWait
	plusV     bool // formatting with %+v
	allocated int  // cells of slices and strings
	pools     map[*Value][]pooled
	sliceDat  map[*Value]Slice
	funcs     map[*ssa.Function]bool
	ifQ       int
	assumed   map[string]bool
	preempt   int
	stamp     int
	maxPre    int
	wgs       map[*Value]*wgState
	syncMaps  map[*Value]*MapV
	callDep   int
	harness   string
	inHarness bool
	deadline  time.Time
}

func newMachine(e *Engine) *Machine {
	m := &Machine{eng: e}
	m.resetWorker()
	return m
}

func (m *Machine) resetWorker() {
	m.tc = NewTermCtx()
	if m.sol == nil {
		m.sol = NewSolver(m.eng.solverCmd, m.eng.solverTimeout)
		m.sol.dir = m.eng.scratch
	} else {
		m.sol.Restart()
	}
	m.consts = map[*ssa.Const]Value{}
	m.stdGlobals = map[*ssa.Global]*Value{}
	m.stdInit = map[*ssa.Package]int{}
	m.funcs = map[*ssa.Function]bool{}
}

func (m *Machine) resetPath(it *Item) {
	m.globals = map[*ssa.Global]*Value{}
	m.pc = m.pc[:0]
	m.known = map[*Term]bool{}
	m.prefix = it.prefix
	m.trail = nil
	m.model = Model{}
	for k, v := range it.model {
		m.model[k] = v
	}
	m.ev = newEval(m.model)
	m.noModel = it.model == nil && len(it.prefix) > 0
	m.vars = nil
	m.nameSeq = map[string]int{}
	m.tape = nil
	m.steps = 0
	m.allocated = 0
	m.obs = nil
	m.covers = map[string]bool{}
	m.asserts = 0
	m.clock = nil
	m.clockSeq = nil
	m.freeRun = false
	m.sched = nil
	m.itoa = map[*Term]Str{}
	m.mapMode = mapOrderDefault
	m.files = map[string]*vfile{}
	m.race = nil
	m.locks = map[*Value]*lockState{}
	m.threads = nil
	m.cur = nil
	m.dead = false
	m.deadErr = nil
	m.violated = ""
	m.bounds = map[string]int{}
	m.schedDep = false
	m.mapDep = false
	m.onces = map[*Value]int{}
	m.conds = map[*Value][]*condWait{}
	m.plusV = false
	m.pools = map[*Value][]pooled{}
	m.sliceDat = map[*Value]Slice{}
	m.assumed = map[string]bool{}
	m.preempt = 0
	m.stamp = 0
	m.maxPre = -1
	m.wgs = map[*Value]*wgState{}
	m.syncMaps = map[*Value]*MapV{}
}

func (m *Machine) unsupported(f string, a ...any) {
	panic(abort{abUnsupported, fmt.Sprintf(f, a...)})
}

func (m *Machine) assumption(s string) { m.assumed[s] = true }

func (m *Machine) newVar(label string, s Sort) *Term {
	label = sanitize(label)
	k := m.nameSeq["v:"+label]
	m.nameSeq["v:"+label] = k + 1
	var sk string
	switch s.K {
	case KBool:
		sk = "p"
	case KBV:
		sk = fmt.Sprintf("b%d", s.W)
	}
	t := m.tc.Var(fmt.Sprintf("%s_%s_%d", label, sk, k), s)
	m.vars = append(m.vars, t)
	return t
}

// rangedVar is a variable of w bits between lo and hi (unsigned).
func (m *Machine) rangedVar(label string, w int, lo, hi uint64) *Term {
	return m.rangedVarHint(label, w, lo, hi, lo)
}

func (m *Machine) rangedVarHint(label string, w int, lo, hi, hint uint64) *Term {
	if lo == 0 && hi >= mask(w) {
		v := m.newVar(label, BV(w))
		m.hint(v, hint)
		return v
	}
	v := m.newVar(fmt.Sprintf("%s_%x_%x", label, lo, hi), BV(w))
	v.ranged, v.lo, v.hi = true, lo, hi
	m.hint(v, hint)
	// built without rewriting: the rewriter already relies on the range
	c := m.tc.T
	if lo > 0 {
		c = m.tc.mk(OUle, BoolSort, 0, "", m.tc.Const(w, lo), v)
	}
	if hi < mask(w) {
		c = m.tc.And(c, m.tc.mk(OUle, BoolSort, 0, "", v, m.tc.Const(w, hi)))
	}
	m.assume(c)
	return v
}

// intIn is a 64-bit integer between lo and hi.
func (m *Machine) intIn(label string, lo, hi int64) *Term {
	span := uint64(hi) - uint64(lo)
	w := bits.Len64(span)
	if w == 64 {
		if lo == math.MinInt64 && hi == math.MaxInt64 {
			return m.newVar(label, BV(64))
		}
		t := m.newVar(label, BV(64))
		m.hint(t, uint64(lo))
		m.assume(m.tc.And(m.tc.Cmp(OSle, m.tc.Const(64, uint64(lo)), t), m.tc.Cmp(OSle, t, m.tc.Const(64, uint64(hi)))))
		return t
	}
	if w == 0 {
		return m.tc.Const(64, uint64(lo))
	}
	h := uint64(0)
	if lo < 0 && hi >= 0 {
		h = uint64(-lo)
	}
	v := m.rangedVarHint(label, w, 0, span, h)
	return m.tc.Bin(OAdd, m.tc.Ext(v, 64, false), m.tc.Const(64, uint64(lo)))
}

func sanitize(s string) string {
	b := []byte(s)
	for i, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_') {
			b[i] = '_'
		}
	}
	if len(b) == 0 || b[0] >= '0' && b[0] <= '9' {
		return "v" + string(b)
	}
	return "v" + string(b)
}

func (m *Machine) setModel(md Model) {
	if md == nil {
		md = Model{}
	}
	m.model = md
	m.ev = newEval(md)
	m.noModel = false
}

// needModel finds a model after an undecided branch.
func (m *Machine) needModel() {
	if !m.noModel {
		return
	}
	r, md := m.check(nil)
	switch r {
	case Sat:
		m.setModel(md)
	case Unsat:
		panic(abort{abAssume, ""})
	default:
		panic(abort{abSolver, "path condition undecided"})
	}
}

func (m *Machine) hint(v *Term, val uint64) {
	if _, ok := m.model[v.name]; !ok {
		m.model[v.name] = val
	}
}

func (m *Machine) addPC(c *Term) {
	if c.IsConst() {
		return
	}
	m.pc = append(m.pc, c)
	m.learn(c, true)
}

func (m *Machine) learn(c *Term, v bool) {
	if c.op == ONot {
		c = c.a[0]
		v = !v
	}
	m.known[c] = v
	if v && c.op == OAnd {
		m.learn(c.a[0], true)
		m.learn(c.a[1], true)
	}
	if !v && c.op == OOr {
		m.learn(c.a[0], false)
		m.learn(c.a[1], false)
	}
}

func (m *Machine) lookup(c *Term) (bool, bool) {
	if c.IsConst() {
		return c.val == 1, true
	}
	neg := false
	if c.op == ONot {
		c = c.a[0]
		neg = true
	}
	if v, ok := m.known[c]; ok {
		return v != neg, true
	}
	return false, false
}

// check asks the solver for pc /\ extra.
func (m *Machine) check(extra *Term) (Result, Model) {
	return m.sol.Check(m.pc, extra, m.vars)
}

// assume restricts the path.
func (m *Machine) assume(c *Term) {
	if v, ok := m.lookup(c); ok {
		if v {
			return
		}
		panic(abort{abAssume, ""})
	}
	if m.noModel && len(m.trail) < len(m.prefix) {
		m.addPC(c)
		return
	}
	m.needModel()
	if m.ev.ev(c) == 1 {
		m.addPC(c)
		return
	}
	if len(m.trail) < len(m.prefix) {
		// still replaying: the model belongs to the end of the prefix and
		// must satisfy every assumption on the way unless it was unknown
		r, md := m.check(c)
		if r != Sat {
			panic(abort{abAssume, ""})
		}
		_ = md
		m.addPC(c)
		return
	}
	r, md := m.check(c)
	switch r {
	case Unsat:
		panic(abort{abAssume, ""})
	case Unknown:
		panic(abort{abSolver, "unknown on assumption"})
	}
	m.addPC(c)
	m.setModel(md)
}

func (m *Machine) branch(c *Term) bool {
	if v, ok := m.lookup(c); ok {
		return v
	}
	return m.decide(c, 0)
}

func (m *Machine) decide(c *Term, val uint64) bool {
	i := len(m.trail)
	if i < len(m.prefix) {
		d := m.prefix[i]
		m.trail = append(m.trail, d)
		cc := c
		if !d.taken {
			cc = m.tc.Not(c)
		}
		if d.implied {
			m.learn(cc, true)
		} else {
			m.addPC(cc)
		}
		return d.taken
	}
	if i >= m.eng.maxDecisions {
		panic(abort{abBound, "decision bound"})
	}
	m.needModel()
	taken := m.ev.ev(c) == 1
	side, other := c, m.tc.Not(c)
	if !taken {
		side, other = other, side
	}
	r, md := m.check(other)
	d := Decision{taken: taken, val: val}
	switch r {
	case Unsat:
		d.implied = true
		m.learn(side, true)
	default:
		if r == Unknown {
			md = nil
			m.eng.noteUnknown()
		}
		if m.eng.room() {
			alt := make([]Decision, i+1)
			copy(alt, m.trail)
			alt[i] = Decision{taken: !taken, val: val}
			m.eng.push(&Item{prefix: alt, model: md})
		}
		m.addPC(side)
	}
	m.trail = append(m.trail, d)
	return taken
}

// freshChoice forks over 0..n-1 through a fresh solver variable.
func (m *Machine) freshChoice(label string, n int) int {
	if n <= 1 {
		return 0
	}
	v := m.newVar(label, BV(8))
	return m.chooseVar(v, n)
}

func (m *Machine) chooseVar(v *Term, n int) int {
	w := v.sort.W
	i := len(m.trail)
	if i < len(m.prefix) {
		d := m.prefix[i]
		m.trail = append(m.trail, d)
		m.addPC(m.tc.Eq(v, m.tc.Const(w, d.val)))
		m.model[v.name] = d.val
		return int(d.val)
	}
	if i >= m.eng.maxDecisions {
		panic(abort{abBound, "decision bound"})
	}
	for k := n - 1; k >= 1; k-- {
		if !m.eng.room() {
			continue
		}
		alt := make([]Decision, i+1)
		copy(alt, m.trail)
		alt[i] = Decision{taken: true, val: uint64(k)}
		md := make(Model, len(m.model)+1)
		for a, b := range m.model {
			md[a] = b
		}
		md[v.name] = uint64(k)
		m.eng.push(&Item{prefix: alt, model: md})
	}
	m.trail = append(m.trail, Decision{taken: true, val: 0})
	m.addPC(m.tc.Eq(v, m.tc.Const(w, 0)))
	m.model[v.name] = 0
	return 0
}

// concretize returns a concrete value of t, forking over all feasible ones.
func (m *Machine) concretize(t *Term, limit int) uint64 {
	if t.IsConst() {
		return t.val
	}
	for k := 0; k < limit; k++ {
		i := len(m.trail)
		if i < len(m.prefix) {
			v := m.prefix[i].val
			if m.decide(m.tc.Eq(t, m.tc.Const(t.sort.W, v)), v) {
				return v
			}
			continue
		}
		m.needModel()
		v := m.ev.ev(t)
		c := m.tc.Eq(t, m.tc.Const(t.sort.W, v))
		if kv, ok := m.lookup(c); ok {
			if !kv {
				panic(abort{abSolver, "inconsistent concretisation"})
			}
			// recorded, so that replaying the prefix takes the same value
			m.trail = append(m.trail, Decision{taken: true, implied: true, val: v})
			return v
		}
		if m.decide(c, v) {
			return v
		}
	}
	panic(abort{abBound, "concretisation bound"})
}

func (m *Machine) concInt(t *Term) int {
	return int(sext(m.concretize(t, 80), t.sort.W))
}

func (m *Machine) assertT(c *Term, msg string) {
	m.asserts++
	m.eng.noteAssert()
	if v, ok := m.lookup(c); ok && v {
		m.eng.noteTrivial()
		return
	}
	if m.noModel && len(m.trail) < len(m.prefix) {
		m.learn(c, true)
		return
	}
	m.needModel()
	if m.ev.ev(c) == 0 {
		m.violated = msg
		panic(abort{abViolation, msg})
	}
	if len(m.trail) < len(m.prefix) {
		// decided when this prefix was first executed
		m.learn(c, true)
		return
	}
	r, md := m.check(m.tc.Not(c))
	switch r {
	case Sat:
		m.setModel(md)
		m.violated = msg
		panic(abort{abViolation, msg})
	case Unknown:
		m.eng.noteUnknownAssert(msg)
		return
	}
	m.learn(c, true)
}

func (m *Machine) violation(msg string) {
	m.violated = msg
	panic(abort{abViolation, msg})
}

// ---- target panics

type targetPanic struct{ v Value }

func (m *Machine) rtPanic(msg string) {
	t := m.eng.rtErrType
	panic(targetPanic{Iface{t: t, v: Str{s: msg}}})
}

func (m *Machine) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return "nil"
	}
	if s, ok := i.v.(Str); ok {
		return m.concStr(m.ev, s)
	}
	return i.t.String()
}

func sortedKeys[T any](mm map[string]T) []string {
	var r []string
	for k := range mm {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = types.Universe

// cells counts the cells of a slice or string that is made: a path that
// needs too many of them is cut.
func (m *Machine) cells(n int) {
	m.allocated += n
	if n > maxCells || m.allocated > maxAllocatedCells {
		panic(abort{abBound, "memory bound"})
	}
}

const (
	maxCells          = 1 << 22
	maxAllocatedCells = 1 << 26
)
