package main

// Engine: loading, exploration of the execution tree of each harness, results.

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	solverCmd     []string
	scratch       string
	solverTimeout int
	maxDecisions  int
	maxSteps      int
	debug         bool
	thorough      bool
	workers       int
	seed          int64
	rtErrType     types.Type
	sizes         types.Sizes
	prog          *ssa.Program
	hpkg          *ssa.Package // harness package
	modPath       string
	reCache       sync.Map
	mcache        sync.Map
	icache        sync.Map
	stdMu         sync.Mutex
	stdFns        map[string]*ssa.Function

	mu      sync.Mutex
	cond    *sync.Cond
	work    []*Item
	active  int
	stop    bool
	run     *HarnessRun
	states  int64
	edges   int64
	pending int64 // memory of the unexplored branches
	dropped int64
	asserts int64
	trivial int64
	unknown int64
}

type Trace struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"msg,omitempty"`
	Tape    map[string]string `json:"tape"`
	Kinds   map[string]string `json:"kinds"`
	Order   []string          `json:"order,omitempty"`
	Sched   []int             `json:"sched,omitempty"`
	Clocks  []int64           `json:"clocks,omitempty"`
	Obs     []string          `json:"obs,omitempty"`
	MapDep  bool              `json:"map_order_dependent,omitempty"`
	Tier    string            `json:"tier"`
	Why     string            `json:"why,omitempty"`
}

type HarnessRun struct {
	Name        string
	Completed   int
	Infeasible  int
	Unsupported map[string]int
	Bounded     map[string]int
	SolverFail  map[string]int
	UnkAssert   map[string]int
	Left        int // unexplored items when the budget ended
	Violations  []*Trace
	vioCount    map[string]int
	Samples     []*Trace
	Probes      []*Trace // paths that could not be finished symbolically
	seen        int
	Covers      map[string]int
	Bounds      map[string]int
	Assumptions map[string]bool
	Asserts     int64
	Trivial     int64
	States      int64
	Edges       int64
	Queries     int
	NSat        int
	NUnsat      int
	NUnk        int
	SolverTime  time.Duration
	Wall        time.Duration
	Funcs       map[string]bool
	MaxSteps    int
	MaxTrail    int
	rng         *rand.Rand
}

// ---- loading

func overlayFor(modDir, verif, hdir string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	add := func(src, dst string) error {
		ents, err := os.ReadDir(src)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				b, err := os.ReadFile(filepath.Join(src, e.Name()))
				if err != nil {
					return err
				}
				ov[filepath.Join(dst, e.Name())] = b
			}
		}
		return nil
	}
	if err := add(filepath.Join(verif, "rt", "zzvrt"), filepath.Join(modDir, "zzvrt")); err != nil {
		return nil, err
	}
	if err := add(hdir, filepath.Join(modDir, "zzvh")); err != nil {
		return nil, err
	}
	return ov, nil
}

func (e *Engine) load(modDir string, env, flags []string, ov map[string][]byte) error {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: modDir, Env: env, BuildFlags: flags, Overlay: ov}
	pkgs, err := packages.Load(cfg, e.modPath+"/zzvh")
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, x := range p.Errors {
			errs = append(errs, x.Error())
		}
	})
	if len(errs) > 0 {
		return fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	e.hpkg = sp[0]
	e.sizes = types.SizesFor("gc", "amd64")
	rt := prog.ImportedPackage("runtime")
	if rt == nil {
		return fmt.Errorf("runtime not loaded")
	}
	e.rtErrType = rt.Type("errorString").Type()
	e.stdFns = map[string]*ssa.Function{}
	e.cond = sync.NewCond(&e.mu)
	return nil
}

func (e *Engine) harnesses(prefix string) []*ssa.Function {
	var r []*ssa.Function
	for _, mem := range e.hpkg.Members {
		if f, ok := mem.(*ssa.Function); ok && strings.HasPrefix(f.Name(), prefix) && f.Signature.Params().Len() == 0 {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

func (e *Engine) isRepoPkg(p *ssa.Package) bool {
	return p != nil && (p.Pkg.Path() == e.modPath || strings.HasPrefix(p.Pkg.Path(), e.modPath+"/"))
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil {
		return o.Pkg
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Prog.ImportedPackage(fn.Object().Pkg().Path())
	}
	return nil
}

func (e *Engine) isHarnessFn(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	p := fnPkg(fn)
	return p == e.hpkg || p != nil && strings.HasSuffix(p.Pkg.Path(), "/zzvrt")
}

func (e *Engine) isRepoFn(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return e.isRepoPkg(p) && !e.isHarnessFn(fn)
}

type mkey struct {
	t types.Type
	n string
}

func (e *Engine) method(t types.Type, f *types.Func) *ssa.Function {
	k := mkey{t, f.Id()}
	if x, ok := e.mcache.Load(k); ok {
		return x.(*ssa.Function)
	}
	ms := e.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(f.Pkg(), f.Name())
	if sel == nil {
		return nil
	}
	fn := e.prog.MethodValue(sel)
	e.mcache.Store(k, fn)
	return fn
}

func (e *Engine) methodByName(t types.Type, name string) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

type ikey struct {
	t types.Type
	i *types.Interface
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	k := ikey{t, it}
	if x, ok := e.icache.Load(k); ok {
		return x.(bool)
	}
	r := types.Implements(t, it)
	e.icache.Store(k, r)
	return r
}

func (e *Engine) std(pkg, name string) *ssa.Function {
	e.stdMu.Lock()
	defer e.stdMu.Unlock()
	k := pkg + "." + name
	if f, ok := e.stdFns[k]; ok {
		return f
	}
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		panic(abort{abUnsupported, "package not loaded: " + pkg})
	}
	f := p.Func(name)
	if f == nil {
		panic(abort{abUnsupported, "no function " + k})
	}
	e.stdFns[k] = f
	return f
}

// ---- worklist

// Unexplored branches may use this much memory; those beyond are left.
const maxPending = 3 << 30

func (it *Item) weight() int64 {
	return int64(96 + 16*len(it.prefix) + 64*len(it.model))
}

// room tells if another branch may be kept; otherwise it counts as left.
func (e *Engine) room() bool {
	if atomic.LoadInt64(&e.pending) < maxPending {
		return true
	}
	atomic.AddInt64(&e.dropped, 1)
	return false
}

func (e *Engine) push(it *Item) {
	atomic.AddInt64(&e.edges, 1)
	atomic.AddInt64(&e.pending, it.weight())
	e.mu.Lock()
	e.work = append(e.work, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) pop() *Item {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return nil
		}
		if n := len(e.work); n > 0 {
			it := e.work[n-1]
			e.work[n-1] = nil
			e.work = e.work[:n-1]
			e.active++
			atomic.AddInt64(&e.pending, -it.weight())
			return it
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Engine) doneItem() {
	e.mu.Lock()
	e.active--
	if e.active == 0 && len(e.work) == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *Engine) noteUnknown() { atomic.AddInt64(&e.unknown, 1) }
func (e *Engine) noteAssert()  { atomic.AddInt64(&e.asserts, 1) }
func (e *Engine) noteTrivial() { atomic.AddInt64(&e.trivial, 1) }
func (e *Engine) noteUnknownAssert(msg string) {
	e.mu.Lock()
	e.run.UnkAssert[msg]++
	e.mu.Unlock()
}

// explore runs one harness to completion or until the budget ends.
func (e *Engine) explore(ms []*Machine, fn *ssa.Function, budget time.Duration) *HarnessRun {
	hr := &HarnessRun{Name: fn.Name(), Unsupported: map[string]int{}, Bounded: map[string]int{}, SolverFail: map[string]int{},
		UnkAssert: map[string]int{}, vioCount: map[string]int{}, Covers: map[string]int{}, Bounds: map[string]int{},
		Assumptions: map[string]bool{}, Funcs: map[string]bool{}, rng: rand.New(rand.NewSource(e.seed))}
	e.run = hr
	e.work = nil
	e.pending, e.dropped = 0, 0
	e.push(&Item{})
	e.active = 0
	e.stop = false
	e.states, e.edges, e.asserts, e.trivial, e.unknown = 0, 0, 0, 0, 0
	t0 := time.Now()
	deadline := t0.Add(budget)
	for _, m := range ms {
		m.sol.Queries, m.sol.NSat, m.sol.NUnsat, m.sol.NUnk, m.sol.Time = 0, 0, 0, 0, 0
		m.funcs = map[*ssa.Function]bool{}
	}
	timer := time.AfterFunc(budget, func() {
		e.mu.Lock()
		e.stop = true
		e.mu.Unlock()
		e.cond.Broadcast()
	})
	var wg sync.WaitGroup
	for _, m := range ms {
		wg.Add(1)
		go func(m *Machine) {
			defer wg.Done()
			for {
				it := e.pop()
				if it == nil {
					return
				}
				if len(m.tc.tab) > 1500000 {
					m.resetWorker()
				}
				m.deadline = deadline.Add(5 * time.Second)
				m.sol.deadline = m.deadline
				e.runPath(m, fn, it)
				e.doneItem()
			}
		}(m)
	}
	wg.Wait()
	timer.Stop()
	hr.Left = len(e.work) + int(e.dropped)
	e.work = nil
	hr.Wall = time.Since(t0)
	hr.States, hr.Edges, hr.Asserts, hr.Trivial = e.states, e.edges, e.asserts, e.trivial
	for _, m := range ms {
		hr.Queries += m.sol.Queries
		hr.NSat += m.sol.NSat
		hr.NUnsat += m.sol.NUnsat
		hr.NUnk += m.sol.NUnk
		hr.SolverTime += m.sol.Time
		for f := range m.funcs {
			hr.Funcs[shortFn(f)] = true
		}
	}
	return hr
}

func (m *Machine) trace(msg string) *Trace {
	t := &Trace{Harness: m.harness, Msg: msg, Tape: map[string]string{}, Kinds: map[string]string{}, MapDep: m.mapDep, Tier: "quick"}
	if m.eng.thorough {
		t.Tier = "thorough"
	}
	for _, e := range m.tape {
		var s string
		switch v := e.v.(type) {
		case *Term:
			u := m.ev.ev(v)
			switch {
			case e.kind == "bool":
				s = fmt.Sprint(u == 1)
			case e.kind == "f64":
				s = fmt.Sprintf("%016x", u)
			case v.sort.W == 8:
				s = fmt.Sprint(u)
			default:
				s = fmt.Sprint(int64(sext(u, v.sort.W)))
			}
		case Str:
			s = hex.EncodeToString([]byte(m.concStr(m.ev, v)))
		}
		t.Tape[e.name] = s
		t.Kinds[e.name] = e.kind
		t.Order = append(t.Order, e.name)
	}
	for _, c := range m.clockSeq {
		t.Clocks = append(t.Clocks, int64(m.ev.ev(c)))
	}
	t.Sched = append(t.Sched, m.sched...)
	for _, o := range m.obs {
		t.Obs = append(t.Obs, m.render(m.ev, o))
	}
	return t
}

func (e *Engine) runPath(m *Machine, fn *ssa.Function, it *Item) {
	m.resetPath(it)
	m.harness = fn.Name()
	m.maxSteps = e.maxSteps
	th := &Thread{id: 0, wake: make(chan struct{})}
	th.tick()
	m.threads = []*Thread{th}
	m.cur = th
	var res any
	func() {
		defer func() {
			res = recover()
			if a, ok := res.(abort); ok && a.kind == abKilled && m.deadErr != nil {
				res = m.deadErr
			}
			m.teardown()
		}()
		for _, p := range e.initOrder() {
			if f := p.Func("init"); f != nil {
				m.call(th, nil, &Closure{fn: f}, nil)
			}
		}
		m.inHarness = true
		m.call(th, nil, &Closure{fn: fn}, nil)
		m.joinAll(th)
	}()
	if tp, ok := res.(targetPanic); ok {
		msg := "panic: " + m.panicText(tp.v)
		m.violated = msg
		res = abort{abViolation, msg}
	}
	if res != nil {
		if _, ok := res.(abort); !ok {
			if e.debug {
				fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n", res, debug.Stack())
			}
			res = abort{abUnsupported, fmt.Sprint("engine: ", res)}
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	hr := e.run
	e.states += int64(len(m.trail) - len(it.prefix) + 1)
	atomic.AddInt64(&e.edges, int64(len(m.trail)-len(it.prefix)))
	for c := range m.covers {
		hr.Covers[c]++
	}
	for k, v := range m.bounds {
		hr.Bounds[k] = v
	}
	for k := range m.assumed {
		hr.Assumptions[k] = true
	}
	if m.steps > hr.MaxSteps {
		hr.MaxSteps = m.steps
	}
	if len(m.trail) > hr.MaxTrail {
		hr.MaxTrail = len(m.trail)
	}
	if res == nil {
		hr.Completed++
		// reservoir of traces to validate natively
		hr.seen++
		const K = 60
		if len(hr.Samples) < K {
			hr.Samples = append(hr.Samples, m.trace(""))
		} else if j := hr.rng.Intn(hr.seen); j < K {
			hr.Samples[j] = m.trace("")
		}
		return
	}
	a := res.(abort)
	switch a.kind {
	case abAssume:
		hr.Infeasible++
	case abViolation:
		hr.vioCount[a.msg]++
		if hr.vioCount[a.msg] <= 3 {
			hr.Violations = append(hr.Violations, m.trace(a.msg))
		}
		if len(hr.vioCount) >= 4 || hr.vioCount[a.msg] > 40 {
			e.stop = true
			e.cond.Broadcast()
		}
	case abUnsupported:
		hr.Unsupported[a.msg]++
		if hr.Unsupported[a.msg] <= 20 {
			t := m.trace("")
			t.Why = a.msg
			t.Obs = nil
			hr.Probes = append(hr.Probes, t)
		}
	case abBound:
		hr.Bounded[a.msg]++
		if hr.Bounded["step bound"] > 30 {
			// most likely a loop that does not end
			e.stop = true
			e.cond.Broadcast()
		}
		if hr.Bounded[a.msg] <= 20 {
			t := m.trace("")
			t.Why = a.msg
			t.Obs = nil
			hr.Probes = append(hr.Probes, t)
		}
	default:
		hr.SolverFail[a.kind.String()+": "+a.msg]++
	}
}

// initOrder: repository and harness packages in dependency order.
func (e *Engine) initOrder() []*ssa.Package {
	return []*ssa.Package{e.hpkg}
}
