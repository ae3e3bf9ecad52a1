package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *Machine, th *Thread, fn *ssa.Function, a []Value) Value

var intrinsics map[string]intrinsic

// pooled is an object in a sync.Pool.
type pooled struct {
	v  Value
	vc []int
}

type vfile struct {
	content Str
	mode    int // 0 ok, 1 open fails, 2 read fails, 3 close fails
}

func lookupIntrinsic(name string) intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	// harness runtime: <module>/zzvrt.X
	if i := strings.Index(name, "/zzvrt."); i >= 0 {
		if f, ok := intrinsics["vrt."+name[i+len("/zzvrt."):]]; ok {
			return f
		}
	}
	return nil
}

func (m *Machine) b(x bool) *Term  { return m.tc.Bool(x) }
func (m *Machine) i64(x int) *Term { return m.tc.Const(64, uint64(x)) }
func noop(v Value) intrinsic {
	return func(m *Machine, th *Thread, fn *ssa.Function, a []Value) Value { return v }
}
func (m *Machine) cs(v Value) string {
	s := v.(Str)
	if !s.conc() {
		m.unsupported("symbolic string where a concrete one is needed")
	}
	return s.s
}

func (m *Machine) newError(th *Thread, s Str) Value {
	return m.callSSA(th, nil, m.eng.std("errors", "New"), []Value{s}, nil)
}

func sliceStr(m *Machine, v Value) Str {
	a := v.(Slice).a
	m.cells(len(a))
	bs := make([]*Term, len(a))
	for i := range a {
		bs[i] = a[i].(*Term)
	}
	return mkStr(bs)
}

func (m *Machine) strSlice(s Str) Slice {
	m.cells(s.Len())
	a := make([]Value, s.Len())
	for i := range a {
		a[i] = m.at(s, i)
	}
	return Slice{a}
}

func (m *Machine) indexStr(s, sub Str) int {
	if s.conc() && sub.conc() {
		return strings.Index(s.s, sub.s)
	}
	n := sub.Len()
	for i := 0; i+n <= s.Len(); i++ {
		if m.branch(m.strEq(m.substr(s, i, i+n), sub)) {
			return i
		}
	}
	return -1
}

func (m *Machine) indexByte(s Str, c *Term) int {
	for i := 0; i < s.Len(); i++ {
		if m.branch(m.tc.Eq(m.at(s, i), c)) {
			return i
		}
	}
	return -1
}

func (m *Machine) countByte(s Str, c *Term) int {
	k := 0
	for i := 0; i < s.Len(); i++ {
		if m.branch(m.tc.Eq(m.at(s, i), c)) {
			k++
		}
	}
	return k
}

func (m *Machine) compareStr(a, b Str) Value {
	if m.branch(m.strEq(a, b)) {
		return m.i64(0)
	}
	if m.branch(m.strLt(a, b)) {
		return m.i64(-1)
	}
	return m.i64(1)
}

// formatInt renders an integer term in base 10.
func (m *Machine) formatInt(t *Term, signed bool) Str {
	if t.IsConst() {
		if signed {
			return Str{s: strconv.FormatInt(sext(t.val, t.sort.W), 10)}
		}
		return Str{s: strconv.FormatUint(t.val, 10)}
	}
	v := m.tc.Resize(t, 64, signed)
	if s, ok := m.itoa[v]; ok {
		return s
	}
	neg := false
	mag := v
	if signed && m.branch(m.tc.Cmp(OSlt, v, m.tc.Const(64, 0))) {
		neg = true
		mag = m.tc.Neg(v)
	}
	n := 1
	lim := uint64(10)
	for n < 20 {
		if m.branch(m.tc.Cmp(OUlt, mag, m.tc.Const(64, lim))) {
			break
		}
		n++
		if n < 20 {
			lim *= 10
		}
	}
	// digits as fresh variables: mag = sum d_i 10^i
	sum := m.tc.Const(64, 0)
	ds := make([]*Term, n)
	pw := uint64(1)
	cons := m.tc.T
	mv := m.ev.ev(mag)
	for i := 0; i < n; i++ {
		d := m.rangedVarHint("digit", 8, '0', '9', '0'+(mv/pw)%10)
		ds[n-1-i] = d
		dv := m.tc.Ext(m.tc.Bin(OSub, d, m.tc.Const(8, '0')), 64, false)
		sum = m.tc.Bin(OAdd, sum, m.tc.Bin(OMul, dv, m.tc.Const(64, pw)))
		pw *= 10
	}
	if n == 20 {
		// leading digit is 1 for 64-bit values; keeps the sum below 2^64
		cons = m.tc.And(cons, m.tc.Eq(ds[0], m.tc.Const(8, '1')))
	}
	m.assume(m.tc.And(cons, m.tc.Eq(sum, mag)))
	if neg {
		ds = append([]*Term{m.tc.Const(8, '-')}, ds...)
	}
	s := mkStr(ds)
	m.itoa[v] = s
	return s
}

func (m *Machine) now() *Term {
	if m.freeRun {
		t := m.tc.Bin(OAdd, m.clock, m.intIn("tick", 0, 1<<57))
		m.clock = t
		m.clockSeq = append(m.clockSeq, t)
		return t
	}
	if m.clock == nil {
		m.initClock()
	}
	return m.clock
}

func (m *Machine) initClock() {
	t := m.intIn("clock0", 1<<60, 1<<60+1<<58)
	m.clock = t
	m.tape = append(m.tape, tapeEntry{"clock0", "int", t})
}

func (m *Machine) zeroTime() TimeV {
	z := int64(zeroTimeNs)
	return TimeV{m.tc.Const(64, uint64(z)), zeroTimeHi}
}

func (m *Machine) timeEq(x, y TimeV) *Term {
	if x.hi != y.hi {
		return m.tc.F
	}
	return m.tc.Eq(x.ns, y.ns)
}

func (m *Machine) timeLess(x, y TimeV) *Term {
	if x.hi != y.hi {
		return m.b(x.hi < y.hi)
	}
	return m.tc.Cmp(OSlt, x.ns, y.ns)
}

func (m *Machine) timeAdd(t TimeV, d *Term) TimeV {
	r := m.tc.Bin(OAdd, t.ns, d)
	if m.tc.exactSum(OAdd, t.ns, d) {
		return TimeV{r, t.hi}
	}
	z := m.tc.Const(64, 0)
	if m.branch(m.tc.And(m.tc.Cmp(OSlt, z, d), m.tc.Cmp(OSlt, r, t.ns))) {
		return TimeV{r, t.hi + 1}
	}
	if m.branch(m.tc.And(m.tc.Cmp(OSlt, d, z), m.tc.Cmp(OSlt, t.ns, r))) {
		return TimeV{r, t.hi - 1}
	}
	return TimeV{r, t.hi}
}

// timeSub is the difference; it saturates.
func (m *Machine) timeSub(x, y TimeV) *Term {
	lo, hi := m.tc.Const(64, 1<<63), m.tc.Const(64, 1<<63-1)
	r := m.tc.Bin(OSub, x.ns, y.ns)
	z := m.tc.Const(64, 0)
	neg := func(t *Term) *Term { return m.tc.Cmp(OSlt, t, z) }
	not := m.tc.Not
	switch d := x.hi - y.hi; {
	case d > 1:
		return hi
	case d < -1:
		return lo
	case d == 1:
		return m.tc.Ite(m.tc.And(m.tc.And(neg(x.ns), not(neg(y.ns))), not(neg(r))), r, hi)
	case d == -1:
		return m.tc.Ite(m.tc.And(m.tc.And(not(neg(x.ns)), neg(y.ns)), neg(r)), r, lo)
	}
	if m.tc.exactSum(OSub, x.ns, y.ns) {
		return r
	}
	up := m.tc.And(m.tc.And(not(neg(x.ns)), neg(y.ns)), neg(r))
	down := m.tc.And(m.tc.And(neg(x.ns), not(neg(y.ns))), not(neg(r)))
	return m.tc.Ite(up, hi, m.tc.Ite(down, lo, r))
}

// timeDiv is the whole number of d nanoseconds since 1970.
func (m *Machine) timeDiv(t TimeV, d uint64) *Term {
	if t.ns.IsConst() {
		return m.tc.Const(64, uint64(new(big.Int).Div(timeBig(t), new(big.Int).SetUint64(d)).Int64()))
	}
	if t.hi != 0 {
		m.unsupported("division of an instant beyond 64-bit nanoseconds")
	}
	return m.floorDiv(t.ns, d)
}

func (m *Machine) wg(p *Value) *wgState {
	w := m.wgs[p]
	if w == nil {
		w = &wgState{}
		m.wgs[p] = w
	}
	return w
}

func (m *Machine) inputName(name string) string {
	k := m.nameSeq["in:"+name]
	m.nameSeq["in:"+name] = k + 1
	if k == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, k)
}

func (m *Machine) input(name, kind string, v Value) Value {
	m.tape = append(m.tape, tapeEntry{m.inputName(name), kind, v})
	return v
}

func (m *Machine) symStr(name string, lo, hi int, from, to uint64) Str {
	n := lo
	nm := m.inputName(name)
	if hi > lo {
		v := m.newVar(name+"_len", BV(8))
		n = lo + m.chooseVar(v, hi-lo+1)
	}
	bs := make([]*Term, n)
	for i := range bs {
		bs[i] = m.rangedVar(name, 8, from, to)
	}
	s := Str{b: bs}
	if n == 0 {
		s = Str{}
	}
	m.tape = append(m.tape, tapeEntry{nm, "str", s})
	return s
}

func regexpOf(v Value) *Regex {
	n, ok := v.(*Native)
	if !ok {
		return nil
	}
	return n.x.(*Regex)
}

func (m *Machine) floorDiv(a *Term, d uint64) *Term {
	dd := m.tc.Const(64, d)
	q := m.tc.Bin(OSDiv, a, dd)
	r := m.tc.Bin(OSRem, a, dd)
	neg := m.tc.Cmp(OSlt, r, m.tc.Const(64, 0))
	return m.tc.Ite(neg, m.tc.Bin(OSub, q, m.tc.Const(64, 1)), q)
}

func init() {
	type A = []Value
	I := map[string]intrinsic{}
	intrinsics = I
	reg := func(f intrinsic, names ...string) {
		for _, n := range names {
			I[n] = f
		}
	}

	// --- bytealg and strings
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.i64(m.indexByte(a[0].(Str), a[1].(*Term)))
	}, "internal/bytealg.IndexByteString", "strings.IndexByte", "internal/stringslite.IndexByte")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.i64(m.indexByte(sliceStr(m, a[0]), a[1].(*Term)))
	}, "internal/bytealg.IndexByte", "bytes.IndexByte")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.i64(m.indexStr(a[0].(Str), a[1].(Str)))
	}, "internal/bytealg.IndexString", "strings.Index", "internal/stringslite.Index")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.i64(m.indexStr(sliceStr(m, a[0]), sliceStr(m, a[1])))
	}, "internal/bytealg.Index", "bytes.Index")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.i64(m.countByte(a[0].(Str), a[1].(*Term)))
	}, "internal/bytealg.CountString")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.i64(m.countByte(sliceStr(m, a[0]), a[1].(*Term)))
	}, "internal/bytealg.Count")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.strEq(sliceStr(m, a[0]), sliceStr(m, a[1]))
	}, "internal/bytealg.Equal", "bytes.Equal")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.compareStr(sliceStr(m, a[0]), sliceStr(m, a[1]))
	}, "internal/bytealg.Compare", "bytes.Compare")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.compareStr(a[0].(Str), a[1].(Str))
	}, "internal/bytealg.CompareString", "strings.Compare", "cmp.Compare[string]")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		n := m.concInt(a[0].(*Term))
		s := make([]Value, n)
		for i := range s {
			s[i] = m.tc.Const(8, 0)
		}
		return Slice{s}
	}, "internal/bytealg.MakeNoZero")
	reg(noop(nil), "(*strings.Builder).copyCheck")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { return a[0] },
		"strings.Clone", "internal/stringslite.Clone", "internal/abi.NoEscape", "internal/abi.Escape")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		s := (*(a[0].(*Value))).(Struct)
		// struct { addr *Builder; buf []byte }
		return sliceStr(m, s[1])
	}, "(*strings.Builder).String")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		el := a[0].(Slice).a
		sep := a[1].(Str)
		r := Str{}
		for i := range el {
			if m.race != nil {
				m.onRead(th, &el[i], fn)
			}
			if i > 0 {
				r = m.concat(r, sep)
			}
			r = m.concat(r, el[i].(Str))
		}
		return r
	}, "strings.Join")

	// --- strconv
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { return m.formatInt(a[0].(*Term), true) }, "strconv.Itoa")
	fi := func(signed bool) intrinsic {
		return func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
			b := m.concInt(a[1].(*Term))
			t := a[0].(*Term)
			if b != 10 {
				if !t.IsConst() {
					m.unsupported("FormatInt base %d of symbolic value", b)
				}
				if signed {
					return Str{s: strconv.FormatInt(int64(t.val), b)}
				}
				return Str{s: strconv.FormatUint(t.val, b)}
			}
			return m.formatInt(t, signed)
		}
	}
	reg(fi(true), "strconv.FormatInt")
	reg(fi(false), "strconv.FormatUint")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		t := a[0].(*Term)
		if !t.IsConst() {
			m.unsupported("formatting a symbolic float")
		}
		return Str{s: strconv.FormatFloat(t.Float(), byte(a[1].(*Term).val), int(int64(a[2].(*Term).val)), int(a[3].(*Term).val))}
	}, "strconv.FormatFloat")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		if !a[0].(Str).conc() {
			return m.callBody(th, nil, fn, m.eng.info(fn), a, nil)
		}
		return Str{s: strconv.Quote(m.cs(a[0]))}
	}, "strconv.Quote")
	var is func(m *Machine, th *Thread, e, target Iface) bool
	is = func(m *Machine, th *Thread, e, target Iface) bool {
		for e.t != nil {
			if types.Comparable(target.t) && m.branch(m.equal(types.Universe.Lookup("error").Type(), e, target)) {
				return true
			}
			if f := m.eng.methodByName(e.t, "Is"); f != nil && m.branch(m.callSSA(th, nil, f, []Value{e.v, target}, nil).(*Term)) {
				return true
			}
			f := m.eng.methodByName(e.t, "Unwrap")
			if f == nil {
				return false
			}
			switch x := m.callSSA(th, nil, f, []Value{e.v}, nil).(type) {
			case Iface:
				e = x
			case Slice:
				for _, y := range x.a {
					if is(m, th, y.(Iface), target) {
						return true
					}
				}
				return false
			}
		}
		return false
	}
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		e, target := a[0].(Iface), a[1].(Iface)
		if e.t == nil || target.t == nil {
			return m.b(e.t == nil && target.t == nil)
		}
		return m.b(is(m, th, e, target))
	}, "errors.Is")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		target := a[1].(Iface)
		pt, ok := target.t.(*types.Pointer)
		if !ok {
			m.unsupported("errors.As with target %v", target.t)
		}
		_, abstract := pt.Elem().Underlying().(*types.Interface)
		for e := a[0].(Iface); e.t != nil; {
			if types.AssignableTo(e.t, pt.Elem()) {
				*target.v.(*Value) = e.v
				if abstract {
					*target.v.(*Value) = e
				}
				return m.tc.T
			}
			if m.eng.methodByName(e.t, "As") != nil {
				m.unsupported("errors.As with a method As")
			}
			f := m.eng.methodByName(e.t, "Unwrap")
			if f == nil {
				break
			}
			x, ok := m.callSSA(th, nil, f, []Value{e.v}, nil).(Iface)
			if !ok {
				m.unsupported("errors.As of joined errors")
			}
			e = x
		}
		return m.tc.F
	}, "errors.As")

	// --- math
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { return m.tc.FFromBits(a[0].(*Term)) },
		"math.Float64frombits", "math.Float32frombits")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		t := a[0].(*Term)
		if t.IsConst() {
			return m.tc.Const(t.sort.W, t.val)
		}
		if t.op == OFFromBits {
			return t.a[0]
		}
		m.unsupported("Float64bits of a computed symbolic float")
		return nil
	}, "math.Float64bits", "math.Float32bits")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		t := a[0].(*Term)
		return m.tc.Not(m.tc.FCmp(OFEq, t, t))
	}, "math.IsNaN")
	mathc := func(f func(float64) float64) intrinsic {
		return func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
			t := a[0].(*Term)
			if !t.IsConst() {
				m.unsupported("%s of symbolic float", fn)
			}
			return m.tc.FConst(64, f(t.Float()))
		}
	}
	reg(mathc(math.Floor), "math.Floor")
	reg(mathc(math.Ceil), "math.Ceil")
	reg(mathc(math.Trunc), "math.Trunc")
	reg(mathc(math.Round), "math.Round")
	reg(mathc(math.Abs), "math.Abs")

	// --- sync
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		m.mutexLock(th, a[0].(*Value), false)
		return nil
	}, "(*sync.Mutex).Lock")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		m.mutexUnlock(th, a[0].(*Value), false)
		return nil
	}, "(*sync.Mutex).Unlock")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.b(m.mutexTryLock(th, a[0].(*Value), false))
	}, "(*sync.Mutex).TryLock")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		m.mutexLock(th, a[0].(*Value), true)
		return nil
	}, "(*sync.RWMutex).Lock")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		m.mutexUnlock(th, a[0].(*Value), true)
		return nil
	}, "(*sync.RWMutex).Unlock")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.b(m.mutexTryLock(th, a[0].(*Value), true))
	}, "(*sync.RWMutex).TryLock")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { m.rlock(th, a[0].(*Value)); return nil }, "(*sync.RWMutex).RLock")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.b(m.tryRLock(th, a[0].(*Value)))
	}, "(*sync.RWMutex).TryRLock")
	// sync.Cond: waiters in their order
	locker := func(m *Machine, th *Thread, p *Value, name string) {
		st := m.stdType("sync", "Cond").Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "L" {
				l := (*p).(Struct)[i].(Iface)
				m.callSSA(th, nil, m.eng.methodByName(l.t, name), []Value{l.v}, nil)
			}
		}
	}
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		p := a[0].(*Value)
		w := &condWait{}
		m.conds[p] = append(m.conds[p], w)
		locker(m, th, p, "Unlock")
		m.block(th, "Cond", func() bool { return !w.woken })
		th.vc = joinVC(th.vc, w.vc)
		locker(m, th, p, "Lock")
		return nil
	}, "(*sync.Cond).Wait")
	wake := func(all bool) intrinsic {
		return func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
			p := a[0].(*Value)
			for len(m.conds[p]) > 0 {
				w := m.conds[p][0]
				m.conds[p] = m.conds[p][1:]
				w.woken, w.vc = true, copyVC(th.vc)
				if !all {
					break
				}
			}
			th.tick()
			return nil
		}
	}
	reg(wake(false), "(*sync.Cond).Signal")
	reg(wake(true), "(*sync.Cond).Broadcast")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { m.runlock(th, a[0].(*Value)); return nil }, "(*sync.RWMutex).RUnlock")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		p := a[0].(*Value)
		l := m.lock(p, false)
		m.yield(th)
		m.block(th, "Once", func() bool { return m.onces[p] == 1 })
		th.vc = joinVC(th.vc, l.vcW)
		if m.onces[p] == 0 {
			m.onces[p] = 1
			m.call(th, nil, a[1], nil)
			m.onces[p] = 2
			l.vcW = copyVC(th.vc)
			th.tick()
		}
		return nil
	}, "(*sync.Once).Do")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		w := m.wg(a[0].(*Value))
		w.n += m.concInt(a[1].(*Term))
		w.vc = joinVC(copyVC(w.vc), th.vc)
		th.tick()
		if w.n < 0 {
			panic(targetPanic{Iface{t: types.Typ[types.String], v: Str{s: "sync: negative WaitGroup counter"}}})
		}
		return nil
	}, "(*sync.WaitGroup).Add")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		w := m.wg(a[0].(*Value))
		w.n--
		w.vc = joinVC(copyVC(w.vc), th.vc)
		th.tick()
		return nil
	}, "(*sync.WaitGroup).Done")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		w := m.wg(a[0].(*Value))
		m.yield(th)
		m.block(th, "WaitGroup", func() bool { return w.n > 0 })
		th.vc = joinVC(th.vc, w.vc)
		return nil
	}, "(*sync.WaitGroup).Wait")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		p := a[0].(*Value)
		if free := m.pools[p]; len(free) > 0 {
			x := free[len(free)-1]
			m.pools[p] = free[:len(free)-1]
			th.vc = joinVC(th.vc, x.vc)
			return x.v
		}
		s := (*p).(Struct)
		for _, f := range s {
			if c, ok := f.(*Closure); ok && c != nil {
				return m.call(th, nil, c, nil)
			}
		}
		return Iface{}
	}, "(*sync.Pool).Get")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		if p := a[0].(*Value); a[1].(Iface).t != nil {
			m.pools[p] = append(m.pools[p], pooled{a[1], copyVC(th.vc)})
			th.tick()
		}
		return nil
	}, "(*sync.Pool).Put")
	regAtomics(reg)
	regSyncMap(reg)

	// --- runtime and friends
	reg(noop(nil), "runtime.Gosched", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable",
		"internal/race.ReadRange", "internal/race.WriteRange")
	for _, n := range []string{"log.Println", "log.Printf", "log.Print", "(*log.Logger).Println", "(*log.Logger).Printf", "(*log.Logger).Print", "log.Output"} {
		reg(noop(nil), n)
	}
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		src := a[0].(*MapV)
		if src == nil {
			return (*MapV)(nil)
		}
		if m.race != nil {
			m.onRead(th, src, fn)
		}
		d := newMap()
		for _, e := range src.live() {
			ne := &mapEntry{k: e.k, v: copyVal(e.v), live: true}
			d.ents = append(d.ents, ne)
			d.n++
			if ck, ok := concKey(e.k); ok {
				d.index[ck] = len(d.ents) - 1
			} else {
				d.sym++
			}
		}
		return d
	}, "maps.Clone")

	// --- time
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { return TimeV{ns: m.now()} }, "time.Now")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.timeSub(TimeV{ns: m.now()}, a[0].(TimeV))
	}, "time.Since")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.timeSub(a[0].(TimeV), TimeV{ns: m.now()})
	}, "time.Until")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		if m.clock == nil {
			m.initClock()
		}
		if !m.freeRun {
			t := m.timeAdd(TimeV{ns: m.clock}, a[0].(*Term))
			if t.hi != 0 {
				m.unsupported("clock beyond 64-bit nanoseconds")
			}
			m.clock = t.ns
		}
		m.yield(th)
		return nil
	}, "time.Sleep")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.timeAdd(a[0].(TimeV), a[1].(*Term))
	}, "(time.Time).Add")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.timeSub(a[0].(TimeV), a[1].(TimeV))
	}, "(time.Time).Sub")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.timeLess(a[0].(TimeV), a[1].(TimeV))
	}, "(time.Time).Before")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.timeLess(a[1].(TimeV), a[0].(TimeV))
	}, "(time.Time).After")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.timeEq(a[0].(TimeV), a[1].(TimeV))
	}, "(time.Time).Equal")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		lt := m.timeLess(a[0].(TimeV), a[1].(TimeV))
		eq := m.timeEq(a[0].(TimeV), a[1].(TimeV))
		return m.tc.Ite(lt, m.i64(-1), m.tc.Ite(eq, m.i64(0), m.i64(1)))
	}, "(time.Time).Compare")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.timeEq(a[0].(TimeV), m.zeroTime())
	}, "(time.Time).IsZero")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { return m.timeDiv(a[0].(TimeV), 1000000000) }, "(time.Time).Unix")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { return m.timeDiv(a[0].(TimeV), 1000000) }, "(time.Time).UnixMilli")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { return a[0].(TimeV).ns }, "(time.Time).UnixNano")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { return a[0] }, "(time.Time).UTC", "(time.Time).Local", "(time.Time).Round0")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		if t := a[1].(*Term); t.IsConst() && t.val == 0 {
			return a[0]
		}
		d := int64(m.concInt(a[1].(*Term)))
		if d <= 0 {
			return a[0]
		}
		// relative to the zero time, a multiple of d before 1970
		if q := int64(62135596800); d >= 1000000000 && (d%1000000000 != 0 || q%(d/1000000000) != 0) || d < 1000000000 && 1000000000%d != 0 {
			m.unsupported("time rounding to %d ns", d)
		}
		t := a[0].(TimeV)
		if t == m.zeroTime() {
			return t
		}
		if fn.Name() == "Round" {
			t = m.timeAdd(t, m.tc.Const(64, uint64(d/2)))
		}
		return TimeV{ns: m.tc.Bin(OMul, m.timeDiv(t, uint64(d)), m.tc.Const(64, uint64(d)))}
	}, "(time.Time).Round", "(time.Time).Truncate")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		if x, y := a[0].(*Term), a[1].(*Term); x.IsConst() && y.IsConst() {
			n := new(big.Int).Mul(big.NewInt(int64(x.val)), big.NewInt(1000000000))
			n.Add(n, big.NewInt(int64(y.val)))
			ns := new(big.Int).And(n, new(big.Int).SetUint64(math.MaxUint64)).Uint64()
			n.Sub(n, big.NewInt(int64(ns)))
			return TimeV{m.tc.Const(64, ns), int(n.Rsh(n, 64).Int64())}
		}
		m.assumption("time.Unix is within the years 1678..2262")
		s := m.tc.Bin(OMul, a[0].(*Term), m.tc.Const(64, 1000000000))
		return TimeV{ns: m.tc.Bin(OAdd, s, a[1].(*Term))}
	}, "time.Unix")

	// --- fmt
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { return m.sprint(th, a[0].(Slice).a) }, "fmt.Sprint")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { return m.sprintln(th, a[0].(Slice).a) }, "fmt.Sprintln")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.sprintf(th, m.cs(a[0]), a[1].(Slice).a)
	}, "fmt.Sprintf")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		f, args := m.cs(a[0]), a[1].(Slice).a
		text := m.sprintf(th, strings.ReplaceAll(f, "%w", "%v"), args)
		if i := strings.Index(f, "%w"); i >= 0 && strings.Count(f, "%w") == 1 {
			// the operand of the only %w is wrapped
			if k := strings.Count(strings.ReplaceAll(f[:i], "%%", ""), "%"); k < len(args) {
				if e, ok := args[k].(Iface); ok && e.t != nil && m.eng.methodByName(e.t, "Error") != nil {
					p := new(Value)
					*p = Struct{text, e}
					return Iface{types.NewPointer(m.stdType("fmt", "wrapError")), p}
				}
			}
		}
		return m.newError(th, text)
	}, "fmt.Errorf")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return Tuple{m.i64(0), Iface{}}
	}, "fmt.Println", "fmt.Printf", "fmt.Print")
	fpr := func(get func(m *Machine, th *Thread, a A) Str) intrinsic {
		return func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
			w := a[0].(Iface)
			s := get(m, th, a)
			f := m.eng.methodByName(w.t, "Write")
			if f == nil {
				m.unsupported("Fprint to %s", w.t)
			}
			return m.callSSA(th, nil, f, []Value{w.v, m.strSlice(s)}, nil)
		}
	}
	reg(fpr(func(m *Machine, th *Thread, a A) Str { return m.sprintf(th, m.cs(a[1]), a[2].(Slice).a) }), "fmt.Fprintf")
	reg(fpr(func(m *Machine, th *Thread, a A) Str { return m.sprint(th, a[1].(Slice).a) }), "fmt.Fprint")
	reg(fpr(func(m *Machine, th *Thread, a A) Str { return m.sprintln(th, a[1].(Slice).a) }), "fmt.Fprintln")

	regRegexp(reg)
	regOS(reg)
	regXML(reg)
	regVrt(reg)
	regReflect(reg)
}

func regAtomics(reg func(intrinsic, ...string)) {
	type A = []Value
	// typed atomics: the value lives in the first non-struct field
	slot := func(m *Machine, p Value) *Value {
		a := p.(*Value)
		if a == nil {
			m.nilDeref()
		}
		for {
			s, ok := (*a).(Struct)
			if !ok {
				return a
			}
			f := &s[len(s)-1]
			a = f
		}
	}
	sync := func(m *Machine, th *Thread, p *Value) {
		l := m.lock(p, false)
		m.yield(th)
		th.vc = joinVC(th.vc, l.vcW)
		l.vcW = joinVC(copyVC(l.vcW), th.vc)
		th.tick()
	}
	ld := func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		p := slot(m, a[0])
		sync(m, th, p)
		return *p
	}
	st := func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		p := slot(m, a[0])
		sync(m, th, p)
		*p = a[1]
		return nil
	}
	sw := func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		p := slot(m, a[0])
		sync(m, th, p)
		o := *p
		*p = a[1]
		return o
	}
	ad := func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		p := slot(m, a[0])
		sync(m, th, p)
		*p = m.tc.Bin(OAdd, (*p).(*Term), a[1].(*Term))
		return *p
	}
	cas := func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		p := slot(m, a[0])
		sync(m, th, p)
		var eq *Term
		if t, ok := (*p).(*Term); ok {
			eq = m.tc.Eq(t, a[1].(*Term))
		} else {
			eq = m.equal(nil, *p, a[1])
		}
		if m.branch(eq) {
			*p = a[2]
			return m.tc.T
		}
		return m.tc.F
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		n := ty
		reg(ld, "(*sync/atomic."+n+").Load", "sync/atomic.Load"+n)
		reg(st, "(*sync/atomic."+n+").Store", "sync/atomic.Store"+n)
		reg(sw, "(*sync/atomic."+n+").Swap", "sync/atomic.Swap"+n)
		reg(ad, "(*sync/atomic."+n+").Add", "sync/atomic.Add"+n)
		reg(cas, "(*sync/atomic."+n+").CompareAndSwap", "sync/atomic.CompareAndSwap"+n)
	}
	reg(ld, "(*sync/atomic.Pointer[T]).Load")
	reg(st, "(*sync/atomic.Pointer[T]).Store")
	reg(sw, "(*sync/atomic.Pointer[T]).Swap")
	reg(cas, "(*sync/atomic.Pointer[T]).CompareAndSwap")
	// atomic.Bool holds a uint32
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		p := slot(m, a[0])
		sync(m, th, p)
		return m.tc.Not(m.tc.Eq((*p).(*Term), m.tc.Const(32, 0)))
	}, "(*sync/atomic.Bool).Load")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		p := slot(m, a[0])
		sync(m, th, p)
		*p = m.tc.Ite(a[1].(*Term), m.tc.Const(32, 1), m.tc.Const(32, 0))
		return nil
	}, "(*sync/atomic.Bool).Store")
	// atomic.Value holds an interface
	reg(ld, "(*sync/atomic.Value).Load")
	reg(st, "(*sync/atomic.Value).Store")
}

func regSyncMap(reg func(intrinsic, ...string)) {
	type A = []Value
	anyT := types.NewInterfaceType(nil, nil)
	get := func(m *Machine, th *Thread, p Value) *MapV {
		a := p.(*Value)
		mp := m.syncMaps[a]
		if mp == nil {
			mp = newMap()
			m.syncMaps[a] = mp
		}
		l := m.lock(a, false)
		m.yield(th)
		th.vc = joinVC(th.vc, l.vcW)
		l.vcW = joinVC(copyVC(l.vcW), th.vc)
		th.tick()
		return mp
	}
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		e := m.mapFind(get(m, th, a[0]), a[1], anyT)
		if e == nil {
			return Tuple{Iface{}, m.tc.F}
		}
		return Tuple{e.v, m.tc.T}
	}, "(*sync.Map).Load")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		m.mapSet(get(m, th, a[0]), a[1], a[2], anyT)
		return nil
	}, "(*sync.Map).Store")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		mp := get(m, th, a[0])
		if e := m.mapFind(mp, a[1], anyT); e != nil {
			return Tuple{e.v, m.tc.T}
		}
		m.mapSet(mp, a[1], a[2], anyT)
		return Tuple{a[2], m.tc.F}
	}, "(*sync.Map).LoadOrStore")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		mp := get(m, th, a[0])
		e := m.mapFind(mp, a[1], anyT)
		if e == nil {
			return Tuple{Iface{}, m.tc.F}
		}
		m.mapDel(mp, a[1], anyT)
		return Tuple{e.v, m.tc.T}
	}, "(*sync.Map).LoadAndDelete")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		mp := get(m, th, a[0])
		old := Tuple{Iface{}, m.tc.F}
		if e := m.mapFind(mp, a[1], anyT); e != nil {
			old = Tuple{e.v, m.tc.T}
		}
		m.mapSet(mp, a[1], a[2], anyT)
		return old
	}, "(*sync.Map).Swap")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		mp := get(m, th, a[0])
		e := m.mapFind(mp, a[1], anyT)
		if e == nil || !m.branch(m.equal(anyT, e.v, a[2])) {
			return m.tc.F
		}
		m.mapSet(mp, a[1], a[3], anyT)
		return m.tc.T
	}, "(*sync.Map).CompareAndSwap")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		mp := get(m, th, a[0])
		e := m.mapFind(mp, a[1], anyT)
		if e == nil || !m.branch(m.equal(anyT, e.v, a[2])) {
			return m.tc.F
		}
		m.mapDel(mp, a[1], anyT)
		return m.tc.T
	}, "(*sync.Map).CompareAndDelete")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		mp := get(m, th, a[0])
		for _, e := range mp.live() {
			m.mapDel(mp, e.k, anyT)
		}
		return nil
	}, "(*sync.Map).Clear")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		m.mapDel(get(m, th, a[0]), a[1], anyT)
		return nil
	}, "(*sync.Map).Delete")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		for _, e := range get(m, th, a[0]).live() {
			if !e.live {
				continue
			}
			if !m.branch(m.call(th, nil, a[1], []Value{e.k, e.v}).(*Term)) {
				break
			}
		}
		return nil
	}, "(*sync.Map).Range")

	// --- sort.Slice: the real algorithm with a swap of the engine
	sortSlice := func(alg string) intrinsic {
		return func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
			x, ok := a[0].(Iface)
			if !ok || x.t == nil {
				m.unsupported("%s of %T", fn.Name(), a[0])
			}
			sl, ok := x.v.(Slice)
			if !ok {
				m.unsupported("%s of %T", fn.Name(), x.v)
			}
			swap := &Closure{nat: func(m *Machine, th *Thread, b []Value) Value {
				i, j := m.concInt(b[0].(*Term)), m.concInt(b[1].(*Term))
				if m.race != nil {
					m.onWrite(th, &sl.a[i], fn)
					m.onWrite(th, &sl.a[j], fn)
				}
				sl.a[i], sl.a[j] = sl.a[j], sl.a[i]
				return nil
			}}
			n := len(sl.a)
			args := []Value{Struct{a[1], swap}, m.i64(0), m.i64(n), m.i64(bits.Len(uint(n)))}
			if alg == "stable_func" {
				args = []Value{Struct{a[1], swap}, m.i64(n)}
			}
			m.call(th, nil, &Closure{fn: fn.Pkg.Func(alg)}, args)
			return nil
		}
	}
	reg(sortSlice("pdqsort_func"), "sort.Slice")
	reg(sortSlice("stable_func"), "sort.SliceStable")
}
