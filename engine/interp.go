package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	idx  map[ssa.Value]int
	n    int
	nat  intrinsic
	repo bool
	std  bool // of a package whose synchronisation is not scheduled
}

var fnCache sync.Map // *ssa.Function -> *fnInfo

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if x, ok := fnCache.Load(fn); ok {
		return x.(*fnInfo)
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	fi.nat = lookupIntrinsic(name)
	fi.repo = e.isRepoFn(fn)
	fi.std = !fi.repo && !e.isHarnessFn(fn) && fn.Synthetic == ""
	x, _ := fnCache.LoadOrStore(fn, fi)
	return x.(*fnInfo)
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
	next *deferred
}

type frame struct {
	m         *Machine
	th        *Thread
	caller    *frame
	fn        *ssa.Function
	fi        *fnInfo
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	env       []Value
	locals    []Value
	defers    *deferred
	result    Value
	panicking bool
	panicVal  targetPanic
}

func (fr *frame) get(v ssa.Value) Value {
	switch k := v.(type) {
	case *ssa.Const:
		return fr.m.constant(k)
	case *ssa.Global:
		return fr.m.global(k)
	case *ssa.Function:
		return &Closure{fn: k}
	case *ssa.Builtin:
		return k
	case nil:
		return nil
	}
	return fr.env[fr.fi.idx[v]]
}

func (fr *frame) set(v ssa.Value, x Value) { fr.env[fr.fi.idx[v]] = x }

func (m *Machine) global(g *ssa.Global) *Value {
	if m.eng.isRepoPkg(g.Pkg) {
		if p, ok := m.globals[g]; ok {
			return p
		}
		p := new(Value)
		*p = m.zero(g.Type().(*types.Pointer).Elem())
		m.globals[g] = p
		return p
	}
	m.ensureStdInit(g.Pkg)
	if p, ok := m.stdGlobals[g]; ok {
		return p
	}
	p := new(Value)
	*p = m.zero(g.Type().(*types.Pointer).Elem())
	m.stdGlobals[g] = p
	if g.Pkg.Pkg.Path() == "os" && osErrors[g.Name()] {
		*p = *m.stdGlobal("io/fs", g.Name())
	}
	return p
}

// errors that package os takes from io/fs
var osErrors = map[string]bool{"ErrInvalid": true, "ErrPermission": true, "ErrExist": true, "ErrNotExist": true, "ErrClosed": true}


// packages whose initialisers are not executed (environment access)
var noInit = map[string]bool{
	"os": true, "syscall": true, "runtime": true, "reflect": true, "time": true, "internal/poll": true,
	"internal/godebug": true, "internal/cpu": true, "log": true, "internal/bisect": true, "net": true,
	"internal/reflectlite": true, "io/fs": false, "fmt": true, "regexp": true,
	"internal/oserror": false, "internal/testlog": true, "internal/syscall/unix": true, "path/filepath": true,
	"sync": true, "internal/sync": true, "unique": true, "weak": true,
}

func (m *Machine) ensureStdInit(p *ssa.Package) {
	if p == nil || m.stdInit[p] != 0 {
		return
	}
	m.stdInit[p] = 1
	if noInit[p.Pkg.Path()] {
		return
	}
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	m.inStdInit++
	saveSteps := m.steps
	saveRace := m.race
	m.race = nil
	th := m.cur
	func() {
		defer func() {
			m.inStdInit--
			m.steps = saveSteps
			m.race = saveRace
		}()
		m.call(th, nil, &Closure{fn: fn}, nil)
	}()
	m.stdInit[p] = 2
}

func (m *Machine) call(th *Thread, caller *frame, f Value, args []Value) Value {
	switch c := f.(type) {
	case *Closure:
		if c == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		if c.nat != nil {
			return c.nat(m, th, args)
		}
		return m.callSSA(th, caller, c.fn, args, c.env)
	}
	m.unsupported("call of %T", f)
	return nil
}

func (m *Machine) callSSA(th *Thread, caller *frame, fn *ssa.Function, args, env []Value) Value {
	fi := m.eng.info(fn)
	if fi.nat != nil {
		return fi.nat(m, th, fn, args)
	}
	return m.callBody(th, caller, fn, fi, args, env)
}

// callBody interprets the source of a function, even if there is a model.
func (m *Machine) callBody(th *Thread, caller *frame, fn *ssa.Function, fi *fnInfo, args, env []Value) Value {
	if fn.Synthetic != "" && fn.Name() == "init" && fn.Pkg != nil && !m.eng.isRepoPkg(fn.Pkg) && caller != nil {
		return nil // initialised lazily
	}
	if fn.Blocks == nil {
		m.unsupported("function without body: %s", fn)
	}
	if fi.repo {
		m.funcs[fn] = true
	}
	if th.depth++; th.depth > 1500 {
		panic(abort{abBound, "call depth"})
	}
	fr := &frame{m: m, th: th, caller: caller, fn: fn, fi: fi, env: make([]Value, fi.n)}
	copy(fr.env, args)
	copy(fr.env[len(fn.Params):], env)
	fr.block = fn.Blocks[0]
	std := th.std
	for fr.block != nil {
		th.std = fi.std || fr.wrapper() && std
		m.runFrame(fr)
	}
	th.std = std
	th.depth--
	return fr.result
}

// wrapper: made by the compiler, on behalf of its caller
func (fr *frame) wrapper() bool { return fr.fn.Synthetic != "" }

func (m *Machine) runFrame(fr *frame) {
	depth := fr.th.depth
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(targetPanic)
		if !ok {
			if _, isAb := r.(abort); !isAb {
				if er, isErr := r.(error); isErr && m.eng.debug {
					fmt.Println("engine error in", fr.fn, er)
					panic(r)
				}
				panic(abort{abUnsupported, fmt.Sprintf("engine: %v in %s", r, fr.fn)})
			}
			panic(r)
		}
		fr.th.depth = depth
		fr.th.std = fr.fi.std
		fr.panicking = true
		fr.panicVal = tp
		fr.runDefers()
		// recovered
		if fr.fn.Recover != nil {
			fr.block = fr.fn.Recover
			fr.prev = nil
		} else {
			fr.block = nil
			fr.result = m.zeroResult(fr.fn)
		}
	}()
	for {
		instrs := fr.block.Instrs
	block:
		for i := 0; i < len(instrs); i++ {
			m.steps++
			if m.steps > m.maxSteps {
				panic(abort{abBound, "step bound"})
			}
			if m.steps&0xffff == 0 && time.Now().After(m.deadline) {
				panic(abort{abBound, "time budget"})
			}
			switch m.step(fr, instrs[i]) {
			case kReturn:
				return
			case kJump:
				break block
			}
		}
	}
}

func (m *Machine) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(r.At(0).Type())
	}
	return m.zero(r)
}

func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.next
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	depth := fr.th.depth
	defer func() {
		if ok {
			return
		}
		r := recover()
		tp, isT := r.(targetPanic)
		if !isT {
			panic(r)
		}
		fr.th.depth = depth
		fr.th.std = fr.fi.std
		fr.panicking = true
		fr.panicVal = tp
	}()
	if b, isB := d.fn.(*ssa.Builtin); isB {
		fr.m.builtin(fr, b, d.args, d.call)
	} else {
		fr.m.call(fr.th, fr, d.fn, d.args)
	}
	ok = true
}

type cont int

const (
	kNext cont = iota
	kReturn
	kJump
)

func (m *Machine) nilDeref() {
	m.rtPanic("invalid memory address or nil pointer dereference")
}

func (m *Machine) load(fr *frame, p Value, t types.Type) Value {
	switch a := p.(type) {
	case *Value:
		if a == nil {
			m.nilDeref()
		}
		if m.race != nil {
			m.readLeaves(fr.th, a, fr.fn)
		}
		return copyVal(*a)
	case *SymPtr:
		if m.race != nil {
			for i := range a.elems {
				m.onRead(fr.th, &a.elems[i], fr.fn)
			}
		}
		return m.selectSym(a)
	}
	m.unsupported("load through %T in %s", p, fr.fn)
	return nil
}

func (m *Machine) selectSym(a *SymPtr) Value {
	n := len(a.elems)
	if _, ok := a.elems[0].(*Term); ok {
		// group equal values: start from the most frequent
		cnt := map[*Term]int{}
		var best *Term
		for _, v := range a.elems {
			t := v.(*Term)
			cnt[t]++
			if best == nil || cnt[t] > cnt[best] {
				best = t
			}
		}
		r := best
		w := a.idx.sort.W
		// ranges of equal values as interval tests
		i := n - 1
		for i >= 0 {
			t := a.elems[i].(*Term)
			j := i
			for j > 0 && a.elems[j-1] == a.elems[i] {
				j--
			}
			if t != best {
				var c *Term
				if i == j {
					c = m.tc.Eq(a.idx, m.tc.Const(w, uint64(i)))
				} else {
					c = m.tc.And(m.tc.Cmp(OUle, m.tc.Const(w, uint64(j)), a.idx), m.tc.Cmp(OUle, a.idx, m.tc.Const(w, uint64(i))))
				}
				r = m.tc.Ite(c, t, r)
			}
			i = j - 1
		}
		return r
	}
	k := m.concretize(a.idx, 300)
	return copyVal(a.elems[k])
}

func (m *Machine) store(fr *frame, p Value, v Value) {
	switch a := p.(type) {
	case *Value:
		if a == nil {
			m.nilDeref()
		}
		if m.race != nil {
			m.writeLeaves(fr.th, a, fr.fn)
		}
		storeInto(a, v)
		return
	case *SymPtr:
		k := m.concretize(a.idx, 300)
		if m.race != nil {
			m.onWrite(fr.th, &a.elems[k], fr.fn)
		}
		storeInto(&a.elems[k], v)
		return
	}
	m.unsupported("store through %T in %s", p, fr.fn)
}

// storeInto keeps the identity of nested fields so that pointers to them stay valid.
func storeInto(a *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*a).(Struct); ok && len(d) == len(x) {
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*a = copyVal(v)
	case Array:
		if d, ok := (*a).(Array); ok && len(d) == len(x) {
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*a = copyVal(v)
	default:
		*a = v
	}
}

func (m *Machine) step(fr *frame, instr ssa.Instruction) cont {
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(in, m.unop(fr, in))
	case *ssa.BinOp:
		fr.set(in, m.binop(in.Op, in.X.Type(), fr.get(in.X), fr.get(in.Y), in.Y.Type()))
	case *ssa.Call:
		fn, args := m.prepareCall(fr, &in.Call)
		if b, ok := fn.(*ssa.Builtin); ok {
			fr.set(in, m.builtin(fr, b, args, &in.Call))
		} else {
			fr.set(in, m.call(fr.th, fr, fn, args))
		}
	case *ssa.ChangeInterface:
		fr.set(in, fr.get(in.X))
	case *ssa.ChangeType:
		fr.set(in, fr.get(in.X))
	case *ssa.Convert:
		fr.set(in, m.convert(fr, in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.MultiConvert:
		fr.set(in, m.convert(fr, in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.SliceToArrayPointer:
		s := fr.get(in.X).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s.a) < n {
			m.rtPanic("cannot convert slice with length to array")
		}
		p := new(Value)
		*p = Array(s.a[:n:n])
		fr.set(in, p)
	case *ssa.MakeInterface:
		fr.set(in, Iface{t: in.X.Type(), v: copyVal(fr.get(in.X))})
	case *ssa.Extract:
		fr.set(in, fr.get(in.Tuple).(Tuple)[in.Index])
	case *ssa.Slice:
		fr.set(in, m.slice(fr, in))
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
		case 1:
			fr.result = fr.get(in.Results[0])
		default:
			r := make(Tuple, len(in.Results))
			for i, x := range in.Results {
				r[i] = fr.get(x)
			}
			fr.result = r
		}
		fr.block = nil
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		panic(targetPanic{fr.get(in.X)})
	case *ssa.Store:
		m.store(fr, fr.get(in.Addr), fr.get(in.Val))
	case *ssa.If:
		succ := 1
		if m.branch(fr.get(in.Cond).(*Term)) {
			succ = 0
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[succ]
		return kJump
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		return kJump
	case *ssa.Defer:
		if in.DeferStack != nil {
			m.unsupported("defer stack in %s", fr.fn)
		}
		fn, args := m.prepareCall(fr, &in.Call)
		fr.defers = &deferred{fn: fn, args: args, call: &in.Call, next: fr.defers}
	case *ssa.Go:
		fn, args := m.prepareCall(fr, &in.Call)
		m.spawn(fr.th, func(t *Thread) {
			if b, ok := fn.(*ssa.Builtin); ok {
				m.builtin(fr, b, args, &in.Call)
				return
			}
			m.call(t, nil, fn, args)
		})
	case *ssa.Alloc:
		p := new(Value)
		*p = m.zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.set(in, p)
	case *ssa.MakeSlice:
		n := m.concInt(fr.get(in.Len).(*Term))
		c := m.concInt(fr.get(in.Cap).(*Term))
		if n < 0 || n > c || c > 1<<40 {
			m.rtPanic("makeslice: len out of range")
		}
		m.cells(c)
		et := in.Type().Underlying().(*types.Slice).Elem()
		a := make([]Value, c)
		m.fillZero(a, et)
		fr.set(in, Slice{a[:n:c]})
	case *ssa.MakeMap:
		fr.set(in, newMap())
	case *ssa.MakeChan:
		m.unsupported("channels")
	case *ssa.Range:
		fr.set(in, m.rangeIter(fr, fr.get(in.X), in.X.Type()))
	case *ssa.Next:
		fr.set(in, fr.get(in.Iter).(iterator).next(m, fr))
	case *ssa.FieldAddr:
		p, ok := fr.get(in.X).(*Value)
		if !ok {
			if sp, isS := fr.get(in.X).(*SymPtr); isS {
				k := m.concretize(sp.idx, 300)
				p = &sp.elems[k]
			} else {
				m.unsupported("field address of %T in %s", fr.get(in.X), fr.fn)
			}
		}
		if p == nil {
			m.nilDeref()
		}
		s, ok := (*p).(Struct)
		if !ok {
			m.unsupported("field of opaque %T in %s", *p, fr.fn)
		}
		fr.set(in, &s[in.Field])
	case *ssa.Field:
		s, ok := fr.get(in.X).(Struct)
		if !ok {
			m.unsupported("field of opaque %T in %s", fr.get(in.X), fr.fn)
		}
		fr.set(in, s[in.Field])
	case *ssa.IndexAddr:
		fr.set(in, m.indexAddr(fr, in))
	case *ssa.Index:
		fr.set(in, m.index(fr, in))
	case *ssa.Lookup:
		fr.set(in, m.lookupInstr(fr, in))
	case *ssa.MapUpdate:
		mp := fr.get(in.Map).(*MapV)
		if mp == nil {
			panic(targetPanic{Iface{t: m.eng.rtErrType, v: Str{s: "assignment to entry in nil map"}}})
		}
		if m.race != nil {
			m.onWrite(fr.th, mp, fr.fn)
		}
		m.checkHashable(fr.get(in.Key))
		m.mapSet(mp, fr.get(in.Key), copyVal(fr.get(in.Value)), in.Map.Type().Underlying().(*types.Map).Key())
	case *ssa.TypeAssert:
		fr.set(in, m.typeAssert(fr, in))
	case *ssa.MakeClosure:
		env := make([]Value, len(in.Bindings))
		for i, b := range in.Bindings {
			env[i] = fr.get(b)
		}
		fr.set(in, &Closure{fn: in.Fn.(*ssa.Function), env: env})
	case *ssa.Phi:
		// phis of a block are evaluated simultaneously, at the first one
		if fr.block.Instrs[0] == instr {
			m.phis(fr)
		}
	case *ssa.Select, *ssa.Send:
		m.unsupported("channels")
	default:
		m.unsupported("instruction %T", instr)
	}
	return kNext
}

func (m *Machine) phis(fr *frame) {
	k := -1
	for i, p := range fr.block.Preds {
		if p == fr.prev {
			k = i
			break
		}
	}
	var vals [16]Value
	tmp := vals[:0]
	n := 0
	for _, in := range fr.block.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		tmp = append(tmp, fr.get(p.Edges[k]))
		n++
	}
	for i := 0; i < n; i++ {
		fr.set(fr.block.Instrs[i].(*ssa.Phi), tmp[i])
	}
}

func (m *Machine) fillZero(a []Value, et types.Type) {
	if len(a) == 0 {
		return
	}
	z := m.zero(et)
	switch z.(type) {
	case Struct, Array:
		a[0] = z
		for i := 1; i < len(a); i++ {
			a[i] = copyVal(z)
		}
	default:
		for i := range a {
			a[i] = z
		}
	}
}

func (m *Machine) checkHashable(k Value) {
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		m.rtPanic("hash of unhashable type " + i.t.String())
	}
}

func (m *Machine) prepareCall(fr *frame, c *ssa.CallCommon) (Value, []Value) {
	var fn Value
	var args []Value
	v := fr.get(c.Value)
	if c.IsInvoke() {
		recv := v.(Iface)
		if recv.t == nil {
			m.nilDeref()
		}
		f := m.eng.method(recv.t, c.Method)
		if f == nil {
			m.unsupported("no method %s on %s", c.Method, recv.t)
		}
		fn = &Closure{fn: f}
		args = make([]Value, 0, len(c.Args)+1)
		args = append(args, copyVal(recv.v))
	} else {
		fn = v
		args = make([]Value, 0, len(c.Args))
	}
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return fn, args
}

func (m *Machine) unop(fr *frame, in *ssa.UnOp) Value {
	x := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		return m.load(fr, x, in.Type())
	case token.NOT:
		return m.tc.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if t.sort.K == KFP {
			return m.tc.FNeg(t)
		}
		return m.tc.Neg(t)
	case token.XOR:
		return m.tc.BNot(x.(*Term))
	}
	m.unsupported("unary %s", in.Op)
	return nil
}

func (m *Machine) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	switch op {
	case token.EQL:
		return m.eqMixed(t, x, y, yt)
	case token.NEQ:
		return m.tc.Not(m.eqMixed(t, x, y, yt))
	}
	if a, ok := x.(Str); ok {
		b := y.(Str)
		switch op {
		case token.ADD:
			return m.concat(a, b)
		case token.LSS:
			return m.strLt(a, b)
		case token.GTR:
			return m.strLt(b, a)
		case token.LEQ:
			return m.tc.Not(m.strLt(b, a))
		case token.GEQ:
			return m.tc.Not(m.strLt(a, b))
		}
	}
	a, ok := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok || !ok2 {
		m.unsupported("binary %s on %T", op, x)
	}
	if a.sort.K == KFP {
		switch op {
		case token.ADD:
			return m.tc.FBin(OFAdd, a, b)
		case token.SUB:
			return m.tc.FBin(OFSub, a, b)
		case token.MUL:
			return m.tc.FBin(OFMul, a, b)
		case token.QUO:
			return m.tc.FBin(OFDiv, a, b)
		case token.LSS:
			return m.tc.FCmp(OFLt, a, b)
		case token.LEQ:
			return m.tc.FCmp(OFLe, a, b)
		case token.GTR:
			return m.tc.FCmp(OFLt, b, a)
		case token.GEQ:
			return m.tc.FCmp(OFLe, b, a)
		}
		m.unsupported("float %s", op)
	}
	if a.sort.K == KBool {
		switch op {
		case token.AND, token.LAND:
			return m.tc.And(a, b)
		case token.OR, token.LOR:
			return m.tc.Or(a, b)
		}
		m.unsupported("bool %s", op)
	}
	_, signed, _ := intInfo(t.Underlying().(*types.Basic))
	switch op {
	case token.ADD:
		return m.tc.Bin(OAdd, a, b)
	case token.SUB:
		return m.tc.Bin(OSub, a, b)
	case token.MUL:
		return m.tc.Bin(OMul, a, b)
	case token.QUO, token.REM:
		if m.branch(m.tc.Eq(b, m.tc.Const(b.sort.W, 0))) {
			m.rtPanic("integer divide by zero")
		}
		if op == token.QUO {
			if signed {
				return m.tc.Bin(OSDiv, a, b)
			}
			return m.tc.Bin(OUDiv, a, b)
		}
		if signed {
			return m.tc.Bin(OSRem, a, b)
		}
		return m.tc.Bin(OURem, a, b)
	case token.AND:
		return m.tc.Bin(OBAnd, a, b)
	case token.OR:
		return m.tc.Bin(OBOr, a, b)
	case token.XOR:
		return m.tc.Bin(OBXor, a, b)
	case token.AND_NOT:
		return m.tc.Bin(OBAnd, a, m.tc.BNot(b))
	case token.SHL, token.SHR:
		_, ysigned, _ := intInfo(yt.Underlying().(*types.Basic))
		if ysigned {
			if m.branch(m.tc.Cmp(OSlt, b, m.tc.Const(b.sort.W, 0))) {
				m.rtPanic("negative shift amount")
			}
		}
		w := a.sort.W
		sh := b
		if sh.sort.W > w {
			// saturate
			big := m.tc.Cmp(OUle, m.tc.Const(sh.sort.W, uint64(w)), sh)
			sh = m.tc.Ite(big, m.tc.Const(w, uint64(w)), m.tc.Extract(sh, w-1, 0))
		} else {
			sh = m.tc.Ext(sh, w, false)
		}
		if op == token.SHL {
			return m.tc.Bin(OShl, a, sh)
		}
		if signed {
			return m.tc.Bin(OAShr, a, sh)
		}
		return m.tc.Bin(OLShr, a, sh)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		lt, le := OUlt, OUle
		if signed {
			lt, le = OSlt, OSle
		}
		switch op {
		case token.LSS:
			return m.tc.Cmp(lt, a, b)
		case token.LEQ:
			return m.tc.Cmp(le, a, b)
		case token.GTR:
			return m.tc.Cmp(lt, b, a)
		default:
			return m.tc.Cmp(le, b, a)
		}
	}
	m.unsupported("binary %s", op)
	return nil
}

func (m *Machine) eqMixed(t types.Type, x, y Value, yt types.Type) *Term {
	_, xi := x.(Iface)
	_, yi := y.(Iface)
	if xi && !yi {
		y = Iface{t: yt, v: y}
	} else if yi && !xi {
		x = Iface{t: t, v: x}
	}
	return m.equal(t, x, y)
}

func (m *Machine) boundsCheck(i *Term, n int, signed bool) {
	if i.IsConst() {
		if v := sext(i.val, i.sort.W); signed && (v < 0 || v >= int64(n)) || !signed && i.val >= uint64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", v, n))
		}
		return
	}
	var in *Term
	w := i.sort.W
	if w < 64 && uint64(n) > mask(w) {
		in = m.tc.T
		if signed {
			in = m.tc.Cmp(OSle, m.tc.Const(w, 0), i)
		}
	} else {
		in = m.tc.Cmp(OUlt, i, m.tc.Const(w, uint64(n)))
	}
	if !m.branch(in) {
		m.rtPanic("index out of range")
	}
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return true
	}
	_, s, _ := intInfo(b)
	return s
}

func (m *Machine) indexAddr(fr *frame, in *ssa.IndexAddr) Value {
	x := fr.get(in.X)
	idx := fr.get(in.Index).(*Term)
	var el []Value
	switch a := x.(type) {
	case Slice:
		el = a.a
	case *Value:
		if a == nil {
			m.nilDeref()
		}
		arr, ok := (*a).(Array)
		if !ok {
			m.unsupported("index of %T", *a)
		}
		el = arr
	default:
		m.unsupported("index address of %T", x)
	}
	m.boundsCheck(idx, len(el), isSigned(in.Index.Type()))
	if idx.IsConst() {
		return &el[idx.val]
	}
	if len(el) > 0 {
		if _, ok := el[0].(*Term); ok {
			return &SymPtr{elems: el, idx: idx}
		}
	}
	return &el[m.concretize(idx, 300)]
}

func (m *Machine) index(fr *frame, in *ssa.Index) Value {
	x := fr.get(in.X)
	idx := fr.get(in.Index).(*Term)
	switch a := x.(type) {
	case Array:
		m.boundsCheck(idx, len(a), isSigned(in.Index.Type()))
		if idx.IsConst() {
			return a[idx.val]
		}
		return m.selectSym(&SymPtr{elems: a, idx: idx})
	case Str:
		return m.strIndex(a, idx, isSigned(in.Index.Type()))
	}
	m.unsupported("index of %T", x)
	return nil
}

func (m *Machine) strIndex(s Str, idx *Term, signed bool) Value {
	m.boundsCheck(idx, s.Len(), signed)
	if idx.IsConst() {
		return m.at(s, int(idx.val))
	}
	el := make([]Value, s.Len())
	for i := range el {
		el[i] = m.at(s, i)
	}
	return m.selectSym(&SymPtr{elems: el, idx: idx})
}

func (m *Machine) lookupInstr(fr *frame, in *ssa.Lookup) Value {
	x := fr.get(in.X)
	switch a := x.(type) {
	case Str:
		return m.strIndex(a, fr.get(in.Index).(*Term), isSigned(in.Index.Type()))
	case *MapV:
		if m.race != nil && a != nil {
			m.onRead(fr.th, a, fr.fn)
		}
		mt := in.X.Type().Underlying().(*types.Map)
		m.checkHashable(fr.get(in.Index))
		e := m.mapFind(a, fr.get(in.Index), mt.Key())
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = m.zero(mt.Elem())
		}
		if in.CommaOk {
			return Tuple{v, m.tc.Bool(e != nil)}
		}
		return v
	}
	m.unsupported("lookup in %T", x)
	return nil
}

func (m *Machine) slice(fr *frame, in *ssa.Slice) Value {
	x := fr.get(in.X)
	bound := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		return m.concInt(fr.get(v).(*Term))
	}
	switch a := x.(type) {
	case Str:
		lo := bound(in.Low, 0)
		hi := bound(in.High, a.Len())
		if lo < 0 || hi < lo || hi > a.Len() {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, a.Len()))
		}
		return m.substr(a, lo, hi)
	case Slice:
		lo := bound(in.Low, 0)
		hi := bound(in.High, len(a.a))
		mx := bound(in.Max, cap(a.a))
		if lo < 0 || hi < lo || mx < hi || mx > cap(a.a) {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, cap(a.a)))
		}
		if a.a == nil {
			return Slice{}
		}
		return Slice{a.a[lo:hi:mx]}
	case *Value:
		if a == nil {
			m.nilDeref()
		}
		arr := (*a).(Array)
		lo := bound(in.Low, 0)
		hi := bound(in.High, len(arr))
		mx := bound(in.Max, len(arr))
		if lo < 0 || hi < lo || mx < hi || mx > len(arr) {
			m.rtPanic("slice bounds out of range")
		}
		s := []Value(arr)
		if s == nil {
			s = []Value{}
		}
		return Slice{s[lo:hi:mx]}
	}
	m.unsupported("slice of %T", x)
	return nil
}

func (m *Machine) typeAssert(fr *frame, in *ssa.TypeAssert) Value {
	x := fr.get(in.X).(Iface)
	ok := false
	var v Value
	if x.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = m.eng.implements(x.t, it)
			v = x
		} else {
			ok = types.Identical(x.t, in.AssertedType)
			v = copyVal(x.v)
		}
	}
	if in.CommaOk {
		if !ok {
			v = m.zero(in.AssertedType)
		}
		return Tuple{v, m.tc.Bool(ok)}
	}
	if !ok {
		d := "nil"
		if x.t != nil {
			d = x.t.String()
		}
		m.rtPanic("interface conversion: interface is " + d + ", not " + in.AssertedType.String())
	}
	return v
}

// ---- iteration

type iterator interface {
	next(m *Machine, fr *frame) Value
}

const (
	mapOrderDefault = iota // insertion order or its reverse
	mapOrderAll            // every permutation
	mapOrderFixed          // insertion order only
)

type mapIter struct {
	mp    *MapV
	todo  []*mapEntry
	seen  int // entries of mp.ents already considered
	zk    types.Type
	zv    types.Type
	start bool
}

type strIter struct {
	s Str
	i int
}

func (m *Machine) rangeIter(fr *frame, x Value, t types.Type) Value {
	switch a := x.(type) {
	case Str:
		return &strIter{s: a}
	case *MapV:
		mt := t.Underlying().(*types.Map)
		it := &mapIter{mp: a, zk: mt.Key(), zv: mt.Elem()}
		if a != nil {
			if m.race != nil {
				m.onRead(fr.th, a, fr.fn)
			}
			it.todo = a.live()
			it.seen = len(a.ents)
			if m.inStdInit == 0 && len(it.todo) > 1 && m.mapMode == mapOrderDefault {
				m.mapDep = true
				if m.freshChoice("maporder", 2) == 1 {
					for i, j := 0, len(it.todo)-1; i < j; i, j = i+1, j-1 {
						it.todo[i], it.todo[j] = it.todo[j], it.todo[i]
					}
				}
			}
		}
		return it
	}
	m.unsupported("range over %T", x)
	return nil
}

func (it *mapIter) next(m *Machine, fr *frame) Value {
	if it.mp != nil {
		if m.race != nil {
			m.onRead(fr.th, it.mp, fr.fn)
		}
		// entries deleted meanwhile are skipped
		k := 0
		for _, e := range it.todo {
			if e.live {
				it.todo[k] = e
				k++
			}
		}
		it.todo = it.todo[:k]
		// entries added meanwhile may or may not be produced
		if len(it.mp.ents) > it.seen {
			for _, e := range it.mp.ents[it.seen:] {
				if e.live && m.inStdInit == 0 && m.mapMode != mapOrderFixed {
					m.mapDep = true
					if m.freshChoice("mapnew", 2) == 1 {
						it.todo = append(it.todo, e)
					}
				} else if e.live {
					it.todo = append(it.todo, e)
				}
			}
			it.seen = len(it.mp.ents)
		}
		if len(it.todo) > 0 {
			i := 0
			if m.inStdInit == 0 && m.mapMode == mapOrderAll && len(it.todo) > 1 {
				m.mapDep = true
				i = m.freshChoice("maporder", len(it.todo))
			}
			e := it.todo[i]
			rest := make([]*mapEntry, 0, len(it.todo)-1)
			rest = append(rest, it.todo[:i]...)
			rest = append(rest, it.todo[i+1:]...)
			it.todo = rest
			return Tuple{m.tc.T, e.k, copyVal(e.v)}
		}
	}
	return Tuple{m.tc.F, m.zero(it.zk), m.zero(it.zv)}
}

func (it *strIter) next(m *Machine, fr *frame) Value {
	if it.i >= it.s.Len() {
		return Tuple{m.tc.F, m.tc.Const(64, 0), m.tc.Const(32, 0)}
	}
	i := it.i
	r, n := m.decodeRune(fr.th, m.substr(it.s, i, it.s.Len()))
	it.i += n
	return Tuple{m.tc.T, m.tc.Const(64, uint64(i)), r}
}

func (m *Machine) decodeRune(th *Thread, s Str) (*Term, int) {
	c := m.at(s, 0)
	if m.branch(m.tc.Cmp(OUlt, c, m.tc.Const(8, 0x80))) {
		return m.tc.Ext(c, 32, false), 1
	}
	f := m.eng.std("unicode/utf8", "DecodeRuneInString")
	if s.Len() > 4 {
		s = m.substr(s, 0, 4)
	}
	r := m.callSSA(th, nil, f, []Value{s}, nil).(Tuple)
	return r[0].(*Term), m.concInt(r[1].(*Term))
}

// ---- conversions

func (m *Machine) convert(fr *frame, dst, src types.Type, x Value) Value {
	ud, us := dst.Underlying(), src.Underlying()
	if types.Identical(ud, us) {
		return x
	}
	switch d := ud.(type) {
	case *types.Basic:
		if d.Kind() == types.UnsafePointer {
			return x
		}
		if d.Info()&types.IsString != 0 {
			switch s := us.(type) {
			case *types.Basic:
				if s.Info()&types.IsString != 0 {
					return x
				}
				if s.Info()&types.IsInteger != 0 {
					_, sg, _ := intInfo(s)
					t := x.(*Term)
					r := m.tc.Resize(t, 64, sg)
					// out of rune range -> U+FFFD
					if !m.branch(m.tc.And(m.tc.Cmp(OSle, m.tc.Const(64, 0), r), m.tc.Cmp(OSle, r, m.tc.Const(64, 0x10FFFF)))) {
						return Str{s: "�"}
					}
					return m.encodeRune(fr.th, m.tc.Resize(r, 32, true))
				}
			case *types.Slice:
				a := x.(Slice).a
				if m.race != nil {
					for i := range a {
						m.onRead(fr.th, &a[i], fr.fn)
					}
				}
				if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					bs := make([]*Term, len(a))
					for i := range a {
						bs[i] = a[i].(*Term)
					}
					return mkStr(bs)
				}
				r := Str{}
				for i := range a {
					r = m.concat(r, m.encodeRune(fr.th, a[i].(*Term)))
				}
				return r
			}
			break
		}
		s, ok := us.(*types.Basic)
		if !ok {
			break
		}
		t, ok := x.(*Term)
		if !ok {
			break
		}
		if w, dsg, ok := intInfo(d); ok {
			if sw, sg, ok := intInfo(s); ok {
				_ = sw
				return m.tc.Resize(t, w, sg)
			}
			if s.Info()&types.IsFloat != 0 {
				return m.floatToInt(t, w, dsg)
			}
		}
		if d.Info()&types.IsFloat != 0 {
			w := 64
			if d.Kind() == types.Float32 {
				w = 32
			}
			if _, sg, ok := intInfo(s); ok {
				return m.tc.IntToF(t, w, sg)
			}
			if s.Info()&types.IsFloat != 0 {
				return m.tc.FToF(t, w)
			}
		}
	case *types.Slice:
		if s, ok := us.(*types.Basic); ok && s.Info()&types.IsString != 0 {
			st := x.(Str)
			b, _ := d.Elem().Underlying().(*types.Basic)
			if b != nil && b.Kind() == types.Uint8 {
				m.cells(st.Len())
				a := make([]Value, st.Len())
				for i := range a {
					a[i] = m.at(st, i)
				}
				return Slice{a}
			}
			a := []Value{}
			for i := 0; i < st.Len(); {
				r, n := m.decodeRune(fr.th, m.substr(st, i, st.Len()))
				a = append(a, r)
				i += n
			}
			return Slice{a}
		}
	case *types.Pointer:
		return x // unsafe.Pointer to *T: identity only
	}
	m.unsupported("conversion %s -> %s", src, dst)
	return nil
}

func (m *Machine) floatToInt(t *Term, w int, signed bool) *Term {
	if t.IsConst() {
		f := t.Float()
		var v uint64
		if signed {
			v = uint64(int64(f))
		} else {
			v = uint64(f)
		}
		return m.tc.Const(w, v)
	}
	// Go leaves out-of-range conversions implementation defined: keep the
	// in-range part as an assumption of the path.
	fw := t.sort.W
	lim := float64(1 << 62)
	lim *= 2
	lo := -lim
	if !signed {
		lim *= 2
		lo = -1
	}
	c := m.tc.And(m.tc.FCmp(OFLe, m.tc.FConst(fw, lo), t), m.tc.FCmp(OFLt, t, m.tc.FConst(fw, lim)))
	m.assumption("float to integer conversions only in the range of a 64-bit integer (outside it Go's result is implementation defined)")
	m.assume(c)
	r := m.tc.FToInt(t, 64, signed)
	return m.tc.Resize(r, w, signed)
}

func (m *Machine) encodeRune(th *Thread, r *Term) Str {
	if r.IsConst() {
		return Str{s: string(rune(sext(r.val, 32)))}
	}
	if m.branch(m.tc.Cmp(OUlt, r, m.tc.Const(32, 0x80))) {
		return mkStr([]*Term{m.tc.Extract(r, 7, 0)})
	}
	f := m.eng.std("unicode/utf8", "AppendRune")
	out := m.callSSA(th, nil, f, []Value{Slice{}, r}, nil).(Slice)
	m.cells(len(out.a))
	bs := make([]*Term, len(out.a))
	for i := range bs {
		bs[i] = out.a[i].(*Term)
	}
	return mkStr(bs)
}

// ---- builtins

func (m *Machine) growCap(oldCap, need int, et types.Type) int {
	// runtime.growslice, including size class rounding
	newcap := oldCap
	dbl := newcap + newcap
	if need > dbl {
		newcap = need
	} else if oldCap < 256 {
		newcap = dbl
	} else {
		for newcap < need {
			newcap += (newcap + 3*256) >> 2
		}
	}
	sz := m.eng.sizes.Sizeof(et)
	if sz == 0 {
		return need
	}
	mem := roundSize(int64(newcap) * sz)
	return int(mem / sz)
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int64) int64 {
	for _, s := range sizeClasses {
		if s >= n {
			return s
		}
	}
	return (n + 8191) &^ 8191
}

func (m *Machine) appendVals(fr *frame, s Slice, vals []Value, et types.Type) Slice {
	n := len(s.a)
	need := n + len(vals)
	if len(vals) == 0 {
		return s
	}
	if need <= cap(s.a) {
		r := s.a[:need]
		for i, v := range vals {
			if m.race != nil {
				m.onWrite(fr.th, &r[n+i], fr.fn)
			}
			r[n+i] = copyVal(v)
		}
		return Slice{r}
	}
	c := m.growCap(cap(s.a), need, et)
	if c < need {
		c = need
	}
	m.cells(c)
	r := make([]Value, need, c)
	for i := range s.a {
		if m.race != nil {
			m.onRead(fr.th, &s.a[i], fr.fn)
		}
		r[i] = copyVal(s.a[i])
	}
	for i, v := range vals {
		r[n+i] = copyVal(v)
	}
	m.fillZero(r[need:c], et)
	return Slice{r}
}

func (m *Machine) builtin(fr *frame, b *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	switch b.Name() {
	case "append":
		s := args[0].(Slice)
		et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
		if len(args) == 1 {
			return s
		}
		if st, ok := args[1].(Str); ok {
			vals := make([]Value, st.Len())
			for i := range vals {
				vals[i] = m.at(st, i)
			}
			return m.appendVals(fr, s, vals, et)
		}
		src := args[1].(Slice).a
		if m.race != nil {
			for i := range src {
				m.onRead(fr.th, &src[i], fr.fn)
			}
		}
		// the source may alias the destination
		tmp := make([]Value, len(src))
		copy(tmp, src)
		return m.appendVals(fr, s, tmp, et)
	case "copy":
		d := args[0].(Slice).a
		var src []Value
		if st, ok := args[1].(Str); ok {
			src = make([]Value, st.Len())
			for i := range src {
				src[i] = m.at(st, i)
			}
		} else {
			src = args[1].(Slice).a
			if m.race != nil {
				for i := range src {
					m.onRead(fr.th, &src[i], fr.fn)
				}
			}
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			if m.race != nil {
				m.onWrite(fr.th, &d[i], fr.fn)
			}
			d[i] = tmp[i]
		}
		return m.tc.Const(64, uint64(n))
	case "len":
		switch a := args[0].(type) {
		case Str:
			return m.tc.Const(64, uint64(a.Len()))
		case Slice:
			return m.tc.Const(64, uint64(len(a.a)))
		case Array:
			return m.tc.Const(64, uint64(len(a)))
		case *MapV:
			if a == nil {
				return m.tc.Const(64, 0)
			}
			if m.race != nil {
				m.onRead(fr.th, a, fr.fn)
			}
			return m.tc.Const(64, uint64(a.n))
		case *Value:
			return m.tc.Const(64, uint64(len((*a).(Array))))
		}
	case "cap":
		switch a := args[0].(type) {
		case Slice:
			return m.tc.Const(64, uint64(cap(a.a)))
		case Array:
			return m.tc.Const(64, uint64(len(a)))
		case *Value:
			return m.tc.Const(64, uint64(len((*a).(Array))))
		}
	case "delete":
		mp := args[0].(*MapV)
		if mp != nil {
			if m.race != nil {
				m.onWrite(fr.th, mp, fr.fn)
			}
			m.mapDel(mp, args[1], call.Args[0].Type().Underlying().(*types.Map).Key())
		}
		return nil
	case "clear":
		switch a := args[0].(type) {
		case *MapV:
			if a != nil {
				if m.race != nil {
					m.onWrite(fr.th, a, fr.fn)
				}
				for _, e := range a.ents {
					e.live = false
				}
				a.ents, a.index, a.n, a.sym = nil, map[any]int{}, 0, 0
			}
		case Slice:
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			m.fillZero(a.a, et)
		}
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		return m.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			var lt *Term
			t := call.Args[0].Type()
			if b.Name() == "min" {
				lt = m.binop(token.LSS, t, y, r, t).(*Term)
			} else {
				lt = m.binop(token.LSS, t, r, y, t).(*Term)
			}
			if rt, ok := r.(*Term); ok {
				r = m.tc.Ite(lt, y.(*Term), rt)
			} else if m.branch(lt) {
				r = y
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.nilDeref()
		}
		return args[0]
	case "SliceData":
		s := args[0].(Slice)
		if cap(s.a) == 0 {
			p := new(Value)
			m.sliceDat[p] = s
			return p
		}
		p := &s.a[:1][0]
		m.sliceDat[p] = s
		return p
	case "StringData":
		st := args[0].(Str)
		a := make([]Value, st.Len())
		for i := range a {
			a[i] = m.at(st, i)
		}
		p := new(Value)
		if len(a) > 0 {
			p = &a[0]
		}
		m.sliceDat[p] = Slice{a}
		return p
	case "String":
		p := args[0].(*Value)
		n := m.concInt(args[1].(*Term))
		if n == 0 {
			return Str{}
		}
		s, ok := m.sliceDat[p]
		if !ok {
			m.unsupported("unsafe.String")
		}
		a := s.a[:n]
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = a[i].(*Term)
		}
		return mkStr(bs)
	case "Slice":
		p := args[0].(*Value)
		n := m.concInt(args[1].(*Term))
		s, ok := m.sliceDat[p]
		if !ok {
			m.unsupported("unsafe.Slice")
		}
		return Slice{s.a[:n:n]}
	}
	m.unsupported("builtin %s", b.Name())
	return nil
}

func (m *Machine) doRecover(fr *frame) Value {
	// recover is effective only when called by a deferred function directly
	c := fr.caller
	if c != nil && c.panicking {
		c.panicking = false
		v := c.panicVal.v
		return v
	}
	return Iface{}
}

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	for _, md := range modules {
		s = strings.ReplaceAll(s, md.path+".", "")
	}
	return s
}
