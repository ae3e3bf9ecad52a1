package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is the symbolic counterpart of a Go value:
//
//	*Term      bool, integers, floats
//	Str        string
//	Struct     struct (fields stored in place)
//	Array      array (elements stored in place)
//	Slice      slice
//	*Value     pointer
//	*SymPtr    pointer to an element selected by a symbolic index
//	*MapV      map
//	Iface      interface
//	*Closure   function value
//	Tuple      multiple results
//	TimeV      time.Time
//	*Native    engine object (regexp, file ...)
type Value = any

type Str struct {
	s string
	b []*Term // non nil: symbolic bytes
}

type Struct []Value
type Array []Value
type Tuple []Value
type Slice struct{ a []Value }

type SymPtr struct {
	elems []Value
	idx   *Term
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	nat func(m *Machine, th *Thread, args []Value) Value
}

// TimeV is the instant hi*2^64+ns nanoseconds after 1970; ns is signed.
type TimeV struct {
	ns *Term
	hi int
}

// Native is an engine-side object behind a pointer-typed Go value.
type Native struct {
	kind string
	x    any
}

type mapEntry struct {
	k    Value
	v    Value
	live bool
}

type MapV struct {
	ents  []*mapEntry
	index map[any]int // concrete keys only
	sym   int         // number of live entries with symbolic keys
	n     int
}

// the zero time.Time, 62135596800 s before 1970
const (
	zeroTimeHi = -3
	zeroTimeNs = -62135596800000000000 + 3<<64
)

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == "Time" && o.Pkg() != nil && o.Pkg().Path() == "time"
}

func (m *Machine) str(s string) Str { return Str{s: s} }

func (s Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s Str) conc() bool { return s.b == nil }

func (m *Machine) at(s Str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return m.tc.Const(8, uint64(s.s[i]))
}

func (m *Machine) bytesOf(s Str) []*Term {
	if s.b != nil {
		return s.b
	}
	m.cells(len(s.s))
	r := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		r[i] = m.tc.Const(8, uint64(s.s[i]))
	}
	return r
}

// mkStr normalises: all-constant bytes give a concrete string.
func mkStr(b []*Term) Str {
	for _, t := range b {
		if t.op != OConst {
			return Str{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.val)
	}
	return Str{s: string(bs)}
}

func (m *Machine) substr(s Str, i, j int) Str {
	if s.b == nil {
		return Str{s: s.s[i:j]}
	}
	return mkStr(s.b[i:j:j])
}

func (m *Machine) concat(a, b Str) Str {
	if a.b == nil && b.b == nil {
		m.cells((a.Len() + b.Len()) / 8)
		return Str{s: a.s + b.s}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	m.cells(a.Len() + b.Len())
	r := make([]*Term, 0, a.Len()+b.Len())
	r = append(r, m.bytesOf(a)...)
	r = append(r, m.bytesOf(b)...)
	return Str{b: r}
}

func (m *Machine) strEq(a, b Str) *Term {
	if a.b == nil && b.b == nil {
		return m.tc.Bool(a.s == b.s)
	}
	if a.Len() != b.Len() {
		return m.tc.F
	}
	r := m.tc.T
	for i := a.Len() - 1; i >= 0; i-- {
		r = m.tc.And(m.tc.Eq(m.at(a, i), m.at(b, i)), r)
		if r == m.tc.F {
			return r
		}
	}
	return r
}

func (m *Machine) strLt(a, b Str) *Term {
	if a.b == nil && b.b == nil {
		return m.tc.Bool(a.s < b.s)
	}
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	r := m.tc.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := m.at(a, i), m.at(b, i)
		r = m.tc.Or(m.tc.Cmp(OUlt, x, y), m.tc.And(m.tc.Eq(x, y), r))
	}
	return r
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	}
	return v
}

func intInfo(b *types.Basic) (w int, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.UntypedInt:
		return 64, true, true
	}
	return 0, false, false
}

func (m *Machine) zero(t types.Type) Value {
	if isTime(t) {
		return m.zeroTime()
	}
	if isReflectValue(t) {
		return RVal{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intInfo(u); ok {
			return m.tc.Const(w, 0)
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return m.tc.F
		case types.String, types.UntypedString:
			return Str{}
		case types.Float64, types.UntypedFloat:
			return m.tc.FConst(64, 0)
		case types.Float32:
			return m.tc.FConst(32, 0)
		case types.UnsafePointer, types.UntypedNil:
			return (*Value)(nil)
		case types.Complex128, types.Complex64:
			return Native{}
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = m.zero(u.Elem())
		}
		return a
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*Native)(nil)
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = m.zero(u.At(i).Type())
		}
		return r
	}
	m.unsupported("zero value of %s", t)
	return nil
}

func (m *Machine) constant(c *ssa.Const) Value {
	if v, ok := m.consts[c]; ok {
		return copyVal(v)
	}
	v := m.constant1(c)
	m.consts[c] = v
	return copyVal(v)
}

func (m *Machine) constant1(c *ssa.Const) Value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		m.unsupported("constant of type %s", c.Type())
	}
	if w, _, ok := intInfo(b); ok {
		v := constant.ToInt(c.Value)
		if i, exact := constant.Int64Val(v); exact {
			return m.tc.Const(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return m.tc.Const(w, u)
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return m.tc.Bool(constant.BoolVal(c.Value))
	case types.String, types.UntypedString:
		if c.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(c.Value)}
		}
		i, _ := constant.Int64Val(c.Value)
		return Str{s: string(rune(i))}
	case types.Float64, types.UntypedFloat:
		f, _ := constant.Float64Val(c.Value)
		return m.tc.FConst(64, f)
	case types.Float32:
		f, _ := constant.Float32Val(c.Value)
		return m.tc.FConst(32, float64(f))
	}
	m.unsupported("constant of type %s", c.Type())
	return nil
}

// ---- maps

func newMap() *MapV { return &MapV{index: map[any]int{}} }

type ifaceKey struct {
	t string
	k any
}
type numKey struct {
	k Kind
	w int
	v uint64
}

func concKey(v Value) (any, bool) {
	switch x := v.(type) {
	case Str:
		if x.b == nil {
			return x.s, true
		}
	case *Term:
		if x.IsConst() {
			if x.sort.K == KFP {
				return nil, false
			}
			return numKey{x.sort.K, x.sort.W, x.val}, true
		}
	case *Value:
		return x, true
	case *Native:
		return x, true
	case Iface:
		if x.t == nil {
			return ifaceKey{}, true
		}
		k, ok := concKey(x.v)
		if ok {
			return ifaceKey{types.TypeString(x.t, nil), k}, true
		}
	}
	return nil, false
}

func (m *Machine) mapFind(mp *MapV, key Value, kt types.Type) *mapEntry {
	if mp == nil {
		return nil
	}
	ck, conc := concKey(key)
	if conc {
		if i, ok := mp.index[ck]; ok {
			return mp.ents[i]
		}
		if mp.sym == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if !e.live {
			continue
		}
		if conc {
			if _, c2 := concKey(e.k); c2 {
				continue
			}
		}
		if m.branch(m.equal(kt, key, e.k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *MapV, key, val Value, kt types.Type) {
	if e := m.mapFind(mp, key, kt); e != nil {
		e.v = val
		return
	}
	e := &mapEntry{k: key, v: val, live: true}
	mp.ents = append(mp.ents, e)
	mp.n++
	if ck, ok := concKey(key); ok {
		mp.index[ck] = len(mp.ents) - 1
	} else {
		mp.sym++
	}
}

func (m *Machine) mapDel(mp *MapV, key Value, kt types.Type) {
	e := m.mapFind(mp, key, kt)
	if e == nil {
		return
	}
	e.live = false
	mp.n--
	if ck, ok := concKey(e.k); ok {
		delete(mp.index, ck)
	} else {
		mp.sym--
	}
	if len(mp.ents) > 64 && mp.n*4 < len(mp.ents) && mp.n == 0 {
		mp.ents = nil
	}
}

func (mp *MapV) live() []*mapEntry {
	var r []*mapEntry
	if mp == nil {
		return nil
	}
	for _, e := range mp.ents {
		if e.live {
			r = append(r, e)
		}
	}
	return r
}

// ---- equality

func (m *Machine) equal(t types.Type, x, y Value) *Term {
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		if a.sort.K == KFP {
			return m.tc.FCmp(OFEq, a, b)
		}
		return m.tc.Eq(a, b)
	case Str:
		return m.strEq(a, y.(Str))
	case TimeV:
		return m.timeEq(a, y.(TimeV))
	case Iface:
		b := y.(Iface)
		if a.t == nil || b.t == nil {
			return m.tc.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return m.tc.F
		}
		if !types.Comparable(a.t) {
			m.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return m.equal(a.t, a.v, b.v)
	case Struct:
		b := y.(Struct)
		st := t.Underlying().(*types.Struct)
		r := m.tc.T
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = m.tc.And(r, m.equal(st.Field(i).Type(), a[i], b[i]))
		}
		return r
	case Array:
		b := y.(Array)
		et := t.Underlying().(*types.Array).Elem()
		r := m.tc.T
		for i := range a {
			r = m.tc.And(r, m.equal(et, a[i], b[i]))
		}
		return r
	case *Value:
		b, ok := y.(*Value)
		return m.tc.Bool(ok && a == b)
	case *MapV:
		b, ok := y.(*MapV)
		return m.tc.Bool(ok && a == b)
	case *Closure:
		b, ok := y.(*Closure)
		return m.tc.Bool(ok && a == b)
	case *Native:
		b, ok := y.(*Native)
		if !ok {
			return m.tc.F
		}
		return m.tc.Bool(a == b)
	case Slice:
		b := y.(Slice)
		return m.tc.Bool(a.a == nil && b.a == nil)
	}
	m.unsupported("comparison of %T", x)
	return nil
}

// ---- concrete rendering under a model (for observations)

func (m *Machine) render(e *evaluator, v Value) string {
	switch x := v.(type) {
	case nil:
		return "<none>"
	case *Term:
		u := e.ev(x)
		switch x.sort.K {
		case KBool:
			return fmt.Sprint(u == 1)
		case KFP:
			if x.sort.W == 32 {
				return fmt.Sprintf("f32:%08x", u)
			}
			f := math.Float64frombits(u)
			if f != f {
				return "f64:nan"
			}
			return fmt.Sprintf("f64:%016x", u)
		}
		return fmt.Sprint(sext(u, x.sort.W))
	case Str:
		return fmt.Sprintf("%q", m.concStr(e, x))
	case TimeV:
		return fmt.Sprintf("t:%d", int64(e.ev(x.ns))) // wrapped, as natively
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return m.render(e, x.v)
	case Slice:
		var sb strings.Builder
		sb.WriteByte('[')
		for i, el := range x.a {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(m.render(e, el))
		}
		sb.WriteByte(']')
		return sb.String()
	case *MapV:
		var ks []string
		for _, en := range x.live() {
			ks = append(ks, m.render(e, en.k)+":"+m.render(e, en.v))
		}
		sort.Strings(ks)
		return "map[" + strings.Join(ks, " ") + "]"
	}
	return "<?>"
}

func (m *Machine) concStr(e *evaluator, s Str) string {
	if s.b == nil {
		return s.s
	}
	bs := make([]byte, len(s.b))
	for i, t := range s.b {
		bs[i] = byte(e.ev(t))
	}
	return string(bs)
}
