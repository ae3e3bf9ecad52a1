package main

// reflect on symbolic values: the type is concrete, the contents may be
// symbolic.

import (
	"go/types"
	"reflect"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// RVal is a reflect.Value: a type with a value, or with the place of one.
type RVal struct {
	t types.Type
	v Value
	p *Value // addressable
}

func isReflectValue(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == "Value" && o.Pkg() != nil && o.Pkg().Path() == "reflect"
}

func (r RVal) get() Value {
	if r.p != nil {
		return *r.p
	}
	return r.v
}

var rtypes sync.Map // type string -> *Native

func (m *Machine) rtype(t types.Type) Iface {
	if t == nil {
		return Iface{}
	}
	n, _ := rtypes.LoadOrStore(types.TypeString(t, nil), &Native{kind: "rtype", x: t})
	p := m.eng.prog.ImportedPackage("reflect")
	if p == nil {
		m.unsupported("package reflect not loaded")
	}
	return Iface{t: types.NewPointer(p.Type("rtype").Type()), v: n}
}

func (m *Machine) typeOf(v Value) types.Type {
	n, ok := v.(*Native)
	if i, is := v.(Iface); is {
		if i.t == nil {
			m.nilDeref()
		}
		n, ok = i.v.(*Native)
	}
	if !ok || n == nil || n.kind != "rtype" {
		m.unsupported("reflect.Type of %T", v)
	}
	return n.x.(types.Type)
}

func rkind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func (m *Machine) rpanic(what string, t types.Type) {
	k := "zero"
	if t != nil {
		k = rkind(t).String()
	}
	m.rtPanic("reflect: call of reflect.Value." + what + " on " + k + " Value")
}

// isZero is reflect.Value.IsZero.
func (m *Machine) isZero(t types.Type, v Value) *Term {
	switch x := v.(type) {
	case *Term:
		if x.sort.K == KBool {
			return m.tc.Not(x)
		}
		if x.sort.K == KFP {
			return m.tc.FCmp(OFEq, x, m.tc.FConst(x.sort.W, 0)) // -0 too
		}
		return m.tc.Eq(x, m.tc.Const(x.sort.W, 0))
	case Str:
		return m.b(x.Len() == 0)
	case TimeV:
		return m.timeEq(x, m.zeroTime())
	case Struct:
		st := t.Underlying().(*types.Struct)
		r := m.tc.T
		for i := range x {
			r = m.tc.And(r, m.isZero(st.Field(i).Type(), x[i]))
		}
		return r
	case Array:
		et := t.Underlying().(*types.Array).Elem()
		r := m.tc.T
		for i := range x {
			r = m.tc.And(r, m.isZero(et, x[i]))
		}
		return r
	}
	return m.b(isNilValue(v))
}

func isNilValue(v Value) bool {
	switch x := v.(type) {
	case Slice:
		return x.a == nil
	case *Value:
		return x == nil
	case *MapV:
		return x == nil
	case *Closure:
		return x == nil
	case *Native:
		return x == nil
	case Iface:
		return x.t == nil
	}
	return false
}

// rassign is x as a value of type to.
func (m *Machine) rassign(to types.Type, x RVal) Value {
	v := copyVal(x.get())
	if types.IsInterface(to) && !types.IsInterface(x.t) {
		return Iface{t: x.t, v: v}
	}
	return v
}

func (m *Machine) rinterface(r RVal) Value {
	if r.t == nil {
		m.rpanic("Interface", nil)
	}
	v := copyVal(r.get())
	if types.IsInterface(r.t) {
		return v
	}
	return Iface{t: r.t, v: v}
}

// deepEqual is reflect.DeepEqual (no cycles).
func (m *Machine) deepEqual(t types.Type, x, y Value, depth int) *Term {
	if depth > 100 {
		m.unsupported("DeepEqual of a deep structure")
	}
	switch a := x.(type) {
	case Iface:
		b := y.(Iface)
		if a.t == nil || b.t == nil {
			return m.b(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return m.tc.F
		}
		return m.deepEqual(a.t, a.v, b.v, depth+1)
	case *Value:
		b, ok := y.(*Value)
		if !ok || a == b || a == nil || b == nil {
			return m.b(ok && a == b)
		}
		return m.deepEqual(t.Underlying().(*types.Pointer).Elem(), *a, *b, depth+1)
	case Struct:
		b := y.(Struct)
		st := t.Underlying().(*types.Struct)
		r := m.tc.T
		for i := range a {
			r = m.tc.And(r, m.deepEqual(st.Field(i).Type(), a[i], b[i], depth+1))
		}
		return r
	case Array:
		b := y.(Array)
		et := t.Underlying().(*types.Array).Elem()
		r := m.tc.T
		for i := range a {
			r = m.tc.And(r, m.deepEqual(et, a[i], b[i], depth+1))
		}
		return r
	case Slice:
		b := y.(Slice)
		if (a.a == nil) != (b.a == nil) || len(a.a) != len(b.a) {
			return m.tc.F
		}
		et := t.Underlying().(*types.Slice).Elem()
		r := m.tc.T
		for i := range a.a {
			r = m.tc.And(r, m.deepEqual(et, a.a[i], b.a[i], depth+1))
		}
		return r
	case *MapV:
		b := y.(*MapV)
		if a == nil || b == nil || a.n != b.n {
			return m.b(a == nil && b == nil)
		}
		mt := t.Underlying().(*types.Map)
		r := m.tc.T
		for _, e := range a.live() {
			f := m.mapFind(b, e.k, mt.Key())
			if f == nil {
				return m.tc.F
			}
			r = m.tc.And(r, m.deepEqual(mt.Elem(), e.v, f.v, depth+1))
		}
		return r
	case *Closure:
		b, ok := y.(*Closure)
		return m.b(ok && a == nil && b == nil)
	}
	return m.equal(t, x, y)
}

// rmethods are the exported methods of a type.
func (m *Machine) rmethods(t types.Type) []*types.Selection {
	var r []*types.Selection
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			r = append(r, ms.At(i))
		}
	}
	return r
}

func (m *Machine) rbound(r RVal, name string) Value {
	t, v := r.t, r.get()
	if types.IsInterface(t) {
		i := v.(Iface)
		t, v = i.t, i.v
	}
	f := m.eng.methodByName(t, name)
	if f == nil {
		return RVal{}
	}
	sig := f.Signature
	ft := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
	v = copyVal(v)
	return RVal{t: ft, v: &Closure{nat: func(m *Machine, th *Thread, b []Value) Value {
		return m.callSSA(th, nil, f, append([]Value{v}, b...), nil)
	}}}
}

func regReflect(reg func(intrinsic, ...string)) {
	type A = []Value
	rv := func(v Value) RVal { return v.(RVal) }
	val := func(name string, f func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value) {
		reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
			r := rv(a[0])
			if m.race != nil && r.p != nil {
				m.onRead(th, r.p, fn)
			}
			return f(m, th, fn, r, a[1:])
		}, "(reflect.Value)."+name)
	}
	typ := func(name string, f func(m *Machine, th *Thread, t types.Type, a A) Value) {
		reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
			return f(m, th, m.typeOf(a[0]), a[1:])
		}, "(*reflect.rtype)."+name)
	}
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		x := a[0].(Iface)
		if x.t == nil {
			return RVal{}
		}
		return RVal{t: x.t, v: x.v}
	}, "reflect.ValueOf")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		if m.inStdInit > 0 {
			return Iface{}
		}
		return m.rtype(a[0].(Iface).t)
	}, "reflect.TypeOf")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		if m.inStdInit > 0 || len(fn.TypeArgs()) != 1 {
			return Iface{}
		}
		return m.rtype(fn.TypeArgs()[0])
	}, "reflect.TypeFor")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		return m.deepEqual(nil, x, y, 0)
	}, "reflect.DeepEqual")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		t := m.typeOf(a[0])
		return RVal{t: t, v: m.zero(t)}
	}, "reflect.Zero")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		t := m.typeOf(a[0])
		p := new(Value)
		*p = m.zero(t)
		return RVal{t: types.NewPointer(t), v: p}
	}, "reflect.New")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.rtype(types.NewPointer(m.typeOf(a[0])))
	}, "reflect.PointerTo", "reflect.PtrTo")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.rtype(types.NewSlice(m.typeOf(a[0])))
	}, "reflect.SliceOf")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.rtype(types.NewMap(m.typeOf(a[0]), m.typeOf(a[1])))
	}, "reflect.MapOf")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		t := m.typeOf(a[0])
		st, ok := t.Underlying().(*types.Slice)
		if !ok {
			m.rtPanic("reflect.MakeSlice of non-slice type")
		}
		n, c := m.concInt(a[1].(*Term)), m.concInt(a[2].(*Term))
		if n < 0 || c < n {
			m.rtPanic("reflect.MakeSlice: len > cap")
		}
		s := make([]Value, c)
		m.fillZero(s, st.Elem())
		return RVal{t: t, v: Slice{s[:n]}}
	}, "reflect.MakeSlice")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return RVal{t: m.typeOf(a[0]), v: newMap()}
	}, "reflect.MakeMap", "reflect.MakeMapWithSize")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		s := rv(a[0])
		et := s.t.Underlying().(*types.Slice).Elem()
		var vs []Value
		for _, x := range a[1].(Slice).a {
			vs = append(vs, m.rassign(et, rv(x)))
		}
		return RVal{t: s.t, v: m.appendVals(&frame{m: m, th: th, fn: fn}, s.get().(Slice), vs, et)}
	}, "reflect.Append")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		s := rv(a[0])
		et := s.t.Underlying().(*types.Slice).Elem()
		return RVal{t: s.t, v: m.appendVals(&frame{m: m, th: th, fn: fn}, s.get().(Slice), rv(a[1]).get().(Slice).a, et)}
	}, "reflect.AppendSlice")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		d, ok := rv(a[0]).get().(Slice)
		s, ok2 := rv(a[1]).get().(Slice)
		if !ok || !ok2 {
			m.unsupported("reflect.Copy of arrays")
		}
		n := len(d.a)
		if len(s.a) < n {
			n = len(s.a)
		}
		tmp := make([]Value, n)
		for i := range tmp {
			if m.race != nil {
				m.onRead(th, &s.a[i], fn)
				m.onWrite(th, &d.a[i], fn)
			}
			tmp[i] = copyVal(s.a[i])
		}
		copy(d.a, tmp)
		return m.i64(n)
	}, "reflect.Copy")
	elem := func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		if r.t == nil {
			m.rpanic("Elem", nil)
		}
		switch u := r.t.Underlying().(type) {
		case *types.Interface:
			i := r.get().(Iface)
			if i.t == nil {
				return RVal{}
			}
			return RVal{t: i.t, v: i.v}
		case *types.Pointer:
			p, ok := r.get().(*Value)
			if !ok {
				m.unsupported("Elem of %T", r.get())
			}
			if p == nil {
				return RVal{}
			}
			return RVal{t: u.Elem(), p: p}
		}
		m.rpanic("Elem", r.t)
		return nil
	}
	val("Elem", elem)
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		r := rv(a[0])
		if r.t != nil && rkind(r.t) == reflect.Pointer {
			return elem(m, th, fn, r, nil)
		}
		return r
	}, "reflect.Indirect")

	val("IsValid", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value { return m.b(r.t != nil) })
	kind := func(m *Machine, t types.Type) Value {
		if t == nil {
			return m.tc.Const(64, 0)
		}
		return m.tc.Const(64, uint64(rkind(t)))
	}
	val("Kind", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value { return kind(m, r.t) })
	val("Type", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		if r.t == nil {
			m.rpanic("Type", nil)
		}
		return m.rtype(r.t)
	})
	num := func(name string, ok func(b *types.Basic) (bool, bool)) {
		val(name, func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
			if r.t != nil {
				if b, is := r.t.Underlying().(*types.Basic); is {
					if yes, signed := ok(b); yes {
						t := r.get().(*Term)
						if name == "Float" {
							if t.sort.W == 64 {
								return t
							}
							return m.convert(nil, types.Typ[types.Float64], types.Typ[types.Float32], t)
						}
						if name == "Bool" {
							return t
						}
						return m.tc.Resize(t, 64, signed)
					}
				}
			}
			m.rpanic(name, r.t)
			return nil
		})
		if name != "Bool" {
			val("Can"+name, func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
				if r.t == nil {
					return m.tc.F
				}
				b, is := r.t.Underlying().(*types.Basic)
				if !is {
					return m.tc.F
				}
				yes, _ := ok(b)
				return m.b(yes)
			})
		}
	}
	num("Bool", func(b *types.Basic) (bool, bool) { return b.Info()&types.IsBoolean != 0, false })
	num("Int", func(b *types.Basic) (bool, bool) {
		return b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0, true
	})
	num("Uint", func(b *types.Basic) (bool, bool) { return b.Info()&types.IsUnsigned != 0, false })
	num("Float", func(b *types.Basic) (bool, bool) { return b.Info()&types.IsFloat != 0, false })
	val("String", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		if r.t == nil {
			return Str{s: "<invalid Value>"}
		}
		if s, ok := r.get().(Str); ok {
			return s
		}
		return Str{s: "<" + goTypeName(r.t) + " Value>"}
	})
	val("Bytes", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		s, ok := r.get().(Slice)
		if !ok {
			m.rpanic("Bytes", r.t)
		}
		return s
	})
	val("Interface", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value { return m.rinterface(r) })
	val("CanInterface", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value { return m.tc.T })
	val("CanAddr", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value { return m.b(r.p != nil) })
	val("CanSet", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value { return m.b(r.p != nil) })
	val("Addr", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		if r.p == nil {
			m.rtPanic("reflect.Value.Addr of unaddressable value")
		}
		return RVal{t: types.NewPointer(r.t), v: r.p}
	})
	val("IsNil", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		if r.t == nil {
			m.rpanic("IsNil", nil)
		}
		switch rkind(r.t) {
		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice, reflect.UnsafePointer:
			return m.b(isNilValue(r.get()))
		}
		m.rpanic("IsNil", r.t)
		return nil
	})
	val("IsZero", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		if r.t == nil {
			m.rpanic("IsZero", nil)
		}
		return m.isZero(r.t, r.get())
	})
	val("Len", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		if r.t == nil {
			m.rpanic("Len", nil)
		}
		switch x := r.get().(type) {
		case Slice:
			return m.i64(len(x.a))
		case Array:
			return m.i64(len(x))
		case Str:
			return m.i64(x.Len())
		case *MapV:
			if x == nil {
				return m.i64(0)
			}
			if m.race != nil {
				m.onRead(th, x, fn)
			}
			return m.i64(x.n)
		}
		m.rpanic("Len", r.t)
		return nil
	})
	val("Cap", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		if x, ok := r.get().(Slice); ok {
			return m.i64(cap(x.a))
		}
		m.rpanic("Cap", r.t)
		return nil
	})
	val("Index", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		if r.t == nil {
			m.rpanic("Index", nil)
		}
		i := m.concInt(a[0].(*Term))
		out := func(n int) {
			if i < 0 || i >= n {
				m.rtPanic("reflect: slice index out of range")
			}
		}
		switch x := r.get().(type) {
		case Slice:
			out(len(x.a))
			return RVal{t: r.t.Underlying().(*types.Slice).Elem(), p: &x.a[i]}
		case Array:
			out(len(x))
			if r.p != nil {
				return RVal{t: r.t.Underlying().(*types.Array).Elem(), p: &x[i]}
			}
			return RVal{t: r.t.Underlying().(*types.Array).Elem(), v: x[i]}
		case Str:
			out(x.Len())
			return RVal{t: types.Typ[types.Uint8], v: m.at(x, i)}
		}
		m.rpanic("Index", r.t)
		return nil
	})
	val("Slice", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		i, j := m.concInt(a[0].(*Term)), m.concInt(a[1].(*Term))
		switch x := r.get().(type) {
		case Slice:
			if i < 0 || j < i || j > cap(x.a) {
				m.rtPanic("reflect.Value.Slice: slice index out of bounds")
			}
			return RVal{t: r.t, v: Slice{x.a[i:j]}}
		case Str:
			if i < 0 || j < i || j > x.Len() {
				m.rtPanic("reflect.Value.Slice: string slice index out of bounds")
			}
			return RVal{t: r.t, v: m.substr(x, i, j)}
		}
		m.unsupported("reflect slicing of %s", r.t)
		return nil
	})
	val("NumField", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			m.rpanic("NumField", r.t)
		}
		return m.i64(st.NumFields())
	})
	field := func(m *Machine, r RVal, i int) Value {
		st := r.t.Underlying().(*types.Struct)
		x, ok := r.get().(Struct)
		if !ok {
			m.unsupported("reflect field of %s", r.t)
		}
		if i < 0 || i >= len(x) {
			m.rtPanic("reflect: Field index out of range")
		}
		if r.p != nil {
			return RVal{t: st.Field(i).Type(), p: &x[i]}
		}
		return RVal{t: st.Field(i).Type(), v: x[i]}
	}
	val("Field", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		if _, ok := r.t.Underlying().(*types.Struct); !ok {
			m.rpanic("Field", r.t)
		}
		return field(m, r, m.concInt(a[0].(*Term)))
	})
	val("FieldByName", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			m.rpanic("FieldByName", r.t)
		}
		nm := m.cs(a[0])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == nm {
				return field(m, r, i)
			}
		}
		return RVal{}
	})
	val("Set", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		if r.p == nil {
			m.rtPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		if m.race != nil {
			m.onWrite(th, r.p, fn)
		}
		storeInto(r.p, m.rassign(r.t, rv(a[0])))
		return nil
	})
	setter := func(name string, conv func(m *Machine, t types.Type, v Value) Value) {
		val(name, func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
			if r.p == nil {
				m.rtPanic("reflect: reflect.Value." + name + " using unaddressable value")
			}
			if m.race != nil {
				m.onWrite(th, r.p, fn)
			}
			*r.p = conv(m, r.t, a[0])
			return nil
		})
	}
	same := func(m *Machine, t types.Type, v Value) Value { return v }
	setter("SetString", same)
	setter("SetBool", same)
	setter("SetBytes", same)
	trunc := func(signed bool) func(m *Machine, t types.Type, v Value) Value {
		return func(m *Machine, t types.Type, v Value) Value {
			w, _, _ := intInfo(t.Underlying().(*types.Basic))
			return m.tc.Resize(v.(*Term), w, signed)
		}
	}
	setter("SetInt", trunc(true))
	setter("SetUint", trunc(false))
	setter("SetFloat", func(m *Machine, t types.Type, v Value) Value {
		return m.convert(nil, t, types.Typ[types.Float64], v)
	})
	asMap := func(m *Machine, th *Thread, fn *ssa.Function, r RVal, what string) (*MapV, *types.Map) {
		mt, ok := r.t.Underlying().(*types.Map)
		if !ok {
			m.rpanic(what, r.t)
		}
		mp, _ := r.get().(*MapV)
		if m.race != nil && mp != nil {
			m.onRead(th, mp, fn)
		}
		return mp, mt
	}
	order := func(m *Machine, th *Thread, fn *ssa.Function, mp *MapV, mt types.Type) []*mapEntry {
		fr := &frame{m: m, th: th, fn: fn}
		it := m.rangeIter(fr, mp, mt).(*mapIter)
		var r []*mapEntry
		for {
			t := it.next(m, fr).(Tuple)
			if t[0] != Value(m.tc.T) {
				return r
			}
			r = append(r, &mapEntry{k: t[1], v: t[2]})
		}
	}
	val("MapKeys", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		mp, mt := asMap(m, th, fn, r, "MapKeys")
		ks := []Value{}
		for _, e := range order(m, th, fn, mp, r.t) {
			ks = append(ks, RVal{t: mt.Key(), v: e.k})
		}
		return Slice{ks}
	})
	val("MapIndex", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		mp, mt := asMap(m, th, fn, r, "MapIndex")
		e := m.mapFind(mp, m.rassign(mt.Key(), rv(a[0])), mt.Key())
		if e == nil {
			return RVal{}
		}
		return RVal{t: mt.Elem(), v: copyVal(e.v)}
	})
	val("SetMapIndex", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		mp, mt := asMap(m, th, fn, r, "SetMapIndex")
		if m.race != nil && mp != nil {
			m.onWrite(th, mp, fn)
		}
		k := m.rassign(mt.Key(), rv(a[0]))
		if rv(a[1]).t == nil {
			if mp != nil {
				m.mapDel(mp, k, mt.Key())
			}
			return nil
		}
		if mp == nil {
			m.rtPanic("assignment to entry in nil map")
		}
		m.mapSet(mp, k, m.rassign(mt.Elem(), rv(a[1])), mt.Key())
		return nil
	})
	type mapRange struct {
		t    *types.Map
		ents []*mapEntry
		cur  *mapEntry
	}
	val("MapRange", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		mp, mt := asMap(m, th, fn, r, "MapRange")
		return &Native{kind: "maprange", x: &mapRange{t: mt, ents: order(m, th, fn, mp, r.t)}}
	})
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		it := a[0].(*Native).x.(*mapRange)
		it.cur = nil
		if len(it.ents) == 0 {
			return m.tc.F
		}
		it.cur, it.ents = it.ents[0], it.ents[1:]
		return m.tc.T
	}, "(*reflect.MapIter).Next")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		it := a[0].(*Native).x.(*mapRange)
		return RVal{t: it.t.Key(), v: it.cur.k}
	}, "(*reflect.MapIter).Key")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		it := a[0].(*Native).x.(*mapRange)
		return RVal{t: it.t.Elem(), v: it.cur.v}
	}, "(*reflect.MapIter).Value")
	ident := func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		if isNilValue(r.get()) {
			return m.i64(0)
		}
		m.unsupported("address of a value as an integer")
		return nil
	}
	val("Pointer", ident)
	val("UnsafePointer", ident)
	val("Convert", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		t := m.typeOf(a[0])
		if types.IsInterface(t) {
			return RVal{t: t, v: m.rassign(t, r)}
		}
		if !types.ConvertibleTo(r.t, t) {
			m.rtPanic("reflect.Value.Convert: value of type " + goTypeName(r.t) + " cannot be converted to type " + goTypeName(t))
		}
		return RVal{t: t, v: m.convert(&frame{m: m, th: th, fn: fn}, t, r.t, r.get())}
	})
	val("CanConvert", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		return m.b(types.ConvertibleTo(r.t, m.typeOf(a[0])))
	})
	val("Comparable", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		return m.b(r.t == nil || types.Comparable(r.t))
	})
	val("Equal", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		o := rv(a[0])
		if r.t == nil || o.t == nil {
			return m.b(r.t == nil && o.t == nil)
		}
		return m.equal(nil, m.rinterface(r), m.rinterface(o))
	})
	val("NumMethod", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		return m.i64(len(m.rmethods(r.t)))
	})
	val("MethodByName", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		return m.rbound(r, m.cs(a[0]))
	})
	val("Method", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		return m.rbound(r, m.rmethods(r.t)[m.concInt(a[0].(*Term))].Obj().Name())
	})
	val("Call", func(m *Machine, th *Thread, fn *ssa.Function, r RVal, a A) Value {
		sig, ok := r.t.Underlying().(*types.Signature)
		if !ok {
			m.rpanic("Call", r.t)
		}
		if sig.Variadic() {
			m.unsupported("reflect call of a variadic function")
		}
		in := a[0].(Slice).a
		if len(in) != sig.Params().Len() {
			m.rtPanic("reflect: Call with wrong number of input arguments")
		}
		var args []Value
		for i, x := range in {
			args = append(args, m.rassign(sig.Params().At(i).Type(), rv(x)))
		}
		res := m.call(th, nil, r.get(), args)
		out := []Value{}
		switch n := sig.Results().Len(); n {
		case 0:
		case 1:
			out = append(out, RVal{t: sig.Results().At(0).Type(), v: res})
		default:
			for i, x := range res.(Tuple) {
				out = append(out, RVal{t: sig.Results().At(i).Type(), v: x})
			}
		}
		return Slice{out}
	})

	typ("Kind", func(m *Machine, th *Thread, t types.Type, a A) Value { return kind(m, t) })
	typ("String", func(m *Machine, th *Thread, t types.Type, a A) Value { return Str{s: goTypeName(t)} })
	typ("Name", func(m *Machine, th *Thread, t types.Type, a A) Value {
		switch x := types.Unalias(t).(type) {
		case *types.Named:
			return Str{s: x.Obj().Name()}
		case *types.Basic:
			return Str{s: x.Name()}
		}
		return Str{}
	})
	typ("PkgPath", func(m *Machine, th *Thread, t types.Type, a A) Value {
		if x, ok := types.Unalias(t).(*types.Named); ok && x.Obj().Pkg() != nil {
			return Str{s: x.Obj().Pkg().Path()}
		}
		return Str{}
	})
	typ("Elem", func(m *Machine, th *Thread, t types.Type, a A) Value {
		if e, ok := t.Underlying().(interface{ Elem() types.Type }); ok {
			return m.rtype(e.Elem())
		}
		m.rtPanic("reflect: Elem of invalid type " + goTypeName(t))
		return nil
	})
	typ("Key", func(m *Machine, th *Thread, t types.Type, a A) Value {
		mt, ok := t.Underlying().(*types.Map)
		if !ok {
			m.rtPanic("reflect: Key of non-map type " + goTypeName(t))
		}
		return m.rtype(mt.Key())
	})
	typ("NumField", func(m *Machine, th *Thread, t types.Type, a A) Value {
		return m.i64(t.Underlying().(*types.Struct).NumFields())
	})
	typ("NumMethod", func(m *Machine, th *Thread, t types.Type, a A) Value { return m.i64(len(m.rmethods(t))) })
	typ("Comparable", func(m *Machine, th *Thread, t types.Type, a A) Value { return m.b(types.Comparable(t)) })
	typ("Implements", func(m *Machine, th *Thread, t types.Type, a A) Value {
		it, ok := m.typeOf(a[0]).Underlying().(*types.Interface)
		if !ok {
			m.rtPanic("reflect: non-interface type passed to Type.Implements")
		}
		return m.b(m.eng.implements(t, it))
	})
	typ("AssignableTo", func(m *Machine, th *Thread, t types.Type, a A) Value {
		return m.b(types.AssignableTo(t, m.typeOf(a[0])))
	})
	typ("ConvertibleTo", func(m *Machine, th *Thread, t types.Type, a A) Value {
		return m.b(types.ConvertibleTo(t, m.typeOf(a[0])))
	})
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		k := a[0].(*Term)
		return Str{s: reflect.Kind(m.concInt(k)).String()}
	}, "(reflect.Kind).String")
}
