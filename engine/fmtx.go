package main

// fmt.Sprint/Sprintf on symbolic values, following the rules of package fmt.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"
)

func (m *Machine) sprint(th *Thread, args []Value) Str {
	r := Str{}
	prevString := false
	for i, a := range args {
		x := a.(Iface)
		isString := false
		if x.t != nil {
			if b, ok := x.t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
				isString = types.Identical(x.t, x.t)
			}
		}
		if i > 0 && !isString && !prevString {
			r = m.concat(r, Str{s: " "})
		}
		r = m.concat(r, m.fmtArg(th, x, 'v', "", false))
		prevString = isString
	}
	return r
}

func (m *Machine) sprintln(th *Thread, args []Value) Str {
	r := Str{}
	for i, a := range args {
		if i > 0 {
			r = m.concat(r, Str{s: " "})
		}
		r = m.concat(r, m.fmtArg(th, a.(Iface), 'v', "", false))
	}
	return m.concat(r, Str{s: "\n"})
}

func (m *Machine) sprintf(th *Thread, f string, args []Value) Str {
	r := Str{}
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			r = m.concat(r, Str{s: f[i:]})
			break
		}
		r = m.concat(r, Str{s: f[i : i+j]})
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			return m.concat(r, Str{s: "%!(NOVERB)"})
		}
		flags := f[st:i]
		verb := f[i]
		i++
		if verb == '%' {
			r = m.concat(r, Str{s: "%"})
			continue
		}
		if verb == '*' || verb == '[' {
			m.unsupported("fmt directive %q", f)
		}
		if ai >= len(args) {
			r = m.concat(r, Str{s: "%!" + string(verb) + "(MISSING)"})
			continue
		}
		r = m.concat(r, m.fmtArg(th, args[ai].(Iface), verb, flags, strings.Contains(flags, "#") && verb == 'v'))
		ai++
	}
	if ai < len(args) {
		m.unsupported("extra fmt arguments")
	}
	return r
}

func (m *Machine) fmtArg(th *Thread, x Iface, verb byte, flags string, sharpV bool) Str {
	if x.t == nil {
		if verb == 'v' {
			return Str{s: "<nil>"}
		}
		return Str{s: "%!" + string(verb) + "(<nil>)"}
	}
	if verb == 'T' {
		return Str{s: goTypeName(x.t)}
	}
	if flags == "+" && verb == 'v' {
		defer func(p bool) { m.plusV = p }(m.plusV)
		m.plusV = true
		return m.fmtVal(th, x.t, x.v, verb, false, 0)
	}
	if f := strings.Trim(flags, "#"); f != "" {
		// width and precision only on concrete basic values
		nv, ok := m.native(x)
		if !ok {
			m.unsupported("fmt flags %q on symbolic value", flags)
		}
		return Str{s: fmt.Sprintf("%"+flags+string(verb), nv)}
	}
	return m.fmtVal(th, x.t, x.v, verb, sharpV, 0)
}

func (m *Machine) native(x Iface) (any, bool) {
	b, ok := x.t.(*types.Basic)
	if !ok {
		return nil, false
	}
	switch v := x.v.(type) {
	case Str:
		if v.conc() {
			return v.s, true
		}
	case *Term:
		if !v.IsConst() {
			return nil, false
		}
		switch b.Kind() {
		case types.Bool:
			return v.val == 1, true
		case types.Int:
			return int(v.val), true
		case types.Int8:
			return int8(v.val), true
		case types.Int16:
			return int16(v.val), true
		case types.Int32:
			return int32(v.val), true
		case types.Int64:
			return int64(v.val), true
		case types.Uint:
			return uint(v.val), true
		case types.Uint8:
			return uint8(v.val), true
		case types.Uint16:
			return uint16(v.val), true
		case types.Uint32:
			return uint32(v.val), true
		case types.Uint64:
			return v.val, true
		case types.Float32:
			return math.Float32frombits(uint32(v.val)), true
		case types.Float64:
			return math.Float64frombits(v.val), true
		}
	}
	return nil, false
}

func (m *Machine) quote(s Str) Str {
	if s.conc() {
		return Str{s: strconv.Quote(s.s)}
	}
	r := Str{s: `"`}
	for i := 0; i < s.Len(); i++ {
		c := m.at(s, i)
		if c.IsConst() && c.val < 0x80 {
			q := strconv.Quote(string([]byte{byte(c.val)}))
			r = m.concat(r, Str{s: q[1 : len(q)-1]})
			continue
		}
		esc := m.tc.Or(m.tc.Eq(c, m.tc.Const(8, '"')), m.tc.Eq(c, m.tc.Const(8, '\\')))
		if m.branch(esc) {
			r = m.concat(m.concat(r, Str{s: `\`}), Str{b: []*Term{c}})
			continue
		}
		if m.branch(m.tc.And(m.tc.Cmp(OUle, m.tc.Const(8, 0x20), c), m.tc.Cmp(OUle, c, m.tc.Const(8, 0x7e)))) {
			r = m.concat(r, Str{b: []*Term{c}})
			continue
		}
		if m.branch(m.tc.Cmp(OUlt, c, m.tc.Const(8, 0x80))) {
			k := m.concretize(c, 40)
			q := strconv.Quote(string([]byte{byte(k)}))
			r = m.concat(r, Str{s: q[1 : len(q)-1]})
			continue
		}
		m.unsupported("quoting symbolic non-ASCII text")
	}
	return m.concat(r, Str{s: `"`})
}

// timeBig is the instant in nanoseconds.
func timeBig(t TimeV) *big.Int {
	n := new(big.Int).Lsh(big.NewInt(int64(t.hi)), 64)
	return n.Add(n, big.NewInt(int64(t.ns.val)))
}

func timeString(t TimeV) string {
	sec, ns := new(big.Int).DivMod(timeBig(t), big.NewInt(1000000000), new(big.Int))
	return time.Unix(sec.Int64(), ns.Int64()).UTC().String()
}

func goTypeName(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	s = strings.ReplaceAll(s, "any", "interface {}")
	return s
}

func (m *Machine) callString(th *Thread, t types.Type, v Value, name string) (Str, bool) {
	f := m.eng.methodByName(t, name)
	if f == nil {
		return Str{}, false
	}
	sg := f.Signature
	if sg.Params().Len() != 0 || sg.Results().Len() != 1 {
		return Str{}, false
	}
	if b, ok := sg.Results().At(0).Type().(*types.Basic); !ok || b.Kind() != types.String {
		return Str{}, false
	}
	if p, ok := v.(*Value); ok && p == nil {
		return Str{s: "<nil>"}, true
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "time" && isTime(t) {
		tv := v.(TimeV)
		if !tv.ns.IsConst() {
			m.unsupported("formatting a symbolic time")
		}
		return Str{s: timeString(tv)}, true
	}
	r := m.callSSA(th, nil, f, []Value{copyVal(v)}, nil)
	return r.(Str), true
}

func (m *Machine) fmtVal(th *Thread, t types.Type, v Value, verb byte, sharpV bool, depth int) Str {
	if i, ok := v.(Iface); ok {
		if _, isI := t.Underlying().(*types.Interface); isI {
			if i.t == nil {
				if sharpV {
					return Str{s: goTypeName(t) + "(nil)"}
				}
				return Str{s: "<nil>"}
			}
			return m.fmtVal(th, i.t, i.v, verb, sharpV, depth+1)
		}
	}
	if sharpV {
		if s, ok := m.callString(th, t, v, "GoString"); ok {
			return s
		}
	} else if verb == 'v' || verb == 's' || verb == 'q' {
		s, ok := m.callString(th, t, v, "Error")
		if !ok {
			s, ok = m.callString(th, t, v, "String")
		}
		if ok {
			if verb == 'q' {
				return m.quote(s)
			}
			return s
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			s := v.(Str)
			if sharpV || verb == 'q' {
				return m.quote(s)
			}
			if verb == 'v' || verb == 's' {
				return s
			}
			if s.conc() {
				return Str{s: fmt.Sprintf("%"+string(verb), s.s)}
			}
		case u.Info()&types.IsBoolean != 0:
			if verb == 'v' || verb == 't' {
				if m.branch(v.(*Term)) {
					return Str{s: "true"}
				}
				return Str{s: "false"}
			}
		case u.Info()&types.IsInteger != 0:
			tm := v.(*Term)
			_, signed, _ := intInfo(u)
			if verb == 'd' || verb == 'v' && (!sharpV || signed) {
				return m.formatInt(tm, signed)
			}
			if !tm.IsConst() {
				v = m.tc.Const(tm.sort.W, m.concretize(tm, 300))
			}
			if nv, ok := m.native(Iface{t: u, v: v}); ok {
				if sharpV {
					return Str{s: fmt.Sprintf("%#v", nv)}
				}
				return Str{s: fmt.Sprintf("%"+string(verb), nv)}
			}
		case u.Info()&types.IsFloat != 0:
			if nv, ok := m.native(Iface{t: u, v: v}); ok {
				if sharpV {
					return Str{s: fmt.Sprintf("%#v", nv)}
				}
				return Str{s: fmt.Sprintf("%"+string(verb), nv)}
			}
			m.unsupported("formatting a symbolic float")
		}
	case *types.Slice, *types.Array:
		var el []Value
		var et types.Type
		isNil := false
		if s, ok := u.(*types.Slice); ok {
			el, et = v.(Slice).a, s.Elem()
			isNil = el == nil
		} else {
			el, et = v.(Array), u.(*types.Array).Elem()
		}
		if verb == 's' {
			if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return sliceStr(m, v)
			}
		}
		if sharpV {
			if isNil {
				return Str{s: goTypeName(t) + "(nil)"}
			}
			r := Str{s: goTypeName(t) + "{"}
			for i, x := range el {
				if i > 0 {
					r = m.concat(r, Str{s: ", "})
				}
				r = m.concat(r, m.fmtVal(th, et, x, verb, sharpV, depth+1))
			}
			return m.concat(r, Str{s: "}"})
		}
		r := Str{s: "["}
		for i, x := range el {
			if i > 0 {
				r = m.concat(r, Str{s: " "})
			}
			r = m.concat(r, m.fmtVal(th, et, x, verb, sharpV, depth+1))
		}
		return m.concat(r, Str{s: "]"})
	case *types.Map:
		mp := v.(*MapV)
		ents := mp.live()
		// sorted by key (strings and integers)
		for i := 1; i < len(ents); i++ {
			for j := i; j > 0; j-- {
				var lt *Term
				switch a := ents[j].k.(type) {
				case Str:
					lt = m.strLt(a, ents[j-1].k.(Str))
				case *Term:
					lt = m.tc.Cmp(OSlt, a, ents[j-1].k.(*Term))
				default:
					m.unsupported("formatting map with key %T", a)
				}
				if !m.branch(lt) {
					break
				}
				ents[j], ents[j-1] = ents[j-1], ents[j]
			}
		}
		r := Str{s: "map["}
		sep, end := " ", "]"
		if sharpV {
			if mp == nil {
				return Str{s: goTypeName(t) + "(nil)"}
			}
			r = Str{s: goTypeName(t) + "{"}
			sep, end = ", ", "}"
		}
		for i, e := range ents {
			if i > 0 {
				r = m.concat(r, Str{s: sep})
			}
			r = m.concat(r, m.fmtVal(th, u.Key(), e.k, verb, sharpV, depth+1))
			r = m.concat(r, Str{s: ":"})
			r = m.concat(r, m.fmtVal(th, u.Elem(), e.v, verb, sharpV, depth+1))
		}
		return m.concat(r, Str{s: end})
	case *types.Struct:
		s, ok := v.(Struct)
		if !ok {
			break
		}
		r := Str{s: "{"}
		if sharpV {
			r = Str{s: goTypeName(t) + "{"}
		}
		for i := range s {
			if i > 0 {
				if sharpV {
					r = m.concat(r, Str{s: ", "})
				} else {
					r = m.concat(r, Str{s: " "})
				}
			}
			if sharpV || m.plusV {
				r = m.concat(r, Str{s: u.Field(i).Name() + ":"})
			}
			ft := u.Field(i).Type()
			r = m.concat(r, m.fmtVal(th, ft, s[i], verb, sharpV, depth+1))
		}
		return m.concat(r, Str{s: "}"})
	case *types.Pointer:
		p, ok := v.(*Value)
		if ok && p == nil {
			if sharpV {
				return Str{s: "(" + goTypeName(t) + ")(nil)"}
			}
			return Str{s: "<nil>"}
		}
		if ok && depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Map, *types.Slice, *types.Array:
				return m.concat(Str{s: "&"}, m.fmtVal(th, u.Elem(), *p, verb, sharpV, depth+1))
			}
		}
	}
	m.unsupported("formatting %s with %%%c", t, verb)
	return Str{}
}
