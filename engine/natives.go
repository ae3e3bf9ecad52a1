package main

// Environment models: files, encoding/xml struct mapping, and the harness
// runtime (package zzvrt).

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"

	"golang.org/x/tools/go/ssa"
)

type openFile struct {
	name   string
	f      *vfile
	pos    int
	closed bool
}

func regOS(reg func(intrinsic, ...string)) {
	type A = []Value
	lookup := func(m *Machine, v Value) (*vfile, string) {
		n := m.cs(v)
		if f, ok := m.files[n]; ok {
			return f, n
		}
		return nil, n
	}
	fail := func(m *Machine, th *Thread, s string) Value { return m.newError(th, Str{s: s}) }
	// a *fs.PathError with an error of the system
	failed := func(m *Machine, op, n string, e syscall.Errno) Value {
		pe, no := m.stdType("io/fs", "PathError"), m.stdType("syscall", "Errno")
		p := new(Value)
		*p = Struct{Str{s: op}, Str{s: n}, Iface{no, m.tc.Const(64, uint64(e))}}
		return Iface{types.NewPointer(pe), p}
	}
	info := func(m *Machine, n string, f *vfile) Value {
		t := m.stdType("os", "fileStat")
		st := m.zero(t).(Struct)
		st[0], st[1], st[2] = Str{s: filepath.Base(n)}, m.i64(f.content.Len()), m.tc.Const(32, 0644)
		if f.mode == 2 {
			st[1], st[2] = m.i64(4096), m.tc.Const(32, uint64(os.ModeDir|0755))
		}
		p := new(Value)
		*p = st
		return Iface{types.NewPointer(t), p}
	}
	open := func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		f, n := lookup(m, a[0])
		if f == nil || f.mode == 1 {
			return Tuple{(*Value)(nil), failed(m, "open", n, syscall.ENOENT)}
		}
		return Tuple{&Native{"file", &openFile{name: n, f: f}}, Iface{}}
	}
	reg(open, "os.Open")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		if fl := a[1].(*Term); !fl.IsConst() || fl.val&3 != 0 {
			m.unsupported("os.OpenFile for writing")
		}
		return open(m, th, fn, a)
	}, "os.OpenFile")
	get := func(m *Machine, v Value) *openFile {
		n, ok := v.(*Native)
		if !ok || n == nil {
			return nil
		}
		return n.x.(*openFile)
	}
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		o := get(m, a[0])
		if o == nil {
			return Tuple{m.i64(0), fail(m, th, "invalid argument")}
		}
		if o.closed {
			return Tuple{m.i64(0), fail(m, th, "read "+o.name+": file already closed")}
		}
		if o.f.mode == 2 {
			return Tuple{m.i64(0), failed(m, "read", o.name, syscall.EISDIR)}
		}
		b := a[1].(Slice).a
		if len(b) == 0 {
			return Tuple{m.i64(0), Iface{}}
		}
		n := o.f.content.Len() - o.pos
		if n == 0 {
			return Tuple{m.i64(0), *m.stdGlobal("io", "EOF")}
		}
		if n > len(b) {
			n = len(b)
		}
		for i := 0; i < n; i++ {
			b[i] = m.at(o.f.content, o.pos+i)
		}
		o.pos += n
		return Tuple{m.i64(n), Iface{}}
	}, "(*os.File).Read")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		o := get(m, a[0])
		if o == nil {
			return fail(m, th, "invalid argument")
		}
		if o.closed {
			return fail(m, th, "close "+o.name+": file already closed")
		}
		o.closed = true
		return Iface{}
	}, "(*os.File).Close")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { return Str{s: get(m, a[0]).name} }, "(*os.File).Name")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		o := get(m, a[0])
		if o == nil || o.closed {
			return Tuple{Iface{}, fail(m, th, "use of closed file")}
		}
		return Tuple{info(m, o.name, o.f), Iface{}}
	}, "(*os.File).Stat")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		f, n := lookup(m, a[0])
		if f == nil || f.mode == 1 {
			return Tuple{Iface{}, failed(m, "stat", n, syscall.ENOENT)}
		}
		return Tuple{info(m, n, f), Iface{}}
	}, "os.Stat", "os.Lstat")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		e := a[0].(*Term)
		if !e.IsConst() {
			m.unsupported("symbolic error number")
		}
		return Str{s: syscall.Errno(e.val).Error()}
	}, "(syscall.Errno).Error")
	// no environment variable is set
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		m.assumption("no environment variable that the code asks for is set")
		return Str{}
	}, "os.Getenv")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		m.assumption("no environment variable that the code asks for is set")
		return Tuple{Str{}, m.b(false)}
	}, "os.LookupEnv", "syscall.Getenv")
	all := func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		f, n := lookup(m, a[0])
		if f == nil || f.mode == 1 {
			return Tuple{Slice{}, failed(m, "open", n, syscall.ENOENT)}
		}
		if f.mode == 2 {
			return Tuple{Slice{}, failed(m, "read", n, syscall.EISDIR)}
		}
		return Tuple{m.strSlice(f.content), Iface{}}
	}
	reg(all, "os.ReadFile", "io/ioutil.ReadFile")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		o := get(m, a[0])
		w := a[1].(Iface)
		if o == nil || o.closed || o.f.mode == 2 {
			return Tuple{m.i64(0), fail(m, th, "read error")}
		}
		f := m.eng.methodByName(w.t, "Write")
		s := m.substr(o.f.content, o.pos, o.f.content.Len())
		o.pos = o.f.content.Len()
		m.callSSA(th, nil, f, []Value{w.v, m.strSlice(s)}, nil)
		return Tuple{m.i64(s.Len()), Iface{}}
	}, "(*os.File).WriteTo")
}

func (m *Machine) stdGlobal(pkg, name string) *Value {
	p := m.eng.prog.ImportedPackage(pkg)
	if p == nil {
		m.unsupported("package %s not loaded", pkg)
	}
	return m.global(p.Var(name))
}

func (m *Machine) stdType(pkg, name string) types.Type {
	p := m.eng.prog.ImportedPackage(pkg)
	if p == nil {
		m.unsupported("package %s not loaded", pkg)
	}
	return p.Type(name).Type()
}

// ---- encoding/xml: the tokenizer runs symbolically from its source; only
// the reflection-driven mapping onto structs is modelled here.

func regXML(reg func(intrinsic, ...string)) {
	type A = []Value
	decode := func(m *Machine, th *Thread, dec Value, target Value) Value {
		it := target.(Iface)
		pt, ok := it.t.(*types.Pointer)
		if !ok {
			return m.newError(th, Str{s: "non-pointer passed to Unmarshal"})
		}
		x := &xmlDec{m: m, th: th, dec: dec}
		for {
			tok, err := x.token()
			if err.t != nil {
				return err
			}
			if x.kind(tok) == "StartElement" {
				if err := x.element(pt.Elem(), it.v.(*Value), tok.v.(Struct)); err.t != nil {
					return err
				}
				return Iface{}
			}
		}
	}
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		rd := m.callSSA(th, nil, m.eng.std("bytes", "NewReader"), []Value{a[0]}, nil)
		nd := m.eng.std("encoding/xml", "NewDecoder")
		rt := m.eng.std("bytes", "NewReader").Signature.Results().At(0).Type()
		dec := m.callSSA(th, nil, nd, []Value{Iface{t: rt, v: rd}}, nil)
		return decode(m, th, dec, a[1])
	}, "encoding/xml.Unmarshal")
	reg(func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { return decode(m, th, a[0], a[1]) }, "(*encoding/xml.Decoder).Decode")
}

type xmlDec struct {
	m   *Machine
	th  *Thread
	dec Value
}

func (x *xmlDec) token() (Iface, Iface) {
	t := types.NewPointer(x.m.eng.prog.ImportedPackage("encoding/xml").Type("Decoder").Type())
	f := x.m.eng.methodByName(t, "Token")
	r := x.m.callSSA(x.th, nil, f, []Value{x.dec}, nil).(Tuple)
	return r[0].(Iface), r[1].(Iface)
}

func (x *xmlDec) kind(t Iface) string {
	if n, ok := t.t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// StartElement{Name{Space,Local}, Attr []Attr{Name,Value}}
func (x *xmlDec) element(t types.Type, p *Value, se Struct) Iface {
	m := x.m
	var chardata *Value
	chardataBytes := false
	elems := map[string]int{}
	var names []string
	st, isStruct := t.Underlying().(*types.Struct)
	var sv Struct
	setText := func(dst *Value, ft types.Type, s Str) {
		switch u := ft.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				*dst = s
				return
			}
		case *types.Slice:
			*dst = m.strSlice(s)
			return
		}
		m.unsupported("xml text into %s", ft)
	}
	if isStruct {
		sv = (*p).(Struct)
		name := se[0].(Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("xml")
			if tag == "-" || (!f.Exported() && f.Name() != "XMLName") {
				continue
			}
			if f.Embedded() {
				m.unsupported("xml embedded field")
			}
			parts := strings.Split(tag, ",")
			nm := parts[0]
			if strings.ContainsAny(nm, "> ") {
				m.unsupported("xml tag %s", tag)
			}
			opt := ""
			for _, o := range parts[1:] {
				if o != "omitempty" {
					opt = o
				}
			}
			if f.Name() == "XMLName" {
				if nm != "" && !m.branch(m.strEq(name[1].(Str), Str{s: nm})) {
					return m.newError(x.th, Str{s: "expected element type <" + nm + ">"}).(Iface)
				}
				sv[i] = copyVal(name)
				continue
			}
			if nm == "" && opt != "chardata" && opt != "cdata" {
				nm = f.Name()
			}
			switch opt {
			case "attr":
				for _, av := range se[1].(Slice).a {
					at := av.(Struct)
					if m.branch(m.strEq(at[0].(Struct)[1].(Str), Str{s: nm})) {
						setText(&sv[i], f.Type(), at[1].(Str))
					}
				}
			case "chardata", "cdata":
				if chardata == nil {
					chardata = &sv[i]
					_, chardataBytes = f.Type().Underlying().(*types.Slice)
				}
			case "":
				elems[nm] = i
				names = append(names, nm)
			default:
				m.unsupported("xml tag %s", tag)
			}
		}
	}
	text := Str{}
	for {
		tok, err := x.token()
		if err.t != nil {
			return err
		}
		switch x.kind(tok) {
		case "StartElement":
			cs := tok.v.(Struct)
			local := cs[0].(Struct)[1].(Str)
			done := false
			for _, n := range names {
				if !m.branch(m.strEq(local, Str{s: n})) {
					continue
				}
				done = true
				i := elems[n]
				ft := st.Field(i).Type()
				if sl, ok := ft.Underlying().(*types.Slice); ok {
					if b, isB := sl.Elem().Underlying().(*types.Basic); !isB || b.Kind() != types.Uint8 {
						el := new(Value)
						et := sl.Elem()
						if pe, isP := et.(*types.Pointer); isP {
							*el = m.zero(pe.Elem())
							if e := x.element(pe.Elem(), el, cs); e.t != nil {
								return e
							}
							sv[i] = Slice{append(append([]Value{}, sv[i].(Slice).a...), el)}
						} else {
							*el = m.zero(et)
							e := x.element(et, el, cs)
							sv[i] = Slice{append(append([]Value{}, sv[i].(Slice).a...), *el)}
							if e.t != nil {
								return e
							}
						}
						break
					}
				}
				if pe, isP := ft.(*types.Pointer); isP {
					el := new(Value)
					*el = m.zero(pe.Elem())
					sv[i] = el
					if e := x.element(pe.Elem(), el, cs); e.t != nil {
						return e
					}
					break
				}
				if e := x.element(ft, &sv[i], cs); e.t != nil {
					return e
				}
				break
			}
			if !done {
				if e := x.skip(); e.t != nil {
					return e
				}
			}
		case "EndElement":
			if isStruct {
				if chardata != nil {
					if chardataBytes {
						*chardata = m.strSlice(text)
					} else {
						*chardata = text
					}
				}
			} else {
				setText(p, t, text)
			}
			return Iface{}
		case "CharData":
			text = m.concat(text, sliceStr(m, tok.v))
		}
	}
}

func (x *xmlDec) skip() Iface {
	d := 1
	for d > 0 {
		tok, err := x.token()
		if err.t != nil {
			return err
		}
		switch x.kind(tok) {
		case "StartElement":
			d++
		case "EndElement":
			d--
		}
	}
	return Iface{}
}

// ---- harness runtime

func regVrt(reg func(intrinsic, ...string)) {
	type A = []Value
	V := func(name string, f intrinsic) { reg(f, "vrt."+name) }
	V("Int", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		n := m.cs(a[0])
		lo, hi := m.concInt(a[1].(*Term)), m.concInt(a[2].(*Term))
		return m.input(n, "int", m.intIn(n, int64(lo), int64(hi)))
	})
	V("Bool", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		n := m.cs(a[0])
		return m.input(n, "bool", m.newVar(n, BoolSort))
	})
	V("Byte", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		n := m.cs(a[0])
		return m.input(n, "int", m.rangedVar(n, 8, a[1].(*Term).val, a[2].(*Term).val))
	})
	V("Float", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		n := m.cs(a[0])
		b := m.newVar(n, BV(64))
		m.input(n, "f64", b)
		return m.tc.FFromBits(b)
	})
	V("Str", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		lo, hi := m.concInt(a[1].(*Term)), m.concInt(a[2].(*Term))
		return m.symStr(m.cs(a[0]), lo, hi, a[3].(*Term).val, a[4].(*Term).val)
	})
	V("Choose", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		n := m.cs(a[0])
		k := m.concInt(a[1].(*Term))
		nm := m.inputName(n)
		v := m.freshChoice(n, k)
		t := m.i64(v)
		m.tape = append(m.tape, tapeEntry{nm, "int", t})
		return t
	})
	V("Bound", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		v := a[1].(*Term)
		if m.eng.thorough {
			v = a[2].(*Term)
		}
		m.bounds[m.cs(a[0])] = int(int64(v.val))
		return v
	})
	V("Assume", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { m.assume(a[0].(*Term)); return nil })
	V("Assert", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		msg := a[1].(Str)
		m.assertT(a[0].(*Term), m.concStr(m.ev, msg))
		return nil
	})
	V("Cover", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { m.covers[m.cs(a[0])] = true; return nil })
	V("Observe", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		m.obs = append(m.obs, a[0].(Slice).a...)
		return nil
	})
	V("And", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { return m.tc.And(a[0].(*Term), a[1].(*Term)) })
	V("Or", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { return m.tc.Or(a[0].(*Term), a[1].(*Term)) })
	V("Imp", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.tc.Or(m.tc.Not(a[0].(*Term)), a[1].(*Term))
	})
	V("Ite", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		return m.tc.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	})
	V("Go", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		f := a[0]
		m.spawn(th, func(t *Thread) { m.call(t, nil, f, nil) })
		return nil
	})
	V("Join", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { m.joinAll(th); return nil })
	V("Yield", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { m.yield(th); return nil })
	V("Stamp", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { m.stamp++; return m.i64(m.stamp) })
	V("Preempt", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		m.maxPre = m.concInt(a[0].(*Term))
		return nil
	})
	V("MapOrder", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		m.mapMode = m.concInt(a[0].(*Term))
		return nil
	})
	V("Advance", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		if m.clock == nil {
			m.initClock()
		}
		d := a[0].(*Term)
		m.assume(m.tc.Cmp(OSle, m.tc.Const(64, 0), d))
		n := m.tc.Bin(OAdd, m.clock, d)
		m.assumption("instants stay within the years 1678..2262 (64-bit nanoseconds)")
		m.assume(m.tc.And(m.tc.Cmp(OSle, m.clock, n), m.tc.Cmp(OSle, n, m.tc.Const(64, 1<<62-1))))
		m.clock = n
		return nil
	})
	V("FreeRun", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		if m.clock == nil {
			m.initClock()
		}
		m.freeRun = true
		return nil
	})
	V("Now", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		if m.clock == nil {
			m.initClock()
		}
		return TimeV{ns: m.clock}
	})
	V("Time", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		n := m.cs(a[0])
		t := m.intIn(n, 0, 1<<62-1)
		m.input(n, "int", t)
		return TimeV{ns: t}
	})
	V("File", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		p := "/vfs/" + m.cs(a[0])
		m.files[p] = &vfile{content: a[1].(Str)}
		return Str{s: p}
	})
	V("NoFile", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		p := "/vfs/" + m.cs(a[0])
		m.files[p] = &vfile{mode: 1}
		return Str{s: p}
	})
	V("DirFile", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		p := "/vfs/" + m.cs(a[0])
		m.files[p] = &vfile{mode: 2}
		return Str{s: p}
	})
	V("Note", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value {
		m.assumption(m.cs(a[0]))
		return nil
	})
	V("Thorough", func(m *Machine, th *Thread, fn *ssa.Function, a A) Value { return m.b(m.eng.thorough) })
}

var _ = fmt.Sprint
