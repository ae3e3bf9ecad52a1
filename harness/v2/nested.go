package zzvh

import (
	"time"

	"github.com/webability-go/xcore/v2"
	vrt "github.com/webability-go/xcore/v2/zzvrt"
)

// C14_nested: reading through thread safe datasets within each other while
// one of them is changed.
func C14_nested() {
	vrt.Preempt(vrt.Bound("preemptions", 2, 4))
	x, y := vrt.Int("x", 0, 9), vrt.Int("y", 0, 9)
	in, rec := newDS(true), newDS(true)
	in.Set("k", x)
	rec.Set("k", x)
	c := newDC(true)
	c.Push(rec)
	d := newDS(true)
	d.Set("d", in)
	d.Set("c", c)
	other := newDS(true)
	other.Set("k", y)
	through := vrt.Choose("through", 2)
	path := []string{"d>k", "c>0>k"}[through]
	g := vrt.Choose("read", 10)
	var v interface{}
	ok := false
	vrt.Go(func() {
		switch g {
		case 0:
			v, ok = d.Get(path)
		case 1:
			v, ok = d.GetInt(path)
		case 2:
			var s string
			s, ok = d.GetString(path)
			_ = s
			v = x
		case 3:
			v, ok = d.Clone().Get(path)
		case 4:
			if through == 0 {
				var e xcore.XDatasetDef
				if e, ok = d.GetDataset("d"); ok {
					v, ok = e.Get("k")
				}
			} else {
				var e xcore.XDatasetCollectionDef
				if e, ok = d.GetCollection("c"); ok {
					v, ok = e.GetData("k")
				}
			}
		case 5:
			_, ok = d.GetBool(path)
			v = x
		case 6:
			_, ok = d.GetFloat(path)
			v = x
		case 7:
			d.String()
			v, ok = x, true
		case 8:
			d.GoString()
			v, ok = x, true
		case 9:
			d.GetTime(path)
			d.GetStringCollection(path)
			d.GetDataset(path)
			d.GetCollection(path)
			v, ok = x, true
		}
	})
	w := vrt.Choose("write", 4)
	vrt.Go(func() {
		switch w {
		case 0:
			in.Set("k", y)
			rec.Set("k", y)
		case 1:
			d.Set("d", other)
			c.Unshift(other)
		case 2:
			d.Del("d")
			d.Del("c")
		case 3:
			c.Push(other)
			c.Shift()
			in.Del("k")
			in.Set("k", y)
		}
	})
	vrt.Join()
	if w < 2 {
		vrt.Assert(ok, "what was there all the time is not found")
	}
	if ok && g != 5 && g != 6 {
		vrt.Assert(vrt.Or(v == x, v == y), "a value that was never stored is found")
	}
	v, ok = d.Get(path)
	if w == 2 {
		vrt.Assert(!ok && v == nil, "a deleted dataset is found")
	} else {
		vrt.Assert(vrt.And(ok, v == y), "a write is lost")
	}
}

// C14_kinds: the getters of values of their own type while these are
// replaced by others of that type.
func C14_kinds() {
	d := newDS(true)
	t := vrt.Time("t")
	i := anyInt("i")
	in, c := newDS(true), newDC(true)
	old := []interface{}{"a", true, i, 0.5, t, in, c, []string{"a"}, []bool{true}, []int{i}, []float64{0.5}, []time.Time{t}}
	in2, c2 := newDS(true), newDC(true)
	u, j := vrt.Time("u"), anyInt("j")
	repl := []interface{}{"b", false, j, 1.5, u, in2, c2, []string{"b", "c"}, []bool{}, []int{j, i}, []float64{}, []time.Time{u, t}}
	g := vrt.Choose("getter", len(old))
	d.Set("k", old[g])
	a, b := newDS(false), newDS(false)
	a.Set("k", old[g])
	b.Set("k", repl[g])
	var v interface{}
	ok := false
	vrt.Go(func() {
		switch g {
		case 0:
			v, ok = d.GetString("k")
		case 1:
			v, ok = d.GetBool("k")
		case 2:
			v, ok = d.GetInt("k")
		case 3:
			v, ok = d.GetFloat("k")
		case 4:
			v, ok = d.GetTime("k")
		case 5:
			v, ok = d.GetDataset("k")
		case 6:
			v, ok = d.GetCollection("k")
		case 7:
			v, ok = d.GetStringCollection("k")
		case 8:
			v, ok = d.GetBoolCollection("k")
		case 9:
			v, ok = d.GetIntCollection("k")
		case 10:
			v, ok = d.GetFloatCollection("k")
		case 11:
			v, ok = d.GetTimeCollection("k")
		}
	})
	vrt.Go(func() {
		d.Set("l", i)
		d.Set("k", repl[g])
		d.Del("l")
	})
	vrt.Join()
	vrt.Assert(ok, "what was there all the time is not found")
	vrt.Assert(vrt.Or(sameVal(v, old[g]), sameVal(v, repl[g])), "a value that was never stored is found")
	sameGetter(g, d, "k", b, "k", "a write is lost")
}

// C20_files: loading a file next to any operation.
func C20_files() {
	v := vrt.Str("v", 1, 1, 'a', 'z')
	flat := vrt.File("t.language", "a="+v)
	xml := vrt.File("t.xml", `<language id="y" lang="fr"><entry id="a" status="s">`+v+`</entry></language>`)
	langConcurrent(func(l *xcore.XLanguage) [][]*lop {
		var o *lop
		if vrt.Choose("form", 2) == 0 {
			o = &lop{run: func() { l.LoadFile(flat) }, step: func(m lmodel) bool {
				x := m.(*lmod)
				x.has[0], x.val[0] = true, v
				return true
			}}
		} else {
			o = &lop{run: func() { l.LoadXMLFile(xml) }, step: func(m lmodel) bool {
				x := m.(*lmod)
				x.name, x.tag = "y", 2
				x.has[0], x.val[0], x.st[0] = true, v, "s"
				return true
			}}
		}
		return [][]*lop{{o}, {langOp(l, langAll)}}
	})
}
