package zzvh

import (
	"strings"

	xcore "github.com/webability-go/xcore/v2"
	vrt "github.com/webability-go/xcore/v2/zzvrt"
)

// C13_dataset: the same operations on a plain and a thread safe dataset.
func C13_dataset() {
	n := vrt.Bound("operations", 2, 3)
	p, t := newDS(false), newDS(true)
	kinds := []int{0, 1, 8, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 25}
	for i := 0; i < n; i++ {
		k := plainKey("k", 0, 1)
		switch vrt.Choose("op", 3) {
		case 0:
			v := anyValue("v", kinds[vrt.Choose("kind", len(kinds))])
			p.Set(k, v)
			t.Set(k, v)
		case 1:
			p.Del(k)
			t.Del(k)
		case 2:
			p, t = p.Clone(), t.Clone()
			_, isTS := t.(*xcore.XDatasetTS)
			vrt.Assert(isTS, "the clone of a thread safe dataset is not thread safe")
		}
	}
	q := plainKey("q", 0, 1)
	a, aok := p.Get(q)
	b, bok := t.Get(q)
	vrt.Observe(aok, bok)
	vrt.Assert(aok == bok, "Get differs between the plain and the thread safe dataset")
	_, nested := a.(xcore.XDatasetDef)
	_, nestedc := a.(xcore.XDatasetCollectionDef)
	if nested || nestedc {
		_, n2 := b.(xcore.XDatasetDef)
		_, c2 := b.(xcore.XDatasetCollectionDef)
		vrt.Assert(nested == n2 && nestedc == c2, "Get differs between the plain and the thread safe dataset")
		d1, ok1 := p.GetDataset(q)
		d2, ok2 := t.GetDataset(q)
		vrt.Assert(ok1 == ok2 && (d1 == nil) == (d2 == nil), "GetDataset differs between the plain and the thread safe dataset")
		c1, ok1 := p.GetCollection(q)
		c2b, ok2 := t.GetCollection(q)
		vrt.Assert(ok1 == ok2 && (c1 == nil) == (c2b == nil), "GetCollection differs between the plain and the thread safe dataset")
		for _, g := range []int{1, 2, 3, 4, 7, 8, 9, 10, 11} {
			sameGetter(g, p, q, t, q, "a getter differs between the plain and the thread safe dataset")
		}
		return
	}
	vrt.Assert(sameVal(a, b), "Get differs between the plain and the thread safe dataset")
	for g := 1; g < 12; g++ {
		sameGetter(g, p, q, t, q, "a getter differs between the plain and the thread safe dataset")
	}
}

// C13_text: String, GoString and GetString.
func C13_text() {
	p, t := newDS(false), newDS(true)
	for i := 0; i < 2; i++ {
		k := plainKey("k", 0, 1)
		var v interface{}
		switch vrt.Choose("kind", 3) {
		case 0:
			v = vrt.Int("v", -99, 999)
		case 1:
			v = vrt.Str("v", 0, 1, 'a', 'z')
		case 2:
			v = nil
		}
		p.Set(k, v)
		t.Set(k, v)
	}
	vrt.Assert(p.String() == t.String(), "String differs between the plain and the thread safe dataset")
	vrt.Assert(p.GoString() == t.GoString(), "GoString differs between the plain and the thread safe dataset")
	q := plainKey("q", 0, 1)
	sameGetter(0, p, q, t, q, "GetString differs between the plain and the thread safe dataset")
}

// C13_collection: the same operations on a plain and a thread safe collection.
func C13_collection() {
	n := vrt.Bound("operations", 3, 4)
	p, t := newDC(false), newDC(true)
	var recs []xcore.XDatasetDef
	for i := 0; i < n; i++ {
		ops := 6
		if p.Count() == 0 {
			ops = 4
		}
		switch vrt.Choose("op", ops) {
		case 0, 1:
			d := newDS(false)
			d.Set(plainKey("k", 0, 1), vrt.Int("v", -99, 99))
			recs = append(recs, d)
			if i%2 == 0 {
				p.Push(d)
				t.Push(d)
			} else {
				p.Unshift(d)
				t.Unshift(d)
			}
		case 2:
			i := anyInt("index")
			a, aok := p.Get(i)
			b, bok := t.Get(i)
			vrt.Assert(aok == bok && a == b, "Get differs between the plain and the thread safe collection")
		case 3:
			// a clone has its own records: compare them and go on
			pc, tc := p.Clone(), t.Clone()
			vrt.Assert(pc.Count() == tc.Count(), "Clone differs between the plain and the thread safe collection")
			_, isTS := tc.(*xcore.XDatasetCollectionTS)
			vrt.Assert(isTS, "the clone of a thread safe collection is not thread safe")
			q := plainKey("cq", 0, 1)
			a, aok := pc.GetData(q)
			b, bok := tc.GetData(q)
			vrt.Assert(aok == bok && sameVal(a, b), "Clone differs between the plain and the thread safe collection")
		case 4:
			vrt.Assert(p.Pop() == t.Pop(), "Pop differs between the plain and the thread safe collection")
		case 5:
			vrt.Assert(p.Shift() == t.Shift(), "Shift differs between the plain and the thread safe collection")
		}
	}
	vrt.Assert(p.Count() == t.Count(), "Count differs between the plain and the thread safe collection")
	for i := 0; i < p.Count(); i++ {
		a, _ := p.Get(i)
		b, _ := t.Get(i)
		vrt.Assert(a == b, "Get differs between the plain and the thread safe collection")
	}
	q := plainKey("q", 0, 1)
	sameLookups(p, t, q)
}

func sameLookups(p, t xcore.XDatasetCollectionDef, q string) {
	msg := "a lookup differs between the plain and the thread safe collection"
	a, aok := p.GetData(q)
	b, bok := t.GetData(q)
	vrt.Assert(aok == bok && sameVal(a, b), msg)
	s1, o1 := p.GetDataString(q)
	s2, o2 := t.GetDataString(q)
	vrt.Assert(o1 == o2 && s1 == s2, msg)
	i1, o1 := p.GetDataInt(q)
	i2, o2 := t.GetDataInt(q)
	vrt.Assert(o1 == o2 && i1 == i2, msg)
	b1, o1 := p.GetDataBool(q)
	b2, o2 := t.GetDataBool(q)
	vrt.Assert(o1 == o2 && b1 == b2, msg)
	f1, o1 := p.GetDataFloat(q)
	f2, o2 := t.GetDataFloat(q)
	vrt.Assert(o1 == o2, msg)
	vrt.Assert(sameFloat(f1, f2), msg)
	t1, o1 := p.GetDataTime(q)
	t2, o2 := t.GetDataTime(q)
	vrt.Assert(o1 == o2 && t1.Equal(t2), msg)
	c1, o1 := p.GetCollection(q)
	c2, o2 := t.GetCollection(q)
	vrt.Assert(o1 == o2 && c1 == c2, msg)
}

// C13_lookup: the lookups for values of every kind, and Strings.
func C13_lookup() {
	p, t := newDC(false), newDC(true)
	kinds := []int{0, 2, 15, 16, 17, 18, 19, 22, 23, 24, 25}
	for i := 0; i < 2; i++ {
		d := newDS(false)
		if i == 0 {
			d.Set("a", vrt.Int("v", -9, 99))
		} else {
			v := anyValue("v", kinds[vrt.Choose("kind", len(kinds))])
			if _, ok := v.([]int); ok {
				v = []int{3, 4}
			}
			d.Set(plainKey("k", 0, 1), v)
		}
		p.Push(d)
		t.Push(d)
	}
	sameLookups(p, t, plainKey("q", 0, 1))
	// the texts name the type, and list the same records
	a, b := p.String(), t.String()
	vrt.Assert(strings.Replace(a, "XDatasetCollection[", "XDatasetCollectionTS[", 1) == b ||
		a == b, "String differs between the plain and the thread safe collection")
}

// C13_zero: a zero value collection is empty and usable.
func C13_zero() {
	c := &xcore.XDatasetCollectionTS{}
	vrt.Assert(c.Count() == 0, "a zero collection is not empty")
	_, ok := c.Get(anyInt("i"))
	vrt.Assert(!ok, "a zero collection is not empty")
	_, ok = c.GetData(plainKey("k", 0, 1))
	vrt.Assert(!ok, "a zero collection is not empty")
	vrt.Assert(c.Clone().Count() == 0, "the clone of a zero collection is not empty")
	d := newDS(false)
	if vrt.Choose("op", 2) == 0 {
		c.Push(d)
	} else {
		c.Unshift(d)
	}
	r, ok := c.Get(0)
	vrt.Assert(ok && r == d && c.Count() == 1, "a zero collection is not usable")
}

// lop is an operation of a concurrent program: run does it, step applies it to
// the sequential model and tells whether the result agrees.
type lop struct {
	run        func()
	step       func(m lmodel) bool
	start, end int
}

type lmodel interface{ clone() lmodel }

// lin: some order compatible with the intervals explains all results.
func lin(m lmodel, ops []*lop, final func(m lmodel) bool) bool {
	if len(ops) == 0 {
		return final(m)
	}
	some := false
	for i, o := range ops {
		first := true
		for j, p := range ops {
			if j != i && p.end < o.start {
				first = false
			}
		}
		if !first {
			continue
		}
		c := m.clone()
		ok := o.step(c)
		rest := append(append([]*lop(nil), ops[:i]...), ops[i+1:]...)
		some = vrt.Or(some, vrt.And(ok, lin(c, rest, final)))
	}
	return some
}

// concurrently runs the programs and returns all their operations.
func concurrently(progs ...[]*lop) []*lop {
	var ops []*lop
	for _, p := range progs {
		p := p
		ops = append(ops, p...)
		vrt.Go(func() {
			for _, o := range p {
				o.start = vrt.Stamp()
				o.run()
				o.end = vrt.Stamp()
			}
		})
	}
	vrt.Join()
	return ops
}

// dsmodel: the two keys of a dataset.
type dsmodel struct {
	has [2]bool
	val [2]int
}

func (m *dsmodel) clone() lmodel { c := *m; return &c }

var dsKeys = []string{"a", "b"}

// gives: Get of the key (any string) may return v, ok.
func (m *dsmodel) gives(key string, v interface{}, ok bool) bool {
	r := true
	for i, k := range dsKeys {
		have := vrt.And(m.has[i], vrt.And(ok, v == m.val[i]))
		lack := vrt.And(!m.has[i], vrt.And(!ok, v == nil))
		r = vrt.And(r, vrt.Imp(key == k, vrt.Or(have, lack)))
	}
	return r
}

// at is the entry of a key.
func (m *dsmodel) at(key string) (has bool, val int) {
	for i, k := range dsKeys {
		has = vrt.Or(has, vrt.And(key == k, m.has[i]))
		val = vrt.Ite(key == k, m.val[i], val)
	}
	return
}

func dsOp(d xcore.XDatasetDef, kinds int) *lop {
	kind := vrt.Choose("op", kinds)
	key := ""
	if kind < 6 {
		key = vrt.Str("key", 1, 1, 'a', 'b')
	}
	switch kind {
	case 0:
		v := anyInt("v")
		return &lop{run: func() { d.Set(key, v) }, step: func(m lmodel) bool {
			x := m.(*dsmodel)
			for i, k := range dsKeys {
				x.has[i] = vrt.Or(x.has[i], key == k)
				x.val[i] = vrt.Ite(key == k, v, x.val[i])
			}
			return true
		}}
	case 1:
		return &lop{run: func() { d.Del(key) }, step: func(m lmodel) bool {
			x := m.(*dsmodel)
			for i, k := range dsKeys {
				x.has[i] = vrt.And(x.has[i], key != k)
			}
			return true
		}}
	case 2:
		var v interface{}
		var ok bool
		return &lop{run: func() { v, ok = d.Get(key) }, step: func(m lmodel) bool {
			return m.(*dsmodel).gives(key, v, ok)
		}}
	case 3:
		var v int
		var ok bool
		return &lop{run: func() { v, ok = d.GetInt(key) }, step: func(m lmodel) bool {
			has, val := m.(*dsmodel).at(key)
			return vrt.And(ok == has, v == vrt.Ite(has, val, 0))
		}}
	case 4:
		var v bool
		var ok bool
		return &lop{run: func() { v, ok = d.GetBool(key) }, step: func(m lmodel) bool {
			has, val := m.(*dsmodel).at(key)
			return vrt.And(ok == has, v == vrt.And(has, val != 0))
		}}
	case 5:
		// the getters that find nothing of their type
		found := false
		return &lop{run: func() {
			_, o1 := d.GetTime(key)
			_, o2 := d.GetDataset(key)
			found = o1 || o2
		}, step: func(m lmodel) bool { return !found }}
	case 6:
		var v [2]interface{}
		var ok [2]bool
		return &lop{run: func() {
			c := d.Clone()
			for i, k := range dsKeys {
				v[i], ok[i] = c.Get(k)
			}
		}, step: func(m lmodel) bool {
			x := m.(*dsmodel)
			return vrt.And(x.gives("a", v[0], ok[0]), x.gives("b", v[1], ok[1]))
		}}
	}
	n := 0
	return &lop{run: func() { n = len(d.String()) }, step: func(m lmodel) bool { return n > 0 }}
}

func dsConcurrent(progs func(d xcore.XDatasetDef) [][]*lop) {
	d := newDS(true)
	m := &dsmodel{}
	v := anyInt("stored")
	if vrt.Choose("prefill", 2) == 1 {
		d.Set("a", v)
		m.has[0], m.val[0] = true, v
	}
	ops := concurrently(progs(d)...)
	var vals [2]interface{}
	var oks [2]bool
	for i, k := range dsKeys {
		vals[i], oks[i] = d.Get(k)
	}
	vrt.Assert(lin(m, ops, func(m lmodel) bool {
		x := m.(*dsmodel)
		return vrt.And(x.gives("a", vals[0], oks[0]), x.gives("b", vals[1], oks[1]))
	}), "the results on the dataset are not those of any sequential order")
}

// C14_dataset: two goroutines, two operations against one.
func C14_dataset() {
	dsConcurrent(func(d xcore.XDatasetDef) [][]*lop {
		return [][]*lop{{dsOp(d, 7), dsOp(d, 7)}, {dsOp(d, 7)}}
	})
}

// C14_three: three goroutines on a dataset.
func C14_three() {
	vrt.Preempt(vrt.Bound("preemptions", 1, 3))
	dsConcurrent(func(d xcore.XDatasetDef) [][]*lop {
		return [][]*lop{{dsOp(d, 4)}, {dsOp(d, 4)}, {dsOp(d, 4)}}
	})
}

// C14_text: String, GoString and the slice getters next to writers.
func C14_text() {
	d := newDS(true)
	d.Set("a", 1)
	x := anyInt("x")
	g := vrt.Choose("getter", 16)
	vrt.Go(func() {
		switch g {
		case 12:
			d.String()
		case 13:
			d.GoString()
		case 14:
			d.Clone()
		case 15:
			d.Get("a>b")
		default:
			sameGetter(g, d, "zz", &xcore.XDataset{}, "x", "a getter of an absent key returns something")
		}
	})
	w := vrt.Choose("writer", 2)
	vrt.Go(func() {
		if w == 0 {
			d.Set("b", x)
		} else {
			d.Del("a")
		}
	})
	vrt.Join()
	v, ok := d.Get("b")
	vrt.Assert(ok == (w == 0) && (w == 1 || v == x), "a write is lost")
}

// dcmodel: the records of a collection.
type dcmodel struct{ r []xcore.XDatasetDef }

func (m *dcmodel) clone() lmodel {
	return &dcmodel{r: append([]xcore.XDatasetDef(nil), m.r...)}
}

func valueOf(d xcore.XDatasetDef) int {
	v, _ := d.GetInt("id")
	return v
}

func dcOp(c xcore.XDatasetCollectionDef, kinds int) *lop {
	switch vrt.Choose("op", kinds) {
	case 0:
		r := newDS(false)
		r.Set("id", anyInt("v"))
		return &lop{run: func() { c.Push(r) }, step: func(m lmodel) bool {
			x := m.(*dcmodel)
			x.r = append(x.r, r)
			return true
		}}
	case 1:
		r := newDS(false)
		r.Set("id", anyInt("v"))
		return &lop{run: func() { c.Unshift(r) }, step: func(m lmodel) bool {
			x := m.(*dcmodel)
			x.r = append([]xcore.XDatasetDef{r}, x.r...)
			return true
		}}
	case 2:
		var got xcore.XDatasetDef
		panicked := false
		return &lop{run: func() {
			defer func() { panicked = recover() != nil }()
			got = c.Pop()
		}, step: func(m lmodel) bool {
			x := m.(*dcmodel)
			if len(x.r) == 0 {
				return panicked
			}
			l := x.r[len(x.r)-1]
			x.r = x.r[:len(x.r)-1]
			return !panicked && got == l
		}}
	case 3:
		var got xcore.XDatasetDef
		panicked := false
		return &lop{run: func() {
			defer func() { panicked = recover() != nil }()
			got = c.Shift()
		}, step: func(m lmodel) bool {
			x := m.(*dcmodel)
			if len(x.r) == 0 {
				return panicked
			}
			l := x.r[0]
			x.r = x.r[1:]
			return !panicked && got == l
		}}
	case 4:
		n := 0
		return &lop{run: func() { n = c.Count() }, step: func(m lmodel) bool { return n == len(m.(*dcmodel).r) }}
	case 5:
		i := vrt.Choose("index", 2)
		var got xcore.XDatasetDef
		var ok bool
		return &lop{run: func() { got, ok = c.Get(i) }, step: func(m lmodel) bool {
			x := m.(*dcmodel)
			if i >= len(x.r) {
				return got == nil && !ok
			}
			return ok && got == x.r[i]
		}}
	case 6:
		var got interface{}
		var ok bool
		return &lop{run: func() { got, ok = c.GetData("id") }, step: func(m lmodel) bool {
			x := m.(*dcmodel)
			if len(x.r) == 0 {
				return got == nil && !ok
			}
			return vrt.And(ok, got == valueOf(x.r[len(x.r)-1]))
		}}
	case 7:
		var ids []int
		return &lop{run: func() {
			cl := c.Clone()
			for i := 0; i < cl.Count(); i++ {
				r, _ := cl.Get(i)
				ids = append(ids, valueOf(r))
			}
		}, step: func(m lmodel) bool {
			x := m.(*dcmodel)
			if len(ids) != len(x.r) {
				return false
			}
			ok := true
			for i := range ids {
				ok = vrt.And(ok, ids[i] == valueOf(x.r[i]))
			}
			return ok
		}}
	}
	// a lookup that finds nothing reads every record
	found := false
	return &lop{run: func() {
		_, o1 := c.GetDataString("none")
		found = o1
	}, step: func(m lmodel) bool { return !found }}
}

func dcConcurrent(prefill int, progs func(c xcore.XDatasetCollectionDef) [][]*lop) {
	c := newDC(true)
	m := &dcmodel{}
	for i := 0; i < prefill; i++ {
		r := newDS(false)
		r.Set("id", anyInt("stored"))
		c.Push(r)
		m.r = append(m.r, r)
	}
	ops := concurrently(progs(c)...)
	var left []xcore.XDatasetDef
	for i := 0; i < c.Count(); i++ {
		r, _ := c.Get(i)
		left = append(left, r)
	}
	vrt.Assert(lin(m, ops, func(m lmodel) bool {
		x := m.(*dcmodel)
		if len(x.r) != len(left) {
			return false
		}
		for i := range left {
			if left[i] != x.r[i] {
				return false
			}
		}
		return true
	}), "the results on the collection are not those of any sequential order")
}

// C14_collection: two goroutines, two operations against one.
func C14_collection() {
	vrt.Preempt(vrt.Bound("preemptions", 3, 6))
	dcConcurrent(vrt.Choose("prefill", 3), func(c xcore.XDatasetCollectionDef) [][]*lop {
		return [][]*lop{{dcOp(c, 9), dcOp(c, vrt.Bound("second_kinds", 4, 9))}, {dcOp(c, 9)}}
	})
}

// C14_lookups: every read next to every write of a collection.
func C14_lookups() {
	c := newDC(true)
	r := newDS(true)
	r.Set("a", 1)
	c.Push(r)
	c.Push(newDS(true))
	g := vrt.Choose("read", 9)
	q := plainKey("q", 1, 1)
	vrt.Go(func() {
		switch g {
		case 0:
			c.String()
		case 1:
			c.GoString()
		case 2:
			c.GetDataString(q)
		case 3:
			c.GetDataBool(q)
		case 4:
			c.GetDataInt(q)
		case 5:
			c.GetDataFloat(q)
		case 6:
			c.GetDataTime(q)
		case 7:
			c.GetCollection(q)
		case 8:
			c.Clone()
		}
	})
	w := vrt.Choose("write", 5)
	vrt.Go(func() {
		switch w {
		case 0:
			c.Pop()
			c.Pop()
		case 1:
			c.Shift()
			c.Shift()
		case 2:
			c.Push(newDS(true))
		case 3:
			c.Unshift(newDS(true))
		case 4:
			c.Pop()
			c.Push(newDS(true))
		}
	})
	vrt.Join()
	vrt.Assert(c.Count() == []int{0, 0, 3, 3, 2}[w], "a write is lost")
}

// C14_recovered: after a recovered panic the collection is still usable.
func C14_recovered() {
	c := newDC(true)
	pop := vrt.Choose("op", 2) == 0
	func() {
		defer func() { recover() }()
		if pop {
			c.Pop()
		} else {
			c.Shift()
		}
	}()
	v := anyInt("v")
	r := newDS(false)
	r.Set("id", v)
	c.Push(r)
	got, ok := c.GetDataInt("id")
	vrt.Assert(ok && got == v && c.Count() == 1, "the collection is not usable after a recovered panic")
}
