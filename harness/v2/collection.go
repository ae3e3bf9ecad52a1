package zzvh

import (
	"fmt"
	"time"

	xcore "github.com/webability-go/xcore/v2"
	vrt "github.com/webability-go/xcore/v2/zzvrt"
)

// tree is a nested structure of known shape: every dataset has the leaf "v",
// the slice "s" and perhaps the child "c".
func tree(depth int, kind int) interface{} {
	if kind >= 2 {
		c := newDC(kind == 3)
		n := 1
		if depth > 1 {
			n = 2
		}
		for i := 0; i < n; i++ {
			r := newDS(vrt.Choose("record_ts", 2) == 1)
			fillDS(r, depth-1, i == 0)
			c.Push(r)
		}
		return c
	}
	d := newDS(kind == 1)
	fillDS(d, depth, true)
	return d
}

func fillDS(d xcore.XDatasetDef, depth int, deep bool) {
	d.Set("v", anyInt("leaf"))
	d.Set("s", []int{anyInt("leaf"), 2})
	if depth > 0 && deep {
		k := vrt.Choose("child", 5)
		if k < 4 {
			d.Set("c", tree(depth-1, k))
		}
	}
}

// all lists the content of a tree in a fixed order.
func all(x interface{}, out []interface{}) []interface{} {
	switch o := x.(type) {
	case xcore.XDatasetDef:
		kind := 0
		if _, ok := o.(*xcore.XDatasetTS); ok {
			kind = 1
		}
		out = append(out, kind)
		for _, k := range []string{"v", "s", "c", "n"} {
			v, ok := o.Get(k)
			out = append(out, ok)
			if s, is := v.([]int); is {
				for _, e := range s {
					out = append(out, e)
				}
			} else {
				out = all(v, out)
			}
		}
	case xcore.XDatasetCollectionDef:
		kind := 2
		if _, ok := o.(*xcore.XDatasetCollectionTS); ok {
			kind = 3
		}
		out = append(out, kind, o.Count())
		for i := 0; i < o.Count(); i++ {
			r, _ := o.Get(i)
			out = all(r, out)
		}
	default:
		out = append(out, x)
	}
	return out
}

func sameList(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vrt.And(r, a[i] == b[i])
	}
	return r
}

func cloneOf(x interface{}) interface{} {
	switch o := x.(type) {
	case xcore.XDatasetDef:
		return o.Clone()
	case xcore.XDatasetCollectionDef:
		return o.Clone()
	}
	return nil
}

// descend goes down to the node that is mutated.
func descend(x interface{}) interface{} {
	for {
		if vrt.Choose("here", 2) == 0 {
			return x
		}
		switch o := x.(type) {
		case xcore.XDatasetDef:
			v, ok := o.Get("c")
			if !ok {
				return x
			}
			x = v
		case xcore.XDatasetCollectionDef:
			if o.Count() == 0 {
				return x
			}
			x, _ = o.Get(0)
		}
	}
}

func mutate(x interface{}) {
	switch o := x.(type) {
	case xcore.XDatasetDef:
		switch vrt.Choose("mutation", 4) {
		case 0:
			o.Set(plainKey("key", 1, 1), anyInt("new"))
		case 1:
			o.Set("s", []int{anyInt("new")})
		case 2:
			o.Del(plainKey("key", 1, 1))
		case 3:
			s, _ := o.GetIntCollection("s")
			s[0] = anyInt("new")
		}
	case xcore.XDatasetCollectionDef:
		switch vrt.Choose("mutation", 5) {
		case 0:
			o.Push(newDS(false))
		case 1:
			o.Unshift(newDS(true))
		case 2:
			o.Pop()
		case 3:
			o.Shift()
		case 4:
			o.Pop()
			o.Push(newDS(false))
		}
	}
}

// C10_clone: a clone equals the original; then a change on one side is not
// seen on the other.
func C10_clone() {
	x := tree(vrt.Bound("depth", 2, 3), vrt.Choose("kind", 4))
	before := all(x, nil)
	y := cloneOf(x)
	copied := all(y, nil)
	vrt.Assert(sameList(before, copied), "the clone differs from the original")
	vrt.Assert(sameList(before, all(x, nil)), "Clone modifies the original")
	if vrt.Choose("side", 2) == 0 {
		mutate(descend(x))
		vrt.Assert(sameList(before, all(y, nil)), "a change of the original is visible in the clone")
	} else {
		mutate(descend(y))
		vrt.Assert(sameList(before, all(x, nil)), "a change of the clone is visible in the original")
	}
}

// C10_wide: many records and many keys, each of them independent.
func C10_wide() {
	n := vrt.Choose("records", vrt.Bound("records", 6, 13))
	c := newDC(vrt.Choose("ts", 2) == 1)
	for i := 0; i < n; i++ {
		d := newDS(i%2 == 1)
		d.Set("v", i)
		d.Set("s", []int{i, 2})
		sub := newDC(i%2 == 0)
		for j := 0; j < i; j++ {
			r := newDS(false)
			r.Set("v", j)
			sub.Push(r)
		}
		d.Set("c", sub)
		e := newDS(true)
		e.Set("v", "e")
		d.Set("n", e)
		c.Push(d)
	}
	if vrt.Choose("popped", 2) == 1 {
		// room left in the slice of records
		c.Push(newDS(false))
		c.Pop()
	}
	before := all(c, nil)
	x, y := c, c.Clone()
	vrt.Assert(sameList(before, all(y, nil)), "the clone differs from the original")
	if vrt.Choose("side", 2) == 1 {
		x, y = y, x
	}
	switch vrt.Choose("change", 2) {
	case 0:
		x.Push(newDS(true))
		y.Push(newDS(false))
		x.Pop()
		r, ok := y.Get(n)
		_, isTS := r.(*xcore.XDatasetTS)
		vrt.Assert(ok && !isTS, "a record pushed on one side changes the other")
		y.Pop()
	default:
		i := vrt.Int("at", 0, n)
		if i < n {
			r, _ := x.Get(i)
			switch vrt.Choose("what", 5) {
			case 0:
				r.Set("v", anyInt("new"))
			case 1:
				s, _ := r.GetIntCollection("s")
				s[1] = anyInt("new")
			case 2:
				e, _ := r.GetDataset("n")
				e.Set("v", anyInt("new"))
			case 3:
				sub, _ := r.GetCollection("c")
				if i > 0 {
					e, _ := sub.Get(vrt.Int("sub", 0, i-1))
					e.Set("v", anyInt("new"))
				}
				sub.Push(newDS(false))
			default:
				r.Del("c")
			}
		}
	}
	vrt.Assert(sameList(before, all(y, nil)), "a change of one side is visible in the other")
}

// C10_values: the clone answers every getter alike, for every kind of value,
// and does not share slices.
func C10_values() {
	ts := vrt.Choose("ts", 2) == 1
	d := newDS(ts)
	kind := vrt.Choose("kind", allKinds)
	v := anyValue("v", kind)
	k := plainKey("k", 0, 1)
	d.Set(k, v)
	wrap := vrt.Choose("in_collection", 3)
	var e xcore.XDatasetDef
	if wrap > 0 {
		c := newDC(wrap == 2)
		c.Push(d)
		cc := c.Clone()
		_, isTS := cc.(*xcore.XDatasetCollectionTS)
		vrt.Assert(isTS == (wrap == 2), "Clone changes the kind of the collection")
		vrt.Assert(cc.Count() == 1, "the clone has another number of records")
		e, _ = cc.Get(0)
		vrt.Assert(e != nil, "the clone has lost a record")
	} else {
		e = d.Clone()
	}
	_, isTS := e.(*xcore.XDatasetTS)
	vrt.Assert(isTS == ts, "Clone changes the kind of the dataset")
	w, ok := e.Get(k)
	vrt.Assert(ok, "the clone has lost a key")
	_, ok = e.Get(k + "x")
	vrt.Assert(!ok, "the clone has another key")
	if kind < 22 {
		vrt.Assert(sameVal(v, w), "the clone has another value")
	} else {
		vrt.Assert(v != w, "the clone shares a nested object")
	}
	switch s := w.(type) {
	case []string:
		s[0] = vrt.Str("new", 0, 2, 0, 255)
		vrt.Assert(len(s) == 2 && s[1] == "s", "the clone has another slice")
		o, _ := d.GetStringCollection(k)
		vrt.Assert(sameVal(o, v), "a write into the slice of the clone changes the original")
		o[1] = "t"
		vrt.Assert(s[1] == "s", "a write into the slice of the original changes the clone")
	case []bool:
		old := s[0]
		s[0] = !s[0]
		o, _ := d.GetBoolCollection(k)
		vrt.Assert(o[0] == old, "a write into the slice of the clone changes the original")
	case []int:
		old := s[0]
		s[0] = anyInt("new")
		o, _ := d.GetIntCollection(k)
		vrt.Assert(o[0] == old, "a write into the slice of the clone changes the original")
	case []float64:
		old := s[0]
		s[0] = vrt.Float("new")
		o, _ := d.GetFloatCollection(k)
		vrt.Assert(sameFloat(o[0], old), "a write into the slice of the clone changes the original")
	case []time.Time:
		old := s[0]
		s[0] = vrt.Time("new")
		o, _ := d.GetTimeCollection(k)
		vrt.Assert(o[0].Equal(old), "a write into the slice of the clone changes the original")
	}
}

// record is a distinguishable dataset.
func record(id int) xcore.XDatasetDef {
	d := newDS(id%2 == 1)
	d.Set("id", id)
	return d
}

// sameRecords compares a collection with the reference list.
func sameRecords(c xcore.XDatasetCollectionDef, want []xcore.XDatasetDef, msg string) {
	vrt.Assert(c.Count() == len(want), msg+": wrong Count")
	for i, w := range want {
		r, ok := c.Get(i)
		vrt.Assert(ok && r == w, msg+": wrong record")
	}
}

// C11_history: any history of a collection behaves like a list.
func C11_history() {
	n := vrt.Bound("operations", 5, 6)
	c := newDC(vrt.Choose("ts", 2) == 1)
	var m []xcore.XDatasetDef
	at := vrt.Choose("clone_at", n+1)
	var cl xcore.XDatasetCollectionDef
	count := 0
	for i := 0; i < n; i++ {
		if i == at {
			cl = c.Clone()
			count = len(m)
		}
		r := record(i)
		ops := 4
		if len(m) == 0 {
			ops = 2 // Pop and Shift of an empty collection panic
		}
		switch vrt.Choose("op", ops) {
		case 0:
			c.Push(r)
			m = append(m[:len(m):len(m)], r)
		case 1:
			c.Unshift(r)
			m = append([]xcore.XDatasetDef{r}, m...)
		case 2:
			got := c.Pop()
			vrt.Assert(got == m[len(m)-1], "Pop does not return the last record")
			m = m[:len(m)-1]
		case 3:
			got := c.Shift()
			vrt.Assert(got == m[0], "Shift does not return the first record")
			m = m[1:]
		}
	}
	sameRecords(c, m, "after a history")
	if cl != nil {
		vrt.Assert(cl.Count() == count, "a clone taken before is altered")
	}
	i := anyInt("index")
	r, ok := c.Get(i)
	vrt.Observe(c.Count(), ok)
	if i >= 0 && i < len(m) {
		vrt.Cover("inside")
		vrt.Assert(ok && r == m[i], "Get does not return the record")
	} else {
		vrt.Cover("outside")
		vrt.Assert(!ok && r == nil, "Get of an index out of range returns something")
	}
}

// C11_records: the records are kept as they are, a clone keeps its own.
func C11_records() {
	ts := vrt.Choose("ts", 2) == 1
	n := vrt.Choose("records", vrt.Bound("records", 4, 6)) + 1
	c := newDC(ts)
	var vals []int
	for i := 0; i < n; i++ {
		v := anyInt("v")
		d := newDS(vrt.Choose("record_ts", 2) == 1)
		d.Set("id", v)
		if vrt.Choose("end", 2) == 0 {
			c.Push(d)
			vals = append(vals, v)
		} else {
			c.Unshift(d)
			vals = append([]int{v}, vals...)
		}
	}
	cl := c.Clone()
	if vrt.Choose("take", 2) == 0 {
		c.Pop()
	} else {
		c.Shift()
	}
	c.Push(newDS(false))
	c.Unshift(newDS(false))
	vrt.Assert(cl.Count() == n, "a clone taken before is altered")
	for i, v := range vals {
		r, ok := cl.Get(i)
		vrt.Assert(ok, "a clone taken before is altered")
		got, _ := r.GetInt("id")
		vrt.Assert(got == v, "a clone taken before is altered")
	}
}

// C12_lookup: every lookup function against the walk from the last record.
func C12_lookup() {
	ts := vrt.Choose("ts", 2) == 1
	n := vrt.Bound("records", 2, 3)
	c := newDC(ts)
	var keys []string
	var vals []interface{}
	var recs []xcore.XDatasetDef
	recKinds := []int{0, 1, 2, 5, 11, 12, 13, 14, 15, 16, 19, 22, 24, 25}
	for i := 0; i < n; i++ {
		d := newDS(vrt.Choose("record_ts", 2) == 1)
		k := plainKey("k", 0, 1)
		var v interface{}
		if i == n-1 {
			v = anyValue("v", recKinds[vrt.Choose("kind", len(recKinds))])
		} else {
			v = vrt.Int("v", -9, 99)
		}
		d.Set(k, v)
		c.Push(d)
		recs = append(recs, d)
		keys = append(keys, k)
		vals = append(vals, v)
	}
	q := plainKey("q", 0, 1)
	var want interface{}
	wok := false
	for i := n - 1; i >= 0; i-- {
		if keys[i] == q {
			want, wok = vals[i], true
			break
		}
	}
	checkLookups(c, q, want, wok)
	sameRecords(c, recs, "a lookup modifies the collection")
	for i, d := range recs {
		v, ok := d.Get(keys[i])
		vrt.Assert(ok && sameVal(v, vals[i]), "a lookup modifies a record")
	}
}

func checkLookups(c xcore.XDatasetCollectionDef, q string, want interface{}, wok bool) {
	got, ok := c.GetData(q)
	vrt.Assert(ok == wok, "GetData reports presence wrongly")
	vrt.Assert(sameVal(got, want), "GetData returns a wrong value")
	b, ok := c.GetDataBool(q)
	wb, isb := want.(bool)
	vrt.Assert(ok == isb && b == wb, "GetDataBool returns a wrong value")
	i, ok := c.GetDataInt(q)
	wi, isi := want.(int)
	vrt.Assert(ok == isi, "GetDataInt reports the type wrongly")
	vrt.Assert(i == wi, "GetDataInt returns a wrong value")
	f, ok := c.GetDataFloat(q)
	wf, isf := want.(float64)
	vrt.Assert(ok == isf, "GetDataFloat reports the type wrongly")
	vrt.Assert(sameFloat(f, wf), "GetDataFloat returns a wrong value")
	t, ok := c.GetDataTime(q)
	wt, ist := want.(time.Time)
	vrt.Assert(ok == ist, "GetDataTime reports the type wrongly")
	vrt.Assert(t.Equal(wt), "GetDataTime returns a wrong value")
	cc, ok := c.GetCollection(q)
	wc, isc := want.(xcore.XDatasetCollectionDef)
	vrt.Assert(ok == isc && cc == wc, "GetCollection returns a wrong value")
	switch want.(type) {
	case float32, float64, time.Time, int16, int32, int64:
		return // GetDataString of these in C12_string
	}
	ws := ""
	if want != nil {
		ws = fmt.Sprint(want)
	}
	s, ok := c.GetDataString(q)
	vrt.Assert(ok == wok, "GetDataString reports presence wrongly")
	vrt.Assert(s == ws, "GetDataString returns a wrong value")
}

// C12_string: GetDataString of the values that format at length.
func C12_string() {
	c := newDC(vrt.Choose("ts", 2) == 1)
	d := newDS(false)
	var v interface{}
	switch vrt.Choose("kind", 5) {
	case 0:
		v = anyInt("v")
	case 1:
		v = []float64{0, 1, -1.5, 1e21, 0.1}[vrt.Choose("float", 5)]
	case 2:
		v = time.Unix(int64(vrt.Choose("time", 3))*1000000, 5).UTC()
	case 3:
		v = nil
	case 4:
		v = []string{vrt.Str("v", 0, 1, 0, 255), "x"}
	}
	d.Set("k", v)
	c.Push(d)
	ws := ""
	if v != nil {
		ws = fmt.Sprint(v)
	}
	s, ok := c.GetDataString("k")
	vrt.Observe(s)
	vrt.Assert(ok && s == ws, "GetDataString returns a wrong value")
}

// C12_paths: lookup keys that are paths.
func C12_paths() {
	ts := vrt.Choose("ts", 2) == 1
	c := newDC(ts)
	var nodes []*node
	n := vrt.Choose("records", 3) + 1
	for i := 0; i < n; i++ {
		var r *node
		switch vrt.Choose("shape", 3) {
		case 0:
			r = ds(ts, []string{plainKey("k", 1, 1)}, []*node{leaf(i)})
		case 1:
			r = ds(!ts, []string{"a"}, []*node{ds(ts, []string{plainKey("k", 1, 1)}, []*node{leaf(i)})})
		case 2:
			r = ds(ts, []string{"a"}, []*node{dc(ts, ds(ts, []string{plainKey("k", 1, 1)}, []*node{leaf(i)}))})
		}
		nodes = append(nodes, r)
		c.Push(r.obj.(xcore.XDatasetDef))
	}
	m := vrt.Choose("segments", 3) + 1
	var segs []string
	q := ""
	for i := 0; i < m; i++ {
		s := plainKey("segment", 0, 1)
		segs = append(segs, s)
		if i > 0 {
			q += ">"
		}
		q += s
	}
	var want interface{}
	wok := false
	for i := n - 1; i >= 0 && !wok; i-- {
		want, wok, _ = nodes[i].walk(segs)
	}
	checkLookups(c, q, want, wok)
}
