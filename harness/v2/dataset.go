package zzvh

import (
	"fmt"
	"time"

	xcore "github.com/webability-go/xcore/v2"
	vrt "github.com/webability-go/xcore/v2/zzvrt"
)

// node mirrors one object of a nested structure.
type node struct {
	kind int // 0 leaf, 1 dataset, 2 collection
	obj  interface{}
	keys []string
	kids []*node
}

func leaf(v interface{}) *node { return &node{obj: v} }

// ds builds a dataset node; a key given twice keeps its last value.
func ds(ts bool, keys []string, kids []*node) *node {
	d := newDS(ts)
	n := &node{kind: 1, obj: d}
	for i, k := range keys {
		d.Set(k, kids[i].obj)
		j := 0
		for j < len(n.keys) && n.keys[j] != k {
			j++
		}
		if j < len(n.keys) {
			n.kids[j] = kids[i]
			continue
		}
		n.keys = append(n.keys, k)
		n.kids = append(n.kids, kids[i])
	}
	return n
}

func dc(ts bool, kids ...*node) *node {
	c := newDC(ts)
	for _, k := range kids {
		c.Push(k.obj.(xcore.XDatasetDef))
	}
	return &node{kind: 2, obj: c, kids: kids}
}

// index reads a 0-based decimal index: -1 if it is none, -2 for the spellings
// that are left open (signs and superfluous zeroes).
func index(s string) int {
	if len(s) == 0 {
		return -1
	}
	v := 0
	for i := 0; i < len(s); i++ {
		if i == 0 && len(s) > 1 && (s[i] == '+' || s[i] == '-' || s[i] == '0') {
			return -2
		}
		if s[i] < '0' || s[i] > '9' {
			return -1
		}
		v = v*10 + int(s[i]-'0')
	}
	return v
}

// walk resolves the segments one at a time.
func (n *node) walk(segs []string) (v interface{}, ok bool, open bool) {
	for _, s := range segs {
		var next *node
		switch n.kind {
		case 1:
			for i, k := range n.keys {
				if k == s {
					next = n.kids[i]
				}
			}
		case 2:
			i := index(s)
			if i == -2 {
				return nil, false, true
			}
			if i >= 0 && i < len(n.kids) {
				next = n.kids[i]
			}
		}
		if next == nil {
			return nil, false, false
		}
		n = next
	}
	return n.obj, true, false
}

func split(s string) []string {
	var out []string
	at := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '>' {
			out = append(out, s[at:i])
			at = i + 1
		}
	}
	return append(out, s[at:])
}

// checkPath compares Get and one typed getter with the walked value.
func checkPath(n *node, path string, segs []string) {
	d := n.obj.(xcore.XDatasetDef)
	want, wok, open := n.walk(segs)
	got, ok := d.Get(path)
	if open {
		return
	}
	vrt.Observe(ok)
	vrt.Assert(ok == wok, "Get of a path reports presence wrongly")
	vrt.Assert(got == want, "Get of a path returns a wrong value")
	if wok {
		vrt.Cover("found")
	} else {
		vrt.Cover("missing")
	}
	flat := &xcore.XDataset{}
	if wok {
		flat.Set("x", want)
	}
	for g := 0; g < 12; g++ {
		sameGetter(g, d, path, flat, "x", "a typed getter called with a path differs from the value of the path")
	}
}

// sameGetter compares one typed getter on two datasets.
func sameGetter(g int, a xcore.XDatasetDef, ka string, b xcore.XDatasetDef, kb string, msg string) {
	switch g {
	case 0:
		x, xo := a.GetString(ka)
		y, yo := b.GetString(kb)
		vrt.Assert(vrt.And(xo == yo, x == y), msg)
	case 1:
		x, xo := a.GetBool(ka)
		y, yo := b.GetBool(kb)
		vrt.Assert(vrt.And(xo == yo, x == y), msg)
	case 2:
		x, xo := a.GetInt(ka)
		y, yo := b.GetInt(kb)
		vrt.Assert(vrt.And(xo == yo, x == y), msg)
	case 3:
		x, xo := a.GetFloat(ka)
		y, yo := b.GetFloat(kb)
		vrt.Assert(vrt.And(xo == yo, vrt.Or(x == y, vrt.And(x != x, y != y))), msg)
	case 4:
		x, xo := a.GetTime(ka)
		y, yo := b.GetTime(kb)
		vrt.Assert(vrt.And(xo == yo, x.Equal(y)), msg)
	case 5:
		x, xo := a.GetDataset(ka)
		y, yo := b.GetDataset(kb)
		vrt.Assert(vrt.And(xo == yo, x == y), msg)
	case 6:
		x, xo := a.GetCollection(ka)
		y, yo := b.GetCollection(kb)
		vrt.Assert(vrt.And(xo == yo, x == y), msg)
	case 7:
		x, xo := a.GetStringCollection(ka)
		y, yo := b.GetStringCollection(kb)
		vrt.Assert(vrt.And(xo == yo, sameVal(x, y)), msg)
	case 8:
		x, xo := a.GetBoolCollection(ka)
		y, yo := b.GetBoolCollection(kb)
		vrt.Assert(vrt.And(xo == yo, sameVal(x, y)), msg)
	case 9:
		x, xo := a.GetIntCollection(ka)
		y, yo := b.GetIntCollection(kb)
		vrt.Assert(vrt.And(xo == yo, sameVal(x, y)), msg)
	case 10:
		x, xo := a.GetFloatCollection(ka)
		y, yo := b.GetFloatCollection(kb)
		vrt.Assert(vrt.And(xo == yo, sameVal(x, y)), msg)
	case 11:
		x, xo := a.GetTimeCollection(ka)
		y, yo := b.GetTimeCollection(kb)
		vrt.Assert(vrt.And(xo == yo, sameVal(x, y)), msg)
	}
}

// sameVal compares two values of any of the kinds that are used here.
func sameVal(a, b interface{}) bool {
	switch x := a.(type) {
	case []string:
		y, ok := b.([]string)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = vrt.And(r, x[i] == y[i])
		}
		return r
	case []bool:
		y, ok := b.([]bool)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = vrt.And(r, x[i] == y[i])
		}
		return r
	case []int:
		y, ok := b.([]int)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = vrt.And(r, x[i] == y[i])
		}
		return r
	case []float64:
		y, ok := b.([]float64)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = vrt.And(r, sameFloat(x[i], y[i]))
		}
		return r
	case []time.Time:
		y, ok := b.([]time.Time)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = vrt.And(r, x[i].Equal(y[i]))
		}
		return r
	case float64:
		y, ok := b.(float64)
		return ok && sameFloat(x, y)
	case float32:
		y, ok := b.(float32)
		return ok && sameFloat(float64(x), float64(y))
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	}
	switch b.(type) {
	case []string, []bool, []int, []float64, []time.Time:
		return false
	}
	return a == b
}

func sameFloat(x, y float64) bool { return vrt.Or(x == y, vrt.And(x != x, y != y)) }

// C08_paths: structured paths over nested structures with symbolic keys.
func C08_paths() {
	ts := vrt.Choose("ts", 2) == 1
	k := func() string { return plainKey("k", 0, 1) }
	v := func() *node {
		switch vrt.Choose("v_kind", 5) {
		case 0:
			return leaf(vrt.Int("v", -99, 99))
		case 1:
			return leaf(vrt.Str("v", 0, 1, 0, 255))
		case 2:
			return leaf(vrt.Bool("v"))
		case 3:
			return leaf(time.Unix(3, 0))
		}
		return leaf(nil)
	}
	var inner *node
	switch vrt.Choose("shape", 4) {
	case 0: // a dataset in a dataset in a dataset
		inner = ds(!ts, []string{k()}, []*node{ds(ts, []string{k()}, []*node{v()})})
	case 1: // a collection of datasets
		inner = dc(ts, ds(!ts, []string{k()}, []*node{v()}), ds(ts, nil, nil))
	case 2: // a collection in a record of a collection
		inner = dc(!ts, ds(ts, []string{k()}, []*node{dc(ts, ds(ts, []string{k()}, []*node{v()}))}))
	case 3:
		inner = v()
	}
	root := ds(ts, []string{k()}, []*node{inner})
	n := vrt.Choose("segments", vrt.Bound("segments", 4, 5)) + 1
	var segs []string
	path := ""
	for i := 0; i < n; i++ {
		s := plainKey("segment", 0, 1)
		segs = append(segs, s)
		if i > 0 {
			path += ">"
		}
		path += s
	}
	checkPath(root, path, segs)
}

// C08_index: a segment on a collection of several records.
func C08_index() {
	ts := vrt.Choose("ts", 2) == 1
	n := vrt.Choose("records", 4)
	if vrt.Choose("many", 2) == 1 {
		n += 9
	}
	var recs []*node
	for i := 0; i < n; i++ {
		recs = append(recs, ds(ts, []string{"v"}, []*node{leaf(100 + i)}))
	}
	root := ds(ts, []string{"c", "d"}, []*node{dc(ts, recs...), leaf(1)})
	seg := plainKey("index", 0, vrt.Bound("index_bytes", 2, 3))
	if vrt.Choose("deep", 2) == 1 {
		checkPath(root, "c>"+seg+">v", []string{"c", seg, "v"})
	} else {
		checkPath(root, "c>"+seg, []string{"c", seg})
	}
}

// C08_raw: any string is a harmless path.
func C08_raw() {
	n := vrt.Bound("path_bytes", 4, 5)
	ts := vrt.Choose("ts", 2) == 1
	root := ds(ts, []string{"a", "b", "", "c"}, []*node{
		ds(ts, []string{"a", ""}, []*node{leaf(1), leaf(2)}),
		dc(ts, ds(ts, []string{"a", "b"}, []*node{leaf(3), leaf(nil)}), ds(ts, nil, nil)),
		leaf("x"),
		leaf(5),
	})
	path := vrt.Str("path", 0, n, 0, 255)
	checkPath(root, path, split(path))
}

// anyValue is a value of any kind with symbolic content.
func anyValue(name string, kind int) interface{} {
	switch kind {
	case 0:
		return vrt.Bool(name)
	case 1:
		return anyInt(name)
	case 2:
		return int8(vrt.Int(name, -128, 127))
	case 3:
		return int16(vrt.Int(name, -32768, 32767))
	case 4:
		return int32(vrt.Int(name, -1<<31, 1<<31-1))
	case 5:
		return int64(anyInt(name))
	case 6:
		return uint(anyInt(name))
	case 7:
		return uint8(vrt.Int(name, 0, 255))
	case 8:
		return uint16(vrt.Int(name, 0, 65535))
	case 9:
		return uint32(vrt.Int(name, 0, 1<<32-1))
	case 10:
		return uint64(anyInt(name))
	case 11:
		return float32(vrt.Float(name))
	case 12:
		return vrt.Float(name)
	case 13:
		return vrt.Time(name)
	case 14:
		return time.Time{}
	case 15:
		return nil
	case 16:
		return vrt.Str(name, 0, 2, 0, 255)
	case 17:
		return []string{vrt.Str(name, 0, 1, 0, 255), "s"}
	case 18:
		return []bool{vrt.Bool(name)}
	case 19:
		return []int{anyInt(name), 7}
	case 20:
		return []float64{vrt.Float(name)}
	case 21:
		return []time.Time{vrt.Time(name)}
	case 22:
		return newDS(false)
	case 23:
		return newDS(true)
	case 24:
		return newDC(false)
	}
	return newDC(true)
}

const allKinds = 26

// number is the documented conversion of a stored value.
func number(v interface{}) (b bool, i int, f float64, ok bool) {
	switch x := v.(type) {
	case bool:
		b, ok = x, true
		if x {
			i, f = 1, 1
		}
	case int:
		b, i, f, ok = x != 0, x, float64(x), true
	case int8:
		b, i, f, ok = x != 0, int(x), float64(x), true
	case int16:
		b, i, f, ok = x != 0, int(x), float64(x), true
	case int32:
		b, i, f, ok = x != 0, int(x), float64(x), true
	case int64:
		b, i, f, ok = x != 0, int(x), float64(x), true
	case uint:
		b, i, f, ok = x != 0, int(x), float64(x), true
	case uint8:
		b, i, f, ok = x != 0, int(x), float64(x), true
	case uint16:
		b, i, f, ok = x != 0, int(x), float64(x), true
	case uint32:
		b, i, f, ok = x != 0, int(x), float64(x), true
	case uint64:
		b, i, f, ok = x != 0, int(x), float64(x), true
	case float32:
		b, i, f, ok = x != 0, int(x), float64(x), true
	case float64:
		b, i, f, ok = x != 0, int(x), x, true
	case time.Time:
		if !x.IsZero() {
			b, i, f = true, int(x.Unix()), float64(x.Unix())
		}
		ok = true
	case nil:
	default:
		b = true
	}
	return
}

// C09_numbers: GetBool, GetInt and GetFloat of every kind of value.
func C09_numbers() {
	d := newDS(vrt.Choose("ts", 2) == 1)
	v := anyValue("v", vrt.Choose("kind", allKinds))
	d.Set("k", v)
	b, i, f, ok := number(v)
	switch vrt.Choose("getter", 3) {
	case 0:
		got, gok := d.GetBool("k")
		vrt.Observe(got, gok)
		vrt.Assert(gok, "GetBool of a present key is not reported")
		vrt.Assert(got == b, "GetBool returns a wrong value")
	case 1:
		got, gok := d.GetInt("k")
		vrt.Observe(got, gok)
		vrt.Assert(gok == ok, "GetInt reports the conversion wrongly")
		vrt.Assert(got == i, "GetInt returns a wrong value")
	case 2:
		got, gok := d.GetFloat("k")
		vrt.Observe(gok)
		vrt.Assert(gok == ok, "GetFloat reports the conversion wrongly")
		vrt.Assert(sameFloat(got, f), "GetFloat returns a wrong value")
	}
}

// C09_typed: the getters that do not convert.
func C09_typed() {
	d := newDS(vrt.Choose("ts", 2) == 1)
	v := anyValue("v", vrt.Choose("kind", allKinds))
	d.Set("k", v)
	g := vrt.Choose("getter", 9)
	switch g {
	case 0:
		got, ok := d.GetTime("k")
		want, wok := v.(time.Time)
		vrt.Assert(ok == wok && got.Equal(want), "GetTime returns a wrong value")
	case 1:
		got, ok := d.GetStringCollection("k")
		want, wok := v.([]string)
		vrt.Assert(ok == wok && sameVal(got, want), "GetStringCollection returns a wrong value")
	case 2:
		got, ok := d.GetBoolCollection("k")
		want, wok := v.([]bool)
		vrt.Assert(ok == wok && sameVal(got, want), "GetBoolCollection returns a wrong value")
	case 3:
		got, ok := d.GetIntCollection("k")
		want, wok := v.([]int)
		vrt.Assert(ok == wok && sameVal(got, want), "GetIntCollection returns a wrong value")
	case 4:
		got, ok := d.GetFloatCollection("k")
		want, wok := v.([]float64)
		vrt.Assert(ok == wok && sameVal(got, want), "GetFloatCollection returns a wrong value")
	case 5:
		got, ok := d.GetTimeCollection("k")
		want, wok := v.([]time.Time)
		vrt.Assert(ok == wok && sameVal(got, want), "GetTimeCollection returns a wrong value")
	case 6:
		got, ok := d.GetDataset("k")
		want, wok := v.(xcore.XDatasetDef)
		vrt.Assert(ok == wok && got == want, "GetDataset returns a wrong value")
	case 7:
		got, ok := d.GetCollection("k")
		want, wok := v.(xcore.XDatasetCollectionDef)
		vrt.Assert(ok == wok && got == want, "GetCollection returns a wrong value")
	case 8:
		want := ""
		switch v.(type) {
		case float32, float64, []float64:
			fs := []float64{0, 1, -1.5, 1e21, 0.1, 123456789}
			f := fs[vrt.Choose("float", len(fs))]
			switch v.(type) {
			case float32:
				v = float32(f)
			case float64:
				v = f
			default:
				v = []float64{f}
			}
			d.Set("k", v)
		case time.Time, []time.Time:
			v = time.Unix(int64(vrt.Choose("time", 3))*1000000, 5).UTC()
			d.Set("k", v)
		}
		if v != nil {
			want = fmt.Sprint(v)
		}
		got, ok := d.GetString("k")
		vrt.Observe(got)
		vrt.Assert(ok && got == want, "GetString returns a wrong value")
	}
}

// C09_absent: every getter of an absent key.
func C09_absent() {
	d := newDS(vrt.Choose("ts", 2) == 1)
	d.Set("k", anyInt("v"))
	q := plainKey("q", 0, 2)
	vrt.Assume(q != "k")
	e := &xcore.XDataset{}
	g := vrt.Choose("getter", 12)
	sameGetter(g, d, q, e, "x", "a getter of an absent key returns something")
	v, ok := d.Get(q)
	vrt.Assert(v == nil && !ok, "a getter of an absent key returns something")
	s, ok := d.GetString(q)
	vrt.Assert(s == "" && !ok, "a getter of an absent key returns something")
	i, ok := d.GetInt(q)
	vrt.Assert(i == 0 && !ok, "a getter of an absent key returns something")
	b, ok := d.GetBool(q)
	vrt.Assert(!b && !ok, "a getter of an absent key returns something")
	f, ok := d.GetFloat(q)
	vrt.Assert(f == 0 && !ok, "a getter of an absent key returns something")
	t, ok := d.GetTime(q)
	vrt.Assert(t.IsZero() && !ok, "a getter of an absent key returns something")
	ds, ok := d.GetDataset(q)
	vrt.Assert(ds == nil && !ok, "a getter of an absent key returns something")
	dc, ok := d.GetCollection(q)
	vrt.Assert(dc == nil && !ok, "a getter of an absent key returns something")
}
