package zzvh

import (
	"fmt"
	"strings"

	xcore "github.com/webability-go/xcore/v2"
	vrt "github.com/webability-go/xcore/v2/zzvrt"
)

// gen builds a plain map with symbolic keys and the node that mirrors it (the
// objects of the node stay nil).
func gen(depth int, width int) (map[string]interface{}, *node) {
	m := map[string]interface{}{}
	n := &node{kind: 1}
	for i := 0; i < width; i++ {
		k := plainKey("key", 1, 1)
		v, kid := genValue(depth, i > 0)
		m[k] = v
		j := 0
		for j < len(n.keys) && n.keys[j] != k {
			j++
		}
		if j < len(n.keys) {
			n.kids[j] = kid
			continue
		}
		n.keys = append(n.keys, k)
		n.kids = append(n.kids, kid)
	}
	return m, n
}

func genValue(depth int, simple bool) (interface{}, *node) {
	kinds := 2
	if depth > 0 && !simple {
		kinds = 5
	}
	switch vrt.Choose("value", kinds) {
	case 0:
		v := anyInt("leaf")
		return v, leaf(v)
	case 1:
		v := []string{vrt.Str("leaf", 1, 1, 0, 255)}
		return v, leaf(v)
	case 2:
		m, n := gen(depth-1, 1)
		return m, n
	case 3:
		var l []map[string]interface{}
		n := &node{kind: 2}
		for i := vrt.Choose("records", 3); i > 0; i-- {
			m, k := gen(depth-1, 1)
			l = append(l, m)
			n.kids = append(n.kids, k)
		}
		return l, n
	}
	var l []interface{}
	n := &node{kind: 2}
	for i := vrt.Choose("records", 3); i > 0; i-- {
		m, k := gen(depth-1, 1)
		l = append(l, m)
		n.kids = append(n.kids, k)
	}
	return l, n
}

// agrees compares a dataset with the node it was built from.
func agrees(d xcore.XDatasetDef, n *node) {
	for i, k := range n.keys {
		v, ok := d.Get(k)
		vrt.Assert(ok, "a key of the map is missing")
		same(v, n.kids[i])
	}
}

// onlyThose: there is no key that the map does not have.
func onlyThose(d xcore.XDatasetDef, n *node) {
	q := plainKey("absent", 0, 1)
	for _, k := range n.keys {
		vrt.Assume(q != k)
	}
	_, ok := d.Get(q)
	vrt.Assert(!ok, "there is a key that the map does not have")
}

func same(v interface{}, n *node) {
	switch n.kind {
	case 0:
		vrt.Assert(sameVal(v, n.obj), "a value of the map was changed")
	case 1:
		d, ok := v.(xcore.XDatasetDef)
		vrt.Assert(ok, "a nested map is not a dataset")
		agrees(d, n)
	case 2:
		c, ok := v.(xcore.XDatasetCollectionDef)
		vrt.Assert(ok, "a nested list of maps is not a collection")
		vrt.Assert(c.Count() == len(n.kids), "a collection has the wrong number of records")
		for i, k := range n.kids {
			r, ok := c.Get(i)
			vrt.Assert(ok, "a record is missing")
			agrees(r, k)
		}
	}
}

// unchanged compares the argument with the node it was built from.
func unchanged(m map[string]interface{}, n *node) {
	msg := "the argument was modified"
	vrt.Assert(len(m) == len(n.keys), msg)
	for i, k := range n.keys {
		v, ok := m[k]
		vrt.Assert(ok, msg)
		kid := n.kids[i]
		switch kid.kind {
		case 0:
			vrt.Assert(sameVal(v, kid.obj), msg)
		case 1:
			mm, ok := v.(map[string]interface{})
			vrt.Assert(ok, msg)
			unchanged(mm, kid)
		case 2:
			switch l := v.(type) {
			case []map[string]interface{}:
				vrt.Assert(len(l) == len(kid.kids), msg)
				for j := range l {
					unchanged(l[j], kid.kids[j])
				}
			case []interface{}:
				vrt.Assert(len(l) == len(kid.kids), msg)
				for j := range l {
					mm, ok := l[j].(map[string]interface{})
					vrt.Assert(ok, msg)
					unchanged(mm, kid.kids[j])
				}
			default:
				vrt.Assert(false, msg)
			}
		}
	}
}

// deepest goes down to some nested object of the dataset.
func deepest(d xcore.XDatasetDef, n *node) xcore.XDatasetDef {
	for {
		if len(n.kids) == 0 || n.kids[0].kind == 0 || vrt.Choose("here", 2) == 0 {
			return d
		}
		k := n.kids[0]
		if k.kind == 1 {
			d, _ = d.GetDataset(n.keys[0])
			n = k
			continue
		}
		c, _ := d.GetCollection(n.keys[0])
		if len(k.kids) == 0 {
			c.Push(newDS(false))
			return d
		}
		d, _ = c.Get(len(k.kids) - 1)
		n = k.kids[len(k.kids)-1]
	}
}

// C15_dataset: NewXDataset of nested maps.
func C15_dataset() {
	m, n := gen(vrt.Bound("depth", 2, 3), vrt.Bound("width", 2, 2))
	d := xcore.NewXDataset(m)
	unchanged(m, n)
	agrees(d, n)
	t := deepest(d, n)
	if vrt.Choose("change", 2) == 0 {
		t.Set(plainKey("new", 1, 1), anyInt("newvalue"))
	} else {
		t.Del(plainKey("old", 1, 1))
	}
	unchanged(m, n)
}

// C15_wide: two keys at each level, in any map order.
func C15_wide() {
	vrt.MapOrder(1)
	m, n := gen(1, 2)
	d := xcore.NewXDataset(m)
	unchanged(m, n)
	agrees(d, n)
	onlyThose(d, n)
	d.Set(plainKey("new", 0, 1), 1)
	unchanged(m, n)
}

// C15_kinds: leaves of every kind are stored unchanged.
func C15_kinds() {
	v := anyValue("v", vrt.Choose("kind", allKinds))
	m := map[string]interface{}{"k": v, "l": 1}
	switch vrt.Choose("in", 2) {
	case 0:
		got, ok := xcore.NewXDataset(m).Get("k")
		vrt.Assert(ok && sameVal(got, v), "a value of the map was changed")
	case 1:
		got, ok := xcore.NewXDatasetCollection([]map[string]interface{}{{}, m}).GetData("k")
		vrt.Assert(ok && sameVal(got, v), "a value of the map was changed")
	}
}

// C15_collection: NewXDatasetCollection keeps one record per map, in order.
func C15_collection() {
	var l []map[string]interface{}
	var ns []*node
	for i := vrt.Choose("records", vrt.Bound("records", 3, 4)); i > 0; i-- {
		m, n := gen(1, 1)
		l = append(l, m)
		ns = append(ns, n)
	}
	c := xcore.NewXDatasetCollection(l)
	vrt.Assert(c.Count() == len(l), "a collection has the wrong number of records")
	for i := range l {
		d, ok := c.Get(i)
		vrt.Assert(ok, "a record is missing")
		agrees(d, ns[i])
		d.Set(plainKey("new", 1, 1), 1)
	}
	for i := range l {
		unchanged(l[i], ns[i])
	}
	if len(l) > 0 {
		c.Pop()
		c.Push(newDS(false))
		vrt.Assert(len(l) == len(ns), "the argument was modified")
		unchanged(l[len(l)-1], ns[len(ns)-1])
	}
}

// textValue is a value with a short text, and its %v and %#v forms.
func textValue(name string) (interface{}, string, string) {
	switch vrt.Choose(name+"_kind", 4) {
	case 0:
		v := vrt.Int(name, -9, 99)
		return v, fmt.Sprint(v), fmt.Sprintf("%#v", v)
	case 1:
		v := vrt.Str(name, 0, 1, 'a', 'z')
		return v, v, "\"" + v + "\""
	case 2:
		return nil, "<nil>", "<nil>"
	}
	v := vrt.Bool(name)
	if v {
		return v, "true", "true"
	}
	return v, "false", "false"
}

// sorted is an insertion sort, written here so that the reference does not
// depend on the library.
func sorted(l []string) []string {
	var out []string
	for _, s := range l {
		i := 0
		for i < len(out) && out[i] <= s {
			i++
		}
		var n []string
		n = append(n, out[:i]...)
		n = append(n, s)
		n = append(n, out[i:]...)
		out = n
	}
	return out
}

// C16_dataset: the text of a dataset is complete, sorted, stable, harmless.
func C16_dataset() {
	n := vrt.Bound("entries", 2, 3)
	vrt.MapOrder(1)
	d := newDS(vrt.Choose("ts", 2) == 1)
	e := newDS(false)
	m := &assoc{}
	g := &assoc{}
	vals := &assoc{}
	for i := 0; i < n; i++ {
		k := vrt.Str("k", 1, 1, 'A', 'Z')
		v, s, gs := textValue("v")
		d.Set(k, v)
		m.set(k, k+":"+s)
		g.set(k, k+":"+gs)
		vals.set(k, v)
	}
	for i := len(vals.e) - 1; i >= 0; i-- {
		e.Set(vals.e[i].k, vals.e[i].v)
	}
	var list, glist []string
	for i := range m.e {
		list = append(list, m.e[i].v.(string))
		glist = append(glist, g.e[i].v.(string))
	}
	a := d.String()
	vrt.Observe(a)
	vrt.Assert(strings.Contains(a, strings.Join(sorted(list), " ")), "String does not list every entry in order")
	vrt.Assert(len(a) == len("xcore.XDataset{}")+len(strings.Join(list, " ")), "String contains something else")
	b := d.GoString()
	vrt.Assert(strings.Contains(b, strings.Join(sorted(glist), " ")), "GoString does not list every entry in order")
	vrt.Assert(d.String() == a && d.GoString() == b, "String gives another text the second time")
	vrt.Assert(e.String() == a, "datasets with the same content have different texts")
	vrt.Assert(e.GoString() == b, "datasets with the same content have different texts")
	for i := range vals.e {
		v, ok := d.Get(vals.e[i].k)
		vrt.Assert(ok && v == vals.e[i].v, "String modifies the dataset")
	}
}

// C16_collection: the text of a collection lists the records by index.
func C16_collection() {
	n := vrt.Choose("records", vrt.Bound("records", 4, 5))
	c := newDC(vrt.Choose("ts", 2) == 1)
	want := ""
	for i := 0; i < n; i++ {
		d := newDS(vrt.Choose("record_ts", 2) == 1)
		v := vrt.Str("v", 0, 1, 'a', 'z')
		d.Set("k", v)
		c.Push(d)
		want += string(rune('0'+i)) + ":" + d.String() + " "
	}
	s := c.String()
	vrt.Observe(s)
	vrt.Assert(strings.Contains(s, "["+want+"]"), "String does not list every record in order")
	vrt.Assert(c.GoString() == s || strings.Contains(c.GoString(), want), "GoString does not list every record in order")
	vrt.Assert(c.String() == s, "String gives another text the second time")
	vrt.Assert(c.Count() == n, "String modifies the collection")
}

// C16_nested: nested objects are written out.
func C16_nested() {
	vrt.MapOrder(1)
	ts := vrt.Choose("ts", 2) == 1
	v := vrt.Str("v", 1, 1, 'a', 'z')
	in := newDS(ts)
	in.Set("i", v)
	var o interface{} = in
	if vrt.Choose("collection", 2) == 1 {
		c := newDC(ts)
		c.Push(in)
		o = c
	}
	d := newDS(!ts)
	d.Set("x", o)
	d.Set("y", 1)
	s := d.String()
	vrt.Observe(s)
	vrt.Assert(strings.Contains(s, "x:"+fmt.Sprint(o)+" y:1"), "String does not write out the nested object")
	vrt.Assert(strings.Contains(s, "i:"+v), "String does not write out the nested object")
	g := d.GoString()
	vrt.Assert(strings.Contains(g, "x:"+fmt.Sprintf("%#v", o)+" y:1"), "GoString does not write out the nested object")
	vrt.Assert(d.String() == s && d.GoString() == g, "String gives another text the second time")
}

// C16_language: the text of a language table.
func C16_language() {
	n := vrt.Bound("entries", 2, 3)
	vrt.MapOrder(1)
	l := xcore.NewXLanguage("n", langTag(0))
	m := &assoc{}
	for i := 0; i < n; i++ {
		k, v := vrt.Str("k", 1, 1, 'A', 'Z'), vrt.Str("v", 0, 1, 'a', 'z')
		l.Set(k, v)
		m.set(k, v)
	}
	var list, glist []string
	for _, e := range m.e {
		list = append(list, e.k+":"+e.v.(string))
		glist = append(glist, e.k+":\""+e.v.(string)+"\"")
	}
	a, b := l.String(), l.GoString()
	vrt.Observe(a)
	vrt.Assert(strings.Contains(a, strings.Join(sorted(list), " ")), "String does not list every entry in order")
	vrt.Assert(strings.Contains(b, strings.Join(sorted(glist), " ")), "GoString does not list every entry in order")
	vrt.Assert(l.String() == a && l.GoString() == b, "String gives another text the second time")
	for _, e := range m.e {
		vrt.Assert(l.Get(e.k) == e.v, "String modifies the language table")
	}
}
