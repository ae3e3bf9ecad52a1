package zzvh

import (
	"fmt"
	"strings"

	xcore "github.com/webability-go/xcore"
	vrt "github.com/webability-go/xcore/zzvrt"
)

// textValue is a value with a short text, and its %v and %#v forms.
func textValue(name string) (interface{}, string, string) {
	switch vrt.Choose(name+"_kind", 4) {
	case 0:
		v := vrt.Int(name, -9, 99)
		return v, fmt.Sprint(v), fmt.Sprintf("%#v", v)
	case 1:
		v := vrt.Str(name, 0, 1, 'a', 'z')
		return v, v, "\"" + v + "\""
	case 2:
		return nil, "<nil>", "<nil>"
	}
	v := vrt.Bool(name)
	if v {
		return v, "true", "true"
	}
	return v, "false", "false"
}

// sorted is an insertion sort, written here so that the reference does not
// depend on the library.
func sorted(l []string) []string {
	var out []string
	for _, s := range l {
		i := 0
		for i < len(out) && out[i] <= s {
			i++
		}
		var n []string
		n = append(n, out[:i]...)
		n = append(n, s)
		n = append(n, out[i:]...)
		out = n
	}
	return out
}

// C40_dataset: the text of a dataset is complete, sorted, stable, harmless.
func C40_dataset() {
	n := vrt.Bound("entries", 2, 3)
	vrt.MapOrder(1)
	d := newDS(false)
	e := newDS(false)
	m := &assoc{}
	g := &assoc{}
	vals := &assoc{}
	for i := 0; i < n; i++ {
		k := vrt.Str("k", 1, 1, 'A', 'Z')
		v, s, gs := textValue("v")
		d.Set(k, v)
		m.set(k, k+":"+s)
		g.set(k, k+":"+gs)
		vals.set(k, v)
	}
	for i := len(vals.e) - 1; i >= 0; i-- {
		e.Set(vals.e[i].k, vals.e[i].v)
	}
	var list, glist []string
	for i := range m.e {
		list = append(list, m.e[i].v.(string))
		glist = append(glist, g.e[i].v.(string))
	}
	a := d.String()
	vrt.Observe(a)
	vrt.Assert(strings.Contains(a, strings.Join(sorted(list), " ")), "String does not list every entry in order")
	vrt.Assert(len(a) == len("xcore.XDataset{}")+len(strings.Join(list, " ")), "String contains something else")
	b := d.GoString()
	vrt.Assert(strings.Contains(b, strings.Join(sorted(glist), " ")), "GoString does not list every entry in order")
	vrt.Assert(d.String() == a && d.GoString() == b, "String gives another text the second time")
	vrt.Assert(e.String() == a, "datasets with the same content have different texts")
	vrt.Assert(e.GoString() == b, "datasets with the same content have different texts")
	for i := range vals.e {
		v, ok := d.Get(vals.e[i].k)
		vrt.Assert(ok && v == vals.e[i].v, "String modifies the dataset")
	}
}

// C40_collection: the text of a collection lists the records by index.
func C40_collection() {
	n := vrt.Choose("records", vrt.Bound("records", 4, 5))
	c := newDC(false)
	want := ""
	for i := 0; i < n; i++ {
		d := newDS(false)
		v := vrt.Str("v", 0, 1, 'a', 'z')
		d.Set("k", v)
		c.Push(d)
		want += string(rune('0'+i)) + ":" + d.String() + " "
	}
	s := c.String()
	vrt.Observe(s)
	vrt.Assert(strings.Contains(s, "["+want+"]"), "String does not list every record in order")
	vrt.Assert(c.GoString() == s || strings.Contains(c.GoString(), want), "GoString does not list every record in order")
	vrt.Assert(c.String() == s, "String gives another text the second time")
	vrt.Assert(c.Count() == n, "String modifies the collection")
}

// C40_nested: nested objects are written out.
func C40_nested() {
	vrt.MapOrder(1)
	v := vrt.Str("v", 1, 1, 'a', 'z')
	in := newDS(false)
	in.Set("i", v)
	var o interface{} = in
	if vrt.Choose("collection", 2) == 1 {
		c := newDC(false)
		c.Push(in)
		o = c
	}
	d := newDS(false)
	d.Set("x", o)
	d.Set("y", 1)
	s := d.String()
	vrt.Observe(s)
	vrt.Assert(strings.Contains(s, "x:"+fmt.Sprint(o)+" y:1"), "String does not write out the nested object")
	vrt.Assert(strings.Contains(s, "i:"+v), "String does not write out the nested object")
	g := d.GoString()
	vrt.Assert(strings.Contains(g, "x:"+fmt.Sprintf("%#v", o)+" y:1"), "GoString does not write out the nested object")
	vrt.Assert(d.String() == s && d.GoString() == g, "String gives another text the second time")
}

// C40_language: the text of a language table.
func C40_language() {
	n := vrt.Bound("entries", 2, 3)
	vrt.MapOrder(1)
	l := xcore.NewXLanguage("n", langTag(0))
	m := &assoc{}
	for i := 0; i < n; i++ {
		k, v := vrt.Str("k", 1, 1, 'A', 'Z'), vrt.Str("v", 0, 1, 'a', 'z')
		l.Set(k, v)
		m.set(k, v)
	}
	var list, glist []string
	for _, e := range m.e {
		list = append(list, e.k+":"+e.v.(string))
		glist = append(glist, e.k+":\""+e.v.(string)+"\"")
	}
	a, b := l.String(), l.GoString()
	vrt.Observe(a)
	vrt.Assert(strings.Contains(a, strings.Join(sorted(list), " ")), "String does not list every entry in order")
	vrt.Assert(strings.Contains(b, strings.Join(sorted(glist), " ")), "GoString does not list every entry in order")
	vrt.Assert(l.String() == a && l.GoString() == b, "String gives another text the second time")
	for _, e := range m.e {
		vrt.Assert(l.Get(e.k) == e.v, "String modifies the language table")
	}
}

// C40_dump: the debug element outputs the root data, at any level.
func C40_dump() {
	vrt.MapOrder(2)
	word := []string{"dump", "other", "dumps", "Dump"}[vrt.Choose("word", 4)]
	r := row("f", vrt.Str("f", 0, 1, 'a', 'z'), "n", vrt.Int("n", 0, 9), "d", row("x", vrt.Str("x", 0, 1, 'a', 'z')), "c", []*rec{row("x", 1), row("y", true)})
	if vrt.Choose("small", 2) == 1 {
		r = row("f", vrt.Str("f", 0, 1, 'a', 'z'), "d", row())
	}
	ts := false
	d := r.data(ts)
	want := ""
	if word == "dump" {
		want = d.GoString()
		vrt.Cover("dump")
	}
	e := telem{kind: '!', s: word}
	var l []telem
	sub := decl("s", tx("<"), e, tx(">"))
	switch vrt.Choose("where", 3) {
	case 0:
		l = []telem{tx("a<"), e, tx(">b"), field("f")}
		want = "a<" + want + ">b" + r.e[0].v.(string)
	case 1: // in a sub template with its own level
		l = []telem{sub, tx("a"), ref("s", "d"), tx("b"), ref("s")}
		want = "a<" + want + ">b<" + want + ">"
	default: // in a condition
		l = []telem{sub, cond("d>x", "s"), decl("s.none", tx("["), e, tx("]"))}
		open, end := "<", ">"
		if v, _ := value([]*rec{r}, "d>x"); v == nil || v == "" {
			open, end = "[", "]"
		}
		want = open + want + end
	}
	t := compiled(l)
	out := t.Execute(d)
	vrt.Observe(out)
	vrt.Assert(out == want, "the debug element does not output the root data")
	vrt.Assert(t.Execute(d) == want, "the debug element outputs something else the second time")
}

// C40_nodata: the debug element without data.
func C40_nodata() {
	s := vrt.Str("word", 1, vrt.Bound("word_bytes", 2, 4), 'a', 'z')
	for _, w := range []string{s, "dump", "list"} {
		t := compiled([]telem{tx("<"), telem{kind: '!', s: w}, tx(">")})
		vrt.Assert(t.Execute(nil) == "<>", "the debug element without data outputs something")
	}
}

// C40_template: the text of a template has every element, and reading it is harmless.
func C40_template() {
	v := vrt.Str("v", 1, vrt.Bound("text_bytes", 1, 2), 'a', 'z')
	all := []telem{tx(v), field("f" + v), entry("e" + v), ref("r" + v), loop("l" + v), cond("c" + v), comment(v)}
	var l []telem
	for _, e := range all {
		if vrt.Choose("has", 2) == 1 {
			l = append(l, e)
		}
	}
	l = append(l, decl("s", tx("S")))
	t := compiled(l)
	a, b := t.String(), t.GoString()
	vrt.Observe(a)
	vrt.Assert(t.String() == a && t.GoString() == b, "String gives another text the second time")
	u := compiled(l)
	vrt.Assert(u.String() == a && u.GoString() == b, "the same template has another text")
	for _, e := range l[:len(l)-1] {
		vrt.Assert(strings.Contains(a, e.s) && strings.Contains(b, e.s), "an element is missing in the text of a template")
	}
	vrt.Assert(t.Execute(nil) == compiled(l).Execute(nil), "String modifies the template")
	empty := xcore.NewXTemplate()
	vrt.Assert(empty.String() == empty.String() && empty.GoString() == empty.GoString(), "String of an empty template varies")
}
