package zzvh

import (
	"strings"

	xcore "github.com/webability-go/xcore/v2"
	vrt "github.com/webability-go/xcore/v2/zzvrt"
)

// C41_dump: the debug element outputs the root data, at any level.
func C41_dump() {
	vrt.MapOrder(2)
	word := []string{"dump", "other", "dumps", "Dump"}[vrt.Choose("word", 4)]
	r := row("f", vrt.Str("f", 0, 1, 'a', 'z'), "n", vrt.Int("n", 0, 9), "d", row("x", vrt.Str("x", 0, 1, 'a', 'z')), "c", []*rec{row("x", 1), row("y", true)})
	if vrt.Choose("small", 2) == 1 {
		r = row("f", vrt.Str("f", 0, 1, 'a', 'z'), "d", row())
	}
	ts := vrt.Choose("ts", 2) == 1
	d := r.data(ts)
	want := ""
	if word == "dump" {
		want = d.GoString()
		vrt.Cover("dump")
	}
	e := telem{kind: '!', s: word}
	var l []telem
	sub := decl("s", tx("<"), e, tx(">"))
	switch vrt.Choose("where", 3) {
	case 0:
		l = []telem{tx("a<"), e, tx(">b"), field("f")}
		want = "a<" + want + ">b" + r.e[0].v.(string)
	case 1: // in a sub template with its own level
		l = []telem{sub, tx("a"), ref("s", "d"), tx("b"), ref("s")}
		want = "a<" + want + ">b<" + want + ">"
	default: // in a condition
		l = []telem{sub, cond("d>x", "s"), decl("s.none", tx("["), e, tx("]"))}
		open, end := "<", ">"
		if v, _ := value([]*rec{r}, "d>x"); v == nil || v == "" {
			open, end = "[", "]"
		}
		want = open + want + end
	}
	t := compiled(l)
	out := t.Execute(d)
	vrt.Observe(out)
	vrt.Assert(out == want, "the debug element does not output the root data")
	vrt.Assert(t.Execute(d) == want, "the debug element outputs something else the second time")
}

// C41_nodata: the debug element without data.
func C41_nodata() {
	s := vrt.Str("word", 1, vrt.Bound("word_bytes", 2, 4), 'a', 'z')
	for _, w := range []string{s, "dump", "list"} {
		t := compiled([]telem{tx("<"), telem{kind: '!', s: w}, tx(">")})
		vrt.Assert(t.Execute(nil) == "<>", "the debug element without data outputs something")
	}
}

// C41_template: the text of a template has every element, and reading it is harmless.
func C41_template() {
	v := vrt.Str("v", 1, vrt.Bound("text_bytes", 1, 2), 'a', 'z')
	all := []telem{tx(v), field("f" + v), entry("e" + v), ref("r" + v), loop("l" + v), cond("c" + v), comment(v)}
	var l []telem
	for _, e := range all {
		if vrt.Choose("has", 2) == 1 {
			l = append(l, e)
		}
	}
	l = append(l, decl("s", tx("S")))
	t := compiled(l)
	a, b := t.String(), t.GoString()
	vrt.Observe(a)
	vrt.Assert(t.String() == a && t.GoString() == b, "String gives another text the second time")
	u := compiled(l)
	vrt.Assert(u.String() == a && u.GoString() == b, "the same template has another text")
	for _, e := range l[:len(l)-1] {
		vrt.Assert(strings.Contains(a, e.s) && strings.Contains(b, e.s), "an element is missing in the text of a template")
	}
	vrt.Assert(t.Execute(nil) == compiled(l).Execute(nil), "String modifies the template")
	empty := xcore.NewXTemplate()
	vrt.Assert(empty.String() == empty.String() && empty.GoString() == empty.GoString(), "String of an empty template varies")
}
