package zzvh

import (
	"strings"

	xcore "github.com/webability-go/xcore/v2"
	vrt "github.com/webability-go/xcore/v2/zzvrt"
)

// longSize is the size of a long text.
func longSize(name string) int {
	return []int{1, 300, 5000, 70000}[vrt.Choose(name, vrt.Bound("long", 4, 4))]
}

// C23_longer: long values and long texts between the fields.
func C23_longer() {
	c := vrt.Str("c", 0, 1, 0, 255)
	v := strings.Repeat("{{k}}[[x]]<", longSize("value")/10) + c
	text := strings.Repeat("ab\r\n", longSize("text")/4)
	l := xcore.NewXLanguage("n", langTag(0))
	l.Set("k", v)
	d := newDS(vrt.Choose("ts", 2) == 1)
	d.Set("k", v)
	t, err := xcore.NewXTemplateFromString(text + "{{k}}" + text + "##k##{{k}}" + text)
	vrt.Assert(err == nil, "the template is refused")
	t2, err := xcore.NewXTemplateFromString(text)
	vrt.Assert(err == nil, "the template is refused")
	plain := t2.Execute(d)
	d.Set("#", l)
	vrt.Assert(t.Execute(d) == plain+v+plain+v+v+plain, "a long value or text is not output unchanged")
}

// C29_long: long outputs are the same again.
func C29_long() {
	c := vrt.Str("c", 0, 1, 0, 255)
	d := newDS(vrt.Choose("ts", 2) == 1)
	v := strings.Repeat("0123456789", longSize("value")/10) + c
	d.Set("k", v)
	r := newDS(false)
	r.Set("k", 1)
	list := newDC(false)
	list.Push(r)
	list.Push(r)
	d.Set("l", list)
	text := strings.Repeat("x", longSize("text"))
	t, err := xcore.NewXTemplateFromString(text + "[{{k}}]@@l@@[[l]]<{{k}}>" + text + "[[]]")
	vrt.Assert(err == nil, "the template is refused")
	u, err := xcore.NewXTemplateFromString("u{{k}}")
	vrt.Assert(err == nil, "the template is refused")
	want := text + "[" + v + "]<1>" + text + "<1>" + text
	vrt.Assert(t.Execute(d) == want, "the template renders another text")
	vrt.Assert(u.Execute(d) == "u"+v, "another template renders another text")
	vrt.Assert(t.Execute(d) == want, "the template renders another text the second time")
	vrt.Assert(u.Execute(r) == "u1", "another template renders another text")
	vrt.Assert(t.Execute(d) == want && u.Execute(d) == "u"+v, "the template renders another text the third time")
}
