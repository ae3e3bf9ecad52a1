package zzvh

import (
	"strconv"

	vrt "github.com/webability-go/xcore/v2/zzvrt"
)

// C27_below: a template with many of its own sub templates asks the outer ones.
func C27_below() {
	n := []int{0, 1, 2, 3, 4, 5, 8, 16, 40}[vrt.Choose("own", 9)]
	v := vrt.Str("v", 0, 1, 'a', 'z')
	kind := vrt.Choose("use", 3)
	own := []telem{tx("i<"), use(kind, "o"), tx(">"), use(kind, "k0"), use(kind, "k"+strconv.Itoa(n))}
	for i := 0; i < n; i++ {
		own = append(own, decl("k"+strconv.Itoa(i), tx(v+"k"+strconv.Itoa(i)), use(kind, "o")))
	}
	l := []telem{decl("o", tx("o"+v)), decl("m", tx("m"), decl("i", own...), ref("i")), ref("m"), use(kind, "k0")}
	if vrt.Choose("others", 2) == 1 {
		for i := 0; i < 9; i++ {
			l = append(l, decl("z"+strconv.Itoa(i), tx("z")))
		}
	}
	b := body(l, nil)
	t := compiled(l)
	out := t.Execute(usesData().data(false))
	vrt.Observe(out)
	vrt.Assert(out == rendering(b, []*rec{usesData()}, nil), "a sub template is used outside its scope or not within it")
	i := t.GetTemplate("m").GetTemplate("i")
	vrt.Assert(i != nil && i.GetTemplate("o") != nil && i.GetTemplate("o") == t.GetTemplate("o"), "GetTemplate does not find an outer template")
	vrt.Assert(t.GetTemplate("k0") == nil && t.GetTemplate("i") == nil, "GetTemplate finds an inner template")
}

// C28_name: the Name of the sub templates does not matter.
func C28_name() {
	t := compiled([]telem{tx("<"), ref("a"), ref("b"), ref("c"), tx(">")})
	names := []string{"", "a", "b", "x"}
	for _, k := range []string{"a", "b", "c"} {
		x := compiled([]telem{tx("[" + k), ref("a"), tx("]")})
		x.Name = names[vrt.Choose("name_"+k, len(names))]
		x.AddTemplate("a", compiled([]telem{tx("in" + k)}))
		t.AddTemplate(k, x)
	}
	want := "<[aina][binb][cinc]>"
	vrt.Assert(t.Execute(nil) == want, "the template renders another text")
	c := t.Clone()
	vrt.Assert(c.Execute(nil) == want && t.Execute(nil) == want, "a clone renders something else")
	k := []string{"a", "b", "c"}[vrt.Choose("change", 3)]
	at, o := t, c
	if vrt.Choose("side", 2) == 1 {
		at, o = c, t
	}
	at.GetTemplate(k).AddTemplate("a", compiled([]telem{tx("new")}))
	vrt.Assert(o.Execute(nil) == want, "a change of one is visible in the other")
}
