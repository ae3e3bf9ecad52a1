package zzvh

import (
	"strings"
	"time"

	xcore "github.com/webability-go/xcore/v2"
	vrt "github.com/webability-go/xcore/v2/zzvrt"
)

// The harnesses of this file ask for names that look like the ones that are
// there but are others: with a prefix, a suffix, another case.

// relative is one of the names that resemble k, which ends with a letter.
func relative(k string) string {
	all := []string{"x." + k, k + ".x", "x" + k, k + "x", " " + k, k + " ", strings.ToUpper(k), "." + k, k + ".", k + ".none", k + ".en", k + ".es", "en." + k,
		k + "_en", k + "-en", "#" + k, "$" + k, k + "|x", "x|" + k, k + ":x", "x:" + k, "_" + k, k + k, k + "=x", k + "[]", k + "[0]", "\"" + k + "\"",
		k + "/", "/" + k, k + "\x00", k + "\n", "{{" + k + "}}", "export " + k, k + "%", k + "?", k + "!", "@" + k, k + "s", k + "1", "default", "*"}
	return all[vrt.Choose("relative", len(all))]
}

// relativeName is a relative that is the name of an element as well.
func relativeName(k string, upper bool) string {
	n := relative(k)
	for i := 0; i < len(n); i++ {
		vrt.Assume(nameChar(n[i], '[') || upper && nameChar(n[i], '{'))
		vrt.Assume(upper || n[i] != '|')
	}
	return n
}

// anyName is a name of one letter more than given.
func anyName() string { return "n" + vrt.Str("name", 1, 1, 'a', 'z') }

// C01_related: keys that resemble each other are others.
func C01_related() {
	k := anyName()
	n := relative(k)
	c := xcore.NewXCache("id", 0, 0)
	if vrt.Choose("swap", 2) == 1 {
		k, n = n, k
	}
	v := anyInt("v")
	c.Set(k, v)
	got, inv := c.Get(n)
	vrt.Assert(got == nil && !inv, "Get of another key returns something")
	c.SetTTL(n, time.Nanosecond)
	c.Del(n)
	vrt.Advance(time.Second)
	got, inv = c.Get(k)
	vrt.Assert(got == v && !inv && c.Count() == 1, "another key is changed")
	c.Set(n, "other")
	got, inv = c.Get(k)
	vrt.Assert(got == v && !inv && c.Count() == 2, "another key is changed")
}

// C07_related: keys that resemble each other are others.
func C07_related() {
	k := anyName()
	n := relative(k)
	d := newDS(vrt.Choose("ts", 2) == 1)
	if vrt.Choose("swap", 2) == 1 {
		k, n = n, k
	}
	v := anyInt("v")
	d.Set(k, v)
	got, ok := d.Get(n)
	vrt.Assert(got == nil && !ok, "Get of a missing key returns something")
	d.Del(n)
	got, ok = d.Get(k)
	vrt.Assert(got == v && ok, "another key is changed")
	d.Set(n, "other")
	got, ok = d.Get(k)
	vrt.Assert(got == v && ok, "another key is changed")
}

// C08_related: segments that resemble keys and indexes are others.
func C08_related() {
	k := anyName()
	n := relative(k)
	ts := vrt.Choose("ts", 2) == 1
	in := newDS(ts)
	in.Set(k, anyInt("v"))
	c := newDC(ts)
	c.Push(in)
	c.Push(in)
	d := newDS(ts)
	d.Set("d", in)
	d.Set("c", c)
	d.Set(k, "text")
	i := []string{"last", "first", "count", "length", "#0", "[0]", "0.", "0x0", "0b1", "1e0", " 0", "0 ", "1_0", "a", "0a", "*", "", k, n, "١"}[vrt.Choose("index", 20)]
	path := []string{"d>" + n, "d." + k, "d/" + k, "d>>" + k, ">d>" + k, "d>" + k + ">", n + ">" + k, "c>" + i, "c>" + i + ">" + k, "c>0>" + n, k + ">" + n, k + ">0", "d>" + k + ">" + k,
		"c>0>", "c>", "d>", ">", ">>", "c>0>" + k + ">0", "c>2", "c>0>1>" + k}[vrt.Choose("path", 21)]
	got, ok := d.Get(path)
	vrt.Assert(got == nil && !ok, "a path that leads nowhere returns something")
	s, ok := d.GetString(path)
	vrt.Assert(s == "" && !ok, "a path that leads nowhere returns something")
	x, ok := d.GetInt(path)
	vrt.Assert(x == 0 && !ok, "a path that leads nowhere returns something")
	y, ok := d.GetDataset(path)
	vrt.Assert(y == nil && !ok, "a path that leads nowhere returns something")
}

// C12_related: lookups of keys that resemble others, and of a record that is
// there several times.
func C12_related() {
	k := anyName()
	n := relative(k)
	ts := vrt.Choose("ts", 2) == 1
	a, b := newDS(ts), newDS(ts)
	a.Set(k, 1)
	b.Set("b", 2)
	recs := []xcore.XDatasetDef{a, b}
	c := newDC(ts)
	for i := 0; i < 3; i++ {
		c.Push(recs[vrt.Choose("record", 2)])
	}
	hasA := false
	for i := 0; i < 3; i++ {
		r, _ := c.Get(i)
		hasA = hasA || r == a
	}
	if hasA {
		checkLookups(c, k, 1, true)
	} else {
		checkLookups(c, k, nil, false)
	}
	checkLookups(c, n, nil, false)
	checkLookups(c, "k"+n, nil, false)
}

// C17_related: texts with the habits of other formats.
func C17_related() {
	ks := []string{"k", "export k", "\"k\"", "'k'", "k[]", "k[0]", "k:", "${k}", "$k", "k+", "k-", "k!", "a.k", "[k]", "@k", "//k", "/*k", "--k", "-k", "%k", "<k>", "K", "k k", "set k", "k?", "!k", "\\k", "k\\", "é"}
	vs := []string{"v", "\"v\"", "'v'", "v # c", "v#c", "v ; c", "v // c", "${k}", "$k", "%s", "v\\", "\\n", "\\u0041", "&amp;", "&lt;", "<b>", "true", "v,w", "v=w", "= v", "==", "\"v", "v\"", "[v]", "{v}", "v\tw", "v  w", "#", ";", "0x10", "nil", "é", "\xff", "`v`", "@f"}
	k := ks[vrt.Choose("key", len(ks))]
	v := vs[vrt.Choose("value", len(vs))]
	sep := []string{"=", " = ", "\t=", "= "}[vrt.Choose("sep", 4)]
	c := vrt.Str("c", 0, 1, 'a', 'z')
	text := "a=1\n" + k + sep + v + c + []string{"\n", "\r\n"}[vrt.Choose("end", 2)] + "z=9\n"
	l, err := xcore.NewXLanguageFromString(text)
	vrt.Assert(err == nil && l != nil, "loading fails")
	m := &assoc{}
	m.set("a", "1")
	m.set(k, strings.TrimSpace(v+c))
	m.set("z", "9")
	sameTable(l, m, "flat text")
}

// C18_related: entries that resemble each other are others.
func C18_related() {
	k := anyName()
	n := relative(k)
	if vrt.Choose("swap", 2) == 1 {
		k, n = n, k
	}
	l := xcore.NewXLanguage([]string{"", "x", k, n}[vrt.Choose("name", 4)], langTag(vrt.Choose("tag", 2)))
	v := vrt.Str("v", 0, 1, 0, 255)
	l.Set(k, v)
	l.SetStatus(k, v)
	vrt.Assert(l.Get(n) == "" && l.GetStatus(n) == "", "a missing entry has a text")
	l.Del(n)
	vrt.Assert(l.Get(k) == v && l.GetStatus(k) == v && len(l.GetEntries()) == 1, "another entry is changed")
	l.Set(n, "other")
	l.SetStatus(n, "other")
	vrt.Assert(l.Get(k) == v && l.GetStatus(k) == v && len(l.GetEntries()) == 2, "another entry is changed")
}

// C19_related: entries that resemble each other are read back.
func C19_related() {
	vrt.MapOrder(0)
	k := anyName()
	n := relative(k)
	vrt.Assume(n[len(n)-1] != 0)
	l := xcore.NewXLanguage(n, langTag(1))
	v := vrt.Str("v", 0, 1, ' ', '~')
	l.Set(k, v)
	l.Set(n, n)
	l.SetStatus(n, n)
	r := reload(l)
	m := &assoc{}
	m.set(k, v)
	m.set(n, n)
	sameTable(r, m, "read back")
	vrt.Assert(r.GetStatus(n) == n && r.GetStatus(k) == "" && r.GetName() == n, "name or status is not read back")
}

// C23_related: fields and entries that resemble what is there.
func C23_related() {
	k := anyName()
	n := relativeName(k, true)
	lang := &assoc{}
	r := row("id", "1")
	switch vrt.Choose("has", 4) {
	case 0:
		r.set(k, "K")
		lang.set(k, "E")
	case 1:
		r.set(k, "K")
		lang.set(n, "N")
	case 2:
		lang.set(k, "E")
		lang.set(n, "N")
	case 3:
		r.set(k, "K")
		r.set(n, "M")
	}
	l := []telem{tx("<"), field(n), tx("|"), field(k), tx("|"), entry(k), tx(">")}
	if strings.IndexAny(n, "|:=") < 0 {
		l = append(l, entry(n), tx(">"))
	}
	renders(l, r, lang, vrt.Choose("ts", 2) == 1, "a field or entry is replaced by something else")
}

// C23_values: values that look like something else are injected as they are.
func C23_values() {
	vs := []string{"<b>", "&amp;", "&", "\"", "'", "{{id}}", "##e##", "&&s&&", "%--c--%", "[[s]]", "%s", "%d", "%", "\\", "\\n", "$1", "${1}", "\n", " ", "\t", "\x00", "\xff", "\ufeff", "true", "nil", "<nil>", "0", "{}", "[]", "THE"}
	v := vs[vrt.Choose("value", len(vs))] + vrt.Str("v", 0, 1, 0, 255)
	lang := &assoc{}
	lang.set("e", v)
	l := []telem{decl("s", field("f"), entry("e")), tx("<"), field("f"), tx("|"), entry("e"), tx("|"), ref("s"), tx(">")}
	renders(l, row("f", v, "id", "1"), lang, vrt.Choose("ts", 2) == 1, "a value is changed when it is injected")
}

// C24_related: references to names that resemble sub templates.
func C24_related() {
	k := anyName()
	n := relativeName(k, false)
	if vrt.Choose("swap", 2) == 1 {
		k, n = n, k
	}
	lang := &assoc{}
	lang.set(k, "E")
	l := []telem{decl(n, tx("N"), field("id")), tx("<"), ref(k), tx("|"), ref(k, "d"), tx("|"), ref(k, "g"), tx("|"), ref("", "f", "p"), tx(">")}
	l = append(l, decl("p"+k+k, tx("X")), decl("pf", tx("X")), decl("p.f", tx("X")))
	if vrt.Choose("prefix", 2) == 1 {
		l = append(l, decl("p", tx("P")))
	}
	renders(l, row("id", "1", "f", k, k, n, "d", row("id", "2")), lang, vrt.Choose("ts", 2) == 1, "a reference outputs the wrong sub template")
}

// C25_related: sub templates that are no variants of the loop.
func C25_related() {
	n := vrt.Choose("records", 4)
	var list []*rec
	for i := 0; i < n; i++ {
		list = append(list, row("id", i))
	}
	all := []string{"c.odd", "c.middle", "c.key", "c.key.", "c.key.01", "c.key.-1", "c.0", "c.1", "c.2", "c.second", "c.empty", "c.each", "c.separator", "c.before", "c.after", "c.start", "c.end", "c.all", "c.one", "c.only", "c.single",
		"none", "first", "last", "even", "c.0.first", "c.field.id.1", "c.id.1", "c.first.none", "first.c", "c-first", "c_first", "x.c", "c.key.first", "c.even.odd", "c.key.9", "d.first"}
	s := all[vrt.Choose("variant", len(all))]
	if vrt.Choose("level", 2) == 1 {
		s = "x|" + s
	}
	l := []telem{decl("c", shown("b")...), decl("c.none", tx("none")), decl(s, shown("X")...)}
	for _, v := range []string{".first", ".last", ".even"} {
		if vrt.Choose("has"+v, 2) == 1 {
			l = append(l, decl("c"+v, shown(v)...))
		}
	}
	v := vrt.Str("v", 0, 1, 0, 255)
	renders(append(l, tx("<"), loop("c"), tx(">")), row("v", v, "c", list), nil, false, "a loop outputs the wrong text")
}

// C26_related: sub templates that are no variants of the condition.
func C26_related() {
	all := []string{"none", "f.true", "f.false", "f.0", "f.1", "f.empty", "f.else", "f.not", "f.default", "f.set", "f.yes", "f.no", "f.null", "f.nil", "f.any", "f.value", "f.", "f..none", "true", "false", "f.x", "x", "f.none.x", "f-none", "f_none", "x.f", "f.string", "f.int", "f.bool", "f.0.0", "f.00", "f.01"}
	s := all[vrt.Choose("variant", len(all))]
	r := row("id", "1")
	vs := []interface{}{nil, "", "x", "Y", " ", true, false, 0, 1, 2, -1, "0", "00", 0.0, 1.5, int64(1), "true"}
	if i := vrt.Choose("value", len(vs)+2); i < len(vs) {
		r.set("f", vs[i])
	} else if i == len(vs) {
		r.set("f", vrt.Str("v", 1, 1, 'a', 'z'))
	}
	l := []telem{decl("f", tx("base")), decl("f.none", tx("none")), decl("g.none", tx("gnone")), decl(s, tx("variant"))}
	renders(append(l, tx("<"), cond("f"), tx("|"), cond("f", "g"), tx("|"), cond("f", "h"), tx(">")), r, nil, vrt.Choose("ts", 2) == 1, "a condition selects the wrong sub template")
}

// C27_related: names that resemble those of sub templates.
func C27_related() {
	k := anyName()
	n := relativeName(k, false)
	if vrt.Choose("swap", 2) == 1 {
		k, n = n, k
	}
	var t *xcore.XTemplate
	if vrt.Choose("add", 2) == 1 {
		t = compiled([]telem{tx("<")})
		t.AddTemplate(k, compiled([]telem{tx("K")}))
	} else {
		t = compiled([]telem{decl(k, tx("K")), tx("<")})
	}
	vrt.Assert(t.GetTemplate(n) == nil, "a template is found under another name")
	x := t.GetTemplate(k)
	vrt.Assert(x != nil && x.Execute(nil) == "K", "a sub template is not found")
	t.AddTemplate(n, compiled([]telem{tx("N")}))
	x, y := t.GetTemplate(k), t.GetTemplate(n)
	vrt.Assert(x != nil && x.Execute(nil) == "K" && y != nil && y.Execute(nil) == "N", "adding a template changes another one")
}

// C10_slices: long slices are not shared.
func C10_slices() {
	n := []int{1, 17, 70, 300}[vrt.Choose("size", 4)]
	d := newDS(vrt.Choose("ts", 2) == 1)
	ss, bs, is, fs, ts := make([]string, n), make([]bool, n), make([]int, n), make([]float64, n), make([]time.Time, n)
	kind := vrt.Choose("kind", 5)
	d.Set("s", []interface{}{ss, bs, is, fs, ts}[kind])
	a, b := d, d.Clone()
	if vrt.Choose("side", 2) == 1 {
		a, b = b, a
	}
	i := []int{0, n / 2, n - 1}[vrt.Choose("at", 3)]
	v := vrt.Int("v", 1, 9)
	switch kind {
	case 0:
		x, _ := a.GetStringCollection("s")
		x[i] = vrt.Str("new", 1, 1, 'a', 'z')
		y, _ := b.GetStringCollection("s")
		vrt.Assert(len(y) == n && y[i] == "", "a change of one side is visible in the other")
	case 1:
		x, _ := a.GetBoolCollection("s")
		x[i] = true
		y, _ := b.GetBoolCollection("s")
		vrt.Assert(len(y) == n && !y[i], "a change of one side is visible in the other")
	case 2:
		x, _ := a.GetIntCollection("s")
		x[i] = v
		y, _ := b.GetIntCollection("s")
		vrt.Assert(len(y) == n && y[i] == 0, "a change of one side is visible in the other")
	case 3:
		x, _ := a.GetFloatCollection("s")
		x[i] = 1.5
		y, _ := b.GetFloatCollection("s")
		vrt.Assert(len(y) == n && y[i] == 0, "a change of one side is visible in the other")
	default:
		x, _ := a.GetTimeCollection("s")
		x[i] = vrt.Time("t")
		y, _ := b.GetTimeCollection("s")
		vrt.Assert(len(y) == n && y[i] == time.Time{}, "a change of one side is visible in the other")
	}
}

// C28_huge: templates with hundreds of elements and sub templates.
func C28_huge() {
	n := []int{60, 130, 300}[vrt.Choose("size", 3)]
	var b, w strings.Builder
	v := vrt.Str("v", 0, 1, 0, 255)
	for i := 0; i < n; i++ {
		b.WriteString("[[" + num(i) + "]]" + num(i) + "[[]]{{f}}&&" + num(i) + "&&")
		w.WriteString(v + num(i))
	}
	t, err := xcore.NewXTemplateFromString(b.String())
	vrt.Assert(err == nil && t != nil, "the template cannot be compiled")
	vrt.MapOrder(2)
	c := t.Clone()
	d := newDS(false)
	d.Set("f", v)
	vrt.Assert(c.Execute(d) == w.String(), "a clone renders something else")
	a, o := t, c
	if vrt.Choose("side", 2) == 1 {
		a, o = c, t
	}
	switch vrt.Choose("change", 4) {
	case 0:
		vrt.Assert(a.LoadString("NEW") == nil, "loading fails")
	case 1:
		for i := range *a.Root {
			(*a.Root)[i].Data = "NEW"
		}
	case 2:
		for i := 0; i < n; i++ {
			x := a.GetTemplate(num(i))
			vrt.Assert(x != nil && x.LoadString("NEW") == nil, "loading fails")
		}
	case 3:
		for i := 0; i < n; i++ {
			x := a.GetTemplate(num(i))
			vrt.Assert(x != nil && x != o.GetTemplate(num(i)), "a clone shares a sub template")
			for j := range *x.Root {
				(*x.Root)[j].Data = "NEW"
			}
		}
	}
	vrt.Assert(o.Execute(d) == w.String(), "a change of one side is visible in the other")
}

// C15_related: maps with keys of any sort.
func C15_related() {
	vrt.MapOrder(2)
	k := anyName()
	keys := []string{"", k, relative(k), ".counter", "#", "0", ">", "a>b", vrt.Str("key", 1, 1, 0, 255)}
	one := keys[vrt.Choose("key", len(keys))]
	v := anyInt("v")
	in := map[string]interface{}{one: v, "z": "Z"}
	var m map[string]interface{}
	switch vrt.Choose("nested", 4) {
	case 0:
		m = in
	case 1:
		m = map[string]interface{}{"m": in}
	case 2:
		m = map[string]interface{}{"m": []map[string]interface{}{in}}
	case 3:
		m = map[string]interface{}{"m": []interface{}{in}}
	}
	n := len(in)
	var d, x xcore.XDatasetDef
	d = xcore.NewXDataset(m)
	x = d
	if c, ok := d.GetCollection("m"); ok {
		x, _ = c.Get(0)
	} else if s, ok := d.GetDataset("m"); ok {
		x = s
	}
	vrt.Assert(x != nil, "a nested map is lost")
	if strings.IndexByte(one, '>') < 0 {
		got, ok := x.Get(one)
		vrt.Assert(ok && got == in[one], "a value of the map was changed")
	}
	got, ok := x.Get("z")
	vrt.Assert(ok && got == in["z"], "a value of the map was changed")
	x.Set("new", 1)
	x.Del(one)
	d.Set("other", 1)
	w, ok := in[one]
	vrt.Assert(ok && (w == v || one == "z") && len(in) == n, "the argument was modified")
	vrt.Assert(len(m) == n || len(m) == 1, "the argument was modified")
}

// C16_related: the order of entries whose keys resemble each other.
func C16_related() {
	vrt.MapOrder(0)
	keys := []string{"a" + vrt.Str("k", 1, 1, ' ', '~'), "B", "a", "A", "\xe9", "a.b", "10"}
	d := newDS(vrt.Choose("ts", 2) == 1)
	l := xcore.NewXLanguage("n", langTag(0))
	var list []string
	for i, k := range keys[:4+vrt.Choose("keys", 4)] {
		if i > 0 && k == keys[0] {
			continue
		}
		d.Set(k, "v")
		l.Set(k, "v")
		list = append(list, k+":v")
	}
	want := strings.Join(sorted(list), " ")
	vrt.Assert(strings.Contains(d.String(), want), "String does not list every entry in order")
	vrt.Assert(strings.Contains(l.String(), want), "String does not list every entry in order")
	for _, s := range []string{d.GoString(), l.GoString()} {
		for _, k := range list {
			vrt.Assert(strings.Contains(s, k[:len(k)-1]), "GoString does not list every entry")
		}
	}
	vrt.Assert(d.GoString() == d.GoString() && l.GoString() == l.GoString(), "GoString varies")
}
