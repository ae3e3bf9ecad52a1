package zzvh

import (
	"strings"

	xcore "github.com/webability-go/xcore"
	vrt "github.com/webability-go/xcore/zzvrt"
)

// use is an element that renders the sub template once, for the data of uses.
func use(kind int, name string) telem {
	switch kind {
	case 1:
		return loop("c", name)
	case 2:
		return cond("f", name)
	}
	return ref(name)
}

func usesData() *rec { return row("f", "on", "c", []*rec{row("x", "1")}) }

// same: both trees of templates answer alike, at every level.
func sameScopes(t *xcore.XTemplate, b *tbody, q string, d xcore.XDatasetDef) {
	x, w := t.GetTemplate(q), b.find(q)
	vrt.Assert((x != nil) == (w != nil), "a sub template is visible or not where it should be")
	if w != nil {
		vrt.Assert(x.Execute(d) == rendering(w, []*rec{usesData()}, nil), "another sub template is found")
	}
	for i, n := range b.names {
		y := t.GetTemplate(n)
		vrt.Assert(y != nil, "a sub template is not found where it is declared")
		sameScopes(y, b.subs[i], q, d)
	}
}

// C39_scope_alias: several names for a sub template.
func C39_scope_alias() {
	names := vrt.Str("n", 1, vrt.Bound("name_bytes", 3, 5), '-', '|')
	some := false
	for i := 0; i < len(names); i++ {
		vrt.Assume(vrt.Or(vrt.And(names[i] >= 'a', names[i] <= 'b'), vrt.Or(names[i] == '|', names[i] == '.')))
		some = some || names[i] == '|'
	}
	vrt.Assume(some)
	q := vrt.Str("q", 1, 2, '.', 'b')
	for i := 0; i < len(q); i++ {
		vrt.Assume(vrt.Or(vrt.And(q[i] >= 'a', q[i] <= 'b'), q[i] == '.'))
	}
	l := []telem{decl(names, tx("A")), decl("s", tx("S"), use(vrt.Choose("use", 3), q)), tx("<"), use(vrt.Choose("use2", 3), q), tx(">"), ref("s")}
	b := body(l, nil)
	t := compiled(l)
	d := usesData().data(false)
	out := t.Execute(d)
	vrt.Observe(out)
	vrt.Assert(out == rendering(b, []*rec{usesData()}, nil), "a name of a sub template does not designate it")
	sameScopes(t, b, q, d)
}

// C39_scope_names: many names, each of one letter.
func C39_scope_names() {
	k := vrt.Bound("symbolic_names", 3, 5)
	n := []int{4, 5, 9, 20}[vrt.Choose("names", 4)]
	if n < k {
		n = k
	}
	s := vrt.Str("n", k, k, 'a', 'd') + "abcdefghijklmnopqrst"[k:n]
	q := vrt.Str("q", 1, 1, 'a', 't')
	names := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			names += "|"
		}
		names += s[i : i+1]
	}
	l := []telem{decl(names, tx("A"), decl("x", tx("X")), ref("x")), tx("<"), ref(q), tx(">")}
	b := body(l, nil)
	t := compiled(l)
	d := row().data(false)
	out := t.Execute(d)
	vrt.Observe(out)
	vrt.Assert(out == rendering(b, nil, nil), "a name of a sub template does not designate it")
	vrt.Assert((t.GetTemplate(q) != nil) == (b.find(q) != nil), "a name of a sub template does not designate it")
	vrt.Assert(t.GetTemplate("x") == nil && t.GetTemplate(names) == nil, "a sub template is visible outside its scope")
}

// C39_scope_add: templates added by the program, at any level.
func C39_scope_add() {
	q := vrt.Str("q", 1, 1, 'a', 'c')
	kind := vrt.Choose("use", 3)
	l := []telem{
		decl("s", tx("s<"), use(kind, q), tx(">"), decl("b", tx("sb")), decl("t", tx("t"))),
		tx("r<"), use(kind, q), tx(">"), ref("s"),
	}
	if vrt.Choose("existing", 2) == 1 {
		l = append(l, decl("a", tx("ra")))
	}
	b := body(l, nil)
	t := compiled(l)
	for i := 0; i < vrt.Bound("additions", 2, 3); i++ {
		name := vrt.Str("name", 1, 1, 'a', 'c')
		x := []telem{tx("x" + string([]byte{'0' + byte(i)}) + "["), field("f"), tx("]"), decl("z", tx("zz"))}
		if vrt.Choose("uses", 2) == 1 {
			x = append(x, ref("t"), ref("z"))
		}
		xt, xb := compiled(x), body(x, nil)
		at, ab := t, b
		if vrt.Choose("at", 2) == 1 {
			at, ab = t.GetTemplate("s"), b.find("s")
		}
		at.AddTemplate(name, xt)
		xb.up = ab
		ab.add(name, xb)
	}
	d := usesData().data(false)
	out := t.Execute(d)
	vrt.Observe(out)
	vrt.Assert(out == rendering(b, []*rec{usesData()}, nil), "an added template is not available in the right places")
	sameScopes(t, b, q, d)
}

// C39_scope_empty: an empty template can be given sub templates.
func C39_scope_empty() {
	t := xcore.NewXTemplate()
	vrt.Assert(t.GetTemplate("a") == nil, "an empty template has a sub template")
	a, b := vrt.Str("a", 0, 1, 0, 255), vrt.Str("b", 0, 1, 0, 255)
	x, y := compiled([]telem{tx("X")}), compiled([]telem{tx("Y")})
	t.AddTemplate(a, x)
	t.AddTemplate(b, y)
	q := vrt.Str("q", 0, 1, 0, 255)
	want := (*xcore.XTemplate)(nil)
	if q == b {
		want = y
	} else if q == a {
		want = x
	}
	vrt.Assert(t.GetTemplate(q) == want, "GetTemplate gives another template")
	vrt.Assert(y.GetTemplate(q) == nil, "an added template has other sub templates")
}

// everything is a template with all elements; v is a text in it.
func everything(v string) []telem {
	return []telem{
		tx("<" + v), comment("c"), field("f"), entry("e"), tx("|"),
		ref("s"), ref("s", "d"), ref("", "f", "p."), loop("c"), cond("f"), cond("g"), tx(">"),
		decl("s", tx("s("), field("g"), entry("e"), ref("t"), decl("t", tx("t"), field("f"), ref("u"), decl("u", tx("u"), field("x"))), tx(")")),
		decl("p.on", tx("on")), decl("p.", tx("off")),
		decl("c", tx("("), field("x"), ref("s"), decl("s", tx("cs"), field("f")), tx(")")), decl("c.last", tx("last"), field("x")),
		decl("f", tx("F"), field("f")), decl("f.on", tx("F.on")), decl("g", tx("G")), decl("g.none", tx("no")),
	}
}

// everyData is data for everything, with up to n records in the collection.
func everyData(name string, n int) *rec {
	r := row()
	switch vrt.Choose(name+"_f", 3) {
	case 0:
		r.set("f", vrt.Str(name+"_f", 0, 2, 'm', 'o'))
	case 1:
		r.set("f", vrt.Int(name+"_f", 0, 9))
	default:
		r.set("f", nil)
	}
	var list []*rec
	for i := vrt.Int(name+"_c", 0, n); i > 0; i-- {
		list = append(list, row("x", vrt.Str(name+"_x", 1, 1, 0, 255)))
	}
	r.set("c", list)
	if vrt.Bool(name + "_d") {
		r.set("d", row("g", vrt.Str(name+"_g", 0, 1, 0, 255)))
	}
	return r
}

func theTable() *assoc {
	lang := &assoc{}
	lang.set("e", "E"+vrt.Str("e", 1, 1, 0, 255))
	return lang
}

// withTable is the dataset of the record with a language table.
func withTable(r *rec, l *xcore.XLanguage, ts bool) xcore.XDatasetDef {
	d := r.data(ts)
	d.Set("#", l)
	return d
}

// sameData: the dataset still has the content of the record.
func sameData(d xcore.XDatasetDef, r *rec) {
	if _, ok := d.(*xcore.XDataset); ok {
		n := sizeOf(d)
		if _, ok := d.Get("#"); ok {
			n--
		}
		for _, p := range r.e {
			if p.k == "#" || p.k == ".counter" {
				n++
			}
		}
		vrt.Assert(n <= len(r.e), "executing adds values")
	}
	for _, p := range r.e {
		v, ok := d.Get(p.k)
		vrt.Assert(ok, "executing removes a value")
		switch x := p.v.(type) {
		case *rec:
			s, isDS := v.(xcore.XDatasetDef)
			vrt.Assert(isDS, "executing changes a value")
			sameData(s, x)
		case []*rec:
			c, isDC := v.(xcore.XDatasetCollectionDef)
			vrt.Assert(isDC && c.Count() == len(x), "executing changes a collection")
			for i := range x {
				y, _ := c.Get(i)
				sameData(y, x[i])
			}
		default:
			vrt.Assert(v == p.v, "executing changes a value")
		}
	}
}

// sizeOf: the number of entries of a dataset.
func sizeOf(d xcore.XDatasetDef) int {
	n := 0
	switch x := d.(type) {
	case *xcore.XDataset:
		n = len(*x)
		if _, ok := (*x)[".counter"]; ok {
			n--
		}
	}
	return n
}

// present tells which of the keys that a template could touch are there.
func present(d xcore.XDatasetDef) int {
	n := 0
	for _, k := range []string{"", "#", ".counter", "f", "c", "d", "g", "x", "e", "s", "p.", "dump", "id"} {
		n *= 2
		if _, ok := d.Get(k); ok {
			n++
		}
	}
	return n
}

// C39_exec_repeat: executing twice gives the same and changes nothing.
func C39_exec_repeat() {
	l := everything(vrt.Str("v", 1, 1, 'a', 'z'))
	r := everyData("d", 2)
	lang := theTable()
	e := lang.e[0].v
	t := compiled(l)
	ts := false
	lt := table(lang)
	d := withTable(r, lt, ts)
	if vrt.Choose("table", 2) == 0 {
		d.Del("#")
		lang = nil
	}
	n := sizeOf(d)
	keys := present(d)
	if vrt.Choose("other", 2) == 1 {
		// other data in between
		t.Execute(withTable(row("f", "zz", "c", []*rec{row("x", "q"), row("y", "q"), row()}, "d", row("g", "h")), lt, ts))
	}
	a := t.Execute(d)
	vrt.Observe(a)
	sameData(d, r)
	vrt.Assert(sizeOf(d) == n && present(d) == keys, "executing adds values")
	vrt.Assert(len(lt.Entries) == 1 && lt.Get("e") == e, "executing changes the language table")
	b := t.Execute(d)
	vrt.Assert(a == b, "the second execution gives another output")
	vrt.Assert(a == rendering(body(l, nil), []*rec{r}, lang), "the output is wrong")
	vrt.Assert(t.Execute(nil) == compiled(l).Execute(nil), "the output without data depends on earlier executions")
	t.Execute(withTable(row(), lt, ts))
	vrt.Assert(t.Execute(d) == a, "the output depends on earlier executions")
}

// C39_exec_concurrent: one template, one language table, own data.
func C39_exec_concurrent() {
	vrt.MapOrder(2)
	l := everything("v")
	t := compiled(l)
	lang := theTable()
	lt := table(lang)
	ts := false
	r1 := everyData("d", vrt.Bound("records", 1, 2))
	r2 := row("f", "off", "c", []*rec{row("x", vrt.Str("x", 0, 1, 0, 255)), row("x", "w")})
	b := body(l, nil)
	w1, w2 := rendering(b, []*rec{r1}, lang), rendering(b, []*rec{r2}, lang)
	d1, d2 := withTable(r1, lt, ts), withTable(r2, lt, ts)
	var o1, o2 string
	vrt.Preempt(vrt.Bound("preemptions", 2, 3))
	vrt.Go(func() { o1 = t.Execute(d1) })
	vrt.Go(func() { o2 = t.Execute(d2) })
	vrt.Join()
	vrt.Assert(o1 == w1 && o2 == w2, "a concurrent execution gives another output")
}

// C39_exec_shared: executing while the same template is read, or looked up.
func C39_exec_shared() {
	vrt.MapOrder(2)
	l := everything("v")
	t := compiled(l)
	r := everyData("d", vrt.Bound("records", 1, 2))
	lang := theTable()
	lt := table(lang)
	want := rendering(body(l, nil), []*rec{r}, lang)
	d, d2 := withTable(r, lt, false), withTable(row("g", "G"), lt, false)
	what := vrt.Choose("what", 5)
	var o string
	vrt.Preempt(1)
	vrt.Go(func() { o = t.Execute(d) })
	vrt.Go(func() {
		switch what {
		case 0:
			t.GetTemplate("c")
		case 1:
			t.GetTemplate("s").GetTemplate("t").GetTemplate("u")
		case 2:
			t.Execute(nil)
		case 3:
			t.GetTemplate("s").Execute(d2)
		default:
			lt.Get("e")
		}
	})
	vrt.Join()
	vrt.Assert(o == want, "a concurrent execution gives another output")
}

// fileContent is the content of a file: any few bytes after some known text.
func fileContent(starts ...string) string {
	start := starts[vrt.Choose("start", len(starts))]
	if len(start) > 100 {
		return start + vrt.Str("content", 1, 1, 0, 255)
	}
	return start + vrt.Str("content", 0, vrt.Bound("bytes", 3, 4), 0, 255)
}

// C37_file: a template file.
func C37_file() {
	s := fileContent("", "{{f}}\n", "[[f]]x[[]]??f??", strings.Repeat("0123456789", 60), strings.Repeat("0123456789abcdef\n", 300))
	p := vrt.File("a.template", s)
	a, err := xcore.NewXTemplateFromFile(p)
	b, err2 := xcore.NewXTemplateFromString(s)
	vrt.Observe(err == nil)
	vrt.Assert((err == nil) == (err2 == nil), "loading the file and its content differ")
	vrt.Assert((a == nil) == (err != nil), "a template is returned if and only if there is no error")
	c := xcore.NewXTemplate()
	vrt.Assert((c.LoadFile(p) == nil) == (err2 == nil), "loading the file and its content differ")
	if err == nil {
		d := row("f", "F").data(false)
		vrt.Assert(a.Execute(d) == b.Execute(d) && c.Execute(d) == b.Execute(d), "the template of the file and of its content differ")
	}
}

// sameLanguage: two tables are equal.
func sameLanguage(a, b *xcore.XLanguage) {
	x, y := a.Entries, b.Entries
	vrt.Assert(len(x) == len(y), "the table of the file and of its content differ")
	for k, v := range y {
		w, ok := x[k]
		vrt.Assert(ok && v == w, "the table of the file and of its content differ")
	}
	vrt.Assert(a.GetName() == b.GetName() && a.GetLanguage() == b.GetLanguage(), "the table of the file and of its content differ")
}

// C36_file_flat: a flat language file.
func C36_file_flat() {
	s := fileContent("", "a=b\n", strings.Repeat("#0123456789\n", 60), strings.Repeat("k=0123456789abcdef\n", 300))
	p := vrt.File("a.language", s)
	a, err := xcore.NewXLanguageFromFile(p)
	b, err2 := xcore.NewXLanguageFromString(s)
	vrt.Observe(err == nil)
	vrt.Assert(err == nil && err2 == nil && a != nil && b != nil, "a flat file cannot be loaded")
	sameLanguage(a, b)
	c, e := xcore.NewXLanguage("n", langTag(1)), xcore.NewXLanguage("n", langTag(1))
	c.Set("a", "old")
	e.Set("a", "old")
	vrt.Assert(c.LoadFile(p) == nil && e.LoadString(s) == nil, "a flat file cannot be loaded")
	sameLanguage(c, e)
}

// C36_file_xml: an XML language file.
func C36_file_xml() {
	s := []string{"", "<?xml version=\"1.0\"?>\n", "<!--" + strings.Repeat(" filler", 200) + "-->"}[vrt.Choose("head", 3)] +
		"<language id=\"n\" lang=\"es\"><entry id=\"a\" status=\"s\">" + vrt.Str("content", 0, vrt.Bound("bytes", 1, 2), ' ', 127) + []string{"", "\x01", "\xff"}[vrt.Choose("invalid", 3)] + "</entry></language" +
		[]string{">", ""}[vrt.Choose("end", 2)]
	p := vrt.File("a.xml", s)
	a, err := xcore.NewXLanguageFromXMLFile(p)
	b, err2 := xcore.NewXLanguageFromXMLString(s)
	vrt.Observe(err == nil)
	vrt.Assert((err == nil) == (err2 == nil), "loading the file and its content differ")
	vrt.Assert((a == nil) == (err != nil) && (b == nil) == (err != nil), "a table is returned if and only if there is no error")
	if err == nil {
		sameLanguage(a, b)
	}
	c, e := xcore.NewXLanguage("m", langTag(0)), xcore.NewXLanguage("m", langTag(0))
	c.Set("a", "old")
	e.Set("a", "old")
	vrt.Assert((c.LoadXMLFile(p) == nil) == (e.LoadXMLString(s) == nil), "loading the file and its content differ")
	sameLanguage(c, e)
	if err != nil {
		vrt.Assert(c.Get("a") == "old" && c.GetName() == "m", "a failed load changes the table")
	}
}

// C36_file_fail: files that cannot be opened or read.
func C36_file_fail() {
	p := vrt.NoFile("f")
	if vrt.Choose("dir", 2) == 1 {
		p = vrt.DirFile("d")
	}
	k, v := vrt.Str("k", 0, 1, 0, 255), vrt.Str("v", 0, 1, 0, 255)
	l := xcore.NewXLanguage("n", langTag(1))
	l.Set(k, v)
	switch vrt.Choose("load", 4) {
	case 0:
		x, err := xcore.NewXLanguageFromFile(p)
		vrt.Assert(err != nil && x == nil, "a file that cannot be read gives a table")
	case 1:
		x, err := xcore.NewXLanguageFromXMLFile(p)
		vrt.Assert(err != nil && x == nil, "a file that cannot be read gives a table")
	case 2:
		vrt.Assert(l.LoadFile(p) != nil, "a file that cannot be read gives no error")
	default:
		vrt.Assert(l.LoadXMLFile(p) != nil, "a file that cannot be read gives no error")
	}
	m := &assoc{}
	m.set(k, v)
	sameTable(l, m, "after a failed load")
	vrt.Assert(l.GetName() == "n" && l.GetLanguage() == langTag(1), "a failed load changes the table")
}

// C37_nofile: template files that cannot be opened or read.
func C37_nofile() {
	p := vrt.NoFile("f")
	if vrt.Choose("dir", 2) == 1 {
		p = vrt.DirFile("d")
	}
	v := vrt.Str("v", 0, 1, 0, 255)
	t, err := xcore.NewXTemplateFromFile(p)
	vrt.Assert(err != nil && t == nil, "a file that cannot be read gives a template")
	t = compiled([]telem{tx("T" + v)})
	want := t.Execute(nil)
	vrt.Assert(t.LoadFile(p) != nil, "a file that cannot be read gives no error")
	vrt.Assert(t.Execute(nil) == want, "a failed load changes the template")
}
