package zzvh

import (
	"strings"

	xcore "github.com/webability-go/xcore"
	vrt "github.com/webability-go/xcore/zzvrt"
)

// word is any word of small letters, of 3 to 12 letters (16 thorough).
func word(name string) string {
	n := 3 + vrt.Choose(name+"_letters", vrt.Bound("letters", 12, 16)-2)
	return vrt.Str(name, n, n, 'a', 'z')
}

// upper is any word of capital letters.
func upper(name string) string {
	n := 3 + vrt.Choose(name+"_letters", vrt.Bound("letters", 12, 16)-2)
	return vrt.Str(name, n, n, 'A', 'Z')
}

func anyWord(name string) string {
	if vrt.Choose(name+"_case", 2) == 1 {
		return upper(name)
	}
	return word(name)
}

// C31_word: no word is special as a key or as a value.
func C31_word() {
	w := anyWord("w")
	c := xcore.NewXCache(w, vrt.Choose("max", 2)*5, 0)
	c.Set(w, w)
	c.Set("k", w)
	v, inv := c.Get(w)
	vrt.Assert(v == w && !inv, "Get does not return the last stored value")
	v, inv = c.Get("k")
	vrt.Assert(v == w && !inv && c.Count() == 2, "Get does not return the last stored value")
	c.Del(w)
	v, inv = c.Get(w)
	vrt.Assert(v == nil && !inv && c.Count() == 1, "a deleted entry is still there")
	v, inv = c.Get("k")
	vrt.Assert(v == w && !inv, "Del of a key removes another one")
}

// C34_word: no word is special as a key or as a value.
func C34_word() {
	w := anyWord("w")
	d := newDS(false)
	d.Set(w, 1)
	d.Set("k", w)
	v, ok := d.Get(w)
	vrt.Assert(ok && v == 1, "Get returns a wrong value")
	v, ok = d.Get("k")
	vrt.Assert(ok && v == w, "Get returns a wrong value")
	d.Del(w)
	v, ok = d.Get(w)
	vrt.Assert(!ok && v == nil, "a deleted key is still there")
	v, ok = d.Get("k")
	vrt.Assert(ok && v == w, "Del of a key removes another one")
}

// C34_path_word: paths of any words.
func C34_path_word() {
	w, u := anyWord("w"), word("u")
	d := newDS(false)
	r := row(u, 1)
	d.Set(w, r.data(false))
	c := &xcore.XDatasetCollection{}
	c.Push(row(u, 2).data(false))
	d.Set("c", c)
	v, ok := d.Get(w + ">" + u)
	vrt.Assert(ok && v == 1, "a path does not lead to its value")
	v, ok = d.Get("c>0>" + u)
	vrt.Assert(ok && v == 2, "a path does not lead to its value")
	v, ok = d.Get("c>" + u)
	vrt.Assert(!ok && v == nil, "a path with a word as an index leads to a value")
}

// C34_clone_word: clones of any key and text.
func C34_clone_word() {
	w := anyWord("w")
	d := newDS(false)
	d.Set(w, w)
	d.Set("s", row(w, w).data(false))
	e := d.Clone()
	v, ok := e.Get(w)
	vrt.Assert(ok && v == w, "the clone differs")
	s, ok := e.GetDataset("s")
	vrt.Assert(ok && s != nil, "the clone differs")
	v, ok = s.Get(w)
	vrt.Assert(ok && v == w, "the clone differs")
	s.Set(w, 1)
	o, _ := d.GetDataset("s")
	v, _ = o.Get(w)
	vrt.Assert(v == w, "the clone is not independent")
}

// C35_word: lookups of any key.
func C35_word() {
	w := anyWord("w")
	c := xcore.XDatasetCollectionDef(&xcore.XDatasetCollection{})
	c.Push(row(w, "first", "k", w).data(false))
	c.Push(row("k2", 1).data(false))
	v, ok := c.GetData(w)
	vrt.Assert(ok && v == "first", "the value of a record is not found")
	s, ok := c.GetDataString("k")
	vrt.Assert(ok && s == w, "the value of a record is not found")
	c.Push(row(w, w).data(false))
	s, ok = c.GetDataString(w)
	vrt.Assert(ok && s == w, "the last record has no priority")
}

// C40_word: texts with any key and value.
func C40_word() {
	w, u := anyWord("w"), word("u")
	var s, g string
	switch vrt.Choose("what", 3) {
	case 0:
		d := newDS(false)
		d.Set(w, u)
		s, g = d.String(), d.GoString()
	case 1:
		l := xcore.NewXLanguage("n", langTag(1))
		l.Set(w, u)
		s, g = l.String(), l.GoString()
	case 2:
		c := &xcore.XDatasetCollection{}
		c.Push(row(w, u).data(false))
		s, g = c.String(), c.GoString()
	}
	vrt.Assert(strings.Contains(s, w) && strings.Contains(s, u), "the text is not complete")
	vrt.Assert(strings.Contains(g, w) && strings.Contains(g, u), "the Go text is not complete")
}

// C40_longer: texts of long values.
func C40_longer() {
	n := []int{100, 300, 1100, 5000}[vrt.Choose("length", 4)]
	v := strings.Repeat("x", n) + vrt.Str("end", 1, 1, 'a', 'z')
	k := "k"
	if vrt.Choose("key", 2) == 1 {
		k, v = v, "v"
	}
	var s, g string
	switch vrt.Choose("what", 3) {
	case 0:
		d := newDS(false)
		d.Set(k, v)
		s, g = d.String(), d.GoString()
	case 1:
		l := xcore.NewXLanguage("n", langTag(1))
		l.Set(k, v)
		s, g = l.String(), l.GoString()
	case 2:
		c := &xcore.XDatasetCollection{}
		c.Push(row(k, v).data(false))
		s, g = c.String(), c.GoString()
	}
	vrt.Assert(strings.Contains(s, k) && strings.Contains(s, v), "the text is not complete")
	vrt.Assert(strings.Contains(g, k) && strings.Contains(g, v), "the Go text is not complete")
}

// C36_flat_word: lines of any words.
func C36_flat_word() {
	w, u := anyWord("w"), word("u")
	l, err := xcore.NewXLanguageFromString(w + "=" + u + "\nk=" + w)
	vrt.Assert(err == nil && l.Get(w) == u && l.Get("k") == w, "a line is not read as key=value")
}

// C36_word: no word is special.
func C36_word() {
	w, u := anyWord("w"), word("u")
	l := xcore.NewXLanguage("n", langTag(1))
	l.Set(w, u)
	l.Set("k", w)
	vrt.Assert(l.Get(w) == u && l.Get("k") == w, "an entry is not what was set")
	l.Del(w)
	vrt.Assert(l.Get(w) == "" && l.Get("k") == w, "a deleted entry is still there")
}

// C36_xml_word: documents of any words.
func C36_xml_word() {
	n, k, v := "name", "key", "value"
	switch vrt.Choose("which", 3) {
	case 0:
		n = anyWord("w")
	case 1:
		k = anyWord("w")
	case 2:
		v = anyWord("w")
	}
	l, err := xcore.NewXLanguageFromXMLString(`<language id="` + n + `" lang="en"><entry id="` + k + `">` + v + `</entry></language>`)
	vrt.Assert(err == nil && l != nil, "the document cannot be read")
	vrt.Assert(l.GetName() == n && l.Get(k) == v, "the document is read wrong")
}

// C37_text_word: texts of any words.
func C37_text_word() {
	w := anyWord("w")
	t := compiled([]telem{tx(w), comment(w), tx("<" + w + ">")})
	vrt.Assert(t.Execute(nil) == w+"<"+w+">", "the text is changed")
}

// C37_word: fields and entries of any name.
func C37_word() {
	w, u := anyWord("w"), word("u")
	t := compiled([]telem{tx("<"), field(w), tx("|"), entry(w), tx(">")})
	d := row(w, u).data(false)
	l := xcore.NewXLanguage("n", langTag(1))
	l.Set(w, u)
	d.Set("#", l)
	vrt.Assert(t.Execute(d) == "<"+u+"|"+u+">", "a value is not injected")
}

// C38_ref_word: references to any name.
func C38_ref_word() {
	w, u := word("w"), word("u")
	t := compiled([]telem{tx("<"), ref(w), tx("|"), ref(w, "d"), tx(">"), decl(w, tx("("), field("f"), tx(")"))})
	d := row("f", u, "d", row("f", w)).data(false)
	vrt.Assert(t.Execute(d) == "<("+u+")|("+w+")>", "a sub template is not injected")
}

// C38_loop_word: loops of any name.
func C38_loop_word() {
	w := word("w")
	t := compiled([]telem{tx("<"), loop(w), tx(">"), decl(w, tx("("), field("f"), tx(")"))})
	d := row(w, []*rec{row("f", 1), row("f", w)}).data(false)
	vrt.Assert(t.Execute(d) == "<(1)("+w+")>", "a record is not rendered")
}

// C38_cond_word: conditions on any name and any value.
func C38_cond_word() {
	w, u := word("w"), word("u")
	t := compiled([]telem{tx("<"), cond(w), tx("|"), cond("z1", w), tx(">"), decl(w, tx("base")), decl(w+".value", tx("variant"))})
	d := row(w, u).data(false)
	want := "base"
	if u == "value" {
		want = "variant"
	}
	vrt.Assert(t.Execute(d) == "<"+want+"|>", "the wrong template is rendered")
}

// C39_word: sub templates of any name.
func C39_word() {
	w := word("w")
	t := compiled([]telem{tx("T"), decl(w, tx("S"), decl("i1", tx("I")))})
	s := t.GetTemplate(w)
	vrt.Assert(s != nil && s.Execute(nil) == "S", "a sub template is not found")
	vrt.Assert(s.GetTemplate("i1") != nil && s.GetTemplate(w) == nil, "a sub template is found elsewhere")
	vrt.Assert(t.GetTemplate("i1") == nil, "a sub template is visible above")
	u := xcore.NewXTemplate()
	vrt.Assert(u.LoadString("U") == nil, "loading fails")
	t.AddTemplate(w+w, u)
	vrt.Assert(t.GetTemplate(w+w) == u && t.GetTemplate(w) == s, "an added sub template is not found")
}
