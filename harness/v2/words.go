package zzvh

import (
	"strings"

	xcore "github.com/webability-go/xcore/v2"
	vrt "github.com/webability-go/xcore/v2/zzvrt"
)

// word is any word of small letters, of 3 to 12 letters (16 thorough).
func word(name string) string {
	n := 3 + vrt.Choose(name+"_letters", vrt.Bound("letters", 12, 16)-2)
	return vrt.Str(name, n, n, 'a', 'z')
}

// upper is any word of capital letters.
func upper(name string) string {
	n := 3 + vrt.Choose(name+"_letters", vrt.Bound("letters", 12, 16)-2)
	return vrt.Str(name, n, n, 'A', 'Z')
}

func anyWord(name string) string {
	if vrt.Choose(name+"_case", 2) == 1 {
		return upper(name)
	}
	return word(name)
}

// C01_word: no word is special as a key or as a value.
func C01_word() {
	w := anyWord("w")
	c := xcore.NewXCache(w, vrt.Choose("max", 2)*5, 0)
	c.Set(w, w)
	c.Set("k", w)
	v, inv := c.Get(w)
	vrt.Assert(v == w && !inv, "Get does not return the last stored value")
	v, inv = c.Get("k")
	vrt.Assert(v == w && !inv && c.Count() == 2, "Get does not return the last stored value")
	c.Del(w)
	v, inv = c.Get(w)
	vrt.Assert(v == nil && !inv && c.Count() == 1, "a deleted entry is still there")
	v, inv = c.Get("k")
	vrt.Assert(v == w && !inv, "Del of a key removes another one")
}

// C07_word: no word is special as a key or as a value.
func C07_word() {
	w := anyWord("w")
	d := newDS(vrt.Choose("ts", 2) == 1)
	d.Set(w, 1)
	d.Set("k", w)
	v, ok := d.Get(w)
	vrt.Assert(ok && v == 1, "Get returns a wrong value")
	v, ok = d.Get("k")
	vrt.Assert(ok && v == w, "Get returns a wrong value")
	d.Del(w)
	v, ok = d.Get(w)
	vrt.Assert(!ok && v == nil, "a deleted key is still there")
	v, ok = d.Get("k")
	vrt.Assert(ok && v == w, "Del of a key removes another one")
}

// C08_word: paths of any words.
func C08_word() {
	w, u := anyWord("w"), word("u")
	d := newDS(vrt.Choose("ts", 2) == 1)
	r := row(u, 1)
	d.Set(w, r.data(false))
	c := &xcore.XDatasetCollection{}
	c.Push(row(u, 2).data(false))
	d.Set("c", c)
	v, ok := d.Get(w + ">" + u)
	vrt.Assert(ok && v == 1, "a path does not lead to its value")
	v, ok = d.Get("c>0>" + u)
	vrt.Assert(ok && v == 2, "a path does not lead to its value")
	v, ok = d.Get("c>" + u)
	vrt.Assert(!ok && v == nil, "a path with a word as an index leads to a value")
}

// C10_word: clones of any key and text.
func C10_word() {
	w := anyWord("w")
	d := newDS(vrt.Choose("ts", 2) == 1)
	d.Set(w, w)
	d.Set("s", row(w, w).data(false))
	e := d.Clone()
	v, ok := e.Get(w)
	vrt.Assert(ok && v == w, "the clone differs")
	s, ok := e.GetDataset("s")
	vrt.Assert(ok && s != nil, "the clone differs")
	v, ok = s.Get(w)
	vrt.Assert(ok && v == w, "the clone differs")
	s.Set(w, 1)
	o, _ := d.GetDataset("s")
	v, _ = o.Get(w)
	vrt.Assert(v == w, "the clone is not independent")
}

// C12_word: lookups of any key.
func C12_word() {
	w := anyWord("w")
	c := []xcore.XDatasetCollectionDef{&xcore.XDatasetCollection{}, &xcore.XDatasetCollectionTS{}}[vrt.Choose("ts", 2)]
	c.Push(row(w, "first", "k", w).data(false))
	c.Push(row("k2", 1).data(false))
	v, ok := c.GetData(w)
	vrt.Assert(ok && v == "first", "the value of a record is not found")
	s, ok := c.GetDataString("k")
	vrt.Assert(ok && s == w, "the value of a record is not found")
	c.Push(row(w, w).data(false))
	s, ok = c.GetDataString(w)
	vrt.Assert(ok && s == w, "the last record has no priority")
}

// C15_word: conversions of maps with any key.
func C15_word() {
	w := anyWord("w")
	d := xcore.NewXDataset(map[string]interface{}{w: w, "m": map[string]interface{}{w: 1}, "l": []map[string]interface{}{{w: 2}}})
	v, ok := d.Get(w)
	vrt.Assert(ok && v == w, "a value is lost")
	v, ok = d.Get("m>" + w)
	vrt.Assert(ok && v == 1, "a value of a nested map is lost")
	v, ok = d.Get("l>0>" + w)
	vrt.Assert(ok && v == 2, "a value of a list of maps is lost")
}

// C16_word: texts with any key and value.
func C16_word() {
	w, u := anyWord("w"), word("u")
	var s, g string
	switch vrt.Choose("what", 3) {
	case 0:
		d := newDS(vrt.Choose("ts", 2) == 1)
		d.Set(w, u)
		s, g = d.String(), d.GoString()
	case 1:
		l := xcore.NewXLanguage("n", langTag(1))
		l.Set(w, u)
		s, g = l.String(), l.GoString()
	case 2:
		c := &xcore.XDatasetCollection{}
		c.Push(row(w, u).data(false))
		s, g = c.String(), c.GoString()
	}
	vrt.Assert(strings.Contains(s, w) && strings.Contains(s, u), "the text is not complete")
	vrt.Assert(strings.Contains(g, w) && strings.Contains(g, u), "the Go text is not complete")
}

// C16_longer: texts of long values.
func C16_longer() {
	n := []int{100, 300, 1100, 5000}[vrt.Choose("length", 4)]
	v := strings.Repeat("x", n) + vrt.Str("end", 1, 1, 'a', 'z')
	k := "k"
	if vrt.Choose("key", 2) == 1 {
		k, v = v, "v"
	}
	var s, g string
	switch vrt.Choose("what", 4) {
	case 0:
		d := newDS(vrt.Choose("ts", 2) == 1)
		d.Set(k, v)
		s, g = d.String(), d.GoString()
	case 1:
		l := xcore.NewXLanguage("n", langTag(1))
		l.Set(k, v)
		s, g = l.String(), l.GoString()
	case 2:
		c := &xcore.XDatasetCollection{}
		c.Push(row(k, v).data(false))
		s, g = c.String(), c.GoString()
	case 3:
		c := &xcore.XDatasetCollectionTS{}
		c.Push(row(k, v).data(false))
		s, g = c.String(), c.GoString()
	}
	vrt.Assert(strings.Contains(s, k) && strings.Contains(s, v), "the text is not complete")
	vrt.Assert(strings.Contains(g, k) && strings.Contains(g, v), "the Go text is not complete")
}

// C17_word: lines of any words.
func C17_word() {
	w, u := anyWord("w"), word("u")
	l, err := xcore.NewXLanguageFromString(w + "=" + u + "\nk=" + w)
	vrt.Assert(err == nil && l.Get(w) == u && l.Get("k") == w && len(l.GetEntries()) == 2, "a line is not read as key=value")
}

// C18_word: no word is special.
func C18_word() {
	w, u, s := anyWord("w"), word("u"), word("s")
	l := xcore.NewXLanguage("n", langTag(1))
	l.Set(w, u)
	l.SetStatus(w, s)
	l.Set("k", w)
	vrt.Assert(l.Get(w) == u && l.GetStatus(w) == s && l.Get("k") == w && l.GetStatus("k") == "", "an entry is not what was set")
	vrt.Assert(len(l.GetEntries()) == 2, "the number of entries is wrong")
	l.Del(w)
	vrt.Assert(l.Get(w) == "" && len(l.GetEntries()) == 1 && l.Get("k") == w, "a deleted entry is still there")
}

// C19_word: documents of any words.
func C19_word() {
	n, k, v, s := "name", "key", "value", "status"
	switch vrt.Choose("which", 4) {
	case 0:
		n = anyWord("w")
	case 1:
		k = anyWord("w")
	case 2:
		v = anyWord("w")
	case 3:
		s = anyWord("w")
	}
	l := xcore.NewXLanguage(n, langTag(1))
	l.Set(k, v)
	l.SetStatus(k, s)
	r, err := xcore.NewXLanguageFromXMLString(l.GetXML())
	vrt.Assert(err == nil && r != nil, "the document cannot be read back")
	vrt.Assert(r.GetName() == n && r.Get(k) == v && r.GetStatus(k) == s && len(r.GetEntries()) == 1, "the document is read back changed")
}

// C21_word: texts of any words.
func C21_word() {
	w := anyWord("w")
	t := compiled([]telem{tx(w), comment(w), tx("<" + w + ">")})
	vrt.Assert(t.Execute(nil) == w+"<"+w+">", "the text is changed")
}

// C23_word: fields and entries of any name.
func C23_word() {
	w, u := anyWord("w"), word("u")
	t := compiled([]telem{tx("<"), field(w), tx("|"), entry(w), tx(">")})
	d := row(w, u).data(vrt.Choose("ts", 2) == 1)
	l := xcore.NewXLanguage("n", langTag(1))
	l.Set(w, u)
	d.Set("#", l)
	vrt.Assert(t.Execute(d) == "<"+u+"|"+u+">", "a value is not injected")
}

// C24_word: references to any name.
func C24_word() {
	w, u := word("w"), word("u")
	t := compiled([]telem{tx("<"), ref(w), tx("|"), ref(w, "d"), tx(">"), decl(w, tx("("), field("f"), tx(")"))})
	d := row("f", u, "d", row("f", w)).data(false)
	vrt.Assert(t.Execute(d) == "<("+u+")|("+w+")>", "a sub template is not injected")
}

// C25_word: loops of any name.
func C25_word() {
	w := word("w")
	t := compiled([]telem{tx("<"), loop(w), tx(">"), decl(w, tx("("), field("f"), tx(")"))})
	d := row(w, []*rec{row("f", 1), row("f", w)}).data(vrt.Choose("ts", 2) == 1)
	vrt.Assert(t.Execute(d) == "<(1)("+w+")>", "a record is not rendered")
}

// C26_word: conditions on any name and any value.
func C26_word() {
	w, u := word("w"), word("u")
	t := compiled([]telem{tx("<"), cond(w), tx("|"), cond("z1", w), tx(">"), decl(w, tx("base")), decl(w+".value", tx("variant"))})
	d := row(w, u).data(vrt.Choose("ts", 2) == 1)
	want := "base"
	if u == "value" {
		want = "variant"
	}
	vrt.Assert(t.Execute(d) == "<"+want+"|base>", "the wrong template is rendered")
}

// C27_word: sub templates of any name.
func C27_word() {
	w := word("w")
	t := compiled([]telem{tx("T"), decl(w, tx("S"), decl("i1", tx("I")))})
	s := t.GetTemplate(w)
	vrt.Assert(s != nil && s.Execute(nil) == "S", "a sub template is not found")
	vrt.Assert(s.GetTemplate("i1") != nil && s.GetTemplate(w) == s, "a sub template is not visible below")
	vrt.Assert(t.GetTemplate("i1") == nil, "a sub template is visible above")
	u := xcore.NewXTemplate()
	vrt.Assert(u.LoadString("U") == nil, "loading fails")
	t.AddTemplate(w+w, u)
	vrt.Assert(t.GetTemplate(w+w) == u && t.GetTemplate(w) == s, "an added sub template is not found")
	c := t.Clone()
	vrt.Assert(c.GetTemplate(w) != nil && c.GetTemplate(w).Execute(nil) == "S", "a sub template is not found in the clone")
}
