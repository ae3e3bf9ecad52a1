package zzvh

import (
	"strings"

	"golang.org/x/text/language"

	xcore "github.com/webability-go/xcore/v2"
	vrt "github.com/webability-go/xcore/v2/zzvrt"
)

// langTag is one of a few languages.
func langTag(i int) language.Tag {
	return []language.Tag{language.English, language.Spanish, language.French}[i]
}

// parseFlat is the meaning of a flat language text.
func parseFlat(text string, m *assoc) {
	start := 0
	for i := 0; i <= len(text); i++ {
		if i < len(text) && text[i] != '\n' {
			continue
		}
		line := text[start:i]
		start = i + 1
		if len(line) > 0 && (line[0] == '#' || line[0] == ';') {
			continue
		}
		for j := 0; j < len(line); j++ {
			if line[j] == '=' {
				k := strings.TrimSpace(line[:j])
				if len(k) > 0 {
					m.set(k, strings.TrimSpace(line[j+1:]))
				}
				break
			}
		}
	}
}

// sameTable: the entries are those of the model.
func sameTable(l *xcore.XLanguage, m *assoc, what string) {
	e := l.GetEntries()
	vrt.Assert(len(e) == len(m.e), what+": wrong number of entries")
	for _, p := range m.e {
		v, ok := e[p.k]
		vrt.Assert(ok, what+": an entry is missing")
		vrt.Assert(v == p.v, what+": an entry has a wrong value")
		vrt.Assert(l.Get(p.k) == p.v, what+": Get gives a wrong value")
	}
}

// C17_bytes: any short text.
func C17_bytes() {
	text := vrt.Str("text", 0, vrt.Bound("bytes", 5, 6), 0, 255)
	l, err := xcore.NewXLanguageFromString(text)
	vrt.Assert(err == nil && l != nil, "loading fails")
	m := &assoc{}
	parseFlat(text, m)
	vrt.Observe(l.GetEntries())
	sameTable(l, m, "flat text")
	if len(m.e) > 0 {
		vrt.Cover("some entry")
	}
}

// flatLine is a line of a structured text without its end.
func flatLine(kl, vl int) string {
	k := vrt.Str("key", 0, kl, 0, 127)
	s := []string{"=", " = ", "", "\t=", "=="}[vrt.Choose("sep", vrt.Bound("separators", 3, 5))]
	v := vrt.Str("value", 0, vl, 0, 127)
	return k + s + v
}

// C17_lines: texts of several lines loaded into a table with entries.
func C17_lines() {
	n := vrt.Bound("lines", 2, 3)
	l := xcore.NewXLanguage("n", language.English)
	m := &assoc{}
	k, v := "k", vrt.Str("old", 1, 1, 'a', 'z')
	l.Set(k, v)
	l.SetStatus(k, "s")
	m.set(k, v)
	text := ""
	for i := 0; i < n; i++ {
		text += flatLine(1, 1)
		if i < n-1 {
			text += []string{"\n", "\r\n", "\n\n"}[vrt.Choose("end", vrt.Bound("ends", 2, 3))]
		} else {
			text += []string{"", "\r\n", "\n"}[vrt.Choose("last", vrt.Bound("ends", 2, 3))]
		}
	}
	vrt.Assert(l.LoadString(text) == nil, "loading fails")
	parseFlat(text, m)
	vrt.Observe(l.GetEntries())
	sameTable(l, m, "flat text")
	vrt.Assert(l.GetStatus(k) == "s", "loading changes the status of an entry")
	vrt.Assert(l.GetName() == "n" && l.GetLanguage() == language.English, "loading changes name or language")
}

// C17_keys: longer keys and values with white space of all kinds.
func C17_keys() {
	piece := func(name string) string {
		return []string{"", " ", "\t ", " ", " ", "\v", "\r", "#", ";", "é"}[vrt.Choose(name, 10)]
	}
	k := vrt.Str("key", 0, vrt.Bound("key_bytes", 2, 3), ' ', '~')
	v := vrt.Str("value", 0, vrt.Bound("value_bytes", 1, 3), ' ', '~')
	text := piece("before") + k + piece("after") + "=" + v + piece("end")
	l, err := xcore.NewXLanguageFromString(text)
	vrt.Assert(err == nil && l != nil, "loading fails")
	m := &assoc{}
	parseFlat(text, m)
	vrt.Observe(l.GetEntries())
	sameTable(l, m, "flat text")
}

// C17_long: long lines and many lines.
func C17_long() {
	v := vrt.Str("value", 1, 1, 'a', 'z')
	k := vrt.Str("key", 1, 1, 'a', 'c')
	size := []int{62, 126, 1000, 4090, 4096, 32768, 65530}[vrt.Choose("size", 7)]
	pad := strings.Repeat("y", size)
	text := ""
	m := &assoc{}
	switch vrt.Choose("form", 3) {
	case 0: // a long value
		text = k + "=" + pad + v + "\nb=" + v
		m.set(k, pad+v)
	case 1: // a long key
		text = k + pad + "=" + v + "\nb=" + v
		m.set(k+pad, v)
	default: // many lines to ignore
		text = strings.Repeat("#\n", size/16) + k + "=z\n" + strings.Repeat("\n", 130) + "b=" + v
		m.set(k, "z")
	}
	m.set("b", v)
	l, err := xcore.NewXLanguageFromString(text)
	vrt.Assert(err == nil && l != nil, "loading fails")
	sameTable(l, m, "flat text")
}

// C18_history: the table after any history.
func C18_history() {
	n := vrt.Bound("operations", 3, 4)
	kl := vrt.Bound("key_bytes", 1, 2)
	var l *xcore.XLanguage
	name, tag := "x", 0
	var err error
	m, s := &assoc{}, &assoc{}
	switch vrt.Choose("made", 3) {
	case 0:
		l = xcore.NewXLanguage(name, langTag(tag))
	case 1:
		l, err = xcore.NewXLanguageFromString("p=q")
		name, tag = "", -1
		m.set("p", "q")
	default:
		l, err = xcore.NewXLanguageFromXMLString(`<language id="x" lang="en"><entry id="p" status="r">q</entry></language>`)
		m.set("p", "q")
		s.set("p", "r")
	}
	vrt.Assert(err == nil && l != nil, "a table cannot be made")
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 4) {
		case 0:
			k, v := vrt.Str("k", 0, kl, 0, 255), vrt.Str("v", 0, 1, 0, 255)
			l.Set(k, v)
			m.set(k, v)
		case 1:
			k, v := vrt.Str("k", 0, kl, 0, 255), vrt.Str("v", 0, 1, 0, 255)
			l.SetStatus(k, v)
			s.set(k, v)
		case 2:
			k := vrt.Str("k", 0, kl, 0, 255)
			l.Del(k)
			m.del(k)
			s.del(k)
		default:
			e := l.GetEntries()
			e[vrt.Str("k", 1, 1, 0, 255)] = "changed"
			for k := range e {
				e[k] = "gone"
				delete(e, k)
			}
		}
	}
	q := vrt.Str("q", 0, kl, 0, 255)
	want := ""
	if v, ok := m.get(q); ok {
		want = v.(string)
	}
	vrt.Assert(l.Get(q) == want, "Get gives a wrong value")
	want = ""
	if v, ok := s.get(q); ok {
		want = v.(string)
	}
	vrt.Assert(l.GetStatus(q) == want, "GetStatus gives a wrong status")
	sameTable(l, m, "table")
	vrt.Assert(l.GetName() == name, "GetName gives a wrong name")
	if tag >= 0 {
		vrt.Assert(l.GetLanguage() == langTag(tag), "GetLanguage gives a wrong language")
	}
}

// C18_names: name and language.
func C18_names() {
	name, tag := vrt.Str("first", 0, 1, 0, 255), vrt.Choose("tag", 3)
	l := xcore.NewXLanguage(name, langTag(tag))
	m := &assoc{}
	for i := 0; i < vrt.Bound("operations", 3, 5); i++ {
		switch vrt.Choose("op", 4) {
		case 0:
			name = vrt.Str("name", 0, 2, 0, 255)
			l.SetName(name)
		case 1:
			tag = vrt.Choose("tag", 3)
			l.SetLanguage(langTag(tag))
		case 2:
			k, v := vrt.Str("k", 0, 1, 0, 255), vrt.Str("v", 0, 1, 0, 255)
			l.Set(k, v)
			m.set(k, v)
		default:
			vrt.Assert(l.LoadString("k=v") == nil, "loading fails")
			m.set("k", "v")
		}
		vrt.Assert(l.GetName() == name, "GetName gives a wrong name")
		vrt.Assert(l.GetLanguage() == langTag(tag), "GetLanguage gives a wrong language")
	}
	sameTable(l, m, "table")
}

// C18_copy: GetEntries is a copy of that moment.
func C18_copy() {
	l := xcore.NewXLanguage("n", langTag(0))
	m := &assoc{}
	for i := 0; i < vrt.Bound("entries", 2, 3); i++ {
		k, v := vrt.Str("k", 1, 1, 0, 255), vrt.Str("v", 0, 1, 0, 255)
		l.Set(k, v)
		m.set(k, v)
	}
	e := l.GetEntries()
	k, v := vrt.Str("nk", 1, 1, 0, 255), vrt.Str("nv", 0, 1, 0, 255)
	switch vrt.Choose("change", 4) {
	case 0:
		l.Set(k, v)
	case 1:
		l.Del(k)
	case 2:
		vrt.Assert(l.LoadString("k="+"v") == nil, "loading fails")
	default:
		vrt.Assert(l.LoadXMLString(`<language><entry id="a">b</entry></language>`) == nil, "loading fails")
	}
	vrt.Assert(len(e) == len(m.e), "a change of the table changes the entries taken before")
	for _, p := range m.e {
		x, ok := e[p.k]
		vrt.Assert(ok && x == p.v, "a change of the table changes the entries taken before")
	}
}

// xmlText is a text of valid XML characters.
func xmlText(name string, max int) string {
	s := vrt.Str(name, 0, max, '\t', '~')
	for i := 0; i < len(s); i++ {
		c := s[i]
		vrt.Assume(vrt.Or(c >= ' ', vrt.Or(c == '\t', vrt.Or(c == '\n', c == '\r'))))
	}
	return s
}

func reload(l *xcore.XLanguage) *xcore.XLanguage {
	text := l.GetXML()
	r, err := xcore.NewXLanguageFromXMLString(text)
	vrt.Assert(err == nil && r != nil, "the text of GetXML cannot be loaded")
	return r
}

// C19_entry: one entry with any texts.
func C19_entry() {
	l := xcore.NewXLanguage("n", langTag(0))
	n := vrt.Bound("bytes", 2, 3)
	k, v, s := "k", "v", "s"
	switch vrt.Choose("part", 3) {
	case 0:
		k = xmlText("k", n)
	case 1:
		v = []string{"", "]", "]]", "<![CDATA["}[vrt.Choose("lead", 4)] + xmlText("v", n)
	default:
		s = xmlText("s", n)
	}
	l.Set(k, v)
	l.SetStatus(k, s)
	r := reload(l)
	m := &assoc{}
	m.set(k, v)
	vrt.Observe(r.GetEntries(), r.GetStatus(k))
	sameTable(r, m, "read back")
	vrt.Assert(r.GetStatus(k) == s, "a status is not read back")
	vrt.Assert(r.GetName() == "n" && r.GetLanguage() == langTag(0), "name or language is not read back")
	sameTable(l, m, "GetXML changes the table")
}

// C19_name: the name and the language.
func C19_name() {
	name := xmlText("name", vrt.Bound("bytes", 2, 3))
	tag := language.Und
	if i := vrt.Choose("tag", 4); i < 3 {
		tag = langTag(i)
	}
	l := xcore.NewXLanguage(name, tag)
	vrt.Assert(l.GetName() == name && l.GetLanguage() == tag, "a new table has another name or language")
	r := reload(l)
	vrt.Observe(r.GetName())
	vrt.Assert(r.GetName() == name, "the name is not read back")
	vrt.Assert(r.GetLanguage() == tag, "the language is not read back")
	vrt.Assert(len(r.GetEntries()) == 0, "entries are read back from an empty table")
}

// C19_table: several entries, with and without statuses.
func C19_table() {
	vrt.MapOrder(1)
	l := xcore.NewXLanguage("n", langTag(1))
	m, st := &assoc{}, &assoc{}
	for i := 0; i < vrt.Bound("entries", 2, 3); i++ {
		k, v := vrt.Str("k", 1, 1, 'a', 'z'), vrt.Str("v", 0, 1, 'a', 'z')
		l.Set(k, v)
		m.set(k, v)
		if vrt.Choose("withstatus", 2) == 1 {
			s := vrt.Str("s", 0, 1, 'a', 'z')
			l.SetStatus(k, s)
			st.set(k, s)
		}
	}
	if vrt.Choose("delete", 2) == 1 {
		k := vrt.Str("dk", 1, 1, 'a', 'z')
		l.Del(k)
		m.del(k)
		st.del(k)
	}
	r := reload(l)
	vrt.Observe(len(r.GetEntries()))
	sameTable(r, m, "read back")
	for _, p := range m.e {
		want := ""
		if s, ok := st.get(p.k); ok {
			want = s.(string)
		}
		vrt.Assert(r.GetStatus(p.k) == want, "a status is not read back")
	}
	vrt.Assert(r.GetName() == "n" && r.GetLanguage() == langTag(1), "name or language is not read back")
}

// C19_other: characters beyond ASCII.
func C19_other() {
	t := []string{"é", "日本", " ", "𝄞", "\u0085", "a b"}[vrt.Choose("char", 6)] + vrt.Str("t", 0, 1, ' ', '~')
	l := xcore.NewXLanguage(t, langTag(2))
	l.Set(t, t)
	l.SetStatus(t, t)
	r := reload(l)
	m := &assoc{}
	m.set(t, t)
	sameTable(r, m, "read back")
	vrt.Assert(r.GetStatus(t) == t && r.GetName() == t, "name or status is not read back")
}

// C19_document: documents in other forms than those of GetXML.
func C19_document() {
	l := xcore.NewXLanguage("old", langTag(2))
	ok, ov := vrt.Str("oldkey", 1, 1, 'a', 'c'), vrt.Str("old", 1, 1, 'a', 'z')
	l.Set(ok, ov)
	m, st := &assoc{}, &assoc{}
	m.set(ok, ov)
	text := []string{"", "<?xml version=\"1.0\"?>\n", "<!-- c -->"}[vrt.Choose("head", 3)] + `<language id="new" lang="es">`
	for i := 0; i < 2; i++ {
		k := vrt.Str("k", 1, 1, 'a', 'c')
		v := vrt.Str("v", 0, 1, 'a', 'z')
		switch vrt.Choose("form", vrt.Bound("forms", 6, 8)) {
		case 0:
			text += `<entry id="` + k + `">` + v + `</entry>`
			m.set(k, v)
			st.set(k, "")
		case 1:
			text += "\n <entry status='t' id='" + k + "'><![CDATA[" + v + "&lt;]]></entry>"
			m.set(k, v+"&lt;")
			st.set(k, "t")
		case 2:
			text += `<entry id="` + k + `" status="&amp;">&lt;` + v + "&#65; </entry >\n"
			m.set(k, "<"+v+"A ")
			st.set(k, "&")
		case 3:
			text += `<entry id="` + k + `"/>`
			m.set(k, "")
			st.set(k, "")
		case 4:
			text += `<other id="` + k + `">x</other><!-- <entry id="z">z</entry> -->`
		case 5:
			text += `<entry id="` + k + `">` + v + `<![CDATA[b]]>c<!-- d -->e</entry>`
			m.set(k, v+"bce")
			st.set(k, "")
		case 6:
			text += `<group><entry id="` + k + `">` + v + `</entry></group>`
		default:
			text += `<entry extra="1" id="` + k + `"> ` + v + "\n</entry>"
			m.set(k, " "+v+"\n")
			st.set(k, "")
		}
	}
	err := l.LoadXMLString(text + "</language>\n")
	vrt.Assert(err == nil, "a well formed document is refused")
	vrt.Observe(l.GetEntries())
	sameTable(l, m, "document")
	for _, p := range st.e {
		vrt.Assert(l.GetStatus(p.k) == p.v, "a status is wrong")
	}
	vrt.Assert(l.GetName() == "new" && l.GetLanguage() == langTag(1), "name or language of the document is not taken")
}

// C19_malformed: a document cut anywhere is refused and changes nothing.
func C19_malformed() {
	doc := `<language id="b" lang="es"><entry id="k" status="s">v<![CDATA[w]]>&amp;</entry></language>`
	cut := vrt.Choose("cut", len(doc))
	text := doc[:cut]
	if vrt.Choose("tail", 2) == 1 {
		c := vrt.Byte("c", ' ', '~')
		vrt.Assume(cut < len(doc)-1 || c != '>')
		text += string([]byte{c})
	}
	r, err := xcore.NewXLanguageFromXMLString(text)
	vrt.Observe(err != nil)
	vrt.Assert(err != nil, "a malformed document is accepted")
	vrt.Assert(r == nil, "a failed load gives a table")
	l := xcore.NewXLanguage("a", langTag(0))
	l.Set("k", "old")
	vrt.Assert(l.LoadXMLString(text) != nil, "a malformed document is accepted")
	m := &assoc{}
	m.set("k", "old")
	sameTable(l, m, "after a failed load")
	vrt.Assert(l.GetStatus("k") == "" && l.GetName() == "a" && l.GetLanguage() == langTag(0), "a failed load changes the table")
}

// lmod: the state of a language table with keys a and b.
type lmod struct {
	has  [2]bool
	val  [2]string
	st   [2]string
	name string
	tag  int
}

func (m *lmod) clone() lmodel { c := *m; return &c }

func pick(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

// table is a new table in that state.
func (m *lmod) table() *xcore.XLanguage {
	l := xcore.NewXLanguage(m.name, langTag(m.tag))
	for i, k := range dsKeys {
		if m.has[i] {
			l.Set(k, m.val[i])
		}
		l.SetStatus(k, m.st[i])
	}
	return l
}

// langOp is any operation on a table, on one of the keys a and b.
func langOp(l *xcore.XLanguage, kinds []int) *lop {
	kind := kinds[vrt.Choose("op", len(kinds))]
	ki := 0
	if kind < 6 {
		ki = vrt.Choose("key", 2)
	}
	key := dsKeys[ki]
	switch kind {
	case 0:
		v := vrt.Str("v", 1, 1, 'a', 'z')
		return &lop{run: func() { l.Set(key, v) }, step: func(m lmodel) bool {
			x := m.(*lmod)
			x.has[ki], x.val[ki] = true, v
			return true
		}}
	case 1:
		return &lop{run: func() { l.Del(key) }, step: func(m lmodel) bool {
			x := m.(*lmod)
			x.has[ki], x.val[ki], x.st[ki] = false, "", ""
			return true
		}}
	case 2:
		r := ""
		return &lop{run: func() { r = l.Get(key) }, step: func(m lmodel) bool { return r == m.(*lmod).val[ki] }}
	case 3:
		v := vrt.Str("v", 1, 1, 'a', 'z')
		return &lop{run: func() { l.SetStatus(key, v) }, step: func(m lmodel) bool {
			m.(*lmod).st[ki] = v
			return true
		}}
	case 4:
		r := ""
		return &lop{run: func() { r = l.GetStatus(key) }, step: func(m lmodel) bool { return r == m.(*lmod).st[ki] }}
	case 5:
		v := vrt.Str("v", 1, 1, 'a', 'z')
		return &lop{run: func() { l.LoadString(key + "=" + v) }, step: func(m lmodel) bool {
			x := m.(*lmod)
			x.has[ki], x.val[ki] = true, v
			return true
		}}
	case 6:
		v := vrt.Str("v", 1, 1, 'a', 'z')
		return &lop{run: func() { l.SetName(v) }, step: func(m lmodel) bool {
			m.(*lmod).name = v
			return true
		}}
	case 7:
		r := ""
		return &lop{run: func() { r = l.GetName() }, step: func(m lmodel) bool { return r == m.(*lmod).name }}
	case 8:
		t := vrt.Choose("tag", 2) + 1
		return &lop{run: func() { l.SetLanguage(langTag(t)) }, step: func(m lmodel) bool {
			m.(*lmod).tag = t
			return true
		}}
	case 9:
		var r language.Tag
		return &lop{run: func() { r = l.GetLanguage() }, step: func(m lmodel) bool { return r == langTag(m.(*lmod).tag) }}
	case 10:
		var r map[string]string
		return &lop{run: func() { r = l.GetEntries() }, step: func(m lmodel) bool {
			x := m.(*lmod)
			ok, n := true, 0
			for i, k := range dsKeys {
				if x.has[i] {
					v, have := r[k]
					ok = vrt.And(ok, vrt.And(have, v == x.val[i]))
					n++
				}
			}
			return vrt.And(ok, len(r) == n)
		}}
	case 11:
		r := ""
		return &lop{run: func() { r = l.GetXML() }, step: func(m lmodel) bool { return r == m.(*lmod).table().GetXML() }}
	case 12:
		r := ""
		return &lop{run: func() { r = l.String() }, step: func(m lmodel) bool { return r == m.(*lmod).table().String() }}
	case 13:
		r := ""
		return &lop{run: func() { r = l.GoString() }, step: func(m lmodel) bool { return r == m.(*lmod).table().GoString() }}
	}
	return &lop{run: func() {
		l.LoadXMLString(`<language id="y" lang="fr"><entry id="a" status="s">v</entry><entry id="b">w</entry></language>`)
	}, step: func(m lmodel) bool {
		x := m.(*lmod)
		x.name, x.tag = "y", 2
		x.has = [2]bool{true, true}
		x.val = [2]string{"v", "w"}
		x.st = [2]string{"s", ""}
		return true
	}}
}

func langConcurrent(progs func(l *xcore.XLanguage) [][]*lop) {
	vrt.MapOrder(2)
	m := &lmod{name: "x", tag: 0}
	v := vrt.Str("stored", 1, 1, 'a', 'z')
	if vrt.Choose("prefill", 2) == 1 {
		m.has[0], m.val[0], m.st[0] = true, v, "t"
	}
	l := m.table()
	ops := concurrently(progs(l)...)
	vrt.Assert(lin(m, ops, func(m lmodel) bool {
		x := m.(*lmod)
		ok := vrt.And(l.GetName() == x.name, l.GetLanguage() == langTag(x.tag))
		n := 0
		for i, k := range dsKeys {
			ok = vrt.And(ok, vrt.And(l.Get(k) == x.val[i], l.GetStatus(k) == x.st[i]))
			if x.has[i] {
				n++
			}
		}
		return vrt.And(ok, len(l.GetEntries()) == n)
	}), "the results on the language table are not those of any sequential order")
}

var langAll = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}

// C20_pairs: any two operations at once.
func C20_pairs() {
	langConcurrent(func(l *xcore.XLanguage) [][]*lop {
		return [][]*lop{{langOp(l, langAll)}, {langOp(l, langAll)}}
	})
}

// C20_sequences: two operations against one or two.
func C20_sequences() {
	vrt.Preempt(vrt.Bound("preemptions", 2, 4))
	kinds := []int{0, 1, 2, 3, 4, 10, 14}
	langConcurrent(func(l *xcore.XLanguage) [][]*lop {
		a := []*lop{langOp(l, kinds), langOp(l, kinds)}
		b := []*lop{langOp(l, kinds)}
		if vrt.Bound("second", 0, 1) == 1 {
			b = append(b, langOp(l, kinds))
		}
		return [][]*lop{a, b}
	})
}

// C20_three: three goroutines.
func C20_three() {
	vrt.Preempt(vrt.Bound("preemptions", 1, 3))
	kinds := []int{0, 1, 2, 5, 10}
	langConcurrent(func(l *xcore.XLanguage) [][]*lop {
		return [][]*lop{{langOp(l, kinds)}, {langOp(l, kinds)}, {langOp(l, kinds)}}
	})
}

// regions are languages with script, region or variant.
func regions() []language.Tag {
	return []language.Tag{
		language.English, language.AmericanEnglish, language.BritishEnglish, language.BrazilianPortuguese, language.SimplifiedChinese,
		language.SerbianLatin, language.MustParse("es-MX"), language.MustParse("de-CH-1996"), language.MustParse("ca-ES-valencia"), language.MustParse("zh-Hant-HK"), language.Und,
	}
}
