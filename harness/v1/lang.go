package zzvh

import (
	"strings"

	"golang.org/x/text/language"

	xcore "github.com/webability-go/xcore"
	vrt "github.com/webability-go/xcore/zzvrt"
)

// langTag is one of a few languages.
func langTag(i int) language.Tag {
	return []language.Tag{language.English, language.Spanish, language.French}[i]
}

// parseFlat is the meaning of a flat language text.
func parseFlat(text string, m *assoc) {
	start := 0
	for i := 0; i <= len(text); i++ {
		if i < len(text) && text[i] != '\n' {
			continue
		}
		line := text[start:i]
		start = i + 1
		if len(line) > 0 && (line[0] == '#' || line[0] == ';') {
			continue
		}
		for j := 0; j < len(line); j++ {
			if line[j] == '=' {
				k := strings.TrimSpace(line[:j])
				if len(k) > 0 {
					m.set(k, strings.TrimSpace(line[j+1:]))
				}
				break
			}
		}
	}
}

// sameTable: the entries are those of the model.
func sameTable(l *xcore.XLanguage, m *assoc, what string) {
	e := l.Entries
	vrt.Assert(len(e) == len(m.e), what+": wrong number of entries")
	for _, p := range m.e {
		v, ok := e[p.k]
		vrt.Assert(ok, what+": an entry is missing")
		vrt.Assert(v == p.v, what+": an entry has a wrong value")
		vrt.Assert(l.Get(p.k) == p.v, what+": Get gives a wrong value")
	}
}

// C36_bytes: any short text.
func C36_bytes() {
	text := vrt.Str("text", 0, vrt.Bound("bytes", 4, 6), 0, 255)
	l, err := xcore.NewXLanguageFromString(text)
	vrt.Assert(err == nil && l != nil, "loading fails")
	m := &assoc{}
	parseFlat(text, m)
	vrt.Observe(l.Entries)
	sameTable(l, m, "flat text")
	if len(m.e) > 0 {
		vrt.Cover("some entry")
	}
}

// flatLine is a line of a structured text without its end.
func flatLine(kl, vl int) string {
	k := vrt.Str("key", 0, kl, 0, 127)
	s := []string{"=", " = ", "", "\t=", "=="}[vrt.Choose("sep", vrt.Bound("separators", 3, 5))]
	v := vrt.Str("value", 0, vl, 0, 127)
	return k + s + v
}

// C36_lines: texts of several lines loaded into a table with entries.
func C36_lines() {
	n := vrt.Bound("lines", 2, 3)
	l := xcore.NewXLanguage("n", language.English)
	m := &assoc{}
	k, v := "k", vrt.Str("old", 1, 1, 'a', 'z')
	l.Set(k, v)
	m.set(k, v)
	text := ""
	for i := 0; i < n; i++ {
		text += flatLine(1, 1)
		if i < n-1 {
			text += []string{"\n", "\r\n", "\n\n"}[vrt.Choose("end", vrt.Bound("ends", 2, 3))]
		} else {
			text += []string{"", "\r\n", "\n"}[vrt.Choose("last", vrt.Bound("ends", 2, 3))]
		}
	}
	vrt.Assert(l.LoadString(text) == nil, "loading fails")
	parseFlat(text, m)
	vrt.Observe(l.Entries)
	sameTable(l, m, "flat text")
	vrt.Assert(l.GetName() == "n" && l.GetLanguage() == language.English, "loading changes name or language")
}

// C36_keys: longer keys and values with white space of all kinds.
func C36_keys() {
	piece := func(name string) string {
		return []string{"", " ", "\t ", " ", " ", "\v", "\r", "#", ";", "é"}[vrt.Choose(name, 10)]
	}
	k := vrt.Str("key", 0, vrt.Bound("key_bytes", 2, 3), ' ', '~')
	v := vrt.Str("value", 0, vrt.Bound("value_bytes", 1, 3), ' ', '~')
	text := piece("before") + k + piece("after") + "=" + v + piece("end")
	l, err := xcore.NewXLanguageFromString(text)
	vrt.Assert(err == nil && l != nil, "loading fails")
	m := &assoc{}
	parseFlat(text, m)
	vrt.Observe(l.Entries)
	sameTable(l, m, "flat text")
}

// C36_long: long lines and many lines.
func C36_long() {
	v := vrt.Str("value", 1, 1, 'a', 'z')
	k := vrt.Str("key", 1, 1, 'a', 'c')
	size := []int{62, 126, 1000, 4090, 4096, 32768, 65530}[vrt.Choose("size", 7)]
	pad := strings.Repeat("y", size)
	text := ""
	m := &assoc{}
	switch vrt.Choose("form", 3) {
	case 0: // a long value
		text = k + "=" + pad + v + "\nb=" + v
		m.set(k, pad+v)
	case 1: // a long key
		text = k + pad + "=" + v + "\nb=" + v
		m.set(k+pad, v)
	default: // many lines to ignore
		text = strings.Repeat("#\n", size/16) + k + "=z\n" + strings.Repeat("\n", 130) + "b=" + v
		m.set(k, "z")
	}
	m.set("b", v)
	l, err := xcore.NewXLanguageFromString(text)
	vrt.Assert(err == nil && l != nil, "loading fails")
	sameTable(l, m, "flat text")
}

// C36_history: the table after any history.
func C36_history() {
	n := vrt.Bound("operations", 3, 4)
	kl := vrt.Bound("key_bytes", 1, 2)
	var l *xcore.XLanguage
	name, tag := "x", 0
	var err error
	m := &assoc{}
	switch vrt.Choose("made", 3) {
	case 0:
		l = xcore.NewXLanguage(name, langTag(tag))
	case 1:
		l, err = xcore.NewXLanguageFromString("p=q")
		name, tag = "", -1
		m.set("p", "q")
	default:
		l, err = xcore.NewXLanguageFromXMLString(`<language id="x" lang="en"><entry id="p" status="r">q</entry></language>`)
		m.set("p", "q")
	}
	vrt.Assert(err == nil && l != nil, "a table cannot be made")
	for i := 0; i < n; i++ {
		k := vrt.Str("k", 0, kl, 0, 255)
		if vrt.Choose("op", 2) == 0 {
			v := vrt.Str("v", 0, 1, 0, 255)
			l.Set(k, v)
			m.set(k, v)
		} else {
			l.Del(k)
			m.del(k)
		}
	}
	q := vrt.Str("q", 0, kl, 0, 255)
	want := ""
	if v, ok := m.get(q); ok {
		want = v.(string)
	}
	vrt.Assert(l.Get(q) == want, "Get gives a wrong value")
	sameTable(l, m, "table")
	vrt.Assert(l.GetName() == name, "GetName gives a wrong name")
	if tag >= 0 {
		vrt.Assert(l.GetLanguage() == langTag(tag), "GetLanguage gives a wrong language")
	}
}

// C36_names: name and language.
func C36_names() {
	name, tag := vrt.Str("first", 0, 1, 0, 255), vrt.Choose("tag", 3)
	l := xcore.NewXLanguage(name, langTag(tag))
	m := &assoc{}
	for i := 0; i < vrt.Bound("operations", 3, 5); i++ {
		switch vrt.Choose("op", 4) {
		case 0:
			name = vrt.Str("name", 0, 2, 0, 255)
			l.SetName(name)
		case 1:
			tag = vrt.Choose("tag", 3)
			l.SetLanguage(langTag(tag))
		case 2:
			k, v := vrt.Str("k", 0, 1, 0, 255), vrt.Str("v", 0, 1, 0, 255)
			l.Set(k, v)
			m.set(k, v)
		default:
			vrt.Assert(l.LoadString("k=v") == nil, "loading fails")
			m.set("k", "v")
		}
		vrt.Assert(l.GetName() == name, "GetName gives a wrong name")
		vrt.Assert(l.GetLanguage() == langTag(tag), "GetLanguage gives a wrong language")
	}
	sameTable(l, m, "table")
}

// xmlText is a text of valid XML characters.
func xmlText(name string, max int) string {
	s := vrt.Str(name, 0, max, '\t', '~')
	for i := 0; i < len(s); i++ {
		c := s[i]
		vrt.Assume(vrt.Or(c >= ' ', vrt.Or(c == '\t', vrt.Or(c == '\n', c == '\r'))))
	}
	return s
}

// C36_document: documents in other forms than those of GetXML.
func C36_document() {
	l := xcore.NewXLanguage("old", langTag(2))
	ok, ov := vrt.Str("oldkey", 1, 1, 'a', 'c'), vrt.Str("old", 1, 1, 'a', 'z')
	l.Set(ok, ov)
	m := &assoc{}
	m.set(ok, ov)
	text := []string{"", "<?xml version=\"1.0\"?>\n", "<!-- c -->"}[vrt.Choose("head", 3)] + `<language id="new" lang="es">`
	for i := 0; i < 2; i++ {
		k := vrt.Str("k", 1, 1, 'a', 'c')
		v := vrt.Str("v", 0, 1, 'a', 'z')
		switch vrt.Choose("form", vrt.Bound("forms", 6, 8)) {
		case 0:
			text += `<entry id="` + k + `">` + v + `</entry>`
			m.set(k, v)
		case 1:
			text += "\n <entry status='t' id='" + k + "'><![CDATA[" + v + "&lt;]]></entry>"
			m.set(k, v+"&lt;")
		case 2:
			text += `<entry id="` + k + `" status="&amp;">&lt;` + v + "&#65; </entry >\n"
			m.set(k, "<"+v+"A ")
		case 3:
			text += `<entry id="` + k + `"/>`
			m.set(k, "")
		case 4:
			text += `<other id="` + k + `">x</other><!-- <entry id="z">z</entry> -->`
		case 5:
			text += `<entry id="` + k + `">` + v + `<![CDATA[b]]>c<!-- d -->e</entry>`
			m.set(k, v+"bce")
		case 6:
			text += `<group><entry id="` + k + `">` + v + `</entry></group>`
		default:
			text += `<entry extra="1" id="` + k + `"> ` + v + "\n</entry>"
			m.set(k, " "+v+"\n")
		}
	}
	err := l.LoadXMLString(text + "</language>\n")
	vrt.Assert(err == nil, "a well formed document is refused")
	vrt.Observe(l.Entries)
	sameTable(l, m, "document")
	vrt.Assert(l.GetName() == "new" && l.GetLanguage() == langTag(1), "name or language of the document is not taken")
}

// escaped is a text as it stands in an XML document.
func escaped(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '&':
			r += "&amp;"
		case '<':
			r += "&lt;"
		case '>':
			r += "&gt;"
		case '"':
			r += "&quot;"
		case '\'':
			r += "&#39;"
		case '\t':
			r += "&#9;"
		case '\n':
			r += "&#10;"
		case '\r':
			r += "&#xD;"
		default:
			r += string([]byte{c})
		}
	}
	return r
}

// C36_document_texts: an XML document with any name, id and value.
func C36_document_texts() {
	name, k, v := "n", "k", "v"
	switch vrt.Choose("text", 3) {
	case 0:
		name = xmlText("name", vrt.Bound("name", 2, 3))
	case 1:
		k = xmlText("k", vrt.Bound("name", 2, 3))
	default:
		v = xmlText("v", vrt.Bound("name", 2, 3))
	}
	k2 := []string{"", "k", " ", " k", "K"}[vrt.Choose("other", 5)]
	doc := `<language id="` + escaped(name) + `" lang="fr"><entry id="` + k2 + `">w</entry><entry id="` + escaped(k) + `">` + escaped(v) + `</entry></language>`
	m := &assoc{}
	m.set(k2, "w")
	m.set(k, v)
	l, err := xcore.NewXLanguageFromXMLString(doc)
	vrt.Assert(err == nil && l != nil, "a well formed document is refused")
	vrt.Observe(l.Entries)
	sameTable(l, m, "document")
	vrt.Assert(l.GetName() == name && l.GetLanguage() == langTag(2), "name or language of the document is not taken")
}

// C36_malformed: a document cut anywhere is refused and changes nothing.
func C36_malformed() {
	doc := `<language id="b" lang="es"><entry id="k" status="s">v<![CDATA[w]]>&amp;</entry></language>`
	cut := vrt.Choose("cut", len(doc))
	text := doc[:cut]
	if vrt.Choose("tail", 2) == 1 {
		c := vrt.Byte("c", ' ', '~')
		vrt.Assume(cut < len(doc)-1 || c != '>')
		text += string([]byte{c})
	}
	r, err := xcore.NewXLanguageFromXMLString(text)
	vrt.Observe(err != nil)
	vrt.Assert(err != nil, "a malformed document is accepted")
	vrt.Assert(r == nil, "a failed load gives a table")
	l := xcore.NewXLanguage("a", langTag(0))
	l.Set("k", "old")
	vrt.Assert(l.LoadXMLString(text) != nil, "a malformed document is accepted")
	m := &assoc{}
	m.set("k", "old")
	sameTable(l, m, "after a failed load")
	vrt.Assert(l.GetName() == "a" && l.GetLanguage() == langTag(0), "a failed load changes the table")
}

// regions are languages with script, region or variant.
func regions() []language.Tag {
	return []language.Tag{
		language.English, language.AmericanEnglish, language.BritishEnglish, language.BrazilianPortuguese, language.SimplifiedChinese,
		language.SerbianLatin, language.MustParse("es-MX"), language.MustParse("de-CH-1996"), language.MustParse("ca-ES-valencia"), language.MustParse("zh-Hant-HK"), language.Und,
	}
}
