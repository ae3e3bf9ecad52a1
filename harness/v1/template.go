package zzvh

import (
	"fmt"
	"strconv"

	xcore "github.com/webability-go/xcore"
	vrt "github.com/webability-go/xcore/zzvrt"
)

// ---- the meaning of template texts

func isBreak(c byte) bool { return c == '\n' || c == '\r' }

func hasAt(s string, i int, w string) bool {
	return i+len(w) <= len(s) && s[i:i+len(w)] == w
}

// nameChar: c may appear in the name of a sub template.
func nameChar(c byte) bool {
	return vrt.Or(vrt.And(c >= 'a', c <= 'z'), vrt.Or(vrt.And(c >= '0', c <= '9'), vrt.Or(vrt.Or(c == '-', c == '|'), vrt.Or(c == '_', c == '.'))))
}

// element: the meta element starting at i, its kind and end. Apart from sub
// templates, an element contains anything up to the first end mark.
func element(s string, i int) (kind byte, name string, end int) {
	if i+3 < len(s) && s[i] == '%' && s[i+1] == '-' && s[i+2] == '-' {
		for j := i + 3; j+3 <= len(s); j++ {
			if hasAt(s, j, "--%") {
				return '%', s[i+3 : j], j + 3
			}
		}
		return 0, "", i
	}
	if i+4 > len(s) {
		return 0, "", i
	}
	c := s[i]
	switch c {
	case '#', '&', '@', '?', '!', '{':
		if s[i+1] != c {
			return 0, "", i
		}
		closing := c
		if c == '{' {
			closing = '}'
		}
		for j := i + 3; j+2 <= len(s); j++ {
			if s[j] == closing && s[j+1] == closing {
				return c, s[i+2 : j], j + 2
			}
		}
	case '[':
		if s[i+1] != '[' {
			return 0, "", i
		}
		j := i + 2
		for j < len(s) && nameChar(s[j]) {
			j++
		}
		if j+1 < len(s) && s[j] == ']' && s[j+1] == ']' {
			if j == i+2 {
				return ']', "", j + 2
			}
			return '[', s[i+2 : j], j + 2
		}
	}
	return 0, "", i
}

// plain is the output of a template text without any data, where no sub
// template is used; balanced tells whether the marks nest properly.
func plain(s string) (out string, balanced bool) {
	depth := 0
	for i := 0; i < len(s); {
		kind, _, end := element(s, i)
		if kind == 0 {
			if depth == 0 {
				out += s[i : i+1]
			}
			i++
			continue
		}
		i = end
		switch kind {
		case '[':
			depth++
		case ']':
			depth--
			if depth < 0 {
				return "", false
			}
		}
		if (kind == '%' || kind == '[' || kind == ']') && i < len(s) && isBreak(s[i]) {
			// of two different line break characters one or both may vanish
			vrt.Assume(i+1 >= len(s) || !isBreak(s[i+1]) || s[i] == s[i+1])
			i++
		}
	}
	return out, depth == 0
}

// checkPlain compiles and executes any text.
func checkPlain(text string) {
	out, balanced := plain(text)
	t, err := xcore.NewXTemplateFromString(text)
	vrt.Observe(err == nil)
	vrt.Assert((err == nil) == balanced, "sub template marks are accepted or refused wrongly")
	if err != nil {
		vrt.Assert(t == nil, "a failed load gives a template")
		return
	}
	vrt.Assert(t != nil, "a successful load gives no template")
	r := t.Execute(&xcore.XDataset{})
	vrt.Observe(r)
	vrt.Assert(r == out, "the text outside the elements is not output unchanged")
	vrt.Assert(t.Execute(nil) == out, "the text outside the elements is not output unchanged without data")
}

// C37_text_bytes: any short text.
func C37_text_bytes() {
	checkPlain(vrt.Str("text", 0, vrt.Bound("bytes", 6, 8), 0, 255))
}

// C37_text_marks: longer texts made of the characters of the elements.
func C37_text_marks() {
	n := vrt.Bound("bytes", 7, 9)
	set := []string{"%-a\n#", "#a{}\n", "[a]\n|", "&?!@a"}[vrt.Choose("group", 4)]
	s := vrt.Str("text", n, n, 0, 127)
	for i := 0; i < n; i++ {
		in := false
		for j := 0; j < len(set); j++ {
			in = vrt.Or(in, s[i] == set[j])
		}
		vrt.Assume(in)
	}
	checkPlain(s)
}

// C37_text_between: text between and around elements of every kind.
func C37_text_between() {
	piece := func(name string) string {
		return []string{"{{f}}", "%--c--%", "##e##", "[[a]]x[[]]", "&&r&&", "@@l@@", "??c??", "!!d!!"}[vrt.Choose(name, 8)]
	}
	text := piece("a") + vrt.Str("between", 0, vrt.Bound("between_bytes", 2, 3), 0, 255) + piece("b")
	if vrt.Thorough() {
		text = vrt.Str("before", 0, 1, 0, 255) + text + vrt.Str("after", 0, 1, 0, 255)
	}
	checkPlain(text)
}

// C37_text_comment: text around comments with any content.
func C37_text_comment() {
	inner := []string{"", "{{a}}", "[[a]]", "[[]]", "##a##", "-", "%--", "\n", "&&a&&"}[vrt.Choose("inner", 9)]
	c := vrt.Str("c", 0, vrt.Bound("comment_bytes", 2, 3), 0, 255)
	before := vrt.Str("before", 0, vrt.Bound("text_bytes", 1, 2), 0, 255)
	after := []string{"", "\n", "\n\n", "\r", "--%", "%-- x --%"}[vrt.Choose("follow", 6)] + vrt.Str("after", 0, 1, 0, 255)
	checkPlain(before + "%--" + inner + c + "--%" + after)
}

// C37_mark_marks: sequences of pieces.
func C37_mark_marks() {
	n := vrt.Bound("pieces", 5, 7)
	text, depth, bad := "", 0, false
	for i := 0; i < n; i++ {
		switch vrt.Choose("piece", 7) {
		case 0:
			text += "[[" + vrt.Str("n", 1, 1, 'a', 'z') + "]]"
			depth++
		case 1:
			text += "[[]]"
			depth--
			bad = bad || depth < 0
		case 2:
			text += "%--[[]][[x]]--%"
		case 3:
			text += " t"
		case 4:
			text += "[[A]]"
		case 5:
			text += "{{f}}##l##&&r&&"
		default:
			i = n
		}
	}
	t, err := xcore.NewXTemplateFromString(text)
	vrt.Observe(err == nil)
	vrt.Assert((err != nil) == (bad || depth != 0), "marks are accepted or refused wrongly")
	vrt.Assert((t == nil) == (err != nil), "a template is returned if and only if there is no error")
	u := xcore.NewXTemplate()
	vrt.Assert((u.LoadString(text) == nil) == (err == nil), "LoadString and the constructor differ")
}

// C37_mark_deep: deeply nested marks.
func C37_mark_deep() {
	n := vrt.Int("depth", 0, vrt.Bound("depth", 6, 12))
	k := vrt.Int("ends", 0, vrt.Bound("depth", 6, 12))
	text := "a"
	for i := 0; i < n; i++ {
		text += "[[s" + strconv.Itoa(i) + "]]\n"
	}
	for i := 0; i < k; i++ {
		text += "x[[]]"
	}
	t, err := xcore.NewXTemplateFromString(text + "b")
	vrt.Assert((err == nil) == (n == k) && (t != nil) == (n == k), "marks are accepted or refused wrongly")
}

// ---- templates as trees of elements, and their meaning

type telem struct {
	kind byte   // 0 text, or the mark
	s    string // text, or what stands between the marks
	p    []string
	body []telem
}

func tx(s string) telem                      { return telem{s: s} }
func comment(s string) telem                 { return telem{kind: '%', s: s} }
func field(s string) telem                   { return telem{kind: '{', s: s} }
func entry(s string) telem                   { return telem{kind: '#', s: s} }
func decl(names string, body ...telem) telem { return telem{kind: '[', s: names, body: body} }
func parts(kind byte, p []string) telem {
	s := p[0]
	for _, x := range p[1:] {
		s += ":" + x
	}
	return telem{kind: kind, s: s, p: p}
}
func ref(p ...string) telem  { return parts('&', p) }
func loop(p ...string) telem { return parts('@', p) }
func cond(p ...string) telem { return parts('?', p) }

func code(l []telem) string {
	s := ""
	for _, e := range l {
		switch e.kind {
		case 0:
			s += e.s
		case '%':
			s += "%--" + e.s + "--%"
		case '{':
			s += "{{" + e.s + "}}"
		case '[':
			s += "[[" + e.s + "]]" + code(e.body) + "[[]]"
		default:
			m := string([]byte{e.kind, e.kind})
			s += m + e.s + m
		}
	}
	return s
}

// tbody is a template: its elements and the scope inside it.
type tbody struct {
	elems []telem
	names []string
	subs  []*tbody
	up    *tbody
}

func (b *tbody) add(name string, x *tbody) {
	for i := range b.names {
		if b.names[i] == name {
			b.subs[i] = x
			return
		}
	}
	b.names = append(b.names, name)
	b.subs = append(b.subs, x)
}

func (b *tbody) find(name string) *tbody {
	for i := range b.names {
		if b.names[i] == name {
			return b.subs[i]
		}
	}
	return nil
}

func body(l []telem, up *tbody) *tbody {
	b := &tbody{elems: l, up: up}
	for _, e := range l {
		if e.kind != '[' {
			continue
		}
		x := body(e.body, b)
		start := 0
		for i := 0; i <= len(e.s); i++ {
			if i == len(e.s) || e.s[i] == '|' {
				if i > start {
					b.add(e.s[start:i], x)
				}
				start = i + 1
			}
		}
	}
	return b
}

// rec is a record: its values are scalars, *rec or []*rec.
type rec struct{ assoc }

func row(kv ...interface{}) *rec {
	r := &rec{}
	for i := 0; i+1 < len(kv); i += 2 {
		r.set(kv[i].(string), kv[i+1])
	}
	return r
}

// data is the dataset with the content of the record.
func (r *rec) data(ts bool) xcore.XDatasetDef {
	d := newDS(ts)
	for _, p := range r.e {
		d.Set(p.k, realValue(p.v, ts))
	}
	return d
}

func realValue(v interface{}, ts bool) interface{} {
	switch x := v.(type) {
	case *rec:
		return x.data(ts)
	case []*rec:
		c := newDC(ts)
		for _, r := range x {
			c.Push(r.data(ts))
		}
		return c
	}
	return v
}

// value is what a path designates in the levels of data.
func value(levels []*rec, path string) (interface{}, bool) {
	for i := len(levels) - 1; i >= 0; i-- {
		if v, ok := levels[i].at(path); ok {
			return v, true
		}
	}
	return nil, false
}

func (r *rec) at(path string) (interface{}, bool) {
	for i := 0; i < len(path); i++ {
		if path[i] == '>' {
			v, _ := r.get(path[:i])
			if x, ok := v.(*rec); ok {
				return x.at(path[i+1:])
			}
			return nil, false
		}
	}
	return r.get(path)
}

// rendering is the output of a template.
func rendering(b *tbody, levels []*rec, lang *assoc) string {
	out := ""
	for _, e := range b.elems {
		switch e.kind {
		case 0:
			out += e.s
		case '{':
			if v, _ := value(levels, e.s); v != nil {
				out += fmt.Sprint(v)
			}
		case '#':
			if lang != nil {
				if v, ok := lang.get(e.s); ok {
					out += v.(string)
				}
			}
		case '&':
			out += rendered(b, e, levels, lang)
		case '@':
			out += looped(b, e, levels, lang)
		case '?':
			out += conditional(b, e, levels, lang)
		}
	}
	return out
}

func rendered(b *tbody, e telem, levels []*rec, lang *assoc) string {
	if len(e.p) == 3 {
		s := ""
		if v, _ := value(levels, e.p[1]); v != nil {
			s = fmt.Sprint(v)
		}
		t := b.find(e.p[2] + s)
		if t == nil {
			t = b.find(e.p[2])
		}
		if t == nil {
			return ""
		}
		return rendering(t, levels, lang)
	}
	t := b.find(e.p[0])
	if t == nil {
		return ""
	}
	if len(e.p) == 2 {
		v, _ := value(levels, e.p[1])
		if r, ok := v.(*rec); ok {
			return rendering(t, push(levels, r), lang)
		}
	}
	return rendering(t, levels, lang)
}

func push(levels []*rec, r *rec) []*rec {
	return append(append([]*rec(nil), levels...), r)
}

func looped(b *tbody, e telem, levels []*rec, lang *assoc) string {
	id := e.p[len(e.p)-1]
	base := b.find(id)
	if base == nil || len(levels) == 0 {
		return ""
	}
	v, _ := value(levels, e.p[0])
	list, isList := v.([]*rec)
	if len(list) == 0 {
		t := b.find(id + ".none")
		if t == nil && !isList {
			t = base // left open
		}
		if t == nil {
			return ""
		}
		return rendering(t, levels, lang)
	}
	out := ""
	for i, r := range list {
		t := b.find(id + ".key." + strconv.Itoa(i))
		if t == nil && i == 0 {
			t = b.find(id + ".first")
		}
		if t == nil && i == len(list)-1 {
			t = b.find(id + ".last")
		}
		if t == nil && i%2 == 0 {
			t = b.find(id + ".even")
		}
		if t == nil {
			t = base
		}
		out += rendering(t, push(levels, r), lang)
	}
	return out
}

func conditional(b *tbody, e telem, levels []*rec, lang *assoc) string {
	id := e.p[len(e.p)-1]
	base := b.find(id)
	v, _ := value(levels, e.p[0])
	if v == nil || v == "" {
		if t := b.find(id + ".none"); t != nil {
			return rendering(t, levels, lang)
		}
		return ""
	}
	if base == nil {
		return ""
	}
	if t := b.find(id + "." + fmt.Sprint(v)); t != nil {
		base = t
	}
	return rendering(base, levels, lang)
}

// compiled is the template of the elements.
func compiled(l []telem) *xcore.XTemplate {
	t, err := xcore.NewXTemplateFromString(code(l))
	vrt.Assert(err == nil && t != nil, "a proper template is refused")
	return t
}

// table is the language table with the entries.
func table(lang *assoc) *xcore.XLanguage {
	l := xcore.NewXLanguage("n", langTag(0))
	for _, p := range lang.e {
		l.Set(p.k, p.v.(string))
	}
	return l
}

// renders checks the output for the data; lang may be nil.
func renders(l []telem, r *rec, lang *assoc, ts bool, what string) {
	t := compiled(l)
	d := r.data(ts)
	if lang != nil {
		d.Set("#", table(lang))
	}
	out := t.Execute(d)
	vrt.Observe(out)
	vrt.Assert(out == rendering(body(l, nil), []*rec{r}, lang), what)
}

// C37_field_name: fields with any name, present or not.
func C37_field_name() {
	n := vrt.Str("field", 1, vrt.Bound("name_bytes", 2, 3), '-', 'z')
	for i := 0; i < len(n); i++ {
		vrt.Assume(n[i] != '>')
	}
	k := vrt.Str("key", 1, vrt.Bound("name_bytes", 2, 3), '-', 'z')
	for i := 0; i < len(k); i++ {
		vrt.Assume(k[i] != '>')
	}
	v := vrt.Str("v", 0, 2, 0, 255)
	l := []telem{tx("a "), field(n), tx("\n"), field(n), tx("z")}
	renders(l, row(k, v), nil, false, "a field is not replaced by its value")
}

// fieldValue is a value of any kind that is printed.
func fieldValue(name string) interface{} {
	switch vrt.Choose(name+"_kind", 14) {
	case 0:
		return vrt.Int(name, -99, 999)
	case 1:
		return vrt.Str(name, 0, vrt.Bound("value_bytes", 2, 3), 0, 255)
	case 2:
		return nil
	case 3:
		return vrt.Bool(name)
	case 4:
		return []float64{0, 1.5, -2e30, 0.1, 1e21, 100}[vrt.Choose(name, 6)]
	case 5:
		return []string{vrt.Str(name, 0, 1, 0, 255), "{{b}}"}
	case 6:
		return int8(vrt.Int(name, -128, 127))
	case 7:
		return uint64(vrt.Int(name, 0, 99))
	case 8:
		return []int{vrt.Int(name, 0, 9), 2}
	case 9:
		return []string{"{{b}}", "##e##", "[[b]]", "%-- x --%", "&&b&&", "[[]]", "??b??", "%s", "$1"}[vrt.Choose(name, 9)]
	case 10:
		return int64(vrt.Int(name, 10, 99))
	case 11:
		return float32(0.5)
	case 12:
		return map[string]int{"a": 1}
	}
	return []byte(vrt.Str(name, 0, 1, 0, 255))
}

// C37_field_value: values of every kind are injected as text and not interpreted.
func C37_field_value() {
	v := fieldValue("v")
	l := []telem{tx("<"), field("a"), tx(">"), decl("b", tx("SUB")), field("b"), tx("|")}
	r := row("a", v, "b", "B")
	lang := &assoc{}
	lang.set("e", "E")
	renders(l, r, lang, false, "a value is not injected as its text")
}

// C37_field_level: the innermost level that has the field counts.
func C37_field_level() {
	var levels [3]*rec
	for i := range levels {
		levels[i] = row("id", strconv.Itoa(i))
		switch vrt.Choose("has", 3) {
		case 1:
			levels[i].set("f", vrt.Str("v", 0, 1, 0, 255))
		case 2:
			levels[i].set("f", nil)
		}
	}
	if vrt.Choose("path", 2) == 1 {
		levels[vrt.Choose("at", 3)].set("s", row("f", "S"+vrt.Str("p", 0, 1, 0, 255)))
	}
	levels[1].set("in", levels[2])
	levels[0].set("sub", levels[1])
	show := []telem{tx("["), field("id"), tx(","), field("f"), tx(","), field("s>f"), tx("]")}
	inner := decl("inner", show...)
	outer := decl("outer", append(append([]telem{inner}, show...), append([]telem{ref("inner", "in")}, show...)...)...)
	l := append(append([]telem{outer}, show...), append([]telem{ref("outer", "sub")}, show...)...)
	renders(l, levels[0], nil, false, "a field is not taken from the innermost level that has it")
}

// C37_field_language: language entries at every level.
func C37_field_language() {
	n := vrt.Str("entry", 1, vrt.Bound("name_bytes", 2, 3), '-', 'z')
	var lang *assoc
	if vrt.Choose("table", 2) == 1 {
		lang = &assoc{}
		lang.set(vrt.Str("key", 1, vrt.Bound("name_bytes", 2, 3), '-', 'z'), []string{vrt.Str("text", 0, 1, 0, 255), "{{f}}", "##a##", "[[]]"}[vrt.Choose("textkind", 4)])
	}
	sub := decl("s", tx("s:"), entry(n), ref("t", "d"), decl("t", tx("t:"), entry(n), field("f")))
	l := []telem{tx("x"), entry(n), tx("y"), sub, ref("s"), loop("c", "s"), tx("z"), entry(n)}
	r := row("f", "F", "d", row("#", "no table"), "c", []*rec{row("f", "G"), row("#", nil)})
	renders(l, r, lang, false, "a language entry is not replaced by its text")
}

// C37_field_notable: something else than a table under "#".
func C37_field_notable() {
	d := newDS(false)
	d.Set("f", "F")
	d.Set("#", anyValue("other", vrt.Choose("kind", allKinds)))
	t := compiled([]telem{tx("x"), entry("e"), tx("y"), field("f")})
	out := t.Execute(d)
	vrt.Assert(out == "xyF", "an entry without language table is not replaced by nothing")
}

// show outputs the level and a value.
func shown(id string) []telem {
	return []telem{tx(id + "("), field("id"), tx(":"), field("v"), tx(")")}
}

// subData is data of any kind for the field of a reference.
func subData(name string) (interface{}, bool) {
	switch vrt.Choose(name, 8) {
	case 0:
		return nil, false
	case 1:
		return nil, true
	case 2:
		return vrt.Str(name+"_s", 0, 1, 'a', 'b'), true
	case 3:
		return vrt.Int(name+"_i", 0, 12), true
	case 4:
		return row("id", "2"), true
	case 5:
		return row("id", "2", "v", vrt.Str(name+"_v", 0, 1, 0, 255)), true
	case 6:
		return []*rec{row("id", "3")}, true
	}
	return vrt.Bool(name + "_b"), true
}

// C38_ref_forms: every form of reference, with every kind of data.
func C38_ref_forms() {
	r := row("id", "1", "v", vrt.Str("v", 0, 1, 0, 255))
	if x, ok := subData("field"); ok {
		r.set("f", x)
	}
	var l []telem
	for _, n := range []string{"s", "p", "p1", "pa", "ptrue", "p."} {
		if vrt.Choose("has_"+n, 2) == 1 {
			l = append(l, decl(n, shown(n)...))
		}
		if n == "s" && !vrt.Thorough() && len(l) == 0 {
			break
		}
	}
	l = append(l, tx("x"))
	switch vrt.Choose("form", 3) {
	case 0:
		l = append(l, ref("s"))
	case 1:
		l = append(l, ref("s", "f"))
	default:
		switch x, _ := r.get("f"); x.(type) {
		case *rec, []*rec: // no text
			vrt.Assume(false)
		}
		l = append(l, ref("", "f", "p"))
	}
	l = append(l, shown("after")...)
	renders(l, r, nil, false, "a reference outputs the wrong text")
}

// C38_ref_names: references and sub templates with any names.
func C38_ref_names() {
	name := func(n string) string {
		s := vrt.Str(n, 1, vrt.Bound("name_bytes", 1, 2), '-', 'z')
		for i := 0; i < len(s); i++ {
			vrt.Assume(nameChar(s[i]))
		}
		return s
	}
	a, b := name("a"), name("b")
	q := name("q")
	for i := 0; i < len(q); i++ {
		vrt.Assume(q[i] != '|')
	}
	l := []telem{decl(a, tx("A")), decl(b, tx("B")), tx("<"), ref(q), tx(">")}
	renders(l, row(), nil, false, "a reference outputs the wrong sub template")
}

// C38_ref_prefix: the sub template is selected by the value of a field.
func C38_ref_prefix() {
	v := vrt.Str("v", 0, vrt.Bound("value_bytes", 2, 3), 0, 255)
	l := []telem{decl("p.a", tx("A"), field("f")), decl("p.b", tx("B")), decl("p.ab", tx("AB")), decl("p", tx("no"))}
	if vrt.Choose("base", 2) == 1 {
		l = append(l, decl("p.", tx("none"), field("f")))
	}
	l = append(l, tx("<"), ref("", "f", "p."), tx(">"))
	r := row()
	switch vrt.Choose("level", 3) {
	case 0:
		r.set("f", v)
	case 1:
		// the field comes from the outer level
		r.set("f", v)
		r.set("d", row("g", "1"))
		l = append(l, decl("s", tx("s"), decl("p.a", tx("SA")), decl("p.", tx("SN")), ref("", "f", "p.")), ref("s", "d"))
	default:
		// a path
		r.set("d", row("f", v))
		l = append(l, ref("", "d>f", "p."))
	}
	renders(l, r, nil, false, "a reference selects the wrong sub template")
}

// C38_ref_nested: references within references, each with its data level.
func C38_ref_nested() {
	in := row("id", "3")
	out := row("id", "2", "f", in)
	if vrt.Choose("inner", 2) == 1 {
		in.set("v", vrt.Str("w", 0, 1, 'a', 'z'))
	}
	if vrt.Choose("deep", 2) == 1 {
		in.set("f", row("id", "4"))
	}
	r := row("id", "1", "v", vrt.Str("v", 0, 1, 'a', 'z'), "f", out)
	form := vrt.Choose("form", 3)
	second := []telem{ref("t", "f"), ref("t"), ref("t", "g")}[form]
	t := decl("t", append(shown("t"), ref("u", "f"), decl("u", shown("u")...))...)
	s := decl("s", append(append(shown("s"), t, second), shown("s2")...)...)
	l := []telem{s, decl("t", tx("outer")), ref("s", "f"), ref("s"), ref("s", "f>f")}
	renders(append(l, shown("end")...), r, nil, false, "nested references output the wrong text")
}

// blank is the body of a sub template that outputs little or nothing.
func blank() []telem {
	switch vrt.Choose("blank", 5) {
	case 0:
		return nil
	case 1:
		return []telem{comment("c")}
	case 2:
		return []telem{field("w")}
	case 3:
		return []telem{field("missing"), entry("missing"), ref("missing")}
	}
	return []telem{decl("q", tx("Q"))}
}

// C38_ref_blank: a rendering without output leaves the data level like any other.
func C38_ref_blank() {
	in := row("id", "2", "v", "inner", "w", vrt.Str("w", 0, 1, 0, 255))
	r := row("id", "1", "v", vrt.Str("v", 0, 1, 0, 255), "f", in)
	b := decl("b", blank()...)
	l := []telem{b, decl("o", append([]telem{b, ref("b", "f")}, shown("o")...)...), ref("b", "f")}
	l = append(append(l, shown("after")...), ref("b"), ref("", "id", "b"), ref("b", "missing"), ref("o"), ref("o", "f"))
	renders(append(l, shown("end")...), r, nil, false, "a blank rendering changes what follows")
}

// C38_ref_nil: without data.
func C38_ref_nil() {
	var l []telem
	for _, n := range []string{"s", "p"} {
		if vrt.Choose("has_"+n, 2) == 1 {
			l = append(l, decl(n, tx(n), field("f"), decl("s2", tx("3")), ref("s2", "f"), ref("", "f", "s2")))
		}
	}
	l = append(l, decl("s2", tx("2")), tx("x"), []telem{ref("s"), ref("s", "f"), ref("", "f", "p"), ref("", "f", "q")}[vrt.Choose("form", 4)], tx("y"))
	t := compiled(l)
	out := t.Execute(nil)
	vrt.Observe(out)
	vrt.Assert(out == rendering(body(l, nil), nil, nil), "a reference without data outputs the wrong text")
}

// C38_loop_variants: any collection, any set of variants.
func C38_loop_variants() {
	n := vrt.Choose("records", vrt.Bound("records", 4, 6))
	var list []*rec
	for i := 0; i < n; i++ {
		x := row("id", strconv.Itoa(i))
		if i < 2 {
			x.set("v", vrt.Str("v", 0, 1, 0, 255))
		}
		list = append(list, x)
	}
	id := "c"
	lp := loop("c")
	if vrt.Choose("two", 2) == 1 {
		id, lp = "t", loop("c", "t")
	}
	var l []telem
	for _, s := range []string{".key.0", ".key.1", ".key.2", ".first", ".last", ".even", ".none"} {
		if vrt.Choose("has_"+s, 2) == 1 {
			l = append(l, decl(id+s, shown(s)...))
		}
	}
	if vrt.Choose("has_base", 2) == 1 {
		l = append(l, decl(id, shown("b")...))
	} else {
		vrt.Cover("no base")
	}
	l = append(append(l, tx("<"), lp, tx(">")), shown("after")...)
	renders(l, row("id", "r", "v", "w", "c", list), nil, false, "a loop outputs the wrong text")
}

// C38_loop_kinds: data that is no collection.
func C38_loop_kinds() {
	r := row("id", "r", "v", "w")
	if x, ok := subData("data"); ok {
		if c, isList := x.([]*rec); isList && vrt.Choose("empty", 2) == 1 {
			x = c[:0]
		}
		r.set("c", x)
	}
	l := []telem{decl("c", shown("b")...), decl("c.none", shown("none")...), tx("<"), loop("c"), tx(">")}
	renders(append(l, shown("after")...), r, nil, false, "a loop over other data outputs the wrong text")
}

// C38_loop_blank: records rendered to nothing.
func C38_loop_blank() {
	n := vrt.Choose("records", 4)
	list := []*rec{}
	for i := 0; i < n; i++ {
		x := row("id", strconv.Itoa(i))
		if i < 2 {
			x.set("w", vrt.Str("w", 0, 1, 0, 255))
		}
		list = append(list, x)
	}
	l := []telem{decl("c", blank()...), decl("c.none"), decl("c.last", blank()...), decl("d", shown("d")...), decl("d.none", shown("none")...)}
	l = append(append(l, tx("<"), loop("c"), tx(">")), shown("after")...)
	renders(append(l, loop("c", "d")), row("id", "r", "v", "w", "c", list), nil, false, "blank renderings of a loop change what follows")
}

// C38_loop_nil: without data.
func C38_loop_nil() {
	t := compiled([]telem{decl("c", shown("b")...), decl("c.none", shown("none")...), tx("<"), loop("c"), loop("d", "c"), tx(">")})
	vrt.Assert(t.Execute(nil) == "<>", "a loop without data outputs something")
}

// C38_loop_long: more records.
func C38_loop_long() {
	n := []int{5, 10, 11, 12}[vrt.Choose("records", vrt.Bound("lengths", 3, 4))]
	var list []*rec
	for i := 0; i < n; i++ {
		list = append(list, row("n", i, "v", vrt.Int("v", 0, 1) == 1))
	}
	l := []telem{decl("c", field("n"), tx("b"), field("v"), tx(";"))}
	if vrt.Choose("even", 2) == 1 {
		l = append(l, decl("c.even", field("n"), tx("e"), tx(";")))
	}
	if vrt.Choose("key", 2) == 1 {
		l = append(l, decl("c.key.10", tx("ten;")), decl("c.key.1", tx("one;")))
	}
	if vrt.Choose("last", 2) == 1 {
		l = append(l, decl("c.last", tx("last"), field("n")))
	}
	renders(append(l, loop("c")), row("c", list), nil, false, "a loop outputs the wrong text")
}

// C38_loop_nested: loops within loops and conditions, paths to collections.
func C38_loop_nested() {
	n, k := vrt.Choose("outer", 3)+1, vrt.Choose("inner", 3)
	var list []*rec
	for i := 0; i < n; i++ {
		var sub []*rec
		for j := 0; j < k+i%2; j++ {
			sub = append(sub, row("id", strconv.Itoa(i)+strconv.Itoa(j), "w", vrt.Str("w", 0, 1, 'a', 'z')))
		}
		list = append(list, row("id", strconv.Itoa(i), "v", vrt.Str("v", 0, 1, 'a', 'z'), "sub", sub))
	}
	inner := decl("in", tx("."), field("id"), field("v"), field("w"), tx(","))
	none := decl("in.none", tx("-"), field("id"))
	l := []telem{decl("c", tx(":"), field("id"), tx("{"), loop("sub", "in"), tx("}"), field("id"), tx(";"))}
	l[0].body = append(l[0].body, inner, none)
	if vrt.Choose("outside", 2) == 1 {
		// not visible inside
		l = append(l, decl("in.first", tx("outer")), decl("in", tx("outer")))
	}
	r := row("id", "r", "v", "rv")
	if vrt.Choose("path", 2) == 1 {
		r.set("p", row("c", list, "id", "p"))
		l = append(l, loop("p>c", "c"))
	} else {
		r.set("c", list)
		l = append(l, loop("c"))
	}
	renders(append(l, shown("end")...), r, nil, false, "nested loops output the wrong text")
}

// C38_cond_values: any value, any set of sub templates.
func C38_cond_values() {
	r := row("id", "1", "v", vrt.Str("v", 0, 1, 0, 255))
	x, ok := subData("field")
	if ok {
		r.set("f", x)
	}
	id, c := "f", cond("f")
	if vrt.Choose("two", 2) == 1 {
		id, c = "t", cond("f", "t")
	}
	var l []telem
	has := map[string]bool{}
	for _, s := range []string{"", ".none", ".a", ".1", ".12", ".true", ".array"} {
		if vrt.Choose("has"+s, 2) == 1 {
			l = append(l, decl(id+s, shown("s"+s)...))
			has[s] = true
		}
	}
	switch x.(type) {
	case *rec, []*rec:
		// left open
		vrt.Assume(len(has) == 0)
	}
	if x != nil && x != "" && !has[""] {
		vrt.Assume(len(has) == 0)
	}
	l = append(append(l, tx("<"), c, tx(">")), shown("after")...)
	renders(l, r, nil, false, "a condition outputs the wrong text")
}

// C38_cond_names: the value selects the sub template, for any value.
func C38_cond_names() {
	v := vrt.Str("v", 0, vrt.Bound("value_bytes", 2, 3), 0, 255)
	l := []telem{decl("f", tx("base"), field("f")), decl("f.none", tx("none")), decl("f.a", tx("A"), field("f")), decl("f.ab", tx("AB")), decl("f.no", tx("no"))}
	l = append(l, tx("<"), cond("f"), tx(">"), field("f"))
	vrt.Assume(v != "none")
	r := row()
	if vrt.Choose("outer", 2) == 1 {
		r.set("f", v)
		l = append(l, decl("s", tx("s"), decl("f", tx("sub")), decl("f.a", tx("subA"), field("f")), cond("f")), ref("s", "d"))
		r.set("d", row("g", "1"))
	} else {
		r.set("f", v)
	}
	renders(l, r, nil, false, "a condition selects the wrong sub template")
}

// C38_cond_kinds: every kind of value counts as present.
func C38_cond_kinds() {
	v := fieldValue("v")
	vrt.Assume(v != "none")
	l := []telem{decl("f", tx("y"), field("f")), decl("f.none", tx("n")), tx("<"), cond("f"), tx(">")}
	renders(l, row("f", v), nil, false, "a condition treats a value wrongly")
}

// C38_cond_nested: conditions within conditions and loops keep the data levels.
func C38_cond_nested() {
	mid := row("id", "2")
	if vrt.Choose("mid", 2) == 1 {
		mid.set("g", vrt.Str("g", 0, 1, 'a', 'z'))
	}
	r := row("id", "1", "v", vrt.Str("v", 0, 1, 'a', 'z'), "d", mid, "c", []*rec{row("id", "c0", "g", "G"), row("id", "c1")})
	if vrt.Choose("f", 2) == 1 {
		r.set("f", vrt.Str("f", 0, 1, 'a', 'b'))
	}
	g := []telem{decl("g", shown("g")...), decl("g.none", shown("gn")...)}
	in := append(append(append([]telem{}, g...), shown("f")...), cond("g"), cond("d>g", "g"))
	in = in[:len(in):len(in)]
	l := append(g, decl("f", append(in, shown("f2")...)...), decl("f.none", tx("!")), decl("f.a", append(in, tx("A"))...), decl("c", append(in, shown("c2")...)...))
	l = append(append(l, cond("f"), loop("c"), ref("f", "d"), cond("d>g", "g")), shown("end")...)
	renders(l, r, nil, false, "nested conditions output the wrong text")
}

// C38_cond_blank: a rendering without output leaves the data level like any other.
func C38_cond_blank() {
	r := row("id", "1", "v", vrt.Str("v", 0, 1, 0, 255))
	if vrt.Choose("field", 2) == 1 {
		r.set("f", vrt.Str("f", 0, 1, 0, 255))
	}
	l := []telem{decl("f", blank()...), decl("f.none", blank()...)}
	l = append(append(l, tx("<"), cond("f"), tx(">")), shown("after")...)
	renders(l, r, nil, false, "a blank rendering changes what follows")
}
