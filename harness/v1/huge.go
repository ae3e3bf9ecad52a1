package zzvh

import (
	"strconv"
	"strings"
	"time"

	xcore "github.com/webability-go/xcore"
	vrt "github.com/webability-go/xcore/zzvrt"
)

// The harnesses of this file have hundreds of elements, which are given but
// for one.

// hugeSize is a number of elements beyond the usual powers of two and ten.
func hugeSize() int {
	return []int{130, 300, 1030, 2050}[vrt.Choose("huge", vrt.Bound("huge", 3, 4))]
}

func num(i int) string { return "k" + strconv.Itoa(i) }

// C31_huge: a cache with hundreds of entries.
func C31_huge() {
	n := hugeSize()
	c := xcore.NewXCache("id", 0, 0)
	k, v := "k"+vrt.Str("k", 1, 1, '0', ':'), anyInt("v")
	if vrt.Choose("first", 2) == 1 {
		c.Set(k, v)
	}
	for i := 0; i < n; i++ {
		if num(i) != k {
			c.Set(num(i), i)
		}
	}
	c.Set(k, v)
	size := n
	if k == "k:" {
		size++
	}
	vrt.Assert(c.Count() == size, "Count is not the number of entries")
	got, inv := c.Get(k)
	vrt.Assert(!inv && got == v, "Get returns a wrong value")
	for i := 0; i < n; i++ {
		if num(i) != k {
			got, inv := c.Get(num(i))
			vrt.Assert(!inv && got == i, "an entry is lost among many")
		}
	}
	if vrt.Choose("flush", 2) == 1 {
		c.Flush()
		vrt.Assert(c.Count() == 0, "Flush does not remove every entry")
	} else {
		for i := n - 1; i >= 0; i-- {
			c.Del(num(i))
		}
		c.Del(k)
		vrt.Assert(c.Count() == 0, "Del does not remove the entry")
	}
	got, inv = c.Get(k)
	vrt.Assert(!inv && got == nil, "a removed entry is still there")
}

// C31_validator_huge: Verify asks for hundreds of entries.
func C31_validator_huge() {
	n := hugeSize()
	c := xcore.NewXCache("id", 0, 0)
	for i := 0; i < n; i++ {
		c.Set(num(i), i)
	}
	r := vrt.Bool("reject")
	mod := []int{1, 3, n - 1}[vrt.Choose("mod", 3)]
	want := 0
	bad := map[string]bool{}
	for i := 0; i < n; i++ {
		if i%mod == 0 && r {
			bad[num(i)] = true
			want++
		}
	}
	c.Validator = func(k string, t time.Time) bool { return !bad[k] }
	vrt.Assert(c.Verify() == want, "Verify does not return the number of removed entries")
	vrt.Assert(c.Count() == n-want, "Verify removed other entries than the rejected ones")
	for i := 0; i < n; i++ {
		v, inv := c.Get(num(i))
		vrt.Assert(!inv && (v == nil) == bad[num(i)], "Verify removed other entries than the rejected ones")
	}
}

// C32_huge: evictions of a cache with hundreds of entries.
func C32_huge() {
	max := []int{130, 300, 1030}[vrt.Choose("max", 3)]
	c := xcore.NewXCache("id", max, 0)
	m := &cmodel{}
	set := func(k string, v int) {
		c.Set(k, v)
		m.lruSet(max, k, v)
	}
	for i := 0; i < max-1; i++ {
		set(num(i), i)
	}
	k := "k" + vrt.Str("k", 1, 1, '0', ':')
	c.Get(k)
	if j := m.find(k); j >= 0 {
		m.touch(j)
	}
	if vrt.Choose("clean", 2) == 1 {
		p := []int{1, 50, 99}[vrt.Choose("perc", 3)]
		vrt.Assert(c.Clean(p) == m.clean(p), "Clean does not return the number of removed entries")
	}
	set("x", 1)
	m.same(c)
}

// C34_huge: a dataset with hundreds of keys.
func C34_huge() {
	n := hugeSize()
	d := newDS(false)
	k, v := "k"+vrt.Str("k", 1, 1, '0', ':'), anyInt("v")
	for i := 0; i < n; i++ {
		d.Set(num(i), i)
	}
	d.Set(k, v)
	got, ok := d.Get(k)
	vrt.Assert(ok && got == v, "Get does not return the value of the key")
	for i := 0; i < n; i++ {
		if num(i) != k {
			got, ok := d.Get(num(i))
			vrt.Assert(ok && got == i, "another key is changed")
		}
	}
}

// C34_clone_huge: a dataset with hundreds of keys and a collection with hundreds
// of records are cloned.
func C34_clone_huge() {
	vrt.MapOrder(2)
	n := []int{130, 300}[vrt.Choose("huge", 2)]
	ts := false
	v := anyInt("v")
	d, c := newDS(ts), newDC(ts)
	for i := 0; i < n; i++ {
		d.Set(num(i), i)
		r := newDS(ts)
		r.Set("i", i)
		r.Set("v", v)
		c.Push(r)
	}
	d.Set("c", c)
	a, b := d, d.Clone()
	if vrt.Choose("side", 2) == 1 {
		a, b = b, a
	}
	k := num([]int{0, 100, n - 1}[vrt.Choose("at", 3)])
	a.Set(k, "new")
	ac, _ := a.GetCollection("c")
	bc, _ := b.GetCollection("c")
	vrt.Assert(ac != nil && bc != nil && bc.Count() == n, "the clone differs from the original")
	for i := 0; i < n; i++ {
		r, ok := ac.Get(i)
		vrt.Assert(ok, "the clone differs from the original")
		r.Set("v", "new")
	}
	for i := 0; i < n; i++ {
		x, ok := b.Get(num(i))
		vrt.Assert(ok && x == i, "a change of one side is visible in the other")
		r, ok := bc.Get(i)
		vrt.Assert(ok, "a change of one side is visible in the other")
		x, _ = r.Get("i")
		y, _ := r.Get("v")
		vrt.Assert(x == i && y == v, "a change of one side is visible in the other")
	}
}

// C35_huge: a collection with hundreds of records.
func C35_huge() {
	n := hugeSize()
	c := newDC(false)
	recs := make([]xcore.XDatasetDef, n)
	for i := range recs {
		recs[i] = record(i)
	}
	front := vrt.Choose("front", 2) == 1
	for i := range recs {
		if front {
			c.Unshift(recs[n-1-i])
		} else {
			c.Push(recs[i])
		}
	}
	vrt.Assert(c.Count() == n, "Count is not the number of records")
	i := vrt.Int("index", 0, 4) * n / 4
	r, ok := c.Get(i)
	if i < n {
		vrt.Assert(ok && r == recs[i], "Get does not return the record")
	} else {
		vrt.Assert(!ok && r == nil, "Get of an index out of range returns something")
	}
	shift := vrt.Choose("shift", 2) == 1
	for i := 0; i < n; i++ {
		if shift {
			vrt.Assert(c.Shift() == recs[i], "Shift does not return the first record")
		} else {
			vrt.Assert(c.Pop() == recs[n-1-i], "Pop does not return the last record")
		}
	}
	vrt.Assert(c.Count() == 0, "Count is not the number of records")
}

// C35_lookup_huge: a key of one of hundreds of records.
func C35_lookup_huge() {
	n := hugeSize()
	c := newDC(false)
	at := []int{0, n / 2, n - 1}[vrt.Choose("at", 3)]
	v := vrt.Int("v", 0, 9)
	for i := 0; i < n; i++ {
		d := newDS(false)
		d.Set("i", i)
		if i == at {
			d.Set("k", v)
		}
		c.Push(d)
	}
	checkLookups(c, "k", v, true)
	checkLookups(c, "i", n-1, true)
	checkLookups(c, "m", nil, false)
}

// C36_huge: a text with hundreds of lines.
func C36_huge() {
	n := hugeSize()
	var b strings.Builder
	v := vrt.Str("v", 0, 1, 'a', 'z')
	for i := 0; i < n; i++ {
		b.WriteString(num(i) + "=" + v + strconv.Itoa(i) + "\n")
		if i%5 == 0 {
			b.WriteString("# comment\n\n")
		}
	}
	l, err := xcore.NewXLanguageFromString(b.String())
	vrt.Assert(err == nil && l != nil, "loading fails")
	vrt.Assert(len(l.Entries) == n, "there is not one entry per line")
	for i := 0; i < n; i++ {
		vrt.Assert(l.Get(num(i)) == v+strconv.Itoa(i), "an entry is wrong")
	}
}

// C36_table_huge: a table with hundreds of entries.
func C36_table_huge() {
	n := hugeSize()
	l := xcore.NewXLanguage("n", langTag(0))
	v := vrt.Str("v", 0, 1, 0, 255)
	for i := 0; i < n; i++ {
		l.Set(num(i), num(i)+v)
	}
	at := num([]int{0, 127, n - 1, n}[vrt.Choose("at", 4)])
	l.Del(at)
	for i := 0; i < n; i++ {
		if num(i) == at {
			vrt.Assert(l.Get(at) == "", "Del does not remove the entry")
		} else {
			vrt.Assert(l.Get(num(i)) == num(i)+v, "an entry is wrong")
		}
	}
}

// C37_text_huge: hundreds of elements and lines.
func C37_text_huge() {
	n := hugeSize()
	kind := vrt.Choose("kind", 4)
	c := vrt.Str("c", 0, 1, 'a', 'z')
	var b, w strings.Builder
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			b.WriteString("{{f}}" + strconv.Itoa(i))
			w.WriteString(strconv.Itoa(i))
		case 1:
			b.WriteString("%--c--%" + strconv.Itoa(i))
			w.WriteString(strconv.Itoa(i))
		case 2:
			b.WriteString("line " + strconv.Itoa(i) + "\n")
			w.WriteString("line " + strconv.Itoa(i) + "\n")
		case 3:
			b.WriteString("[[s" + strconv.Itoa(i) + "]]x[[]]" + strconv.Itoa(i))
			w.WriteString(strconv.Itoa(i))
		}
	}
	t, err := xcore.NewXTemplateFromString(b.String() + c + "{{f}}")
	vrt.Assert(err == nil && t != nil, "the template cannot be compiled")
	out := t.Execute(row("f", "").data(false))
	vrt.Assert(out == w.String()+c, "the text between the elements is not copied")
}

// C37_mark_huge: hundreds of marks, nested.
func C37_mark_huge() {
	n := hugeSize()
	nested := vrt.Choose("nested", 2) == 1
	if nested && n > 400 {
		n = 400
	}
	extra := vrt.Choose("extra", 3)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString("[[" + num(i) + "]]x")
		if !nested {
			b.WriteString("[[]]")
		}
	}
	if nested {
		for i := 0; i < n; i++ {
			b.WriteString("[[]]")
		}
	}
	text := b.String()
	switch extra {
	case 1:
		text += "[[]]"
	case 2:
		text = "[[" + vrt.Str("n", 1, 1, 'a', 'z') + "]]" + text
	}
	t, err := xcore.NewXTemplateFromString(text)
	vrt.Assert((err != nil) == (extra > 0) && (t == nil) == (extra > 0), "marks are accepted or refused wrongly")
}

// C37_field_huge: hundreds of fields.
func C37_field_huge() {
	n := hugeSize()
	d := newDS(false)
	l := xcore.NewXLanguage("n", langTag(0))
	v := vrt.Str("v", 0, 1, 0, 255)
	var b, w strings.Builder
	for i := 0; i < n; i++ {
		d.Set(num(i), i)
		l.Set(num(i), v)
		b.WriteString("{{" + num(i) + "}}," + "##" + num(i) + "##;")
		w.WriteString(strconv.Itoa(i) + "," + v + ";")
	}
	t, err := xcore.NewXTemplateFromString(b.String())
	vrt.Assert(err == nil && t != nil, "the template cannot be compiled")
	d.Set("#", l)
	vrt.Assert(t.Execute(d) == w.String(), "one of many fields is not replaced by its value")
}

// C38_ref_huge: one of hundreds of sub templates.
func C38_ref_huge() {
	n := hugeSize()
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString("[[" + num(i) + "]]" + strconv.Itoa(i) + "[[]]")
	}
	at := []int{0, 127, n - 1, n}[vrt.Choose("at", 4)]
	f := vrt.Str("f", 0, 1, 0, 255)
	t, err := xcore.NewXTemplateFromString(b.String() + "<&&" + num(at) + "&&|{{f}}>")
	vrt.Assert(err == nil && t != nil, "the template cannot be compiled")
	want := strconv.Itoa(at)
	if at == n {
		want = ""
	}
	out := t.Execute(row("f", f).data(false))
	vrt.Assert(out == "<"+want+"|"+f+">", "a reference outputs the wrong sub template")
}

// C38_loop_huge: hundreds of records.
func C38_loop_huge() {
	n := hugeSize()
	c := newDC(false)
	v := vrt.Str("v", 0, 1, 0, 255)
	var w strings.Builder
	at := []int{1, 127, n - 2}[vrt.Choose("at", 3)]
	for i := 0; i < n; i++ {
		r := newDS(false)
		r.Set("i", i)
		if i == at {
			r.Set("v", v)
		}
		c.Push(r)
		switch {
		case i == 0:
			w.WriteString("[")
		case i == n-1:
			w.WriteString("]")
		default:
			w.WriteString(strconv.Itoa(i))
			if i == at {
				w.WriteString(v)
			}
			w.WriteString("/,")
		}
	}
	d := newDS(false)
	d.Set("c", c)
	t, err := xcore.NewXTemplateFromString("[[c]]{{i}}{{v}}/,[[]][[c.first]][[[]][[c.last]]][[]]<@@c@@>")
	vrt.Assert(err == nil && t != nil, "the template cannot be compiled")
	out := t.Execute(d)
	vrt.Assert(out == "<"+w.String()+">", "a loop outputs the wrong text")
}

// C39_exec_huge: hundreds of records and nested executions do not change the data.
func C39_exec_huge() {
	n := []int{130, 300}[vrt.Choose("huge", 2)]
	c := newDC(false)
	v := anyInt("v")
	for i := 0; i < n; i++ {
		r := newDS(false)
		r.Set("v", v)
		r.Set("i", i)
		c.Push(r)
	}
	d := newDS(false)
	d.Set("c", c)
	t, err := xcore.NewXTemplateFromString("[[c]]{{i}},[[]]@@c@@")
	vrt.Assert(err == nil && t != nil, "the template cannot be compiled")
	a := t.Execute(d)
	b := t.Execute(d)
	vrt.Assert(a == b, "the second execution gives another output")
	vrt.Assert(c.Count() == n, "an execution changes the data")
	for i := 0; i < n; i++ {
		r, ok := c.Get(i)
		vrt.Assert(ok, "an execution changes the data")
		x, _ := r.Get("i")
		y, _ := r.Get("v")
		vrt.Assert(x == i && y == v, "an execution changes the data")
	}
}
