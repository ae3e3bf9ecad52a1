package zzvh

import (
	"strconv"
	"strings"
	"time"

	xcore "github.com/webability-go/xcore/v2"
	vrt "github.com/webability-go/xcore/v2/zzvrt"
)

// The harnesses of this file have larger structures: many entries, long
// names, deep nesting. Sizes are a few given numbers, contents are symbolic.

// wideKey is the key number i of many: two letters.
func wideKey(i int) string { return string([]byte{byte('A' + i%16), byte('A' + i/16)}) }

// anyWide is any key of n, or one that is none of them.
func anyWide(name string, n int) string {
	hi := byte('A' + (n+15)/16)
	if hi < 'P' {
		hi = 'P'
	}
	return vrt.Str(name, 2, 2, 'A', hi)
}

// longNames are two names of many bytes that differ at most in one byte at
// their end, their start or in the middle.
func longNames(lo, hi byte) (string, string) {
	sizes := []int{7, 15, 31, 63, 127, 255, 1023}
	pad := strings.Repeat("p", sizes[vrt.Choose("size", len(sizes))])
	a, b := vrt.Str("a", 1, 1, lo, hi), vrt.Str("b", 1, 1, lo, hi)
	switch vrt.Choose("differ", 4) {
	case 0:
		return pad + a, pad + b
	case 1:
		return a + pad, b + pad
	case 2:
		return pad + a + pad, pad + b + pad
	}
	return pad, pad + b
}

// C01_many: caches with many entries.
func C01_many() {
	sizes := []int{17, 40, 130}
	n := sizes[vrt.Choose("entries", vrt.Bound("sizes", 2, 3))]
	c := xcore.NewXCache("id", 0, 0)
	for i := 0; i < n; i++ {
		c.Set(wideKey(i), i)
	}
	k, v := anyWide("k", n), anyInt("v")
	op := vrt.Choose("op", 4)
	switch op {
	case 0:
		c.Set(k, v)
	case 1:
		c.Del(k)
	case 2:
		c.Flush()
		c.Set(k, v)
	}
	q := wideKey([]int{0, n / 2, n - 1, n}[vrt.Choose("q", 4)])
	at := 0
	for at < n && wideKey(at) != k {
		at++
	}
	iq := 0
	for iq < n && wideKey(iq) != q {
		iq++
	}
	var want interface{}
	if iq < n && op != 2 {
		want = iq
	}
	size := n
	switch op {
	case 0:
		if at == n {
			size++
		}
		if k == q {
			want = v
		}
	case 1:
		if at < n {
			size--
		}
		if k == q {
			want = nil
		}
	case 2:
		size = 1
		if k == q {
			want = v
		}
	}
	got, inv := c.Get(q)
	vrt.Observe(got, inv, c.Count())
	vrt.Assert(!inv && got == want, "Get returns a wrong value")
	vrt.Assert(c.Count() == size, "Count is not the number of entries")
	if op != 2 {
		for i := 0; i < n; i++ {
			if wideKey(i) == k {
				continue
			}
			got, inv := c.Get(wideKey(i))
			vrt.Assert(!inv && got == i, "an entry is lost among many")
		}
	}
}

// C01_long: long keys that differ little.
func C01_long() {
	a, b := longNames(0, 255)
	c := xcore.NewXCache("id", 0, 0)
	v, w := anyInt("v"), anyInt("w")
	c.Set(a, v)
	c.Set(b, w)
	n := 2
	if a == b {
		n = 1
		v = w
	}
	x, ix := c.Get(a)
	y, iy := c.Get(b)
	vrt.Assert(!ix && !iy && x == v && y == w, "Get returns a wrong value")
	vrt.Assert(c.Count() == n, "Count is not the number of entries")
	c.Del(b)
	vrt.Assert(c.Count() == n-1, "Del does not remove the entry")
	x, _ = c.Get(a)
	vrt.Assert(vrt.Or(a == b, x == v), "Del removes another entry")
}

// C02_many: the limits of one of many entries.
func C02_many() {
	n := []int{12, 34}[vrt.Choose("entries", 2)]
	expire := seconds("expire")
	c := xcore.NewXCache("id", 0, expire)
	m := &cmodel{expire: expire}
	for i := 0; i < n; i++ {
		if i == n/2 {
			vrt.Advance(seconds("elapsed"))
		}
		c.Set(wideKey(i), i)
		m.set(wideKey(i), i)
	}
	at := []int{0, n/2 - 1, n / 2, n - 1}[vrt.Choose("at", 4)]
	ttl := seconds("ttl")
	c.SetTTL(wideKey(at), ttl)
	m.e[at].ttl = ttl
	vrt.Advance(seconds("elapsed"))
	m.checkGet(c, wideKey(at))
	m.checkGet(c, wideKey(n/2+1))
	m.checkGet(c, wideKey(1))
}

// C03_many: Verify with many entries, one of them rejected.
func C03_many() {
	n := []int{9, 33, 70}[vrt.Choose("entries", vrt.Bound("sizes", 2, 3))]
	expire := seconds("expire")
	c := xcore.NewXCache("id", 0, expire)
	old := time.Duration(0)
	k := vrt.Choose("old", 3) * n / 2
	for i := 0; i < n; i++ {
		if i == k {
			old = seconds("elapsed")
			vrt.Advance(old)
		}
		c.Set(wideKey(i), i)
	}
	last := seconds("elapsed")
	vrt.Advance(last)
	bad := anyWide("bad", n)
	if vrt.Choose("validator", 2) == 1 {
		c.Validator = func(key string, t time.Time) bool { return key != bad }
	}
	want, left := 0, 0
	for i := 0; i < n; i++ {
		age := last
		if i < k {
			age += old
		}
		if expire != 0 && age > expire || c.Validator != nil && wideKey(i) == bad {
			want++
		} else {
			left++
		}
	}
	got := c.Verify()
	vrt.Observe(got, want)
	vrt.Assert(got == want, "Verify does not return the number of removed entries")
	vrt.Assert(c.Count() == left, "Verify removed other entries than the expired and rejected ones")
	got = c.Verify()
	vrt.Assert(got == 0, "a second Verify removes something")
}

// C04_large: large caches stay within their limit.
func C04_large() {
	max := []int{33, 64, 100, 257}[vrt.Choose("size", vrt.Bound("sizes", 3, 4))]
	c := xcore.NewXCache("id", max, 0)
	k := anyWide("k", max+16)
	at := []int{1, max / 2, max - 1, max, max + 3}[vrt.Choose("when", 5)]
	for i := 0; i < max+6; i++ {
		c.Set(wideKey(i), i)
		vrt.Assert(c.Count() <= max, "more than Maxitems entries")
		got, inv := c.Get(wideKey(i))
		vrt.Assert(got == i && !inv, "the entry just stored is not there")
		if i == at {
			c.Set(k, -1)
			vrt.Assert(c.Count() <= max, "more than Maxitems entries")
			got, inv := c.Get(k)
			vrt.Assert(got == -1 && !inv, "the entry just stored is not there")
		}
	}
}

// C05_many: evictions of large caches.
func C05_many() {
	max := []int{30, 55, 100}[vrt.Choose("size", vrt.Bound("sizes", 2, 3))]
	c := xcore.NewXCache("id", max, 0)
	m := &cmodel{}
	set := func(k string, v int) {
		c.Set(k, v)
		m.lruSet(max, k, v)
	}
	for i := 0; i < max-1; i++ {
		set(wideKey(i), i)
	}
	for i := 0; i < vrt.Bound("reads", 1, 2); i++ {
		k := anyWide("read", max)
		c.Get(k)
		if j := m.find(k); j >= 0 {
			m.touch(j)
		}
	}
	if vrt.Choose("clean", 2) == 1 {
		p := []int{0, 1, 3, 10, 33, 50, 99, 100}[vrt.Choose("perc", 8)]
		got := c.Clean(p)
		vrt.Assert(got == m.clean(p), "Clean does not return the number of removed entries")
	} else {
		for i := 0; i < 3; i++ {
			set(wideKey(max+i), i)
		}
	}
	m.same(c)
}

// C05_percent: any percentage of a cache of 25 and 60 entries.
func C05_percent() {
	n := []int{25, 60}[vrt.Choose("entries", 2)]
	c := xcore.NewXCache("id", 0, 0)
	for i := 0; i < n; i++ {
		c.Set(wideKey(i), i)
	}
	p := vrt.Int("perc", 0, 100)
	got := c.Clean(p)
	vrt.Observe(got)
	vrt.Assert(got == n*p/100, "Clean does not return the number of removed entries")
	vrt.Assert(c.Count() == n-got, "the number of remaining entries is wrong")
	for i := 0; i < n; i++ {
		v, _ := c.Get(wideKey(i))
		if i < got {
			vrt.Assert(v == nil, "one of the least recently used entries is still there")
		} else {
			vrt.Assert(v == i, "an entry that was not the least recently used is gone")
		}
	}
}

// C07_many: a dataset with many keys, and long keys.
func C07_many() {
	n := []int{9, 33, 130}[vrt.Choose("keys", vrt.Bound("sizes", 2, 3))]
	d := newDS(vrt.Choose("ts", 2) == 1)
	for i := 0; i < n; i++ {
		d.Set(wideKey(i), i)
	}
	k, v := anyWide("k", n), anyInt("v")
	set := vrt.Choose("set", 2) == 1
	if set {
		d.Set(k, v)
	} else {
		d.Del(k)
	}
	got, ok := d.Get(k)
	vrt.Assert(ok == set && (!set || got == v), "Get does not return the value of the key")
	for i := 0; i < n; i++ {
		if wideKey(i) != k {
			got, ok := d.Get(wideKey(i))
			vrt.Assert(ok && got == i, "another key is changed")
		}
	}
}

// C07_long: long keys that differ little.
func C07_long() {
	a, b := longNames('a', 'z')
	d := newDS(vrt.Choose("ts", 2) == 1)
	v, w := anyInt("v"), anyInt("w")
	d.Set(a, v)
	d.Set(b, w)
	x, xok := d.Get(a)
	y, yok := d.Get(b)
	vrt.Assert(xok && yok && y == w, "Get does not return the value of the key")
	vrt.Assert(vrt.Or(a == b, x == v), "another key is changed")
	d.Del(b)
	_, yok = d.Get(b)
	_, xok = d.Get(a)
	vrt.Assert(!yok && xok == (a != b), "Del does not remove just the key")
}

// C08_deep: deep paths through datasets and collections.
func C08_deep() {
	depth := []int{6, 8, 12}[vrt.Choose("depth", vrt.Bound("depths", 2, 3))]
	ts := vrt.Choose("ts", 2) == 1
	n := leaf(vrt.Int("v", 0, 9))
	var segs []string
	kind := vrt.Choose("kind", 3) // only datasets, alternating, mostly collections
	for i := 0; i < depth; i++ {
		k := letter(i)
		n = ds(ts != (i%3 == 0), []string{k, "other"}, []*node{n, leaf(i)})
		segs = append([]string{k}, segs...)
		if i < depth-1 && (kind == 1 && i%2 == 1 || kind == 2) {
			n = dc(ts, ds(ts, nil, nil), n)
			segs = append([]string{"1"}, segs...)
		}
	}
	at := []int{0, len(segs) / 2, len(segs) - 1}[vrt.Choose("at", 3)]
	segs[at] = plainKey("segment", 0, 1)
	switch vrt.Choose("cut", 3) {
	case 1:
		segs = segs[:len(segs)-1]
	case 2:
		segs = append(segs, "x")
	}
	checkPath(n, strings.Join(segs, ">"), segs)
}

// C08_wide: long segments.
func C08_wide() {
	a, b := longNames('a', 'z')
	ts := vrt.Choose("ts", 2) == 1
	n := ds(ts, []string{a}, []*node{ds(ts, []string{b}, []*node{leaf(vrt.Int("v", 0, 9))})})
	segs := [][]string{{a, b}, {b, a}, {a}, {b}, {a, a}}[vrt.Choose("path", 5)]
	checkPath(n, strings.Join(segs, ">"), segs)
}

// C11_many: a long collection.
func C11_many() {
	n := []int{9, 20, 70}[vrt.Choose("records", vrt.Bound("sizes", 2, 3))]
	c := newDC(vrt.Choose("ts", 2) == 1)
	var m []xcore.XDatasetDef
	front := vrt.Choose("front", 3)
	for i := 0; i < n; i++ {
		r := record(i)
		if front == 1 || front == 2 && i%2 == 1 {
			c.Unshift(r)
			m = append([]xcore.XDatasetDef{r}, m...)
		} else {
			c.Push(r)
			m = append(m, r)
		}
	}
	cl := c.Clone()
	shift := vrt.Choose("shift", 2) == 1
	for i := []int{1, n / 2, n - 1, n}[vrt.Choose("take", 4)]; i > 0; i-- {
		if shift {
			vrt.Assert(c.Shift() == m[0], "Shift does not return the first record")
			m = m[1:]
		} else {
			vrt.Assert(c.Pop() == m[len(m)-1], "Pop does not return the last record")
			m = m[:len(m)-1]
		}
	}
	r := record(100)
	if vrt.Choose("end", 2) == 1 {
		c.Push(r)
		m = append(m[:len(m):len(m)], r)
	} else {
		c.Unshift(r)
		m = append([]xcore.XDatasetDef{r}, m...)
	}
	sameRecords(c, m, "long collection")
	i := anyInt("index")
	r, ok := c.Get(i)
	if i >= 0 && i < len(m) {
		vrt.Assert(ok && r == m[i], "Get does not return the record")
	} else {
		vrt.Assert(!ok && r == nil, "Get of an index out of range returns something")
	}
	vrt.Assert(cl.Count() == n, "a clone taken before is altered")
}

// C12_many: lookups in a long collection.
func C12_many() {
	n := []int{9, 20, 40}[vrt.Choose("records", vrt.Bound("sizes", 2, 3))]
	c := newDC(vrt.Choose("ts", 2) == 1)
	a, b := []int{0, n / 2, n - 1}[vrt.Choose("a", 3)], vrt.Int("b", 0, n-1)
	v, w := vrt.Int("v", 0, 9), vrt.Int("w", 0, 9)
	for i := 0; i < n; i++ {
		d := newDS(i%2 == 1)
		d.Set("other", i)
		if i == b {
			d.Set("k", w)
		} else if i == a {
			d.Set("k", v)
		}
		c.Push(d)
	}
	want := v
	if b >= a {
		want = w
	}
	checkLookups(c, "k", want, true)
	checkLookups(c, "other", n-1, true)
	checkLookups(c, "missing", nil, false)
}

// C13_many: long collections of both kinds.
func C13_many() {
	n := []int{9, 33}[vrt.Choose("records", 2)]
	p, t := newDC(false), newDC(true)
	for i := 0; i < n; i++ {
		d := newDS(false)
		d.Set(wideKey(i), i)
		if i%3 == 2 {
			p.Unshift(d)
			t.Unshift(d)
		} else {
			p.Push(d)
			t.Push(d)
		}
	}
	for i := vrt.Choose("take", 3) * n / 3; i > 0; i-- {
		if i%2 == 1 {
			vrt.Assert(p.Pop() == t.Pop(), "Pop differs between the plain and the thread safe collection")
		} else {
			vrt.Assert(p.Shift() == t.Shift(), "Shift differs between the plain and the thread safe collection")
		}
	}
	vrt.Assert(p.Count() == t.Count(), "Count differs between the plain and the thread safe collection")
	i := anyInt("index")
	a, aok := p.Get(i)
	b, bok := t.Get(i)
	vrt.Assert(aok == bok && a == b, "Get differs between the plain and the thread safe collection")
	sameLookups(p, t, wideKey(n/2))
	pc, tc := p.Clone(), t.Clone()
	vrt.Assert(pc.Count() == tc.Count() && pc.Count() == p.Count(), "Clone differs between the plain and the thread safe collection")
	sameLookups(pc, tc, anyWide("q", n))
}

// C17_many: texts with many entries.
func C17_many() {
	n := []int{17, 60, 200}[vrt.Choose("lines", vrt.Bound("sizes", 2, 3))]
	end := []string{"\n", "\r\n", "\n\n"}[vrt.Choose("end", 3)]
	at := []int{0, n / 2, n - 1}[vrt.Choose("at", 3)]
	text := ""
	m := &assoc{}
	for i := 0; i < n; i++ {
		k, v := wideKey(i), "v"+strconv.Itoa(i)
		if i == at {
			k, v = anyWide("k", n), vrt.Str("v", 0, 1, 'a', 'z')
		}
		text += k + "=" + v + end
		m.set(k, v)
	}
	l, err := xcore.NewXLanguageFromString(text)
	vrt.Assert(err == nil && l != nil, "loading fails")
	sameTable(l, m, "flat text")
}

// C18_many: a table with many entries.
func C18_many() {
	n := []int{17, 60}[vrt.Choose("entries", 2)]
	l := xcore.NewXLanguage("n", langTag(0))
	m := &assoc{}
	for i := 0; i < n; i++ {
		l.Set(wideKey(i), wideKey(i))
		l.SetStatus(wideKey(i), "s")
		m.set(wideKey(i), wideKey(i))
	}
	k := anyWide("k", n)
	st := "s"
	if vrt.Choose("op", 2) == 0 {
		v := vrt.Str("v", 0, 1, 0, 255)
		l.Set(k, v)
		if m.find(k) < 0 {
			st = ""
		}
		m.set(k, v)
	} else {
		l.Del(k)
		m.del(k)
		st = ""
	}
	vrt.Assert(l.GetStatus(k) == st, "GetStatus gives a wrong status")
	sameTable(l, m, "table")
}

// C18_long: long keys and values.
func C18_long() {
	a, b := longNames(0, 255)
	l := xcore.NewXLanguage(a, langTag(0))
	m := &assoc{}
	l.Set(a, b)
	m.set(a, b)
	l.Set(b, a)
	m.set(b, a)
	l.SetStatus(a, b)
	sameTable(l, m, "table")
	vrt.Assert(l.GetName() == a && l.GetStatus(a) == b, "a long name or status is wrong")
	l.Del(b)
	m.del(b)
	sameTable(l, m, "table")
}

// C19_many: tables with many entries are read back.
func C19_many() {
	n := []int{5, 17, 40}[vrt.Choose("entries", vrt.Bound("sizes", 2, 3))]
	vrt.MapOrder(0)
	l := xcore.NewXLanguage("n", langTag(1))
	m := &assoc{}
	at := []int{0, n / 2, n - 1}[vrt.Choose("at", 3)]
	v, s := vrt.Str("v", 0, 1, ' ', '~'), vrt.Str("s", 0, 1, ' ', '~')
	for i := 0; i < n; i++ {
		k, x := wideKey(i), wideKey(i)+" "
		if i == at {
			x = v
			l.SetStatus(k, s)
		}
		l.Set(k, x)
		m.set(k, x)
	}
	r := reload(l)
	sameTable(r, m, "read back")
	vrt.Assert(r.GetStatus(wideKey(at)) == s, "a status is not read back")
	vrt.Assert(r.GetStatus(wideKey((at+1)%n)) == "", "a status is read back for another entry")
}

// C19_long: long texts are read back.
func C19_long() {
	a, b := longNames(' ', '~')
	l := xcore.NewXLanguage("n"+a, langTag(1))
	l.Set("k"+a, b)
	l.SetStatus("k"+a, b)
	r := reload(l)
	m := &assoc{}
	m.set("k"+a, b)
	sameTable(r, m, "read back")
	vrt.Assert(r.GetStatus("k"+a) == b && r.GetName() == "n"+a, "name or status is not read back")
}

// C21_long: long texts and comments.
func C21_long() {
	size := []int{60, 250, 1020, 4090}[vrt.Choose("size", vrt.Bound("sizes", 3, 4))]
	pad := strings.Repeat("Ab 1\t", size/5)
	c := vrt.Str("c", 0, 1, 0, 255)
	text := ""
	switch vrt.Choose("form", 5) {
	case 0:
		text = pad + c + "{{f}}" + pad
	case 1:
		text = "a%--" + pad + c + "--%" + pad
	case 2:
		text = "a%--" + strings.Repeat("\n-%", size/3) + c + "--%b"
	case 3:
		text = "a[[n]]" + pad + c + "[[]]b" + pad + "##e##"
	default:
		text = "{{" + strings.Repeat("n", size) + c + "}}" + strings.Repeat("{", 70) + strings.Repeat("#\n", 70)
	}
	checkPlain(text)
}

// C21_many: many elements.
func C21_many() {
	n := []int{9, 40, 120}[vrt.Choose("elements", vrt.Bound("sizes", 2, 3))]
	text := ""
	at := []int{0, n / 2, n - 1}[vrt.Choose("at", 3)]
	for i := 0; i < n; i++ {
		text += []string{"{{f}}", "%--c--%", "##e##", "[[a]]x[[]]", "&&r&&", "@@l@@", "??c??", "!!d!!"}[i*3%8]
		if i == at {
			text += vrt.Str("between", 0, 1, 0, 255)
		} else if i%3 > 0 {
			text += []string{"", "\n", " "}[i%3] + letter(i%20)
		}
	}
	checkPlain(text)
}

// C22_many: many marks, nested and in sequence.
func C22_many() {
	n := []int{20, 60}[vrt.Choose("marks", 2)]
	extra := vrt.Choose("extra", 4)
	text := ""
	for i := 0; i < n; i++ {
		text += "[[" + wideKeyLower(i) + "]]x"
		if i%4 != 3 {
			text += "[[]]"
		}
	}
	text += "z"
	for i := 3; i < n; i += 4 {
		text += "[[]]"
	}
	switch extra {
	case 1:
		text += "[[]]"
	case 2:
		text = "[[" + vrt.Str("n", 1, 1, 'a', 'z') + "]]" + text
	case 3:
		text = "[[]]" + text + "[[" + vrt.Str("n", 1, 1, 'a', 'z') + "]]"
	}
	t, err := xcore.NewXTemplateFromString(text)
	vrt.Assert((err != nil) == (extra > 0) && (t == nil) == (extra > 0), "marks are accepted or refused wrongly")
}

func wideKeyLower(i int) string { return strings.ToLower(wideKey(i)) }

// C23_many: many fields and entries.
func C23_many() {
	n := []int{17, 60}[vrt.Choose("fields", 2)]
	r := row()
	lang := &assoc{}
	var l []telem
	k := vrt.Str("k", 2, 2, 'a', 'p')
	for i := 0; i < n; i++ {
		r.set(wideKeyLower(i), i)
		lang.set(wideKeyLower(i), wideKey(i))
		l = append(l, field(wideKeyLower(i)), tx(","), entry(wideKeyLower(i)))
	}
	l = append(l, tx("<"), field(k), tx("|"), entry(k), tx(">"))
	renders(l, r, lang, false, "one of many fields is not replaced by its value")
}

// C23_long: long names and values.
func C23_long() {
	a, b := longNames('a', 'z')
	lang := &assoc{}
	lang.set(a, b)
	r := row(a, "A"+b)
	l := []telem{field(a), tx(";"), field(b), tx(";"), entry(a), tx(";"), entry(b)}
	renders(l, r, lang, vrt.Choose("ts", 2) == 1, "a long field is not replaced by its value")
}

// C23_deep: many levels of data.
func C23_deep() {
	n := []int{5, 9}[vrt.Choose("levels", 2)]
	has := vrt.Int("has", 0, n)
	v := vrt.Str("v", 0, 1, 0, 255)
	var r *rec
	var inner telem
	for i := n - 1; i >= 0; i-- {
		x := row("id", strconv.Itoa(i))
		if i == has {
			x.set("f", v)
		}
		d := decl("s"+strconv.Itoa(i), tx("("), field("id"), field("f"))
		if r != nil {
			x.set("in", r)
			d.body = append(d.body, inner, ref(inner.s, "in"), field("id"), field("f"))
		}
		d.body = append(d.body, tx(")"))
		inner, r = d, x
	}
	renders([]telem{inner, ref(inner.s), field("id"), field("f")}, r, nil, vrt.Choose("ts", 2) == 1, "a field is not taken from the innermost level that has it")
}

// C24_long: long names.
func C24_long() {
	a, b := longNames('a', 'z')
	q := []string{a, b, "p"}[vrt.Choose("q", 3)]
	l := []telem{decl(a, tx("A"), field("id")), decl(b, tx("B"), field("id")), decl("p."+a, tx("PA")), decl("p.", tx("P")),
		tx("<"), ref(q), ref(q, "d"), tx("|"), ref("", "f", "p."), tx(">")}
	renders(l, row("f", b, "id", "1", "d", row("id", "2")), nil, false, "a reference outputs the wrong sub template")
}

// C24_many: many sub templates.
func C24_many() {
	n := []int{17, 60}[vrt.Choose("templates", 2)]
	var l []telem
	for i := 0; i < n; i++ {
		l = append(l, decl(wideKeyLower(i), tx(wideKey(i))), ref(wideKeyLower(i)))
	}
	q := vrt.Str("q", 2, 2, 'a', 'p')
	l = append(l, tx("<"), ref(q), tx(">"), ref("", "f", ""), tx(">"))
	l[len(l)-2] = ref("", "f", "a")
	renders(l, row("f", vrt.Str("f", 0, 1, 'a', 'p')), nil, false, "a reference outputs the wrong sub template")
}

// C25_many: many records.
func C25_many() {
	n := []int{33, 101}[vrt.Choose("records", vrt.Bound("sizes", 1, 2))]
	var list []*rec
	at := vrt.Int("at", 0, n-1)
	for i := 0; i < n; i++ {
		x := row("id", i)
		if i == at {
			x.set("v", vrt.Str("v", 0, 1, 0, 255))
		}
		list = append(list, x)
	}
	l := []telem{decl("c", append([]telem{field(".counter")}, shown("b")...)...)}
	for _, s := range []string{".even", ".last", ".key.20"} {
		if vrt.Choose("has"+s, 2) == 1 {
			l = append(l, decl("c"+s, append([]telem{field(".counter")}, shown(s)...)...))
		}
	}
	renders(append(l, tx("<"), loop("c"), tx(">")), row("v", "w", "c", list), nil, false, "a loop outputs the wrong text")
}

// C26_long: long values select sub templates.
func C26_long() {
	a, b := longNames('a', 'z')
	l := []telem{decl("f", tx("base")), decl("f.none", tx("none")), decl("f."+a, tx("A")), decl("t", tx("T"), field("f"))}
	l = append(l, tx("<"), cond("f"), tx("|"), cond("f", "t"), tx(">"))
	renders(l, row("f", b), nil, vrt.Choose("ts", 2) == 1, "a condition selects the wrong sub template")
}

// C26_many: many sub templates for values.
func C26_many() {
	n := []int{17, 60}[vrt.Choose("templates", 2)]
	l := []telem{decl("f", tx("base")), decl("f.none", tx("none"))}
	for i := 0; i < n; i++ {
		l = append(l, decl("f."+wideKeyLower(i), tx(wideKey(i))))
	}
	l = append(l, tx("<"), cond("f"), tx(">"))
	renders(l, row("f", vrt.Str("f", 2, 2, 'a', 'p')), nil, false, "a condition selects the wrong sub template")
}

// chain is a template with n levels of declarations; the innermost one uses q.
func chain(n int, q string, at []int) []telem {
	inner := []telem{tx("<"), ref(q), tx(">"), field("f")}
	for i := n - 1; i >= 0; i-- {
		for _, a := range at {
			if a == i {
				inner = append(inner, decl("x", tx("x"+strconv.Itoa(i))))
			}
		}
		d := decl("s"+strconv.Itoa(i), inner...)
		inner = []telem{tx("("), d, ref(d.s), tx(")")}
	}
	return inner
}

// C27_deep: a sub template is found through many levels.
func C27_deep() {
	n := []int{5, 9, 14}[vrt.Choose("levels", vrt.Bound("depths", 2, 3))]
	at := []int{vrt.Choose("at", n+1)}
	l := chain(n, vrt.Str("q", 1, 1, 'w', 'y'), at)
	if at[0] == n {
		l = append(l, decl("x", tx("xr")))
	}
	if vrt.Choose("outer", 2) == 1 {
		l = append(l, decl("y", tx("yr")))
	}
	renders(l, row("f", "F"), nil, false, "a sub template is used outside its scope or not within it")
}

// C27_many: many declarations at one level, the last of a name counts.
func C27_many() {
	n := []int{17, 60}[vrt.Choose("declarations", 2)]
	var l []telem
	k := vrt.Str("k", 2, 2, 'a', 'p')
	l = append(l, decl(k, tx("before")))
	for i := 0; i < n; i++ {
		l = append(l, decl(wideKeyLower(i), tx(wideKey(i))))
	}
	l = append(l, tx("<"), ref(k), ref("aa"), ref(wideKeyLower(n-1)), tx(">"))
	b := body(l, nil)
	t := compiled(l)
	out := t.Execute(row().data(false))
	vrt.Observe(out)
	vrt.Assert(out == rendering(b, nil, nil), "a sub template is used outside its scope or not within it")
}

// C28_deep: deep and wide templates are cloned.
func C28_deep() {
	n := []int{5, 9}[vrt.Choose("levels", 2)]
	at := vrt.Choose("at", n+1)
	l := chain(n, "x", []int{at})
	for i := 0; i < 12; i++ {
		l = append(l, decl(wideKeyLower(i), tx(wideKey(i)), field("f")), ref(wideKeyLower(i)), comment("c"), field("f"))
	}
	if at == n {
		l = append(l, decl("x", tx("xr")))
	}
	v := vrt.Str("v", 0, 1, 0, 255)
	d := row("f", v).data(false)
	want := rendering(body(l, nil), []*rec{row("f", v)}, nil)
	t := compiled(l)
	c := t.Clone()
	vrt.Assert(c.Execute(d) == want, "a clone renders something else")
	a, o := t, c
	if vrt.Choose("side", 2) == 1 {
		a, o = c, t
	}
	x := a
	for i := 0; i < n; i++ {
		x = x.GetTemplate("s" + strconv.Itoa(i))
		vrt.Assert(x != nil, "a sub template is missing")
	}
	if vrt.Choose("change", 2) == 1 {
		x.AddTemplate("x", compiled([]telem{tx("NEW")}))
	} else {
		vrt.Assert(x.LoadString("NEW") == nil, "loading fails")
	}
	vrt.Assert(o.Execute(d) == want, "a change of one side is visible in the other")
}

// C29_many: larger data, executed twice.
func C29_many() {
	n := []int{12, 40}[vrt.Choose("records", vrt.Bound("sizes", 1, 2))]
	var list []*rec
	at := vrt.Int("at", 0, n-1)
	for i := 0; i < n; i++ {
		x := row("id", i)
		if i == at {
			x.set("v", vrt.Str("v", 0, 1, 0, 255))
		}
		list = append(list, x)
	}
	l := []telem{decl("c", append([]telem{field(".counter")}, shown("b")...)...), loop("c"), loop("c")}
	r := row("c", list)
	d := r.data(false)
	t := compiled(l)
	a := t.Execute(d)
	b := t.Execute(d)
	vrt.Observe(a)
	vrt.Assert(a == b, "the second execution gives another output")
	vrt.Assert(a == rendering(body(l, nil), []*rec{r}, nil), "the output is wrong")
	sameData(d, r)
}

// C30_large: large files.
func C30_large() {
	size := []int{4095, 8192, 66000, 140000}[vrt.Choose("size", vrt.Bound("sizes", 3, 4))]
	c := vrt.Str("c", 0, 1, 0, 255)
	switch vrt.Choose("kind", 3) {
	case 0:
		s := strings.Repeat("0123456789abcde\n", size/16) + "{{f}}" + c
		t, err := xcore.NewXTemplateFromFile(vrt.File("a.template", s))
		vrt.Assert(err == nil && t != nil, "a large file cannot be loaded")
		vrt.Assert(t.Execute(row("f", "F").data(false)) == s[:len(s)-len(c)-5]+"F"+c, "the template of a large file is wrong")
	case 1:
		s := strings.Repeat("#123456789abcde\n", size/16) + "k=v\n" + c
		l, err := xcore.NewXLanguageFromFile(vrt.File("a.language", s))
		vrt.Assert(err == nil && l != nil, "a large file cannot be loaded")
		vrt.Assert(len(l.GetEntries()) == 1 && l.Get("k") == "v", "the table of a large file is wrong")
	default:
		s := "<language id=\"n\" lang=\"en\"><!--" + strings.Repeat("0123456789abcde\n", size/16) + "--><entry id=\"k\">v</entry></language>"
		l, err := xcore.NewXLanguageFromXMLFile(vrt.File("a.xml", s))
		vrt.Assert(err == nil && l != nil, "a large file cannot be loaded")
		vrt.Assert(len(l.GetEntries()) == 1 && l.Get("k") == "v", "the table of a large file is wrong")
	}
}

// C10_deep: deep structures and many keys are cloned.
func C10_deep() {
	vrt.MapOrder(2)
	n := []int{5, 8}[vrt.Choose("depth", 2)]
	ts := vrt.Choose("ts", 2) == 1
	coll := vrt.Choose("collections", 2) == 1
	v := anyInt("v")
	var build func(i int) xcore.XDatasetDef
	build = func(i int) xcore.XDatasetDef {
		d := newDS(ts != (i%2 == 0))
		d.Set("v", v)
		for j := 0; j < 10; j++ {
			d.Set(wideKey(j), j)
		}
		if i > 0 && coll {
			c := newDC(ts)
			c.Push(newDS(false))
			c.Push(build(i - 1))
			d.Set("c", c)
		} else if i > 0 {
			d.Set("c", build(i-1))
		}
		return d
	}
	down := func(d xcore.XDatasetDef) xcore.XDatasetDef {
		for i := 0; i < n; i++ {
			var ok bool
			if coll {
				c, _ := d.GetCollection("c")
				vrt.Assert(c != nil, "a nested collection is missing")
				d, ok = c.Get(1)
			} else {
				d, ok = d.GetDataset("c")
			}
			vrt.Assert(ok, "a nested dataset is missing")
		}
		return d
	}
	x := build(n)
	y := x.Clone()
	a, b := down(x), down(y)
	if vrt.Choose("side", 2) == 1 {
		a, b = b, a
	}
	w, ok := b.GetInt("v")
	vrt.Assert(ok && w == v, "the clone differs from the original")
	k := anyWide("k", 10)
	a.Set(k, "new")
	a.Set("v", "new")
	w, ok = b.GetInt("v")
	vrt.Assert(ok && w == v, "a change of one side is visible in the other")
	for j := 0; j < 10; j++ {
		got, _ := b.Get(wideKey(j))
		vrt.Assert(got == j, "a change of one side is visible in the other")
	}
}

// C15_deep: deep maps and long lists.
func C15_deep() {
	n := []int{5, 9}[vrt.Choose("depth", 2)]
	list := []int{0, 1, 20}[vrt.Choose("list", 3)]
	v := anyInt("v")
	m := map[string]interface{}{"k": v}
	var segs []string
	for i := 0; i < n; i++ {
		switch {
		case list == 0:
			m = map[string]interface{}{"m": m, "i": i}
		case i%2 == 0:
			l := make([]map[string]interface{}, list)
			for j := range l {
				l[j] = map[string]interface{}{"j": j}
			}
			l[list-1] = m
			m = map[string]interface{}{"m": l, "i": i}
			segs = append([]string{strconv.Itoa(list - 1)}, segs...)
		default:
			l := make([]interface{}, list)
			for j := range l {
				l[j] = map[string]interface{}{"j": j}
			}
			l[list-1] = m
			m = map[string]interface{}{"m": l, "i": i}
			segs = append([]string{strconv.Itoa(list - 1)}, segs...)
		}
		segs = append([]string{"m"}, segs...)
	}
	d := xcore.NewXDataset(m)
	got, ok := d.Get(strings.Join(append(segs, "k"), ">"))
	vrt.Assert(ok && got == v, "a deep value is missing or changed")
	if list == 20 {
		c, _ := d.GetCollection("m")
		vrt.Assert(c != nil && c.Count() == 20, "a collection has the wrong number of records")
		for j := 0; j < 19; j++ {
			r, ok := c.Get(j)
			vrt.Assert(ok, "a record is missing")
			x, _ := r.Get("j")
			vrt.Assert(x == j, "the records are not in order")
		}
	}
}

// C15_many: maps with many keys, and many records.
func C15_many() {
	n := []int{17, 60}[vrt.Choose("keys", 2)]
	m := map[string]interface{}{}
	for i := 0; i < n; i++ {
		m[wideKey(i)] = i
	}
	k, v := anyWide("k", n), anyInt("v")
	m[k] = v
	var d xcore.XDatasetDef = xcore.NewXDataset(m)
	if vrt.Choose("records", 2) == 1 {
		l := make([]map[string]interface{}, 30)
		for i := range l {
			l[i] = map[string]interface{}{"i": i}
		}
		l[17] = m
		c := xcore.NewXDatasetCollection(l)
		vrt.Assert(c.Count() == 30, "a collection has the wrong number of records")
		for i := range l {
			r, ok := c.Get(i)
			vrt.Assert(ok, "a record is missing")
			if i == 17 {
				d = r
				continue
			}
			x, _ := r.Get("i")
			vrt.Assert(x == i, "the records are not in order")
		}
	}
	got, ok := d.Get(k)
	vrt.Assert(ok && got == v, "a value of the map was changed")
	for i := 0; i < n; i++ {
		if wideKey(i) != k {
			got, ok := d.Get(wideKey(i))
			vrt.Assert(ok && got == i, "a value of the map was changed")
		}
	}
	d.Del(k)
	x, ok := m[k]
	vrt.Assert(ok && x == v, "the argument was modified")
}

// C16_many: texts of datasets and collections with many entries.
func C16_many() {
	n := []int{9, 17}[vrt.Choose("entries", 2)]
	vrt.MapOrder(0)
	d := newDS(vrt.Choose("ts", 2) == 1)
	l := xcore.NewXLanguage("n", langTag(0))
	k := anyWide("k", n)
	d.Set(k, "new")
	l.Set(k, "new")
	var list, quoted []string
	for i := 0; i < n; i++ {
		if wideKey(i) != k {
			d.Set(wideKey(i), "v")
			l.Set(wideKey(i), "v")
			list = append(list, wideKey(i)+":v")
			quoted = append(quoted, wideKey(i)+":\"v\"")
		}
	}
	want := strings.Join(sorted(append(list, k+":new")), " ")
	vrt.Assert(strings.Contains(d.String(), want), "String does not list every entry in order")
	vrt.Assert(strings.Contains(l.String(), want), "String does not list every entry in order")
	want = strings.Join(sorted(append(quoted, k+":\"new\"")), " ")
	vrt.Assert(strings.Contains(d.GoString(), want), "GoString does not list every entry in order")
	vrt.Assert(strings.Contains(l.GoString(), want), "GoString does not list every entry in order")
	c := newDC(vrt.Choose("ts", 2) == 1)
	want = ""
	for i := 0; i < n+5; i++ {
		r := newDS(false)
		r.Set("i", i)
		c.Push(r)
		want += strconv.Itoa(i) + ":" + r.String() + " "
	}
	vrt.Assert(strings.Contains(c.String(), "["+want+"]"), "String does not list every record in order")
	g := c.GoString()
	if g != c.String() {
		at := strings.Index(g, "[")
		for i := 0; i < n+5; i++ {
			j := strings.Index(g[at+1:], strconv.Itoa(i)+":")
			vrt.Assert(at >= 0 && j >= 0, "GoString does not list every record in order")
			at += j + 1
		}
	}
}
