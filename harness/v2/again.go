package zzvh

import (
	"strconv"
	"strings"
	"time"

	xcore "github.com/webability-go/xcore/v2"
	vrt "github.com/webability-go/xcore/v2/zzvrt"
)

// The harnesses of this file ask again after a change: an answer given before
// must not survive the change, and objects made alike are not the same object.

// pt is a value of a named type.
type pt struct{ x, y int }

type named int

// otherValue is a value of a kind that xcore knows nothing about.
func otherValue(name string, kind int) interface{} {
	switch kind {
	case 0:
		return map[string]string{"a": vrt.Str(name, 0, 1, 0, 255)}
	case 1:
		return []byte(vrt.Str(name, 1, 2, 0, 255))
	case 2:
		return pt{anyInt(name), 2}
	case 3:
		return &pt{anyInt(name), 2}
	case 4:
		return named(anyInt(name))
	case 5:
		return []interface{}{anyInt(name), nil, "x"}
	case 6:
		return [2]int{anyInt(name), 1}
	case 7:
		return []int64{int64(anyInt(name))}
	case 8:
		return uintptr(anyInt(name))
	case 9:
		return time.Duration(anyInt(name))
	case 10:
		return [][]string{{vrt.Str(name, 0, 1, 0, 255)}, nil}
	case 11:
		return []string(nil)
	case 12:
		return []int{}
	case 13:
		return map[string]interface{}{"a": anyInt(name)}
	case 14:
		x := vrt.Str(name, 0, 1, 0, 255)
		return &x
	case 15:
		return failing(vrt.Str(name, 0, 1, 0, 255))
	case 16:
		return labelled(vrt.Str(name, 0, 1, 0, 255))
	}
	return (*pt)(nil)
}

// failing is an error.
type failing string

func (f failing) Error() string { return string(f) }

// labelled has a text of its own.
type labelled string

func (l labelled) String() string { return "<" + string(l) + ">" }

const otherKinds = 18

// someValue is a value of any kind, known to xcore or not.
func someValue(name string) interface{} {
	k := vrt.Choose(name+"_kind", allKinds+otherKinds)
	if k < allKinds {
		return anyValue(name, k)
	}
	return otherValue(name, k-allKinds)
}

// identical: the same value, of any kind.
func identical(a, b interface{}) bool {
	switch x := a.(type) {
	case map[string]string:
		y, ok := b.(map[string]string)
		return ok && len(y) == 1 && x["a"] == y["a"]
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		return ok && len(y) == 1 && x["a"] == y["a"]
	case []byte:
		y, ok := b.([]byte)
		return ok && string(x) == string(y)
	case []interface{}:
		y, ok := b.([]interface{})
		return ok && len(y) == 3 && x[0] == y[0] && y[1] == nil && y[2] == "x"
	case []int64:
		y, ok := b.([]int64)
		return ok && len(y) == 1 && x[0] == y[0]
	case [][]string:
		y, ok := b.([][]string)
		return ok && len(y) == 2 && len(y[0]) == 1 && x[0][0] == y[0][0] && y[1] == nil
	}
	switch b.(type) {
	case map[string]string, map[string]interface{}, []byte, []interface{}, []int64, [][]string:
		return false
	}
	return sameVal(a, b)
}

// C01_kinds: values of any kind are stored, replaced and returned.
func C01_kinds() {
	c := xcore.NewXCache("id", 0, 0)
	v := someValue("v")
	c.Set("k", v)
	got, inv := c.Get("k")
	vrt.Assert(!inv && identical(got, v), "Get returns another value")
	w := v
	switch vrt.Choose("then", 3) {
	case 0:
		c.Set("k", v)
	case 1:
		w = anyInt("w")
		c.Set("k", w)
	case 2:
		w = []string{"w"}
		c.Set("k", w)
	}
	got, inv = c.Get("k")
	vrt.Assert(!inv && identical(got, w), "Get returns another value after it was replaced")
	c.Set("k", v)
	got, inv = c.Get("k")
	vrt.Assert(!inv && identical(got, v), "Get returns another value after it was replaced")
	vrt.Assert(c.Count() == 1, "Count is not the number of entries")
	c.Del("k")
	got, inv = c.Get("k")
	vrt.Assert(got == nil && !inv && c.Count() == 0, "a deleted value is still there")
}

// C01_two: two caches with the same name share nothing.
func C01_two() {
	a, b := xcore.NewXCache("id", 0, 0), xcore.NewXCache("id", vrt.Choose("max", 2)*5, 0)
	ma, mb := &assoc{}, &assoc{}
	for i := 0; i < vrt.Bound("operations", 3, 4); i++ {
		c, m := a, ma
		if vrt.Choose("which", 2) == 1 {
			c, m = b, mb
		}
		k := ckey("k")
		switch vrt.Choose("op", 3) {
		case 0:
			c.Set(k, i)
			m.set(k, i)
		case 1:
			c.Del(k)
			m.del(k)
		case 2:
			c.Flush()
			m.flush()
		}
	}
	q := ckey("q")
	for i, c := range []*xcore.XCache{a, b} {
		want, _ := []*assoc{ma, mb}[i].get(q)
		got, inv := c.Get(q)
		vrt.Assert(!inv && got == want, "two caches of the same name share entries")
		vrt.Assert(c.Count() == len([]*assoc{ma, mb}[i].e), "two caches of the same name share entries")
	}
}

// C01_often: many operations on the same few keys.
func C01_often() {
	c := xcore.NewXCache("id", 0, 0)
	n := []int{30, 70, 140}[vrt.Choose("rounds", vrt.Bound("rounds", 2, 3))]
	at := vrt.Choose("at", 3) * (n / 3)
	v := anyInt("v")
	k := vrt.Str("k", 1, 1, 'a', 'd')
	want := [3]interface{}{}
	for i := 0; i < n; i++ {
		j := i % 3
		key := string([]byte{'a' + byte(j)})
		switch i % 4 {
		case 0, 1:
			c.Set(key, i)
			want[j] = i
		case 2:
			got, inv := c.Get(key)
			vrt.Assert(!inv && got == want[j], "Get returns a wrong value")
		case 3:
			if i%16 == 3 {
				c.Del(key)
				want[j] = nil
			}
		}
		if i == at {
			c.Set(k, v)
			for x := range want {
				if k == string([]byte{'a' + byte(x)}) {
					want[x] = v
				}
			}
		}
	}
	cnt := 0
	for j, w := range want {
		got, inv := c.Get(string([]byte{'a' + byte(j)}))
		vrt.Assert(!inv && got == w, "Get returns a wrong value")
		if w != nil {
			cnt++
		}
	}
	if k == "d" {
		cnt++
	}
	vrt.Assert(c.Count() == cnt, "Count is not the number of entries")
}

// C03_swap: the Validator may be replaced at any time.
func C03_swap() {
	c := xcore.NewXCache("id", 0, 0)
	m := &cmodel{}
	calls, answer := 0, 0
	answers := []bool{vrt.Bool("first"), vrt.Bool("second")}
	valid := func(i int) func(string, time.Time) bool {
		return func(string, time.Time) bool {
			calls++
			answer = i
			return answers[i]
		}
	}
	for i := 0; i < vrt.Bound("operations", 4, 5); i++ {
		switch vrt.Choose("op", 4) {
		case 0:
			c.Set("k", i)
			m.set("k", i)
		case 1:
			w := vrt.Choose("validator", 3)
			if w == 2 {
				c.Validator = nil
			} else {
				c.Validator = valid(w)
			}
			answer = w
		case 2:
			removed := -1
			had := c.Validator != nil
			calls = 0
			asked := answer
			v, inv := c.Get("k")
			if len(m.e) == 0 {
				vrt.Assert(v == nil && !inv, "Get of an absent key does not return nil, false")
				break
			}
			if had {
				vrt.Assert(calls > 0 && answer == asked, "another Validator is consulted")
				if !answers[asked] {
					vrt.Cover("rejected")
					vrt.Assert(v == nil && inv && c.Count() == 0, "Get serves a rejected value")
					m.e = nil
					removed = 0
				}
			}
			if removed < 0 {
				vrt.Assert(v == m.e[0].v && !inv, "Get does not return the accepted value")
			}
		case 3:
			had, asked := c.Validator != nil, answer
			n := c.Verify()
			if len(m.e) > 0 && had && !answers[asked] {
				vrt.Assert(n == 1 && c.Count() == 0, "Verify keeps a rejected entry")
				m.e = nil
			} else {
				vrt.Assert(n == 0 && c.Count() == len(m.e), "Verify removes a valid entry")
			}
		}
	}
}

// C02_limited: the limits of age in a limited cache, with a Validator or not.
func C02_limited() {
	c := xcore.NewXCache("id", []int{0, 3, 40}[vrt.Choose("max", 3)], 0)
	m := &cmodel{}
	if vrt.Choose("validator", 2) == 1 {
		c.Validator = func(string, time.Time) bool { return true }
	}
	if vrt.Choose("expire", 2) == 1 {
		c.Expire = vrtDuration("expire")
		m.expire = c.Expire
	}
	c.Set("k", "x")
	m.set("k", "x")
	if vrt.Choose("other", 2) == 1 {
		c.Set("l", "y")
		m.set("l", "y")
	}
	if vrt.Choose("ttl", 2) == 1 {
		d := vrtDuration("ttl")
		c.SetTTL("k", d)
		m.e[0].ttl = d
	}
	vrt.Advance(vrtDuration("age"))
	m.checkGet(c, "k")
	vrt.Advance(vrtDuration("age"))
	m.checkGet(c, "k")
	m.checkGet(c, "l")
}

// C03_limited: the Validator in a limited cache with or without Expire.
func C03_limited() {
	c := xcore.NewXCache("id", []int{4, 12, 40}[vrt.Choose("max", 3)], 0)
	if vrt.Choose("expire", 2) == 1 {
		c.Expire = time.Hour
	}
	if vrt.Choose("ttl", 2) == 1 {
		c.Set("b", "B")
		c.SetTTL("b", time.Minute)
	}
	c.Set("a", "A")
	c.Set("b", "B")
	reject := []bool{vrt.Bool("a"), vrt.Bool("b")}
	c.Validator = func(k string, t time.Time) bool {
		vrt.Assert(k == "a" || k == "b", "the Validator is asked about another key")
		return !reject[k[0]-'a']
	}
	n := 0
	for _, r := range reject {
		if r {
			n++
		}
	}
	verified := vrt.Choose("verify", 2) == 1
	if verified {
		vrt.Assert(c.Verify() == n && c.Count() == 2-n, "Verify does not remove the rejected entries")
	}
	for i, k := range []string{"a", "b"} {
		v, inv := c.Get(k)
		if reject[i] {
			vrt.Assert(v == nil && inv == !verified, "Get serves a rejected value")
		} else {
			vrt.Assert(v == []interface{}{"A", "B"}[i] && !inv, "Get does not return the accepted value")
		}
	}
	vrt.Assert(c.Count() == 2-n, "rejected entries remain")
	// nothing of the rejected entries is left
	vrt.Assert(c.Clean(100) == 2-n && c.Count() == 0, "Clean(100) does not empty the cache")
	c.Set("a", 1)
	vrt.Assert(c.Clean(100) == 1 && c.Count() == 0, "Clean(100) does not remove the only entry")
}

// mixed: any operations on a limited cache whose entries may also expire, have
// a TTL of their own or be rejected.
func mixed(after func(c *xcore.XCache, m *cmodel, max int, k string, v interface{})) (*xcore.XCache, *cmodel, int) {
	max := 2 + vrt.Choose("maxitems", 3)
	c := xcore.NewXCache("id", max, 0)
	m := &cmodel{}
	if vrt.Choose("expire", 2) == 1 {
		c.Expire = 10 * time.Second
		m.expire = c.Expire
	}
	ttl := -1
	for i := 0; i < max-1; i++ {
		c.Set(letter(i), i)
		m.lruSet(max, letter(i), i)
		vrt.Advance(time.Second)
	}
	for i := 0; i < vrt.Bound("operations", 3, 4); i++ {
		k := vrt.Str("k", 1, 1, 'A', 'C')
		switch vrt.Choose("op", 7) {
		case 0:
			c.Set(k, 100+i)
			m.lruSet(max, k, 100+i)
			after(c, m, max, k, 100+i)
		case 1:
			m.checkGet(c, k)
		case 2:
			c.Del(k)
			if j := m.find(k); j >= 0 {
				m.remove(j)
			}
		case 3:
			if ttl >= 0 {
				break
			}
			ttl = i
			c.SetTTL(k, 5*time.Second)
			if j := m.find(k); j >= 0 {
				m.e[j].ttl = 5 * time.Second
			}
		case 4:
			vrt.Advance(seconds("elapsed"))
		case 5:
			j := m.find(k)
			if j >= 0 && m.stale(j) {
				break
			}
			c.Validator = func(string, time.Time) bool { return false }
			v, inv := c.Get(k)
			c.Validator = nil
			vrt.Assert(v == nil && inv == (j >= 0), "Get serves a rejected value")
			if j >= 0 {
				m.remove(j)
			}
		case 6:
			n := c.Verify()
			var left []centry
			for j := range m.e {
				if !m.outlived(j) {
					left = append(left, m.e[j])
				}
			}
			vrt.Assert(n == len(m.e)-len(left), "Verify removes other entries than the expired ones")
			m.e = left
		}
		vrt.Assert(c.Count() == len(m.e), "the number of remaining entries is wrong")
	}
	return c, m, max
}

// C04_mixed: the limit holds, whatever else happens to the entries.
func C04_mixed() {
	check := func(c *xcore.XCache, m *cmodel, max int, k string, v interface{}) {
		vrt.Assert(c.Count() <= max, "more than Maxitems entries")
		m.checkGet(c, k)
	}
	c, m, max := mixed(check)
	for i := 0; i < 2; i++ {
		c.Set(letter(10+i), i)
		m.lruSet(max, letter(10+i), i)
		check(c, m, max, letter(10+i), i)
	}
}

// C05_mixed: what is evicted, whatever else happens to the entries.
func C05_mixed() {
	c, m, max := mixed(func(c *xcore.XCache, m *cmodel, max int, k string, v interface{}) {})
	c.Set("Z", 0)
	m.lruSet(max, "Z", 0)
	vrt.Assert(c.Count() == len(m.e), "the number of remaining entries is wrong")
	for _, e := range append([]centry(nil), m.e...) {
		m.checkGet(c, e.k)
	}
}

// C07_two: datasets do not share their content; answers follow the changes.
func C07_two() {
	ts := vrt.Choose("ts", 2) == 1
	d := []xcore.XDatasetDef{newDS(ts), newDS(vrt.Choose("ts2", 2) == 1)}
	m := []*assoc{{}, {}}
	for i := 0; i < vrt.Bound("operations", 3, 4); i++ {
		j := vrt.Choose("which", 2)
		k := plainKey("k", 1, 1)
		switch vrt.Choose("op", 3) {
		case 0:
			d[j].Set(k, i)
			m[j].set(k, i)
		case 1:
			d[j].Del(k)
			m[j].del(k)
		case 2:
			got, ok := d[j].Get(k)
			want, wok := m[j].get(k)
			vrt.Assert(ok == wok && got == want, "Get returns a wrong value")
		}
	}
	q := plainKey("q", 1, 1)
	for j := range d {
		got, ok := d[j].Get(q)
		want, wok := m[j].get(q)
		vrt.Assert(ok == wok && got == want, "two datasets share their content")
	}
}

// C07_kinds: values of any kind replace each other.
func C07_kinds() {
	d := newDS(vrt.Choose("ts", 2) == 1)
	v := someValue("v")
	d.Set("k", v)
	got, ok := d.Get("k")
	vrt.Assert(ok && identical(got, v), "Get returns another value")
	w := v
	switch vrt.Choose("then", 4) {
	case 0:
		d.Set("k", v)
	case 1:
		w = anyInt("w")
		d.Set("k", w)
	case 2:
		w = []string{"w"}
		d.Set("k", w)
	case 3:
		w = nil
		d.Set("k", nil)
	}
	got, ok = d.Get("k")
	vrt.Assert(ok && identical(got, w), "Get returns another value after it was replaced")
	d.Set("k", v)
	got, ok = d.Get("k")
	vrt.Assert(ok && identical(got, v), "Get returns another value after it was replaced")
	d.Del("k")
	got, ok = d.Get("k")
	vrt.Assert(got == nil && !ok, "a deleted value is still there")
}

// C08_again: a path is walked anew each time.
func C08_again() {
	ts := vrt.Choose("ts", 2) == 1
	made := 0
	leafOf := func() *node { made++; return leaf(made) }
	in := ds(!ts, []string{"b"}, []*node{leafOf()})
	rec0, rec1 := ds(!ts, []string{"b"}, []*node{leafOf()}), ds(!ts, []string{"b"}, []*node{leafOf()})
	col := dc(ts, rec0, rec1)
	root := ds(ts, []string{"a", "c"}, []*node{in, col})
	seg := plainKey("segment", 1, 1)
	ask := func() {
		checkPath(root, "a>b", []string{"a", "b"})
		checkPath(root, "c>0>b", []string{"c", "0", "b"})
		checkPath(root, "c>"+seg+">b", []string{"c", seg, "b"})
		checkPath(root, "a>"+seg, []string{"a", seg})
		checkPath(root, "c>1", []string{"c", "1"})
	}
	ask()
	d := root.obj.(xcore.XDatasetDef)
	switch vrt.Choose("change", 8) {
	case 0:
		in.kids[0] = leafOf()
		in.obj.(xcore.XDatasetDef).Set("b", in.kids[0].obj)
	case 1:
		in.keys, in.kids = nil, nil
		in.obj.(xcore.XDatasetDef).Del("b")
	case 2:
		root.kids[0] = ds(ts, []string{"b"}, []*node{leafOf()})
		d.Set("a", root.kids[0].obj)
	case 3:
		root.kids[0] = leafOf()
		d.Set("a", root.kids[0].obj)
	case 4:
		n := ds(ts, []string{"b"}, []*node{leafOf()})
		col.kids = append(col.kids, n)
		col.obj.(xcore.XDatasetCollectionDef).Push(n.obj.(xcore.XDatasetDef))
	case 5:
		col.kids = col.kids[1:]
		col.obj.(xcore.XDatasetCollectionDef).Shift()
	case 6:
		rec0.kids[0] = leafOf()
		rec0.obj.(xcore.XDatasetDef).Set("b", rec0.kids[0].obj)
	case 7:
		root.keys, root.kids = []string{"a"}, []*node{in}
		d.Del("c")
	}
	ask()
}

// C08_big: indexes of many digits.
func C08_big() {
	ts := vrt.Choose("ts", 2) == 1
	n := []int{1, 3, 130}[vrt.Choose("records", 3)]
	var recs []*node
	for i := 0; i < n; i++ {
		recs = append(recs, ds(ts, []string{"v"}, []*node{leaf(100 + i)}))
	}
	root := ds(ts, []string{"c"}, []*node{dc(ts, recs...)})
	lead := []string{"1", "10", "12", "25", "6553", "3276", "214748364", "429496729", "922337203685477580", "1844674407370955161", "99999999999999999999"}
	l := lead[vrt.Choose("lead", len(lead))]
	s := l + vrt.Str("digit", 1, 1, '0', '9')
	var want interface{}
	wok := false
	if len(s) < 5 {
		if i := index(s); i < n {
			want, wok = recs[i].kids[0].obj, true
		}
	}
	d := root.obj.(xcore.XDatasetDef)
	got, ok := d.Get("c>" + s + ">v")
	vrt.Assert(ok == wok && got == want, "an index of many digits selects a wrong record")
	x, ok := d.GetInt("c>" + s + ">v")
	vrt.Assert(ok == wok && (!ok || x == want), "an index of many digits selects a wrong record")
	_, ok = d.Get("c>" + s)
	vrt.Assert(ok == wok, "an index of many digits selects a wrong record")
	_, ok = d.GetDataset("c>" + s)
	vrt.Assert(ok == wok, "an index of many digits selects a wrong record")
}

// C09_again: the getters follow the value when it is replaced.
func C09_again() {
	d := newDS(vrt.Choose("ts", 2) == 1)
	k1, k2 := vrt.Choose("before", allKinds), vrt.Choose("after", allKinds)
	d.Set("k", anyValue("v", k1))
	lowest := 1
	if k1 < 11 && k2 < 11 && k1 != 1 && k1 < 5 && (k2 < 4 && k2 != 1) {
		lowest = 0
	}
	e := newDS(false)
	for g := lowest; g < 12; g++ {
		sameGetter(g, d, "k", d, "k", "a getter gives another value the second time")
	}
	w := anyValue("w", k2)
	d.Set("k", w)
	e.Set("x", w)
	for g := lowest; g < 12; g++ {
		sameGetter(g, d, "k", e, "x", "a getter gives the replaced value")
	}
	d.Del("k")
	for g := 0; g < 12; g++ {
		sameGetter(g, d, "k", e, "absent", "a getter gives a deleted value")
	}
}

// C09_other: values of kinds that no getter converts.
func C09_other() {
	d := newDS(vrt.Choose("ts", 2) == 1)
	kind := vrt.Choose("kind", otherKinds-1)
	if kind == 4 || kind == 8 || kind == 9 || kind > 14 {
		kind = 3 // named integers and texts and uintptr are left open
	}
	v := otherValue("v", kind)
	d.Set("k", v)
	b, ok := d.GetBool("k")
	vrt.Assert(kind == 11 || ok && b, "GetBool of a value of another kind is not true")
	i, ok := d.GetInt("k")
	vrt.Assert(!ok && i == 0, "GetInt of a value of another kind returns something")
	f, ok := d.GetFloat("k")
	vrt.Assert(!ok && f == 0, "GetFloat of a value of another kind returns something")
	t, ok := d.GetTime("k")
	vrt.Assert(!ok && t.IsZero(), "GetTime of a value of another kind returns something")
	sc, ok := d.GetStringCollection("k")
	vrt.Assert(ok == (kind == 11) && len(sc) == 0, "GetStringCollection of a value of another kind returns something")
	bc, ok := d.GetBoolCollection("k")
	vrt.Assert(!ok && bc == nil, "GetBoolCollection of a value of another kind returns something")
	ic, ok := d.GetIntCollection("k")
	vrt.Assert(ok == (kind == 12) && len(ic) == 0, "GetIntCollection of a value of another kind returns something")
	fc, ok := d.GetFloatCollection("k")
	vrt.Assert(!ok && fc == nil, "GetFloatCollection of a value of another kind returns something")
	tc, ok := d.GetTimeCollection("k")
	vrt.Assert(!ok && tc == nil, "GetTimeCollection of a value of another kind returns something")
	ds, ok := d.GetDataset("k")
	vrt.Assert(!ok && ds == nil, "GetDataset of a value of another kind returns something")
	dc, ok := d.GetCollection("k")
	vrt.Assert(!ok && dc == nil, "GetCollection of a value of another kind returns something")
}

// C09_strings: texts that look like numbers are no numbers.
func C09_strings() {
	d := newDS(vrt.Choose("ts", 2) == 1)
	s := vrt.Str("s", 0, vrt.Bound("bytes", 3, 4), 0, 255)
	if k := vrt.Choose("known", 8); k > 0 {
		s = []string{"", "0", "1", "false", "true", "1.5", "2020-01-02", "nil"}[k]
	}
	d.Set("k", s)
	got, ok := d.GetString("k")
	vrt.Assert(ok && got == s, "GetString changes a string")
	b, ok := d.GetBool("k")
	vrt.Assert(ok && b, "GetBool of a string is not true")
	i, ok := d.GetInt("k")
	vrt.Assert(!ok && i == 0, "GetInt of a string returns something")
	f, ok := d.GetFloat("k")
	vrt.Assert(!ok && f == 0, "GetFloat of a string returns something")
	t, ok := d.GetTime("k")
	vrt.Assert(!ok && t.IsZero(), "GetTime of a string returns something")
}

// C10_again: a second clone is of the content at that moment.
func C10_again() {
	x := tree(1, vrt.Choose("kind", 4))
	before := all(x, nil)
	y := cloneOf(x)
	mutate(descend(x))
	after := all(x, nil)
	z := cloneOf(x)
	vrt.Assert(sameList(before, all(y, nil)), "a change of the original is visible in the clone")
	vrt.Assert(sameList(after, all(z, nil)), "a second clone differs from the original")
	w := cloneOf(y)
	vrt.Assert(sameList(before, all(w, nil)), "a clone of a clone differs from it")
	if d, ok := z.(xcore.XDatasetDef); ok {
		d.Set("v", 0)
		d.Del("c")
	} else {
		z.(xcore.XDatasetCollectionDef).Push(newDS(false))
	}
	vrt.Assert(sameList(before, all(y, nil)) && sameList(before, all(w, nil)), "a change of a clone is visible in another clone")
	vrt.Assert(sameList(after, all(x, nil)), "a change of a clone is visible in the original")
}

// C11_between: Get and Count between the operations.
func C11_between() {
	n := vrt.Bound("operations", 5, 6)
	c := newDC(vrt.Choose("ts", 2) == 1)
	other := newDC(vrt.Choose("ts", 2) == 1)
	var m []xcore.XDatasetDef
	for i := 0; i < n; i++ {
		r := record(i)
		ops := 4
		if len(m) == 0 {
			ops = 2
		}
		switch vrt.Choose("op", ops) {
		case 0:
			c.Push(r)
			m = append(m[:len(m):len(m)], r)
		case 1:
			c.Unshift(r)
			m = append([]xcore.XDatasetDef{r}, m...)
		case 2:
			vrt.Assert(c.Pop() == m[len(m)-1], "Pop does not return the last record")
			m = m[:len(m)-1]
		case 3:
			vrt.Assert(c.Shift() == m[0], "Shift does not return the first record")
			m = m[1:]
		}
		sameRecords(c, m, "during a history")
		_, ok := c.Get(len(m))
		vrt.Assert(!ok, "there is a record too many")
		vrt.Assert(other.Count() == 0, "two collections share their records")
	}
}

// C11_same: a record may be in a collection several times.
func C11_same() {
	c := newDC(vrt.Choose("ts", 2) == 1)
	recs := []xcore.XDatasetDef{record(0), record(0), newDS(vrt.Choose("ts", 2) == 1)}
	var m []xcore.XDatasetDef
	for i := 0; i < vrt.Bound("operations", 4, 5); i++ {
		r := recs[vrt.Choose("record", 3)]
		ops := 4
		if len(m) == 0 {
			ops = 2
		}
		switch vrt.Choose("op", ops) {
		case 0:
			c.Push(r)
			m = append(m[:len(m):len(m)], r)
		case 1:
			c.Unshift(r)
			m = append([]xcore.XDatasetDef{r}, m...)
		case 2:
			vrt.Assert(c.Pop() == m[len(m)-1], "Pop does not return the last record")
			m = m[:len(m)-1]
		case 3:
			vrt.Assert(c.Shift() == m[0], "Shift does not return the first record")
			m = m[1:]
		}
	}
	sameRecords(c, m, "when a record is in it several times")
	vrt.Assert(c.Clone().Count() == len(m), "a clone has another number of records")
}

// C12_again: the lookups follow the changes.
func C12_again() {
	ts := vrt.Choose("ts", 2) == 1
	c := newDC(ts)
	var m []*assoc
	var recs []xcore.XDatasetDef
	add := func(v int) (xcore.XDatasetDef, *assoc) {
		d, a := newDS(vrt.Choose("record_ts", 2) == 1), &assoc{}
		k := vrt.Str("k", 1, 1, 'a', 'b')
		d.Set(k, v)
		a.set(k, v)
		return d, a
	}
	for i := 0; i < 2; i++ {
		d, a := add(i)
		c.Push(d)
		m, recs = append(m, a), append(recs, d)
	}
	q := vrt.Str("q", 1, 1, 'a', 'c')
	ask := func() {
		var want interface{}
		wok := false
		for i := len(m) - 1; i >= 0 && !wok; i-- {
			want, wok = m[i].get(q)
		}
		checkLookups(c, q, want, wok)
	}
	ask()
	for i := 0; i < vrt.Bound("changes", 1, 2); i++ {
		n := len(m)
		if n == 0 {
			break
		}
		switch vrt.Choose("change", 8) {
		case 0:
			d, a := add(5)
			c.Push(d)
			m, recs = append(m[:n:n], a), append(recs[:n:n], d)
		case 1:
			d, a := add(5)
			c.Unshift(d)
			m, recs = append([]*assoc{a}, m...), append([]xcore.XDatasetDef{d}, recs...)
		case 2:
			c.Pop()
			m, recs = m[:n-1], recs[:n-1]
		case 3:
			c.Shift()
			m, recs = m[1:], recs[1:]
		case 4:
			recs[n-1].Set(q, true)
			m[n-1].set(q, true)
		case 5:
			recs[n-1].Del(q)
			m[n-1].del(q)
		case 6:
			recs[0].Set(q, nil)
			m[0].set(q, nil)
		case 7:
			recs[0].Del(q)
			m[0].del(q)
		}
		ask()
	}
}

// C13_between: the getters between the operations.
func C13_between() {
	p, t := newDS(false), newDS(true)
	kinds := []int{0, 1, 9, 13, 15, 17, 22, 24}
	q := plainKey("q", 1, 1)
	for i := 0; i < vrt.Bound("operations", 2, 3); i++ {
		k := plainKey("k", 1, 1)
		if vrt.Choose("op", 3) > 0 {
			v := anyValue("v", kinds[vrt.Choose("kind", len(kinds))])
			p.Set(k, v)
			t.Set(k, v)
		} else {
			p.Del(k)
			t.Del(k)
		}
		a, aok := p.Get(q)
		b, bok := t.Get(q)
		vrt.Assert(aok == bok && sameVal(a, b), "Get differs between the plain and the thread safe dataset")
		for g := 1; g < 12; g++ {
			sameGetter(g, p, q, t, q, "a getter differs between the plain and the thread safe dataset")
		}
	}
}

// C13_wrap: a thread safe dataset around one with content.
func C13_wrap() {
	p := newDS(false)
	k, v := plainKey("k", 0, 1), scalar("v")
	p.Set(k, v)
	d := newDS(false)
	d.Set("i", 7)
	p.Set("sub", d)
	var w xcore.XDatasetDef = xcore.NewXDatasetTS(p)
	if vrt.Choose("twice", 2) == 1 {
		w = xcore.NewXDatasetTS(w)
	}
	q := plainKey("q", 0, 1)
	a, aok := p.Get(q)
	b, bok := w.Get(q)
	vrt.Assert(aok == bok && a == b, "a wrapped dataset gives another value")
	for g := 1; g < 12; g++ {
		sameGetter(g, p, q, w, q, "a getter differs between the dataset and the one that wraps it")
	}
	i, ok := w.GetInt("sub>i")
	vrt.Assert(ok && i == 7, "a path in a wrapped dataset gives another value")
	x := anyInt("x")
	w.Set(q, x)
	i, ok = w.GetInt(q)
	vrt.Assert(ok && i == x, "a wrapped dataset gives another value")
	w.Del(q)
	_, ok = w.Get(q)
	vrt.Assert(!ok, "a wrapped dataset keeps a deleted value")
}

// C15_twice: two objects made of one argument share nothing but the leaves.
func C15_twice() {
	v := anyInt("v")
	m := map[string]interface{}{
		"a": v,
		"m": map[string]interface{}{"b": v},
		"l": []map[string]interface{}{{"c": v}, {"d": 1}},
		"i": []interface{}{map[string]interface{}{"e": v}},
	}
	x, y := xcore.NewXDataset(m), xcore.NewXDataset(m)
	paths := []string{"a", "m>b", "l>0>c", "i>0>e"}
	w := anyInt("w")
	switch vrt.Choose("change", 6) {
	case 0:
		x.Set("a", w)
	case 1:
		d, _ := x.GetDataset("m")
		d.Set("b", w)
	case 2:
		c, _ := x.GetCollection("l")
		c.Shift()
	case 3:
		d, _ := x.GetDataset("l>0")
		d.Del("c")
	case 4:
		d, _ := x.GetDataset("i>0")
		d.Set("e", w)
	case 5:
		x.Del("l")
	}
	z := xcore.NewXDataset(m)
	for _, d := range []xcore.XDatasetDef{y, z} {
		for _, p := range paths {
			got, ok := d.GetInt(p)
			vrt.Assert(ok && got == v, "a change of one dataset changes another made of the same map")
		}
		c, ok := d.GetCollection("l")
		vrt.Assert(ok && c.Count() == 2, "a change of one dataset changes another made of the same map")
	}
	l := []map[string]interface{}{m, m}
	c1, c2 := xcore.NewXDatasetCollection(l), xcore.NewXDatasetCollection(l)
	r, _ := c1.Get(0)
	r.Set("a", w)
	c1.Pop()
	got, ok := c2.GetDataInt("a")
	vrt.Assert(c2.Count() == 2 && ok && got == v, "a change of one collection changes another made of the same list")
	r, _ = c2.Get(0)
	got, ok = r.GetInt("a")
	vrt.Assert(ok && got == v, "a change of one collection changes another made of the same list")
}

// C15_empty: empty and nil maps and lists.
func C15_empty() {
	one := func() map[string]interface{} {
		switch vrt.Choose("map", 3) {
		case 0:
			return nil
		case 1:
			return map[string]interface{}{}
		}
		return map[string]interface{}{"v": anyInt("v")}
	}
	n := vrt.Choose("maps", vrt.Bound("maps", 4, 5))
	var l []map[string]interface{}
	var li []interface{}
	for i := 0; i < n; i++ {
		m := one()
		l = append(l, m)
		li = append(li, m)
	}
	m := map[string]interface{}{"l": l, "i": li, "m": one()}
	if vrt.Choose("nil", 2) == 1 {
		m["x"] = nil
		m["e"] = []map[string]interface{}{}
		m["f"] = []interface{}{}
	}
	d := xcore.NewXDataset(m)
	check := func(c xcore.XDatasetCollectionDef) {
		vrt.Assert(c.Count() == n, "there is not one record per map")
		for i := range l {
			r, ok := c.Get(i)
			vrt.Assert(ok && r != nil, "there is not one record per map")
			v, ok := r.Get("v")
			w, has := l[i]["v"]
			vrt.Assert(ok == has && v == w, "a record has another value")
		}
	}
	for _, k := range []string{"l", "i"} {
		c, ok := d.GetCollection(k)
		vrt.Assert(ok && c != nil, "a list has not become a collection")
		check(c)
	}
	check(xcore.NewXDatasetCollection(l))
	s, ok := d.GetDataset("m")
	vrt.Assert(ok && s != nil, "a map has not become a dataset")
	s.Set("w", 1)
	_, ok = m["m"].(map[string]interface{})["w"]
	vrt.Assert(!ok, "a change of the dataset changes the argument")
	if _, ok := m["x"]; ok {
		v, ok := d.Get("x")
		vrt.Assert(ok && v == nil, "a nil is lost")
		for _, k := range []string{"e", "f"} {
			c, ok := d.GetCollection(k)
			vrt.Assert(ok && c != nil && c.Count() == 0, "an empty list has not become an empty collection")
		}
	}
	e := xcore.NewXDataset(nil)
	e.Set("k", 1)
	i, ok := e.GetInt("k")
	vrt.Assert(ok && i == 1, "the dataset of a nil map cannot be used")
}

// C15_other: leaves of kinds that xcore does not know.
func C15_other() {
	k := vrt.Choose("kind", otherKinds)
	if k == 5 || k == 13 {
		k = 4 // a list of scalars is left open; a map becomes a dataset
	}
	v := otherValue("v", k)
	m := map[string]interface{}{"k": v, "m": map[string]interface{}{"k": v}}
	d := xcore.NewXDataset(m)
	for _, p := range []string{"k", "m>k"} {
		got, ok := d.Get(p)
		vrt.Assert(ok && identical(got, v), "a value of the map was changed")
	}
	got, ok := xcore.NewXDatasetCollection([]map[string]interface{}{m}).GetData("m>k")
	vrt.Assert(ok && identical(got, v), "a value of the map was changed")
	vrt.Assert(len(m) == 2 && identical(m["k"], v), "the argument was modified")
}

// C16_again: the texts follow the changes.
func C16_again() {
	vrt.MapOrder(2)
	d := newDS(vrt.Choose("ts", 2) == 1)
	in := newDS(vrt.Choose("ts", 2) == 1)
	c := newDC(vrt.Choose("ts", 2) == 1)
	v, w := vrt.Str("v", 0, 1, 'a', 'z'), vrt.Str("w", 0, 1, 'a', 'z')
	in.Set("i", v)
	c.Push(in)
	d.Set("a", v)
	d.Set("c", c)
	d.Set("d", in)
	l := xcore.NewXLanguage("n", langTag(0))
	l.Set("a", v)
	s1, g1, c1, l1 := d.String(), d.GoString(), c.String(), l.String()
	vrt.Assert(s1 == d.String() && g1 == d.GoString() && c1 == c.String() && l1 == l.String(), "String gives another text the second time")
	sub := v
	n := 1
	a := v
	switch vrt.Choose("change", 5) {
	case 0:
		d.Set("a", w)
		l.Set("a", w)
		a = w
	case 1:
		in.Set("i", w)
		sub = w
	case 2:
		c.Push(in)
		n = 2
	case 3:
		c.Pop()
		n = 0
	case 4:
		d.Del("a")
		l.Del("a")
		a = "-"
	}
	rec := "k"
	if e, ok := c.Get(0); ok {
		rec = e.String()
	}
	ct := "["
	for i := 0; i < n; i++ {
		ct += strconv.Itoa(i) + ":" + rec + " "
	}
	vrt.Assert(strings.Contains(c.String(), ct+"]"), "the text of a collection is that of its former content")
	vrt.Assert(strings.Contains(in.String(), "i:"+sub+"}"), "the text of a dataset is that of its former content")
	want, lw := "", ""
	if a != "-" {
		want, lw = "a:"+a+" ", "a:"+a
	}
	want += "c:" + c.String() + " d:" + in.String()
	s, g := d.String(), d.GoString()
	vrt.Assert(strings.Contains(s, want), "the text of a dataset is that of its former content")
	vrt.Assert(strings.Contains(g, "c:"+c.GoString()) && strings.Contains(g, "d:"+in.GoString()), "the text of a dataset is that of its former content")
	if a == "-" {
		vrt.Assert(!strings.Contains(s, "a:") && !strings.Contains(l.String(), "a:"), "a deleted entry is still in the text")
	} else {
		vrt.Assert(strings.Contains(g, "a:\""+a+"\"") && strings.Contains(l.String(), lw) && strings.Contains(l.GoString(), "a:\""+a+"\""), "the text of a table is that of its former content")
	}
}

// C17_again: the same text loaded again, and tables of the same text.
func C17_again() {
	k, v := vrt.Str("k", 1, 1, 'a', 'c'), vrt.Str("v", 0, 1, 'a', 'z')
	text := k + "=" + v + "\nb=2"
	l, err := xcore.NewXLanguageFromString(text)
	vrt.Assert(err == nil && l != nil, "loading fails")
	q, w := vrt.Str("q", 1, 1, 'a', 'c'), vrt.Str("w", 0, 1, 'a', 'z')
	m := &assoc{}
	parseFlat(text, m)
	if vrt.Choose("change", 2) == 0 {
		l.Set(q, w)
		m.set(q, w)
	} else {
		l.Del(q)
		m.del(q)
	}
	r, err := xcore.NewXLanguageFromString(text)
	vrt.Assert(err == nil && r != nil, "loading fails")
	f := &assoc{}
	parseFlat(text, f)
	sameTable(r, f, "a table of the same text")
	sameTable(l, m, "the first table")
	vrt.Assert(l.LoadString(text) == nil, "loading fails")
	parseFlat(text, m)
	sameTable(l, m, "the text loaded again")
	other := "c=x" + v
	vrt.Assert(l.LoadString(other) == nil, "loading fails")
	parseFlat(other, m)
	sameTable(l, m, "another text loaded")
	sameTable(r, f, "a table of the same text")
}

// C18_two: two tables of the same name and language share nothing.
func C18_two() {
	doc := `<language id="n" lang="en"><entry id="a" status="s">x</entry></language>`
	make1 := func(how int) (*xcore.XLanguage, *assoc) {
		m := &assoc{}
		switch how {
		case 0:
			return xcore.NewXLanguage("n", langTag(0)), m
		case 1:
			l, _ := xcore.NewXLanguageFromString("a=x")
			m.set("a", "x")
			return l, m
		}
		l, _ := xcore.NewXLanguageFromXMLString(doc)
		m.set("a", "x")
		return l, m
	}
	how := vrt.Choose("made", 3)
	a, ma := make1(how)
	b, mb := make1(how)
	vrt.Assert(a != nil && b != nil && a != b, "a table cannot be made")
	name, st := b.GetName(), b.GetStatus("a")
	for i := 0; i < vrt.Bound("operations", 2, 3); i++ {
		k, v := vrt.Str("k", 1, 1, 'a', 'b'), vrt.Str("v", 0, 1, 'a', 'z')
		switch vrt.Choose("op", 5) {
		case 0:
			a.Set(k, v)
			ma.set(k, v)
		case 1:
			a.Del(k)
			ma.del(k)
		case 2:
			a.SetStatus(k, v)
		case 3:
			a.SetName(v)
			a.SetLanguage(langTag(1))
		case 4:
			b.Set(k, v)
			mb.set(k, v)
		}
		sameTable(a, ma, "one of two tables")
		sameTable(b, mb, "one of two tables")
	}
	vrt.Assert(b.GetName() == name && b.GetStatus("a") == st, "two tables share name or statuses")
	if how == 0 {
		vrt.Assert(b.GetLanguage() == langTag(0), "two tables share the language")
	}
	c, mc := make1(how)
	sameTable(c, mc, "a third table")
}

// C18_regions: languages with script and region.
func C18_regions() {
	tags := regions()
	a, b := vrt.Choose("a", len(tags)), vrt.Choose("b", len(tags))
	l := xcore.NewXLanguage("n", tags[a])
	vrt.Assert(l.GetLanguage() == tags[a], "GetLanguage gives a wrong language")
	l.SetLanguage(tags[b])
	vrt.Assert(l.GetLanguage() == tags[b], "GetLanguage gives a wrong language")
}

// C19_regions: languages with script and region are read back.
func C19_regions() {
	tags := regions()
	a := vrt.Choose("a", len(tags))
	l := xcore.NewXLanguage("n", tags[a])
	v := vrt.Str("v", 0, 1, 'a', 'z')
	l.Set("k", v)
	r := reload(l)
	vrt.Assert(r.GetLanguage() == tags[a], "the language is not read back")
	vrt.Assert(r.Get("k") == v && r.GetName() == "n", "the table is not read back")
}

// C19_again: GetXML and loading follow the changes.
func C19_again() {
	vrt.MapOrder(2)
	l := xcore.NewXLanguage("n", langTag(0))
	m := &assoc{}
	k, v := vrt.Str("k", 1, 1, 'a', 'b'), vrt.Str("v", 0, 1, 'a', 'z')
	l.Set(k, v)
	m.set(k, v)
	l.SetStatus(k, "s")
	r := reload(l)
	sameTable(r, m, "read back")
	q, w := vrt.Str("q", 1, 1, 'a', 'b'), vrt.Str("w", 0, 1, 'a', 'z')
	st, name, tag := "s", "n", 0
	switch vrt.Choose("change", 5) {
	case 0:
		l.Set(q, w)
		m.set(q, w)
	case 1:
		l.Del(q)
		m.del(q)
		if q == k {
			st = ""
		}
	case 2:
		l.SetStatus(k, w)
		st = w
	case 3:
		l.SetName(w)
		name = w
	case 4:
		l.SetLanguage(langTag(1))
		tag = 1
	}
	r2 := reload(l)
	vrt.Observe(r2.GetEntries())
	sameTable(r2, m, "read back after a change")
	vrt.Assert(r2.GetStatus(k) == st && r2.GetName() == name && r2.GetLanguage() == langTag(tag), "status, name or language is not read back after a change")
	one := &assoc{}
	one.set(k, v)
	sameTable(r, one, "the first table read back")
	// the same document loaded again after a change
	text := l.GetXML()
	x, err := xcore.NewXLanguageFromXMLString(text)
	vrt.Assert(err == nil && x != nil, "the text of GetXML cannot be loaded")
	x.Set(q, "changed")
	x.SetName("changed")
	y, err := xcore.NewXLanguageFromXMLString(text)
	vrt.Assert(err == nil && y != nil, "the text of GetXML cannot be loaded")
	sameTable(y, m, "read back twice")
	vrt.Assert(y.GetName() == name, "the name is not read back twice")
}

// C21_again: another text loaded into a template.
func C21_again() {
	n := vrt.Bound("bytes", 2, 3)
	a, b := vrt.Str("first", 0, n, 0, 255), vrt.Str("second", 0, n, 0, 255)
	kinds := []string{"", "{{f}}", "%--c--%", "&&r&&"}
	a = kinds[vrt.Choose("first_with", len(kinds))] + a
	b = b + kinds[vrt.Choose("second_with", len(kinds))]
	t := xcore.NewXTemplate()
	for _, s := range []string{a, b, a} {
		out, balanced := plain(s)
		vrt.Assert((t.LoadString(s) == nil) == balanced, "marks are accepted or refused wrongly")
		r := t.Execute(&xcore.XDataset{})
		vrt.Observe(r)
		vrt.Assert(r == out, "a template keeps its former text")
		u, err := xcore.NewXTemplateFromString(s)
		vrt.Assert(err == nil && u.Execute(nil) == out, "the text outside the elements is not output unchanged")
	}
}

// C22_again: a failed load does not affect the next one.
func C22_again() {
	texts := []string{"[[a]]x", "[[]]", "[[a]]x[[]]", "x", "[[a]][[b]][[]]", "[[a]]" + vrt.Str("t", 0, 1, 0, 255) + "[[]]", "[[a]][[]][[]]"}
	bad := []bool{true, true, false, false, true, false, true}
	t := xcore.NewXTemplate()
	for i := 0; i < vrt.Bound("loads", 3, 4); i++ {
		j := vrt.Choose("text", len(texts))
		vrt.Assert((t.LoadString(texts[j]) != nil) == bad[j], "marks are accepted or refused wrongly after another load")
		u, err := xcore.NewXTemplateFromString(texts[j])
		vrt.Assert((err != nil) == bad[j] && (u == nil) == bad[j], "marks are accepted or refused wrongly after another load")
	}
}

// follows: executing after the data of an object changed from a to b.
func follows(l []telem, a, b *rec, lang *assoc, what string) {
	ts := vrt.Choose("ts", 2) == 1
	t := compiled(l)
	d := a.data(ts)
	if lang != nil {
		d.Set("#", table(lang))
	}
	bd := body(l, nil)
	vrt.Assert(t.Execute(d) == rendering(bd, []*rec{a}, lang), what)
	for _, p := range a.e {
		if _, ok := b.get(p.k); !ok {
			d.Del(p.k)
		}
	}
	for _, p := range b.e {
		d.Set(p.k, realValue(p.v, ts))
	}
	out := t.Execute(d)
	vrt.Observe(out)
	vrt.Assert(out == rendering(bd, []*rec{b}, lang), what+" after a change of the data")
	vrt.Assert(t.Execute(a.data(!ts)) == rendering(bd, []*rec{a}, nil), what+" with other data")
}

// C23_again: fields follow the data.
func C23_again() {
	v := func() *rec {
		r := row("g", "G")
		switch vrt.Choose("value", 4) {
		case 0:
			r.set("f", vrt.Str("f", 0, 1, 0, 255))
		case 1:
			r.set("f", vrt.Int("f", 0, 9))
		case 2:
			r.set("f", nil)
		}
		if vrt.Choose("sub", 2) == 1 {
			r.set("s", row("f", vrt.Str("sf", 0, 1, 0, 255)))
		}
		return r
	}
	l := []telem{field("f"), tx("|"), field("s>f"), tx("|"), field("g"), decl("s", field("f")), ref("s", "s")}
	follows(l, v(), v(), nil, "a field is not replaced by its value")
}

// C23_table: language entries follow the table.
func C23_table() {
	ts := vrt.Choose("ts", 2) == 1
	l := []telem{tx("x"), entry("e"), tx("y"), decl("s", entry("e")), ref("s"), entry("f")}
	t := compiled(l)
	b := body(l, nil)
	lang := &assoc{}
	r := row("f", "F")
	if vrt.Choose("before", 2) == 1 {
		lang.set("e", vrt.Str("e", 0, 1, 0, 255))
	}
	lt := table(lang)
	d := withTable(r, lt, ts)
	vrt.Assert(t.Execute(d) == rendering(b, []*rec{r}, lang), "a language entry is not replaced by its text")
	w := vrt.Str("w", 0, 1, 0, 255)
	switch vrt.Choose("change", 4) {
	case 0:
		lt.Set("e", w)
		lang.set("e", w)
	case 1:
		lt.Del("e")
		lang.del("e")
	case 2:
		lang = &assoc{}
		lang.set("e", w)
		lang.set("f", "2")
		d.Set("#", table(lang))
	case 3:
		d.Del("#")
		lang = nil
	}
	out := t.Execute(d)
	vrt.Observe(out)
	vrt.Assert(out == rendering(b, []*rec{r}, lang), "a language entry is not replaced by its text after a change of the table")
}

// C23_records: paths through collections.
func C23_records() {
	ts := vrt.Choose("ts", 2) == 1
	n := vrt.Choose("records", 4)
	d, c := newDS(ts), newDC(ts)
	v := vrt.Str("v", 0, 1, 0, 255)
	for i := 0; i < n; i++ {
		r := newDS(ts)
		r.Set("f", strconv.Itoa(i)+v)
		c.Push(r)
	}
	d.Set("c", c)
	i := vrt.Str("i", 1, 1, '0', '9')
	t := compiled([]telem{tx("<"), field("c>" + i + ">f"), tx(">"), decl("s", tx("s"), field("f"), field("c>0>f")), ref("s", "c>"+i), cond("c>"+i+">f", "s"), decl("s.none", tx("n"))})
	want, first := "", ""
	if n > 0 {
		first = "0" + v
	}
	if int(i[0]-'0') < n {
		want = i + v
		want = "<" + want + ">s" + want + first + "s" + first
	} else {
		want = "<>s" + first + "n"
	}
	out := t.Execute(d)
	vrt.Observe(out)
	vrt.Assert(out == want, "a path through a collection gives a wrong value")
}

// C24_again: references follow the data.
func C24_again() {
	v := func() *rec {
		r := row("id", "1", "v", vrt.Str("v", 0, 1, 'a', 'b'))
		if x, ok := subData("field"); ok {
			r.set("f", x)
		}
		return r
	}
	l := []telem{decl("s", shown("s")...), decl("p", tx("P")), decl("p.a", tx("PA")), decl("p.", tx("none")), ref("s"), ref("s", "f"), ref("", "v", "p."), tx(";")}
	follows(append(l, shown("after")...), v(), v(), nil, "a reference outputs the wrong text")
}

// C25_follow: loops follow the collection.
func C25_follow() {
	ts := vrt.Choose("ts", 2) == 1
	l := []telem{decl("c", append([]telem{field(".counter")}, shown("b")...)...), decl("c.none", tx("none")), decl("c.last", append([]telem{field(".counter")}, shown("last")...)...), tx("<"), loop("c"), tx(">")}
	l = append(l, shown("after")...)
	t := compiled(l)
	b := body(l, nil)
	var list []*rec
	var recs []xcore.XDatasetDef
	d, c := newDS(ts), newDC(ts)
	add := func(front bool) {
		x := row("id", strconv.Itoa(len(list)), "v", vrt.Str("v", 0, 1, 'a', 'z'))
		y := x.data(ts)
		if front {
			list, recs = append([]*rec{x}, list...), append([]xcore.XDatasetDef{y}, recs...)
			c.Unshift(y)
		} else {
			list, recs = append(list[:len(list):len(list)], x), append(recs[:len(recs):len(recs)], y)
			c.Push(y)
		}
	}
	for i := vrt.Choose("records", 4); i > 0; i-- {
		add(false)
	}
	d.Set("id", "r")
	d.Set("c", c)
	vrt.Assert(t.Execute(d) == rendering(b, []*rec{row("id", "r", "c", list)}, nil), "a loop outputs the wrong text")
	for i := 0; i < vrt.Bound("changes", 1, 2); i++ {
		n := len(list)
		switch k := vrt.Choose("change", 6); {
		case k == 0:
			add(false)
		case k == 1:
			add(true)
		case n == 0:
		case k == 2:
			c.Pop()
			list, recs = list[:n-1], recs[:n-1]
		case k == 3:
			c.Shift()
			list, recs = list[1:], recs[1:]
		case k == 4:
			w := vrt.Str("w", 0, 1, 'a', 'z')
			j := vrt.Int("at", 0, n-1)
			recs[j].Set("v", w)
			list[j].set("v", w)
		default:
			d.Del("c")
			c = newDC(ts)
			d.Set("c", c)
			list, recs = nil, nil
			add(false)
		}
		out := t.Execute(d)
		vrt.Observe(out)
		vrt.Assert(out == rendering(b, []*rec{row("id", "r", "c", list)}, nil), "a loop outputs the wrong text after a change of the collection")
	}
}

// C26_again: conditions follow the data.
func C26_again() {
	v := func() *rec {
		r := row("id", "1", "v", "w")
		if x, ok := subData("field"); ok {
			if _, isList := x.([]*rec); !isList {
				r.set("f", x)
			}
		}
		return r
	}
	l := []telem{decl("f", shown("f")...), decl("f.none", shown("none")...), decl("f.a", tx("A")), decl("f.1", tx("one")), decl("f.true", tx("T")), tx("<"), cond("f"), tx(">")}
	follows(append(l, shown("after")...), v(), v(), nil, "a condition outputs the wrong text")
}

// C27_again: sub templates added after an execution or a lookup.
func C27_again() {
	q := vrt.Str("q", 1, 1, 'a', 'c')
	kind := vrt.Choose("use", 3)
	l := []telem{decl("s", tx("s<"), use(kind, q), tx(">"), decl("b", tx("sb"))), tx("r<"), use(kind, q), tx(">"), ref("s")}
	if vrt.Choose("existing", 2) == 1 {
		l = append(l, decl("a", tx("ra")))
	}
	b := body(l, nil)
	t := compiled(l)
	d := usesData().data(false)
	ask := func() {
		out := t.Execute(d)
		vrt.Observe(out)
		vrt.Assert(out == rendering(b, []*rec{usesData()}, nil), "an added template is not available in the right places")
		sameScopes(t, b, q, d)
	}
	ask()
	for i := 0; i < 2; i++ {
		name := vrt.Str("name", 1, 1, 'a', 'c')
		x := []telem{tx("x" + strconv.Itoa(i))}
		xb := body(x, nil)
		at, ab := t, b
		if vrt.Choose("at", 2) == 1 {
			at, ab = t.GetTemplate("s"), b.find("s")
		}
		at.AddTemplate(name, compiled(x))
		xb.up = ab
		ab.add(name, xb)
		ask()
	}
}

// C27_twice: templates compiled from one text share nothing.
func C27_twice() {
	v := vrt.Str("v", 0, 1, 'a', 'z')
	l := []telem{decl("s", tx("s"+v), ref("a"), decl("b", tx("B"))), tx("<"), ref("a"), tx(">"), ref("s")}
	t, u := compiled(l), compiled(l)
	b := body(l, nil)
	want := rendering(b, nil, nil)
	at := t
	if vrt.Choose("at", 2) == 1 {
		at = t.GetTemplate("s")
	}
	at.AddTemplate([]string{"a", "s", "b"}[vrt.Choose("name", 3)], compiled([]telem{tx("NEW")}))
	w := compiled(l)
	for _, x := range []*xcore.XTemplate{u, w} {
		vrt.Assert(x.Execute(nil) == want, "a template added to one is visible in another of the same text")
		vrt.Assert(x.GetTemplate("a") == nil && x.GetTemplate("s").GetTemplate("a") == nil, "a template added to one is visible in another of the same text")
	}
}

// C28_again: a second clone is of the template at that moment.
func C28_again() {
	l := []telem{decl("s", tx("s<"), ref("x"), tx(">"), decl("u", tx("u"), ref("x")), ref("u")), tx("r<"), ref("x"), tx(">"), ref("s")}
	if vrt.Choose("existing", 2) == 1 {
		l = append(l, decl("x", tx("X")))
	}
	t, b, ob := compiled(l), body(l, nil), body(l, nil)
	c := t.Clone()
	before := rendering(ob, nil, nil)
	vrt.Assert(c.Execute(nil) == before, "a clone renders something else")
	at, ab := t, b
	for i := vrt.Choose("level", 3); i > 0; i-- {
		n := "s"
		if at != t {
			n = "u"
		}
		at, ab = at.GetTemplate(n), ab.find(n)
	}
	v := vrt.Str("v", 0, 1, 'a', 'z')
	if vrt.Choose("change", 2) == 0 {
		n := []telem{tx("N" + v)}
		nb := body(n, nil)
		nb.up = ab
		at.AddTemplate("x", compiled(n))
		ab.add("x", nb)
	} else {
		n := []telem{tx("L" + v)}
		vrt.Assert(at.LoadString(code(n)) == nil, "loading fails")
		ab.elems = n
	}
	after := rendering(b, nil, nil)
	vrt.Assert(t.Execute(nil) == after, "the original renders the wrong text after a change")
	e := t.Clone()
	vrt.Observe(after)
	vrt.Assert(e.Execute(nil) == after, "a second clone renders something else")
	vrt.Assert(c.Execute(nil) == before && c.Clone().Execute(nil) == before, "a change of the original changes a clone")
}

// C29_again: executions follow the data and the table, in any order.
func C29_again() {
	l := everything("v")
	follows(l, everyData("a", 1), everyData("b", 1), theTable(), "the output is wrong")
}

// C30_again: a file that is written again is read again.
func C30_again() {
	v, w := vrt.Str("v", 0, 1, 'a', 'z'), vrt.Str("w", 0, 1, 'a', 'z')
	switch vrt.Choose("what", 3) {
	case 0:
		p := vrt.File("a.template", "A"+v+"{{f}}")
		t, err := xcore.NewXTemplateFromFile(p)
		vrt.Assert(err == nil && t.Execute(nil) == "A"+v, "the template of the file and of its content differ")
		vrt.File("a.template", "B"+w)
		u, err := xcore.NewXTemplateFromFile(p)
		vrt.Assert(err == nil && u.Execute(nil) == "B"+w, "the former content of a file is used")
		vrt.Assert(t.Execute(nil) == "A"+v, "loading a file changes another template")
		vrt.Assert(t.LoadFile(p) == nil && t.Execute(nil) == "B"+w, "the former content of a file is used")
		vrt.NoFile("a.template")
	case 1:
		p := vrt.File("a.language", "k="+v+"\na=1")
		l, err := xcore.NewXLanguageFromFile(p)
		vrt.Assert(err == nil && l.Get("k") == v, "the table of the file and of its content differ")
		vrt.File("a.language", "k="+w)
		r, err := xcore.NewXLanguageFromFile(p)
		vrt.Assert(err == nil && r.Get("k") == w && r.Get("a") == "", "the former content of a file is used")
		vrt.Assert(l.Get("k") == v, "loading a file changes another table")
		vrt.Assert(l.LoadFile(p) == nil && l.Get("k") == w && l.Get("a") == "1", "the former content of a file is used")
	case 2:
		p := vrt.File("a.xml", `<language id="n" lang="en"><entry id="k">`+v+`</entry></language>`)
		l, err := xcore.NewXLanguageFromXMLFile(p)
		vrt.Assert(err == nil && l.Get("k") == v && l.GetName() == "n", "the table of the file and of its content differ")
		vrt.File("a.xml", `<language id="m" lang="es"><entry id="k">`+w+`</entry></language>`)
		r, err := xcore.NewXLanguageFromXMLFile(p)
		vrt.Assert(err == nil && r.Get("k") == w && r.GetName() == "m" && r.GetLanguage() == langTag(1), "the former content of a file is used")
		vrt.Assert(l.Get("k") == v && l.GetName() == "n", "loading a file changes another table")
		vrt.Assert(l.LoadXMLFile(p) == nil && l.Get("k") == w && l.GetName() == "m", "the former content of a file is used")
	}
}

// C30_two: files of the same content, or of the same name in other places.
func C30_two() {
	v, w := vrt.Str("v", 1, 1, 'a', 'z'), vrt.Str("w", 1, 1, 'a', 'z')
	p, q := vrt.File("x.template", "A"+v), vrt.File("y.template", "A"+w)
	t, err := xcore.NewXTemplateFromFile(p)
	u, err2 := xcore.NewXTemplateFromFile(q)
	vrt.Assert(err == nil && err2 == nil && t.Execute(nil) == "A"+v && u.Execute(nil) == "A"+w, "the template of another file is given")
	t.AddTemplate("s", u)
	x, err := xcore.NewXTemplateFromFile(p)
	vrt.Assert(err == nil && x.GetTemplate("s") == nil, "templates of one file share sub templates")
	p, q = vrt.File("x.language", "a="+v), vrt.File("y.language", "a="+w)
	l, err := xcore.NewXLanguageFromFile(p)
	m, err2 := xcore.NewXLanguageFromFile(q)
	vrt.Assert(err == nil && err2 == nil && l.Get("a") == v && m.Get("a") == w, "the table of another file is given")
	l.Set("a", "changed")
	r, err := xcore.NewXLanguageFromFile(p)
	vrt.Assert(err == nil && r.Get("a") == v, "tables of one file share entries")
}

// C41_again: dumps and texts follow the changes.
func C41_again() {
	vrt.MapOrder(2)
	ts := vrt.Choose("ts", 2) == 1
	d := row("f", vrt.Str("f", 0, 1, 'a', 'z'), "d", row("x", 1)).data(ts)
	t := compiled([]telem{tx("<"), telem{kind: '!', s: "dump"}, tx(">")})
	vrt.Assert(t.Execute(d) == "<"+d.GoString()+">", "the debug element does not output the root data")
	switch vrt.Choose("change", 3) {
	case 0:
		d.Set("f", vrt.Str("g", 0, 1, 'a', 'z'))
	case 1:
		s, _ := d.GetDataset("d")
		s.Set("x", 2)
	case 2:
		d.Del("d")
	}
	out := t.Execute(d)
	vrt.Observe(out)
	vrt.Assert(out == "<"+d.GoString()+">", "the debug element outputs the former data")
	before := t.String()
	v := vrt.Str("v", 1, 1, 'a', 'z')
	vrt.Assert(t.LoadString("new"+v+"{{f}}") == nil, "loading fails")
	u := compiled([]telem{tx("new" + v), field("f")})
	vrt.Assert(t.String() == u.String() && t.GoString() == u.GoString() && t.String() != before, "the text of a template is that of its former content")
}

// C30_odd: files with unusual content.
func C30_odd() {
	c := vrt.Str("c", 0, 1, 0, 255)
	s := []string{"", c, " \n", "\ufeff" + c, "\r\n" + c, "\x00" + c, "=", "k=" + c, "<language/>", "<language></language>" + c, "<language id=\"n\"/>",
		"<language lang=\"" + c, "<?xml version=\"1.0\"?>", "<!---->", "<other/>", "\ufeff<language id=\"n\"><entry id=\"k\">v</entry></language>", "\n\n<language/>", "\ufeffk=v\n", "[[", "{{", "%--" + c}[vrt.Choose("content", 21)]
	p := vrt.File("odd", s)
	d := row("f", "F").data(false)
	old := func() *xcore.XLanguage {
		l := xcore.NewXLanguage("m", langTag(0))
		l.Set("k", "old")
		return l
	}
	switch vrt.Choose("load", 6) {
	case 0:
		a, err := xcore.NewXTemplateFromFile(p)
		b, err2 := xcore.NewXTemplateFromString(s)
		vrt.Assert((err == nil) == (err2 == nil) && (a == nil) == (b == nil), "loading the file and its content differ")
		vrt.Assert(a == nil || a.Execute(d) == b.Execute(d), "the template of the file and of its content differ")
	case 1:
		a, err := xcore.NewXLanguageFromFile(p)
		b, err2 := xcore.NewXLanguageFromString(s)
		vrt.Assert((err == nil) == (err2 == nil) && (a == nil) == (b == nil), "loading the file and its content differ")
		if a != nil {
			sameLanguage(a, b)
		}
	case 2:
		a, err := xcore.NewXLanguageFromXMLFile(p)
		b, err2 := xcore.NewXLanguageFromXMLString(s)
		vrt.Assert((err == nil) == (err2 == nil) && (a == nil) == (b == nil), "loading the file and its content differ")
		if a != nil {
			sameLanguage(a, b)
		}
	case 3:
		a, b := xcore.NewXTemplate(), xcore.NewXTemplate()
		vrt.Assert((a.LoadFile(p) == nil) == (b.LoadString(s) == nil), "loading the file and its content differ")
		vrt.Assert(a.Execute(d) == b.Execute(d), "the template of the file and of its content differ")
	case 4:
		a, b := old(), old()
		vrt.Assert((a.LoadFile(p) == nil) == (b.LoadString(s) == nil), "loading the file and its content differ")
		sameLanguage(a, b)
	default:
		a, b := old(), old()
		vrt.Assert((a.LoadXMLFile(p) == nil) == (b.LoadXMLString(s) == nil), "loading the file and its content differ")
		sameLanguage(a, b)
	}
}

// C41_word: any other word.
func C41_word() {
	w := vrt.Str("word", 1, vrt.Bound("word_bytes", 8, 12), 'A', 'z')
	for i := 0; i < len(w); i++ {
		vrt.Assume(vrt.Or(w[i] <= 'Z', w[i] >= 'a'))
	}
	vrt.Assume(w != "dump")
	vrt.Assume(w != "list")
	l := []telem{tx("<"), telem{kind: '!', s: w}, tx(">")}
	d := row("f", "F").data(false)
	out := compiled(l).Execute(d)
	vrt.Observe(out)
	vrt.Assert(out == "<>", "a debug element of another word outputs something")
}
