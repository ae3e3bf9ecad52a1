package zzvh

import (
	"strings"

	xcore "github.com/webability-go/xcore/v2"
	vrt "github.com/webability-go/xcore/v2/zzvrt"
)

// ownDS and ownDC are implementations of the interfaces that xcore does not know.
type ownDS struct{ xcore.XDatasetDef }

func (o *ownDS) Clone() xcore.XDatasetDef { return &ownDS{o.XDatasetDef.Clone()} }

type ownDC struct{ xcore.XDatasetCollectionDef }

func (o *ownDC) Clone() xcore.XDatasetCollectionDef { return &ownDC{o.XDatasetCollectionDef.Clone()} }

func ownDataset() *ownDS { return &ownDS{newDS(vrt.Choose("inner_ts", 2) == 1)} }

func ownCollection() *ownDC { return &ownDC{newDC(vrt.Choose("inner_ts", 2) == 1)} }

// C08_own: paths lead through datasets and collections of other types.
func C08_own() {
	v := anyInt("v")
	s, c, r := ownDataset(), ownCollection(), newDS(false)
	s.Set("v", v)
	r.Set("s", s)
	c.Push(s)
	c.Push(r)
	d := newDS(vrt.Choose("ts", 2) == 1)
	d.Set("s", s)
	d.Set("c", c)
	for _, p := range []string{"s>v", "c>0>v", "c>1>s>v"} {
		got, ok := d.Get(p)
		vrt.Assert(ok && got == v, "Get does not walk the path")
		i, ok := d.GetInt(p)
		vrt.Assert(ok && i == v, "GetInt does not walk the path")
	}
	for _, p := range []string{"s", "c>0", "c>1>s"} {
		x, ok := d.GetDataset(p)
		vrt.Assert(ok && x == xcore.XDatasetDef(s), "GetDataset does not return the dataset")
	}
	x, ok := d.GetCollection("c")
	vrt.Assert(ok && x == xcore.XDatasetCollectionDef(c), "GetCollection does not return the collection")
	for _, p := range []string{"s>w", "c>2", "c>2>v", "c>x", "s>v>w"} {
		_, ok := d.Get(p)
		vrt.Assert(!ok, "Get returns something for a path that leads nowhere")
	}
}

// C10_own: datasets and collections of other types are cloned as well.
func C10_own() {
	s, c := ownDataset(), ownCollection()
	s.Set("v", 1)
	c.Push(s)
	d := newDS(vrt.Choose("ts", 2) == 1)
	l := newDC(vrt.Choose("ts2", 2) == 1)
	d.Set("s", s)
	d.Set("c", c)
	l.Push(s)
	d2, l2 := d.Clone(), l.Clone()
	vrt.Assert(l2.Count() == 1, "the clone has another number of records")
	var subs []xcore.XDatasetDef
	for _, p := range []string{"s", "c>0"} {
		x, ok := d2.GetDataset(p)
		vrt.Assert(ok, "the clone has no such dataset")
		subs = append(subs, x)
	}
	r, ok := l2.Get(0)
	vrt.Assert(ok, "the clone has no such record")
	subs = append(subs, r)
	for _, x := range subs {
		i, ok := x.GetInt("v")
		vrt.Assert(ok && i == 1, "the clone has another value")
	}
	if vrt.Choose("in_clone", 2) == 1 {
		subs[vrt.Choose("at", 3)].Set("v", 2)
		i, ok := s.GetInt("v")
		vrt.Assert(ok && i == 1, "a change of the clone is visible in the original")
		x, _ := d2.GetCollection("c")
		x.Push(newDS(false))
		vrt.Assert(c.Count() == 1, "a change of the clone is visible in the original")
		return
	}
	s.Set("v", 2)
	c.Push(newDS(false))
	for _, x := range subs {
		i, ok := x.GetInt("v")
		vrt.Assert(ok && i == 1, "a change of the original is visible in the clone")
	}
	x, ok := d2.GetCollection("c")
	vrt.Assert(ok && x.Count() == 1, "a change of the original is visible in the clone")
}

// C11_own: records of other types.
func C11_own() {
	c := newDC(vrt.Choose("ts", 2) == 1)
	a, b, p := ownDataset(), ownDataset(), newDS(false)
	c.Push(a)
	c.Unshift(p)
	c.Push(b)
	for i, want := range []xcore.XDatasetDef{p, a, b} {
		x, ok := c.Get(i)
		vrt.Assert(ok && x == want, "wrong record")
	}
	vrt.Assert(c.Shift() == p && c.Pop() == xcore.XDatasetDef(b) && c.Pop() == xcore.XDatasetDef(a) && c.Count() == 0, "wrong record")
}

// C12_own: lookups in records of other types.
func C12_own() {
	c := newDC(vrt.Choose("ts", 2) == 1)
	a, p, n := ownDataset(), newDS(false), ownCollection()
	v, w := anyInt("v"), anyInt("w")
	a.Set("k", v)
	a.Set("a", a.XDatasetDef)
	a.Set("n", n)
	p.Set("k", w)
	p.Set("s", a)
	last := v
	if vrt.Choose("order", 2) == 1 {
		c.Push(a)
		c.Push(p)
		last = w
	} else {
		c.Push(p)
		c.Push(a)
	}
	i, ok := c.GetDataInt("k")
	vrt.Assert(ok && i == last, "GetDataInt does not return the value of the last record")
	for _, path := range []string{"s>k", "a>k"} {
		i, ok = c.GetDataInt(path)
		vrt.Assert(ok && i == v, "GetDataInt does not follow the path")
	}
	for _, path := range []string{"n", "s>n"} {
		x, ok := c.GetCollection(path)
		vrt.Assert(ok && x == xcore.XDatasetCollectionDef(n), "GetCollection does not return the collection")
	}
	_, ok = c.GetData("s>x")
	vrt.Assert(!ok, "GetData returns something that no record has")
}

// C16_own: texts of datasets of other types.
func C16_own() {
	s, c := ownDataset(), ownCollection()
	s.Set("v", vrt.Str("v", 0, 1, 'a', 'z'))
	c.Push(s)
	d := newDS(vrt.Choose("ts", 2) == 1)
	d.Set("c", c)
	d.Set("s", s)
	vrt.Assert(strings.Contains(d.String(), "c:"+c.String()+" s:"+s.String()), "String does not list every entry in order")
	vrt.Assert(strings.Contains(d.GoString(), "c:"+c.GoString()+" s:"+s.GoString()), "GoString does not list every entry in order")
	l := newDC(vrt.Choose("ts2", 2) == 1)
	l.Push(s)
	l.Push(s)
	vrt.Assert(strings.Contains(l.String(), "[0:"+s.String()+" 1:"+s.String()+" ]"), "String does not list every record in order")
}

// ownData is a root dataset with datasets and collections of other types.
func ownData(v string) xcore.XDatasetDef {
	var d xcore.XDatasetDef = newDS(false)
	if vrt.Choose("root", 2) == 1 {
		d = ownDataset()
	}
	s, c, r := ownDataset(), ownCollection(), newDS(false)
	s.Set("k", v)
	r.Set("k", "r")
	c.Push(s)
	c.Push(r)
	d.Set("s", s)
	d.Set("c", c)
	d.Set("k", "top")
	return d
}

func ownRenders(text, want string, d xcore.XDatasetDef) {
	t, err := xcore.NewXTemplateFromString(text)
	vrt.Assert(err == nil, "the template is refused")
	for i := 0; i < 2; i++ {
		out := t.Execute(d)
		vrt.Observe(out)
		vrt.Assert(out == want, "the template renders another text")
	}
}

// C23_own: fields of datasets of other types.
func C23_own() {
	v := vrt.Str("v", 0, 1, 'a', 'z')
	ownRenders("<{{k}}|{{s>k}}|{{c>0>k}}|{{c>1>k}}|{{c>2>k}}>", "<top|"+v+"|"+v+"|r|>", ownData(v))
}

// C24_own: a reference with a dataset of another type.
func C24_own() {
	v := vrt.Str("v", 0, 1, 'a', 'z')
	ownRenders("<&&x:s&&{{k}}&&x&&>[[x]]({{k}})[[]]", "<("+v+")top(top)>", ownData(v))
}

// C25_own: a loop over a collection of another type.
func C25_own() {
	v := vrt.Str("v", 0, 1, 'a', 'z')
	ownRenders("<@@c:x@@{{k}}>[[x]]({{k}})[[]][[x.last]][{{k}}][[]]", "<("+v+")[r]top>", ownData(v))
}

// C26_own: a condition on a dataset of another type.
func C26_own() {
	v := vrt.Str("v", 0, 1, 'a', 'z')
	if vrt.Choose("array", 2) == 1 {
		ownRenders("<??s:x??{{k}}>[[x]]({{k}})[[]][[x.array]][{{k}}][[]]", "<["+v+"]top>", ownData(v))
		return
	}
	ownRenders("<??s:x??{{k}}>[[x]]({{k}})[[]][[x.none]]none[[]]", "<("+v+")top>", ownData(v))
}
