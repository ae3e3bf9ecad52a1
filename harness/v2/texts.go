package zzvh

import (
	"fmt"
	"time"

	xcore "github.com/webability-go/xcore/v2"
	vrt "github.com/webability-go/xcore/v2/zzvrt"
)

// textual is a value that has a text of its own kind; named values have methods.
func textual(k int) interface{} {
	switch k {
	case 0:
		return []byte("ab")
	case 1:
		return pt{1, -2}
	case 2:
		return &pt{1, 2}
	case 3:
		return named(3)
	case 4:
		return []interface{}{1, "x", nil, []string{"y"}}
	case 5:
		return [2]int{3, 4}
	case 6:
		return map[string]int{"b": 2, "a": 1}
	case 7:
		return []string{"a", "b c"}
	case 8:
		return []string(nil)
	case 9:
		return failing("wrong")
	case 10:
		return labelled("l")
	case 11:
		return 1e21
	case 12:
		return 123456789.0
	case 13:
		return 1e-7
	case 14:
		return float32(0.1)
	case 15:
		return int32(65)
	case 16:
		return uint8(65)
	case 17:
		return 1e20
	case 18:
		return []float64{1, 2.5}
	case 19:
		return true
	case 20:
		return []bool{true, false}
	case 21:
		return -0.5
	case 22:
		return (*pt)(nil)
	case 23:
		return int64(-1 << 63)
	case 24:
		return uint64(1<<64 - 1)
	case 25:
		return time.Time{}
	case 26:
		return map[string]interface{}{"a": nil}
	case 27:
		return []interface{}{}
	case 28:
		return "  "
	case 29:
		return 3.0
	}
	return []time.Duration{}
}

const textualKinds = 31

// C09_text: GetString is the text of fmt.Sprint.
func C09_text() {
	d := newDS(vrt.Choose("ts", 2) == 1)
	v := textual(vrt.Choose("kind", textualKinds))
	d.Set("k", v)
	s, ok := d.GetString("k")
	vrt.Observe(s)
	vrt.Assert(ok && s == fmt.Sprint(v), "GetString is not the text of the value")
}

// C12_text: GetDataString is the text of fmt.Sprint.
func C12_text() {
	c := newDC(vrt.Choose("ts", 2) == 1)
	v := textual(vrt.Choose("kind", textualKinds))
	d := newDS(vrt.Choose("ts", 2) == 1)
	d.Set("k", v)
	c.Push(d)
	s, ok := c.GetDataString("k")
	vrt.Observe(s)
	vrt.Assert(ok && s == fmt.Sprint(v), "GetDataString is not the text of the value")
}

// C23_text: a field is replaced by the text of fmt.Sprint.
func C23_text() {
	t, err := xcore.NewXTemplateFromString("<{{k}}>")
	vrt.Assert(err == nil, "the template is refused")
	v := textual(vrt.Choose("kind", textualKinds))
	d := newDS(vrt.Choose("ts", 2) == 1)
	d.Set("k", v)
	s := t.Execute(d)
	vrt.Observe(s)
	vrt.Assert(s == "<"+fmt.Sprint(v)+">", "the field is not replaced by the text of the value")
}

// C26_text: a condition selects the variant named by the text of fmt.Sprint.
func C26_text() {
	v := textual(vrt.Choose("kind", textualKinds))
	t, err := xcore.NewXTemplateFromString("??k??[[k]]base[[]][[k.none]]none[[]]")
	vrt.Assert(err == nil, "the template is refused")
	x, err := xcore.NewXTemplateFromString("variant")
	vrt.Assert(err == nil, "the template is refused")
	t.AddTemplate("k."+fmt.Sprint(v), x)
	d := newDS(vrt.Choose("ts", 2) == 1)
	d.Set("k", v)
	s := t.Execute(d)
	vrt.Observe(s)
	vrt.Assert(s == "variant", "the condition does not select the variant of the value")
}

// C07_alias: Get returns the very value that was stored.
func C07_alias() {
	d := newDS(vrt.Choose("ts", 2) == 1)
	ok := false
	switch vrt.Choose("kind", 6) {
	case 0:
		v := []string{"a"}
		d.Set("k", v)
		v[0] = "b"
		got, _ := d.Get("k")
		w, isS := got.([]string)
		ok = isS && len(w) == 1 && w[0] == "b"
	case 1:
		v := []int{1}
		d.Set("k", v)
		v[0] = 2
		got, _ := d.Get("k")
		w, isS := got.([]int)
		ok = isS && len(w) == 1 && w[0] == 2
	case 2:
		v := map[string]interface{}{"a": 1}
		d.Set("k", v)
		v["b"] = 2
		got, _ := d.Get("k")
		w, isM := got.(map[string]interface{})
		ok = isM && len(w) == 2
	case 3:
		v := "a"
		d.Set("k", &v)
		got, _ := d.Get("k")
		ok = got == interface{}(&v)
	case 4:
		v := newDS(false)
		d.Set("k", v)
		v.Set("a", 1)
		got, _ := d.Get("k")
		ok = got == interface{}(v)
	case 5:
		v := newDC(false)
		d.Set("k", v)
		v.Push(newDS(false))
		got, _ := d.Get("k")
		ok = got == interface{}(v)
	}
	vrt.Assert(ok, "Get returns another object than the one stored")
}

// C10_empty: empty datasets and collections are cloned as well.
func C10_empty() {
	ts, ts2 := vrt.Choose("ts", 2) == 1, vrt.Choose("ts2", 2) == 1
	sub, list := newDS(ts), newDC(ts)
	d := newDS(ts2)
	c := newDC(ts2)
	d.Set("s", sub)
	d.Set("l", list)
	c.Push(sub)
	d2, c2 := d.Clone(), c.Clone()
	s2, ok := d2.GetDataset("s")
	vrt.Assert(ok, "the clone has no such dataset")
	l2, ok := d2.GetCollection("l")
	vrt.Assert(ok && l2.Count() == 0, "the clone has no such collection")
	r2, ok := c2.Get(0)
	vrt.Assert(ok && c2.Count() == 1, "the clone has another number of records")
	if vrt.Choose("in_clone", 2) == 1 {
		s2.Set("a", 1)
		r2.Set("b", 1)
		l2.Push(newDS(false))
		_, ok1 := sub.Get("a")
		_, ok2 := sub.Get("b")
		vrt.Assert(!ok1 && !ok2 && list.Count() == 0, "a change of the clone is visible in the original")
		return
	}
	sub.Set("a", 1)
	list.Push(newDS(false))
	_, ok1 := s2.Get("a")
	_, ok2 := r2.Get("a")
	vrt.Assert(!ok1 && !ok2 && l2.Count() == 0, "a change of the original is visible in the clone")
}
