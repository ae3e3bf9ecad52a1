package zzvh

import (
	"time"

	xcore "github.com/webability-go/xcore"
	vrt "github.com/webability-go/xcore/zzvrt"
)

// cop is one operation on a cache with its result and the interval of the
// interleaving it took.
type cop struct {
	kind int // set get del count clean flush
	key  string
	val  int // symbolic
	// result
	v          interface{}
	inv        bool
	n          int
	start, end int
}

func (o *cop) run(c *xcore.XCache) {
	o.start = vrt.Stamp()
	switch o.kind {
	case 0:
		c.Set(o.key, o.val)
	case 1:
		o.v, o.inv = c.Get(o.key)
	case 2:
		c.Del(o.key)
	case 3:
		o.n = c.Count()
	case 4:
		o.n = c.Clean(50)
	case 5:
		c.Flush()
	}
	o.end = vrt.Stamp()
}

// sentry and smodel: the sequential cache; entries from the least to the most
// recently used, old ones have outlived Expire. Results are compared without
// splitting paths, so that the solver decides over all values at once.
type sentry struct {
	k   string
	v   int
	old bool
}

type smodel struct {
	max int
	e   []sentry
}

func (m *smodel) clone() *smodel {
	return &smodel{max: m.max, e: append([]sentry(nil), m.e...)}
}

func (m *smodel) take(k string) (sentry, bool) {
	for i, e := range m.e {
		if e.k == k {
			m.e = append(append([]sentry(nil), m.e[:i]...), m.e[i+1:]...)
			return e, true
		}
	}
	return sentry{}, false
}

func (m *smodel) clean(p int) int {
	var left []sentry
	for _, e := range m.e {
		if !e.old {
			left = append(left, e)
		}
	}
	k := len(left) * p / 100
	n := len(m.e) - len(left) + k
	m.e = left[k:]
	return n
}

// step applies o and tells whether it gave the recorded result.
func (m *smodel) step(o *cop) bool {
	switch o.kind {
	case 0:
		m.take(o.key)
		m.e = append(m.e, sentry{k: o.key, v: o.val})
		if m.max > 0 && len(m.e) >= m.max {
			m.clean(10)
			for len(m.e) > m.max {
				m.e = m.e[1:]
			}
		}
	case 1:
		e, ok := m.take(o.key)
		if !ok {
			return vrt.And(o.v == nil, !o.inv)
		}
		if e.old {
			return vrt.And(o.v == nil, o.inv)
		}
		m.e = append(m.e, e)
		return vrt.And(o.v == e.v, !o.inv)
	case 2:
		m.take(o.key)
	case 3:
		return o.n == len(m.e)
	case 4:
		return o.n == m.clean(50)
	case 5:
		m.e = nil
	}
	return true
}

// linearizable: some order of the operations, compatible with their intervals,
// gives every result, and then final accepts the state reached.
func linearizable(m *smodel, ops []*cop, final func(m *smodel) bool) bool {
	if len(ops) == 0 {
		return final(m)
	}
	some := false
	for i, o := range ops {
		first := true
		for j, p := range ops {
			if j != i && p.end < o.start {
				first = false
			}
		}
		if !first {
			continue
		}
		c := m.clone()
		ok := c.step(o)
		rest := append(append([]*cop(nil), ops[:i]...), ops[i+1:]...)
		some = vrt.Or(some, vrt.And(ok, linearizable(c, rest, final)))
	}
	return some
}

var cacheKeys = []string{"a", "b", "c"}

func runConcurrent(prog [][]*cop, max int, prefill int, old bool) {
	expire := vrtDuration("expire")
	vrt.Assume(expire > 0)
	c := xcore.NewXCache("id", max, expire)
	m := &smodel{max: max}
	for i := 0; i < prefill; i++ {
		v := anyInt("stored")
		c.Set(cacheKeys[i], v)
		m.step(&cop{kind: 0, key: cacheKeys[i], val: v})
	}
	age := vrtDuration("age")
	vrt.Assume(old == (age > expire))
	vrt.Advance(age)
	for i := range m.e {
		m.e[i].old = old
	}
	var all []*cop
	for _, p := range prog {
		ops := p
		all = append(all, ops...)
		vrt.Go(func() {
			for _, o := range ops {
				o.run(c)
			}
		})
	}
	vrt.Join()
	// the state left behind: number of entries, what Clean evicts, and each key
	n := c.Count()
	ncl := c.Clean(50)
	var vals [3]interface{}
	var invs [3]bool
	for i, k := range cacheKeys {
		vals[i], invs[i] = c.Get(k)
	}
	vrt.Observe(n, ncl)
	ok := linearizable(m, all, func(m *smodel) bool {
		if len(m.e) != n || m.clean(50) != ncl {
			return false
		}
		ok := true
		for i, k := range cacheKeys {
			ok = vrt.And(ok, m.step(&cop{kind: 1, key: k, v: vals[i], inv: invs[i]}))
		}
		return ok
	})
	vrt.Assert(ok, "the results are not those of any sequential order")
	emptied(c)
}

// emptied: the cache can be emptied and used again, no trace of the former
// operations is left.
func emptied(c *xcore.XCache) {
	n := c.Count()
	r := c.Clean(100)
	vrt.Assert(r == n && c.Count() == 0, "Clean(100) does not empty the cache")
	c.Set("p", 1)
	r = c.Clean(100)
	vrt.Assert(r == 1 && c.Count() == 0, "Clean(100) does not remove the only entry")
}

func chooseOp(key int) *cop {
	o := &cop{kind: vrt.Choose("op", 6)}
	if o.kind == 0 {
		o.val = anyInt("v")
	}
	if o.kind == 0 || o.kind == 1 || o.kind == 2 {
		o.key = cacheKeys[vrt.Choose("key", key)]
	}
	return o
}

// C33_pairs: two goroutines, every pair of operations, all interleavings.
func C33_pairs() {
	max := vrt.Choose("limited", 2) * 2
	prefill := vrt.Choose("prefill", 3)
	old := prefill > 0 && vrt.Choose("old", 2) == 1
	runConcurrent([][]*cop{{chooseOp(2)}, {chooseOp(2)}}, max, prefill, old)
}

// C33_sequences: two operations against one or two.
func C33_sequences() {
	vrt.Preempt(vrt.Bound("preemptions", 1, 4))
	max := vrt.Choose("limited", 2) * 2
	prefill := 2
	old := vrt.Choose("old", 2) == 1
	a := []*cop{chooseOp(2), chooseOp(2)}
	b := []*cop{chooseOp(2)}
	if vrt.Thorough() {
		b = append(b, chooseOp(1))
	}
	runConcurrent([][]*cop{a, b}, max, prefill, old)
}

// C33_three: three goroutines.
func C33_three() {
	kinds := vrt.Bound("operation_kinds", 4, 6)
	vrt.Preempt(vrt.Bound("preemptions", 2, 3))
	mk := func() []*cop {
		return []*cop{{kind: vrt.Choose("op", kinds), key: cacheKeys[0], val: anyInt("v")}}
	}
	runConcurrent([][]*cop{mk(), mk(), mk()}, vrt.Choose("limited", 2)*2, 2, vrt.Choose("old", 2) == 1)
}

// C33_validator: Get and Verify with a Validator against other operations: no
// race, no panic, no deadlock, and a newer entry is not lost to the verdict on
// an older one.
func C33_validator() {
	c := xcore.NewXCache("id", 0, 0)
	x1, x2, x3 := anyInt("x1"), anyInt("x2"), anyInt("x3")
	c.Set("a", x1)
	c.Set("b", x2)
	old := vrt.Now()
	vrt.Advance(time.Duration(vrt.Int("age", 1, 1<<57)))
	reject := vrt.Choose("reject", 2) == 1
	c.Validator = func(k string, t time.Time) bool {
		vrt.Yield()
		return !reject || t.After(old)
	}
	verify := vrt.Choose("verify", 2) == 1
	var v1, v2 interface{}
	inv1 := false
	vrt.Go(func() {
		if verify {
			c.Verify()
		} else {
			v1, inv1 = c.Get("a")
		}
	})
	op := vrt.Choose("op", 5)
	vrt.Go(func() {
		switch op {
		case 0:
			c.Set("a", x3)
		case 1:
			c.Del("a")
		case 2:
			v2, _ = c.Get("a")
		case 3:
			c.Flush()
		case 4:
			c.Verify()
		}
	})
	vrt.Join()
	c.Validator = nil
	va, _ := c.Get("a")
	vb, _ := c.Get("b")
	n := c.Count()
	vrt.Observe(va, vb, n)
	switch op {
	case 0:
		vrt.Assert(va == x3, "an entry stored concurrently is lost")
	case 1, 3:
		vrt.Assert(va == nil, "a removed entry is back")
	case 2:
		vrt.Assert(v2 == x1 && !reject || v2 == nil && reject, "Get returns a wrong value")
	}
	if !verify {
		if reject {
			vrt.Assert(v1 == nil || op == 0 && v1 == x3, "Get serves a rejected value")
		} else if op != 1 && op != 3 {
			vrt.Assert((v1 == x1 || op == 0 && v1 == x3) && !inv1, "Get does not return the accepted value")
		}
	}
	if op == 3 || reject && (verify || op == 4) {
		vrt.Assert(vb == nil, "a rejected or flushed entry is still there")
	} else {
		vrt.Assert(vb == x2, "an accepted entry is lost")
	}
	want := 2
	if va == nil {
		want--
	}
	if vb == nil {
		want--
	}
	vrt.Assert(n == want, "Count is not the number of entries")
	// the cache still works: recency and contents agree
	emptied(c)
}
