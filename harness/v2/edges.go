package zzvh

import (
	"strconv"
	"time"

	xcore "github.com/webability-go/xcore/v2"
	vrt "github.com/webability-go/xcore/v2/zzvrt"
)

// ages are durations at which clocks and units round.
var ages = []time.Duration{
	1, 2, 999, time.Microsecond, time.Microsecond + 1, 1500 * time.Microsecond, time.Millisecond,
	999999999, time.Second, time.Second + 1, 1500 * time.Millisecond, 90 * time.Second, time.Hour - 1,
	24*time.Hour + 1, 400*24*time.Hour + 7, 20000 * 24 * time.Hour, 1<<53 + 1, 1<<62 - 1, 1<<63 - 2,
}

// gaps are distances from a limit.
var gaps = []time.Duration{
	0, 1, -1, 499999, 500001, -499999, 499999999, 500000001, -499999999, 999999999, -999999999,
}

// C02_edges: limits met or missed by little, with every way to set them.
func C02_edges() {
	d := ages[vrt.Choose("age", len(ages))]
	gap := gaps[vrt.Choose("gap", len(gaps))]
	vrt.Assume(d+gap >= 0)
	how := vrt.Choose("how", 7)
	c := xcore.NewXCache("id", vrt.Choose("limited", 2)*7, []time.Duration{d, 1, 0, d, d + 5, 0, 0}[how])
	c.Set("k", "old")
	if vrt.Choose("before", 2) == 1 {
		vrt.Advance(1234567891)
		c.Set("k", "x")
	} else {
		c.Set("k", "x")
	}
	switch how {
	case 2:
		c.SetTTL("k", d)
	case 4: // the shorter one counts
		c.SetTTL("k", d)
	case 5: // a TTL that exceeds Expire, which is then lifted
		c.Expire = 1
		c.SetTTL("k", d)
		c.Expire = 0
	case 6: // TTL set twice
		c.SetTTL("k", 1)
		c.SetTTL("k", d)
	}
	switch how {
	case 1: // changed later
		c.Expire = d
	case 3:
		c.Expire = -5 // in the past, set back below
	}
	if how == 3 {
		c.Expire = d
	}
	vrt.Assume(d+gap < 1<<61)
	vrt.Advance(d + gap)
	v, inv := c.Get("k")
	vrt.Observe(v, inv)
	if gap > 0 {
		vrt.Assert(v == nil && inv, "Get serves a value that is too old")
		vrt.Assert(c.Count() == 0, "the expired entry is still counted")
		v, inv = c.Get("k")
		vrt.Assert(v == nil && !inv, "the expired entry is still there")
	} else {
		vrt.Assert(v == "x" && !inv, "Get does not serve a value that is not too old")
	}
}

// C04_changed: the limit that counts is the one of the moment.
func C04_changed() {
	sizes := []int{0, 1, 2, 5, 11, 25}
	first := sizes[vrt.Choose("first", len(sizes))]
	second := sizes[vrt.Choose("second", len(sizes))]
	c := xcore.NewXCache("id", first, 0)
	n := []int{0, 1, 4, 12, 30}[vrt.Choose("entries", 5)]
	for i := 0; i < n; i++ {
		c.Set("k"+strconv.Itoa(i), i)
	}
	had := c.Count()
	c.Maxitems = second
	vrt.Assert(c.Count() == had, "a new limit removes entries at once")
	known := vrt.Choose("known", 2) == 1
	for i := 0; i < 3; i++ {
		v := anyInt("v")
		k := "n" + strconv.Itoa(i)
		if i == 2 {
			k = "n0" // again
		}
		if i == 0 && known && n > 0 {
			k = "k" + strconv.Itoa(n-1)
		}
		before := c.Count()
		w, _ := c.Get(k)
		c.Set(k, v)
		got, inv := c.Get(k)
		vrt.Assert(got == v && !inv, "the entry just stored is not there")
		if second > 0 {
			vrt.Assert(c.Count() <= second, "Count exceeds Maxitems")
		} else if w == nil {
			vrt.Assert(c.Count() == before+1, "Set evicts without a limit")
		} else {
			vrt.Assert(c.Count() == before, "Set of a known key changes the number of entries")
		}
	}
}

// C05_unused: what is no use does not change the order of the evictions.
func C05_unused() {
	n := 2 + vrt.Choose("entries", 3)
	max := []int{0, n + 1, 40}[vrt.Choose("max", 3)]
	c := xcore.NewXCache("id", max, []time.Duration{0, time.Hour}[vrt.Choose("expire", 2)])
	for i := 0; i < n; i++ {
		c.Set(letter(i), i)
		vrt.Advance(time.Second)
	}
	first := vrt.Choose("used", n) // the last one used, if not n-1
	order := []int{}
	for i := 0; i < n; i++ {
		if i != first {
			order = append(order, i)
		}
	}
	order = append(order, first)
	v, inv := c.Get(letter(first))
	vrt.Assert(v == first && !inv, "the entry is not there")
	for i := 0; i < vrt.Bound("operations", 1, 2); i++ {
		k := letter(vrt.Choose("key", n))
		switch vrt.Choose("op", 7) {
		case 0:
			c.Validator = func(string, time.Time) bool { return true }
			vrt.Assert(c.Verify() == 0, "Verify removes a valid entry")
		case 1:
			vrt.Assert(c.Verify() == 0, "Verify removes a valid entry")
		case 2:
			c.SetTTL(k, time.Hour)
		case 3:
			c.Get(k + "x")
			c.Del(k + "x")
		case 4:
			vrt.Assert(c.Clean(0) == 0, "Clean removes an entry")
		case 5:
			vrt.Assert(c.Count() == n, "Count is wrong")
		case 6:
			c.Set("other", 0)
			c.Get("other")
			c.Del("other")
			if max == n+1 {
				vrt.Assume(false)
			}
		}
		vrt.Advance(time.Second)
	}
	c.Validator = nil
	p := []int{30, 50, 67, 80}[vrt.Choose("percent", 4)]
	num := n * p / 100
	vrt.Assert(c.Clean(p) == num, "Clean does not return the number of removed entries")
	vrt.Assert(c.Count() == n-num, "the number of remaining entries is wrong")
	for i, j := range order {
		v, inv := c.Get(letter(j))
		if i < num {
			vrt.Assert(v == nil && !inv, "the least recently used entry is still there")
		} else {
			vrt.Assert(v == j && !inv, "an entry that was not the least recently used is gone")
		}
	}
}

// C05_twice: evictions after evictions.
func C05_twice() {
	sizes := []int{1, 3, 10}
	c := xcore.NewXCache("id", 0, 0)
	m := &cmodel{}
	for round := 0; round < 2; round++ {
		n := sizes[vrt.Choose("entries", len(sizes))]
		back := vrt.Choose("order", 2) == 1
		for i := 0; i < n; i++ {
			k := letter(i)
			if back {
				k = letter(n - 1 - i)
			}
			c.Set(k, round*100+i)
			m.set(k, round*100+i)
		}
		if vrt.Choose("get", 2) == 1 {
			m.checkGet(c, "A")
		}
		p := vrt.Int("perc", 0, 100)
		vrt.Assert(c.Clean(p) == m.clean(p), "Clean does not return the number of removed entries")
		vrt.Assert(c.Count() == len(m.e), "the number of remaining entries is wrong")
	}
	m.same(c)
	for i := range m.e {
		c.Del(m.e[i].k)
	}
	vrt.Assert(c.Count() == 0, "an entry is left")
	c.Set("A", 1)
	c.Set("B", 2)
	vrt.Assert(c.Clean(50) == 1, "Clean does not return the number of removed entries")
	v, inv := c.Get("B")
	vrt.Assert(v == 2 && !inv, "an entry that was not the least recently used is gone")
}
