package zzvh

import (
	"time"

	xcore "github.com/webability-go/xcore/v2"
	vrt "github.com/webability-go/xcore/v2/zzvrt"
)

// ckey is any one byte cache key.
func ckey(name string) string { return vrt.Str(name, 1, 1, 0, 255) }

// ekey is any cache key of at most one byte.
func ekey(name string) string { return vrt.Str(name, 0, 1, 0, 255) }

// cvalue is any integer, or nil.
func cvalue(name string) interface{} {
	if vrt.Choose(name+"_nil", 2) == 1 {
		return nil
	}
	return anyInt(name)
}

// years is any duration of up to nine years, also negative.
func years(name string) time.Duration {
	return time.Duration(vrt.Int(name, -1<<58, 1<<58))
}

// anyDuration is any duration, also negative.
func anyDuration(name string) time.Duration {
	return time.Duration(vrt.Int(name, -1<<63, 1<<63-1))
}

// resync drops from the model the entries that the cache evicted. What is
// evicted is the subject of C05, not of C01.
func resync(c *xcore.XCache, m *assoc) {
	left := &assoc{}
	for _, e := range m.e {
		n := c.Count()
		v, inv := c.Get(e.k)
		vrt.Assert(!inv, "Get reports an invalidated entry in a cache without expiry")
		vrt.Assert(c.Count() == n, "Get changes the number of entries")
		if v == nil && e.v != nil {
			continue
		}
		vrt.Assert(v == e.v, "Get returns a wrong value")
		left.set(e.k, e.v)
	}
	m.e = left.e
}

// C01_history: any history on an unlimited cache without expiry.
func C01_history() {
	n := vrt.Bound("operations", 4, 5)
	c := xcore.NewXCache("id", 0, 0)
	m := &assoc{}
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 5) {
		case 0:
			k, v := ekey("k"), cvalue("v")
			c.Set(k, v)
			m.set(k, v)
		case 1:
			k := ekey("k")
			v, inv := c.Get(k)
			want, _ := m.get(k)
			vrt.Assert(!inv, "Get reports an invalidated entry in a cache without expiry")
			vrt.Assert(v == want, "Get returns a wrong value")
		case 2:
			k := ekey("k")
			c.Del(k)
			m.del(k)
		case 3:
			c.SetTTL(ekey("k"), time.Hour)
		case 4:
			c.Flush()
			m.flush()
		}
		vrt.Assert(c.Count() == len(m.e), "Count is not the number of entries")
	}
	q := ekey("q")
	got, inv := c.Get(q)
	want, _ := m.get(q)
	vrt.Observe(got, inv, c.Count())
	vrt.Assert(!inv, "Get reports an invalidated entry in a cache without expiry")
	vrt.Assert(got == want, "Get returns a wrong value")
	vrt.Assert(c.Count() == len(m.e), "Count is not the number of entries")
}

// C01_values: keys of any length and values of any kind are kept apart.
func C01_values() {
	kl := vrt.Bound("key_bytes", 3, 5)
	c := xcore.NewXCache(vrt.Str("id", 0, 1, 0, 255), 0, 0)
	k1, k2 := vrt.Str("k1", 0, kl, 0, 255), vrt.Str("k2", 0, kl, 0, 255)
	v1, v2 := scalar("v1"), scalar("v2")
	c.Set(k1, v1)
	c.Set(k2, v2)
	a, ia := c.Get(k1)
	b, ib := c.Get(k2)
	vrt.Observe(a, b, c.Count())
	vrt.Assert(!ia && !ib, "Get reports an invalidated entry in a cache without expiry")
	vrt.Assert(b == v2, "Get returns a wrong value")
	if k1 == k2 {
		vrt.Cover("replace")
		vrt.Assert(a == v2, "Get returns a replaced value")
		vrt.Assert(c.Count() == 1, "Count is not the number of entries")
	} else {
		vrt.Assert(a == v1, "Get returns a wrong value")
		vrt.Assert(c.Count() == 2, "Count is not the number of entries")
	}
}

// C01_evicting: histories with evictions; what remains keeps its value.
func C01_evicting() {
	n := vrt.Bound("operations", 3, 4)
	max := vrt.Choose("maxitems", vrt.Bound("maxitems", 4, 5))
	c := xcore.NewXCache("id", max, 0)
	m := &assoc{}
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 4) {
		case 0:
			k, v := ckey("k"), anyInt("v")
			c.Set(k, v)
			m.set(k, v)
			if max == 0 {
				vrt.Assert(c.Count() == len(m.e), "Count is not the number of entries")
			} else {
				resync(c, m)
			}
		case 1:
			k := ckey("k")
			c.Del(k)
			m.del(k)
		case 2:
			c.Clean(vrt.Int("perc", 0, 100))
			resync(c, m)
		case 3:
			c.Flush()
			m.flush()
		}
		vrt.Assert(c.Count() == len(m.e), "Count is not the number of entries")
	}
	q := ckey("q")
	got, inv := c.Get(q)
	want, _ := m.get(q)
	vrt.Observe(got, inv, c.Count())
	vrt.Assert(!inv, "Get reports an invalidated entry in a cache without expiry")
	vrt.Assert(got == want, "Get returns a wrong value")
}

// centry is an entry of the reference cache.
type centry struct {
	k   string
	v   interface{}
	at  time.Time
	ttl time.Duration
}

// cmodel is the reference cache: entries from the least to the most recently
// used.
type cmodel struct {
	expire time.Duration
	e      []centry
}

func (m *cmodel) find(k string) int {
	for i := range m.e {
		if m.e[i].k == k {
			return i
		}
	}
	return -1
}

func (m *cmodel) remove(i int) {
	var n []centry
	n = append(n, m.e[:i]...)
	n = append(n, m.e[i+1:]...)
	m.e = n
}

func (m *cmodel) set(k string, v interface{}) {
	if i := m.find(k); i >= 0 {
		m.remove(i)
	}
	m.e = append(m.e, centry{k: k, v: v, at: vrt.Now()})
}

func (m *cmodel) touch(i int) {
	e := m.e[i]
	m.remove(i)
	m.e = append(m.e, e)
}

// stale tells that the entry outlived Expire or its TTL.
func (m *cmodel) stale(i int) bool {
	age := vrt.Now().Sub(m.e[i].at)
	byTTL := vrt.And(m.e[i].ttl != 0, age > m.e[i].ttl)
	return vrt.Or(byTTL, m.outlived(i))
}

func (m *cmodel) outlived(i int) bool {
	age := vrt.Now().Sub(m.e[i].at)
	return vrt.And(m.expire != 0, age > m.expire)
}

// checkGet compares one Get with the reference and applies it to both.
func (m *cmodel) checkGet(c *xcore.XCache, k string) {
	n := c.Count()
	v, inv := c.Get(k)
	vrt.Observe(v, inv)
	i := m.find(k)
	if i < 0 {
		vrt.Assert(v == nil && !inv, "Get of an absent key does not return nil, false")
		vrt.Assert(c.Count() == n, "Get of an absent key changes the number of entries")
		return
	}
	if m.stale(i) {
		vrt.Cover("expired")
		vrt.Assert(v == nil, "Get serves an expired value")
		vrt.Assert(inv, "Get does not report the expired entry")
		m.remove(i)
		vrt.Assert(c.Count() == n-1, "the expired entry is still counted")
		v, inv = c.Get(k)
		vrt.Assert(v == nil && !inv, "the expired entry is still there")
		return
	}
	vrt.Cover("fresh")
	vrt.Assert(!inv, "Get reports a fresh entry as expired")
	vrt.Assert(v == m.e[i].v, "Get does not return the value of a fresh entry")
	vrt.Assert(c.Count() == n, "Get of a fresh entry changes the number of entries")
	m.touch(i)
}

// C02_history: entries are served up to their limits and not after.
func C02_history() {
	n := vrt.Bound("operations", 4, 5)
	expire := years("expire")
	c := xcore.NewXCache("id", 0, expire)
	m := &cmodel{expire: expire}
	for i := 0; i < n; i++ {
		k := ckey("k")
		switch vrt.Choose("op", 5) {
		case 0:
			v := cvalue("v")
			c.Set(k, v)
			m.set(k, v)
		case 1:
			d := years("ttl")
			c.SetTTL(k, d)
			if j := m.find(k); j >= 0 {
				m.e[j].ttl = d
			}
			vrt.Assert(c.Count() == len(m.e), "SetTTL changes the number of entries")
		case 2:
			m.checkGet(c, k)
		case 3:
			c.Del(k)
			if j := m.find(k); j >= 0 {
				m.remove(j)
			}
		case 4:
			c.Clean(0)
			m.clean(0)
		}
		vrt.Advance(vrtDuration("elapsed"))
	}
	m.checkGet(c, ckey("q"))
}

// vrtDuration is any non-negative duration of up to four years.
func vrtDuration(name string) time.Duration { return time.Duration(vrt.Int(name, 0, 1<<57)) }

// seconds is any duration of up to four seconds.
func seconds(name string) time.Duration { return time.Duration(vrt.Int(name, 0, 1<<32)) }

// C02_clock: the clock may move between any two readings of it.
func C02_clock() {
	expire := anyDuration("expire")
	c := xcore.NewXCache("id", 0, expire)
	ttl := anyDuration("ttl")
	vrt.FreeRun()
	before := vrt.Now()
	c.Set("k", 1)
	after := vrt.Now()
	if vrt.Choose("with_ttl", 2) == 1 {
		c.SetTTL("k", ttl)
	} else {
		ttl = 0
	}
	get0 := vrt.Now()
	v, inv := c.Get("k")
	get1 := vrt.Now()
	youngest, oldest := get0.Sub(after), get1.Sub(before)
	mustExpire := vrt.Or(vrt.And(ttl != 0, youngest > ttl), vrt.And(expire != 0, youngest > expire))
	mustServe := vrt.And(vrt.Or(ttl == 0, oldest <= ttl), vrt.Or(expire == 0, oldest <= expire))
	vrt.Observe(v, inv)
	if inv {
		vrt.Assert(v == nil, "Get serves an expired value")
		vrt.Assert(!mustServe, "Get reports a fresh entry as expired")
		vrt.Assert(c.Count() == 0, "the expired entry is still counted")
	} else {
		vrt.Assert(v == 1, "Get does not return the value of a fresh entry")
		vrt.Assert(!mustExpire, "Get serves an expired value")
	}
}

// C03_get: the Validator is consulted with the key and the instant of the Set.
func C03_get() {
	n := vrt.Bound("operations", 3, 4)
	expire := vrtDuration("expire")
	c := xcore.NewXCache("id", 0, expire)
	m := &cmodel{expire: expire}
	calls, verdict := 0, true
	asked := ""
	c.Validator = func(k string, t time.Time) bool {
		calls++
		vrt.Assert(k == asked, "the Validator is consulted with another key")
		i := m.find(k)
		vrt.Assert(i >= 0, "the Validator is consulted for an absent entry")
		vrt.Assert(t.Equal(m.e[i].at), "the Validator is not given the instant of the Set")
		return verdict
	}
	for i := 0; i < n; i++ {
		k := ckey("k")
		switch vrt.Choose("op", 3) {
		case 0:
			v := cvalue("v")
			c.Set(k, v)
			m.set(k, v)
		case 1:
			c.Del(k)
			if j := m.find(k); j >= 0 {
				m.remove(j)
			}
		case 2:
			asked, calls, verdict = k, 0, vrt.Bool("verdict")
			cnt := c.Count()
			v, inv := c.Get(k)
			vrt.Observe(v, inv)
			j := m.find(k)
			if j < 0 {
				vrt.Assert(v == nil && !inv, "Get of an absent key does not return nil, false")
				break
			}
			if m.stale(j) {
				vrt.Assert(v == nil && inv, "Get serves an expired value")
				m.remove(j)
				break
			}
			vrt.Assert(calls > 0, "the Validator is not consulted")
			if verdict {
				vrt.Cover("accepted")
				vrt.Assert(!inv && v == m.e[j].v, "Get does not return the accepted value")
				vrt.Assert(c.Count() == cnt, "Get of an accepted entry changes the number of entries")
				break
			}
			vrt.Cover("rejected")
			vrt.Assert(v == nil && inv, "Get serves a rejected value")
			vrt.Assert(c.Count() == cnt-1, "the rejected entry is still counted")
			m.remove(j)
		}
		vrt.Advance(vrtDuration("elapsed"))
	}
	c.Validator = nil
	m.checkGet(c, ckey("q"))
}

// C03_verify: Verify removes the expired and rejected entries, nothing else.
func C03_verify() {
	n := vrt.Bound("entries", 3, 4)
	vrt.MapOrder(1)
	expire := seconds("expire")
	c := xcore.NewXCache("id", 0, expire)
	m := &cmodel{expire: expire}
	for i := 0; i < n; i++ {
		k, v := ckey("k"), anyInt("v")
		c.Set(k, v)
		m.set(k, v)
		vrt.Advance(seconds("elapsed"))
	}
	if len(m.e) > 1 {
		m.checkGet(c, m.e[0].k)
		vrt.Advance(seconds("elapsed"))
	}
	verdicts := make([]bool, len(m.e))
	for i := range verdicts {
		verdicts[i] = vrt.Bool("verdict")
	}
	withV := vrt.Choose("validator", 2) == 1
	if withV {
		c.Validator = func(k string, t time.Time) bool {
			i := m.find(k)
			vrt.Assert(i >= 0, "the Validator is consulted for an absent entry")
			vrt.Assert(t.Equal(m.e[i].at), "the Validator is not given the instant of the Set")
			return verdicts[i]
		}
	}
	got := c.Verify()
	c.Validator = nil
	vrt.Observe(got)
	var left []centry
	removed := 0
	for i := range m.e {
		if m.outlived(i) {
			vrt.Cover("outlived")
			removed++
		} else if withV && !verdicts[i] {
			vrt.Cover("rejected")
			removed++
		} else {
			left = append(left, m.e[i])
		}
	}
	m.e = left
	vrt.Assert(got == removed, "Verify does not return the number of removed entries")
	vrt.Assert(c.Count() == len(left), "Verify removed other entries than the expired and rejected ones")
	for _, e := range left {
		v, inv := c.Get(e.k)
		vrt.Assert(v == e.v && !inv, "Verify lost a valid entry")
	}
}

// C04_small: the limit holds for small caches and any history.
func C04_small() {
	n := vrt.Bound("operations", 5, 6)
	max := vrt.Int("maxitems", 0, vrt.Bound("maxitems", 3, 4))
	c := xcore.NewXCache("id", max, 0)
	distinct := &assoc{}
	keep := true
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 4) {
		case 0:
			k, v := ckey("k"), anyInt("v")
			c.Set(k, v)
			distinct.set(k, v)
			checkCap(c, max, k, v, len(distinct.e), keep)
		case 1:
			c.Get(ckey("k"))
		case 2:
			k := ckey("k")
			c.Del(k)
			distinct.del(k)
		case 3:
			if vrt.Choose("flush", 2) == 0 {
				c.Clean(vrt.Int("perc", 0, 100))
				keep = false
			} else {
				c.Flush()
				distinct.flush()
				keep = true
			}
		}
	}
}

func checkCap(c *xcore.XCache, max int, k string, v interface{}, distinct int, keep bool) {
	n := c.Count()
	vrt.Assert(vrt.Imp(max > 0, n <= max), "more than Maxitems entries")
	if keep {
		vrt.Assert(vrt.Imp(max == 0, n == distinct), "a cache without limit evicts")
	}
	got, inv := c.Get(k)
	vrt.Observe(n, got, inv)
	vrt.Assert(got == v && !inv, "the entry just stored is not there")
}

// C04_fill: caches of up to 20 entries filled beyond their limit.
func C04_fill() {
	sizes := []int{0, 1, 2, 5, 9, 10, 11, 12, 20}
	max := sizes[vrt.Choose("size", len(sizes))]
	c := xcore.NewXCache("id", max, 0)
	if vrt.Choose("expire", 2) == 1 {
		c.Expire = seconds("expire")
	}
	perturb := vrt.Choose("when", vrt.Bound("perturbations", 4, 24))
	k := 0
	for i := 0; i < max+4; i++ {
		if i == perturb*6 || vrt.Thorough() && i == perturb {
			switch vrt.Choose("op", 5) {
			case 0:
				c.Flush()
			case 1:
				c.Del(letter(vrt.Choose("which", 3) * k / 2))
			case 2:
				c.Get(letter(vrt.Choose("which", 3) * k / 2))
			case 3:
				c.Clean(vrt.Int("perc", 0, 100))
			case 4:
				vrt.Advance(seconds("elapsed"))
			}
		}
		c.Set(letter(k), k)
		n := c.Count()
		vrt.Assert(max == 0 || n <= max, "more than Maxitems entries")
		got, inv := c.Get(letter(k))
		vrt.Assert(got == k && !inv, "the entry just stored is not there")
		k++
	}
	vrt.Observe(c.Count())
}

func letter(i int) string { return string(rune('A' + i)) }

// lruSet is Set on the reference cache with a limit.
func (m *cmodel) lruSet(max int, k string, v interface{}) {
	m.set(k, v)
	if max > 0 && len(m.e) >= max {
		m.clean(10)
		for len(m.e) > max {
			m.remove(0)
		}
	}
}

// clean removes the entries that outlived Expire, then the p% oldest.
func (m *cmodel) clean(p int) int {
	var left []centry
	for i := range m.e {
		if !m.outlived(i) {
			left = append(left, m.e[i])
		}
	}
	removed := len(m.e) - len(left)
	num := len(left) * p / 100
	k := 0
	for ; k < num; k++ {
	}
	m.e = left[k:]
	return removed + k
}

// same compares the whole contents.
func (m *cmodel) same(c *xcore.XCache) {
	vrt.Observe(c.Count())
	vrt.Assert(c.Count() == len(m.e), "the number of remaining entries is wrong")
	for i := range m.e {
		if m.outlived(i) {
			continue
		}
		v, inv := c.Get(m.e[i].k)
		vrt.Assert(v == m.e[i].v && !inv, "an entry that was not the least recently used is gone")
	}
}

// C05_small: evictions of small caches, any history.
func C05_small() {
	n := vrt.Bound("operations", 4, 5)
	max := vrt.Choose("maxitems", vrt.Bound("maxitems", 4, 5))
	c := xcore.NewXCache("id", max, 0)
	m := &cmodel{}
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 4) {
		case 0:
			k, v := ckey("k"), i
			c.Set(k, v)
			m.lruSet(max, k, v)
		case 1:
			k := ckey("k")
			c.Get(k)
			if j := m.find(k); j >= 0 {
				m.touch(j)
			}
		case 2:
			k := ckey("k")
			c.Del(k)
			if j := m.find(k); j >= 0 {
				m.remove(j)
			}
		case 3:
			c.Flush()
			m.e = nil
		}
	}
	p := vrt.Int("perc", 0, 100)
	got := c.Clean(p)
	vrt.Observe(got)
	vrt.Assert(got == m.clean(p), "Clean does not return the number of removed entries")
	m.same(c)
}

// C05_expire: Clean with entries of different ages.
func C05_expire() {
	n := vrt.Bound("entries", 3, 4)
	vrt.MapOrder(0)
	expire := seconds("expire")
	c := xcore.NewXCache("id", 0, expire)
	m := &cmodel{expire: expire}
	for i := 0; i < n; i++ {
		k := letter(i)
		c.Set(k, i)
		m.set(k, i)
		vrt.Advance(seconds("elapsed"))
	}
	k := ckey("read")
	if j := m.find(k); j >= 0 {
		v, _ := c.Get(k)
		if m.outlived(j) {
			m.remove(j)
		} else {
			vrt.Assert(v == m.e[j].v, "a fresh entry is not returned")
			m.touch(j)
		}
	}
	vrt.Advance(seconds("elapsed"))
	for r := 0; r < 2; r++ {
		p := vrt.Int("perc", 0, 100)
		got := c.Clean(p)
		vrt.Observe(got)
		want := m.clean(p)
		vrt.Assert(got == want, "Clean does not return the number of removed entries")
		vrt.Assert(c.Count() == len(m.e), "the number of remaining entries is wrong")
	}
	m.same(c)
}

// C05_ten: caches large enough that 10% is a whole entry.
func C05_ten() {
	n := vrt.Bound("operations", 2, 3)
	max := 10 + vrt.Choose("maxitems", 3)
	c := xcore.NewXCache("id", max, 0)
	m := &cmodel{}
	for i := 0; i < max-1; i++ {
		k := letter(i)
		c.Set(k, i)
		m.lruSet(max, k, i)
	}
	for i := 0; i < n; i++ {
		k := vrt.Str("k", 1, 1, 'A', 'N')
		switch vrt.Choose("op", 3) {
		case 0:
			c.Set(k, 100+i)
			m.lruSet(max, k, 100+i)
		case 1:
			c.Get(k)
			if j := m.find(k); j >= 0 {
				m.touch(j)
			}
		case 2:
			c.Del(k)
			if j := m.find(k); j >= 0 {
				m.remove(j)
			}
		}
	}
	for i := 0; i < 3; i++ {
		k := letter(20 + i)
		c.Set(k, i)
		m.lruSet(max, k, i)
	}
	m.same(c)
}
