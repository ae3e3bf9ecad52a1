package zzvh

import (
	vrt "github.com/webability-go/xcore/v2/zzvrt"
)

// C07_history: Get after any history equals the reference map, for any key.
func C07_history() {
	n := vrt.Bound("operations", 3, 4)
	kl := vrt.Bound("key_bytes", 1, 2)
	d := newDS(vrt.Choose("ts", 2) == 1)
	m := &assoc{}
	for i := 0; i < n; i++ {
		k := plainKey("k", 0, kl)
		if vrt.Choose("op", 2) == 0 {
			v := scalar("v")
			d.Set(k, v)
			m.set(k, v)
		} else {
			d.Del(k)
			m.del(k)
		}
	}
	q := plainKey("q", 0, kl)
	got, ok := d.Get(q)
	want, wok := m.get(q)
	vrt.Observe(got, ok)
	vrt.Assert(ok == wok, "Get reports presence wrongly")
	vrt.Assert(got == want, "Get returns a wrong value")
}
