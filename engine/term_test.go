package main

import (
	"math/rand"
	"testing"
)

// The rewriter must keep the meaning of every term: random expressions are
// built through it and evaluated next to a direct evaluation.
func TestRewriting(t *testing.T) {
	for seed := int64(0); seed < 3000; seed++ {
		r := rand.New(rand.NewSource(seed))
		c := NewTermCtx()
		type tv struct {
			t *Term
			v uint64
		}
		m := Model{}
		var pool []tv
		ws := []int{8, 8, 16, 32, 64, 64}
		for i := 0; i < 4; i++ {
			w := ws[r.Intn(len(ws))]
			v := c.Var(string(rune('a'+i)), BV(w))
			val := r.Uint64() & mask(w)
			switch r.Intn(3) {
			case 0:
				val = uint64(r.Intn(70)) & mask(w)
			case 1:
				lo := uint64(r.Intn(100))
				hi := lo + uint64(r.Intn(100))
				v.ranged, v.lo, v.hi = true, lo, hi
				val = lo + uint64(r.Int63n(int64(hi-lo+1)))
			}
			m[v.name] = val
			pool = append(pool, tv{v, val})
		}
		var bools []tv
		pick := func(w int) tv {
			if r.Intn(4) == 0 {
				k := uint64(r.Intn(80)) & mask(w)
				if r.Intn(3) == 0 {
					k = (-k) & mask(w)
				}
				return tv{c.Const(w, k), k}
			}
			for i := 0; i < 20; i++ {
				p := pool[r.Intn(len(pool))]
				if p.t.sort.W == w {
					return p
				}
			}
			p := pool[r.Intn(len(pool))]
			s := r.Intn(2) == 0
			v := p.v
			if s && w > p.t.sort.W {
				v = uint64(sext(v, p.t.sort.W))
			}
			return tv{c.Resize(p.t, w, s), v & mask(w)}
		}
		check := func(what string, x tv) bool {
			if got := newEval(m).ev(x.t); got != x.v {
				t.Errorf("seed %d: %s: %v is %d, want %d (model %v)", seed, what, x.t, got, x.v, m)
				return false
			}
			return true
		}
		ops := []Op{OAdd, OAdd, OSub, OSub, OMul, OUDiv, OURem, OSDiv, OSRem, OBAnd, OBOr, OBXor, OShl, OLShr, OAShr}
		cmps := []Op{OUlt, OUle, OSlt, OSle, OEq}
		for i := 0; i < 25; i++ {
			w := ws[r.Intn(len(ws))]
			a, b := pick(w), pick(w)
			if r.Intn(2) == 0 {
				op := ops[r.Intn(len(ops))]
				if (op == OUDiv || op == OURem || op == OSDiv || op == OSRem) && b.v == 0 {
					continue
				}
				v, _ := foldBV(op, w, a.v, b.v)
				x := tv{c.Bin(op, a.t, b.t), v & mask(w)}
				if !check("bin", x) {
					break
				}
				pool = append(pool, x)
				continue
			}
			op := cmps[r.Intn(len(cmps))]
			var x tv
			if op == OEq {
				x = tv{c.Eq(a.t, b.t), b2u(a.v == b.v)}
			} else {
				x = tv{c.Cmp(op, a.t, b.t), b2u(foldCmp(op, w, a.v, b.v))}
			}
			if !check("cmp", x) {
				break
			}
			bools = append(bools, x)
			if len(bools) > 1 {
				p := bools[r.Intn(len(bools))]
				switch r.Intn(3) {
				case 0:
					x = tv{c.And(x.t, p.t), x.v & p.v}
				case 1:
					x = tv{c.Or(x.t, p.t), x.v | p.v}
				case 2:
					x = tv{c.Not(x.t), 1 - x.v}
				}
				if !check("bool", x) {
					break
				}
				bools = append(bools, x)
			}
			v := b.v
			if x.v == 1 {
				v = a.v
			}
			y := tv{c.Ite(x.t, a.t, b.t), v}
			if !check("ite", y) {
				break
			}
			pool = append(pool, y)
		}
	}
}
