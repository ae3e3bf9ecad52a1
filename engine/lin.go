package main

// Ranges and linear normal forms of bit-vector terms. They let comparisons of
// sums (instants, lengths) be decided or narrowed before the solver sees them.

import (
	"math"
	"math/big"
	"math/bits"
	"sort"
)

type srange struct{ lo, hi int64 }

func fullRange(w int) srange {
	if w >= 64 {
		return srange{math.MinInt64, math.MaxInt64}
	}
	return srange{-(1 << uint(w-1)), 1<<uint(w-1) - 1}
}

// urng bounds t read as an unsigned number.
func (c *TermCtx) urng(t *Term) (lo, hi uint64) {
	w := t.sort.W
	switch t.op {
	case OConst:
		return t.val, t.val
	case OVar:
		if t.ranged {
			return t.lo, t.hi
		}
	case OZExt:
		return c.urng(t.a[0])
	case OExtract:
		if t.val&255 == 0 {
			l, h := c.urng(t.a[0])
			if h <= mask(w) {
				return l, h
			}
		}
	case OAdd, OSub, OMul, OIte, OSDiv, OSRem:
		r := c.srng(t)
		if r.lo >= 0 {
			return uint64(r.lo), uint64(r.hi)
		}
	case OUDiv:
		l, h := c.urng(t.a[0])
		if d := t.a[1]; d.IsConst() && d.val > 0 {
			return l / d.val, h / d.val
		}
	case OURem:
		if d := t.a[1]; d.IsConst() && d.val > 0 {
			_, h := c.urng(t.a[0])
			if h > d.val-1 {
				h = d.val - 1
			}
			return 0, h
		}
	case OBAnd:
		_, h := c.urng(t.a[0])
		_, h2 := c.urng(t.a[1])
		if h2 < h {
			h = h2
		}
		return 0, h
	case OLShr:
		_, h := c.urng(t.a[0])
		if t.a[1].IsConst() && t.a[1].val < 64 {
			return 0, h >> t.a[1].val
		}
		return 0, h
	}
	return 0, mask(w)
}

// srng bounds t read as a signed number.
func (c *TermCtx) srng(t *Term) srange {
	if t.IsConst() {
		v := sext(t.val, t.sort.W)
		return srange{v, v}
	}
	if r, ok := c.ranges[t]; ok {
		return r
	}
	r := c.srng1(t)
	c.ranges[t] = r
	return r
}

func (c *TermCtx) srng1(t *Term) srange {
	w := t.sort.W
	full := fullRange(w)
	fit := func(lo, hi *big.Int) srange {
		if lo.IsInt64() && hi.IsInt64() {
			r := srange{lo.Int64(), hi.Int64()}
			if r.lo >= full.lo && r.hi <= full.hi {
				return r
			}
		}
		return full
	}
	switch t.op {
	case OVar, OZExt, OUDiv, OURem, OBAnd, OExtract, OLShr:
		_, uh := c.urng(t)
		if uh <= uint64(full.hi) {
			l, _ := c.urng(t)
			return srange{int64(l), int64(uh)}
		}
		if t.op == OUDiv || t.op == OURem {
			return full
		}
	case OSExt:
		return c.srng(t.a[0])
	case OAdd, OSub, OMul:
		a, b := c.srng(t.a[0]), c.srng(t.a[1])
		al, ah, bl, bh := big.NewInt(a.lo), big.NewInt(a.hi), big.NewInt(b.lo), big.NewInt(b.hi)
		switch t.op {
		case OAdd:
			return fit(new(big.Int).Add(al, bl), new(big.Int).Add(ah, bh))
		case OSub:
			return fit(new(big.Int).Sub(al, bh), new(big.Int).Sub(ah, bl))
		}
		var lo, hi *big.Int
		for _, x := range []*big.Int{al, ah} {
			for _, y := range []*big.Int{bl, bh} {
				p := new(big.Int).Mul(x, y)
				if lo == nil || p.Cmp(lo) < 0 {
					lo = p
				}
				if hi == nil || p.Cmp(hi) > 0 {
					hi = p
				}
			}
		}
		return fit(lo, hi)
	case OIte:
		a, b := c.srng(t.a[1]), c.srng(t.a[2])
		if b.lo < a.lo {
			a.lo = b.lo
		}
		if b.hi > a.hi {
			a.hi = b.hi
		}
		return a
	case OSDiv:
		if d := t.a[1]; d.IsConst() {
			if dv := sext(d.val, w); dv > 0 {
				a := c.srng(t.a[0])
				return srange{a.lo / dv, a.hi / dv}
			}
		}
	case OSRem:
		if d := t.a[1]; d.IsConst() {
			if dv := sext(d.val, w); dv > 0 {
				a := c.srng(t.a[0])
				r := srange{-(dv - 1), dv - 1}
				if a.lo >= 0 {
					r.lo = 0
				}
				return r
			}
		}
	}
	return full
}

// exactSum tells that the sum or difference cannot wrap around.
func (c *TermCtx) exactSum(op Op, a, b *Term) bool {
	x, y := c.srng(a), c.srng(b)
	full := fullRange(a.sort.W)
	var lo, hi big.Int
	if op == OAdd {
		lo.Add(big.NewInt(x.lo), big.NewInt(y.lo))
		hi.Add(big.NewInt(x.hi), big.NewInt(y.hi))
	} else {
		lo.Sub(big.NewInt(x.lo), big.NewInt(y.hi))
		hi.Sub(big.NewInt(x.hi), big.NewInt(y.lo))
	}
	return lo.IsInt64() && hi.IsInt64() && lo.Int64() >= full.lo && hi.Int64() <= full.hi
}

// linForm is k + sum of coef*atom over the integers.
type linForm struct {
	k     int64
	coef  map[*Term]int64
	valid bool
}

const coefMax = 1 << 20

func (c *TermCtx) lin(t *Term, sign int64, f *linForm) {
	if !f.valid {
		return
	}
	if t.IsConst() {
		v := sext(t.val, t.sort.W)
		if v == math.MinInt64 {
			f.valid = false
			return
		}
		p := new(big.Int).Mul(big.NewInt(v), big.NewInt(sign))
		p.Add(p, big.NewInt(f.k))
		if !p.IsInt64() {
			f.valid = false
			return
		}
		f.k = p.Int64()
		return
	}
	switch t.op {
	case OAdd, OSub:
		if c.exactSum(t.op, t.a[0], t.a[1]) {
			c.lin(t.a[0], sign, f)
			s := sign
			if t.op == OSub {
				s = -sign
			}
			c.lin(t.a[1], s, f)
			return
		}
	}
	n := f.coef[t] + sign
	if n > coefMax || n < -coefMax {
		f.valid = false
		return
	}
	if n == 0 {
		delete(f.coef, t)
	} else {
		f.coef[t] = n
	}
	if len(f.coef) > 24 {
		f.valid = false
	}
}

func (c *TermCtx) newLin() *linForm { return &linForm{coef: map[*Term]int64{}, valid: true} }

// bounds of the form over the integers
func (c *TermCtx) linBounds(f *linForm) (lo, hi *big.Int) {
	lo, hi = big.NewInt(f.k), big.NewInt(f.k)
	for t, k := range f.coef {
		r := c.srng(t)
		a := new(big.Int).Mul(big.NewInt(r.lo), big.NewInt(k))
		b := new(big.Int).Mul(big.NewInt(r.hi), big.NewInt(k))
		if k < 0 {
			a, b = b, a
		}
		lo.Add(lo, a)
		hi.Add(hi, b)
	}
	return
}

func (f *linForm) atoms() []*Term {
	r := make([]*Term, 0, len(f.coef))
	for t := range f.coef {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// narrow is the low w bits of t.
func (c *TermCtx) narrow(t *Term, w int) *Term {
	if w >= t.sort.W {
		return t
	}
	return c.Extract(t, w-1, 0)
}

// linTerm rebuilds part of a form at width w: the terms with a positive
// coefficient (pos) or the negated ones with a negative coefficient.
func (c *TermCtx) linTerm(f *linForm, w int, pos bool) *Term {
	var s *Term
	for _, t := range f.atoms() {
		k := f.coef[t]
		if (k > 0) != pos {
			continue
		}
		if k < 0 {
			k = -k
		}
		x := c.narrow(t, w)
		if k != 1 {
			x = c.mk2(OMul, x, c.Const(w, uint64(k)))
		}
		if s == nil {
			s = x
		} else {
			s = c.mk2(OAdd, s, x)
		}
	}
	k := f.k
	if (k > 0) == pos && k != 0 {
		if k < 0 {
			k = -k
		}
		kt := c.Const(w, uint64(k))
		if s == nil {
			s = kt
		} else {
			s = c.mk2(OAdd, s, kt)
		}
	}
	if s == nil {
		s = c.Const(w, 0)
	}
	return s
}

func (c *TermCtx) mk2(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		v, _ := foldBV(op, a.sort.W, a.val, b.val)
		return c.Const(a.sort.W, v)
	}
	return c.mk(op, a.sort, 0, "", a, b)
}

// linSum normalises a sum that cannot wrap around; nil when it may.
func (c *TermCtx) linSum(op Op, a, b *Term) *Term {
	if !c.exactSum(op, a, b) {
		return nil
	}
	f := c.newLin()
	c.lin(a, 1, f)
	if op == OAdd {
		c.lin(b, 1, f)
	} else {
		c.lin(b, -1, f)
	}
	if !f.valid {
		return nil
	}
	w := a.sort.W
	if len(f.coef) == 0 {
		return c.Const(w, uint64(f.k))
	}
	// every partial sum of the rebuilt term must be exact too
	lo, hi := c.linBounds(f)
	full := fullRange(w)
	if !lo.IsInt64() || !hi.IsInt64() || lo.Int64() < full.lo || hi.Int64() > full.hi {
		return nil
	}
	var s *Term
	for _, t := range f.atoms() {
		k := f.coef[t]
		if k < 0 {
			continue
		}
		x := t
		if k != 1 {
			x = c.mk2(OMul, x, c.Const(w, uint64(k)))
		}
		if s == nil {
			s = x
		} else {
			s = c.mk2(OAdd, s, x)
		}
	}
	if f.k != 0 || s == nil {
		kt := c.Const(w, uint64(f.k))
		if s == nil {
			s = kt
		} else {
			s = c.mk2(OAdd, s, kt)
		}
	}
	for _, t := range f.atoms() {
		k := f.coef[t]
		if k > 0 {
			continue
		}
		x := t
		if k != -1 {
			x = c.mk2(OMul, x, c.Const(w, uint64(-k)))
		}
		s = c.mk2(OSub, s, x)
	}
	return s
}

// linCmp decides or narrows a signed comparison (or equality); nil when it
// has nothing to offer.
func (c *TermCtx) linCmp(op Op, a, b *Term) *Term {
	w := a.sort.W
	f := c.newLin()
	c.lin(a, 1, f)
	c.lin(b, -1, f)
	if !f.valid {
		return nil
	}
	lo, hi := c.linBounds(f)
	switch op {
	case OSlt:
		if hi.Sign() < 0 {
			return c.T
		}
		if lo.Sign() >= 0 {
			return c.F
		}
	case OSle:
		if hi.Sign() <= 0 {
			return c.T
		}
		if lo.Sign() > 0 {
			return c.F
		}
	case OEq:
		if lo.Sign() > 0 || hi.Sign() < 0 {
			return c.F
		}
		if lo.Sign() == 0 && hi.Sign() == 0 {
			return c.T
		}
	}
	// sum of positive parts against sum of negated parts, as narrow as possible
	var mag big.Int
	add := func(k int64, r srange) {
		for _, v := range []int64{r.lo, r.hi} {
			x := new(big.Int).Mul(big.NewInt(k), big.NewInt(v))
			x.Abs(x)
			if v == r.hi {
				y := new(big.Int).Mul(big.NewInt(k), big.NewInt(r.lo))
				y.Abs(y)
				if y.Cmp(x) > 0 {
					x = y
				}
				mag.Add(&mag, x)
				return
			}
		}
	}
	for t, k := range f.coef {
		add(k, c.srng(t))
	}
	add(1, srange{f.k, f.k})
	nw := mag.BitLen() + 2
	if nw > w {
		nw = w
		if mag.BitLen() > w-1 {
			return nil
		}
	}
	l, r := c.linTerm(f, nw, true), c.linTerm(f, nw, false)
	if l == a && r == b || nw == w && len(f.coef) >= 2 && a.op != OAdd && a.op != OSub && b.op != OAdd && b.op != OSub {
		return nil
	}
	if op == OEq {
		return c.eqRaw(l, r)
	}
	return c.cmpRaw(op, l, r)
}

// narrowBin computes a product, quotient or remainder of small non-negative
// numbers at a smaller width.
func (c *TermCtx) narrowBin(op Op, a, b *Term) *Term {
	w := a.sort.W
	if w <= 16 {
		return nil
	}
	_, ah := c.urng(a)
	_, bh := c.urng(b)
	var nw int
	nop := op
	switch op {
	case OMul:
		hi, lo := bits.Mul64(ah, bh)
		if hi != 0 {
			return nil
		}
		nw = bits.Len64(lo)
	case OUDiv, OURem, OSDiv, OSRem:
		if op == OSDiv || op == OSRem {
			full := fullRange(w)
			if ah > uint64(full.hi) || bh > uint64(full.hi) {
				return nil
			}
			if bl, _ := c.urng(b); bl == 0 {
				return nil
			}
			nop = OUDiv
			if op == OSRem {
				nop = OURem
			}
		}
		if bl, _ := c.urng(b); bl == 0 {
			return nil
		}
		nw = bits.Len64(ah)
		if n := bits.Len64(bh); n > nw {
			nw = n
		}
	default:
		return nil
	}
	if nw == 0 {
		nw = 1
	}
	if nw >= w-8 {
		return nil
	}
	return c.Ext(c.Bin(nop, c.narrow(a, nw), c.narrow(b, nw)), w, false)
}
