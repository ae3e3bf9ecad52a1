package main

// Hash-consed SMT terms: booleans, bit-vectors (<= 64 bits) and IEEE floats.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KFP
)

type Sort struct {
	K Kind
	W int
}

var BoolSort = Sort{KBool, 1}

func BV(w int) Sort { return Sort{KBV, w} }
func FP(w int) Sort { return Sort{KFP, w} }

func (s Sort) String() string {
	switch s.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	default:
		if s.W == 32 {
			return "(_ FloatingPoint 8 24)"
		}
		return "(_ FloatingPoint 11 53)"
	}
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OExtract // val = hi<<8|lo
	OZExt
	OSExt
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFEq
	OFLt
	OFLe
	OFFromBits
	OFFromS
	OFFromU
	OFToS
	OFToU
	OFToF
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg",
	OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq",
}

type Term struct {
	op   Op
	sort Sort
	a    [3]*Term
	n    uint8
	val  uint64
	name string
	id   int32
	// variables declared with a range (unsigned)
	ranged bool
	lo, hi uint64
}

type termKey struct {
	op         Op
	k          Kind
	w          int
	a0, a1, a2 int32
	val        uint64
	name       string
}

type TermCtx struct {
	tab    map[termKey]*Term
	next   int32
	T, F   *Term
	bvc    [4][256]*Term // small constants for widths 8,16,32,64
	vars   []*Term
	ranges map[*Term]srange
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}, ranges: map[*Term]srange{}}
	c.T = c.mk(OConst, BoolSort, 1, "")
	c.F = c.mk(OConst, BoolSort, 0, "")
	return c
}

func (c *TermCtx) mk(op Op, s Sort, val uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, k: s.K, w: s.W, val: val, name: name, a0: -1, a1: -1, a2: -1}
	switch len(args) {
	case 3:
		k.a2 = args[2].id
		fallthrough
	case 2:
		k.a1 = args[1].id
		fallthrough
	case 1:
		k.a0 = args[0].id
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, sort: s, val: val, name: name, id: c.next, n: uint8(len(args))}
	copy(t.a[:], args)
	c.next++
	c.tab[k] = t
	return t
}

func (t *Term) IsConst() bool { return t.op == OConst }

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func wIdx(w int) int {
	switch w {
	case 8:
		return 0
	case 16:
		return 1
	case 32:
		return 2
	case 64:
		return 3
	}
	return -1
}

func (c *TermCtx) Const(w int, v uint64) *Term {
	v &= mask(w)
	if v < 256 {
		if i := wIdx(w); i >= 0 {
			if t := c.bvc[i][v]; t != nil {
				return t
			}
			t := c.mk(OConst, BV(w), v, "")
			c.bvc[i][v] = t
			return t
		}
	}
	return c.mk(OConst, BV(w), v, "")
}

func (c *TermCtx) FConst(w int, f float64) *Term {
	if w == 32 {
		return c.mk(OConst, FP(32), uint64(math.Float32bits(float32(f))), "")
	}
	return c.mk(OConst, FP(64), math.Float64bits(f), "")
}

func (c *TermCtx) Var(name string, s Sort) *Term {
	k := termKey{op: OVar, k: s.K, w: s.W, name: name, a0: -1, a1: -1, a2: -1}
	if t, ok := c.tab[k]; ok {
		return t
	}
	return c.mk(OVar, s, 0, name)
}

func (t *Term) Float() float64 {
	if t.sort.W == 32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}

func (c *TermCtx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	return c.mk(ONot, BoolSort, 0, "", a)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.a[0] == b || b.op == ONot && b.a[0] == a {
		return c.F
	}
	// x==k1 and x==k2
	if a.op == OEq && b.op == OEq && a.a[0] == b.a[0] && a.a[1].IsConst() && b.a[1].IsConst() && a.a[1] != b.a[1] {
		return c.F
	}
	return c.mk(OAnd, BoolSort, 0, "", a, b)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.op == OConst {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.a[0] == b || b.op == ONot && b.a[0] == a {
		return c.T
	}
	return c.mk(OOr, BoolSort, 0, "", a, b)
}

func (c *TermCtx) Ite(cd, a, b *Term) *Term {
	if cd.op == OConst {
		if cd.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort.K == KBool {
		if a.IsConst() && b.IsConst() {
			if a.val == 1 {
				return cd
			}
			return c.Not(cd)
		}
		if a.IsConst() {
			if a.val == 1 {
				return c.Or(cd, b)
			}
			return c.And(c.Not(cd), b)
		}
		if b.IsConst() {
			if b.val == 1 {
				return c.Or(c.Not(cd), a)
			}
			return c.And(cd, a)
		}
	}
	return c.mk(OIte, a.sort, 0, "", cd, a, b)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T // also for FP: structural equality ("="), not fp.eq
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.val == b.val)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a.sort.K == KBool {
		if b.IsConst() {
			if b.val == 1 {
				return a
			}
			return c.Not(a)
		}
	}
	if b.IsConst() && a.sort.K == KBV {
		switch a.op {
		case OZExt:
			iw := a.a[0].sort.W
			if b.val>>uint(iw) != 0 {
				return c.F
			}
			return c.Eq(a.a[0], c.Const(iw, b.val))
		case OSExt:
			iw := a.a[0].sort.W
			tr := b.val & mask(iw)
			if uint64(sext(tr, iw))&mask(a.sort.W) != b.val {
				return c.F
			}
			return c.Eq(a.a[0], c.Const(iw, tr))
		case OIte:
			if a.a[1].IsConst() && a.a[2].IsConst() {
				return c.Ite(a.a[0], c.Eq(a.a[1], b), c.Eq(a.a[2], b))
			}
			if a.a[1].IsConst() || a.a[2].IsConst() {
				return c.Ite(a.a[0], c.Eq(a.a[1], b), c.Eq(a.a[2], b))
			}
		case OAdd:
			if a.a[1].IsConst() {
				return c.Eq(a.a[0], c.Const(a.sort.W, b.val-a.a[1].val))
			}
		}
	}
	if a.sort.K == KBV && a.sort.W > 8 {
		if r := c.linCmp(OEq, a, b); r != nil {
			return r
		}
	}
	return c.eqRaw(a, b)
}

func (c *TermCtx) eqRaw(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		return c.Bool(a.val == b.val)
	}
	if a.op == OZExt {
		iw := a.a[0].sort.W
		if b.IsConst() {
			if b.val>>uint(iw) != 0 {
				return c.F
			}
			return c.eqRaw(a.a[0], c.Const(iw, b.val))
		}
		if b.op == OZExt && b.a[0].sort == a.a[0].sort {
			return c.eqRaw(a.a[0], b.a[0])
		}
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, BoolSort, 0, "", a, b)
}

func foldBV(op Op, w int, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx >= 0 {
				return m, true
			}
			return 1, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAShr:
		s := sext(x, w)
		if y >= uint64(w) {
			y = uint64(w - 1)
		}
		return uint64(s>>y) & m, true
	}
	return 0, false
}

func foldCmp(op Op, w int, x, y uint64) bool {
	switch op {
	case OUlt:
		return x < y
	case OUle:
		return x <= y
	case OSlt:
		return sext(x, w) < sext(y, w)
	default:
		return sext(x, w) <= sext(y, w)
	}
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.sort.W
	if a.sort != b.sort {
		panic(fmt.Sprintf("term sort mismatch %v %v op %d", a.sort, b.sort, op))
	}
	if a.IsConst() && b.IsConst() {
		v, _ := foldBV(op, w, a.val, b.val)
		return c.Const(w, v)
	}
	switch op {
	case OAdd:
		if w == 64 {
			if r := c.linSum(op, a, b); r != nil {
				return r
			}
		}
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.a[1].IsConst() {
				return c.Bin(OAdd, a.a[0], c.Const(w, a.a[1].val+b.val))
			}
		}
	case OSub:
		if a == b {
			return c.Const(w, 0)
		}
		if w == 64 {
			if r := c.linSum(op, a, b); r != nil {
				return r
			}
		}
		if b.IsConst() {
			return c.Bin(OAdd, a, c.Const(w, -b.val))
		}
		// (x+k) - x
		if a.op == OAdd && a.a[1].IsConst() && a.a[0] == b {
			return a.a[1]
		}
	case OMul:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OBAnd:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBOr, OBXor:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() && b.val == 0 {
			return a
		}
	case OShl, OLShr, OAShr:
		if b.IsConst() && b.val == 0 {
			return a
		}
	}
	if r := c.narrowBin(op, a, b); r != nil {
		return r
	}
	return c.mk(op, a.sort, 0, "", a, b)
}

func (c *TermCtx) Cmp(op Op, a, b *Term) *Term {
	if (op == OSlt || op == OSle) && a.sort.W > 8 && !(a.IsConst() && b.IsConst()) {
		if r := c.linCmp(op, a, b); r != nil {
			return r
		}
	}
	return c.cmpRaw(op, a, b)
}

func (c *TermCtx) cmpRaw(op Op, a, b *Term) *Term {
	w := a.sort.W
	if a.IsConst() && b.IsConst() {
		return c.Bool(foldCmp(op, w, a.val, b.val))
	}
	if a == b {
		return c.Bool(op == OUle || op == OSle)
	}
	// comparisons of zero-extended values with constants
	if a.op == OZExt && b.IsConst() {
		iw := a.a[0].sort.W
		signedNeg := (op == OSlt || op == OSle) && sext(b.val, w) < 0
		if signedNeg {
			return c.F
		}
		if b.val>>uint(iw) != 0 {
			return c.T
		}
		o := op
		if o == OSlt {
			o = OUlt
		} else if o == OSle {
			o = OUle
		}
		return c.cmpRaw(o, a.a[0], c.Const(iw, b.val))
	}
	if b.op == OZExt && a.IsConst() {
		iw := b.a[0].sort.W
		signedNeg := (op == OSlt || op == OSle) && sext(a.val, w) < 0
		if signedNeg {
			return c.T
		}
		if a.val>>uint(iw) != 0 {
			return c.F
		}
		o := op
		if o == OSlt {
			o = OUlt
		} else if o == OSle {
			o = OUle
		}
		return c.cmpRaw(o, c.Const(iw, a.val), b.a[0])
	}
	if op == OUlt || op == OUle {
		al, ah := c.urng(a)
		bl, bh := c.urng(b)
		if ah < bl || op == OUle && ah <= bl {
			return c.T
		}
		if al > bh || op == OUlt && al >= bh {
			return c.F
		}
	}
	if op == OUlt && b.IsConst() && b.val == 0 {
		return c.F
	}
	if op == OUle && a.IsConst() && a.val == 0 {
		return c.T
	}
	if op == OUle && b.IsConst() && b.val == mask(w) {
		return c.T
	}
	return c.mk(op, BoolSort, 0, "", a, b)
}

func (c *TermCtx) BNot(a *Term) *Term {
	if a.IsConst() {
		return c.Const(a.sort.W, ^a.val)
	}
	return c.mk(OBNot, a.sort, 0, "", a)
}
func (c *TermCtx) Neg(a *Term) *Term {
	if a.IsConst() {
		return c.Const(a.sort.W, -a.val)
	}
	return c.mk(ONeg, a.sort, 0, "", a)
}

func (c *TermCtx) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == a.sort.W {
		return a
	}
	if a.IsConst() {
		return c.Const(w, a.val>>uint(lo))
	}
	if (a.op == OZExt || a.op == OSExt) && lo == 0 {
		iw := a.a[0].sort.W
		if w == iw {
			return a.a[0]
		}
		if w < iw {
			return c.Extract(a.a[0], hi, 0)
		}
		return c.Ext(a.a[0], w, a.op == OSExt)
	}
	if lo == 0 {
		switch a.op {
		case OIte:
			return c.Ite(a.a[0], c.Extract(a.a[1], hi, 0), c.Extract(a.a[2], hi, 0))
		case OAdd, OSub, OMul:
			return c.mk2(a.op, c.Extract(a.a[0], hi, 0), c.Extract(a.a[1], hi, 0))
		case OExtract:
			if a.val&255 == 0 {
				return c.Extract(a.a[0], hi, 0)
			}
		}
	}
	return c.mk(OExtract, BV(w), uint64(hi)<<8|uint64(lo), "", a)
}

func (c *TermCtx) Ext(a *Term, w int, signed bool) *Term {
	if w == a.sort.W {
		return a
	}
	if a.IsConst() {
		if signed {
			return c.Const(w, uint64(sext(a.val, a.sort.W)))
		}
		return c.Const(w, a.val)
	}
	if signed && a.op == OZExt {
		return c.Ext(a.a[0], w, false)
	}
	op := OZExt
	if signed {
		op = OSExt
	}
	if a.op == op {
		return c.Ext(a.a[0], w, signed)
	}
	return c.mk(op, BV(w), 0, "", a)
}

// Resize converts between integer widths following Go conversion rules.
func (c *TermCtx) Resize(a *Term, w int, signedSrc bool) *Term {
	if w == a.sort.W {
		return a
	}
	if w < a.sort.W {
		return c.Extract(a, w-1, 0)
	}
	return c.Ext(a, w, signedSrc)
}

func (c *TermCtx) FBin(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		x, y := a.Float(), b.Float()
		if a.sort.W == 32 {
			fx, fy := float32(x), float32(y)
			var r float32
			switch op {
			case OFAdd:
				r = fx + fy
			case OFSub:
				r = fx - fy
			case OFMul:
				r = fx * fy
			case OFDiv:
				r = fx / fy
			}
			return c.FConst(32, float64(r))
		}
		var r float64
		switch op {
		case OFAdd:
			r = x + y
		case OFSub:
			r = x - y
		case OFMul:
			r = x * y
		case OFDiv:
			r = x / y
		}
		return c.FConst(64, r)
	}
	return c.mk(op, a.sort, 0, "", a, b)
}

func (c *TermCtx) FCmp(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		x, y := a.Float(), b.Float()
		switch op {
		case OFEq:
			return c.Bool(x == y)
		case OFLt:
			return c.Bool(x < y)
		default:
			return c.Bool(x <= y)
		}
	}
	return c.mk(op, BoolSort, 0, "", a, b)
}

func (c *TermCtx) FNeg(a *Term) *Term {
	if a.IsConst() {
		return c.FConst(a.sort.W, -a.Float())
	}
	return c.mk(OFNeg, a.sort, 0, "", a)
}

func (c *TermCtx) FFromBits(a *Term) *Term {
	if a.IsConst() {
		return c.mk(OConst, FP(a.sort.W), a.val, "")
	}
	return c.mk(OFFromBits, FP(a.sort.W), 0, "", a)
}

func (c *TermCtx) IntToF(a *Term, w int, signed bool) *Term {
	if a.IsConst() {
		if signed {
			v := sext(a.val, a.sort.W)
			if w == 32 {
				return c.FConst(32, float64(float32(v)))
			}
			return c.FConst(64, float64(v))
		}
		if w == 32 {
			return c.FConst(32, float64(float32(a.val)))
		}
		return c.FConst(64, float64(a.val))
	}
	if signed {
		return c.mk(OFFromS, FP(w), 0, "", a)
	}
	return c.mk(OFFromU, FP(w), 0, "", a)
}

func (c *TermCtx) FToInt(a *Term, w int, signed bool) *Term {
	if a.IsConst() {
		f := a.Float()
		if signed {
			return c.Const(w, uint64(int64(f)))
		}
		return c.Const(w, uint64(f))
	}
	if signed {
		return c.mk(OFToS, BV(w), 0, "", a)
	}
	return c.mk(OFToU, BV(w), 0, "", a)
}

func (c *TermCtx) FToF(a *Term, w int) *Term {
	if a.sort.W == w {
		return a
	}
	if a.IsConst() {
		return c.FConst(w, a.Float())
	}
	return c.mk(OFToF, FP(w), 0, "", a)
}

// ---- printing

func (t *Term) head(ref func(*Term) string) string {
	switch t.op {
	case OConst:
		switch t.sort.K {
		case KBool:
			if t.val == 1 {
				return "true"
			}
			return "false"
		case KBV:
			return bvLit(t.sort.W, t.val)
		default:
			if t.sort.W == 32 {
				return fmt.Sprintf("((_ to_fp 8 24) %s)", bvLit(32, t.val))
			}
			return fmt.Sprintf("((_ to_fp 11 53) %s)", bvLit(64, t.val))
		}
	case OVar:
		return t.name
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&255, ref(t.a[0]))
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.sort.W-t.a[0].sort.W, ref(t.a[0]))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.sort.W-t.a[0].sort.W, ref(t.a[0]))
	case OFFromBits:
		return fmt.Sprintf("((_ to_fp %s) %s)", ebsb(t.sort.W), ref(t.a[0]))
	case OFFromS:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", ebsb(t.sort.W), ref(t.a[0]))
	case OFFromU:
		return fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", ebsb(t.sort.W), ref(t.a[0]))
	case OFToF:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", ebsb(t.sort.W), ref(t.a[0]))
	case OFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.sort.W, ref(t.a[0]))
	case OFToU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.sort.W, ref(t.a[0]))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.op])
	for i := 0; i < int(t.n); i++ {
		sb.WriteByte(' ')
		sb.WriteString(ref(t.a[i]))
	}
	sb.WriteByte(')')
	return sb.String()
}

func ebsb(w int) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func bvLit(w int, v uint64) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

func (t *Term) String() string {
	return t.str(0)
}
func (t *Term) str(d int) string {
	if d > 12 {
		return "..."
	}
	return t.head(func(x *Term) string { return x.str(d + 1) })
}

// ---- evaluation under a model

type Model map[string]uint64

type evaluator struct {
	m    Model
	memo map[*Term]uint64
}

func newEval(m Model) *evaluator { return &evaluator{m: m, memo: map[*Term]uint64{}} }

func (e *evaluator) ev(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.op == OVar {
		return e.m[t.name]
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	v := e.ev1(t)
	e.memo[t] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaluator) fl(t *Term) float64 {
	v := e.ev(t)
	if t.sort.W == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func fbits(w int, f float64) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func (e *evaluator) ev1(t *Term) uint64 {
	switch t.op {
	case ONot:
		return 1 - e.ev(t.a[0])
	case OAnd:
		if e.ev(t.a[0]) == 0 {
			return 0
		}
		return e.ev(t.a[1])
	case OOr:
		if e.ev(t.a[0]) == 1 {
			return 1
		}
		return e.ev(t.a[1])
	case OEq:
		if t.a[0].sort.K == KFP {
			x, y := e.fl(t.a[0]), e.fl(t.a[1])
			if x != x && y != y {
				return 1
			}
		}
		return b2u(e.ev(t.a[0]) == e.ev(t.a[1]))
	case OIte:
		if e.ev(t.a[0]) == 1 {
			return e.ev(t.a[1])
		}
		return e.ev(t.a[2])
	case OUlt, OUle, OSlt, OSle:
		return b2u(foldCmp(t.op, t.a[0].sort.W, e.ev(t.a[0]), e.ev(t.a[1])))
	case OBNot:
		return ^e.ev(t.a[0]) & mask(t.sort.W)
	case ONeg:
		return -e.ev(t.a[0]) & mask(t.sort.W)
	case OExtract:
		return (e.ev(t.a[0]) >> (t.val & 255)) & mask(t.sort.W)
	case OZExt:
		return e.ev(t.a[0])
	case OSExt:
		return uint64(sext(e.ev(t.a[0]), t.a[0].sort.W)) & mask(t.sort.W)
	case OFFromBits:
		return e.ev(t.a[0])
	case OFFromS:
		v := sext(e.ev(t.a[0]), t.a[0].sort.W)
		if t.sort.W == 32 {
			return uint64(math.Float32bits(float32(v)))
		}
		return math.Float64bits(float64(v))
	case OFFromU:
		v := e.ev(t.a[0])
		if t.sort.W == 32 {
			return uint64(math.Float32bits(float32(v)))
		}
		return math.Float64bits(float64(v))
	case OFToS:
		return uint64(int64(e.fl(t.a[0]))) & mask(t.sort.W)
	case OFToU:
		return uint64(e.fl(t.a[0])) & mask(t.sort.W)
	case OFToF:
		return fbits(t.sort.W, e.fl(t.a[0]))
	case OFNeg:
		return fbits(t.sort.W, -e.fl(t.a[0]))
	case OFEq:
		return b2u(e.fl(t.a[0]) == e.fl(t.a[1]))
	case OFLt:
		return b2u(e.fl(t.a[0]) < e.fl(t.a[1]))
	case OFLe:
		return b2u(e.fl(t.a[0]) <= e.fl(t.a[1]))
	case OFAdd, OFSub, OFMul, OFDiv:
		x, y := e.fl(t.a[0]), e.fl(t.a[1])
		var r float64
		if t.sort.W == 32 {
			a, b := float32(x), float32(y)
			var q float32
			switch t.op {
			case OFAdd:
				q = a + b
			case OFSub:
				q = a - b
			case OFMul:
				q = a * b
			default:
				q = a / b
			}
			r = float64(q)
		} else {
			switch t.op {
			case OFAdd:
				r = x + y
			case OFSub:
				r = x - y
			case OFMul:
				r = x * y
			default:
				r = x / y
			}
		}
		return fbits(t.sort.W, r)
	}
	v, ok := foldBV(t.op, t.sort.W, e.ev(t.a[0]), e.ev(t.a[1]))
	if !ok {
		panic("eval: op " + fmt.Sprint(t.op))
	}
	return v
}

var _ = bits.Len
