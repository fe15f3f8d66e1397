package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Hash-consed SMT terms over booleans and bit-vectors of width 1..64.

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	ONot
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // v = hi<<8|lo
	OZext
	OSext
	OIte
	// boolean
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
)

var opNames = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat",
	OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not"}

type Term struct {
	id         int32
	op         Op
	w          uint8 // 0 = bool
	v          uint64
	a, b, c    *Term
	lo, hi     uint64 // unsigned range
	slo, shi   int64  // signed range (value sign-extended from w)
	name       string
	emitEpoch  int32
	evalEpoch  int64
	evalVal    uint64
	cacheEpoch int64
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isBool() bool  { return t.w == 0 }

type tkey struct {
	op      Op
	w       uint8
	v       uint64
	a, b, c int32
}

type TCtx struct {
	tab      map[tkey]*Term
	vars     map[string]*Term
	next     int32
	epoch    int64
	True     *Term
	False    *Term
	small    [9][257]*Term
	i64      [1025]*Term
	varSeq   []*Term
	solEpoch int32
}

func NewTCtx() *TCtx {
	c := &TCtx{tab: map[tkey]*Term{}, vars: map[string]*Term{}}
	c.False = c.mk(OConst, 0, 0, nil, nil, nil)
	c.True = c.mk(OConst, 0, 1, nil, nil, nil)
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func idOf(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (c *TCtx) mk(op Op, w uint8, v uint64, x, y, z *Term) *Term {
	k := tkey{op, w, v, idOf(x), idOf(y), idOf(z)}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{id: c.next, op: op, w: w, v: v, a: x, b: y, c: z}
	c.next++
	c.setRange(t)
	c.tab[k] = t
	return t
}

func (c *TCtx) setRange(t *Term) {
	if t.w == 0 {
		return
	}
	m := mask(t.w)
	smin, smax := sext64(uint64(1)<<(t.w-1), t.w), int64(m>>1)
	t.lo, t.hi, t.slo, t.shi = 0, m, smin, smax
	sset := func(lo, hi int64, ok bool) {
		if ok && lo >= smin && hi <= smax && lo <= hi {
			t.slo, t.shi = lo, hi
		}
	}
	x, y := t.a, t.b
	switch t.op {
	case OConst:
		t.lo, t.hi = t.v, t.v
		t.slo = sext64(t.v, t.w)
		t.shi = t.slo
		return
	case OAdd:
		lo, c1 := bits.Add64(x.lo, y.lo, 0)
		hi, c2 := bits.Add64(x.hi, y.hi, 0)
		if c1 == 0 && c2 == 0 && hi <= m {
			t.lo, t.hi = lo, hi
		}
		sl, ok1 := addOv(x.slo, y.slo)
		sh, ok2 := addOv(x.shi, y.shi)
		sset(sl, sh, ok1 && ok2)
	case OSub:
		if x.lo >= y.hi {
			t.lo, t.hi = x.lo-y.hi, x.hi-y.lo
		}
		sl, ok1 := subOv(x.slo, y.shi)
		sh, ok2 := subOv(x.shi, y.slo)
		sset(sl, sh, ok1 && ok2)
	case OMul:
		h, l := bits.Mul64(x.hi, y.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = x.lo*y.lo, l
		}
		if y.isConst() && sext64(y.v, y.w) > 0 {
			k := sext64(y.v, y.w)
			sl, ok1 := mulOv(x.slo, k)
			sh, ok2 := mulOv(x.shi, k)
			sset(sl, sh, ok1 && ok2)
		}
	case OUDiv:
		if y.lo > 0 {
			t.lo, t.hi = x.lo/y.hi, x.hi/y.lo
		}
	case OURem:
		if y.lo > 0 {
			t.hi = y.hi - 1
			if x.hi < t.hi {
				t.hi = x.hi
			}
		}
	case OSDiv:
		if y.isConst() && sext64(y.v, y.w) > 0 {
			k := sext64(y.v, y.w)
			sset(x.slo/k, x.shi/k, true)
		}
	case OSRem:
		if y.isConst() && sext64(y.v, y.w) > 0 {
			k := sext64(y.v, y.w)
			sset(-(k - 1), k-1, true)
		}
	case OAnd:
		t.hi = x.hi
		if y.hi < t.hi {
			t.hi = y.hi
		}
	case OOr, OXor:
		n := bits.Len64(x.hi | y.hi)
		if n < 64 {
			t.hi = (uint64(1) << n) - 1
		}
		if t.op == OOr {
			t.lo = x.lo
			if y.lo > t.lo {
				t.lo = y.lo
			}
		}
	case OShl:
		if y.isConst() && y.v < 64 && bits.Len64(x.hi)+int(y.v) <= int(t.w) {
			t.lo, t.hi = x.lo<<y.v, x.hi<<y.v
		}
	case OLshr:
		if y.isConst() && y.v < 64 {
			t.lo, t.hi = x.lo>>y.v, x.hi>>y.v
		} else {
			t.hi = x.hi
		}
	case OAshr:
		if y.isConst() && y.v < 64 {
			sset(x.slo>>y.v, x.shi>>y.v, true)
		}
	case OConcat:
		t.lo = x.lo<<y.w | y.lo
		t.hi = x.hi<<y.w | y.hi
	case OExtract:
		h, l := uint8(t.v>>8), uint8(t.v)
		_ = h
		if x.hi>>l <= m {
			t.lo, t.hi = x.lo>>l, x.hi>>l
			if t.lo > t.hi {
				t.lo = 0
			}
		}
		if l == 0 {
			sset(x.slo, x.shi, x.slo >= smin && x.shi <= smax)
		}
	case OZext:
		t.lo, t.hi = x.lo, x.hi
	case OSext:
		sset(x.slo, x.shi, true)
	case OIte:
		t.lo, t.hi = y.lo, y.hi
		if t.c.lo < t.lo {
			t.lo = t.c.lo
		}
		if t.c.hi > t.hi {
			t.hi = t.c.hi
		}
		t.slo, t.shi = y.slo, y.shi
		if t.c.slo < t.slo {
			t.slo = t.c.slo
		}
		if t.c.shi > t.shi {
			t.shi = t.c.shi
		}
	}
	c.cross(t)
}

// cross refines the signed range from the unsigned one and conversely.
func (c *TCtx) cross(t *Term) {
	m := mask(t.w)
	half := m >> 1
	if t.hi <= half {
		if int64(t.lo) > t.slo {
			t.slo = int64(t.lo)
		}
		if int64(t.hi) < t.shi {
			t.shi = int64(t.hi)
		}
	} else if t.lo > half {
		l, h := sext64(t.lo, t.w), sext64(t.hi, t.w)
		if l > t.slo {
			t.slo = l
		}
		if h < t.shi {
			t.shi = h
		}
	}
	if t.slo >= 0 {
		if uint64(t.slo) > t.lo {
			t.lo = uint64(t.slo)
		}
		if uint64(t.shi) < t.hi {
			t.hi = uint64(t.shi)
		}
	} else if t.shi < 0 {
		l, h := uint64(t.slo)&m, uint64(t.shi)&m
		if l > t.lo {
			t.lo = l
		}
		if h < t.hi {
			t.hi = h
		}
	}
}

func addOv(a, b int64) (int64, bool) {
	s := a + b
	return s, !((a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0))
}
func subOv(a, b int64) (int64, bool) {
	s := a - b
	return s, !((a >= 0 && b < 0 && s < 0) || (a < 0 && b > 0 && s >= 0))
}
func mulOv(a, k int64) (int64, bool) {
	if a == 0 {
		return 0, true
	}
	p := a * k
	return p, p/k == a && !(a == -1<<63 && k == -1)
}

func (c *TCtx) BV(v uint64, w uint8) *Term {
	v &= mask(w)
	if w == 8 {
		if t := c.small[8][v]; t != nil {
			return t
		}
		t := c.mk(OConst, 8, v, nil, nil, nil)
		c.small[8][v] = t
		return t
	}
	if w == 64 && v < 1025 {
		if t := c.i64[v]; t != nil {
			return t
		}
		t := c.mk(OConst, 64, v, nil, nil, nil)
		c.i64[v] = t
		return t
	}
	return c.mk(OConst, w, v, nil, nil, nil)
}

func (c *TCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Var makes (or finds) a variable; lo/hi is its declared signed range.
func (c *TCtx) Var(name string, w uint8, slo, shi int64, ranged bool) *Term {
	key := name
	if t, ok := c.vars[key]; ok {
		if t.w != w {
			panic("variable redeclared with another width: " + name)
		}
		return t
	}
	t := &Term{id: c.next, op: OVar, w: w, name: name, v: uint64(len(c.varSeq))}
	c.next++
	c.setRange(t)
	if ranged && w > 0 {
		t.slo, t.shi = slo, shi
		c.cross(t)
	}
	c.vars[key] = t
	c.varSeq = append(c.varSeq, t)
	return t
}

func (c *TCtx) Not(x *Term) *Term {
	switch x.op {
	case OConst:
		return c.Bool(x.v == 0)
	case OBNot:
		return x.a
	case OUlt:
		return c.mkCmp(OUle, x.b, x.a)
	case OUle:
		return c.mkCmp(OUlt, x.b, x.a)
	case OSlt:
		return c.mkCmp(OSle, x.b, x.a)
	case OSle:
		return c.mkCmp(OSlt, x.b, x.a)
	}
	return c.mk(OBNot, 0, 0, x, nil, nil)
}

func (c *TCtx) And(x, y *Term) *Term {
	if x == y || y == c.True {
		return x
	}
	if x == c.True {
		return y
	}
	if x == c.False || y == c.False {
		return c.False
	}
	if c.neg(x, y) {
		return c.False
	}
	if x.id > y.id {
		x, y = y, x
	}
	// absorption: x & (x & z)
	if y.op == OBAnd && (y.a == x || y.b == x) {
		return y
	}
	if x.op == OBAnd && (x.a == y || x.b == y) {
		return x
	}
	return c.mk(OBAnd, 0, 0, x, y, nil)
}

func (c *TCtx) neg(x, y *Term) bool {
	if x.op == OBNot && x.a == y || y.op == OBNot && y.a == x {
		return true
	}
	if (x.op == OUlt && y.op == OUle || x.op == OUle && y.op == OUlt || x.op == OSlt && y.op == OSle || x.op == OSle && y.op == OSlt) && x.a == y.b && x.b == y.a {
		return true
	}
	return false
}

func (c *TCtx) Or(x, y *Term) *Term {
	if x == y || y == c.False {
		return x
	}
	if x == c.False {
		return y
	}
	if x == c.True || y == c.True {
		return c.True
	}
	if c.neg(x, y) {
		return c.True
	}
	if x.id > y.id {
		x, y = y, x
	}
	if y.op == OBOr && (y.a == x || y.b == x) {
		return y
	}
	if x.op == OBOr && (x.a == y || x.b == y) {
		return x
	}
	return c.mk(OBOr, 0, 0, x, y, nil)
}

func (c *TCtx) Ite(k, x, y *Term) *Term {
	if k == c.True || x == y {
		return x
	}
	if k == c.False {
		return y
	}
	if k.op == OBNot {
		return c.Ite(k.a, y, x)
	}
	if x.w == 0 {
		if x == c.True {
			return c.Or(k, y)
		}
		if x == c.False {
			return c.And(c.Not(k), y)
		}
		if y == c.True {
			return c.Or(c.Not(k), x)
		}
		if y == c.False {
			return c.And(k, x)
		}
	}
	if x.op == OIte && x.a == k {
		x = x.b
	}
	if y.op == OIte && y.a == k {
		y = y.c
	}
	if x == y {
		return x
	}
	return c.mk(OIte, x.w, 0, k, x, y)
}

func (c *TCtx) Eq(x, y *Term) *Term {
	if x == y {
		return c.True
	}
	if x.w != y.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", x.w, y.w))
	}
	if x.isConst() && y.isConst() {
		return c.Bool(x.v == y.v)
	}
	if x.w == 0 {
		if x.isConst() {
			x, y = y, x
		}
		if y == c.True {
			return x
		}
		if y == c.False {
			return c.Not(x)
		}
	} else {
		if x.hi < y.lo || y.hi < x.lo || x.shi < y.slo || y.shi < x.slo {
			return c.False
		}
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			switch x.op {
			case OIte:
				if x.b.isConst() || x.c.isConst() {
					e1, e2 := c.Eq(x.b, y), c.Eq(x.c, y)
					return c.Ite(x.a, e1, e2)
				}
			case OZext:
				if y.v <= mask(x.a.w) {
					return c.Eq(x.a, c.BV(y.v, x.a.w))
				}
				return c.False
			case OAdd:
				if x.b.isConst() {
					return c.Eq(x.a, c.BV(y.v-x.b.v, x.w))
				}
			case OXor:
				if x.b.isConst() {
					return c.Eq(x.a, c.BV(y.v^x.b.v, x.w))
				}
			case OConcat:
				return c.And(c.Eq(x.a, c.BV(y.v>>x.b.w, x.a.w)), c.Eq(x.b, c.BV(y.v, x.b.w)))
			}
		} else {
			if (x.op == OAdd && y.op == OAdd || x.op == OXor && y.op == OXor) && x.b == y.b {
				return c.Eq(x.a, y.a)
			}
			if x.op == OZext && y.op == OZext && x.a.w == y.a.w {
				return c.Eq(x.a, y.a)
			}
			if x.op == OConcat && y.op == OConcat && x.a.w == y.a.w {
				return c.And(c.Eq(x.a, y.a), c.Eq(x.b, y.b))
			}
			if p, q, ok := c.affPair(x, y); ok {
				return c.And(c.Eq(p[0], q[0]), c.Eq(p[1], q[1]))
			}
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(OEq, 0, 0, x, y, nil)
}

// aff splits t = k*q + r with 0 <= r < k and k*q not overflowing (signed).
func (c *TCtx) aff(t *Term, want uint64) (q, r *Term, k uint64, ok bool) {
	switch {
	case t.op == OMul && t.b.isConst() && t.b.v > 1 && t.b.v < 1<<40:
		k = t.b.v
		if _, o := mulOv(t.a.slo, int64(k)); !o {
			return
		}
		if _, o := mulOv(t.a.shi, int64(k)); !o {
			return
		}
		return t.a, c.BV(0, t.w), k, true
	case t.op == OAdd:
		m, o := t.a, t.b
		if m.op != OMul && (m.op != OAdd || o.op == OMul) {
			m, o = o, m
		}
		if m.op != OMul && m.op != OAdd {
			return
		}
		q, r, k, ok = c.aff(m, want)
		if !ok {
			return
		}
		q, r, ok = c.affAdd(q, r, k, o)
		return
	case t.isConst() && want > 1:
		v := sext64(t.v, t.w)
		k := int64(want)
		qq := v / k
		rr := v % k
		if rr < 0 {
			rr += k
			qq--
		}
		return c.BV(uint64(qq), t.w), c.BV(uint64(rr), t.w), want, true
	}
	return
}

// affAdd adds o to k*q + r with 0<=r<k, unless it may overflow.
func (c *TCtx) affAdd(q, r *Term, k uint64, o *Term) (*Term, *Term, bool) {
	if r.isConst() && r.v == 0 && o.lo <= o.hi && o.hi < k && o.slo >= 0 {
		r = o
	} else {
		K, w := int64(k), q.w
		if o.slo < -(1<<62) || o.shi > 1<<62 {
			return nil, nil, false
		}
		s := o.slo / K
		if o.slo%K < 0 {
			s--
		}
		top := o.shi - s*K + r.shi
		if top >= 2*K || top < 0 {
			return nil, nil, false
		}
		sum := c.Bin(OAdd, r, c.Bin(OSub, o, c.BV(uint64(s*K), w)))
		if top < K {
			q, r = c.Bin(OAdd, q, c.BV(uint64(s), w)), sum
		} else {
			more := c.Sle(c.BV(k, w), sum)
			q = c.Bin(OAdd, q, c.Ite(more, c.BV(uint64(s+1), w), c.BV(uint64(s), w)))
			r = c.Bin(OSub, sum, c.Ite(more, c.BV(k, w), c.BV(0, w)))
			if r.slo < 0 || r.shi >= K {
				r.lo, r.hi, r.slo, r.shi = 0, k-1, 0, K-1
			}
		}
	}
	for _, b := range []int64{q.slo, q.shi} {
		p, fits := mulOv(b, int64(k))
		if !fits {
			return nil, nil, false
		}
		if _, fits = addOv(p, int64(k)); !fits {
			return nil, nil, false
		}
	}
	return q, r, true
}

func (c *TCtx) affPair(x, y *Term) (p, q [2]*Term, ok bool) {
	if x.w != 64 {
		return
	}
	q1, r1, k1, ok1 := c.aff(x, 0)
	var q2, r2 *Term
	var k2 uint64
	var ok2 bool
	if ok1 {
		q2, r2, k2, ok2 = c.aff(y, k1)
	} else {
		q2, r2, k2, ok2 = c.aff(y, 0)
		if ok2 {
			q1, r1, k1, ok1 = c.aff(x, k2)
		}
	}
	if !ok1 || !ok2 || k1 != k2 {
		return
	}
	return [2]*Term{q1, r1}, [2]*Term{q2, r2}, true
}

func (c *TCtx) Ult(x, y *Term) *Term { return c.mkCmp(OUlt, x, y) }
func (c *TCtx) Ule(x, y *Term) *Term { return c.mkCmp(OUle, x, y) }
func (c *TCtx) Slt(x, y *Term) *Term { return c.mkCmp(OSlt, x, y) }
func (c *TCtx) Sle(x, y *Term) *Term { return c.mkCmp(OSle, x, y) }

func (c *TCtx) mkCmp(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("cmp width mismatch %d %d", x.w, y.w))
	}
	if x == y {
		return c.Bool(op == OUle || op == OSle)
	}
	switch op {
	case OUlt:
		if x.hi < y.lo {
			return c.True
		}
		if x.lo >= y.hi {
			return c.False
		}
	case OUle:
		if x.hi <= y.lo {
			return c.True
		}
		if x.lo > y.hi {
			return c.False
		}
	case OSlt:
		if x.shi < y.slo {
			return c.True
		}
		if x.slo >= y.shi {
			return c.False
		}
	case OSle:
		if x.shi <= y.slo {
			return c.True
		}
		if x.slo > y.shi {
			return c.False
		}
	}
	signed := op == OSlt || op == OSle
	strict := op == OUlt || op == OSlt
	// same sign: canonicalise to unsigned only when both non-negative
	if signed && x.slo >= 0 && y.slo >= 0 {
		if op == OSlt {
			op = OUlt
		} else {
			op = OUle
		}
		signed = false
	}
	// affine pairs: only valid in the signed order (or unsigned when non-negative)
	if signed || (x.slo >= 0 && y.slo >= 0) {
		if p, q, ok := c.affPair(x, y); ok {
			lt := c.Slt(p[0], q[0])
			var r *Term
			if strict {
				r = c.Slt(p[1], q[1])
			} else {
				r = c.Sle(p[1], q[1])
			}
			return c.Or(lt, c.And(c.Eq(p[0], q[0]), r))
		}
		if x.op == OAdd && y.op == OAdd && x.b == y.b && x.b.isConst() {
			k := sext64(x.b.v, x.w)
			if c.noOv(x.a, k) && c.noOv(y.a, k) {
				if strict {
					return c.Slt(x.a, y.a)
				}
				return c.Sle(x.a, y.a)
			}
		}
		if x.op == OAdd && x.b.isConst() && y.isConst() {
			k := sext64(x.b.v, x.w)
			if v, o := subOv(sext64(y.v, y.w), k); o && c.noOv(x.a, k) && inW(v, x.w) {
				return c.mkCmp(sop(strict), x.a, c.BV(uint64(v), x.w))
			}
		}
		if y.op == OAdd && y.b.isConst() && x.isConst() {
			k := sext64(y.b.v, y.w)
			if v, o := subOv(sext64(x.v, x.w), k); o && c.noOv(y.a, k) && inW(v, x.w) {
				return c.mkCmp(sop(strict), c.BV(uint64(v), x.w), y.a)
			}
		}
	}
	if x.op == OXor && y.op == OXor && x.b == y.b && x.b.isConst() && x.b.v == uint64(1)<<(x.w-1) {
		n := map[Op]Op{OUlt: OSlt, OUle: OSle, OSlt: OUlt, OSle: OUle}[op]
		return c.mkCmp(n, x.a, y.a)
	}
	if x.op == OXor && x.b.isConst() && y.isConst() && x.b.v == uint64(1)<<(x.w-1) {
		n := map[Op]Op{OUlt: OSlt, OUle: OSle, OSlt: OUlt, OSle: OUle}[op]
		return c.mkCmp(n, x.a, c.BV(y.v^x.b.v, x.w))
	}
	if y.op == OXor && y.b.isConst() && x.isConst() && y.b.v == uint64(1)<<(y.w-1) {
		n := map[Op]Op{OUlt: OSlt, OUle: OSle, OSlt: OUlt, OSle: OUle}[op]
		return c.mkCmp(n, c.BV(x.v^y.b.v, y.w), y.a)
	}
	if !signed && x.op == OConcat && y.op == OConcat && x.a.w == y.a.w {
		if x.a == y.a {
			return c.mkCmp(op, x.b, y.b)
		}
		if c.Eq(x.a, y.a) == c.False {
			return c.mkCmp(OUlt, x.a, y.a)
		}
	}
	if !signed && x.op == OZext && y.op == OZext && x.a.w == y.a.w {
		return c.mkCmp(op, x.a, y.a)
	}
	if !signed && x.op == OZext && y.isConst() && y.v <= mask(x.a.w) {
		return c.mkCmp(op, x.a, c.BV(y.v, x.a.w))
	}
	if !signed && y.op == OZext && x.isConst() && x.v <= mask(y.a.w) {
		return c.mkCmp(op, c.BV(x.v, y.a.w), y.a)
	}
	if y.isConst() && x.op == OIte && (x.b.isConst() || x.c.isConst()) {
		return c.Ite(x.a, c.mkCmp(op, x.b, y), c.mkCmp(op, x.c, y))
	}
	if x.isConst() && y.op == OIte && (y.b.isConst() || y.c.isConst()) {
		return c.Ite(y.a, c.mkCmp(op, x, y.b), c.mkCmp(op, x, y.c))
	}
	return c.mk(op, 0, 0, x, y, nil)
}

func sop(strict bool) Op {
	if strict {
		return OSlt
	}
	return OSle
}

func inW(v int64, w uint8) bool { return sext64(uint64(v), w) == v }

func (c *TCtx) noOv(x *Term, k int64) bool {
	a, o1 := addOv(x.slo, k)
	b, o2 := addOv(x.shi, k)
	return o1 && o2 && inW(a, x.w) && inW(b, x.w)
}

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		a, b := sext64(x, w), sext64(y, w)
		if b == 0 {
			if a >= 0 {
				return m, true
			}
			return 1, true
		}
		if b == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/b) & m, true
	case OSRem:
		a, b := sext64(x, w), sext64(y, w)
		if b == 0 {
			return x, true
		}
		if b == -1 {
			return 0, true
		}
		return uint64(a%b) & m, true
	case OAnd:
		return x & y, true
	case OOr:
		return x | y, true
	case OXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext64(x, w)>>y) & m, true
	}
	return 0, false
}

func (c *TCtx) Bin(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("bin %v width mismatch %d %d", opNames[op], x.w, y.w))
	}
	w := x.w
	if x.isConst() && y.isConst() {
		v, _ := foldBin(op, w, x.v, y.v)
		return c.BV(v, w)
	}
	m := mask(w)
	comm := op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor
	if comm && (x.isConst() || (!y.isConst() && x.id > y.id)) {
		x, y = y, x
	}
	switch op {
	case OAdd:
		if y.isConst() {
			if y.v == 0 {
				return x
			}
			if x.op == OAdd && x.b.isConst() {
				return c.Bin(OAdd, x.a, c.BV(x.b.v+y.v, w))
			}
			if x.op == OIte && x.b.isConst() && x.c.isConst() {
				return c.Ite(x.a, c.Bin(op, x.b, y), c.Bin(op, x.c, y))
			}
			if x.op == OAdd && !x.b.isConst() && false {
				_ = m
			}
		} else {
			// push constants outwards: (a+k)+b -> (a+b)+k
			if x.op == OAdd && x.b.isConst() {
				return c.Bin(OAdd, c.Bin(OAdd, x.a, y), x.b)
			}
			if y.op == OAdd && y.b.isConst() {
				return c.Bin(OAdd, c.Bin(OAdd, x, y.a), y.b)
			}
			if x.op == OSub && x.b == y {
				return x.a
			}
			if y.op == OSub && y.b == x {
				return y.a
			}
		}
	case OSub:
		if x == y {
			return c.BV(0, w)
		}
		if y.isConst() {
			return c.Bin(OAdd, x, c.BV(-y.v, w))
		}
		if x.op == OAdd {
			if x.a == y {
				return x.b
			}
			if x.b == y {
				return x.a
			}
		}
		if x.op == OAdd && y.op == OAdd && x.b == y.b {
			return c.Bin(OSub, x.a, y.a)
		}
	case OMul:
		if y.isConst() {
			switch y.v {
			case 0:
				return y
			case 1:
				return x
			}
			if x.op == OMul && x.b.isConst() {
				return c.Bin(OMul, x.a, c.BV(x.b.v*y.v, w))
			}
			if x.op == OAdd && x.b.isConst() { // (a+k)*c -> a*c + k*c
				return c.Bin(OAdd, c.Bin(OMul, x.a, y), c.BV(x.b.v*y.v, w))
			}
		}
	case OUDiv:
		if y.isConst() && y.v != 0 {
			if y.v == 1 {
				return x
			}
			if x.hi < y.v {
				return c.BV(0, w)
			}
			if q, _, ok := c.splitMul(x, y.v); ok {
				return q
			}
			if bits.OnesCount64(y.v) == 1 {
				return c.Bin(OLshr, x, c.BV(uint64(bits.TrailingZeros64(y.v)), w))
			}
			// narrow
			if nb := uint8(bits.Len64(x.hi)); nb < w && x.op != OZext {
				if bits.Len64(y.v) <= int(nb) {
					return c.Zext(c.mk(OUDiv, nb, 0, c.Extract(x, nb-1, 0), c.BV(y.v, nb), nil), w)
				}
			}
		}
	case OURem:
		if y.isConst() && y.v != 0 {
			if y.v == 1 {
				return c.BV(0, w)
			}
			if x.hi < y.v {
				return x
			}
			if _, r, ok := c.splitMul(x, y.v); ok {
				return r
			}
			if bits.OnesCount64(y.v) == 1 {
				return c.Bin(OAnd, x, c.BV(y.v-1, w))
			}
			if nb := uint8(bits.Len64(x.hi)); nb < w && x.op != OZext {
				if bits.Len64(y.v) <= int(nb) {
					return c.Zext(c.mk(OURem, nb, 0, c.Extract(x, nb-1, 0), c.BV(y.v, nb), nil), w)
				}
			}
		}
	case OSDiv:
		if x.slo >= 0 && y.slo > 0 {
			return c.Bin(OUDiv, x, y)
		}
		if y.isConst() && y.v == 1 {
			return x
		}
		if k := sext64(y.v, w); y.isConst() && k > 1 && w == 64 {
			// t = k*q + r with 0<=r<k : truncated division is q (+1 if q<0 and r>0)
			if q, r, kk, ok := c.aff(x, 0); ok && kk == uint64(k) {
				adj := c.And(c.Slt(q, c.BV(0, w)), c.Slt(c.BV(0, w), r))
				return c.Bin(OAdd, q, c.Ite(adj, c.BV(1, w), c.BV(0, w)))
			}
		}
	case OSRem:
		if x.slo >= 0 && y.slo > 0 {
			return c.Bin(OURem, x, y)
		}
		if k := sext64(y.v, w); y.isConst() && k > 1 && w == 64 {
			if q, r, kk, ok := c.aff(x, 0); ok && kk == uint64(k) {
				adj := c.And(c.Slt(q, c.BV(0, w)), c.Slt(c.BV(0, w), r))
				return c.Bin(OSub, r, c.Ite(adj, c.BV(uint64(k), w), c.BV(0, w)))
			}
		}
	case OAnd:
		if x == y {
			return x
		}
		if y.isConst() {
			if y.v == 0 {
				return y
			}
			if y.v == m {
				return x
			}
			xm := lenMask(x.hi)
			if y.v&xm == 0 {
				return c.BV(0, w)
			}
			if y.v&xm == xm {
				return x
			}
			if y.v&(y.v+1) == 0 { // low mask
				n := uint8(bits.Len64(y.v))
				return c.Zext(c.Extract(x, n-1, 0), w)
			}
		}
	case OOr:
		if x == y {
			return x
		}
		if y.isConst() && y.v == 0 {
			return x
		}
		if y.isConst() && y.v == m {
			return y
		}
	case OXor:
		if x == y {
			return c.BV(0, w)
		}
		if y.isConst() {
			if y.v == 0 {
				return x
			}
			if x.op == OXor && x.b.isConst() {
				return c.Bin(OXor, x.a, c.BV(x.b.v^y.v, w))
			}
		}
	case OShl:
		if y.isConst() {
			if y.v == 0 {
				return x
			}
			if y.v >= uint64(w) {
				return c.BV(0, w)
			}
			if x.op == OZext && uint64(x.a.w)+y.v <= uint64(w) {
				return c.Zext(c.Concat(x.a, c.BV(0, uint8(y.v))), w)
			}
		}
	case OLshr:
		if y.isConst() {
			if y.v == 0 {
				return x
			}
			if y.v >= uint64(w) || x.hi>>y.v == 0 {
				return c.BV(0, w)
			}
			return c.Zext(c.Extract(x, w-1, uint8(y.v)), w)
		}
	case OAshr:
		if y.isConst() {
			if y.v == 0 {
				return x
			}
			if x.slo >= 0 {
				return c.Bin(OLshr, x, y)
			}
			if y.v >= uint64(w) {
				y = c.BV(uint64(w)-1, w)
			}
		}
	}
	return c.mk(op, w, 0, x, y, nil)
}

func lenMask(v uint64) uint64 {
	n := bits.Len64(v)
	if n >= 64 {
		return ^uint64(0)
	}
	return uint64(1)<<n - 1
}

// splitMul recognises x = k*q + r (unsigned, no overflow, r<k).
func (c *TCtx) splitMul(x *Term, k uint64) (q, r *Term, ok bool) {
	if x.op == OMul && x.b.isConst() && x.b.v == k {
		if h, l := bits.Mul64(x.a.hi, k); h == 0 && l <= mask(x.w) {
			return x.a, c.BV(0, x.w), true
		}
	}
	if x.op == OAdd {
		m, o := x.a, x.b
		if m.op != OMul {
			m, o = o, m
		}
		if m.op == OMul && m.b.isConst() && m.b.v == k && o.hi < k {
			h, l := bits.Mul64(m.a.hi, k)
			if h == 0 && l <= mask(x.w)-k {
				return m.a, o, true
			}
		}
	}
	// a*(j*k) + const, without overflow as signed numbers and never negative
	if m, o := x, int64(0); x.w == 64 && k < 1<<62 {
		if x.op == OAdd && x.b.isConst() {
			m, o = x.a, int64(x.b.v)
		}
		if m.op == OMul && m.b.isConst() && m.b.v < 1<<62 && m.b.v%k == 0 {
			lo, ok1 := mulOv(m.a.slo, int64(m.b.v))
			hi, ok2 := mulOv(m.a.shi, int64(m.b.v))
			l2, ok3 := addOv(lo, o)
			_, ok4 := addOv(hi, o)
			if ok1 && ok2 && ok3 && ok4 && l2 >= 0 {
				fl, rm := o/int64(k), o%int64(k)
				if rm < 0 {
					fl, rm = fl-1, rm+int64(k)
				}
				return c.Bin(OAdd, c.Bin(OMul, m.a, c.BV(m.b.v/k, 64)), c.BV(uint64(fl), 64)), c.BV(uint64(rm), 64), true
			}
		}
	}
	if x.op == OZext {
		if q, r, ok := c.splitMul(x.a, k); ok {
			return c.Zext(q, x.w), c.Zext(r, x.w), true
		}
	}
	if x.op == OExtract && uint8(x.v) == 0 && x.a.hi <= mask(x.w) {
		if q, r, ok := c.splitMul(x.a, k); ok {
			return c.Extract(q, x.w-1, 0), c.Extract(r, x.w-1, 0), true
		}
	}
	return
}

func (c *TCtx) BVNot(x *Term) *Term {
	if x.isConst() {
		return c.BV(^x.v, x.w)
	}
	if x.op == ONot {
		return x.a
	}
	return c.mk(ONot, x.w, 0, x, nil, nil)
}

func (c *TCtx) Zext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.w > w {
		panic("zext narrower")
	}
	if x.isConst() {
		return c.BV(x.v, w)
	}
	if x.op == OZext {
		return c.Zext(x.a, w)
	}
	if x.op == OExtract && uint8(x.v) == 0 && x.a.hi <= mask(x.w) && x.a.w >= w {
		if x.a.w == w {
			return x.a
		}
		return c.Extract(x.a, w-1, 0)
	}
	return c.mk(OZext, w, 0, x, nil, nil)
}

func (c *TCtx) Sext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return c.BV(uint64(sext64(x.v, x.w)), w)
	}
	if x.slo >= 0 {
		return c.Zext(x, w)
	}
	return c.mk(OSext, w, 0, x, nil, nil)
}

func (c *TCtx) Extract(x *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if lo == 0 && w == x.w {
		return x
	}
	if x.isConst() {
		return c.BV(x.v>>lo, w)
	}
	switch x.op {
	case OExtract:
		l := uint8(x.v)
		return c.Extract(x.a, hi+l, lo+l)
	case OZext:
		if hi < x.a.w {
			return c.Extract(x.a, hi, lo)
		}
		if lo >= x.a.w {
			return c.BV(0, w)
		}
		return c.Zext(c.Extract(x.a, x.a.w-1, lo), w)
	case OSext:
		if hi < x.a.w {
			return c.Extract(x.a, hi, lo)
		}
	case OConcat:
		if hi < x.b.w {
			return c.Extract(x.b, hi, lo)
		}
		if lo >= x.b.w {
			return c.Extract(x.a, hi-x.b.w, lo-x.b.w)
		}
		return c.Concat(c.Extract(x.a, hi-x.b.w, 0), c.Extract(x.b, x.b.w-1, lo))
	case OXor, OAnd, OOr:
		if x.b.isConst() {
			return c.Bin(x.op, c.Extract(x.a, hi, lo), c.Extract(x.b, hi, lo))
		}
	case OIte:
		if x.b.isConst() && x.c.isConst() {
			return c.Ite(x.a, c.Extract(x.b, hi, lo), c.Extract(x.c, hi, lo))
		}
	case OShl:
		if x.b.isConst() && uint64(hi) < x.b.v {
			return c.BV(0, w)
		}
	}
	if x.hi>>lo == 0 {
		return c.BV(0, w)
	}
	return c.mk(OExtract, w, uint64(hi)<<8|uint64(lo), x, nil, nil)
}

func (c *TCtx) Concat(x, y *Term) *Term {
	w := x.w + y.w
	if x.isConst() && y.isConst() {
		return c.BV(x.v<<y.w|y.v, w)
	}
	if x.isConst() && x.v == 0 {
		return c.Zext(y, w)
	}
	// recombine adjacent extracts (possibly under the same xor constant)
	if r := c.joinEx(x, y); r != nil {
		return r
	}
	if y.op == OConcat {
		return c.Concat(c.Concat(x, y.a), y.b)
	}
	if x.op == OConcat {
		if r := c.joinEx(x.b, y); r != nil {
			return c.Concat(x.a, r)
		}
	}
	return c.mk(OConcat, w, 0, x, y, nil)
}

func (c *TCtx) joinEx(x, y *Term) *Term {
	kx, ky := uint64(0), uint64(0)
	bx, by := x, y
	if x.op == OXor && x.b.isConst() {
		bx, kx = x.a, x.b.v
	}
	if y.op == OXor && y.b.isConst() {
		by, ky = y.a, y.b.v
	}
	if bx.op == OExtract && by.op == OExtract && bx.a == by.a && uint8(bx.v) == uint8(by.v>>8)+1 {
		r := c.Extract(bx.a, uint8(bx.v>>8), uint8(by.v))
		if kx|ky != 0 {
			r = c.Bin(OXor, r, c.BV(kx<<y.w|ky, r.w))
		}
		return r
	}
	return nil
}

// ---- evaluation ----

type Model map[*Term]uint64

// Eval evaluates t under the model; variables without a value take 0 (or the low end of the range).
func (c *TCtx) Eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.v
	}
	if t.evalEpoch == c.epoch {
		return t.evalVal
	}
	var r uint64
	switch t.op {
	case OVar:
		v, ok := m[t]
		if !ok && t.w > 0 {
			v = 0
			if t.lo > 0 || t.slo > 0 || t.shi < 0 {
				v = t.lo
			}
		}
		r = v
	case OIte:
		if c.Eval(t.a, m) != 0 {
			r = c.Eval(t.b, m)
		} else {
			r = c.Eval(t.c, m)
		}
	case OEq:
		r = b2u(c.Eval(t.a, m) == c.Eval(t.b, m))
	case OUlt:
		r = b2u(c.Eval(t.a, m) < c.Eval(t.b, m))
	case OUle:
		r = b2u(c.Eval(t.a, m) <= c.Eval(t.b, m))
	case OSlt:
		r = b2u(sext64(c.Eval(t.a, m), t.a.w) < sext64(c.Eval(t.b, m), t.a.w))
	case OSle:
		r = b2u(sext64(c.Eval(t.a, m), t.a.w) <= sext64(c.Eval(t.b, m), t.a.w))
	case OBAnd:
		r = b2u(c.Eval(t.a, m) != 0 && c.Eval(t.b, m) != 0)
	case OBOr:
		r = b2u(c.Eval(t.a, m) != 0 || c.Eval(t.b, m) != 0)
	case OBNot:
		r = 1 - c.Eval(t.a, m)
	case ONot:
		r = ^c.Eval(t.a, m) & mask(t.w)
	case OConcat:
		r = c.Eval(t.a, m)<<t.b.w | c.Eval(t.b, m)
	case OExtract:
		r = (c.Eval(t.a, m) >> uint8(t.v)) & mask(t.w)
	case OZext:
		r = c.Eval(t.a, m)
	case OSext:
		r = uint64(sext64(c.Eval(t.a, m), t.a.w)) & mask(t.w)
	default:
		r, _ = foldBin(t.op, t.w, c.Eval(t.a, m), c.Eval(t.b, m))
	}
	t.evalEpoch, t.evalVal = c.epoch, r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// ---- printing ----

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.v != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.v, t.w)
	case OVar:
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) body() string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.v>>8, t.v&0xff, t.a.ref())
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OIte:
		return fmt.Sprintf("(ite %s %s %s)", t.a.ref(), t.b.ref(), t.c.ref())
	}
	if t.b == nil {
		return fmt.Sprintf("(%s %s)", opNames[t.op], t.a.ref())
	}
	return fmt.Sprintf("(%s %s %s)", opNames[t.op], t.a.ref(), t.b.ref())
}

func (t *Term) String() string { return t.show(6) }

func (t *Term) show(d int) string {
	if t == nil {
		return "<nil>"
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return t.ref()
		}
		return fmt.Sprintf("%d", sext64(t.v, t.w))
	case OVar:
		return t.name
	}
	if d == 0 {
		return "…"
	}
	var sb strings.Builder
	n := opNames[t.op]
	if t.op == OExtract {
		n = fmt.Sprintf("x[%d:%d]", t.v>>8, t.v&0xff)
	} else if t.op == OZext {
		n = "zx"
	} else if t.op == OSext {
		n = "sx"
	}
	sb.WriteString("(" + n)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" " + x.show(d-1))
		}
	}
	sb.WriteString(")")
	return sb.String()
}
