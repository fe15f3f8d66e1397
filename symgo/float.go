package main

import (
	"go/token"
	"math"

	"golang.org/x/tools/go/ssa"
)

// SymF is the float t/den for a symbolic integer t. Rounding is not modelled.
type SymF struct {
	t   *Term
	den int64
}

func (fr *Frame) intToFloat(x *Term, signed bool) Value {
	w := fr.w
	if x.isConst() {
		if signed {
			return float64(sext64(x.v, x.w))
		}
		return float64(x.v)
	}
	if x.w < 64 {
		if signed {
			x = w.tc.Sext(x, 64)
		} else {
			x = w.tc.Zext(x, 64)
		}
	} else if !signed {
		if !w.decide(w.tc.Sle(w.tc.BV(0, 64), x)) {
			panic(unsup("large unsigned integer to float"))
		}
	}
	return SymF{x, 1}
}

func (w *Worker) asSymF(v Value, den int64) (SymF, bool) {
	switch x := v.(type) {
	case SymF:
		return x, true
	case float64:
		for _, d := range []int64{den, 1} {
			if y := x * float64(d); y == math.Trunc(y) && math.Abs(y) < 1e15 {
				return SymF{w.tc.BV(uint64(int64(y)), 64), d}, true
			}
		}
	}
	return SymF{}, false
}

func (w *Worker) symFloat(op token.Token, xv, yv Value) Value {
	c := w.tc
	if op == token.MUL || op == token.QUO {
		x, ok1 := xv.(SymF)
		k, ok2 := yv.(float64)
		if op == token.MUL && !ok1 {
			x, ok1 = yv.(SymF)
			k, ok2 = xv.(float64)
		}
		if ok1 && ok2 && k == math.Trunc(k) && k >= 1 && k <= 1e18 {
			n := int64(k)
			if op == token.QUO {
				if x.den <= math.MaxInt64/n {
					return SymF{x.t, x.den * n}
				}
			} else if x.den%n == 0 {
				return SymF{x.t, x.den / n}
			}
		}
		// an exact fraction of a small power of two
		if ok1 && ok2 && op == token.MUL && math.Abs(k) < 1<<31 {
			q := int64(1)
			for q < 1<<20 && k*float64(q) != math.Trunc(k*float64(q)) {
				q *= 2
			}
			n := int64(k * float64(q))
			if lim := math.MaxInt64 / (math.Abs(float64(n)) + 1); float64(n) == k*float64(q) && x.den <= math.MaxInt64/q &&
				float64(x.t.shi) < lim && float64(x.t.slo) > -lim {
				return SymF{c.Bin(OMul, x.t, c.BV(uint64(n), 64)), x.den * q}
			}
		}
		if ok1 && ok2 && x.t.shi-x.t.slo <= 1000 {
			f := float64(w.concInt(x.t)) / float64(x.den)
			if op == token.MUL {
				return f * k
			}
			return f / k
		}
		panic(unsup("symbolic float %v", op))
	}
	den := int64(1)
	if x, ok := xv.(SymF); ok {
		den = x.den
	}
	if y, ok := yv.(SymF); ok && y.den > den {
		den = y.den
	}
	x, ok1 := w.asSymF(xv, den)
	y, ok2 := w.asSymF(yv, den)
	if !ok1 || !ok2 {
		if f, ok := yv.(float64); ok && ok1 && (op == token.EQL || op == token.NEQ) && f != math.Trunc(f) {
			return c.Bool(op == token.NEQ)
		}
		panic(unsup("symbolic float arithmetic"))
	}
	up := func(z SymF) *Term {
		if z.den == den {
			return z.t
		}
		return c.Bin(OMul, z.t, c.BV(uint64(den/z.den), 64))
	}
	if den%x.den != 0 || den%y.den != 0 {
		panic(unsup("symbolic floats of different scale"))
	}
	a, b := up(x), up(y)
	switch op {
	case token.ADD:
		return SymF{c.Bin(OAdd, a, b), den}
	case token.SUB:
		return SymF{c.Bin(OSub, a, b), den}
	case token.EQL:
		return c.Eq(a, b)
	case token.NEQ:
		return c.Not(c.Eq(a, b))
	case token.LSS:
		return c.Slt(a, b)
	case token.LEQ:
		return c.Sle(a, b)
	case token.GTR:
		return c.Slt(b, a)
	case token.GEQ:
		return c.Sle(b, a)
	}
	panic(unsup("symbolic float %v", op))
}

func floatIntrinsics(I map[string]Intrinsic) {
	ident := func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) { return a[0], true }
	I["internal/stringslite.Clone"] = ident
	I["strings.Clone"] = ident
	I["strconv.cloneString"] = ident
	I["github.com/gin-gonic/gin/internal/bytesconv.StringToBytes"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return fr.w.strToBytes(a[0]), true
	}
	I["github.com/gin-gonic/gin/internal/bytesconv.BytesToString"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return fr.w.bytesToStr(a[0]), true
	}
	I["time.quote"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		if _, ok := a[0].(string); ok {
			return nil, false
		}
		return fr.w.opaque("quoted"), true
	}
	for n, den := range map[string]int64{"Seconds": 1e9, "Minutes": 60e9, "Hours": 3600e9} {
		den := den
		I["(time.Duration)."+n] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
			t := a[0].(*Term)
			if t.isConst() {
				return nil, false
			}
			return SymF{t, den}, true
		}
	}
}
