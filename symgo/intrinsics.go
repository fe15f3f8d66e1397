package main

import (
	"fmt"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Intrinsic func(fr *Frame, fn *ssa.Function, args []Value) (Value, bool)

type obsRec struct {
	label string
	v     Value
}

func (o obsRec) show(w *Worker) string { return o.label + "=" + w.obsVal(o.v) }

func (w *Worker) obsVal(v Value) string {
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return fmt.Sprint(w.tc.Eval(x, w.model) != 0)
		}
		return fmt.Sprint(sext64(w.tc.Eval(x, w.model), x.w))
	case string:
		return fmt.Sprintf("hex:%x", x)
	case *SStr:
		return w.ndValue(nondet{kind: "str", s: x}, w.model)
	case *Choice:
		for _, a := range x.alts {
			if w.tc.Eval(a.cond, w.model) != 0 {
				return w.obsVal(a.v)
			}
		}
	}
	return fmt.Sprintf("?%T", v)
}

// env is the per-path model state of the environment.
type env struct {
	vclock  *Term
	goPanic any
	onces   map[*Value]bool
	pools   map[*Value][]Value
	rng     uint64
	fresh   int
	jdocs   []*jnode
	gobDocs []*gnode
	timerOf map[*Value]*timer
	// violated when nothing can run any more
	mustFinish string
}

func (w *Worker) resetPathEnv() {
	w.resetSched()
	w.vclock = w.tc.BV(0, 64)
	w.goPanic = nil
	w.rng = 0x9E3779B97F4A7C15
	w.fresh = 0
	w.jdocs = nil
	w.gobDocs = nil
	w.timerOf = map[*Value]*timer{}
	w.mustFinish = ""
}

var intrinsics map[string]Intrinsic

// packages whose initialisation is skipped (their globals stay zero).
var skipInit = map[string]bool{
	"runtime": true, "internal/cpu": true, "internal/godebug": true, "syscall": true, "internal/poll": true,
	"internal/syscall/unix": true, "internal/testlog": true, "reflect": true, "internal/reflectlite": true,
	"os/signal": true, "runtime/debug": true, "testing": true, "net": true,
	"crypto/tls": true, "crypto/x509": true,
}

func nop(fr *Frame, fn *ssa.Function, args []Value) (Value, bool) {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil, true
	case 1:
		return fr.w.zero(res.At(0).Type()), true
	}
	return fr.w.zero(res), true
}

const rtPkg = "github.com/hyperonym/ratus/internal/zzverif/rt"

func (fr *Frame) cstr(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsup("a concrete string is needed, got %T", v))
	}
	return s
}

func cint(t Value) int64 {
	x, ok := t.(*Term)
	if !ok || !x.isConst() {
		panic(unsup("a concrete integer is needed"))
	}
	return sext64(x.v, x.w)
}

func (w *Worker) ndName(name string) string {
	n := w.ndCount[name]
	w.ndCount[name] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n+1)
	}
	return name
}

func (w *Worker) rawRange(t *Term, lo, hi int64) {
	c := w.tc
	w.sol.Assert(c.mk(OSle, 0, 0, c.BV(uint64(lo), t.w), t, nil))
	w.sol.Assert(c.mk(OSle, 0, 0, t, c.BV(uint64(hi), t.w), nil))
}

func (w *Worker) freshInt(name string, wd uint8, lo, hi int64) *Term {
	if lo == hi {
		return w.tc.BV(uint64(lo), wd)
	}
	t := w.tc.Var(fmt.Sprintf("%s@%d:%d:%d", name, wd, lo, hi), wd, lo, hi, true)
	full := wd == 64 && lo == -1<<63 && hi == 1<<63-1
	if !full {
		w.rawRange(t, lo, hi)
	}
	return t
}

// freshStr makes a string variable of min..max bytes, each within [lo,hi].
func (w *Worker) freshStr(name string, min, max int, lo, hi uint64) *SStr {
	c := w.tc
	s := &SStr{}
	if min == max {
		s.n = c.BV(uint64(min), 64)
	} else {
		s.n = w.freshInt(name+".len", 64, int64(min), int64(max))
	}
	var raw []*Term
	for i := 0; i < max; i++ {
		var v *Term
		if lo == 0 && hi == 255 {
			v = c.Var(fmt.Sprintf("%s.%d", name, i), 8, 0, 0, false)
		} else {
			v = c.Var(fmt.Sprintf("%s.%d@u:%d:%d", name, i, lo, hi), 8, 0, 0, false)
			if v.lo != lo || v.hi != hi {
				v.lo, v.hi = lo, hi
				c.cross(v)
			}
			w.sol.Assert(c.mk(OUle, 0, 0, c.BV(lo, 8), v, nil))
			w.sol.Assert(c.mk(OUle, 0, 0, v, c.BV(hi, 8), nil))
		}
		raw = append(raw, v)
		s.b = append(s.b, c.Ite(c.Ult(c.BV(uint64(i), 64), s.n), v, c.BV(0, 8)))
	}
	if min != max {
		for k := min; k <= max; k++ {
			s.lf = append(s.lf, strCase{c.Eq(s.n, c.BV(uint64(k), 64)), &SStr{n: c.BV(uint64(k), 64), b: raw[:k:k]}})
		}
	}
	return s
}

func (fr *Frame) where() string {
	f := fr
	for f != nil && f.info != nil && strings.Contains(f.info.name, "/zzverif/rt") {
		f = f.caller
	}
	return fr.w.posOf(f)
}

func (w *Worker) truth(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *Choice:
		r := w.tc.False
		for _, a := range x.alts {
			r = w.tc.Or(r, w.tc.And(a.cond, w.truth(a.v)))
		}
		return r
	}
	panic(unsup("not a boolean: %T", v))
}

func init() {
	I := map[string]Intrinsic{}
	intrinsics = I
	rt := func(n string, f Intrinsic) { I[rtPkg+"."+n] = f }

	rt("Int64", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		w := fr.w
		n := w.ndName(fr.cstr(a[0]))
		if v, ok := w.h.Fix[n]; ok {
			k, _ := strconv.ParseInt(v, 10, 64)
			return w.tc.BV(uint64(k), 64), true
		}
		t := w.freshInt(n, 64, cint(a[1]), cint(a[2]))
		w.nd = append(w.nd, nondet{name: n, kind: "bv", t: t, sgn: true})
		return t, true
	})
	rt("Bool", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		w := fr.w
		n := w.ndName(fr.cstr(a[0]))
		t := w.tc.Var(n+"@b", 0, 0, 0, false)
		w.nd = append(w.nd, nondet{name: n, kind: "bool", t: t})
		return t, true
	})
	rt("String", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		w := fr.w
		n := w.ndName(fr.cstr(a[0]))
		if v, ok := w.h.fixStr(n); ok {
			return v, true
		}
		s := w.freshStr(n, int(cint(a[1])), int(cint(a[2])), 0, 255)
		w.nd = append(w.nd, nondet{name: n, kind: "str", s: s})
		return w.simpStr(s), true
	})
	rt("StringIn", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		w := fr.w
		n := w.ndName(fr.cstr(a[0]))
		if v, ok := w.h.fixStr(n); ok {
			return v, true
		}
		s := w.freshStr(n, int(cint(a[1])), int(cint(a[2])), uint64(cint(a[3])), uint64(cint(a[4])))
		w.nd = append(w.nd, nondet{name: n, kind: "str", s: s})
		return w.simpStr(s), true
	})
	rt("Choose", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		w := fr.w
		n := w.ndName(fr.cstr(a[0]))
		if v, ok := w.h.Fix[n]; ok {
			k, _ := strconv.Atoi(v)
			return w.tc.BV(uint64(k), 64), true
		}
		k := w.choose(int(cint(a[1])))
		w.nd = append(w.nd, nondet{name: n, kind: "choice", k: k})
		return w.tc.BV(uint64(k), 64), true
	})
	rt("Arg", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		w := fr.w
		n := fr.cstr(a[0])
		v, ok := w.h.Args[n]
		if !ok {
			return a[1], true
		}
		return w.tc.BV(uint64(v), 64), true
	})
	rt("Assume", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		fr.w.assume(fr.w.truth(a[0]))
		return nil, true
	})
	rt("Assert", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		msg := fr.cstr(a[1])
		if !fr.w.h.owns(msg) {
			return nil, true
		}
		fr.w.assert(fr.w.truth(a[0]), msg, fr.where())
		return nil, true
	})
	rt("Reach", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		fr.w.reached = append(fr.w.reached, fr.cstr(a[0]))
		return nil, true
	})
	rt("Possible", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		msg := fr.cstr(a[1])
		if fr.w.h.owns(msg) {
			fr.w.possible(fr.w.truth(a[0]), msg, fr.where())
		}
		return nil, true
	})
	rt("Note", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		fr.w.notes = append(fr.w.notes, fr.cstr(a[0]))
		return nil, true
	})
	rt("Dump", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		if fr.w.e.Debug {
			fr.w.notes = append(fr.w.notes, fr.w.showVal(a[0]))
		}
		return nil, true
	})
	rt("Obs", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		i := a[1].(Iface)
		fr.w.obs = append(fr.w.obs, obsRec{fr.cstr(a[0]), i.V})
		return nil, true
	})
	rt("And", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return fr.w.tc.And(fr.w.truth(a[0]), fr.w.truth(a[1])), true
	})
	rt("Or", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return fr.w.tc.Or(fr.w.truth(a[0]), fr.w.truth(a[1])), true
	})
	rt("Implies", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return fr.w.tc.Or(fr.w.tc.Not(fr.w.truth(a[0])), fr.w.truth(a[1])), true
	})
	rt("IteInt", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return fr.w.ite(fr.w.truth(a[0]), a[1], a[2]), true
	})
	rt("Ite", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return fr.w.ite(fr.w.truth(a[0]), a[1], a[2]), true
	})
	rt("Native", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) { return fr.w.tc.False, true })
	rt("Stop", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) { panic(pathEnd{"assume"}) })
	rt("StrLE", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return fr.w.tc.Not(fr.w.strLess(a[1], a[0])), true
	})
	rt("StrPrefix", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return fr.w.strPrefix(a[0], a[1]), true
	})
	rt("BytesLess", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return fr.w.strLess(fr.w.bytesToStr(a[0]), fr.w.bytesToStr(a[1])), true
	})
	rt("BytesEq", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return fr.w.strEq(fr.w.bytesToStr(a[0]), fr.w.bytesToStr(a[1])), true
	})
	rt("BytesPrefix", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return fr.w.strPrefix(fr.w.bytesToStr(a[0]), fr.w.bytesToStr(a[1])), true
	})
	rt("Concrete", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return fr.w.tc.BV(uint64(fr.w.concInt(a[0].(*Term))), 64), true
	})
	// IsStr reports whether a string is concrete (used by models to pick a fast path).
	rt("IsConcrete", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		switch x := a[0].(type) {
		case string:
			return fr.w.tc.True, true
		case *SStr:
			return fr.w.tc.False, true
		case Iface:
			switch y := x.V.(type) {
			case string:
				return fr.w.tc.True, true
			case *SStr:
				return fr.w.tc.False, true
			case *Term:
				return fr.w.tc.Bool(y.isConst()), true
			}
			return fr.w.tc.True, true
		}
		return fr.w.tc.False, true
	})
	rt("Known", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		// 1 known true, 0 known false, -1 open: never calls the solver
		v, ok := fr.w.known(fr.w.truth(a[0]))
		switch {
		case !ok:
			return fr.w.tc.BV(^uint64(0), 64), true
		case v:
			return fr.w.tc.BV(1, 64), true
		}
		return fr.w.tc.BV(0, 64), true
	})
	// Same reports pointer/interface identity of dynamic type names
	rt("TypeName", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		i, ok := fr.force(a[0]).(Iface)
		if !ok || i.T == nil {
			return "nil", true
		}
		return types.TypeString(i.T, nil), true
	})
	rt("Preempt", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		t := a[0].(*Term)
		fr.w.preempt = t.isConst() && t.v == 1
		return nil, true
	})
	rt("Yield", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		fr.w.yieldPoint("yield")
		return nil, true
	})
	rt("WaitIdle", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		// let every other thread run until all are finished or blocked
		fr.w.waitIdle()
		return nil, true
	})
	rt("Threads", func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		n := 0
		for _, t := range fr.w.threads {
			if !t.main && !t.done {
				n++
			}
		}
		return fr.w.tc.BV(uint64(n), 64), true
	})
	rt("Catch", func(fr *Frame, fn *ssa.Function, a []Value) (v Value, ok bool) {
		// Catch(f) runs f and returns the panic text ("" if none)
		v, ok = "", true
		depth, cur := fr.w.depth, fr.w.curFrame
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, isT := r.(targetPanic)
					if !isT {
						panic(r)
					}
					fr.w.depth, fr.w.curFrame = depth, cur
					fr.w.notes = append(fr.w.notes, "panic: "+fr.w.showPanic(tp)+" at "+tp.where)
					v = "panic"
				}
			}()
			fr.w.call(fr, fr.force(a[0]), nil)
		}()
		return
	})

	// ---- time ----
	secNs := func(fr *Frame, v Value) (*Term, *Term) {
		s := v.(Struct)
		wall, ext := s[0].(*Term), s[1].(*Term)
		if wall.hi >= 1<<30 {
			panic(unsup("time value with a monotonic reading"))
		}
		return ext, wall
	}
	less := func(fr *Frame, a, b Value) *Term {
		c := fr.w.tc
		as, an := secNs(fr, a)
		bs, bn := secNs(fr, b)
		return c.Or(c.Slt(as, bs), c.And(c.Eq(as, bs), c.Ult(an, bn)))
	}
	teq := func(fr *Frame, a, b Value) *Term {
		c := fr.w.tc
		as, an := secNs(fr, a)
		bs, bn := secNs(fr, b)
		return c.And(c.Eq(as, bs), c.Eq(an, bn))
	}
	I["(time.Time).After"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return less(fr, a[1], a[0]), true
	}
	I["(time.Time).Before"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return less(fr, a[0], a[1]), true
	}
	I["(time.Time).Equal"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return teq(fr, a[0], a[1]), true
	}
	I["(time.Time).Compare"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		c := fr.w.tc
		return c.Ite(less(fr, a[0], a[1]), c.BV(^uint64(0), 64), c.Ite(teq(fr, a[0], a[1]), c.BV(0, 64), c.BV(1, 64))), true
	}
	I["(time.Time).IsZero"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		c := fr.w.tc
		s, n := secNs(fr, a[0])
		return c.And(c.Eq(s, c.BV(0, 64)), c.Eq(n, c.BV(0, n.w))), true
	}
	I["(time.Time).Add"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		c := fr.w.tc
		s, n := secNs(fr, a[0])
		d := a[1].(*Term)
		g := c.BV(1000000000, 64)
		if d.isConst() && sext64(d.v, 64)%1000000 == 0 {
			// whole milliseconds: carry on the millisecond part only
			if ms, sub, k, ok := c.aff(n, 0); ok && k == 1000000 && ms.slo >= 0 && ms.shi <= 999 {
				dm := sext64(d.v, 64) / 1000000
				q, r := dm/1000, dm%1000
				if r < 0 {
					q, r = q-1, r+1000
				}
				s2, m2 := c.Bin(OAdd, s, c.BV(uint64(q), 64)), ms
				if r != 0 {
					over := c.Sle(c.BV(uint64(1000-r), 64), ms)
					s2 = c.Bin(OAdd, s2, c.Ite(over, c.BV(1, 64), c.BV(0, 64)))
					m2 = fr.w.named(c.Bin(OAdd, ms, c.Ite(over, c.BV(uint64(r-1000), 64), c.BV(uint64(r), 64))), 64, 0, 999)
				}
				n2 := c.Bin(OAdd, c.Bin(OMul, m2, c.BV(1000000, 64)), sub)
				return Struct{n2, s2, a[0].(Struct)[2]}, true
			}
		}
		ds := c.Bin(OSDiv, d, g)
		dn := c.Bin(OSRem, d, g)
		nn := c.Bin(OAdd, n, dn) // in (-1e9, 2e9)
		over := c.Sle(g, nn)
		under := c.Slt(nn, c.BV(0, 64))
		one := c.BV(1, 64)
		ds2 := c.Ite(over, c.Bin(OAdd, ds, one), c.Ite(under, c.Bin(OSub, ds, one), ds))
		nn2 := c.Ite(over, c.Bin(OSub, nn, g), c.Ite(under, c.Bin(OAdd, nn, g), nn))
		if nn2.hi >= 1000000000 || nn2.slo < 0 {
			// the ranges cannot see the correlation: name the result
			nn2 = fr.w.named(nn2, 64, 0, 999999999)
		}
		old := a[0].(Struct)
		return Struct{nn2, c.Bin(OAdd, s, ds2), old[2]}, true
	}
	I["(time.Time).AddDate"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) { return nil, false }
	I["time.init.0"] = nop
	I["(*time.Location).get"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) { return nil, false }

	// ---- sync ----
	lock := func(fr *Frame, p Value, what string) {
		w := fr.w
		m := w.mustate(p.(*Value))
		w.yieldPoint(what)
		w.block(func() bool { return !m.locked && m.readers == 0 })
		m.locked = true
	}
	unlock := func(fr *Frame, p Value) {
		w := fr.w
		m := w.mustate(p.(*Value))
		if !m.locked {
			fr.plainPanic("sync: unlock of unlocked mutex")
		}
		m.locked = false
		w.yieldPoint("unlock")
	}
	I["(*sync.Mutex).Lock"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) { lock(fr, a[0], "lock"); return nil, true }
	I["(*sync.Mutex).Unlock"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) { unlock(fr, a[0]); return nil, true }
	I["(*sync.Mutex).TryLock"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		m := fr.w.mustate(a[0].(*Value))
		fr.w.yieldPoint("trylock")
		if m.locked || m.readers > 0 {
			return fr.w.tc.False, true
		}
		m.locked = true
		return fr.w.tc.True, true
	}
	I["(*sync.RWMutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).Unlock"] = I["(*sync.Mutex).Unlock"]
	I["(*sync.RWMutex).TryLock"] = I["(*sync.Mutex).TryLock"]
	I["(*sync.RWMutex).RLock"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		w := fr.w
		m := w.mustate(a[0].(*Value))
		w.yieldPoint("rlock")
		w.block(func() bool { return !m.locked })
		m.readers++
		return nil, true
	}
	I["(*sync.RWMutex).RUnlock"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		m := fr.w.mustate(a[0].(*Value))
		if m.readers == 0 {
			fr.plainPanic("sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
		fr.w.yieldPoint("runlock")
		return nil, true
	}
	I["(*sync.WaitGroup).Add"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		s := fr.w.wgstate(a[0].(*Value))
		s.n += int(fr.w.concInt(a[1].(*Term)))
		if s.n < 0 {
			fr.plainPanic("sync: negative WaitGroup counter")
		}
		return nil, true
	}
	I["(*sync.WaitGroup).Done"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		s := fr.w.wgstate(a[0].(*Value))
		s.n--
		if s.n < 0 {
			fr.plainPanic("sync: negative WaitGroup counter")
		}
		fr.w.yieldPoint("wgdone")
		return nil, true
	}
	I["(*sync.WaitGroup).Wait"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		s := fr.w.wgstate(a[0].(*Value))
		fr.w.block(func() bool { return s.n == 0 })
		return nil, true
	}
	I["(*sync.Once).Do"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		w := fr.w
		p := a[0].(*Value)
		// the done word lives in the Once itself so that rollback restores it
		s := (*p).(Struct)
		for i := range s {
			if t, ok := s[i].(Struct); ok && len(t) > 0 { // atomic.Uint32 {_, v}
				for j := range t {
					if d, ok := t[j].(*Term); ok && d.w == 32 {
						if d.isConst() && d.v == 1 {
							return nil, true
						}
						w.setCell(&t[j], w.tc.BV(1, 32))
						w.call(fr, fr.force(a[1]), nil)
						return nil, true
					}
				}
			}
		}
		panic(unsup("sync.Once layout"))
	}
	I["(*sync.Pool).Get"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		p := a[0].(*Value)
		s := (*p).(Struct)
		nw, ok := s[len(s)-1].(*Closure)
		if !ok || nw == nil {
			return Iface{}, true
		}
		return fr.w.call(fr, nw, nil), true
	}
	I["(*sync.Pool).Put"] = nop

	// ---- sync/atomic ----
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		ty := ty
		I["sync/atomic.Load"+ty] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
			fr.w.yieldPoint("load")
			return fr.loadFrom(a[0]), true
		}
		I["sync/atomic.Store"+ty] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
			fr.w.yieldPoint("store")
			fr.storeTo(a[0], a[1])
			return nil, true
		}
		I["sync/atomic.Add"+ty] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
			fr.w.yieldPoint("add")
			v := fr.w.tc.Bin(OAdd, fr.loadFrom(a[0]).(*Term), a[1].(*Term))
			fr.storeTo(a[0], v)
			return v, true
		}
		I["sync/atomic.Swap"+ty] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
			fr.w.yieldPoint("swap")
			v := fr.loadFrom(a[0])
			fr.storeTo(a[0], a[1])
			return v, true
		}
		I["sync/atomic.CompareAndSwap"+ty] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
			fr.w.yieldPoint("cas")
			v := fr.loadFrom(a[0])
			if fr.w.decide(fr.w.eq(v, a[1], nil)) {
				fr.storeTo(a[0], a[2])
				return fr.w.tc.True, true
			}
			return fr.w.tc.False, true
		}
	}
	I["sync/atomic.LoadPointer"] = I["sync/atomic.LoadInt32"]
	I["sync/atomic.StorePointer"] = I["sync/atomic.StoreInt32"]
	I["sync/atomic.SwapPointer"] = I["sync/atomic.SwapInt32"]
	I["sync/atomic.CompareAndSwapPointer"] = I["sync/atomic.CompareAndSwapInt32"]
	for n, f := range map[string]string{"Load": "Load", "Store": "Store", "CompareAndSwap": "CompareAndSwap"} {
		_ = f
		_ = n
	}
	I["(*sync/atomic.Value).Load"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		fr.w.yieldPoint("load")
		return (*a[0].(*Value)).(Struct)[0], true
	}
	I["(*sync/atomic.Value).Store"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		fr.w.yieldPoint("store")
		fr.w.setCell(&(*a[0].(*Value)).(Struct)[0], a[1])
		return nil, true
	}
	// generic atomic.Pointer[T]: fields {_ [0]*T, _ noCopy, v unsafe.Pointer}
	ptrField := func(a Value) *Value {
		s := (*a.(*Value)).(Struct)
		return &s[len(s)-1]
	}
	I["(*sync/atomic.Pointer[T]).Load"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		fr.w.yieldPoint("load")
		return *ptrField(a[0]), true
	}
	I["(*sync/atomic.Pointer[T]).Store"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		fr.w.yieldPoint("store")
		fr.w.setCell(ptrField(a[0]), a[1])
		return nil, true
	}

	// ---- strings / bytes ----
	I["strings.HasPrefix"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return fr.w.strPrefix(a[0], a[1]), true
	}
	I["bytes.HasPrefix"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return fr.w.strPrefix(fr.w.bytesToStr(a[0]), fr.w.bytesToStr(a[1])), true
	}
	I["bytes.Equal"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return fr.w.strEq(fr.w.bytesToStr(fr.force(a[0])), fr.w.bytesToStr(fr.force(a[1]))), true
	}
	cmp := func(fr *Frame, x, y Value) Value {
		w := fr.w
		c := w.tc
		return c.Ite(w.strLess(x, y), c.BV(^uint64(0), 64), c.Ite(w.strEq(x, y), c.BV(0, 64), c.BV(1, 64)))
	}
	I["bytes.Compare"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return cmp(fr, fr.w.bytesToStr(a[0]), fr.w.bytesToStr(a[1])), true
	}
	I["internal/bytealg.Compare"] = I["bytes.Compare"]
	I["internal/bytealg.Equal"] = I["bytes.Equal"]
	I["(*errors.joinError).Error"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		w := fr.w
		var out Value = ""
		for i, e := range fr.force((*a[0].(*Value)).(Struct)[0]).([]Value) {
			if i > 0 {
				out = w.strConcat(out, "\n")
			}
			x := w.iface(e)
			out = w.strConcat(out, w.callFn(fr, w.methodByName(x.T, "Error"), []Value{x.V}, nil))
		}
		return out, true
	}
	I["strings.Compare"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) { return cmp(fr, a[0], a[1]), true }
	I["internal/bytealg.MakeNoZero"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		n := int(fr.w.concInt(a[0].(*Term)))
		return fr.w.newSlice(types.Typ[types.Uint8], n, n), true
	}
	concFn := func(name string, f func(fr *Frame, a []Value) Value) {
		I[name] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
			for _, v := range a {
				switch x := v.(type) {
				case string:
				case *Term:
					if !x.isConst() {
						return nil, false
					}
				default:
					return nil, false
				}
			}
			return f(fr, a), true
		}
	}
	ib := func(fr *Frame, n int) Value { return fr.w.tc.BV(uint64(int64(n)), 64) }
	concFn("strings.Index", func(fr *Frame, a []Value) Value { return ib(fr, strings.Index(a[0].(string), a[1].(string))) })
	concFn("strings.LastIndex", func(fr *Frame, a []Value) Value { return ib(fr, strings.LastIndex(a[0].(string), a[1].(string))) })
	concFn("strings.Contains", func(fr *Frame, a []Value) Value { return fr.w.tc.Bool(strings.Contains(a[0].(string), a[1].(string))) })
	concFn("strings.ToLower", func(fr *Frame, a []Value) Value { return strings.ToLower(a[0].(string)) })
	concFn("strings.ToUpper", func(fr *Frame, a []Value) Value { return strings.ToUpper(a[0].(string)) })
	concFn("strings.TrimSpace", func(fr *Frame, a []Value) Value { return strings.TrimSpace(a[0].(string)) })
	concFn("strings.Replace", func(fr *Frame, a []Value) Value {
		return strings.Replace(a[0].(string), a[1].(string), a[2].(string), int(cint(a[3])))
	})
	concFn("strings.ReplaceAll", func(fr *Frame, a []Value) Value {
		return strings.ReplaceAll(a[0].(string), a[1].(string), a[2].(string))
	})
	concFn("strings.EqualFold", func(fr *Frame, a []Value) Value { return fr.w.tc.Bool(strings.EqualFold(a[0].(string), a[1].(string))) })
	concFn("strings.Repeat", func(fr *Frame, a []Value) Value { return strings.Repeat(a[0].(string), int(cint(a[1]))) })
	indexByte := func(fr *Frame, s Value, b *Term, last, count bool) Value {
		w := fr.w
		n := int(w.concInt(w.strLen(s)))
		k := 0
		for j := 0; j < n; j++ {
			i := j
			if last {
				i = n - 1 - j
			}
			if w.decide(w.tc.Eq(w.strIndex(s, w.tc.BV(uint64(i), 64)).(*Term), b)) {
				if !count {
					return ib(fr, i)
				}
				k++
			}
		}
		if count {
			return ib(fr, k)
		}
		return ib(fr, -1)
	}
	for n, f := range map[string][3]bool{
		"strings.IndexByte": {}, "internal/bytealg.IndexByteString": {}, "internal/stringslite.IndexByte": {},
		"internal/bytealg.LastIndexByteString": {true, false, false}, "strings.LastIndexByte": {true, false, false},
		"internal/bytealg.CountString": {false, true, false},
		"bytes.IndexByte":              {false, false, true}, "internal/bytealg.IndexByte": {false, false, true},
		"internal/bytealg.LastIndexByte": {true, false, true}, "bytes.LastIndexByte": {true, false, true},
		"internal/bytealg.Count": {false, true, true},
	} {
		f := f
		I[n] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
			s := fr.force(a[0])
			if f[2] {
				s = fr.w.bytesToStr(s)
			}
			return indexByte(fr, s, a[1].(*Term), f[0], f[1]), true
		}
	}
	concFn("internal/bytealg.IndexString", func(fr *Frame, a []Value) Value { return fr.w.tc.BV(uint64(strings.Index(a[0].(string), a[1].(string))), 64) })
	concFn("strconv.Itoa", func(fr *Frame, a []Value) Value { return strconv.Itoa(int(cint(a[0]))) })
	I["(*strings.Builder).copyCheck"] = nop
	I["(*strings.Builder).String"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		s := (*a[0].(*Value)).(Struct)
		return fr.w.bytesToStr(s[1]), true
	}

	// ---- fmt ----
	I["fmt.Sprintf"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		return fr.sprintf(fr.force(a[0]), a[1]), true
	}
	I["fmt.Sprint"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		vs := a[0].([]Value)
		var out Value = ""
		for i, v := range vs {
			x := fr.w.iface(v)
			if i > 0 {
				_, s1 := strKind(fr.w.iface(vs[i-1]))
				_, s2 := strKind(x)
				if !s1 && !s2 {
					out = fr.w.strConcat(out, " ")
				}
			}
			out = fr.w.strConcat(out, fr.fmtVal('v', x))
		}
		return out, true
	}
	I["fmt.Sprintln"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		var out Value = ""
		for i, v := range a[0].([]Value) {
			if i > 0 {
				out = fr.w.strConcat(out, " ")
			}
			out = fr.w.strConcat(out, fr.fmtVal('v', fr.w.iface(v)))
		}
		return fr.w.strConcat(out, "\n"), true
	}
	I["fmt.Errorf"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		w := fr.w
		f := fr.cstr(fr.force(a[0]))
		msg := fr.sprintf(f, a[1])
		// collect %w operands
		var wrapped []Value
		vs, _ := a[1].([]Value)
		k := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
				i++
			}
			if i >= len(f) {
				break
			}
			if f[i] == '%' {
				continue
			}
			if f[i] == 'w' && k < len(vs) {
				x := w.iface(vs[k])
				if x.T != nil {
					wrapped = append(wrapped, x)
				}
			}
			k++
		}
		mk := func(tn string, s Struct) Value {
			t := w.P.pkgs["fmt"].Type(tn).Type()
			p := new(Value)
			*p = s
			return Iface{T: types.NewPointer(t), V: p}
		}
		switch len(wrapped) {
		case 0:
			t := w.P.pkgs["errors"].Type("errorString").Type()
			p := new(Value)
			*p = Struct{msg}
			return Iface{T: types.NewPointer(t), V: p}, true
		case 1:
			return mk("wrapError", Struct{msg, wrapped[0]}), true
		default:
			return mk("wrapErrors", Struct{msg, wrapped}), true
		}
	}
	for _, n := range []string{"fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "fmt.Printf", "fmt.Println", "fmt.Print"} {
		I[n] = nop
	}
	for _, n := range []string{"Println", "Printf", "Print"} {
		I["log."+n] = nop
		I["(*log.Logger)."+n] = nop
	}

	// ---- errors ----
	I["errors.As"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		w := fr.w
		tgt := w.iface(a[1])
		if tgt.T == nil {
			fr.plainPanic("errors: target cannot be nil")
		}
		pt := tgt.T.Underlying().(*types.Pointer).Elem()
		ok := fr.errorsAs(w.iface(a[0]), pt, tgt.V)
		return w.tc.Bool(ok), true
	}

	// ---- runtime ----
	I["runtime.SetFinalizer"] = nop
	I["runtime.KeepAlive"] = nop
	I["runtime.GC"] = nop
	I["runtime.Gosched"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		fr.w.yieldPoint("gosched")
		return nil, true
	}
	I["runtime.Caller"] = nop
	I["runtime.Callers"] = nop
	I["internal/godebug.New"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) { return (*Value)(nil), true }
	I["(*internal/godebug.Setting).Value"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) { return "", true }
	I["(*internal/godebug.Setting).IncNonDefault"] = nop
	I["(*internal/godebug.Setting).Name"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) { return "", true }
	I["os.Getenv"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) { return "", true }
	I["os.runtime_args"] = nop
	I["internal/race.Acquire"] = nop
	I["internal/race.Release"] = nop

	// ---- math/rand: a concrete pseudo-random stream unless a harness redirects it ----
	I["math/rand.Int63"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		w := fr.w
		w.rng ^= w.rng << 13
		w.rng ^= w.rng >> 7
		w.rng ^= w.rng << 17
		return w.tc.BV(w.rng>>1, 64), true
	}
	I["unique.Make[T]"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) { return Struct{(*Value)(nil)}, true }
	reflectIntrinsics(I)
	jsonIntrinsics(I)
	floatIntrinsics(I)
	timerIntrinsics(I)
	gobIntrinsics(I)

	// ---- the radix tree model ----
	const rx = "github.com/hashicorp/go-immutable-radix."
	I[rx+"vAnd"] = I[rtPkg+".And"]
	I[rx+"vOr"] = I[rtPkg+".Or"]
	I[rx+"vKnown"] = I[rtPkg+".Known"]
	I[rx+"vIte"] = I[rtPkg+".Ite"]
	I[rx+"vIteKey"] = I[rtPkg+".Ite"]
	I[rx+"vEq"] = I[rtPkg+".BytesEq"]
	I[rx+"vLess"] = I[rtPkg+".BytesLess"]
	I[rx+"vPrefix"] = I[rtPkg+".BytesPrefix"]
}

// named gives a term a variable of its own with a known range (the equation is asserted).
func (w *Worker) named(t *Term, wd uint8, lo, hi int64) *Term {
	if t.isConst() {
		return t
	}
	w.ndefs++
	v := w.tc.Var(fmt.Sprintf("def.%d@%d:%d:%d", w.ndefs, wd, lo, hi), wd, lo, hi, true)
	if !w.replaying() {
		w.ensureModel()
	}
	w.rawRange(v, lo, hi)
	eq := w.tc.mk(OEq, 0, 0, v, t, nil)
	w.sol.Assert(eq)
	if w.modelOK && !w.replaying() {
		// extend the current model with the value of the definition
		val := w.tc.Eval(t, w.model)
		m := make(Model, len(w.model)+1)
		for k, x := range w.model {
			m[k] = x
		}
		m[v] = val
		w.setModel(m)
	}
	return v
}

func (w *Worker) wgstate(p *Value) *wgState {
	s := w.wg[p]
	if s == nil {
		s = &wgState{}
		w.wg[p] = s
	}
	return s
}

func (w *Worker) iface(v Value) Iface {
	switch x := v.(type) {
	case Iface:
		return x
	case *Choice:
		return w.iface(w.pick(x))
	}
	panic(unsup("interface expected, got %T", v))
}

func strKind(x Iface) (Value, bool) {
	switch x.V.(type) {
	case string, *SStr:
		if b, ok := x.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return x.V, true
		}
	}
	return nil, false
}

// callMethod calls a niladic-result method by name if the type has it.
func (fr *Frame) tryMethod(x Iface, name string, args ...Value) (Value, bool) {
	w := fr.w
	if x.T == nil {
		return nil, false
	}
	if n, ok := x.V.(nativeIface); ok {
		return n.invoke(fr, name, args), true
	}
	sel := w.methodByName(x.T, name)
	if sel == nil {
		return nil, false
	}
	return w.callFn(fr, sel, append([]Value{copyVal(x.V)}, args...), nil), true
}

func (w *Worker) methodByName(t types.Type, name string) *ssa.Function {
	k := methKey{w.canon(t), name, nil}
	if f, ok := w.mcache[k]; ok {
		return f
	}
	w.P.methMu.Lock()
	defer w.P.methMu.Unlock()
	ms := w.P.Prog.MethodSets.MethodSet(t)
	var f *ssa.Function
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name && ms.At(i).Obj().Exported() {
			f = w.P.Prog.MethodValue(ms.At(i))
			break
		}
	}
	w.mcache[k] = f
	return f
}

func (fr *Frame) errorsAs(err Iface, target types.Type, dst Value) bool {
	w := fr.w
	for {
		if err.T == nil {
			return false
		}
		if it, ok := target.Underlying().(*types.Interface); ok {
			if w.implements(err.T, it) {
				fr.storeTo(dst, err)
				return true
			}
		} else if w.sameType(err.T, target) {
			fr.storeTo(dst, err.V)
			return true
		}
		if f := w.methodByName(err.T, "As"); f != nil && f.Signature.Params().Len() == 1 {
			r := w.callFn(fr, f, []Value{copyVal(err.V), Iface{T: types.NewPointer(target), V: dst}}, nil)
			if t, ok := r.(*Term); ok && w.decide(t) {
				return true
			}
		}
		f := w.methodByName(err.T, "Unwrap")
		if f == nil {
			return false
		}
		r := fr.force(w.callFn(fr, f, []Value{copyVal(err.V)}, nil))
		switch x := r.(type) {
		case Iface:
			err = x
		case []Value:
			for _, e := range x {
				if fr.errorsAs(w.iface(e), target, dst) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// opaqueStr is an unknown string standing for text that no property looks at.
func (w *Worker) opaque(what string) Value { return "<" + what + ">" }

func (fr *Frame) fmtVal(verb byte, x Iface) Value {
	w := fr.w
	if x.T == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb != 'd' && verb != 'T' && verb != 'p' && verb != 'x' && verb != 'c' {
		if ee, ok := w.P.pkgs["errors"]; ok && ee != nil {
			if w.methodByName(x.T, "Error") != nil {
				if p, isP := x.V.(*Value); isP && p == nil {
					return "<nil>"
				}
				r, _ := fr.tryMethod(x, "Error")
				return fr.quoteIf(verb, r)
			}
			if f := w.methodByName(x.T, "String"); f != nil && f.Signature.Params().Len() == 0 {
				if p, isP := x.V.(*Value); isP && p == nil {
					return "<nil>"
				}
				r, _ := fr.tryMethod(x, "String")
				return fr.quoteIf(verb, r)
			}
		}
	}
	switch v := x.V.(type) {
	case string, *SStr:
		return fr.quoteIf(verb, v)
	case *Choice:
		return fr.fmtVal(verb, Iface{x.T, w.pick(v)})
	case *Term:
		if v.w == 0 {
			if w.decide(v) {
				return "true"
			}
			return "false"
		}
		if verb == 'c' && v.isConst() {
			return string(rune(v.v))
		}
		return w.itoa(x.T, v)
	case float64:
		return strconv.FormatFloat(v, 'g', -1, 64)
	}
	if verb == 'T' {
		return types.TypeString(x.T, func(p *types.Package) string { return p.Name() })
	}
	if isByteSlice(x.T) && (verb == 's' || verb == 'q') {
		return fr.quoteIf(verb, w.bytesToStr(x.V))
	}
	return w.opaque("value")
}

func (w *Worker) itoa(t types.Type, v *Term) Value {
	_, signed, _ := intInfo(t)
	if v.isConst() {
		if signed {
			return strconv.FormatInt(sext64(v.v, v.w), 10)
		}
		return strconv.FormatUint(v.v, 10)
	}
	if v.hi-v.lo <= 32 {
		n := w.concInt(v)
		return strconv.FormatInt(n, 10)
	}
	// decimal digits of a wider symbolic integer
	f := w.P.fn("strconv", "FormatInt")
	if !signed {
		f = w.P.fn("strconv", "FormatUint")
	}
	x := v
	if v.w < 64 {
		if signed {
			x = w.tc.Sext(v, 64)
		} else {
			x = w.tc.Zext(v, 64)
		}
	}
	return w.callFn(w.curFrame, f, []Value{x, w.tc.BV(10, 64)}, nil)
}

func (fr *Frame) quoteIf(verb byte, v Value) Value {
	if verb == 'q' {
		if s, ok := v.(string); ok {
			return strconv.Quote(s)
		}
		return fr.w.strConcat(fr.w.strConcat("\"", v), "\"")
	}
	return v
}

func (fr *Frame) sprintf(fv Value, av Value) Value {
	w := fr.w
	f, ok := fv.(string)
	if !ok {
		return w.opaque("formatted")
	}
	vs, _ := av.([]Value)
	var out Value = ""
	k := 0
	lit := ""
	flush := func() {
		if lit != "" {
			out = w.strConcat(out, lit)
			lit = ""
		}
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		flags := ""
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			flags += string(f[i])
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		flush()
		if k >= len(vs) {
			out = w.strConcat(out, "%!"+string(f[i])+"(MISSING)")
			continue
		}
		x := w.iface(vs[k])
		k++
		verb := f[i]
		if verb == 'w' {
			verb = 'v'
		}
		if t, isT := x.V.(*Term); isT && t.isConst() && t.w > 0 && (flags != "" || verb == 'x') {
			if w.methodByName(x.T, "String") == nil || verb == 'd' || verb == 'x' {
				_, sg, _ := intInfo(x.T)
				if sg {
					out = w.strConcat(out, fmt.Sprintf("%"+flags+string(verb), sext64(t.v, t.w)))
				} else {
					out = w.strConcat(out, fmt.Sprintf("%"+flags+string(verb), t.v))
				}
				continue
			}
		}
		out = w.strConcat(out, fr.fmtVal(verb, x))
	}
	flush()
	return out
}

func (w *Worker) waitIdle() {
	for {
		any := false
		for _, t := range w.threads {
			if t.done || t == w.cur {
				continue
			}
			if t.waiting == nil || t.waiting() {
				any = true
			}
		}
		if !any {
			return
		}
		first := true
		w.block(func() bool {
			if first {
				first = false
				return false
			}
			return true
		})
	}
}

var _ = os.Stderr
