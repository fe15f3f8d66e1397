package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Timers of package time run on virtual time: they fire in order when no goroutine can run.

func (w *Worker) newTimer(when *Term, fire func()) *timer {
	t := &timer{when: when, fire: fire, alive: true, seq: len(w.timers)}
	w.timers = append(w.timers, t)
	return t
}

func timerIntrinsics(I map[string]Intrinsic) {
	I["time.runtimeNano"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) { return fr.w.vclock, true }
	I["time.newTimer"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		// newTimer(when, period int64, f func(any, uintptr, int64), arg any, cp unsafe.Pointer) *Timer
		w := fr.w
		if p, ok := a[1].(*Term); !ok || !p.isConst() || p.v != 0 {
			panic(unsup("periodic timer"))
		}
		if w.initDepth > 0 {
			panic(unsup("timer started during init"))
		}
		tt := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		p := new(Value)
		z := w.zero(tt).(Struct)
		z[1] = w.tc.True // initTimer
		*p = z
		f, arg := a[2], a[3]
		w.timerOf[p] = w.newTimer(a[0].(*Term), func() {
			i := w.iface(arg)
			if g, ok := f.(*Closure); ok && g.fn != nil && g.fn.Name() == "goFunc" {
				w.spawn(fr, i.V, nil)
				return
			}
			ch, ok := i.V.(*ChanObj)
			if !ok {
				panic(unsup("timer of another kind"))
			}
			if len(ch.buf) < ch.cap {
				w.chanPush(ch, w.zero(ch.elemT))
			}
		})
		return p, true
	}
	stop := func(w *Worker, v Value) *timer {
		p, _ := v.(*Value)
		t := w.timerOf[p]
		if t == nil {
			panic(unsup("unknown timer"))
		}
		return t
	}
	I["time.stopTimer"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		t := stop(fr.w, a[0])
		was := t.alive
		t.alive = false
		return fr.w.tc.Bool(was), true
	}
	I["time.resetTimer"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		t := stop(fr.w, a[0])
		was := t.alive
		t.alive, t.when = true, a[1].(*Term)
		return fr.w.tc.Bool(was), true
	}
	I["time.Sleep"] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) {
		w := fr.w
		d := a[0].(*Term)
		if w.decide(w.tc.Sle(d, w.tc.BV(0, 64))) {
			w.yieldPoint("sleep")
			return nil, true
		}
		done := false
		w.newTimer(w.tc.Bin(OAdd, w.vclock, d), func() { done = true })
		w.block(func() bool { return done })
		return nil, true
	}
	rt := func(n string, f func(fr *Frame, a []Value) Value) {
		I["github.com/hyperonym/ratus/"+vDir+"/rt."+n] = func(fr *Frame, fn *ssa.Function, a []Value) (Value, bool) { return f(fr, a), true }
	}
	rt("Elapsed", func(fr *Frame, a []Value) Value { return fr.w.vclock })
	rt("MustFinish", func(fr *Frame, a []Value) Value {
		fr.w.mustFinish = fr.cstr(a[0])
		return nil
	})
}
