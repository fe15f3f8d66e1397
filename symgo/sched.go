package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Thread struct {
	id      int
	wake    chan struct{}
	exit    chan struct{}
	done    bool
	waiting func() bool
	fr      *Frame
	depth   int
	main    bool
	joined  bool
}

type timer struct {
	when  *Term // nanoseconds of virtual time; concrete order index when nil
	seq   int
	fire  func()
	alive bool
}

type sched struct {
	threads    []*Thread
	cur        *Thread
	killed     bool
	thrErr     any
	preempt    bool
	nchan      int
	curFrame   *Frame
	schedLog   []int
	timers     []*timer
	mu         map[*Value]*muState
	wg         map[*Value]*wgState
	nswitch    int
	maxPreempt int
}

type muState struct {
	locked  bool
	readers int
}
type wgState struct{ n int }

func (w *Worker) resetSched() {
	w.threads = []*Thread{{id: 0, main: true, wake: make(chan struct{}), exit: make(chan struct{})}}
	w.cur = w.threads[0]
	w.killed = false
	w.thrErr = nil
	w.preempt = false
	w.nchan = 0
	w.curFrame = nil
	w.schedLog = nil
	w.timers = nil
	w.mu = map[*Value]*muState{}
	w.wg = map[*Value]*wgState{}
	w.nswitch = 0
	w.maxPreempt = 1 << 30
}

func (w *Worker) mainThread() {
	f := w.P.harnessFn(w.h.Func)
	if f == nil {
		panic(unsup("harness function %s not found", w.h.Func))
	}
	w.callFn(nil, f, nil, nil)
}

func (w *Worker) killThreads() {
	w.killed = true
	for _, t := range w.threads {
		if t.main || t.done {
			continue
		}
		t.wake <- struct{}{}
		<-t.exit
	}
}

func (w *Worker) spawn(fr *Frame, fn Value, args []Value) *Thread {
	if w.initDepth > 0 {
		panic(unsup("goroutine started during init"))
	}
	t := &Thread{id: len(w.threads), wake: make(chan struct{}), exit: make(chan struct{})}
	if t.id > 64 {
		panic(unsup("too many goroutines"))
	}
	w.threads = append(w.threads, t)
	go func() {
		defer close(t.exit)
		<-t.wake
		if w.killed {
			t.done = true
			return
		}
		var err any
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(pathKill); ok {
						return
					}
					err = r
				}
			}()
			switch f := fn.(type) {
			case *boundBuiltin:
				(&Frame{w: w, fn: fr.fn, info: fr.info}).builtin(f, args)
			default:
				w.call(nil, f, args)
			}
		}()
		if w.killed {
			t.done = true
			return
		}
		t.done = true
		if err != nil {
			if tp, ok := err.(targetPanic); ok {
				w.goPanic = tp
				err = tp
			}
			w.thrErr = err
			w.handOver(w.threads[0])
			return
		}
		// pick a successor
		func() {
			defer func() {
				if r := recover(); r != nil {
					w.thrErr = r
					w.handOver(w.threads[0])
				}
			}()
			next := w.pickNext(false)
			w.handOver(next)
		}()
	}()
	return t
}

// handOver transfers the baton from a finished thread.
func (w *Worker) handOver(next *Thread) {
	w.cur = next
	w.curFrame, w.depth = next.fr, next.depth
	next.wake <- struct{}{}
}

func (w *Worker) switchTo(next *Thread) {
	me := w.cur
	if next == me {
		return
	}
	me.fr, me.depth = w.curFrame, w.depth
	w.cur = next
	w.curFrame, w.depth = next.fr, next.depth
	next.wake <- struct{}{}
	<-me.wake
	if w.killed {
		panic(pathKill{})
	}
	w.cur = me
	w.curFrame, w.depth = me.fr, me.depth
	if me.main && w.thrErr != nil {
		e := w.thrErr
		w.thrErr = nil
		panic(e)
	}
}

func (w *Worker) runnable() []*Thread {
	var r []*Thread
	for _, t := range w.threads {
		if t.done || t == w.cur {
			continue
		}
		if t.waiting == nil || t.waiting() {
			r = append(r, t)
		}
	}
	return r
}

// pickNext chooses among runnable threads other than the current one,
// firing timers when nobody can run.
func (w *Worker) pickNext(curOK bool) *Thread {
	for {
		r := w.runnable()
		if len(r) > 0 {
			k := 0
			if w.preempt && len(r) > 1 {
				k = w.choose(len(r))
			}
			w.logSched(r[k].id)
			return r[k]
		}
		if curOK && w.cur.waiting != nil && w.cur.waiting() {
			return w.cur
		}
		if !w.fireTimer() {
			if w.mustFinish != "" {
				if w.h.owns(w.mustFinish) {
					w.assert(w.tc.False, w.mustFinish, "all goroutines are asleep")
				}
				panic(pathEnd{"assume"})
			}
			panic(pathEnd{"deadlock"})
		}
	}
}

func (w *Worker) logSched(id int) {
	if w.preempt {
		w.schedLog = append(w.schedLog, id)
	}
}

// yieldPoint is a possible context switch.
func (w *Worker) yieldPoint(label string) {
	if !w.preempt || w.initDepth > 0 {
		return
	}
	r := w.runnable()
	if len(r) == 0 {
		return
	}
	if w.nswitch >= w.maxPreempt {
		return
	}
	k := w.choose(len(r) + 1)
	if k == 0 {
		w.logSched(w.cur.id)
		return
	}
	w.nswitch++
	w.logSched(r[k-1].id)
	w.switchTo(r[k-1])
}

func (w *Worker) block(cond func() bool) {
	for !cond() {
		if w.initDepth > 0 {
			panic(unsup("blocking operation during init"))
		}
		w.cur.waiting = cond
		next := w.pickNext(true)
		w.switchTo(next)
		w.cur.waiting = nil
	}
	w.cur.waiting = nil
}

func (w *Worker) fireTimer() bool {
	var best *timer
	for _, t := range w.timers {
		if !t.alive {
			continue
		}
		if best == nil {
			best = t
			continue
		}
		if w.decide(w.tc.Slt(t.when, best.when)) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	best.alive = false
	// advance the virtual clock to the timer
	if w.decide(w.tc.Slt(w.vclock, best.when)) {
		w.vclock = best.when
	}
	best.fire()
	return true
}

// ---- channels ----

func (w *Worker) chanSend(fr *Frame, cv Value, v Value) {
	ch, _ := cv.(*ChanObj)
	if ch == nil {
		w.block(func() bool { return false })
	}
	w.yieldPoint("send")
	if ch.closed {
		fr.plainPanic("send on closed channel")
	}
	if len(ch.buf) < ch.cap {
		w.chanPush(ch, copyVal(v))
		return
	}
	rq := &sendReq{v: copyVal(v)}
	w.chanMut(ch)
	ch.sendQ = append(append([]*sendReq{}, ch.sendQ...), rq)
	w.block(func() bool { return rq.done || ch.closed })
	if !rq.done {
		fr.plainPanic("send on closed channel")
	}
}

func (fr *Frame) plainPanic(msg string) {
	panic(targetPanic{v: Iface{T: fr.w.P.rtErrType, V: msg}, where: fr.w.stackOf(fr)})
}

func (w *Worker) chanMut(ch *ChanObj) {
	buf, sq, cl := ch.buf, ch.sendQ, ch.closed
	w.logUndo(func() { ch.buf, ch.sendQ, ch.closed, ch.recvWaiting = buf, sq, cl, 0 })
}

func (w *Worker) chanPush(ch *ChanObj, v Value) {
	w.chanMut(ch)
	ch.buf = append(append([]Value{}, ch.buf...), v)
}

func (ch *ChanObj) recvReady() bool {
	return len(ch.buf) > 0 || len(ch.sendQ) > 0 || ch.closed
}

func (w *Worker) chanTake(ch *ChanObj) (Value, bool) {
	w.chanMut(ch)
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value{}, ch.buf[1:]...)
		if len(ch.sendQ) > 0 {
			rq := ch.sendQ[0]
			ch.sendQ = append([]*sendReq{}, ch.sendQ[1:]...)
			rq.done = true
			ch.buf = append(ch.buf, rq.v)
		}
		return v, true
	}
	if len(ch.sendQ) > 0 {
		rq := ch.sendQ[0]
		ch.sendQ = append([]*sendReq{}, ch.sendQ[1:]...)
		rq.done = true
		return rq.v, true
	}
	return w.zero(ch.elemT), false
}

func (w *Worker) chanRecv(fr *Frame, cv Value, commaOk bool) Value {
	ch, _ := cv.(*ChanObj)
	if ch == nil {
		w.block(func() bool { return false })
	}
	w.yieldPoint("recv")
	ch.recvWaiting++
	w.block(ch.recvReady)
	ch.recvWaiting--
	v, ok := w.chanTake(ch)
	if commaOk {
		return Tuple{v, w.tc.Bool(ok)}
	}
	return v
}

func (w *Worker) chanClose(fr *Frame, cv Value) {
	ch, _ := cv.(*ChanObj)
	if ch == nil {
		fr.plainPanic("close of nil channel")
	}
	if ch.closed {
		fr.plainPanic("close of closed channel")
	}
	w.chanMut(ch)
	ch.closed = true
	w.yieldPoint("close")
}

func (w *Worker) selectStmt(fr *Frame, x *ssa.Select) Value {
	type cse struct {
		ch   *ChanObj
		send bool
		v    Value
	}
	var cs []cse
	for _, s := range x.States {
		ch, _ := fr.force(fr.get(s.Chan)).(*ChanObj)
		c := cse{ch: ch, send: s.Dir == types.SendOnly}
		if c.send {
			c.v = fr.get(s.Send)
		}
		cs = append(cs, c)
	}
	w.yieldPoint("select")
	ready := func() []int {
		var r []int
		for i, c := range cs {
			if c.ch == nil {
				continue
			}
			if c.send {
				if c.ch.closed || len(c.ch.buf) < c.ch.cap || c.ch.recvWaiting > len(c.ch.sendQ) {
					r = append(r, i)
				}
			} else if c.ch.recvReady() {
				r = append(r, i)
			}
		}
		return r
	}
	r := ready()
	if len(r) == 0 {
		if !x.Blocking {
			return w.selResult(x, -1, nil, false)
		}
		for _, c := range cs {
			if c.ch != nil && !c.send {
				c.ch.recvWaiting++
			}
		}
		w.block(func() bool { return len(ready()) > 0 })
		for _, c := range cs {
			if c.ch != nil && !c.send {
				c.ch.recvWaiting--
			}
		}
		r = ready()
	}
	k := 0
	if len(r) > 1 {
		k = w.choose(len(r))
	}
	c := cs[r[k]]
	if c.send {
		if c.ch.closed {
			fr.plainPanic("send on closed channel")
		}
		if len(c.ch.buf) < c.ch.cap {
			w.chanPush(c.ch, copyVal(c.v))
		} else {
			rq := &sendReq{v: copyVal(c.v)}
			w.chanMut(c.ch)
			c.ch.sendQ = append(append([]*sendReq{}, c.ch.sendQ...), rq)
			w.block(func() bool { return rq.done })
		}
		return w.selResult(x, r[k], nil, false)
	}
	v, ok := w.chanTake(c.ch)
	return w.selResult(x, r[k], v, ok)
}

func (w *Worker) selResult(x *ssa.Select, idx int, v Value, ok bool) Value {
	t := Tuple{w.tc.BV(uint64(int64(idx)), 64), w.tc.Bool(ok)}
	for i, s := range x.States {
		if s.Dir == types.RecvOnly {
			if i == idx {
				t = append(t, v)
			} else {
				t = append(t, w.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return t
}

func (w *Worker) mustate(p *Value) *muState {
	s := w.mu[p]
	if s == nil {
		s = &muState{}
		w.mu[p] = s
	}
	return s
}

var _ = fmt.Sprint
