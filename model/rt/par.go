package rt

import "sync"

// A cooperative scheduler: threads switch only at gates, and every scheduling decision is an
// ordinary choice, so that a schedule found by the solver replays natively.

type parThread struct {
	wake chan struct{}
	done bool
	free func() bool
}

type parSched struct {
	cur  *parThread
	back chan struct{}
}

var par *parSched

// Atomic makes gates do nothing while a thread sets it.
var Atomic bool

// Gate is a point where another thread may be scheduled. free says whether the thread can go on.
func Gate(free func() bool) {
	p := par
	if p == nil || Atomic {
		return
	}
	t := p.cur
	t.free = free
	p.back <- struct{}{}
	<-t.wake
	t.free = nil
}

// Par runs the functions as threads in every order of their gates. It reports whether all finished.
func Par(fs ...func()) bool {
	p := &parSched{back: make(chan struct{})}
	var ts []*parThread
	for _, f := range fs {
		f := f
		t := &parThread{wake: make(chan struct{})}
		ts = append(ts, t)
		go func() {
			<-t.wake
			f()
			t.done = true
			p.back <- struct{}{}
		}()
	}
	par, Atomic = p, false
	defer func() { par = nil }()
	for {
		var ready []*parThread
		left := 0
		for _, t := range ts {
			if t.done {
				continue
			}
			left++
			if t.free == nil || t.free() {
				ready = append(ready, t)
			}
		}
		if left == 0 {
			return true
		}
		if len(ready) == 0 {
			return false
		}
		k := 0
		if len(ready) > 1 {
			k = Choose("sched", len(ready))
		}
		p.cur = ready[k]
		ready[k].wake <- struct{}{}
		<-p.back
	}
}

// Mutex is a mutex whose waits are gates.
type Mutex struct{ m sync.Mutex }

func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) Lock() {
	Gate(func() bool {
		if m.m.TryLock() {
			m.m.Unlock()
			return true
		}
		return false
	})
	m.m.Lock()
}

// RWMutex is a reader/writer mutex whose waits are gates.
type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock() }
func (m *RWMutex) Lock() {
	Gate(func() bool {
		if m.m.TryLock() {
			m.m.Unlock()
			return true
		}
		return false
	})
	m.m.Lock()
}
func (m *RWMutex) RLock() {
	Gate(func() bool {
		if m.m.TryRLock() {
			m.m.RUnlock()
			return true
		}
		return false
	})
	m.m.RLock()
}
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }
