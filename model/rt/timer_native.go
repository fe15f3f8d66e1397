//go:build !verifsym

package rt

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"
)

// Virtual time: a timer fires when all workers wait for one, or after nothing changed for long.
type vtimer struct {
	when   int64
	seq    int
	fire   func()
	armed  bool
	worker bool
}

var vt struct {
	sync.Mutex
	now     int64
	seq     int
	list    []*vtimer
	workers int
	changes int
	must    string
	on      bool
}

var vtIdle = 5 * time.Millisecond

const vtStuck = 2 * time.Second

// Idle sets how long nothing happens before time goes on.
func Idle(d time.Duration) { vtIdle = d }

func (t *vtimer) arm(d time.Duration) bool {
	vt.Lock()
	defer vt.Unlock()
	if !vt.on {
		vt.on = true
		go vtLoop()
	}
	was := t.armed
	if d < 0 {
		d = 0
	}
	if t.seq == 0 {
		vt.list = append(vt.list, t)
	}
	vt.seq++
	t.when, t.seq, t.armed = vt.now+int64(d), vt.seq, true
	vt.changes++
	return was
}

func (t *vtimer) stop() bool {
	vt.Lock()
	defer vt.Unlock()
	was := t.armed
	t.armed = false
	vt.changes++
	return was
}

func vtLoop() {
	// Rounds of sleep are counted instead of the time that passes, and with one processor every other goroutine that can
	// run does so in every round: a busy machine does not make the clock go on too early.
	runtime.GOMAXPROCS(1)
	last, rounds := -1, 0
	for {
		time.Sleep(time.Millisecond)
		vt.Lock()
		rounds++
		if vt.changes != last {
			last, rounds = vt.changes, 0
		}
		var next *vtimer
		armed := 0
		for _, t := range vt.list {
			if !t.armed {
				continue
			}
			if t.worker {
				armed++
			}
			if next == nil || t.when < next.when || t.when == next.when && t.seq < next.seq {
				next = t
			}
		}
		d := time.Duration(rounds) * time.Millisecond
		if (armed < vt.workers || d < vtIdle) && d < vtStuck {
			vt.Unlock()
			continue
		}
		if next == nil {
			must := vt.must
			vt.Unlock()
			if must == "" {
				continue
			}
			Assert(false, must)
			mu.Lock()
			o, _ := json.Marshal(out)
			fmt.Printf("\nRESULT %s\n", o)
			os.Stdout.Sync()
			os.Exit(0)
		}
		vt.now = next.when
		next.armed = false
		vt.changes++
		vt.Unlock()
		next.fire()
	}
}

// Timer is a timer on virtual time.
type Timer struct {
	C <-chan time.Time
	t *vtimer
}

func (t *Timer) Stop() bool                 { return t.t.stop() }
func (t *Timer) Reset(d time.Duration) bool { return t.t.arm(d) }

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &vtimer{worker: true, fire: func() {
		select {
		case c <- Now():
		default:
		}
	}}
	t.arm(d)
	return &Timer{c, t}
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &vtimer{fire: func() { go f() }}
	t.arm(d)
	return &Timer{nil, t}
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func Sleep(d time.Duration) {
	if d > 0 {
		<-After(d)
	}
}

// Ticker is a ticker on virtual time.
type Ticker struct {
	C <-chan time.Time
	t *vtimer
	d time.Duration
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	k := &Ticker{C: c, d: d}
	k.t = &vtimer{worker: true, fire: func() {
		select {
		case c <- Now():
		default:
		}
		k.t.arm(k.d)
	}}
	k.t.arm(d)
	return k
}
func (k *Ticker) Stop() { k.t.stop() }
func (k *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	k.d = d
	k.t.arm(d)
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// At runs f after d.
func At(d time.Duration, f func()) { AfterFunc(d, f) }

// Elapsed is the virtual time in nanoseconds.
func Elapsed() int64 {
	vt.Lock()
	defer vt.Unlock()
	return vt.now
}

// MustFinish makes a run in which nothing can go on violate msg.
func MustFinish(msg string) {
	vt.Lock()
	defer vt.Unlock()
	vt.must = msg
}

// Workers tells how many goroutines wait for a timer when nothing else is left to do.
func Workers(n int) {
	vt.Lock()
	defer vt.Unlock()
	vt.workers = n
}
