//go:build verifsym

// Package rt is the interface between harnesses and the symbolic executor.
// With the verifsym tag its functions are intercepted by the executor.
package rt

import "time"

func Int64(name string, lo, hi int64) int64             { panic("intercepted") }
func Bool(name string) bool                             { panic("intercepted") }
func String(name string, min, max int) string           { panic("intercepted") }
func StringIn(name string, min, max, lo, hi int) string { panic("intercepted") }
func Choose(name string, n int) int                     { panic("intercepted") }
func Arg(name string, def int) int                      { panic("intercepted") }
func Assume(b bool)                                     { panic("intercepted") }
func Assert(b bool, msg string)                         { panic("intercepted") }
func Reach(label string)                                { panic("intercepted") }
func Note(s string)                                     { panic("intercepted") }
func Dump(v any)                                        { panic("intercepted") }
func Obs(label string, v any)                           { panic("intercepted") }
func And(a, b bool) bool                                { panic("intercepted") }
func Or(a, b bool) bool                                 { panic("intercepted") }
func Implies(a, b bool) bool                            { panic("intercepted") }
func IteInt(c bool, a, b int64) int64                   { panic("intercepted") }
func Native() bool                                      { panic("intercepted") }
func Stop()                                             { panic("intercepted") }
func StrLE(a, b string) bool                            { panic("intercepted") }
func StrPrefix(s, p string) bool                        { panic("intercepted") }
func BytesEq(a, b []byte) bool                          { panic("intercepted") }
func IsConcrete(v any) bool                             { panic("intercepted") }
func Known(b bool) int                                  { panic("intercepted") }
func TypeName(v any) string                             { panic("intercepted") }
func Preempt(on bool)                                   { panic("intercepted") }
func Yield()                                            { panic("intercepted") }
func WaitIdle()                                         { panic("intercepted") }
func Threads() int                                      { panic("intercepted") }
func Catch(f func()) string                             { panic("intercepted") }
func Concrete(n int) int                                { panic("intercepted") }

func Possible(b bool, label string) { panic("intercepted") }

// Sweep runs f; natively, when a case asks for it, many times.
func Sweep(f func(sweeping bool)) { f(false) }

// JSONScan finds the first JSON value in b: its start, its length (0 if incomplete) and the syntax error.
func JSONScan(b []byte) (int, int, error) { panic("intercepted") }

// JSONDecode decodes one JSON value into v.
func JSONDecode(b []byte, v any, strict bool) error { panic("intercepted") }

// Timers of the client run on virtual time.
type Timer = time.Timer

// Ticker is a ticker on virtual time.
type Ticker struct {
	C       <-chan time.Time
	c       chan time.Time
	t       *time.Timer
	d       time.Duration
	stopped bool
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	k := &Ticker{C: c, c: c, d: d}
	k.t = time.AfterFunc(d, k.tick)
	return k
}

func (k *Ticker) tick() {
	if k.stopped {
		return
	}
	select {
	case k.c <- Now():
	default:
	}
	k.t.Reset(k.d)
}

func (k *Ticker) Stop() { k.stopped = true; k.t.Stop() }
func (k *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	k.stopped, k.d = false, d
	k.t.Reset(d)
}

// Idle is how long natively nothing happens before virtual time goes on.
func Idle(d time.Duration) {}

func NewTimer(d time.Duration) *time.Timer            { return time.NewTimer(d) }
func AfterFunc(d time.Duration, f func()) *time.Timer { return time.AfterFunc(d, f) }
func After(d time.Duration) <-chan time.Time          { return time.After(d) }
func Sleep(d time.Duration)                           { time.Sleep(d) }
func Tick(d time.Duration) <-chan time.Time           { return NewTicker(d).C }

// At runs f after d.
func At(d time.Duration, f func()) { time.AfterFunc(d, f) }

// Elapsed is the virtual time in nanoseconds.
func Elapsed() int64 { panic("intercepted") }

// MustFinish makes a run in which nothing can go on violate msg.
func MustFinish(msg string) { panic("intercepted") }

// Workers tells how many goroutines wait for a timer when nothing else is left to do.
func Workers(n int) {}

// GobEncode makes a message of v.
func GobEncode(v any) ([]byte, error) { panic("intercepted") }

// GobDecode stores the message in v.
func GobDecode(b []byte, v any) error { panic("intercepted") }

// GobTypes is how many types have to be described before v.
func GobTypes(v any) int { panic("intercepted") }
