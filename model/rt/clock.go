package rt

import "time"

// The model clock: harnesses set it, time.Now (redirected) reads it.
var nowVal time.Time

// SetNow sets the instant the code under test will see.
func SetNow(t time.Time) { nowVal = t }

// Now is what time.Now returns to the code under test.
//
//verif:replaces time.Now
func Now() time.Time { return nowVal }

const (
	MinSec = -62135596800 // year 1
	MaxSec = 253402300799 // year 9999
)

// Time returns an arbitrary instant within years 1 to 9999 with nanosecond resolution.
func Time(name string) time.Time { return TimeIn(name, MinSec, MaxSec) }

// TimeIn returns an arbitrary instant with Unix seconds within [lo, hi].
func TimeIn(name string, lo, hi int64) time.Time {
	sec := Int64(name+".sec", lo, hi)
	ms := Int64(name+".ms", 0, 999)
	sub := Int64(name+".sub", 0, 999999)
	return time.Unix(sec, ms*1000000+sub).UTC()
}

func Not(b bool) bool { return !b }

// TimeEq compares optional instants without forking on their values.
func TimeEq(a, b *time.Time) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Equal(*b)
}

// Name returns an arbitrary string of min to max bytes without the bytes 0 and 1.
func Name(name string, min, max int) string { return StringIn(name, min, max, 2, 255) }

// Since and Until measure against the model clock.
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
