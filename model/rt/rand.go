package rt

import "math/rand"

// RandFloats are the values a fraction may take, with a denominator of 1024.
var RandFloats = []int{0, 1, 256, 512, 1023}

// RandFloat64 is an arbitrary one of RandFloats.
func RandFloat64() float64 { return float64(RandFloats[Choose("fraction", len(RandFloats))]) / 1024 }

// Rand stands in for the generator of package rand.
type Rand struct{}

func RandNew(s rand.Source) *Rand { return &Rand{} }

type source struct{}

func (source) Int63() int64 { return RandInt63() }
func (source) Seed(int64)   {}

func RandNewSource(seed int64) rand.Source { return source{} }

func (*Rand) Float64() float64     { return RandFloat64() }
func (*Rand) Int63() int64         { return RandInt63() }
func (*Rand) Int63n(n int64) int64 { return randN(n) }
func (*Rand) Int31() int32         { return RandInt31() }
func (*Rand) Int31n(n int32) int32 { return RandInt31n(n) }
func (*Rand) Int() int             { return RandInt() }
func (*Rand) Intn(n int) int       { return RandIntn(n) }

// The model random source: a fixed stream unless a harness makes it arbitrary.
var (
	randState uint64 = 0x9E3779B97F4A7C15
	randSym   bool
	randLeft  int
	randMild  int
	randZero  bool
	randDraws int
)

// ZeroDraws counts the draws f makes when every one of them is zero.
func ZeroDraws(f func()) int {
	randZero, randDraws = true, 0
	f()
	randZero = false
	return randDraws
}

// SymRand makes the next n draws arbitrary; executions that draw more are not considered.
func SymRand(n int) { randSym, randLeft = true, n }

// SymRandMild restricts the next n arbitrary 63 bit draws: none of their ten 6 bit groups is 62 or 63.
func SymRandMild(n int) { randMild = n }

func rand64() uint64 {
	randDraws++
	if randZero {
		return 0
	}
	if randSym {
		if randLeft == 0 {
			Stop()
		}
		randLeft--
		v := uint64(Int64("rand", -1<<63, 1<<63-1))
		if randMild > 0 {
			randMild--
			for i := 0; i < 60; i += 6 {
				Assume(v>>i&63 < 62)
			}
		}
		return v
	}
	randState ^= randState << 13
	randState ^= randState >> 7
	randState ^= randState << 17
	return randState
}

func randN(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if randZero {
		randDraws++
		return 0
	}
	if randSym {
		if randLeft == 0 {
			Stop()
		}
		randLeft--
		return Int64("rand", 0, n-1)
	}
	return int64(rand64()>>1) % n
}

func RandInt63() int64          { return int64(rand64() & (1<<63 - 1)) }
func RandUint64() uint64        { return rand64() }
func RandUint32() uint32        { return uint32(rand64() >> 32) }
func RandInt31() int32          { return int32(rand64() >> 33) }
func RandInt() int              { return int(RandInt63()) }
func RandInt63n(n int64) int64  { return randN(n) }
func RandInt31n(n int32) int32  { return int32(randN(int64(n))) }
func RandIntn(n int) int        { return int(randN(int64(n))) }
func Rand2Int64() int64         { return RandInt63() }
func Rand2Int32() int32         { return RandInt31() }
func Rand2Int() int             { return RandInt() }
func Rand2Uint64() uint64       { return RandUint64() }
func Rand2Uint32() uint32       { return RandUint32() }
func Rand2Int64N(n int64) int64 { return randN(n) }
func Rand2Int32N(n int32) int32 { return int32(randN(int64(n))) }
func Rand2IntN(n int) int       { return int(randN(int64(n))) }
func Rand2Uint64N(n uint64) uint64 {
	return uint64(randN(int64(n)))
}
func Rand2Uint32N(n uint32) uint32 { return uint32(randN(int64(n))) }
func Rand2N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](n T) T {
	return T(randN(int64(n)))
}

// RandRead fills b; a symbolic stream is drawn byte by byte.
func RandRead(b []byte) (int, error) {
	for i := range b {
		if randSym || randZero {
			b[i] = byte(randN(256))
		} else {
			b[i] = byte(rand64() >> 56)
		}
	}
	return len(b), nil
}
