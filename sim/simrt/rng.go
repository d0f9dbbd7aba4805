package simrt

import (
	mrand "math/rand"
	mrand2 "math/rand/v2"
	"unsafe"
)

// RNG is splitmix64: tiny, seedable, the same everywhere.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{seed} }

func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (r *RNG) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}
func (r *RNG) Int63() int64    { return int64(r.Uint64() >> 1) }
func (r *RNG) Seed(seed int64) {}
func (r *RNG) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}
func (r *RNG) Range(lo, hi int) int { // inclusive
	if hi <= lo {
		return lo
	}
	return lo + r.Intn(hi-lo+1)
}
func (r *RNG) Float() float64        { return float64(r.Uint64()>>11) / (1 << 53) }
func (r *RNG) Chance(p float64) bool { return r.Float() < p }

// Pick returns one of the arguments.
func Pick[T any](r *RNG, xs ...T) T { return xs[r.Intn(len(xs))] }

// ---- randomness used by the code under test

// libSource is not safe for concurrent use, like the source it stands in for:
// every draw is a write in plain sight of the race detector.
type libSource struct{ _ uint64 }

func (l *libSource) Int63() int64    { raceWrite(unsafe.Pointer(l)); return libRNG().Int63() }
func (l *libSource) Uint64() uint64  { raceWrite(unsafe.Pointer(l)); return libRNG().Uint64() }
func (l *libSource) Seed(seed int64) { raceWrite(unsafe.Pointer(l)) }

var idleRNG = NewRNG(12345)

func libRNG() *RNG {
	if s := cur; s != nil {
		return s.LibRNG
	}
	return idleRNG
}

// NewSource replaces math/rand.NewSource in instrumented code.
func NewSource(seed int64) mrand.Source { return &libSource{} }

// Rand stands in for math/rand's global generator.
func Rand() *mrand.Rand { return mrand.New(&libSource{}) }

func RandV2() *mrand2.Rand { return mrand2.New(&libSource{}) }
