package simrt

import (
	"encoding/binary"
	"errors"
	"math/rand/v2"
)

// Rng is a small deterministic generator (splitmix64).
type Rng struct{ s uint64 }

// NewRng returns a generator for the seed.
func NewRng(seed uint64) Rng { return Rng{seed} }

// U64 returns the next value.
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability p percent.
func (r *Rng) P(p int) bool { return r.N(100) < p }

// Geom returns a value >= 1 with the given mean, roughly geometric.
func (r *Rng) Geom(mean int) int64 {
	if mean <= 1 {
		return 1
	}
	n := int64(1)
	// Sum of a uniform and occasional long stretches: cheap and heavy-tailed enough.
	n += int64(r.N(2*mean - 1))
	if r.N(16) == 0 {
		n += int64(r.N(16 * mean))
	}
	return n
}

// Mix64 combines values into a seed.
func Mix64(vs ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, v := range vs {
		r := Rng{h ^ v}
		h = r.U64()
	}
	return h
}

// Stream is a cryptographically strong deterministic byte stream.
type Stream struct {
	c   *rand.ChaCha8
	pos int64
}

// NewStream returns the stream with the given seed.
func NewStream(seed uint64) *Stream {
	var b [32]byte
	r := NewRng(seed)
	for i := 0; i < 4; i++ {
		binary.LittleEndian.PutUint64(b[8*i:], r.U64())
	}
	return &Stream{c: rand.NewChaCha8(b)}
}

// ZeroStream is a stream of zeros.
func ZeroStream() *Stream { return &Stream{} }

// Read fills p.
func (s *Stream) Read(p []byte) {
	if s.c == nil {
		clear(p)
	} else {
		_, _ = s.c.Read(p)
	}
	s.pos += int64(len(p))
}

// RandHook, if set, serves all randomness. It returns the number of bytes delivered.
var RandHook func(p []byte) (int, error)

// ErrRand is the error of a failing randomness source.
var ErrRand = errors.New("simulated randomness failure")

var globalStream = NewStream(1)

// ResetRand restarts the randomness used outside of operations.
func ResetRand(seed uint64) { globalStream = NewStream(seed) }

// RandRead is the simulated system randomness.
func RandRead(p []byte) (int, error) {
	YIO()
	if RandHook != nil {
		return RandHook(p)
	}
	globalStream.Read(p)
	return len(p), nil
}

// GlobalRand fills p from the stream used outside of operations.
func GlobalRand(p []byte) { globalStream.Read(p) }

// Reader is the io.Reader form of RandRead.
type Reader struct{}

func (Reader) Read(p []byte) (int, error) { return RandRead(p) }

var resets []func()

// OnReset registers a function that gives the variables of a package of the library their initial values.
func OnReset(f func()) { resets = append(resets, f) }

// ResetVars undoes what earlier runs in the same process left in the variables of the library's packages.
func ResetVars() {
	mapUses = nil
	for _, f := range resets {
		f()
	}
}

// PkgState is set when packages of the library keep state in variables: all instances belong to one process.
var PkgState bool

// Outside runs f without scheduling points.
func Outside(f func()) {
	t := cur
	if t == nil {
		f()
		return
	}
	account(t)
	cur = nil
	budget, granted = 1<<62, 1<<62
	f()
	cur = t
	grant(t)
}
