package simkit

import "math/bits"

// Rng is the only source of choices: splitmix64, fully determined by its seed.
type Rng struct{ s uint64 }

// NewRng returns a generator for the seed.
func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

// U64 returns 64 bits.
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n); 0 if n < 1.
func (r *Rng) Intn(n int) int {
	if n < 1 {
		return 0
	}
	hi, _ := bits.Mul64(r.U64(), uint64(n))
	return int(hi)
}

// Range returns a number in [a,b].
func (r *Rng) Range(a, b int) int { return a + r.Intn(b-a+1) }

// P is true with probability p.
func (r *Rng) P(p float64) bool { return float64(r.U64()>>11)/(1<<53) < p }

// Pick returns one of the strings.
func (r *Rng) Pick(s ...string) string { return s[r.Intn(len(s))] }

// Fork derives an independent generator.
func (r *Rng) Fork() *Rng { return NewRng(r.U64()) }

// Mix hashes numbers into a seed.
func Mix(v ...uint64) uint64 {
	h := uint64(0xcbf29ce484222325)
	for _, x := range v {
		r := NewRng(h ^ x)
		h = r.U64()
	}
	return h
}

// HashStr is FNV-1a.
func HashStr(h uint64, s string) uint64 {
	if h == 0 {
		h = 0xcbf29ce484222325
	}
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 0x100000001b3
	}
	h ^= 0xff
	h *= 0x100000001b3
	return h
}
