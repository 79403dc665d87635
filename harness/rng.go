package main

import (
	"hash/fnv"
	"strconv"
)

// Rng is a small deterministic generator (splitmix64).
type Rng struct{ s uint64 }

// NewRng returns a generator whose sequence is determined by its arguments.
func NewRng(parts ...any) *Rng { return &Rng{s: H(parts...)} }

func (r *Rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0, n).
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.next() % uint64(n))
}

// Range returns a number in [lo, hi].
func (r *Rng) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// P returns true with a probability of pct percent.
func (r *Rng) P(pct int) bool { return r.Intn(100) < pct }

// Perm returns a random permutation of [0, n).
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func pick[T any](r *Rng, s []T) T { return s[r.Intn(len(s))] }

func shuffled[T any](r *Rng, s []T) []T {
	out := make([]T, len(s))
	for i, j := range r.Perm(len(s)) {
		out[i] = s[j]
	}
	return out
}

// H hashes its arguments.
func H(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			h.Write([]byte(x))
		case int:
			h.Write([]byte(strconv.Itoa(x)))
		case uint64:
			h.Write([]byte(strconv.FormatUint(x, 16)))
		default:
			panic("H: unsupported type")
		}
		h.Write([]byte{0})
	}
	z := h.Sum64()
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
