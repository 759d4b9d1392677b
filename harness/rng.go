package main

import (
	"hash/fnv"
)

// RNG is a splitmix64 generator. Every case of every stream has one of its own,
// derived from (seed, property, stream, index), so that a case replays alone.
type RNG struct{ s uint64 }

func newRNG(seed int64, parts ...string) *RNG {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	r := &RNG{s: uint64(seed)*0x9e3779b97f4a7c15 ^ h.Sum64()}
	r.next()
	r.next()
	return r
}

func (r *RNG) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// n returns a number in [0, k).
func (r *RNG) n(k int) int {
	if k <= 1 {
		return 0
	}
	return int(r.next() % uint64(k))
}

// in returns a number in [lo, hi].
func (r *RNG) in(lo, hi int) int { return lo + r.n(hi-lo+1) }

// p is true with probability num/den.
func (r *RNG) p(num, den int) bool { return r.n(den) < num }

func (r *RNG) pick(s []string) string { return s[r.n(len(s))] }

// heavy returns a heavy tailed number in [0, max].
func (r *RNG) heavy(max int) int {
	k := r.n(16)
	switch {
	case k < 11:
		return r.n(min(max, 3) + 1)
	case k < 14:
		return r.n(min(max, 8) + 1)
	case k < 15:
		return r.n(min(max, 24) + 1)
	default:
		return r.n(max + 1)
	}
}

func (r *RNG) shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.n(i+1))
	}
}
