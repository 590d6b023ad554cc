package main

// R is a splitmix64 generator: every random choice of the harness comes from VERIF_SEED through it.
type R struct {
	s    uint64
	grow int // the number of elements of every list, when it is not 0
}

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// newR derives an independent stream from its parts.
func newR(parts ...uint64) *R {
	h := uint64(0x9e3779b97f4a7c15)
	for _, p := range parts {
		h = mix(h ^ mix(p+0x9e3779b97f4a7c15))
	}
	return &R{s: h}
}

func (r *R) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// N returns an integer in [0, n).
func (r *R) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns an integer in [a, b].
func (r *R) Range(a, b int) int { return a + r.N(b-a+1) }

// Size is a number of elements: from lo to hi, rarely much more.
func (r *R) Size(lo, hi int) int {
	if r.P(2) {
		return r.Range(hi+1, 50)
	}
	return r.Range(lo, hi)
}

// count is Size, unless the lists have a given size.
func (r *R) count(lo, hi int) int {
	if r.grow > 0 {
		return r.grow
	}
	return r.Size(lo, hi)
}

// P is true p percent of the times.
func (r *R) P(p int) bool { return r.N(100) < p }

func pick[T any](r *R, list ...T) T { return list[r.N(len(list))] }

func shuffle[T any](r *R, list []T) {
	for i := len(list) - 1; i > 0; i-- {
		j := r.N(i + 1)
		list[i], list[j] = list[j], list[i]
	}
}
