package main

// Rand is a small deterministic generator (splitmix64); every random choice of a case comes from one of these.
type Rand struct{ s uint64 }

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix(h)
}

func NewRand(parts ...uint64) *Rand {
	h := uint64(0x1234567)
	for _, p := range parts {
		h = mix(h ^ p)
	}
	return &Rand{h}
}

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// N returns a number in [0,n).
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [a,b].
func (r *Rand) Range(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability num/den.
func (r *Rand) P(num, den int) bool { return r.N(den) < num }

func (r *Rand) Bool() bool { return r.U64()&1 == 0 }

func pick[T any](r *Rand, xs []T) T { return xs[r.N(len(xs))] }

// geo returns a small number with a geometric tail, at most max.
func (r *Rand) Geo(max int) int {
	n := 0
	for n < max && r.N(3) != 0 {
		n++
	}
	return n
}

func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.N(i+1))
	}
}
