package simrt

// RNG is a splitmix64 stream. Every concern of a simulation has a stream of its own, so that adding a draw to one
// leaves the others as they are.
type RNG struct{ s uint64 }

func NewRNG(seed uint64, stream string) *RNG {
	h := uint64(14695981039346656037)
	for i := 0; i < len(stream); i++ {
		h ^= uint64(stream[i])
		h *= 1099511628211
	}
	r := &RNG{s: seed*0x9e3779b97f4a7c15 ^ h}
	r.Uint64()
	return r
}

func (r *RNG) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N is uniform in [0,n).
func (r *RNG) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// In is uniform in [lo,hi].
func (r *RNG) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability pct/100.
func (r *RNG) P(pct int) bool { return r.N(100) < pct }

func Pick[T any](r *RNG, xs ...T) T { return xs[r.N(len(xs))] }

func Shuffle[T any](r *RNG, xs []T) {
	for i := len(xs) - 1; i > 0; i-- {
		j := r.N(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}

// Shuffled is a shuffled copy.
func Shuffled[T any](r *RNG, xs []T) []T {
	ys := append([]T{}, xs...)
	Shuffle(r, ys)
	return ys
}
