package lab

// rng is splitmix64; every random choice of a run comes from one of these.
type rng struct{ s uint64 }

func newRng(seed uint64) *rng { return &rng{seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

// between returns a value in [a, b].
func (r *rng) between(a, b int) int { return a + r.n(b-a+1) }

// p is true with probability pct/100.
func (r *rng) p(pct int) bool { return r.n(100) < pct }

func pick[T any](r *rng, l ...T) T { return l[r.n(len(l))] }
