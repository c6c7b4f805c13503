package main

// rng is the pseudo-random generator every choice is made with (splitmix64).
type rng struct{ s uint64 }

func newRng(seed uint64, parts ...uint64) *rng {
	r := &rng{seed}
	for _, p := range parts {
		r.s = r.next() ^ p*0x9e3779b97f4a7c15
	}
	r.next()
	return r
}

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// n returns a number below n.
func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.next() % uint64(n))
}

// in returns a number from a to b.
func (r *rng) in(a, b int) int { return a + r.n(b-a+1) }

// p returns true once in n times.
func (r *rng) p(n int) bool { return r.n(n) == 0 }

// pc returns true in the given percentage of cases.
func (r *rng) pc(percent int) bool { return r.n(100) < percent }

func (r *rng) str(s ...string) string { return s[r.n(len(s))] }

// size returns a number up to max, small ones being more likely.
func (r *rng) size(max int) int {
	for m := 4; m < max; m *= 3 {
		if r.p(2) {
			return r.n(m + 1)
		}
	}
	return r.n(max + 1)
}

func hash64(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}
