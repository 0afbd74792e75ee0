package rt

// Choice streams. Everything random in a run is drawn from one of a few named
// streams, all seeded from the one run seed. A stream records what it returned;
// a replay feeds the recorded values back. Value 0 is always the simplest
// choice, and a replay that runs off the end of a stream gets zeros, which is
// what lets the minimiser cut and zero recorded choices freely.

type Stream struct {
	Name   string
	state  uint64
	Rec    []uint32
	replay []uint32
	isRep  bool
	pos    int
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Mix64 hashes a list of integers into one (seed derivation).
func Mix64(xs ...uint64) uint64 {
	h := uint64(0x12345)
	for _, x := range xs {
		h = mix(h ^ mix(x))
	}
	return h
}

func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func NewStream(name string, seed uint64) *Stream {
	return &Stream{Name: name, state: Mix64(seed, HashString(name))}
}

func ReplayStream(name string, vals []uint32) *Stream {
	return &Stream{Name: name, isRep: true, replay: vals}
}

func (s *Stream) next() uint64 {
	s.state += 0x9e3779b97f4a7c15
	return mix(s.state)
}

func (s *Stream) draw(f func() uint32, max uint32) uint32 {
	var v uint32
	if s.isRep {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
			if v > max {
				v = max
			}
		}
		s.pos++
		if s.Name == "gen" && s.pos > len(s.replay)+1000000 {
			panic("the replayed choices do not end the generator")
		}
	} else {
		v = f()
	}
	s.Rec = append(s.Rec, v)
	return v
}

// N returns a value in [0,n).
func (s *Stream) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.draw(func() uint32 { return uint32(s.next() % uint64(n)) }, uint32(n-1)))
}

// Range returns a value in [lo,hi], lo being simplest.
func (s *Stream) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + s.N(hi-lo+1)
}

// Chance is true with probability num/den.
func (s *Stream) Chance(num, den int) bool {
	return s.draw(func() uint32 {
		if int(s.next()%uint64(den)) < num {
			return 1
		}
		return 0
	}, 1) == 1
}

// Geom returns 0 for "never" in a replay past its end; otherwise a value >= 1
// with roughly the given mean.
func (s *Stream) Geom(mean int) int {
	return int(s.draw(func() uint32 {
		if mean <= 1 {
			return 1
		}
		// exponential-ish via two uniform draws: cheap, integer only, heavy at small values
		r := s.next()
		k := r % 4
		m := uint64(mean)
		switch k {
		case 0:
			m = m/4 + 1
		case 1:
			m = m/2 + 1
		case 2:
			m = m + 1
		default:
			m = 2*m + 1
		}
		return uint32((r>>8)%m) + 1
	}, 1<<30))
}

// Weighted picks an index with probability proportional to w.
func (s *Stream) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	return int(s.draw(func() uint32 {
		r := int(s.next() % uint64(t))
		for i, x := range w {
			if r < x {
				return uint32(i)
			}
			r -= x
		}
		return 0
	}, uint32(len(w)-1)))
}

// Small returns a value in [0,n) biased to small values and to the ends.
func (s *Stream) Small(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.draw(func() uint32 {
		r := s.next()
		switch r % 4 {
		case 0:
			return uint32((r >> 8) % uint64(n))
		case 1:
			m := uint64(n)
			if m > 4 {
				m = 4
			}
			return uint32((r >> 8) % m)
		case 2:
			m := n / 4
			if m < 1 {
				m = 1
			}
			return uint32((r >> 8) % uint64(m))
		default:
			return uint32(n-1) - uint32((r>>8)%uint64(min(n, 3)))
		}
	}, uint32(n-1)))
}

func (s *Stream) U64() uint64 {
	a := s.draw(func() uint32 { return uint32(s.next()) }, 0xffffffff)
	b := s.draw(func() uint32 { return uint32(s.next()) }, 0xffffffff)
	return uint64(a)<<32 | uint64(b)
}
