// Package sim is a deterministic simulator for the TUF client library in /repo.
//
// One run is a pure function of a sequence of choices. A seed only decides what
// that sequence is; a replay file holds the sequence itself.
package sim

// Src is the only source of nondeterminism of a run. Every value it hands out is
// recorded; when it is given a recorded sequence it hands that out instead, and
// zeros once it is used up. Zero is always the benign choice.
type Src struct {
	state  uint64
	in     []uint32
	replay bool
	Out    []uint32
}

func NewSrc(seed uint64) *Src { return &Src{state: seed*0x9e3779b97f4a7c15 + 0x1234567} }

func ReplaySrc(in []uint32) *Src { return &Src{in: in, replay: true} }

func (s *Src) next() uint64 {
	s.state += 0x9e3779b97f4a7c15
	z := s.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.replay {
		if i := len(s.Out); i < len(s.in) {
			v = s.in[i] % uint32(n)
		}
	} else {
		v = uint32(s.next()>>33) % uint32(n)
	}
	s.Out = append(s.Out, v)
	if len(s.Out) > 1<<21 {
		panic("simulator: too many choices in one run")
	}
	return int(v)
}

// P is true with a chance of permille/1000; false is the benign outcome.
func (s *Src) P(permille int) bool { return s.N(1000) >= 1000-permille }

// W picks an index with the given weights; index 0 is the benign outcome.
func (s *Src) W(weights ...int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	v := s.N(t)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

// Range returns a value in [lo,hi].
func (s *Src) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }

// Shuffle is a seeded permutation; all zeros leaves the order as it is.
func Shuffle[T any](s *Src, x []T) {
	for i := 0; i < len(x)-1; i++ {
		j := i + s.N(len(x)-i)
		x[i], x[j] = x[j], x[i]
	}
}

func pick[T any](s *Src, x ...T) T { return x[s.N(len(x))] }
