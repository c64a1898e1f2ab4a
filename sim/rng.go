//go:build go1.22

package zsim

// SplitMix64: every random choice of a run derives from one seed through these streams.
type Rng struct{ s uint64 }

//go:norace
func NewRng(seed uint64) Rng { return Rng{seed} }

//go:norace
func (r *Rng) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

//go:norace
func Mix(a, b uint64) uint64 {
	r := Rng{a ^ (b+0x632be59bd9b4e019)*0xff51afd7ed558ccd}
	r.Next()
	return r.Next()
}

// Dev is one deviation from the default choice (0) of a stream: at index I the value V was used.
type Dev struct {
	I int64 `json:"i"`
	V int64 `json:"v"`
}

// devStream is a stream of choices recorded as deviations from the default 0.
// The storage is a fixed array so that it can be used from race-instrumented tasks.
const maxDevs = 1 << 19

type devStream struct {
	rng    Rng
	replay bool
	in     []Dev
	pos    int
	out    [maxDevs]Dev
	n      int
	over   bool
}

//go:norace
func (s *devStream) reset(seed uint64, replay bool, in []Dev) {
	s.rng = NewRng(seed)
	s.replay = replay
	s.in = in
	s.pos = 0
	s.n = 0
	s.over = false
}

//go:norace
func (s *devStream) record(i, v int64) {
	if v == 0 {
		return
	}
	if s.n >= maxDevs {
		s.over = true
		return
	}
	s.out[s.n].I = i
	s.out[s.n].V = v
	s.n++
}

// lookup returns the recorded value at index i during a replay.
//
//go:norace
func (s *devStream) lookup(i int64) int64 {
	for s.pos < len(s.in) && s.in[s.pos].I < i {
		s.pos++
	}
	if s.pos < len(s.in) && s.in[s.pos].I == i {
		return s.in[s.pos].V
	}
	return 0
}

func (s *devStream) devs() []Dev {
	return append([]Dev(nil), s.out[:s.n]...)
}
