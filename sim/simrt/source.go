package zzrt

// Choice streams.  Every decision of a simulated run is drawn from one of
// them.  In generation mode the values come from a PRNG derived from the run's
// seed and are recorded; in replay mode they come from a recording, and
// missing values are 0, which is the simplest choice by convention.
const (
	StreamWorkload = iota // the operations and the data of the run
	StreamSchedule        // who runs next, and for how long
	StreamFault           // injected faults and latencies
	StreamMap             // iteration order of maps
	StreamRand            // seed of the simulated global random generator
	NumStreams
)

// StreamNames are the names used in replay files.
var StreamNames = [NumStreams]string{"workload", "schedule", "fault", "maporder", "rand"}

// PRNG is splitmix64.
type PRNG uint64

// Next returns 64 pseudo-random bits.
func (p *PRNG) Next() uint64 {
	*p += 0x9e3779b97f4a7c15
	z := uint64(*p)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a value in [0, n).
func (p *PRNG) Intn(n int) int { return int(p.Next() % uint64(n)) }

// Float returns a value in [0, 1).
func (p *PRNG) Float() float64 { return float64(p.Next()>>11) / (1 << 53) }

// Mix derives a seed from others.
func Mix(vals ...uint64) uint64 {
	p := PRNG(0x1234567)
	for _, v := range vals {
		p = PRNG(uint64(p) ^ v)
		p = PRNG(p.Next())
	}
	return p.Next()
}

// Stream is one choice stream.
type Stream struct {
	rng    PRNG
	replay []uint32
	isRep  bool
	pos    int
	Rec    []uint32
}

// Source is the set of choice streams of a run.
type Source struct {
	S    [NumStreams]Stream
	Seed uint64
}

// NewSource returns a generating source.
func NewSource(seed uint64) *Source {
	src := &Source{Seed: seed}
	for i := range src.S {
		src.S[i].rng = PRNG(Mix(seed, uint64(i)+77))
	}
	return src
}

// ReplaySource returns a source that replays recorded choices.
func ReplaySource(rec [NumStreams][]uint32) *Source {
	src := &Source{}
	for i := range src.S {
		src.S[i].isRep = true
		src.S[i].replay = rec[i]
	}
	return src
}

// Recording returns the choices made so far.
func (src *Source) Recording() [NumStreams][]uint32 {
	var rec [NumStreams][]uint32
	for i := range src.S {
		rec[i] = src.S[i].Rec
	}
	return rec
}

//go:norace
func (s *Stream) next(n uint32, gen func(r *PRNG) uint32) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.isRep {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos] % n
			s.pos++
		}
	} else if gen != nil {
		v = gen(&s.rng) % n
	} else {
		v = uint32(s.rng.Next() % uint64(n))
	}
	s.Rec = append(s.Rec, v)
	return int(v)
}
