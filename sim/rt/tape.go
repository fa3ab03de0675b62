// Package rt is the deterministic simulator the instrumented code runs under.
package rt

// A Tape is the only source of choice in a run. In generate mode values come
// from a PRNG; in replay mode from a list (0, the simplest choice, when it is
// exhausted). Every draw is recorded, so a run is a pure function of a list of
// integers and the code.
type Tape struct {
	state  uint64
	replay []int
	fixed  bool
	Vals   []int
	Spans  []Span
	open   []int
	Stream func(int)
}

// A Span is a range of draws that belong together (one operation, one fault).
type Span struct{ A, B int }

func NewTape(seed uint64) *Tape   { return &Tape{state: Mix(seed, 0x51ed2701)} }
func ReplayTape(vals []int) *Tape { return &Tape{replay: vals, fixed: true} }
func (t *Tape) next() uint64      { t.state += 0x9e3779b97f4a7c15; return mix64(t.state) }
func (t *Tape) Begin()            { t.open = append(t.open, len(t.Vals)) }
func (t *Tape) End() {
	n := len(t.open) - 1
	a := t.open[n]
	t.open = t.open[:n]
	if a < len(t.Vals) {
		t.Spans = append(t.Spans, Span{a, len(t.Vals)})
	}
}

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Mix hashes two words into one.
func Mix(a, b uint64) uint64 { return mix64(a*0x9e3779b97f4a7c15 + mix64(b+0x2545f4914f6cdd1d)) }

// Intn draws an integer in [0,n); 0 is the simplest choice.
func (t *Tape) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	v := 0
	if t.fixed {
		if len(t.Vals) < len(t.replay) {
			v = t.replay[len(t.Vals)]
			if v < 0 {
				v = 0
			}
			v %= n
		}
	} else {
		v = int(t.next() % uint64(n))
	}
	t.Vals = append(t.Vals, v)
	if t.Stream != nil {
		t.Stream(v)
	}
	return v
}

// Chance is true with probability num/den; false is the simplest choice.
func (t *Tape) Chance(num, den int) bool { return t.Intn(den) >= den-num }

// Pick draws an index with the given weights; 0 is the simplest choice.
func (t *Tape) Pick(weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	v := t.Intn(sum)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

// Rng is a sub-generator seeded by one draw (for choices too numerous for the
// tape, such as read chunk lengths and map orders).
type Rng struct{ s uint64 }

func (r *Rng) Seed(v int)     { r.s = Mix(uint64(v), 0xabcdef12345) }
func (r *Rng) Uint64() uint64 { r.s += 0x9e3779b97f4a7c15; return mix64(r.s) }
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}
