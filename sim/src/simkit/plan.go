// Package simkit is the in-process half of the simulator: it turns one seed
// into one execution of a scenario, records what happened, and reports it.
package simkit

// Op is one generated step of a workload or one configured fault.
type Op struct {
	K string `json:"k"`           // kind
	A int64  `json:"a,omitempty"` // arguments, by kind
	B int64  `json:"b,omitempty"`
	C int64  `json:"c,omitempty"`
	S string `json:"s,omitempty"`
}

// Plan is everything a run does, decided before it starts. The minimiser only
// deletes ops and threads and moves integers towards zero, so every plan it can
// produce must be executable.
type Plan struct {
	P       map[string]int64 `json:"p,omitempty"`     // configuration
	Rates   map[string]int64 `json:"rates,omitempty"` // fault kind -> probability in 1/10000
	Threads [][]Op           `json:"threads,omitempty"`
}

// Fired is one fault that actually happened.
type Fired struct {
	Kind  string `json:"kind"`
	Point string `json:"point"`
	N     int64  `json:"n"` // n-th time the point was reached
	V     uint64 `json:"v,omitempty"`
}

// Dev is a scheduling decision that differs from the default order.
type Dev struct {
	Y bool   `json:"y,omitempty"`
	I uint64 `json:"i"`
	C uint32 `json:"c,omitempty"`
}

// Spec selects one execution.
type Spec struct {
	Prop     string `json:"prop"`
	Scenario string `json:"scenario"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier,omitempty"`
	// Warmup lists seeds executed before in the same process (search mode).
	Warmup []uint64 `json:"warmup,omitempty"`
	// The rest is set when replaying.
	Replay bool    `json:"replay,omitempty"`
	Plan   *Plan   `json:"plan,omitempty"`
	Faults []Fired `json:"faults,omitempty"`
	Devs   []Dev   `json:"devs,omitempty"`
	// KeepSched replays with the seed's own scheduling stream instead of Devs.
	KeepSched bool `json:"keep_sched,omitempty"`
	// KeepFaults replays with the seed's own fault stream instead of Faults.
	KeepFaults bool `json:"keep_faults,omitempty"`
	// Full asks for the plan, faults and schedule of a run that passed.
	Full bool `json:"full,omitempty"`
	// PlanOnly asks for the plan a seed generates, without running it.
	PlanOnly bool `json:"plan_only,omitempty"`
	// Warm marks the throw-away run at the start of a process.
	Warm bool `json:"-"`
}

// Result reports one execution.
type Result struct {
	Seed      uint64           `json:"seed"`
	Scenario  string           `json:"scenario"`
	Class     string           `json:"class,omitempty"` // violation class, empty when the property held
	Msg       string           `json:"msg,omitempty"`
	Hash      uint64           `json:"hash"`  // schedule decisions
	State     uint64           `json:"state"` // observable outcome
	Yields    uint64           `json:"yields"`
	Picks     uint64           `json:"picks"`
	Preempts  uint64           `json:"preempts"`
	Switches  uint64           `json:"switches"`
	SimNanos  int64            `json:"sim_nanos"`
	Ops       int64            `json:"ops"`
	Faults    map[string]int64 `json:"faults,omitempty"`
	Probes    map[string]int64 `json:"probes,omitempty"`
	Nontriv   bool             `json:"nontriv"`
	Inconcl   bool             `json:"inconclusive,omitempty"`
	Plan      *Plan            `json:"plan,omitempty"`
	Fired     []Fired          `json:"fired,omitempty"`
	Devs      []Dev            `json:"devs,omitempty"`
	DevsLost  bool             `json:"devs_lost,omitempty"`
	Trace     []string         `json:"trace,omitempty"`
	HarnessEr string           `json:"harness_error,omitempty"`
}

// Rand is a splitmix64 generator for plan generation.
type Rand struct{ s uint64 }

// NewRand returns a generator.
func NewRand(seed uint64) *Rand { return &Rand{seed} }

// Mix hashes a sequence of numbers.
func Mix(xs ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, x := range xs {
		h ^= x
		h += 0x9e3779b97f4a7c15
		h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9
		h = (h ^ (h >> 27)) * 0x94d049bb133111eb
		h ^= h >> 31
	}

	return h
}

// HashString is FNV-1a.
func HashString(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := range len(s) {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}

	return h
}

// U returns 64 random bits.
func (r *Rand) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb

	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *Rand) N(n int) int { return int(r.U() % uint64(n)) }

// I returns a number in [lo,hi].
func (r *Rand) I(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P reports true with probability num/den.
func (r *Rand) P(num, den int) bool { return r.N(den) < num }

// Pick returns one of the choices.
func Pick[T any](r *Rand, xs ...T) T { return xs[r.N(len(xs))] }

// PickW picks an index with the given weights.
func (r *Rand) PickW(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	n := r.N(t)
	for i, w := range ws {
		if n < w {
			return i
		}
		n -= w
	}

	return len(ws) - 1
}
