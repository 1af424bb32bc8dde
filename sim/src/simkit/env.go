package simkit

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"sync"
	"time"
)

// Scenario is a workload with its oracle.
type Scenario struct {
	Name string
	// Gen decides the plan of a seed.
	Gen func(r *Rand, tier string) *Plan
	// Exec runs inside the bubble. It reports violations through env.Fail.
	Exec func(env *Env)
	// After, if set, runs after the bubble, simulation off (history checking).
	After func(env *Env)
	// MaxYields bounds a run; passing it is a violation of class "no-progress".
	MaxYields uint64
	// Gaps are the mean distances between preemptions to draw from.
	Gaps []uint64
	// LeakOK: goroutines may remain when Exec returns (the process then runs
	// one seed only).
	LeakOK bool
	// Solo: one run per process.
	Solo bool
	// NoRace: leave this scenario out of race-detector batches.
	NoRace bool
}

// Env is the world of one run.
type Env struct {
	Spec   *Spec
	Plan   *Plan
	mu     sync.Mutex
	fired  []Fired
	points map[string]int64
	replay map[string][]Fired
	faults map[string]int64
	probes map[string]int64
	state  uint64
	ops    int64
	class  string
	msg    string
	trace  []string
	start  time.Time
	end    time.Time
	nontr  bool
	incon  bool
	quiet  bool
	Data   any // scenario state handed from Exec to After
	finish func()

	cleanups []func()
}

// Cleanup has f run when every goroutine of the run has ended: a variable of
// the process is given back without racing with its last readers.
func (e *Env) Cleanup(f func()) { e.cleanups = append(e.cleanups, f) }

// P returns a plan parameter.
func (e *Env) P(name string) int64 { return e.Plan.P[name] }

// PI returns a plan parameter as int.
func (e *Env) PI(name string) int { return int(e.Plan.P[name]) }

// Seq returns the next event number.
func Seq() int64 { return int64(runtime.SimSeq()) }

// Fail reports a violation and ends the run.
func (e *Env) Fail(class, format string, args ...any) {
	e.mu.Lock()
	if e.class == "" {
		e.class = class
		e.msg = fmt.Sprintf(format, args...)
	}
	e.mu.Unlock()
	if e.finish != nil {
		e.finish()
	}
	runtime.Goexit()
}

// Failed reports whether a violation was recorded.
func (e *Env) Failed() bool {
	e.mu.Lock()
	defer e.mu.Unlock()

	return e.class != ""
}

// Fault decides whether the fault happens at this point; v is a random value
// for its parameters.
func (e *Env) Fault(kind, point string) (bool, uint64) {
	return e.FaultRate(kind, point, e.Plan.Rates[kind])
}

// FaultRate is Fault with an explicit probability in 1/10000.
func (e *Env) FaultRate(kind, point string, rate int64) (bool, uint64) {
	if rate <= 0 {
		return false, 0
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.quiet {
		return false, 0
	}
	id := kind + "|" + point
	n := e.points[id]
	e.points[id] = n + 1
	if e.replay != nil {
		for _, f := range e.replay[id] {
			if f.N == n {
				e.faults[kind]++
				e.fired = append(e.fired, f)

				return true, f.V
			}
		}

		return false, 0
	}
	if rate <= 0 {
		return false, 0
	}
	h := Mix(e.Spec.Seed, HashString(id), uint64(n))
	if int64(h%10000) >= rate {
		return false, 0
	}
	v := Mix(h, 77)
	e.faults[kind]++
	e.fired = append(e.fired, Fired{kind, point, n, v})

	return true, v
}

// StopFaults ends all fault injection of the run: liveness is judged after it.
func (e *Env) StopFaults() {
	e.mu.Lock()
	e.quiet = true
	e.mu.Unlock()
}

// Quiet reports whether faults have stopped.
func (e *Env) Quiet() bool {
	e.mu.Lock()
	defer e.mu.Unlock()

	return e.quiet
}

// CountFault counts a fault that the plan itself placed.
func (e *Env) CountFault(kind string) {
	e.mu.Lock()
	e.faults[kind]++
	e.mu.Unlock()
}

// Probe counts reaching an interesting condition.
func (e *Env) Probe(name string) {
	e.mu.Lock()
	e.probes[name]++
	e.mu.Unlock()
}

// Observe folds an outcome into the run's state hash.
func (e *Env) Observe(s string) {
	e.mu.Lock()
	e.state = Mix(e.state, HashString(s))
	e.mu.Unlock()
}

// Ops adds to the operation counter.
func (e *Env) Ops(n int) {
	e.mu.Lock()
	e.ops += int64(n)
	e.mu.Unlock()
}

// Nontrivial marks the run as one that exercised what the property is about.
func (e *Env) Nontrivial() {
	e.mu.Lock()
	e.nontr = true
	e.mu.Unlock()
}

// Inconclusive marks a run whose history could not be decided.
func (e *Env) Inconclusive() {
	e.mu.Lock()
	e.incon = true
	e.mu.Unlock()
}

// Tracef appends to the run's event log (kept for replay files).
func (e *Env) Tracef(format string, args ...any) {
	e.mu.Lock()
	if len(e.trace) < 4000 {
		e.trace = append(e.trace, fmt.Sprintf("t=%s ", time.Since(e.start))+fmt.Sprintf(format, args...))
	}
	e.mu.Unlock()
}

// Now returns the simulated time since the run began.
func (e *Env) Now() time.Duration { return time.Since(e.start) }

// Since returns the simulated instant of t, measured from the start of the run.
func (e *Env) Since(t time.Time) time.Duration { return t.Sub(e.start) }

// GID identifies the calling goroutine.
func GID() uint64 { return uint64(runtime.SimGID()) }

// Par runs one goroutine per thread of the plan and waits for all.
func (e *Env) Par(f func(thread int, ops []Op)) {
	var wg sync.WaitGroup
	for i, t := range e.Plan.Threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f(i, t)
		}()
	}
	wg.Wait()
}

// SortedKeys returns the keys of a map in order.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)

	return ks
}

// Debug prints to stderr when SIM_DEBUG is set.
func Debug(format string, args ...any) {
	if os.Getenv("SIM_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, format+"\n", args...)
	}
}
