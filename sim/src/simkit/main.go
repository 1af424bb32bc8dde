package simkit

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
)

var (
	registry = map[string]*Scenario{}
	warmed   = map[string]bool{}
)

// Register adds a scenario.
func Register(s *Scenario) { registry[s.Name] = s }

// Main is the worker: it reads specs (JSON lines) on stdin and writes results
// (JSON lines) on stdout.
func Main() {
	runtime.MemProfileRate = 0
	debug.SetTraceback("all")
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	out := bufio.NewWriter(os.Stdout)
	for first := os.Getenv("SIM_FIRST"); ; first = "" {
		var sp Spec
		if first != "" {
			if err := json.Unmarshal([]byte(first), &sp); err != nil {
				break
			}
		} else if err := dec.Decode(&sp); err != nil {
			break
		}
		current = &sp
		if sp.PlanOnly {
			r := &Result{Seed: sp.Seed, Scenario: sp.Scenario}
			if sc := registry[sp.Scenario]; sc != nil {
				r.Plan = sc.Gen(NewRand(Mix(sp.Seed, 1)), sp.Tier)
			}
			b, _ := json.Marshal(r)
			out.Write(append(b, '\n'))
			out.Flush()

			continue
		}
		if sc := registry[sp.Scenario]; sc != nil && !sc.Solo && os.Getenv("SIM_NOWARM") == "" && !warmed[sp.Scenario] {
			// Lazily built state of the process must not depend on which seed
			// happened to come first.
			warmed[sp.Scenario] = true
			RunSpec(&Spec{Prop: sp.Prop, Scenario: sp.Scenario, Seed: 424242, Tier: "quick", Warm: true}, nil)
		}
		for _, w := range sp.Warmup {
			RunSpec(&Spec{Prop: sp.Prop, Scenario: sp.Scenario, Seed: w, Tier: sp.Tier}, nil)
		}
		emit := func(r *Result) {
			b, err := json.Marshal(r)
			if err != nil {
				fmt.Fprintln(os.Stderr, "HARNESS-ERROR: marshal:", err)
				os.Exit(3)
			}
			out.Write(b)
			out.WriteByte('\n')
			out.Flush()
		}
		emit(RunSpec(&sp, emit))
	}
}

var current *Spec

func restart(*Spec) {
	runtime.SimStop()
	b, err := json.Marshal(current)
	if err == nil {
		env := append(os.Environ(), "SIM_NOWARM=1", "SIM_FIRST="+string(b))
		err = syscall.Exec("/proc/self/exe", os.Args, env)
	}
	fmt.Fprintln(os.Stderr, "HARNESS-ERROR: restart:", err)
	os.Exit(3)
}

// RunSpec executes one spec. If the run is ended from inside the bubble, final
// is called and the process exits.
func RunSpec(sp *Spec, final func(*Result)) *Result {
	sc := registry[sp.Scenario]
	if sc == nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR: unknown scenario", sp.Scenario)
		os.Exit(3)
	}
	env := &Env{
		Spec: sp, points: map[string]int64{}, faults: map[string]int64{}, probes: map[string]int64{},
	}
	sched := NewRand(Mix(sp.Seed, 2))
	mode := runtime.SimRandom
	if sched.P(2, 5) {
		mode = runtime.SimPCT
	}
	gaps := sc.Gaps
	if len(gaps) == 0 {
		gaps = []uint64{0, 2, 4, 8, 16, 32, 64, 128, 512}
	}
	gap := gaps[sched.N(len(gaps))]
	if sp.Plan != nil {
		env.Plan = sp.Plan
	} else {
		env.Plan = sc.Gen(NewRand(Mix(sp.Seed, 1)), sp.Tier)
	}
	if env.Plan.P == nil {
		env.Plan.P = map[string]int64{}
	}
	if env.Plan.Rates == nil {
		env.Plan.Rates = map[string]int64{}
	}
	if sp.Replay && !sp.KeepFaults {
		env.replay = map[string][]Fired{}
		for _, f := range sp.Faults {
			env.replay[f.Kind+"|"+f.Point] = append(env.replay[f.Kind+"|"+f.Point], f)
		}
	}
	maxY := sc.MaxYields
	if maxY == 0 {
		maxY = 30_000_000
	}
	collect := func() *Result {
		r := &Result{Seed: sp.Seed, Scenario: sp.Scenario, Class: env.class, Msg: env.msg}
		r.Yields, r.Picks, r.Preempts, r.Switches, r.Hash = runtime.SimStats()
		r.SimNanos = int64(env.end.Sub(env.start))
		r.Faults, r.Probes = env.faults, env.probes
		r.State, r.Ops, r.Nontriv, r.Inconcl = env.state, env.ops, env.nontr, env.incon
		if env.class != "" || sp.Replay || sp.Full {
			r.Plan = env.Plan
			r.Fired = env.fired
			r.Trace = env.trace
			devs, ok := runtime.SimLog()
			r.DevsLost = !ok
			for _, d := range devs {
				r.Devs = append(r.Devs, Dev{d.Yield, d.Idx, d.Ch})
			}
		}

		return r
	}
	env.finish = func() {
		if final == nil {
			// The throw-away run of this process failed: start the process
			// over without one.
			restart(sp)
		}
		env.end = time.Now()
		runtime.SimStop()
		final(collect())
		os.Exit(0)
	}
	if os.Getenv("SIM_ANNOUNCE") != "" {
		fmt.Fprintf(os.Stderr, "RUN %s %d mode=%d gap=%d\n", sp.Scenario, sp.Seed, mode, gap)
	}
	// Two collections empty every sync.Pool: a run starts from the same state
	// whichever runs came before it.
	runtime.GC()
	runtime.GC()
	if out := os.Getenv("SIM_MARKS"); out != "" {
		defer watchSchedule(out)()
	}
	runtime.SimStart(Mix(sp.Seed, 3), mode, gap, maxY, func() {
		env.mu.TryLock()
		if env.class == "" {
			env.class = "no-progress"
			env.msg = fmt.Sprintf("the run did not finish within %d scheduling steps", maxY)
			buf := make([]byte, 1<<16)
			env.trace = append(env.trace, string(buf[:runtime.Stack(buf, false)]))
		}
		env.mu.TryLock()
		env.mu.Unlock()
		env.finish()
	})
	if sp.Replay && !sp.KeepSched {
		devs := make([]runtime.SimDev, len(sp.Devs))
		for i, d := range sp.Devs {
			devs[i] = runtime.SimDev{Yield: d.Y, Idx: d.I, Ch: d.C}
		}
		runtime.SimReplay(devs)
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if err, ok := p.(error); ok && strings.HasPrefix(err.Error(), "deadlock:") {
					if env.class != "" {
						return
					}
					if strings.Contains(err.Error(), "main bubble goroutine has exited") {
						if sc.LeakOK {
							return
						}
						env.class = "goroutine-leak"
					} else {
						env.class = "deadlock"
					}
					env.msg = err.Error() + "\n" + bubbleStacks()

					return
				}
				panic(p)
			}
		}()
		runtime.SimBubble(func() {
			env.start = time.Now()
			sc.Exec(env)
			env.end = time.Now()
		})
	}()
	runtime.SimStop()
	for i := len(env.cleanups) - 1; i >= 0; i-- {
		env.cleanups[i]()
	}
	env.cleanups = nil
	if env.end.IsZero() {
		env.end = env.start
	}
	if env.class != "" && final == nil {
		restart(sp)
	}
	r := func() *Result {
		if sc.After != nil && env.class == "" {
			env.finish = nil
			done := make(chan struct{})
			go func() {
				defer close(done)
				sc.After(env)
			}()
			<-done
		}

		return collect()
	}()

	return r
}

func bubbleStacks() string {
	buf := make([]byte, 1<<18)
	s := string(buf[:runtime.Stack(buf, true)])
	var keep []string
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(strings.SplitN(g, "\n", 2)[0], "synctest bubble") && len(keep) < 12 {
			if len(g) > 1500 {
				g = g[:1500]
			}
			keep = append(keep, g)
		}
	}

	return strings.Join(keep, "\n\n")
}

// watchSchedule is for finding where two executions of a seed part: it writes a
// hash of the schedule at every 4096th yield point to a file or, given SIM_AT
// (from-to), the stack at each yield point of that range.
func watchSchedule(file string) func() {
	f, err := os.Create(file)
	if err != nil {
		panic(err)
	}
	var from, to uint64
	if n, _ := fmt.Sscanf(os.Getenv("SIM_AT"), "%d-%d", &from, &to); n == 2 {
		buf := make([]byte, 1<<14)
		runtime.SimAt(from, to, func() {
			_, _, _, _, hash := runtime.SimStats()
			fmt.Fprintf(f, "%x %s\n", hash, buf[:runtime.Stack(buf, false)])
		})
	}
	marks := make([]uint64, 1<<20)
	runtime.SimMarks(marks)

	return func() {
		runtime.SimMarks(nil)
		runtime.SimAt(0, 0, nil)
		for i, h := range marks {
			if h != 0 && from == 0 {
				fmt.Fprintf(f, "%d %x\n", i<<12, h)
			}
		}
		f.Close()
	}
}
