package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// replayFile is everything needed to repeat one violation exactly.
type replayFile struct {
	Property string   `json:"property"`
	Group    string   `json:"group"`
	Race     bool     `json:"race,omitempty"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	HowTo    string   `json:"how_to_replay"`
	Seed     uint64   `json:"seed"`
	Minimise string   `json:"minimisation"`
	Spec     *Spec    `json:"spec"`
	Trace    []string `json:"trace,omitempty"`
}

type runner struct {
	c     *config
	p     *propDef
	bd    *build
	b     batch
	w     *worker
	tries int
}

func (x *runner) do(sp *Spec) *Result {
	x.tries++
	if x.w == nil || x.w.dead {
		w, err := startWorker(x.bd.bin(x.b.Race), x.c.work)
		if err != nil {
			return &Result{harness: err.Error()}
		}
		x.w = w
	}
	sp.Prop, sp.Scenario, sp.Tier = x.p.ID, x.b.Scenario, x.c.tier
	r := x.w.run(sp, 180*time.Second)
	// Always start from a fresh process: replays must not depend on history.
	x.w.stop()
	x.w = nil

	return r
}

func report(c *config, p *propDef, bd *build, t *totals) int {
	code := 3
	for _, f := range t.fails { // as many as there are workers
		if code = reportOne(c, p, bd, f); code != 3 {
			break
		}
	}

	return code
}

func reportOne(c *config, p *propDef, bd *build, f failure) int {
	x := &runner{c: c, p: p, bd: bd, b: f.b}
	fmt.Printf("candidate violation of %s: scenario %s seed %d class %s\n%s\n", p.ID, batchName(f.b), f.r.Seed, f.r.Class, clip(f.r.Msg, 4000))
	// Confirm in a fresh process, without and then with the runs before it.
	var warm []uint64
	r := x.do(&Spec{Seed: f.r.Seed, Full: true})
	if r.Class != f.r.Class {
		warm = f.warmup
		r = x.do(&Spec{Seed: f.r.Seed, Warmup: warm, Full: true})
	}
	if r.Class == "" {
		return harnessError("seed %d of %s failed with class %q and then gave %q %s: the simulation is not deterministic here", f.r.Seed, batchName(f.b), f.r.Class, r.Class, clip(r.harness, 2000))
	}
	rf := &replayFile{Property: p.ID, Group: p.Group, Race: f.b.Race, Class: r.Class, Message: r.Msg, Seed: r.Seed, Trace: r.Trace}
	sp := &Spec{Seed: r.Seed, Warmup: warm}
	if r.Plan != nil && !r.DevsLost {
		full := &Spec{Seed: r.Seed, Warmup: warm, Replay: true, Plan: r.Plan, Faults: r.Fired, Devs: r.Devs}
		if q := x.do(full); q.Class == r.Class {
			sp = full
			before := sizes(full)
			best := minimise(x, full, r.Class, &r)
			sp = best
			rf.Message, rf.Trace = r.Msg, r.Trace
			rf.Minimise = fmt.Sprintf("%s -> %s in %d executions", before, sizes(best), x.tries)
		} else {
			rf.Minimise = "not minimised: explicit replay gave " + q.Class
		}
	} else if r.Plan == nil {
		// The worker died (a crash or a race report): replay by seed, but
		// shrink the plan when the crash survives it.
		best, q := minimiseCrash(x, &Spec{Seed: r.Seed, Warmup: warm}, r.Class)
		sp = best
		if q != nil {
			rf.Message = q.Msg
		}
		rf.Minimise = fmt.Sprintf("crash replayed by seed; plan %s after %d executions", sizes(best), x.tries)
	}
	sp.Prop, sp.Scenario, sp.Tier = p.ID, f.b.Scenario, c.tier
	rf.Spec = sp
	dir := filepath.Join(c.verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.ID, f.b.Scenario, r.Seed))
	rf.HowTo = "bash " + filepath.Join(c.verif, "check.sh") + " -replay " + path
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		return harnessError("%v", err)
	}
	fmt.Printf("class %s: %s\nminimised: %s\n", rf.Class, clip(rf.Message, 4000), rf.Minimise)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)

	return 1
}

func sizes(s *Spec) string {
	n := 0
	th := 0
	if s.Plan != nil {
		th = len(s.Plan.Threads)
		for _, t := range s.Plan.Threads {
			n += len(t)
		}
	}

	return fmt.Sprintf("%d threads, %d ops, %d faults, %d scheduling decisions", th, n, len(s.Faults), len(s.Devs))
}

func clonePlan(p *Plan) *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	json.Unmarshal(b, q)

	return q
}

// minimise shrinks the plan, then the faults, then the schedule.
func minimise(x *runner, cur *Spec, class string, last **Result) *Spec {
	stop := time.Now().Add(40 * time.Second)
	left := func() bool { return time.Now().Before(stop) }
	accept := func(r *Result) *Spec {
		*last = r

		return &Spec{Seed: cur.Seed, Warmup: cur.Warmup, Replay: true, Plan: r.Plan, Faults: r.Fired, Devs: r.Devs}
	}
	// try runs a candidate plan first with the current schedule, then with a
	// few fresh ones.
	try := func(plan *Plan) bool {
		if r := x.do(&Spec{Seed: cur.Seed, Warmup: cur.Warmup, Replay: true, Plan: plan, Faults: cur.Faults, Devs: cur.Devs}); r.Class == class && r.Plan != nil && !r.DevsLost {
			cur = accept(r)

			return true
		}
		for k := range uint64(12) {
			if !left() {
				return false
			}
			sp := &Spec{Seed: mix(cur.Seed, k), Warmup: cur.Warmup, Replay: true, Plan: plan, Faults: cur.Faults, KeepSched: true}
			if r := x.do(sp); r.Class == class && r.Plan != nil && !r.DevsLost {
				full := &Spec{Seed: sp.Seed, Warmup: cur.Warmup, Replay: true, Plan: r.Plan, Faults: r.Fired, Devs: r.Devs}
				if q := x.do(full); q.Class == class {
					cur = full
					*last = q

					return true
				}
			}
		}

		return false
	}
	// Whole threads, then runs of operations.
	for i := len(cur.Plan.Threads) - 1; i >= 0 && left(); i-- {
		if len(cur.Plan.Threads) <= 1 {
			break
		}
		q := clonePlan(cur.Plan)
		q.Threads = append(q.Threads[:i], q.Threads[i+1:]...)
		try(q)
	}
	for i := 0; i < len(cur.Plan.Threads); i++ {
		for size := len(cur.Plan.Threads[i]); size >= 1 && left(); size /= 2 {
			for at := 0; at+size <= len(cur.Plan.Threads[i]) && left(); {
				q := clonePlan(cur.Plan)
				q.Threads[i] = append(q.Threads[i][:at], q.Threads[i][at+size:]...)
				if !try(q) {
					at += size
				}
			}
		}
	}
	// Faults.
	for size := len(cur.Faults); size >= 1 && left(); size /= 2 {
		for at := 0; at+size <= len(cur.Faults) && left(); {
			fs := append(append([]Fired{}, cur.Faults[:at]...), cur.Faults[at+size:]...)
			r := x.do(&Spec{Seed: cur.Seed, Warmup: cur.Warmup, Replay: true, Plan: cur.Plan, Faults: fs, Devs: cur.Devs})
			if r.Class == class && r.Plan != nil && !r.DevsLost {
				cur = accept(r)
			} else {
				at += size
			}
		}
	}
	// Schedule.
	for size := len(cur.Devs); size >= 1 && left(); size /= 2 {
		for at := 0; at+size <= len(cur.Devs) && left(); {
			ds := append(append([]Dev{}, cur.Devs[:at]...), cur.Devs[at+size:]...)
			r := x.do(&Spec{Seed: cur.Seed, Warmup: cur.Warmup, Replay: true, Plan: cur.Plan, Faults: cur.Faults, Devs: ds})
			if r.Class == class && r.Plan != nil && !r.DevsLost {
				cur = accept(r)
				if len(cur.Devs) > len(ds) {
					cur.Devs = ds
				}
			} else {
				at += size
			}
		}
	}
	// What is reported must replay.
	if r := x.do(cur); r.Class == class {
		*last = r
	} else {
		fmt.Println("note: minimised replay lost the violation; keeping it by seed")
		cur = &Spec{Seed: cur.Seed, Warmup: cur.Warmup}
	}

	return cur
}

// minimiseCrash shrinks a plan whose violation kills the worker, under the
// scheduling and fault streams of the seed.
func minimiseCrash(x *runner, sp *Spec, class string) (*Spec, *Result) {
	plan := x.planOf(sp.Seed)
	if plan == nil {
		return sp, nil
	}
	cur := &Spec{Seed: sp.Seed, Warmup: sp.Warmup, Replay: true, KeepSched: true, KeepFaults: true, Plan: plan}
	last := x.do(cur)
	if last.Class != class {
		return sp, nil
	}
	stop := time.Now().Add(40 * time.Second)
	try := func(q *Plan) bool {
		for k := range uint64(6) {
			if time.Now().After(stop) {
				return false
			}
			seed := cur.Seed
			if k > 0 {
				seed = mix(cur.Seed, k)
			}
			n := &Spec{Seed: seed, Warmup: cur.Warmup, Replay: true, KeepSched: true, KeepFaults: true, Plan: q}
			if r := x.do(n); r.Class == class {
				cur, last = n, r

				return true
			}
		}

		return false
	}
	for i := len(cur.Plan.Threads) - 1; i >= 0; i-- {
		if len(cur.Plan.Threads) <= 1 {
			break
		}
		q := clonePlan(cur.Plan)
		q.Threads = append(q.Threads[:i], q.Threads[i+1:]...)
		try(q)
	}
	for i := 0; i < len(cur.Plan.Threads); i++ {
		for size := len(cur.Plan.Threads[i]); size >= 1; size /= 2 {
			for at := 0; at+size <= len(cur.Plan.Threads[i]); {
				q := clonePlan(cur.Plan)
				q.Threads[i] = append(q.Threads[i][:at], q.Threads[i][at+size:]...)
				if !try(q) {
					at += size
				}
			}
		}
	}

	return cur, last
}

// planOf asks the worker for the plan a seed generates.
func (x *runner) planOf(seed uint64) *Plan {
	sp := &Spec{Seed: seed, PlanOnly: true}
	r := x.do(sp)

	return r.Plan
}

func runReplay(c *config) int {
	b, err := os.ReadFile(c.replay)
	if err != nil {
		return harnessError("%v", err)
	}
	rf := &replayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		return harnessError("%v", err)
	}
	p := props[rf.Property]
	if p == nil {
		return harnessError("unknown property %q", rf.Property)
	}
	bd, err := buildGroup(c, rf.Group, !rf.Race, rf.Race)
	if err != nil {
		return harnessError("build: %v", err)
	}
	w, err := startWorker(bd.bin(rf.Race), c.work)
	if err != nil {
		return harnessError("%v", err)
	}
	defer w.stop()
	sp := *rf.Spec
	sp.Full = true
	r := w.run(&sp, 300*time.Second)
	if r.harness != "" {
		return harnessError("%s", r.harness)
	}
	for _, l := range r.Trace {
		fmt.Println("  " + strings.ReplaceAll(l, "\n", "\n  "))
	}
	if r.Class == "" {
		fmt.Printf("%s: the replay shows no violation on the current tree\n", rf.Property)

		return 0
	}
	fmt.Printf("class %s: %s\n", r.Class, r.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, c.replay)

	return 1
}
