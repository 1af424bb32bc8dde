package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"time"
)

func mix(xs ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, x := range xs {
		h ^= x
		h += 0x9e3779b97f4a7c15
		h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9
		h = (h ^ (h >> 27)) * 0x94d049bb133111eb
		h ^= h >> 31
	}

	return h
}

func hashString(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := range len(s) {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}

	return h
}

type chunk struct {
	b     batch
	seeds []uint64
}

type failure struct {
	b      batch
	r      *Result
	warmup []uint64
}

type totals struct {
	mu       sync.Mutex
	runs     int
	byBatch  map[string]int
	nontriv  map[[2]uint64]bool
	distinct map[[2]uint64]bool
	states   map[uint64]bool
	yields   uint64
	picks    uint64
	preempts uint64
	switches uint64
	simNanos int64
	ops      int64
	inconcl  int
	faults   map[string]int64
	probes   map[string]int64
	samples  []map[string]any
	verify   []verifyItem
	fails    []failure
	known    map[string]int
	troubles int // runs that gave no answer
	harness  string
	rawRun   float64
	capped   bool
}

type verifyItem struct {
	b    batch
	seed uint64
	r    *Result
}

func batchName(b batch) string {
	if b.Race {
		return b.Scenario + "+race"
	}

	return b.Scenario
}

func explore(c *config, p *propDef, bd *build, start time.Time) int {
	kf, err := loadKnown(c, p.ID)
	if err != nil {
		return harnessError("known findings: %v", err)
	}
	sec := p.QuickSec
	if c.tier == "thorough" {
		sec = p.ThoroughSec
	}
	t := &totals{
		byBatch: map[string]int{}, nontriv: map[[2]uint64]bool{}, distinct: map[[2]uint64]bool{}, states: map[uint64]bool{},
		faults: map[string]int64{}, probes: map[string]int64{}, known: map[string]int{},
	}
	// Interleave the chunks of all batches so that a time cap cuts them evenly.
	var queues [][]chunk
	for bi, b := range p.Batches {
		if c.only != "" && b.Scenario != c.only {
			continue
		}
		n := b.Runs
		if c.tier == "thorough" {
			n = b.Thorough
			if n == 0 {
				n = b.Runs * 40
			}
		}
		n = int(float64(n) * c.scale)
		size := b.Chunk
		if size == 0 {
			size = 200
		}
		if k := (n + c.jobs - 1) / c.jobs; k < size {
			size = max(1, k)
		}
		if b.Solo {
			size = min(size, 50)
		}
		var q []chunk
		for i := 0; i < n; i += size {
			ch := chunk{b: b}
			for j := i; j < min(n, i+size); j++ {
				ch.seeds = append(ch.seeds, mix(c.seed, hashString(b.Scenario), uint64(j), uint64(bi)))
			}
			q = append(q, ch)
		}
		queues = append(queues, q)
	}
	var order []chunk
	total := 0
	for _, q := range queues {
		total += len(q)
	}
	pos := make([]int, len(queues))
	for len(order) < total {
		best := -1
		for i, q := range queues {
			if pos[i] < len(q) && (best < 0 || float64(pos[i])/float64(len(q)) < float64(pos[best])/float64(len(queues[best]))) {
				best = i
			}
		}
		order = append(order, queues[best][pos[best]])
		pos[best]++
	}
	t0 := time.Now()
	deadline := t0.Add(time.Duration(sec) * time.Second)
	var next int
	var nmu sync.Mutex
	var wg sync.WaitGroup
	for range c.jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				nmu.Lock()
				if next >= len(order) {
					nmu.Unlock()

					return
				}
				ch := order[next]
				next++
				nmu.Unlock()
				if time.Now().After(deadline) {
					t.mu.Lock()
					t.capped = true
					t.mu.Unlock()

					return
				}
				if !runChunk(c, p, bd, ch, t, kf, deadline) {
					return
				}
			}
		}()
	}
	wg.Wait()
	t.rawRun = time.Since(t0).Seconds()
	if t.harness != "" && len(t.fails) == 0 {
		return harnessError("%s", t.harness)
	}
	if len(t.fails) == 0 {
		if msg := selfTest(c, p, bd, t); msg != "" {
			return harnessError("determinism self-test: %s", msg)
		}
	}
	code := 0
	if len(t.fails) > 0 {
		code = report(c, p, bd, t)
		if code == 3 {
			return code
		}
	}
	if !kf.demonstrate(c, p, bd, t) {
		return 3
	}
	writeEvidence(c, p, bd, t, start, code)
	fmt.Printf("%s %s: %d runs, %d distinct non-trivial, %d distinct schedules, %.0f runs/s, simulated %s, violations %d\n",
		p.ID, c.tier, t.runs, len(t.nontriv), len(t.distinct), float64(t.runs)/t.rawRun, time.Duration(t.simNanos).Round(time.Second), boolInt(code == 1))

	return code
}

func boolInt(b bool) int {
	if b {
		return 1
	}

	return 0
}

// maxTroubles runs without an answer end the search.
const maxTroubles = 4

// runChunk runs the seeds of one chunk in one worker process (or one each).
func runChunk(c *config, p *propDef, bd *build, ch chunk, t *totals, kf *known, deadline time.Time) bool {
	var w *worker
	var warm []uint64
	defer func() { w.stop() }()
	limit := time.Duration(ch.b.Limit) * time.Second
	if limit == 0 {
		limit = 90 * time.Second
	}
	for i, s := range ch.seeds {
		t.mu.Lock()
		stop := len(t.fails) > 0 || t.troubles >= maxTroubles
		t.mu.Unlock()
		if stop {
			return false
		}
		if time.Now().After(deadline) {
			t.mu.Lock()
			t.capped = true
			t.mu.Unlock()

			return false
		}
		if w == nil || w.dead {
			var err error
			if w, err = startWorker(bd.bin(ch.b.Race), c.work); err != nil {
				t.mu.Lock()
				t.harness = err.Error()
				t.mu.Unlock()

				return false
			}
			warm = nil
		}
		r := w.run(&Spec{Prop: p.ID, Scenario: ch.b.Scenario, Seed: s, Tier: c.tier, Full: i == 0}, limit)
		if r.harness != "" {
			// Others may still find what is wrong with the code.
			t.mu.Lock()
			if t.harness == "" {
				t.harness = r.harness
			}
			t.troubles++
			t.mu.Unlock()

			continue
		}
		t.add(ch.b, r, i == 0)
		if r.Class != "" {
			if id := kf.match(r); id != "" {
				t.mu.Lock()
				t.known[id]++
				t.mu.Unlock()
			} else {
				t.mu.Lock()
				t.fails = append(t.fails, failure{ch.b, r, warm})
				t.mu.Unlock()

				return false
			}
		} else if i%40 == 7 || (i == 0 && len(ch.seeds) < 8) {
			t.mu.Lock()
			if len(t.verify) < 400 {
				t.verify = append(t.verify, verifyItem{ch.b, s, r})
			}
			t.mu.Unlock()
		}
		warm = append(warm, s)
		if ch.b.Solo {
			w.stop()
		}
	}

	return true
}

func (t *totals) add(b batch, r *Result, sample bool) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.runs++
	t.byBatch[batchName(b)]++
	k := [2]uint64{r.Hash, r.State}
	t.distinct[k] = true
	t.states[r.State] = true
	if r.Nontriv {
		t.nontriv[k] = true
	}
	t.yields += r.Yields
	t.picks += r.Picks
	t.preempts += r.Preempts
	t.switches += r.Switches
	t.simNanos += r.SimNanos
	t.ops += r.Ops
	if r.Inconcl {
		t.inconcl++
	}
	for k, v := range r.Faults {
		t.faults[k] += v
	}
	for k, v := range r.Probes {
		t.probes[k] += v
	}
	if sample && len(t.samples) < 4 && r.Plan != nil && r.Nontriv {
		tr := r.Trace
		if len(tr) > 40 {
			tr = tr[:40]
		}
		fired := r.Fired
		if len(fired) > 40 {
			fired = fired[:40]
		}
		t.samples = append(t.samples, map[string]any{
			"batch": batchName(b), "seed": fmt.Sprint(r.Seed), "plan": r.Plan, "faults": fired, "trace": tr,
			"steps": r.Yields, "preemptions": r.Preempts, "sim_ns": r.SimNanos,
		})
	}
}

// selfTest reruns a sample of seeds in fresh processes: one seed must be one
// execution.
func selfTest(c *config, p *propDef, bd *build, t *totals) string {
	items := t.verify
	perBatch := map[string]int{}
	var pick []verifyItem
	for _, it := range items {
		if perBatch[batchName(it.b)] < 6 {
			perBatch[batchName(it.b)]++
			pick = append(pick, it)
		}
	}
	var mu sync.Mutex
	bad, differ := "", 0
	var wg sync.WaitGroup
	sem := make(chan struct{}, c.jobs)
	for _, it := range pick {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			w, err := startWorker(bd.bin(it.b.Race), c.work)
			if err != nil {
				mu.Lock()
				bad = err.Error()
				mu.Unlock()

				return
			}
			defer w.stop()
			r := w.run(&Spec{Prop: p.ID, Scenario: it.b.Scenario, Seed: it.seed, Tier: c.tier}, 180*time.Second)
			if r.Hash != it.r.Hash || r.State != it.r.State || r.Yields != it.r.Yields || r.Class != it.r.Class || r.SimNanos != it.r.SimNanos {
				mu.Lock()
				differ++
				bad = fmt.Sprintf("%s seed %d gave steps %d schedule %x outcome %x sim %d class %q, then steps %d schedule %x outcome %x sim %d class %q %s",
					batchName(it.b), it.seed, it.r.Yields, it.r.Hash, it.r.State, it.r.SimNanos, it.r.Class, r.Yields, r.Hash, r.State, r.SimNanos, r.Class, clip(r.Msg+r.harness, 3000))
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	t.mu.Lock()
	t.probes["determinism_reruns_identical"] = int64(len(pick) - differ)
	if differ > 0 {
		// A violation counts only if its replay repeats it, so a rare
		// difference here costs coverage, not soundness. Report it, and give
		// up if it is not rare.
		t.probes["determinism_reruns_different"] = int64(differ)
		fmt.Printf("note: %d of %d reruns in a fresh process took another schedule, such as %s\n", differ, len(pick), bad)
		if differ*5 <= len(pick) {
			bad = ""
		}
	}
	t.mu.Unlock()

	return bad
}

func writeEvidence(c *config, p *propDef, bd *build, t *totals, start time.Time, code int) {
	seedsHour := 0.0
	if t.rawRun > 0 {
		seedsHour = float64(t.runs) / t.rawRun * 3600
	}
	cov := map[string]any{
		"evaluations":            t.runs,
		"distinct_nontrivial":    len(t.nontriv),
		"rule":                   p.Rule,
		"samples":                t.samples,
		"runs_by_scenario":       t.byBatch,
		"seeds_per_hour":         int(seedsHour),
		"search_seconds":         t.rawRun,
		"build_seconds":          bd.buildSec,
		"simulated_seconds":      float64(t.simNanos) / 1e9,
		"distinct_interleavings": len(t.distinct),
		"interleaving_measure":   "distinct pairs of (hash of every scheduling decision, hash of the observable outcome)",
		"distinct_outcomes":      len(t.states),
		"scheduling_steps":       t.yields,
		"scheduling_choices":     t.picks,
		"preemptions":            t.preempts,
		"goroutine_switches":     t.switches,
		"operations":             t.ops,
		"faults_injected":        t.faults,
		"probes":                 t.probes,
		"inconclusive_histories": t.inconcl,
		"search_cut_by_time":     t.capped,
		"instrumentation_level":  bd.level,
		"real_components":        p.Real,
		"stub_components":        p.Stub,
		"known_findings_hit":     t.known,
		"worker_processes":       c.jobs,
	}
	if len(t.samples) == 0 {
		cov["samples"] = []any{map[string]any{"note": "no non-trivial run was sampled"}}
	}
	ev := map[string]any{
		"property": p.ID, "tier": c.tier, "seed": int64(c.seed), "level": "exploration", "coverage": cov,
		"assumptions": p.Assume, "wall_s": time.Since(start).Seconds(), "violations": boolInt(code == 1),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)

		return
	}
	dir := filepath.Join(c.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
}

// --- known findings ---

type finding struct {
	id        string
	scenarios []string // the first shows it with seed
	class     string
	contains  string
	seed      uint64
	text      string
}

type known struct{ list []finding }

// loadKnown reads known-findings.txt. Lines:
//
//	known: property=C20 id=KF1 scenario=s,t seed=n class=c contains="text" what fails
//	fixed: property=C01 <commit> what failed
func loadKnown(c *config, prop string) (*known, error) {
	b, err := os.ReadFile(filepath.Join(c.verif, "known-findings.txt"))
	if os.IsNotExist(err) {
		return &known{}, nil
	}
	if err != nil {
		return nil, err
	}
	k := &known{}
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		f := finding{}
		rest := strings.TrimPrefix(line, "known: ")
		pr := ""
		for {
			rest = strings.TrimLeft(rest, " ")
			eq := strings.IndexByte(rest, '=')
			sp := strings.IndexByte(rest, ' ')
			if eq < 0 || (sp >= 0 && sp < eq) {
				break
			}
			key := rest[:eq]
			val := rest[eq+1:]
			if strings.HasPrefix(val, `"`) {
				end := strings.IndexByte(val[1:], '"')
				if end < 0 {
					return nil, fmt.Errorf("unterminated quote: %s", line)
				}
				rest = val[end+2:]
				val = val[1 : end+1]
			} else if sp := strings.IndexByte(val, ' '); sp >= 0 {
				rest = val[sp:]
				val = val[:sp]
			} else {
				rest = ""
			}
			switch key {
			case "property":
				pr = val
			case "id":
				f.id = val
			case "scenario":
				f.scenarios = strings.Split(val, ",")
			case "class":
				f.class = val
			case "contains":
				f.contains = val
			case "seed":
				fmt.Sscan(val, &f.seed)
			default:
				return nil, fmt.Errorf("unknown field %q: %s", key, line)
			}
		}
		f.text = rest
		if pr == prop {
			k.list = append(k.list, f)
		}
	}

	return k, nil
}

func (k *known) match(r *Result) string {
	for _, f := range k.list {
		if slices.Contains(f.scenarios, strings.TrimSuffix(r.Scenario, "-http")) && f.class == r.Class && (f.contains == "" || strings.Contains(r.Msg, f.contains)) {
			return f.id
		}
	}

	return ""
}

// demonstrate reproduces each listed finding and says so.
func (k *known) demonstrate(c *config, p *propDef, bd *build, t *totals) bool {
	for _, f := range k.list {
		w, err := startWorker(bd.plain, c.work)
		if err != nil {
			harnessError("%v", err)

			return false
		}
		r := w.run(&Spec{Prop: p.ID, Scenario: f.scenarios[0], Seed: f.seed, Tier: "quick"}, 180*time.Second)
		w.stop()
		if r.harness != "" {
			harnessError("%s", r.harness)

			return false
		}
		if k.match(r) == f.id || t.known[f.id] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, f.text)
		} else {
			fmt.Printf("note: known finding %s of %s did not show in this run\n", f.id, p.ID)
		}
	}

	return true
}
