package main

import (
	"fmt"
	"math"
	"slices"

	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/pkg/stats"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

func init() {
	simkit.Register(&simkit.Scenario{Name: "stats", Gen: genStats, Exec: execStats})
}

func genStats(r *simkit.Rand, tier string) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{"cap": simkit.Pick(r, int64(1), 2, 3, 7, 64, 0)}}
	for range r.I(1, 5) {
		var ops []simkit.Op
		for range r.I(1, 14) {
			v := int64(r.I(-50, 50))
			if r.P(1, 12) {
				v = simkit.Pick(r, int64(math.MaxInt32), math.MinInt32, 0)
			}
			k := simkit.Pick(r, "incr", "decr", "timing", "gauge", "hist", "hist", "read", "mean", "pct")
			ops = append(ops, simkit.Op{K: k, A: int64(r.N(3)), B: v})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

var statKeys = []constants.Stat{constants.StatIncr, constants.StatTiming, constants.StatGauge}

func execStats(env *simkit.Env) {
	var c *stats.HistogramStatsCollector
	capacity := env.PI("cap")
	c = stats.NewHistogramStatsCollectorWithCapacity(capacity)
	if capacity <= 0 {
		capacity = stats.DefaultSampleCapacity
	}
	nt := len(env.Plan.Threads)
	type reading struct {
		at int64
		s  stats.Stats
	}
	reads := make([][]reading, nt)
	bad := make([]string, nt)
	type total struct {
		n, sum, lo, hi int64
		vals           []int64
	}
	want := make([]total, len(statKeys))
	for i := range want {
		want[i].lo, want[i].hi = math.MaxInt64, math.MinInt64
	}
	for _, t := range env.Plan.Threads {
		for _, op := range t {
			v := op.B
			if op.K == "decr" {
				v = -v
			}
			switch op.K {
			case "read", "mean", "pct":
				continue
			}
			w := &want[int(op.A)%len(statKeys)]
			w.n++
			w.sum += v
			w.lo, w.hi = min(w.lo, v), max(w.hi, v)
			w.vals = append(w.vals, v)
		}
	}
	env.Par(func(t int, ops []simkit.Op) {
		for _, op := range ops {
			k := statKeys[int(op.A)%len(statKeys)]
			switch op.K {
			case "incr":
				c.Incr(k, op.B)
			case "decr":
				c.Decr(k, op.B)
			case "timing":
				c.Timing(k, op.B)
			case "gauge":
				c.Gauge(k, op.B)
			case "hist":
				c.Histogram(k, op.B)
			case "read":
				s := c.GetStats()
				reads[t] = append(reads[t], reading{simkit.Seq(), s})
				for _, st := range s {
					if !slices.IsSorted(st.Values) {
						bad[t] = fmt.Sprintf("GetStats returned unsorted values %v", st.Values)
					}
					if len(st.Values) > capacity {
						bad[t] = fmt.Sprintf("%d samples kept, window is %d", len(st.Values), capacity)
					}
				}
			case "mean":
				if m := c.Mean(k); math.IsNaN(m) {
					bad[t] = "Mean is NaN"
				}
			case "pct":
				c.Percentile(k, float64(op.B)/50)
				c.Median(k)
			}
		}
	})
	for _, b := range bad {
		if b != "" {
			env.Fail("snapshot", "%s", b)
		}
	}
	final := c.GetStats()
	for i, k := range statKeys {
		w := want[i]
		got := final[k.String()]
		if w.n == 0 {
			if got != nil {
				env.Fail("aggregate", "%s was never recorded but is reported as %+v", k, *got)
			}

			continue
		}
		if got == nil {
			env.Fail("aggregate", "%s is missing after %d recordings", k, w.n)
		}
		env.Observe(fmt.Sprint(k, got.Count, got.Sum, got.Values))
		if int64(got.Count) != w.n || got.Sum != w.sum || got.Min != w.lo || got.Max != w.hi {
			env.Fail("aggregate", "%s: count/sum/min/max = %d/%d/%d/%d, recorded %d/%d/%d/%d", k, got.Count, got.Sum, got.Min, got.Max, w.n, w.sum, w.lo, w.hi)
		}
		mean := float64(w.sum) / float64(w.n)
		if got.Mean != mean || c.Mean(k) != mean {
			env.Fail("aggregate", "%s: mean %v and %v, want %v", k, got.Mean, c.Mean(k), mean)
		}
		if len(got.Values) < min(capacity, len(w.vals)) {
			// A sample may be skipped while another call holds the window, so
			// only concurrent calls can explain a short one.
			if len(env.Plan.Threads) == 1 {
				env.Fail("window", "%s: %d samples after %d uncontended recordings", k, len(got.Values), len(w.vals))
			}
			env.Probe("sample_skipped")
		}
		// Uncontended recordings are always sampled: the window must end with
		// them and still hold only recorded values.
		m := min(capacity, 5)
		if capacity <= 7 {
			m = capacity + 2
		}
		for j := range m {
			v := int64(1000 + j)
			c.Histogram(k, v)
			w.n, w.sum, w.hi, w.lo = w.n+1, w.sum+v, max(w.hi, v), min(w.lo, v)
			w.vals = append(w.vals, v)
		}
		got = c.GetStats()[k.String()]
		recent := w.vals[len(w.vals)-min(m, capacity):]
		for _, v := range recent {
			if !slices.Contains(got.Values, v) {
				env.Fail("window", "%s: the last recorded values %v are not all in the window %v", k, recent, got.Values)
			}
		}
		if len(got.Values) == 0 || (m >= capacity && len(got.Values) != capacity) {
			env.Fail("window", "%s: %d samples in a window of %d after %d recordings", k, len(got.Values), capacity, w.n)
		}
		if msg := window(got, w.vals, capacity); msg != "" {
			env.Fail("window", "%s: %s", k, msg)
		}
		if int64(got.Count) != w.n || got.Sum != w.sum || got.Min != w.lo || got.Max != w.hi {
			env.Fail("aggregate", "%s: count/sum/min/max = %d/%d/%d/%d, recorded %d/%d/%d/%d", k, got.Count, got.Sum, got.Min, got.Max, w.n, w.sum, w.lo, w.hi)
		}
		if c.Percentile(k, 0) != float64(got.Values[0]) || c.Percentile(k, 1) != float64(got.Values[len(got.Values)-1]) || c.Median(k) != got.Median {
			env.Fail("window", "%s: percentiles %v %v median %v disagree with values %v", k, c.Percentile(k, 0), c.Percentile(k, 1), c.Median(k), got.Values)
		}
		for j := range got.Values {
			got.Values[j] = 424242
		}
	}
	again := c.GetStats()
	for _, k := range statKeys {
		if s := again[k.String()]; s != nil && slices.Contains(s.Values, 424242) {
			env.Fail("snapshot", "changing a returned snapshot changed the collector")
		}
	}
	// Lifetime counts never go backwards within one thread's readings.
	for t := range reads {
		last := map[string]int{}
		for _, r := range reads[t] {
			for k, st := range r.s {
				if st.Count < last[k] {
					env.Fail("aggregate", "%s: count went from %d to %d", k, last[k], st.Count)
				}
				last[k] = st.Count
			}
		}
	}
	var n int64
	for i := range want {
		n += want[i].n
	}
	env.Ops(int(n))
	if n > 2 {
		env.Nontrivial()
	}
}

// window checks the sample window of a stat at rest against everything recorded.
func window(s *stats.Stat, all []int64, capacity int) string {
	if len(s.Values) == 0 || len(s.Values) > min(capacity, len(all)) {
		return fmt.Sprintf("%d samples in a window of %d after %d recordings", len(s.Values), capacity, len(all))
	}
	if !slices.IsSorted(s.Values) {
		return fmt.Sprintf("values not sorted: %v", s.Values)
	}
	left := map[int64]int{}
	for _, v := range all {
		left[v]++
	}
	for _, v := range s.Values {
		if left[v] == 0 {
			return fmt.Sprintf("sample %d was never recorded (or not that often)", v)
		}
		left[v]--
	}
	n := len(s.Values)
	med := float64(s.Values[n/2])
	if n%2 == 0 {
		med = float64(s.Values[n/2-1]+s.Values[n/2]) / 2
	}
	if s.Median != med {
		return fmt.Sprintf("median %v of %v", s.Median, s.Values)
	}
	var acc float64
	for _, v := range s.Values {
		acc += (float64(v) - s.Mean) * (float64(v) - s.Mean)
	}
	if want := acc / float64(n); math.Abs(s.Variance-want) > 1e-9*(1+math.Abs(want)) {
		return fmt.Sprintf("variance %v, want %v", s.Variance, want)
	}

	return ""
}
