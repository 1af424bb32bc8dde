package main

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/metric"
	mnoop "go.opentelemetry.io/otel/metric/noop"
	"go.opentelemetry.io/otel/trace"
	tnoop "go.opentelemetry.io/otel/trace/noop"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
	"github.com/hyp3rd/hypercache/pkg/middleware"
	"github.com/hyp3rd/hypercache/pkg/stats"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// "middle": callers use a service through a stack of middlewares in some order.
// Each call reaches the service once, with its arguments, and its outcome comes
// back to its caller; what the middlewares record is what happened.
// "tally": a cache's own statistics count what its background loops did.
// "typed": typed views of one cache agree with what was stored.

func init() {
	simkit.Register(&simkit.Scenario{Name: "middle", Gen: genMiddle, Exec: execMiddle})
	simkit.Register(&simkit.Scenario{Name: "tally", Gen: genTally, Exec: execTally, MaxYields: 4_000_000})
	simkit.Register(&simkit.Scenario{Name: "typed", Gen: genTyped, Exec: execTyped})
}

var methods = []string{"Get", "Set", "GetOrSet", "GetWithInfo", "GetMultiple", "List", "Remove", "Clear", "Count", "TriggerEviction", "Stop", "Capacity", "Allocation", "GetStats"}

func genMiddle(r *simkit.Rand, tier string) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{"common": int64(r.N(4)), "share": int64(r.N(2))}}
	p.P["n"] = int64(r.I(1, 5))
	for i := range p.P["n"] {
		p.P[fmt.Sprint("mw", i)] = int64(r.N(4))
	}
	for range r.I(1, 4) {
		var ops []simkit.Op
		for range r.I(1, 12) {
			ops = append(ops, simkit.Op{K: methods[r.PickW(6, 6, 4, 4, 3, 3, 3, 2, 2, 2, 1, 1, 1, 1)], A: int64(r.N(4)), B: int64(r.N(16)), C: int64(r.N(1000))})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

type callKey struct{}

// call is one call and what the service made of it.
type call struct {
	method string
	args   string
	n      int
	got    int // how often the service saw it
	span   string
	sleep  time.Duration
	fail   error
	panics bool
	hit    bool
}

// below is the service under the middlewares.
type below struct {
	env  *simkit.Env
	mu   sync.Mutex
	all  map[string]int // calls without context
	seen int
}

func (b *below) in(ctx context.Context, method, args string) *call {
	c, _ := ctx.Value(callKey{}).(*call)
	b.mu.Lock()
	defer b.mu.Unlock()
	if c == nil || c.method != method || c.args != args {
		b.env.Fail("call", "the service got %s(%s), the caller made %+v", method, args, c)
	}
	c.got++
	b.seen++
	if c.got > 1 {
		b.env.Fail("call", "%s(%s) reached the service %d times", method, args, c.got)
	}

	return c
}

func (b *below) do(ctx context.Context, method, args string) *call {
	c := b.in(ctx, method, args)
	if c.sleep > 0 {
		time.Sleep(c.sleep)
	}
	if c.panics {
		panic(c)
	}

	return c
}

func (b *below) val(c *call) string { return fmt.Sprint("value of ", c.n) }

func (b *below) Get(ctx context.Context, key string) (any, bool) {
	c := b.do(ctx, "Get", key)

	return b.val(c), c.hit
}

func (b *below) Set(ctx context.Context, key string, value any, expiration time.Duration) error {
	return b.do(ctx, "Set", fmt.Sprint(key, value, expiration)).fail
}

func (b *below) GetOrSet(ctx context.Context, key string, value any, expiration time.Duration) (any, error) {
	c := b.do(ctx, "GetOrSet", fmt.Sprint(key, value, expiration))

	return b.val(c), c.fail
}

func (b *below) GetWithInfo(ctx context.Context, key string) (*cache.Item, bool) {
	c := b.do(ctx, "GetWithInfo", key)
	if !c.hit {
		return nil, false
	}

	return &cache.Item{Key: key, Value: b.val(c)}, true
}

func (b *below) GetMultiple(ctx context.Context, keys ...string) (map[string]any, map[string]error) {
	c := b.do(ctx, "GetMultiple", fmt.Sprintf("%q", keys))

	return map[string]any{"a": b.val(c)}, map[string]error{"b": c.fail}
}

func (b *below) List(ctx context.Context, filters ...backend.IFilter) ([]*cache.Item, error) {
	c := b.do(ctx, "List", fmt.Sprint(len(filters)))
	if c.fail != nil {
		return nil, c.fail
	}

	return []*cache.Item{{Key: b.val(c)}}, nil
}

func (b *below) Remove(ctx context.Context, keys ...string) error {
	return b.do(ctx, "Remove", fmt.Sprintf("%q", keys)).fail
}

func (b *below) Clear(ctx context.Context) error { return b.do(ctx, "Clear", "").fail }

func (b *below) Count(ctx context.Context) int { return b.do(ctx, "Count", "").n }

func (b *below) TriggerEviction(ctx context.Context) { b.do(ctx, "TriggerEviction", "") }

func (b *below) Stop(ctx context.Context) error { return b.do(ctx, "Stop", "").fail }

func (b *below) count(m string) {
	b.mu.Lock()
	b.all[m]++
	b.mu.Unlock()
}

func (b *below) Capacity() int { b.count("Capacity"); return 4711 }

func (b *below) Allocation() int64 { b.count("Allocation"); return 4712 }

func (b *below) GetStats() stats.Stats {
	b.count("GetStats")

	return stats.Stats{"below": {Count: 4713}}
}

// recorders

type span struct {
	tnoop.Span
	t     *tracer
	name  string
	call  *call
	at    time.Time
	ended int
	took  time.Duration
	errs  []error
	attrs map[attribute.Key][]attribute.Value
}

func (s *span) End(...trace.SpanEndOption) {
	s.t.mu.Lock()
	defer s.t.mu.Unlock()
	s.ended++
	s.took = time.Since(s.at)
}

func (s *span) SetAttributes(kv ...attribute.KeyValue) {
	s.t.mu.Lock()
	defer s.t.mu.Unlock()
	for _, a := range kv {
		s.attrs[a.Key] = append(s.attrs[a.Key], a.Value)
	}
}

func (s *span) RecordError(err error, _ ...trace.EventOption) {
	s.t.mu.Lock()
	defer s.t.mu.Unlock()
	s.errs = append(s.errs, err)
}

func (s *span) IsRecording() bool { return true }

func (s *span) SetStatus(codes.Code, string) {}

type tracer struct {
	tnoop.Tracer
	mu    sync.Mutex
	spans []*span
}

func (t *tracer) Start(ctx context.Context, name string, _ ...trace.SpanStartOption) (context.Context, trace.Span) {
	t.mu.Lock()
	defer t.mu.Unlock()
	c, _ := ctx.Value(callKey{}).(*call)
	s := &span{t: t, name: name, call: c, at: time.Now(), attrs: map[attribute.Key][]attribute.Value{}}
	t.spans = append(t.spans, s)

	return trace.ContextWithSpan(ctx, s), s
}

type meter struct {
	mnoop.Meter
	mu    sync.Mutex
	calls map[string]int64
	sums  map[string]float64
	takes map[string]int64
	hits  int64
}

type mcounter struct {
	mnoop.Int64Counter
	m *meter
}

type mhist struct {
	mnoop.Float64Histogram
	m *meter
}

func (m *meter) Int64Counter(string, ...metric.Int64CounterOption) (metric.Int64Counter, error) {
	return &mcounter{m: m}, nil
}

func (m *meter) Float64Histogram(string, ...metric.Float64HistogramOption) (metric.Float64Histogram, error) {
	return &mhist{m: m}, nil
}

func methodOf(set attribute.Set) string {
	v, _ := set.Value("method")

	return v.AsString()
}

func (c *mcounter) Add(_ context.Context, n int64, opts ...metric.AddOption) {
	set := metric.NewAddConfig(opts).Attributes()
	c.m.mu.Lock()
	defer c.m.mu.Unlock()
	c.m.calls[methodOf(set)] += n
	if v, ok := set.Value("hit"); ok && v.AsBool() {
		c.m.hits += n
	}
}

func (h *mhist) Record(_ context.Context, v float64, opts ...metric.RecordOption) {
	set := metric.NewRecordConfig(opts).Attributes()
	h.m.mu.Lock()
	defer h.m.mu.Unlock()
	h.m.takes[methodOf(set)]++
	h.m.sums[methodOf(set)] += v
}

type logger struct {
	mu    sync.Mutex
	lines []string
}

func (l *logger) Printf(format string, v ...any) {
	s := fmt.Sprintf(format, v...)
	l.mu.Lock()
	l.lines = append(l.lines, s)
	l.mu.Unlock()
}

var errMiddle = errors.New("the service refuses")

var statNames = map[string]string{
	"Get": "get", "Set": "set", "GetOrSet": "get_or_set", "GetWithInfo": "get_with_info", "GetMultiple": "get_multiple", "List": "list", "Remove": "remove",
	"Clear": "clear", "TriggerEviction": "trigger_eviction", "Stop": "stop",
}

func execMiddle(env *simkit.Env) {
	b := &below{env: env, all: map[string]int{}}
	var svc hypercache.Service = b
	var collectors []*stats.HistogramStatsCollector
	var tracers []*tracer
	var meters []*meter
	var loggers []*logger
	common := []attribute.KeyValue{attribute.String("c0", "0"), attribute.String("c1", "1"), attribute.String("c2", "2")}[:env.P("common")%4]
	var mws []hypercache.Middleware
	for i := range env.PI("n") {
		mws = append(mws, func(next hypercache.Service) hypercache.Service {
			switch env.P(fmt.Sprint("mw", i)) {
			case 0:
				if len(collectors) == 0 || env.P("share") == 0 {
					collectors = append(collectors, stats.NewHistogramStatsCollector())
				} else {
					collectors = append(collectors, collectors[0])
				}

				return middleware.NewStatsCollectorMiddleware(next, collectors[len(collectors)-1])
			case 1:
				t := &tracer{}
				tracers = append(tracers, t)
				var opts []middleware.OTelTracingOption
				for _, a := range common {
					opts = append(opts, middleware.WithCommonAttributes(a))
				}

				return middleware.NewOTelTracingMiddleware(next, t, opts...)
			case 2:
				m := &meter{calls: map[string]int64{}, sums: map[string]float64{}, takes: map[string]int64{}}
				meters = append(meters, m)
				s, err := middleware.NewOTelMetricsMiddleware(next, m)
				if err != nil {
					env.Fail("harness", "%v", err)
				}

				return s
			}
			l := &logger{}
			loggers = append(loggers, l)

			return middleware.NewLoggingMiddleware(next, l)
		})
	}
	svc = hypercache.ApplyMiddleware(svc, mws...)
	var mu sync.Mutex
	num := 0
	count := map[string]int64{} // by method, with what it took; panics apart
	took := map[string]time.Duration{}
	hits, panics := int64(0), 0
	keyOf := map[string]int{}
	env.Par(func(t int, ops []simkit.Op) {
		for _, op := range ops {
			mu.Lock()
			num++
			c := &call{method: op.K, n: num, sleep: time.Duration(op.A) * time.Millisecond, hit: op.B%2 == 0}
			mu.Unlock()
			if op.B&2 != 0 {
				c.fail = fmt.Errorf("%w: %d", errMiddle, c.n)
			}
			ctx := context.WithValue(context.Background(), callKey{}, c)
			key := fmt.Sprintf("k-%d-", c.n) + strings.Repeat("x", int(op.C%5))
			val, ttl := fmt.Sprint("v", c.n), time.Duration(op.C)*time.Millisecond
			keys := []string{key, "b", "c"}[:1+op.C%3]
			switch op.K {
			case "Get", "GetWithInfo":
				c.args = key
			case "Set", "GetOrSet":
				c.args = fmt.Sprint(key, val, ttl)
			case "GetMultiple", "Remove":
				c.args = fmt.Sprintf("%q", keys)
			case "List":
				c.args = fmt.Sprint(op.C % 3)
			case "Capacity", "Allocation", "GetStats":
			default:
				c.panics = op.B == 7
			}
			if op.B == 7 && slices.Contains([]string{"Get", "Set", "List", "Remove"}, op.K) {
				c.panics = true
			}
			want := b.val(c)
			wrong := func(got ...any) { env.Fail("outcome", "%s(%s): %v, want call %+v", op.K, c.args, got, *c) }
			at := time.Now()
			func() {
				defer func() {
					r := recover()
					if (r != nil) != c.panics || r != nil && r != any(c) {
						panic(r)
					}
				}()
				switch op.K {
				case "Get":
					if v, ok := svc.Get(ctx, key); v != want || ok != c.hit {
						wrong(v, ok)
					}
				case "Set":
					if err := svc.Set(ctx, key, val, ttl); err != c.fail {
						wrong(err)
					}
				case "GetOrSet":
					if v, err := svc.GetOrSet(ctx, key, val, ttl); v != want || err != c.fail {
						wrong(v, err)
					}
				case "GetWithInfo":
					if it, ok := svc.GetWithInfo(ctx, key); ok != c.hit || (it != nil) != c.hit || it != nil && (it.Key != key || it.Value != want) {
						wrong(it, ok)
					}
				case "GetMultiple":
					if m, f := svc.GetMultiple(ctx, keys...); len(m) != 1 || m["a"] != want || len(f) != 1 || f["b"] != c.fail {
						wrong(m, f)
					}
				case "List":
					fs := make([]backend.IFilter, op.C%3)
					for i := range fs {
						fs[i] = backend.WithSortBy(constants.SortByKey.String())
					}
					if l, err := svc.List(ctx, fs...); err != c.fail || err == nil && (len(l) != 1 || l[0].Key != want) {
						wrong(l, err)
					}
				case "Remove":
					if err := svc.Remove(ctx, keys...); err != c.fail {
						wrong(err)
					}
				case "Clear":
					if err := svc.Clear(ctx); err != c.fail {
						wrong(err)
					}
				case "Count":
					if n := svc.Count(ctx); n != c.n {
						wrong(n)
					}
				case "TriggerEviction":
					svc.TriggerEviction(ctx)
				case "Stop":
					if err := svc.Stop(ctx); err != c.fail {
						wrong(err)
					}
				case "Capacity":
					if n := svc.Capacity(); n != 4711 {
						wrong(n)
					}
				case "Allocation":
					if n := svc.Allocation(); n != 4712 {
						wrong(n)
					}
				case "GetStats":
					if s := svc.GetStats(); len(s) != 1 || s["below"] == nil || s["below"].Count != 4713 {
						wrong(s)
					}
				}
			}()
			if d := time.Since(at); c.got > 0 && d != c.sleep {
				env.Fail("slow", "%s(%s) took %v, the service %v", op.K, c.args, d, c.sleep)
			}
			mu.Lock()
			count[op.K]++
			if c.panics {
				panics++
			} else if c.got == 0 && !slices.Contains([]string{"Capacity", "Allocation", "GetStats"}, op.K) {
				env.Fail("call", "%s(%s) did not reach the service", op.K, c.args)
			}
			if c.got > 0 {
				took[op.K] += c.sleep
			}
			if c.hit && !c.panics && (op.K == "Get" || op.K == "GetWithInfo") {
				hits++
			}
			keyOf[op.K] += len(key)
			mu.Unlock()
			env.Ops(1)
		}
	})
	for _, m := range []string{"Capacity", "Allocation", "GetStats"} {
		if int64(b.all[m]) != count[m] {
			env.Fail("call", "%d calls of %s, %d reached the service", count[m], m, b.all[m])
		}
	}
	if panics == 0 { // what is recorded of a call that panics is not promised
		layers := map[*stats.HistogramStatsCollector]int64{}
		for _, c := range collectors {
			layers[c]++
		}
		for _, c := range collectors {
			st := c.GetStats()
			for m, name := range statNames {
				n, d := st["hypercache_"+name+"_count"], st["hypercache_"+name+"_duration"]
				if count[m] == 0 {
					if n != nil || d != nil {
						env.Fail("stats", "%s was not called, recorded are %+v and %+v", m, n, d)
					}

					continue
				}
				if n == nil || d == nil || n.Sum != count[m]*layers[c] || int64(d.Count) != count[m]*layers[c] || d.Sum != int64(took[m])*layers[c] {
					env.Fail("stats", "%d calls of %s took %v, recorded are %+v and %+v by %d middlewares", count[m], m, took[m], n, d, layers[c])
				}
			}
		}
		for _, m := range meters {
			for name, n := range count {
				if m.calls[name] != m.takes[name] || m.calls[name] != 0 && (m.calls[name] != n || m.sums[name] != float64(took[name].Milliseconds())) || m.calls[name] == 0 && n > 0 && slices.Index(methods, name) < 8 {
					env.Fail("metrics", "%d calls of %s took %v, metered are %d and %v in %d", n, name, took[name], m.calls[name], m.sums[name], m.takes[name])
				}
			}
			if m.hits != hits {
				env.Fail("metrics", "%d hits, metered %d", hits, m.hits)
			}
		}
		for _, l := range loggers {
			for name := range statNames {
				n := int64(0)
				for _, line := range l.lines {
					if strings.Contains(line, " "+name+" took") {
						n++
					}
				}
				if n != count[name] {
					env.Fail("log", "%d calls of %s, %d logged", count[name], name, n)
				}
			}
		}
	}
	for _, t := range tracers {
		per := map[string]int64{}
		for _, s := range t.spans {
			if s.ended != 1 {
				env.Fail("span", "the span of %s ended %d times", s.name, s.ended)
			}
			if s.call == nil {
				per[strings.TrimPrefix(s.name, "hypercache.")]++

				continue
			}
			c := s.call
			per[c.method]++
			if !strings.HasSuffix(s.name, "."+c.method) || s.took != c.sleep {
				env.Fail("span", "a span %s of %v for %s of %v", s.name, s.took, c.method, c.sleep)
			}
			want := 0
			for _, a := range common {
				if v := s.attrs[a.Key]; len(v) != 1 || v[0] != a.Value {
					env.Fail("span", "the span of %s has %v as %s", s.name, v, a.Key)
				}
				want++
			}
			if v := s.attrs["key.len"]; len(v) > 0 && v[0].AsInt64() != int64(len("k-"+strconv.Itoa(c.n)+"-"))+int64(strings.Count(strings.SplitN(c.args, "v", 2)[0], "x")) {
				env.Fail("span", "the span of %s(%s) says key.len %d", s.name, c.args, v[0].AsInt64())
			}
			if v := s.attrs["hit"]; !c.panics && len(v) > 0 && (len(v) != 1 || v[0].AsBool() != c.hit) {
				env.Fail("span", "the span of %s says hit %v", s.name, v)
			}
			if len(s.errs) > 0 && (len(s.errs) != 1 || s.errs[0] != c.fail) {
				env.Fail("span", "the span of %s(%s) says %v", s.name, c.args, s.errs)
			}
		}
		for _, name := range methods[:8] {
			if per[name] != count[name] {
				env.Fail("span", "%d calls of %s, %d spans", count[name], name, per[name])
			}
		}
	}
	if num > 1 && env.P("n") > 0 {
		env.Nontrivial()
	}
	env.Observe(fmt.Sprint(num, hits, panics))
}

func genTally(r *simkit.Rand, tier string) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{
		"algo": int64(r.N(4)), "shards": simkit.Pick(r, int64(1), 4), "cap": int64(r.I(1, 12)), "only": int64(r.N(3)), "max_evict": int64(r.I(1, 12)),
		"evict_ms": int64(r.I(5, 60)), "expire_ms": int64(r.I(5, 60)), "debounce_ms": simkit.Pick(r, int64(0), 10), "trigger_buf": int64(r.I(1, 3)), "abrupt": int64(r.N(2)),
	}}
	for range r.I(1, 3) {
		var ops []simkit.Op
		for range r.I(1, 14) {
			ops = append(ops, simkit.Op{K: []string{"set", "sleep", "evict", "expire", "get"}[r.PickW(10, 3, 1, 1, 2)], A: int64(r.I(1, 80)), B: int64(r.N(3))})
		}
		p.Threads = append(p.Threads, ops)
	}

	if p.P["only"] == 2 {
		p.P["cap"] = 1000
	}

	return p
}

func execTally(env *simkit.Env) {
	begin := time.Now()
	hc, err := newCache(env)
	if err != nil {
		env.Fail("new", "%v", err)

		return
	}
	ctx := context.Background()
	var mu sync.Mutex
	stored, lives, triggers := 0, 0, 0
	env.Par(func(t int, ops []simkit.Op) {
		for i, op := range ops {
			switch op.K {
			case "set":
				k := fmt.Sprintf("%d-%d", t, i)
				ttl := time.Duration(0)
				if op.B == 0 && env.P("only") != 1 || env.P("only") == 2 {
					ttl = time.Duration(op.A) * time.Millisecond
				}
				if err := hc.Set(ctx, k, k, ttl); err != nil {
					env.Fail("set", "%v", err)
				}
				mu.Lock()
				stored++
				if ttl > 0 {
					lives++
				}
				mu.Unlock()
			case "get":
				hc.Get(ctx, fmt.Sprintf("%d-%d", t, i-1))
			case "sleep":
				time.Sleep(time.Duration(op.A) * time.Millisecond)
			case "evict":
				mu.Lock()
				triggers++
				mu.Unlock()
				hc.TriggerEviction(ctx)
			case "expire":
				hc.TriggerExpiration()
			}
			env.Ops(1)
		}
	})
	interval := max(env.P("evict_ms"), env.P("expire_ms"))
	settled := env.P("abrupt") == 0
	if settled {
		time.Sleep(time.Duration(80+interval*int64(3+stored)) * time.Millisecond)
	}
	if err := hc.Stop(ctx); err != nil {
		env.Fail("stop", "%v", err)
	}
	left := hc.Count(ctx)
	st := hc.GetStats()
	sum := func(name string) int64 {
		if s := st[name]; s != nil {
			return s.Sum
		}

		return 0
	}
	evicted, expired := sum("item_evicted_count"), sum("item_expired_count")
	if n := int64(left) + evicted + expired; n < int64(stored) || n > int64(stored) && env.P("only") != 0 {
		env.Fail("tally", "%d stored, %d left, counted are %d evicted and %d expired", stored, left, evicted, expired)
	}
	if expired > int64(lives) {
		env.Fail("tally", "%d stored with a lifetime, counted are %d expired", lives, expired)
	}
	elapsed := time.Since(begin)
	for _, loop := range []string{"eviction", "expiration"} {
		n, d := st[loop+"_loop_count"], st[loop+"_loop_duration"]
		if n == nil && d == nil && !settled {
			continue
		}
		if n == nil || d == nil || n.Sum < 1 || n.Sum != int64(d.Count) {
			env.Fail("loops", "%s loops: %+v, durations: %+v", loop, n, d)
		}
		if d.Min < 0 || d.Max > int64(elapsed) {
			env.Fail("loops", "%s loops took %d to %d ns, the whole run %v", loop, d.Min, d.Max, elapsed)
		}
	}
	if n, most := sum("eviction_loop_count"), int64(elapsed/(time.Duration(env.P("evict_ms"))*time.Millisecond))+int64(triggers); n > most {
		env.Fail("loops", "%d eviction loops in %v of interval %d ms with %d triggers", n, elapsed, env.P("evict_ms"), triggers)
	}
	if evicted+expired > 0 {
		env.Nontrivial()
	}
	if evicted > 0 {
		env.Probe("evicted")
	}
	if expired > 0 {
		env.Probe("expired")
	}
	env.Observe(fmt.Sprint(stored, left, evicted, expired))
}

func genTyped(r *simkit.Rand, tier string) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{
		"algo": int64(r.N(4)), "shards": simkit.Pick(r, int64(1), 4), "cap": 0, "evict_ms": int64(r.I(5, 60)), "expire_ms": int64(r.I(5, 60)),
	}}
	for range r.I(1, 3) {
		var ops []simkit.Op
		for range r.I(2, 16) {
			ops = append(ops, simkit.Op{K: []string{"set", "get", "typed", "info", "getorset", "multi", "remove", "sleep"}[r.PickW(6, 4, 4, 4, 4, 4, 2, 1)], A: int64(r.N(3)), B: int64(r.N(4)), C: int64(r.N(2))})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

// one view: what it stores and reads of one type
type view struct {
	typ      int
	set      func(k string, n int64, ttl time.Duration) error
	get      func(k string) (any, bool)
	typed    func(k string) (any, error)
	info     func(k string) (*cache.Item, any, bool)
	getOrSet func(k string, n int64) (any, error)
	multi    func(ks ...string) (map[string]any, map[string]error)
	remove   func(k string) error
	zero     any
	val      func(n int64) any
}

func viewOf[V any](typ int, hc *hyper, val func(n int64) V) view {
	t := hypercache.NewTyped[backend.InMemory, V](hc)
	ctx := context.Background()
	var zero V

	return view{
		typ: typ, zero: zero, val: func(n int64) any { return val(n) },
		set:      func(k string, n int64, ttl time.Duration) error { return t.Set(ctx, k, val(n), ttl) },
		get:      func(k string) (any, bool) { return t.Get(ctx, k) },
		typed:    func(k string) (any, error) { return t.GetTyped(ctx, k) },
		info:     func(k string) (*cache.Item, any, bool) { return t.GetWithInfo(ctx, k) },
		getOrSet: func(k string, n int64) (any, error) { return t.GetOrSet(ctx, k, val(n), 0) },
		multi: func(ks ...string) (map[string]any, map[string]error) {
			m, f := t.GetMultiple(ctx, ks...)
			out := map[string]any{}
			for k, v := range m {
				out[k] = v
			}

			return out, f
		},
		remove: func(k string) error { return t.Remove(ctx, k) },
	}
}

type stringer struct{ n int64 }

func (s stringer) String() string { return fmt.Sprint("stringer ", s.n) }

func execTyped(env *simkit.Env) {
	hc, err := newCache(env)
	if err != nil {
		env.Fail("new", "%v", err)

		return
	}
	views := []view{
		viewOf(0, hc, func(n int64) int64 { return n }),
		viewOf(1, hc, func(n int64) string { return fmt.Sprint(n) }),
		viewOf(2, hc, func(n int64) stringer { return stringer{n} }),
		viewOf[fmt.Stringer](3, hc, func(n int64) fmt.Stringer { return stringer{n} }),
	}
	// fits tells whether a view reads values that another stored
	fits := func(read, wrote int) bool { return read == wrote || read >= 2 && wrote >= 2 }
	env.Par(func(t int, ops []simkit.Op) {
		type held struct {
			v   any
			typ int
		}
		have := map[string]held{}
		n := int64(t) * 1000
		for _, op := range ops {
			n++
			v, k := views[op.B%4], fmt.Sprintf("t%d-%d", t, op.A)
			h, ok := have[k]
			fit := ok && fits(v.typ, h.typ)
			want := func() any {
				if fit {
					return h.v
				}

				return v.zero
			}()
			class := error(nil)
			if !ok {
				class = sentinel.ErrKeyNotFound
			} else if !fit {
				class = sentinel.ErrTypeMismatch
			}
			bad := func(got ...any) {
				env.Fail("typed", "%s of %s, which holds %+v, as type %d: %v", op.K, k, h, v.typ, got)
			}
			switch op.K {
			case "set":
				if err := v.set(k, n, 0); err != nil {
					bad(err)
				}
				have[k] = held{v.val(n), v.typ}
			case "get":
				if got, found := v.get(k); found != fit || got != want {
					bad(got, found)
				}
			case "typed":
				if got, err := v.typed(k); got != want || !errors.Is(err, class) {
					bad(got, err)
				}
			case "info":
				it, got, found := v.info(k)
				if found != fit || got != want || (it != nil) != fit || it != nil && (it.Key != k || it.Value != want) {
					bad(it, got, found)
				}
			case "getorset":
				got, err := v.getOrSet(k, n)
				if !ok {
					want, class = v.val(n), nil
					have[k] = held{want, v.typ}
				}
				if got != want || !errors.Is(err, class) {
					bad(got, err)
				}
			case "multi":
				m, f := v.multi(k, "nobody")
				if !errors.Is(f["nobody"], sentinel.ErrKeyNotFound) || !errors.Is(f[k], class) || fit != (len(m) == 1) || fit && m[k] != want || len(m)+len(f) != 2 {
					bad(m, f)
				}
			case "remove":
				if err := v.remove(k); err != nil {
					bad(err)
				}
				delete(have, k)
			case "sleep":
				time.Sleep(time.Duration(op.B*20) * time.Millisecond)
			}
			env.Ops(1)
			if fit || class != nil {
				env.Nontrivial()
			}
		}
	})
	if err := hc.Stop(context.Background()); err != nil {
		env.Fail("stop", "%v", err)
	}
}
