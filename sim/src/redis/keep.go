package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
	_ "unsafe" // linkname

	"github.com/anishathalye/porcupine"
	"github.com/redis/go-redis/v9"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/libs/serializer"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/backend"
	predis "github.com/hyp3rd/hypercache/pkg/backend/redis"
	"github.com/hyp3rd/hypercache/pkg/backend/rediscluster"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
	"github.com/hyp3rd/hypercache/zzsim/listing"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
	"github.com/hyp3rd/hypercache/zzsim/simnet"
)

// Caches over Redis. "keep": one or two processes share a server or a cluster;
// every key is one linearizable cell, also while connections break, and what a
// call acknowledged is there once the faults are over. "life": one caller at a
// time, against a model of all it wrote: lifetimes, removals of many keys,
// listings, counts and clearing, and a capacity.

//go:linkname seedClient github.com/redis/go-redis/v9/internal/rand.Seed
func seedClient(n int64)

func init() {
	simkit.Register(&simkit.Scenario{Name: "keep", Gen: genKeep, Exec: execKeep, After: afterKeep, MaxYields: 100_000_000})
	simkit.Register(&simkit.Scenario{Name: "life", Gen: genLife, Exec: execLife, MaxYields: 100_000_000})
}

type kv interface {
	Set(ctx context.Context, key string, value any, expiration time.Duration) error
	Get(ctx context.Context, key string) (any, bool)
	GetWithInfo(ctx context.Context, key string) (*cache.Item, bool)
	GetOrSet(ctx context.Context, key string, value any, expiration time.Duration) (any, error)
	GetMultiple(ctx context.Context, keys ...string) (map[string]any, map[string]error)
	Remove(ctx context.Context, keys ...string) error
	List(ctx context.Context, filters ...backend.IFilter) ([]*cache.Item, error)
	Clear(ctx context.Context) error
	Count(ctx context.Context) int
	TriggerExpiration()
	Stop(ctx context.Context) error
}

type process struct {
	kv
	close func() error
}

func common[T backend.IBackendConstrain](env *simkit.Env) []hypercache.Option[T] {
	ms := func(n string) time.Duration { return time.Duration(env.P(n)) * time.Millisecond }

	return []hypercache.Option[T]{
		hypercache.WithEvictionAlgorithm[T]([]string{"lru", "lfu", "clock", "cawolfu"}[env.P("algo")%4]),
		hypercache.WithEvictionInterval[T](ms("evict_ms")),
		hypercache.WithExpirationInterval[T](ms("expire_ms")),
	}
}

func newProcess(env *simkit.Env, f *farm) *process {
	ctx := context.Background()
	name := ""
	if env.P("named") == 1 {
		name = "index"
	}
	ser, err := serializer.New("default")
	if err != nil {
		env.Fail("setup", "serializer: %v", err)
	}
	pool := max(1, env.PI("pool"))
	if f.cluster {
		st, err := rediscluster.New(rediscluster.WithAddrs(f.addrs()...), rediscluster.WithPoolSize(pool), rediscluster.WithMinIdleConns(env.PI("idle")), rediscluster.WithMaxRetries(env.PI("retries")))
		if err != nil {
			env.Fail("setup", "rediscluster.New: %v", err)
		}
		cfg, err := hypercache.NewConfig[backend.RedisCluster](constants.RedisClusterBackend)
		if err != nil {
			env.Fail("setup", "config: %v", err)
		}
		cfg.HyperCacheOptions = common[backend.RedisCluster](env)
		cfg.RedisClusterOptions = []backend.Option[backend.RedisCluster]{backend.WithRedisClusterClient(st.Client), backend.WithCapacity[backend.RedisCluster](env.PI("cap"))}
		if name != "" {
			cfg.RedisClusterOptions = append(cfg.RedisClusterOptions, backend.WithClusterKeysSetName(name))
		}
		if env.P("ser") == 1 {
			cfg.RedisClusterOptions = append(cfg.RedisClusterOptions, backend.WithClusterSerializer(ser))
		}
		hc, err := hypercache.New(ctx, hypercache.GetDefaultManager(), cfg)
		if err != nil {
			env.Fail("setup", "New: %v", err)
		}

		return &process{kv: hc, close: st.Client.Close}
	}
	st, err := predis.New(predis.WithAddr(f.nodes[0].addr), predis.WithPoolSize(pool), predis.WithMinIdleConns(env.PI("idle")), predis.WithMaxRetries(env.PI("retries")), predis.WithPoolFIFO(env.P("fifo") == 1))
	if err != nil {
		env.Fail("setup", "redis.New: %v", err)
	}
	cfg, err := hypercache.NewConfig[backend.Redis](constants.RedisBackend)
	if err != nil {
		env.Fail("setup", "config: %v", err)
	}
	cfg.HyperCacheOptions = common[backend.Redis](env)
	cfg.RedisOptions = []backend.Option[backend.Redis]{backend.WithRedisClient(st.Client), backend.WithCapacity[backend.Redis](env.PI("cap"))}
	if name != "" {
		cfg.RedisOptions = append(cfg.RedisOptions, backend.WithKeysSetName(name))
	}
	if env.P("ser") == 1 {
		cfg.RedisOptions = append(cfg.RedisOptions, backend.WithSerializer(ser))
	}
	hc, err := hypercache.New(ctx, hypercache.GetDefaultManager(), cfg)
	if err != nil {
		env.Fail("setup", "New: %v", err)
	}

	return &process{kv: hc, close: st.Client.Close}
}

// indexName is the key the backend keeps for itself.
func indexName(env *simkit.Env) string {
	if env.P("named") == 1 {
		return "index"
	}

	return constants.RedisBackend
}

type quiet struct{}

func (quiet) Printf(context.Context, string, ...any) {}

func world(env *simkit.Env) (*farm, []*process, func()) {
	seedClient(env.P("client_seed"))
	redis.SetLogger(quiet{})
	log.SetOutput(io.Discard)
	n := simnet.New(env)
	f := newFarm(env, n, max(1, env.PI("nodes")), env.P("cluster") == 1, env.P("resp3") == 1)
	var ps []*process
	for range max(1, env.PI("procs")) {
		ps = append(ps, newProcess(env, f))
	}

	return f, ps, func() {
		for _, p := range ps {
			if err := p.Stop(context.Background()); err != nil {
				env.Fail("stop-failed", "Stop: %v", err)
			}
			_ = p.close()
		}
		time.Sleep(time.Second) // the cluster client's last reload
		f.close()
		n.Uninstall()
	}
}

func baseParams(r *simkit.Rand) map[string]int64 {
	p := map[string]int64{
		"client_seed": int64(r.N(1 << 30)), "cluster": int64(r.N(2)), "resp3": int64(r.N(2)), "procs": int64(r.I(1, 2)), "named": int64(r.N(2)), "ser": int64(r.N(2)),
		"algo": int64(r.N(4)), "evict_ms": simkit.Pick(r, int64(0), 1000), "expire_ms": simkit.Pick(r, int64(0), 100, 1000),
		"pool": int64(r.I(1, 4)), "idle": int64(r.N(2)), "retries": int64(r.I(1, 4)), "fifo": int64(r.N(2)), "spread": int64(r.N(1000)),
	}
	p["nodes"] = 1
	if p["cluster"] == 1 {
		p["nodes"] = int64(r.I(1, 4))
	}

	return p
}

const forever = int64(math.MaxInt64)

// Values carry the key and a number, in shapes that survive the encoding.
func makeVal(k string, n, shape int64) any {
	switch shape % 3 {
	case 0:
		return k + "|" + strconv.FormatInt(n, 10)
	case 1:
		return map[string]any{"k": k, "n": float64(n), "nil": nil}
	}

	return []any{k, float64(n), true, "é\x00\u2028<&>"}
}

func readVal(v any) (string, int64) {
	switch x := v.(type) {
	case string:
		i := strings.LastIndexByte(x, '|')
		if i < 0 {
			return "?" + x, -1
		}
		n, err := strconv.ParseInt(x[i+1:], 10, 64)
		if err != nil {
			return "?" + x, -1
		}

		return x[:i], n
	case map[string]any:
		k, ok := x["k"].(string)
		n, ok2 := x["n"].(float64)
		if _, has := x["nil"]; ok && ok2 && has && len(x) == 3 {
			return k, int64(n)
		}
	case []any:
		if len(x) == 4 && x[2] == true && x[3] == "é\x00\u2028<&>" {
			k, ok := x[0].(string)
			n, ok2 := x[1].(float64)
			if ok && ok2 {
				return k, int64(n)
			}
		}
	}

	return fmt.Sprintf("?%T %v", v, v), -1
}

func got(env *simkit.Env, k string, v any) int64 {
	vk, n := readVal(v)
	if vk != k {
		env.Fail("wrong-value", "asked for %q, got a value of %q", k, vk)
	}

	return n
}

// --- keep ---

const mortal = int64(1) << 40 // added to the number of a value with a lifetime

type kvIn struct {
	Op  string
	Key string
	Val int64
}

type kvOut struct {
	OK  bool
	Val int64
}

// model is one cell; a miss proves absence unless misses may be failures.
func model(blind bool) porcupine.Model {
	return porcupine.Model{
		Init: func() any { return int64(0) },
		Step: func(state, in, out any) (bool, any) {
			cur := state.(int64)
			i, o := in.(simkit.Event).In.(kvIn), out.(kvOut)
			switch i.Op {
			case "set":
				return true, i.Val
			case "remove":
				return true, int64(0)
			}
			if o.OK {
				return cur&^mortal == o.Val, cur
			}
			if blind {
				return true, cur
			}
			if cur >= mortal {
				return true, int64(0)
			}

			return cur == 0, cur
		},
		Equal:             func(a, b any) bool { return a.(int64) == b.(int64) },
		DescribeOperation: func(in, out any) string { return fmt.Sprint(in, out) },
	}
}

type keepData struct {
	th     [][]simkit.Event
	faulty bool
}

func genKeep(r *simkit.Rand, tier string) *simkit.Plan {
	p := &simkit.Plan{P: baseParams(r), Rates: map[string]int64{}}
	p.P["keys"] = int64(r.I(1, 3))
	p.Rates["net-delay"], p.Rates["net-split"] = simkit.Pick(r, int64(0), 1000, 4000), simkit.Pick(r, int64(0), 3000)
	p.Rates["redis-stall"] = simkit.Pick(r, int64(0), 1000)
	if r.P(1, 2) {
		p.P["faulty"] = 1
		for _, k := range []string{"redis-cut-before", "redis-cut-after", "redis-refuse", "net-reset", "net-refuse", "net-slow-dial"} {
			p.Rates[k] = simkit.Pick(r, int64(0), 0, 200, 1500)
		}
	}
	for range r.I(2, 4) {
		var ops []simkit.Op
		for range r.I(3, 10) {
			op := simkit.Op{A: int64(r.N(12)), B: int64(r.N(3)), C: int64(r.N(60))}
			w := []int{9, 8, 3, 3, 4, 5, 3, 2, 4, 0, 3}
			if p.P["faulty"] == 1 {
				w[9] = 1
			}
			op.K = []string{"set", "get", "info", "multi", "getorset", "remove", "list", "sleep", "ttl", "down", "trigger"}[r.PickW(w...)]
			ops = append(ops, op)
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

func execKeep(env *simkit.Env) {
	f, ps, done := world(env)
	ctx := context.Background()
	nt := len(env.Plan.Threads)
	faulty := env.P("faulty") == 1
	d := &keepData{th: make([][]simkit.Event, nt+1), faulty: faulty}
	env.Data = d
	nk := max(1, env.P("keys"))
	name := func(t, a int64) string { return fmt.Sprintf("k%d:%d:%d", env.P("spread"), t, a%nk) }
	any2 := func(op simkit.Op) string { return name((op.A/nk)%int64(nt), op.A) } // anyone's
	last := make([]map[string]kvIn, nt)                                          // what the writer's calls left; Op "?": unknown
	acked := make([]int, nt)
	env.Par(func(t int, ops []simkit.Op) {
		p := ps[t%len(ps)]
		last[t] = map[string]kvIn{}
		add := func(op, k string, val int64, ok bool, out, call, ret int64) {
			d.th[t] = append(d.th[t], simkit.Event{Thread: t, Op: op, In: kvIn{op, k, val}, Out: kvOut{ok, out}, Call: call, Ret: ret})
		}
		wrote := func(op, k string, val int64, err error, call int64) {
			ret := simkit.Seq()
			if err != nil {
				if !faulty {
					env.Fail("call-failed", "%s(%s): %v", op, k, err)
				}
				ret = forever
				last[t][k] = kvIn{"?", k, val}
			} else {
				acked[t]++
				last[t][k] = kvIn{op, k, val}
			}
			add(op, k, val, err == nil, 0, call, ret)
		}
		for i, op := range ops {
			id := int64(t+1)*1000 + int64(i) + 1
			own := name(int64(t), op.A)
			env.Ops(1)
			c := simkit.Seq()
			switch op.K {
			case "set":
				wrote("set", own, id, p.Set(ctx, own, makeVal(own, id, op.B), 0), c)
			case "ttl":
				wrote("set", own, id|mortal, p.Set(ctx, own, makeVal(own, id, op.B), time.Duration(op.C+1)*time.Millisecond), c)
				if op.A%2 == 0 {
					time.Sleep(time.Duration(op.C) * time.Millisecond)
				}
			case "remove":
				wrote("remove", own, 0, p.Remove(ctx, own), c)
			case "getorset":
				v, err := p.GetOrSet(ctx, own, makeVal(own, id, op.B), 0)
				ret := simkit.Seq()
				switch {
				case err == nil && got(env, own, v) == id:
					if faulty { // whether it was absent is not known
						wrote("set", own, id, nil, c)

						break
					}
					add("get", own, 0, false, 0, c, ret)
					wrote("set", own, id, nil, c)
				case err == nil:
					add("get", own, 0, true, got(env, own, v), c, ret)
				case errors.Is(err, sentinel.ErrKeyExpired) && last[t][own].Val >= mortal:
				default:
					wrote("set", own, id, err, c)
				}
			case "get", "info":
				k := any2(op)
				var v any
				var ok bool
				if op.K == "get" {
					v, ok = p.Get(ctx, k)
				} else {
					var it *cache.Item
					if it, ok = p.GetWithInfo(ctx, k); ok {
						if v = it.Value; it.Key != k {
							env.Fail("wrong-item", "asked for %s, got an item of %q", k, it.Key)
						}
					}
				}
				ret := simkit.Seq()
				var n int64
				if ok {
					n = got(env, k, v)
				}
				add("get", k, 0, ok, n, c, ret)
			case "multi":
				ks := []string{any2(op), own}
				if ks[0] == own {
					ks = ks[1:]
				}
				vs, miss := p.GetMultiple(ctx, ks...)
				ret := simkit.Seq()
				for _, k := range ks {
					v, ok := vs[k]
					if _, no := miss[k]; ok == no {
						env.Fail("multi-both", "GetMultiple: %s found=%v missing=%v", k, ok, no)
					}
					var n int64
					if ok {
						n = got(env, k, v)
					}
					add("get", k, 0, ok, n, c, ret)
				}
			case "list":
				how := listing.Of(op.A*16 + op.B*4 + op.C)
				its, err := p.List(ctx, how.Filters...)
				ret := simkit.Seq()
				if err != nil {
					if !faulty && !how.Refused() {
						env.Fail("call-failed", "List: %v", err)
					}

					break
				}
				if how.Refused() {
					env.Fail("bad-listing", "List, sorted by a field that does not exist, returned %d items", len(its))
				}
				if m := how.Judge(its); m != "" {
					env.Fail("bad-listing", "List: %s", m)
				}
				seen := map[string]bool{}
				for _, it := range its {
					if seen[it.Key] {
						env.Fail("listed-twice", "List returned %s twice", it.Key)
					}
					seen[it.Key] = true
					n := got(env, it.Key, it.Value)
					if it.Expiration == 0 { // a listing shows what has expired until it is removed
						add("get", it.Key, 0, true, n, c, ret)
					}
				}
				for _, k := range simkit.SortedKeys(last[t]) { // nobody else writes these
					if w := last[t][k]; w.Op == "set" && w.Val < mortal && !seen[k] && how.Keeps(k) {
						env.Fail("not-listed", "List did not return %s, written as %d and acknowledged; servers: %s", k, w.Val, f.keys())
					}
				}
			case "sleep":
				time.Sleep(time.Duration(op.C) * 2 * time.Millisecond)
			case "trigger":
				p.TriggerExpiration()
			case "down":
				nd := f.nodes[op.A%int64(len(f.nodes))]
				env.CountFault("redis-down")
				f.net.SetState(nd.addr, simnet.Down)
				time.Sleep(time.Duration(op.C) * 20 * time.Millisecond)
				f.net.SetState(nd.addr, simnet.Up)
			}
		}
	})
	env.StopFaults()
	for _, nd := range f.nodes {
		f.net.SetState(nd.addr, simnet.Up)
	}
	time.Sleep(30 * time.Second)
	for t := range nt {
		for _, k := range simkit.SortedKeys(last[t]) {
			w := last[t][k]
			for pi, p := range ps {
				v, ok := p.Get(ctx, k)
				for i := 0; !ok && i < 8; i++ { // the connections at hand may all be broken
					v, ok = p.Get(ctx, k)
				}
				var n int64
				if ok {
					n = got(env, k, v)
				}
				switch {
				case w.Op == "?":
				case w.Op == "remove" || w.Val >= mortal:
					if ok {
						env.Fail("came-back", "%s is gone (%v), process %d still reads %d; servers: %s", k, w, pi, n, f.keys())
					}
				case !ok:
					env.Fail("lost", "%s was written (%d) and acknowledged, process %d does not find it; servers: %s", k, w.Val, pi, f.keys())
				case n != w.Val:
					env.Fail("stale", "%s was last written as %d, process %d reads %d", k, w.Val, pi, n)
				}
			}
		}
	}
	total := 0
	for _, n := range acked {
		total += n
	}
	if total > 1 {
		env.Nontrivial()
	}
	env.Observe(fmt.Sprint(total, len(f.keys())))
	done()
}

func afterKeep(env *simkit.Env) {
	d, ok := env.Data.(*keepData)
	if !ok {
		return
	}
	byKey := map[string][]simkit.Event{}
	for _, evs := range d.th {
		for _, e := range evs {
			k := e.In.(kvIn).Key
			byKey[k] = append(byKey[k], e)
		}
	}
	for _, k := range simkit.SortedKeys(byKey) {
		evs := byKey[k]
		sort.SliceStable(evs, func(i, j int) bool { return evs[i].Call < evs[j].Call })
		msg, decided := simkit.Linearizable(model(d.faulty), evs, 5*time.Second)
		if !decided {
			env.Inconclusive()

			continue
		}
		if msg != "" {
			env.Fail("not-linearizable", "key %s: %s", k, msg)
		}
	}
}

// --- life ---

func genLife(r *simkit.Rand, tier string) *simkit.Plan {
	p := &simkit.Plan{P: baseParams(r), Rates: map[string]int64{}}
	p.P["keys"] = int64(r.I(2, 9))
	p.Rates["net-delay"], p.Rates["net-split"] = simkit.Pick(r, int64(0), 0, 500), simkit.Pick(r, int64(0), 1000)
	if r.P(1, 3) {
		p.P["procs"], p.P["cap"], p.P["evict_ms"] = 1, int64(r.I(1, 5)), 0
	}
	var ops []simkit.Op
	for range r.I(8, 40) {
		op := simkit.Op{A: int64(r.N(1000)), B: int64(r.N(1000)), C: int64(r.N(1000))}
		op.K = []string{"set", "ttl", "get", "info", "getorset", "multi", "remove", "removemany", "list", "count", "clear", "sleep", "longsleep", "trigger"}[r.PickW(14, 8, 6, 2, 4, 3, 4, 3, 4, 4, 1, 5, 1, 1)]
		ops = append(ops, op)
	}
	p.Threads = [][]simkit.Op{ops}

	return p
}

type cell struct {
	n      int64
	lo, hi time.Duration // surely there before lo, surely gone after hi; 0: no lifetime
}

func (c *cell) sure(now time.Duration) bool  { return c.hi == 0 || now < c.lo }
func (c *cell) maybe(now time.Duration) bool { return c.hi == 0 || now <= c.hi }
func lifetime(op simkit.Op) time.Duration {
	return []time.Duration{20, 300, 999, 1000, 1001, 1500, 1900, 2500, 60_000, 3_600_000}[op.B%10] * time.Millisecond
}

func execLife(env *simkit.Env) {
	f, ps, done := world(env)
	ctx := context.Background()
	capacity := env.PI("cap")
	reserved := indexName(env)
	names := []string{"a", "b:1", "c{t}1", "d{t}2", "e f", "ключ", reserved, "data", "g/h%20"}
	nk := int(max(1, env.P("keys")))
	keyOf := func(a int64) string { return names[(int(a)+env.PI("spread"))%nk%len(names)] }
	if nk >= 7 { // the backend's own name is among them
		env.Probe("reserved-key")
	}
	m := map[string]*cell{}
	refused := map[string]bool{}
	hits := 0
	look := func(k string, call time.Duration, n int64, ok bool, what string) {
		c := m[k]
		switch {
		case ok && c == nil:
			env.Fail("came-back", "%s(%q) found %d, it was removed or never written; servers: %s", what, k, n, f.keys())
		case ok && c.n != n:
			env.Fail("wrong-value", "%s(%q) found %d, %d was written last", what, k, n, c.n)
		case ok && !c.maybe(call):
			env.Fail("outlived", "%s(%q) found it at %v, it should be gone by %v", what, k, call, c.hi)
		case !ok && c != nil && c.sure(env.Now()):
			env.Fail("lost", "%s(%q) found nothing at %v, written as %d, with its end at %v; servers: %s", what, k, env.Now(), c.n, c.lo, f.keys())
		}
		if ok {
			hits++
		}
	}
	num := func(k string, v any, ok bool) int64 {
		if !ok {
			return 0
		}

		return got(env, k, v)
	}
	listing := func(p *process) {
		call := env.Now()
		its, err := p.List(ctx, backend.WithSortBy(constants.SortByKey.String()))
		if err != nil {
			env.Fail("call-failed", "List: %v", err)
		}
		seen := map[string]bool{}
		prev := ""
		for _, it := range its {
			if seen[it.Key] || it.Key < prev {
				env.Fail("bad-list", "List, sorted by key, returned %q after %q", it.Key, prev)
			}
			seen[it.Key], prev = true, it.Key
			look(it.Key, call, num(it.Key, it.Value, true), true, "List")
		}
		for _, k := range simkit.SortedKeys(m) {
			if !seen[k] {
				look(k, call, 0, false, "List")
			}
		}
	}
	// evicted learns what made room for a write.
	evicted := func(p *process) {
		if capacity == 0 {
			return
		}
		its, err := p.List(ctx)
		if err != nil {
			env.Fail("call-failed", "List: %v", err)
		}
		if n := len(its); n != min(len(m), capacity) {
			env.Fail("capacity", "with a capacity of %d, %d of %d written keys are left after a write; servers: %s", capacity, n, len(m), f.keys())
		}
		left := map[string]bool{}
		for _, it := range its {
			left[it.Key] = true
		}
		if len(m) > capacity {
			for _, k := range simkit.SortedKeys(m) {
				if !left[k] {
					delete(m, k)
				}
			}
			env.Probe("evicted")
		}
	}
	wrote := func(p *process, k string, n int64, d, call time.Duration, err error) {
		if err != nil {
			if k == reserved && errors.Is(err, sentinel.ErrInvalidKey) {
				refused[k] = true

				return
			}
			env.Fail("call-failed", "Set(%q, ttl %v): %v; servers: %s", k, d, err, f.keys())
		}
		c := &cell{n: n}
		if d > 0 {
			c.lo, c.hi = call+d-time.Millisecond, env.Now()+d+time.Millisecond
		}
		m[k] = c
		evicted(p)
	}
	env.Par(func(_ int, ops []simkit.Op) {
		for i, op := range ops {
			p := ps[int(op.C)%len(ps)]
			k := keyOf(op.A)
			id := int64(i) + 1
			env.Ops(1)
			call := env.Now()
			switch op.K {
			case "set":
				wrote(p, k, id, 0, call, p.Set(ctx, k, makeVal(k, id, op.B), 0))
			case "ttl":
				d := lifetime(op)
				if capacity > 0 { // what Redis expires, the eviction order hears of late
					d = 0
				}
				wrote(p, k, id, d, call, p.Set(ctx, k, makeVal(k, id, op.A), d))
			case "get":
				v, ok := p.Get(ctx, k)
				look(k, call, num(k, v, ok), ok, "Get")
			case "info":
				it, ok := p.GetWithInfo(ctx, k)
				if !ok {
					look(k, call, 0, false, "GetWithInfo")

					break
				}
				if it.Key != k {
					env.Fail("wrong-item", "asked for %q, got an item of %q", k, it.Key)
				}
				look(k, call, num(k, it.Value, true), true, "GetWithInfo")
			case "getorset":
				v, err := p.GetOrSet(ctx, k, makeVal(k, id, op.B), 0)
				c := m[k]
				switch {
				case errors.Is(err, sentinel.ErrKeyExpired) && c != nil && !c.sure(env.Now()) && c.maybe(call):
				case err == nil && got(env, k, v) != id:
					look(k, call, got(env, k, v), true, "GetOrSet")
				default:
					if err == nil {
						look(k, call, 0, false, "GetOrSet")
					}
					wrote(p, k, id, 0, call, err)
				}
			case "multi":
				ks := []string{k, keyOf(op.B), keyOf(op.C)}
				vs, miss := p.GetMultiple(ctx, ks...)
				for _, k := range ks {
					v, ok := vs[k]
					if _, no := miss[k]; ok == no {
						if c := m[k]; c == nil || c.sure(env.Now()) || !c.maybe(call) {
							env.Fail("multi-both", "GetMultiple: %q found=%v missing=%v", k, ok, no)
						}
					}
					look(k, call, num(k, v, ok), ok, "GetMultiple")
				}
			case "remove", "removemany":
				ks := []string{k}
				if op.K == "removemany" {
					ks = append(ks, keyOf(op.B), keyOf(op.C), "never-written")
				}
				if err := p.Remove(ctx, ks...); err != nil {
					env.Fail("call-failed", "Remove(%q): %v", ks, err)
				}
				for _, k := range ks {
					delete(m, k)
				}
			case "list":
				listing(p)
			case "count":
				n := p.Count(ctx)
				sure, may := 0, 0
				for _, c := range m {
					if c.sure(env.Now()) {
						sure++
					}
					if c.maybe(call) {
						may++
					}
				}
				if n < sure || n > may {
					env.Fail("bad-count", "Count is %d, between %d and %d keys are there; servers: %s", n, sure, may, f.keys())
				}
			case "clear":
				if err := p.Clear(ctx); err != nil {
					env.Fail("call-failed", "Clear: %v", err)
				}
				clear(m)
			case "sleep":
				time.Sleep(time.Duration(op.B*3+1) * time.Millisecond)
			case "longsleep":
				if env.P("expire_ms") > 0 { // every tick costs
					op.B /= 10
				}
				time.Sleep(time.Duration(op.B*5+1) * time.Second)
			case "trigger":
				p.TriggerExpiration()
			}
		}
		for _, p := range ps {
			listing(p)
		}
	})
	if hits > 1 {
		env.Nontrivial()
	}
	env.Observe(fmt.Sprint(hits, len(m), len(refused), f.keys()))
	done()
}
