package main

import (
	"context"
	"errors"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/backend"
	"github.com/hyp3rd/hypercache/zzsim/listing"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// The cache API. "ops" runs without a capacity and without lifetimes: nothing a
// client wrote may be lost, although eviction ticks and triggers keep coming.
// "mixed" runs with everything at once - capacity, lifetimes, refused writes,
// cancelled calls - where an entry may disappear at any time but never come
// back, change, or show up under another key.

func init() {
	check := func(lossy bool) func(env *simkit.Env) {
		return func(env *simkit.Env) { env.Data.(*history).check(env, "not-linearizable", lossy) }
	}
	simkit.Register(&simkit.Scenario{Name: "ops", Gen: genOps(false), Exec: execOps, After: check(false)})
	simkit.Register(&simkit.Scenario{Name: "mixed", Gen: genOps(true), Exec: execOps, After: check(true)})
}

func genOps(mixed bool) func(r *simkit.Rand, tier string) *simkit.Plan {
	return func(r *simkit.Rand, tier string) *simkit.Plan {
		p := &simkit.Plan{P: map[string]int64{
			"keys": int64(r.I(1, 4)), "spread": int64(r.N(1000)), "algo": int64(r.N(4)),
			"shards": simkit.Pick(r, int64(1), 2, 32), "evict_ms": simkit.Pick(r, int64(0), 5, 50), "expire_ms": simkit.Pick(r, int64(0), 5, 50),
			"max_evict": simkit.Pick(r, int64(0), 0, 1, 3),
		}}
		if mixed {
			p.P["mixed"] = 1
			p.P["keys"] = int64(r.I(2, 6))
			p.P["cap"] = simkit.Pick(r, int64(0), 1, 2, 4)
			p.P["max_size"] = simkit.Pick(r, int64(0), 0, 60)
			p.P["debounce_ms"] = simkit.Pick(r, int64(0), 3)
			p.P["trigger_buf"] = simkit.Pick(r, int64(0), 1, 2)
		}
		for range r.I(2, 4) {
			var ops []simkit.Op
			for range r.I(2, 9) {
				op := simkit.Op{A: int64(r.N(int(p.P["keys"]))), B: int64(r.N(4)), C: int64(r.N(4))}
				w := []int{9, 6, 2, 6, 3, 4, 2, 1, 1, 1, 1, 2, 2, 0, 0}
				if mixed {
					w = []int{9, 6, 3, 5, 3, 3, 2, 1, 1, 2, 3, 2, 1, 3, 2}
				}
				op.K = []string{"set", "get", "info", "getorset", "multi", "remove", "list", "clear", "count", "trigger", "sleep", "typed", "typedget", "bad", "removectx"}[r.PickW(w...)]
				if mixed && r.P(1, 2) {
					op.S = "ttl"
				}
				ops = append(ops, op)
			}
			p.Threads = append(p.Threads, ops)
		}

		return p
	}
}

func execOps(env *simkit.Env) {
	mixed := env.P("mixed") == 1
	hc, err := newCache(env)
	if err != nil {
		env.Fail("setup", "New: %v", err)
	}
	// Typed view of the same cache: values of other types are not visible to it.
	typed := hypercache.NewTyped[backend.InMemory, string](hc)
	ctx := context.Background()
	nk := max(1, env.P("keys"))
	keyOf := func(a int64) string { return key(a%nk + env.P("spread")) }
	nt := len(env.Plan.Threads)
	h := newHistory(nt + 1)
	changed := make([]int, nt)
	ttlOf := func(op simkit.Op) time.Duration {
		if op.S == "ttl" {
			return time.Duration(op.C+1) * 4 * time.Millisecond
		}

		return 0
	}
	got := func(k string, v any) int64 {
		vk, n := readVal(v)
		if vk != k {
			env.Fail("wrong-value", "asked for %s, got a value written under %q", k, vk)
		}

		return n
	}
	// what a write may answer
	full := func(err error) bool { return env.P("max_size") > 0 && errors.Is(err, sentinel.ErrCacheFull) }
	env.Par(func(t int, ops []simkit.Op) {
		for i, op := range ops {
			k := keyOf(op.A)
			id := int64(t+1)*1000 + int64(i)
			c := simkit.Seq()
			switch op.K {
			case "set", "typed":
				var err error
				if op.K == "set" {
					err = hc.Set(ctx, k, makeVal(k, id, op.B, op.C), ttlOf(op))
				} else {
					err = typed.Set(ctx, k, makeVal(k, id, 0, op.C).(string), ttlOf(op))
				}
				ret := simkit.Seq()
				switch {
				case err == nil:
					h.add(t, "set", k, id, true, 0, c, ret)
					changed[t]++
				case !full(err):
					env.Fail("set-failed", "Set(%s): %v", k, err)
				}
			case "get":
				v, ok := hc.Get(ctx, k)
				ret := simkit.Seq()
				var n int64
				if ok {
					n = got(k, v)
				}
				h.add(t, "get", k, 0, ok, n, c, ret)
			case "typedget":
				v, err := typed.GetTyped(ctx, k)
				ret := simkit.Seq()
				switch {
				case err == nil:
					h.add(t, "get", k, 0, true, got(k, v), c, ret)
				case errors.Is(err, sentinel.ErrTypeMismatch):
					h.add(t, "has", k, 0, true, 0, c, ret)
				case errors.Is(err, sentinel.ErrKeyNotFound):
					h.add(t, "get", k, 0, false, 0, c, ret)
				default:
					env.Fail("typed-error", "GetTyped(%s): %v", k, err)
				}
			case "info":
				it, ok := hc.GetWithInfo(ctx, k)
				ret := simkit.Seq()
				var n int64
				if ok {
					itemOK(env, k, it)
					n = got(k, it.Value)
					it.Value, it.Key = "mine", "mine"
				}
				h.add(t, "get", k, 0, ok, n, c, ret)
			case "getorset":
				v, err := hc.GetOrSet(ctx, k, makeVal(k, id, op.B, op.C), ttlOf(op))
				ret := simkit.Seq()
				switch {
				case err != nil:
					if mixed && errors.Is(err, sentinel.ErrKeyExpired) {
						h.add(t, "get", k, 0, false, 0, c, ret)
					} else if full(err) {
						h.add(t, "get", k, 0, false, 0, c, ret)
					} else {
						env.Fail("getorset-failed", "GetOrSet(%s): %v", k, err)
					}
				case got(k, v) == id: // found nothing, then wrote
					h.add(t, "get", k, 0, false, 0, c, ret)
					h.add(t, "set", k, id, true, 0, c, ret)
					changed[t]++
				default:
					h.add(t, "get", k, 0, true, got(k, v), c, ret)
				}
			case "multi":
				qs := []string{k}
				if k2 := keyOf(op.B); k2 != k {
					qs = append(qs, k2)
				}
				vals, errs := hc.GetMultiple(ctx, qs...)
				ret := simkit.Seq()
				for _, q := range qs {
					v, ok := vals[q]
					e := errs[q]
					if ok == (e != nil) {
						env.Fail("multi-shape", "GetMultiple(%s): value present=%v together with error %v", q, ok, e)
					}
					if e != nil && !errors.Is(e, sentinel.ErrKeyNotFound) {
						env.Fail("multi-error", "GetMultiple(%s): %v", q, e)
					}
					var n int64
					if ok {
						n = got(q, v)
					}
					h.add(t, "get", q, 0, ok, n, c, ret)
				}
			case "remove":
				if err := hc.Remove(ctx, k); err != nil {
					env.Fail("remove-failed", "Remove: %v", err)
				}
				h.add(t, "remove", k, 0, true, 0, c, simkit.Seq())
				changed[t]++
			case "removectx":
				cctx, cancel := context.WithCancel(ctx)
				if op.B%2 == 0 {
					cancel()
				} else {
					go cancel()
				}
				env.CountFault("cancelled-context")
				err := hc.Remove(cctx, k)
				ret := simkit.Seq()
				cancel()
				if err == nil { // one that failed removed nothing, and will not
					h.add(t, "remove", k, 0, true, 0, c, ret)
				}
			case "clear":
				if err := hc.Clear(ctx); err != nil {
					env.Fail("clear-failed", "Clear: %v", err)
				}
				ret := simkit.Seq()
				for n := range nk {
					h.add(t, "remove", keyOf(n), 0, true, 0, c, ret)
				}
				changed[t]++
			case "list":
				how := listing.Of(op.A*16 + op.B*4 + op.C)
				items, err := hc.List(ctx, how.Filters...)
				ret := simkit.Seq()
				if (err != nil) != how.Refused() {
					env.Fail("list-failed", "List: %v", err)
				}
				if err != nil {
					break
				}
				if m := how.Judge(items); m != "" {
					env.Fail("bad-listing", "List: %s", m)
				}
				seen := map[string]int64{}
				for _, it := range items {
					if _, dup := seen[it.Key]; dup {
						env.Fail("list-duplicate", "List returned %s twice", it.Key)
					}
					itemOK(env, it.Key, it)
					seen[it.Key] = got(it.Key, it.Value)
					it.Value = "mine"
				}
				if !mixed { // with lifetimes List may still show what Get no longer does
					for n := range nk {
						if !how.Keeps(keyOf(n)) {
							continue
						}
						v, ok := seen[keyOf(n)]
						h.add(t, "get", keyOf(n), 0, ok, v, c, ret)
					}
				}
			case "count":
				if n := hc.Count(ctx); n < 0 || int64(n) > nk {
					env.Fail("bad-count", "Count returned %d with only %d keys in use", n, nk)
				}
			case "trigger":
				if op.B%2 == 0 {
					hc.TriggerEviction(ctx)
				} else {
					hc.TriggerExpiration()
				}
				env.CountFault("background-trigger")
			case "bad":
				var err error
				switch op.B % 3 {
				case 0:
					err = hc.Set(ctx, " ", makeVal(k, id, op.C, 3), 0)
				case 1:
					err = hc.Set(ctx, k, nil, 0)
				default:
					err = hc.Set(ctx, k, makeVal(k, id, op.C, 3), -time.Second)
				}
				env.CountFault("refused-write")
				if err == nil {
					env.Fail("bad-accepted", "an invalid Set was accepted")
				}
			case "sleep":
				time.Sleep(time.Duration(1+op.C*3) * time.Millisecond)
			}
			env.Ops(1)
		}
	})
	if err := hc.Stop(ctx); err != nil {
		env.Fail("stop-failed", "Stop: %v", err)
	}
	for n := range nk {
		c := simkit.Seq()
		v, ok := hc.Get(ctx, keyOf(n))
		var m int64
		if ok {
			m = got(keyOf(n), v)
		}
		h.add(nt, "get", keyOf(n), 0, ok, m, c, simkit.Seq())
		env.Observe(keyOf(n) + it2s(ok))
	}
	total := 0
	for _, m := range changed {
		total += m
	}
	if total > 1 {
		env.Nontrivial()
	}
	env.Data = h
}
