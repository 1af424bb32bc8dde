package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// "order": one client, one eviction-algorithm instance: after every step the
// cache holds exactly what the configured policy, counting reads and writes,
// leaves in it.
// "capacity": many clients change the contents and the capacity; once they stop
// the cache is brought back to its capacity, and no further.

func init() {
	simkit.Register(&simkit.Scenario{Name: "order", Gen: genOrder, Exec: execOrder})
	simkit.Register(&simkit.Scenario{Name: "capacity", Gen: genCapacity, Exec: execCapacity})
}

func genOrder(r *simkit.Rand, tier string) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{
		"algo": int64(r.N(4)), "cap": int64(r.I(1, 5)), "keys": int64(r.I(2, 9)), "shards": 1,
		"evict_ms": simkit.Pick(r, int64(0), 0, 10), "max_evict": simkit.Pick(r, int64(0), 0, 1, 2),
	}}
	var ops []simkit.Op
	for range r.I(3, 40) {
		k := []string{"set", "get", "info", "multi", "getorset", "remove", "clear", "sleep", "trigger"}[r.PickW(12, 7, 2, 2, 3, 2, 1, 3, 1)]
		ops = append(ops, simkit.Op{K: k, A: int64(r.N(int(p.P["keys"]))), B: int64(r.N(int(p.P["keys"])))})
	}
	p.Threads = [][]simkit.Op{ops}

	return p
}

func execOrder(env *simkit.Env) {
	hc, err := newCache(env)
	if err != nil {
		env.Fail("setup", "New: %v", err)
	}
	ctx := context.Background()
	name := algos[env.P("algo")%4]
	ref := newRef(name, 1<<20)
	held := map[string]bool{}
	capacity, every := env.PI("cap"), time.Duration(env.P("evict_ms"))*time.Millisecond
	perRun := env.PI("max_evict")
	if perRun == 0 {
		perRun = capacity
	}
	reclaim := func(what string) {
		for n := 0; len(held) > capacity && n < perRun; n++ {
			k, ok := ref.evict()
			if !ok {
				env.Fail("setup", "reference has nothing to evict")
			}
			delete(held, k)
			env.Probe("evicted-" + name)
		}
	}
	write := func(k string) {
		ref.set(k)
		held[k] = true
		if every == 0 {
			reclaim(k)
		}
	}
	read := func(k string, ok bool) {
		if ok != held[k] {
			env.Fail("wrong-contents", "%s: %s present=%v, the policy says %v", name, k, ok, held[k])
		}
		if ok {
			ref.get(k)
		}
	}
	var did []string
	for _, t := range env.Plan.Threads {
		for i, op := range t {
			k := key(op.A)
			did = append(did, op.K+" "+k)
			ticked := false
			switch op.K {
			case "set":
				if err := hc.Set(ctx, k, makeVal(k, int64(i), 0, 0), 0); err != nil {
					env.Fail("set-failed", "Set: %v", err)
				}
				write(k)
			case "get":
				_, ok := hc.Get(ctx, k)
				read(k, ok)
			case "info":
				_, ok := hc.GetWithInfo(ctx, k)
				read(k, ok)
			case "multi":
				k2 := key(op.B)
				vals, _ := hc.GetMultiple(ctx, k, k2)
				_, ok := vals[k]
				read(k, ok)
				_, ok = vals[k2]
				read(k2, ok)
			case "getorset":
				had := held[k]
				v, err := hc.GetOrSet(ctx, k, makeVal(k, int64(i), 0, 0), 0)
				if err != nil {
					env.Fail("set-failed", "GetOrSet: %v", err)
				}
				if _, n := readVal(v); (n != int64(i)) != had {
					env.Fail("wrong-contents", "%s: GetOrSet(%s) found=%v, the policy says %v", name, k, n != int64(i), had)
				}
				if had {
					ref.get(k)
				} else {
					write(k)
				}
			case "remove":
				if err := hc.Remove(ctx, k); err != nil {
					env.Fail("remove-failed", "Remove: %v", err)
				}
				if held[k] {
					ref.del(k)
					delete(held, k)
				}
			case "clear":
				if err := hc.Clear(ctx); err != nil {
					env.Fail("clear-failed", "Clear: %v", err)
				}
				for q := range held {
					ref.del(q)
				}
				clear(held)
			case "sleep":
				if every > 0 { // meet exactly one tick
					time.Sleep(every - time.Duration(int64(env.Now())%int64(every)) + every/2)
					reclaim("tick")
				}
				ticked = true
			case "trigger":
				hc.TriggerEviction(ctx)
				time.Sleep(time.Nanosecond)
				reclaim("trigger")
				ticked = every > 0
			}
			env.Ops(1)
			if every > 0 && ticked && op.K == "trigger" && int64(env.Now())%int64(every) == 0 {
				continue
			}
			items, err := hc.List(ctx)
			if err != nil {
				env.Fail("list-failed", "List: %v", err)
			}
			var have, want []string
			for _, it := range items {
				have = append(have, it.Key)
			}
			for q := range held {
				want = append(want, q)
			}
			sort.Strings(have)
			sort.Strings(want)
			if fmt.Sprint(have) != fmt.Sprint(want) {
				env.Fail("wrong-contents", "%s, capacity %d, step %d (%s): the cache holds %v, the policy leaves %v\n  %s", name, capacity, i, op.K, have, want, strings.Join(did, "; "))
			}
		}
	}
	env.Observe(ref.String())
	if len(did) > capacity {
		env.Nontrivial()
	}
	if err := hc.Stop(ctx); err != nil {
		env.Fail("stop-failed", "Stop: %v", err)
	}
}

func genCapacity(r *simkit.Rand, tier string) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{
		"algo": int64(r.N(4)), "cap": int64(r.N(8)), "keys": int64(r.I(3, 24)), "shards": simkit.Pick(r, int64(1), 2, 32),
		"evict_ms": simkit.Pick(r, int64(0), 5, 20), "expire_ms": simkit.Pick(r, int64(0), 7), "max_evict": simkit.Pick(r, int64(0), 0, 1, 3),
		"final": int64(r.N(9)),
	}}
	for range r.I(1, 4) {
		var ops []simkit.Op
		for range r.I(2, 14) {
			k := []string{"set", "getorset", "get", "remove", "clear", "capacity", "trigger", "sleep"}[r.PickW(14, 3, 3, 3, 1, 2, 1, 2)]
			op := simkit.Op{K: k, A: int64(r.N(int(p.P["keys"]))), B: int64(r.N(10))}
			if k == "capacity" {
				op.B = simkit.Pick(r, int64(0), 1, 2, 3, 5, 8)
			}
			if p.P["expire_ms"] > 0 && r.P(1, 5) {
				op.S = "ttl"
			}
			ops = append(ops, op)
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

func execCapacity(env *simkit.Env) {
	hc, err := newCache(env)
	if err != nil {
		env.Fail("setup", "New: %v", err)
	}
	ctx := context.Background()
	every := time.Duration(env.P("evict_ms")) * time.Millisecond
	set := func(k string, id int64, ttl time.Duration) {
		if err := hc.Set(ctx, k, makeVal(k, id, 0, 0), ttl); err != nil {
			env.Fail("set-failed", "Set: %v", err)
		}
	}
	env.Par(func(t int, ops []simkit.Op) {
		for i, op := range ops {
			k := key(op.A)
			id := int64(t+1)*1000 + int64(i)
			var ttl time.Duration
			if op.S == "ttl" {
				ttl = time.Duration(op.B+1) * time.Millisecond
			}
			switch op.K {
			case "set":
				set(k, id, ttl)
			case "getorset":
				_, _ = hc.GetOrSet(ctx, k, makeVal(k, id, 0, 0), ttl)
			case "get":
				hc.Get(ctx, k)
			case "remove":
				if err := hc.Remove(ctx, k); err != nil {
					env.Fail("remove-failed", "Remove: %v", err)
				}
			case "clear":
				if err := hc.Clear(ctx); err != nil {
					env.Fail("clear-failed", "Clear: %v", err)
				}
			case "capacity":
				hc.SetCapacity(ctx, int(op.B))
				env.Probe("capacity-changed")
			case "trigger":
				hc.TriggerEviction(ctx)
			case "sleep":
				time.Sleep(time.Duration(op.B) * time.Millisecond)
			}
			env.Ops(1)
		}
	})
	if c := env.PI("final") - 1; c >= 0 {
		hc.SetCapacity(ctx, c)
	}
	capacity := hc.Capacity()
	time.Sleep(50 * time.Millisecond) // lifetimes end, background work settles
	perRun := env.PI("max_evict")
	if perRun == 0 {
		perRun = max(1, env.PI("cap"))
		if env.P("cap") == 0 {
			perRun = 1 << 20 // no allowance was derived from a capacity: unlimited
		}
	}
	// Progress: each run may take perRun items, so this many runs must do.
	// Entries the policy still ranks although they are gone use up allowance too.
	runs := 2
	if perRun < 1<<20 {
		runs += (hc.Count(ctx) + 300) / perRun
	}
	before := hc.Count(ctx)
	for range runs {
		if every == 0 {
			hc.TriggerEviction(ctx)
		}
		time.Sleep(every + time.Nanosecond)
	}
	after := hc.Count(ctx)
	if capacity > 0 && after > capacity {
		env.Fail("over-capacity", "%d items in a cache of capacity %d, %d eviction runs (of up to %d items) after all writers stopped", after, capacity, runs, perRun)
	}
	if before > capacity && capacity > 0 {
		env.Probe("excess-reclaimed")
		if after < capacity {
			env.Fail("over-evicted", "capacity %d, %d items before the last eviction runs and %d after", capacity, before, after)
		}
	}
	if capacity == 0 && after < before {
		env.Fail("over-evicted", "an unlimited cache dropped %d of %d items", before-after, before)
	}
	// From here on a single client finds the cache exactly full.
	for n := range int64(capacity + 3) {
		had := hc.Count(ctx)
		now := 0
		for try := range runs + 300/min(perRun, 300) {
			if try == 0 || every == 0 { // without a loop, writes alone must do
				set("fill-"+key(n), n, 0)
			}
			time.Sleep(every + time.Nanosecond)
			if now = hc.Count(ctx); capacity == 0 || now <= capacity {
				break
			}
		}
		if capacity > 0 && now != min(capacity, had+1) || capacity == 0 && now != had+1 {
			env.Fail("wrong-count", "capacity %d: adding one key to %d left %d", capacity, had, now)
		}
	}
	env.Observe(fmt.Sprint(capacity, after))
	env.Nontrivial()
	if err := hc.Stop(ctx); err != nil {
		env.Fail("stop-failed", "Stop: %v", err)
	}
}
