package main

import (
	"context"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/zzsim/simkit"

	"github.com/hyp3rd/hypercache/pkg/backend"
)

// "repair": replicas fall behind while cut off, without hints or
// anti-entropy. Once the network is whole, reading a key brings all its owners
// up to what was read, even if the reader stops right after, and a repair never
// replaces anything newer.

func init() {
	register(&simkit.Scenario{Name: "repair", Gen: genRepair, Exec: execRepair})
}

func genRepair(r *simkit.Rand, tier string) *simkit.Plan {
	n := r.I(2, 5)
	p := &simkit.Plan{P: map[string]int64{
		"nodes": int64(n), "rf": int64(r.I(2, 4)), "wc": int64(r.N(3)), "rc": simkit.Pick(r, int64(0), 1, 1, 2, 2), "parallel": int64(r.N(2)),
		"shards": simkit.Pick(r, int64(1), 2, 8), "vnodes": simkit.Pick(r, int64(1), 8, 0), "keys": int64(r.I(1, 6)), "spread": int64(r.N(1000)),
		"lat_us": simkit.Pick(r, int64(0), 200, 2000), "rpc_ms": simkit.Pick(r, int64(20), 60),
		"repair_ms": simkit.Pick(r, int64(0), 5, 50, 500), "repair_max": int64(r.I(1, 4)),
		"down_sentinel": int64(r.N(2)), "stop_reader": int64(r.N(2)), "late_writes": int64(r.N(2)),
		"twice": int64(r.N(2)),
	}, Rates: map[string]int64{
		"delay": simkit.Pick(r, int64(0), 0, 3000), "drop-request": simkit.Pick(r, int64(0), 1000), "drop-response": simkit.Pick(r, int64(0), 1000),
		"duplicate": simkit.Pick(r, int64(0), 0, 1000),
	}}
	if r.P(1, 4) {
		p.P["wipe"], p.P["late_writes"], p.P["twice"] = int64(r.I(1, n)), 0, 0
	}
	for range r.I(1, 4) {
		var ops []simkit.Op
		for range r.I(3, 9) {
			ops = append(ops, simkit.Op{
				K: []string{"set", "get", "cut", "isolate", "heal", "sleep"}[r.PickW(12, 3, 2, 2, 1, 2)],
				A: int64(r.N(6)), B: int64(r.N(6)), C: int64(r.N(60)),
			})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

func execRepair(env *simkit.Env) {
	w := newWorld(env)
	w.opts = func(string) []backend.DistMemoryOption { return baseOpts(env) }
	nodes := w.boot(max(2, env.PI("nodes")))
	nk := max(1, env.P("keys"))
	ctx := context.Background()
	at := func(i int64) string { return nodes[i%int64(len(nodes))] }
	env.Par(func(t int, ops []simkit.Op) {
		for i, op := range ops {
			k := keyName(op.A%nk + env.P("spread"))
			n := w.get(at(op.B))
			switch op.K {
			case "set":
				_ = put(ctx, n, k, makeVal(k, int64(t+1)*1000+int64(i)))
			case "get":
				if it, ok := n.dm.Get(ctx, k); ok {
					w.readVal(k, it)
				}
			case "cut":
				w.setCut(at(op.B), at(op.C), true)
				env.CountFault("one-way-cut")
			case "isolate":
				w.isolate(n.id, nodes)
				env.CountFault("isolated-node")
			case "heal":
				w.healAll()
			case "sleep":
				time.Sleep(time.Duration(op.C) * time.Millisecond)
			}
		}
	})
	env.StopFaults()
	w.healAll()
	time.Sleep(2*w.rpcTimeout() + 150*time.Millisecond + time.Duration(env.P("repair_ms"))*time.Millisecond)
	if x := env.P("wipe"); x > 0 { // a node forgets everything
		id := at(x)
		w.crash(id)
		time.Sleep(time.Second)
		w.start(id, nodes)
		env.CountFault("wiped-node")
		time.Sleep(2 * w.rpcTimeout())
	}
	keys := map[string]bool{}
	newest := map[string]copyOf{}
	diverged := false
	look := func(o, k string) (copyOf, bool) {
		it, ok := w.local(o, k)
		if !ok {
			return copyOf{}, false
		}

		return w.copyAt(k, it), true
	}
	for _, n := range w.up() {
		for k := range keysOf(n.dm) {
			keys[k] = true
			c, _ := look(n.id, k)
			if b, ok := newest[k]; ok && b != c {
				diverged = true
			}
			if b, ok := newest[k]; !ok || c.newer(b) {
				newest[k] = c
			}
		}
	}
	if diverged {
		env.Nontrivial()
	}
	// every key is read once, the keys at the same time; some are rewritten
	// meanwhile
	reader := w.get(nodes[int(env.P("spread"))%len(nodes)])
	var mu sync.Mutex
	read := map[string]copyOf{}
	var wg sync.WaitGroup
	readAll := func(late bool) {
		for i, k := range simkit.SortedKeys(keys) {
			if late && i%2 == 0 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					_ = put(ctx, w.get(at(int64(i))), k, makeVal(k, int64(900000+i)))
				}()
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				it, ok := reader.dm.Get(ctx, k)
				if !ok {
					return
				}
				c := w.copyAt(k, it)
				mu.Lock()
				read[k] = c
				mu.Unlock()
			}()
		}
		wg.Wait()
	}
	readAll(env.P("late_writes") == 1)
	if env.P("twice") == 1 {
		// before a batched repair leaves, its key is written behind the back
		// of the owner waiting for it, and read again
		for i, k := range simkit.SortedKeys(keys) {
			owners := ids(reader.dm.DebugOwners(k))
			if len(owners) < 2 || owners[0] == reader.id {
				continue
			}
			y := owners[1+i%(len(owners)-1)]
			if y == reader.id {
				continue
			}
			w.setCut(owners[0], y, true)
			_ = put(ctx, w.get(owners[0]), k, makeVal(k, int64(910000+i)))
			w.setCut(owners[0], y, false)
			env.Probe("rewritten-behind")
		}
		readAll(false)
	}
	if env.P("stop_reader") == 1 {
		if err := reader.dm.Stop(ctx); err != nil {
			env.Fail("stop-error", "Stop(%s): %v", reader.id, err)
		}
		env.CountFault("reader-stopped")
	}
	time.Sleep(2*w.rpcTimeout() + time.Duration(env.P("repair_ms"))*time.Millisecond)
	for _, k := range simkit.SortedKeys(keys) {
		owners := ids(reader.dm.DebugOwners(k))
		c, ok := read[k]
		if !ok {
			if env.P("rc") != 0 && env.P("late_writes") == 0 && held(w, owners, k) >= len(owners)-needed(len(owners), env.P("rc"))+1 {
				env.Fail("unreadable", "%s does not find %s, which a read quorum must meet", reader.id, k)
			}

			continue
		}
		for _, o := range owners {
			got, ok := look(o, k)
			env.Observe(k + o + show(got.val))
			if env.P("rc") == 0 {
				// a ConsistencyOne read repairs the reader alone
				if o == reader.id && (!ok || c.newer(got)) {
					env.Fail("unrepaired", "owner %s read %v of %s and holds %v itself", o, c, k, got)
				}
			} else if !ok || c.newer(got) {
				env.Fail("unrepaired", "%s read %v of %s at %v, owner %s still holds %v", reader.id, c, k, levels[env.P("rc")%3], o, got)
			}
		}
		if env.P("rc") == 2 && env.P("late_writes") == 0 {
			var best copyOf
			for _, o := range owners {
				if got, ok := look(o, k); ok && got.newer(best) {
					best = got
				}
			}
			if best.newer(c) {
				env.Fail("stale-read", "%s read %v of %s from all owners, %v was held", reader.id, c, k, best)
			}
		}
		// repairs only ever move forward
		if n := newest[k]; env.P("rc") != 0 {
			var best copyOf
			for _, o := range owners {
				if got, ok := look(o, k); ok && got.newer(best) {
					best = got
				}
			}
			if n.newer(best) {
				env.Fail("repair-undid", "the owners of %s hold at most %v, %v was held before the repair", k, best, n)
			}
		}
	}
	w.stopAll()
}

func held(w *world, owners []string, k string) int {
	n := 0
	for _, o := range owners {
		if _, ok := w.local(o, k); ok {
			n++
		}
	}

	return n
}
