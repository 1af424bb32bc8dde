package main

import (
	"context"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/zzsim/simkit"

	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// "converge": writes over a faulty network, nodes that crash and come back
// empty; once all are up and reachable, anti-entropy alone makes every owner
// hold the newest copy any node had, and nothing that anyone held is lost.
//
// "removal": removals among the writes, no crashes, every owner acknowledging
// each write. After the network is whole, anti-entropy brings the owners to
// agree, and a removed key never comes back.

func init() {
	register(&simkit.Scenario{Name: "converge", Gen: genConverge, Exec: execConverge, MaxYields: 100_000_000})
	register(&simkit.Scenario{Name: "reborn", Gen: genReborn, Exec: execConverge, MaxYields: 100_000_000})
	register(&simkit.Scenario{Name: "removal", Gen: genRemoval, Exec: execRemoval, MaxYields: 100_000_000})
}

func genConverge(r *simkit.Rand, tier string) *simkit.Plan {
	n := r.I(2, 5)
	p := &simkit.Plan{P: map[string]int64{
		"nodes": int64(n), "rf": int64(r.I(1, 5)), "wc": int64(r.N(3)), "rc": int64(r.N(3)), "parallel": int64(r.N(2)),
		"shards": simkit.Pick(r, int64(1), 2, 8), "vnodes": simkit.Pick(r, int64(1), 8, 0), "keys": int64(r.I(1, 8)), "spread": int64(r.N(1000)),
		"lat_us": simkit.Pick(r, int64(0), 200), "rpc_ms": simkit.Pick(r, int64(20), 60),
		"repair_ms": simkit.Pick(r, int64(0), 0, 5), "repair_max": int64(r.I(1, 3)),
		"sync_ms": simkit.Pick(r, int64(5), 15, 40), "chunk": int64(r.I(1, 6)), "sync_peers": simkit.Pick(r, int64(0), 0, 0, 0, 1, 2),
		"sync_backoff": simkit.Pick(r, int64(0), 0, 2, 8), "list_cap": simkit.Pick(r, int64(0), 0, 1, 3),
		"down_sentinel": int64(r.N(2)), "down_blackhole": int64(r.N(2)),
	}, Rates: map[string]int64{
		"delay": simkit.Pick(r, int64(0), 1500, 4000), "drop-request": simkit.Pick(r, int64(0), 500, 2000),
		"drop-response": simkit.Pick(r, int64(0), 500, 2000), "duplicate": simkit.Pick(r, int64(0), 1000),
	}}
	for range r.I(1, 4) {
		var ops []simkit.Op
		for range r.I(2, 9) {
			ops = append(ops, simkit.Op{
				K: []string{"set", "get", "crash", "restart", "cut", "isolate", "heal", "sleep"}[r.PickW(10, 2, 2, 2, 2, 1, 1, 2)],
				A: int64(r.N(12)), B: int64(r.N(6)), C: int64(r.N(30)),
			})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

// genReborn is the one history that shows a node giving out a version again: it
// writes a key, crashes, comes back empty and cut off, and writes it once more.
func genReborn(r *simkit.Rand, tier string) *simkit.Plan {
	p := genConverge(r, tier)
	for k, v := range map[string]int64{
		"nodes": 2, "rf": 2, "wc": 0, "keys": 1, "parallel": 0, "lat_us": 0, "sync_ms": 5, "sync_peers": 0, "sync_backoff": 0, "list_cap": 0,
		"chunk": 1,
	} {
		p.P[k] = v
	}
	p.Rates = map[string]int64{}
	n := int64(r.N(2))
	p.Threads = [][]simkit.Op{{
		{K: "set", B: n}, {K: "sleep", C: 20}, {K: "crash", B: n}, {K: "isolate", B: n}, {K: "restart", B: n}, {K: "set", B: n, A: 0},
	}}

	return p
}

type copyOf struct {
	version uint64
	origin  string
	val     int64
}

func (w *world) copyAt(k string, it *cache.Item) copyOf {
	c := copyOf{version: it.Version, origin: it.Origin}
	c.val = w.readVal(k, it)

	return c
}

func (a copyOf) newer(b copyOf) bool {
	return a.version > b.version || (a.version == b.version && a.origin < b.origin)
}

func execConverge(env *simkit.Env) {
	w := newWorld(env)
	w.opts = func(string) []backend.DistMemoryOption {
		o := baseOpts(env)
		if c := env.PI("list_cap"); c > 0 {
			o = append(o, backend.WithDistListKeysCap(c))
		}

		return o
	}
	nodes := w.boot(max(2, env.PI("nodes")))
	nk := max(1, env.P("keys"))
	ctx := context.Background()
	at := func(i int64) string { return nodes[i%int64(len(nodes))] }
	var busy sync.Mutex // one crash or restart at a time
	born := &births{gen: map[string]int{}}
	env.Par(func(t int, ops []simkit.Op) {
		for i, op := range ops {
			k := keyName(op.A%nk + env.P("spread"))
			n := w.get(at(op.B))
			switch op.K {
			case "set":
				if n.dm == nil {
					continue
				}
				born.note(w, nodes, int64(t+1)*1000+int64(i))
				_ = put(ctx, n, k, makeVal(k, int64(t+1)*1000+int64(i)))
			case "get":
				if n.dm == nil {
					continue
				}
				if it, ok := n.dm.Get(ctx, k); ok {
					w.readVal(k, it)
				}
			case "crash":
				func() {
					busy.Lock()
					defer busy.Unlock()
					if len(w.up()) > 1 && w.alive(n.id, 0) {
						w.crash(n.id)
						env.CountFault("crash")
					}
				}()
			case "restart":
				func() {
					busy.Lock()
					defer busy.Unlock()
					if !w.alive(n.id, 0) {
						w.start(n.id, nodes)
						env.CountFault("restart-empty")
					}
				}()
			case "cut":
				w.setCut(at(op.B), at(op.C), true)
				env.CountFault("one-way-cut")
			case "isolate":
				w.isolate(n.id, nodes)
				env.CountFault("isolated-node")
			case "heal":
				w.healAll()
			case "sleep":
				time.Sleep(time.Duration(op.C) * time.Millisecond)
			}
		}
	})
	env.StopFaults()
	w.healAll()
	for _, id := range nodes {
		if !w.alive(id, 0) {
			w.start(id, nodes)
		}
	}
	time.Sleep(2*w.rpcTimeout() + 150*time.Millisecond) // nothing is on its way any more
	// the newest copy of each key anywhere
	best := map[string]copyOf{}
	for _, n := range w.up() {
		for k, it := range keysOf(n.dm) {
			c := w.copyAt(k, it)
			if b, ok := best[k]; !ok || c.newer(b) {
				best[k] = c
			}
		}
	}
	if len(best) > 0 {
		env.Nontrivial()
	}
	w.awaitSync()
	for _, k := range simkit.SortedKeys(best) {
		for _, o := range ids(w.get(nodes[0]).dm.DebugOwners(k)) {
			it, ok := w.local(o, k)
			if !ok {
				env.Fail("missing", "owner %s of %s still lacks it, %v was held when the network was whole again", o, k, best[k])
			}
			c := w.copyAt(k, it)
			env.Observe(k + o + show(c.val))
			if c.version == best[k].version && c.origin == best[k].origin && c.val != best[k].val && (born.before(w, c) || born.before(w, best[k])) {
				env.Fail("version-reused", "owners of %s hold %v and %v for good: node %s assigned version %d before and after it restarted", k, c, best[k], c.origin, c.version)
			}
			if best[k].newer(c) || (c.version == best[k].version && c.val != best[k].val) {
				env.Fail("stale-owner", "owner %s of %s still holds %v, %v was held when the network was whole again", o, k, c, best[k])
			}
		}
		for _, n := range w.up() {
			it, ok := n.dm.Get(ctx, k)
			if !ok {
				env.Fail("unreadable", "%s does not find %s, which every owner holds", n.id, k)
			}
			if v := w.readVal(k, it); best[k].val != v {
				env.Fail("stale-read", "%s reads %s of %s, its owners hold %v", n.id, show(v), k, best[k])
			}
		}
	}
	w.stopAll()
}

// births remembers which incarnation of each node a write found.
type births struct {
	mu  sync.Mutex
	gen map[string]int
}

func (b *births) note(w *world, nodes []string, val int64) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, id := range nodes {
		b.gen[id+show(val)] = w.genOf(id)
	}
}

// before reports whether the node that assigned c its version has restarted
// since the write of c began.
func (b *births) before(w *world, c copyOf) bool {
	return b.gen[c.origin+show(c.val)] < w.genOf(c.origin)
}

// awaitSync waits until anti-entropy has had every chance to converge: enough
// rounds that each node compared itself with every other several times over.
func (w *world) awaitSync() {
	env := w.env
	rounds := int64(4)
	if l := env.P("sync_peers"); l > 0 {
		rounds = 40 // peers are drawn at random
	}
	if c := env.P("list_cap"); c > 0 {
		rounds += env.P("keys")/c + 1
	}
	every := time.Duration(env.P("sync_ms")*max(1, env.P("sync_backoff"))) * time.Millisecond
	// one round: a listing, a tree and a read per key from each peer
	msgs := env.P("nodes") * (2 + 2*env.P("keys"))
	every += 2 * time.Duration(msgs*env.P("lat_us")) * time.Microsecond
	time.Sleep(time.Duration(rounds) * every)
}

func genRemoval(r *simkit.Rand, tier string) *simkit.Plan {
	p := genConverge(r, tier)
	p.P["wc"] = 2
	p.P["keys"] = int64(r.I(1, 4))
	p.P["hint_ttl_ms"] = simkit.Pick(r, int64(0), 0, 60, 500)
	p.P["hint_ms"] = simkit.Pick(r, int64(5), 25)
	if r.N(5) == 0 {
		p.P["tomb_ms"], p.P["tomb_sweep_ms"] = 8_000, simkit.Pick(r, int64(20), 100, 400)
		p.P["sync_ms"], p.P["sync_backoff"] = 40, simkit.Pick(r, int64(2), 8)
	}
	p.Threads = nil
	for range r.I(1, 4) {
		var ops []simkit.Op
		for range r.I(2, 9) {
			ops = append(ops, simkit.Op{
				K: []string{"set", "get", "remove", "cut", "isolate", "heal", "sleep"}[r.PickW(8, 3, 5, 1, 1, 2, 3)],
				A: int64(r.N(4)), B: int64(r.N(6)), C: int64(r.N(30)),
			})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

func execRemoval(env *simkit.Env) {
	w := newWorld(env)
	w.opts = func(string) []backend.DistMemoryOption {
		o := baseOpts(env)
		if c := env.PI("list_cap"); c > 0 {
			o = append(o, backend.WithDistListKeysCap(c))
		}

		return o
	}
	h := newHist()
	began := time.Now()
	removedAt := map[string]int64{} // latest arrival of a removal message
	w.onRemove = func(key string) {
		h.mu.Lock()
		removedAt[key] = simkit.Seq()
		h.mu.Unlock()
	}
	nodes := w.boot(max(2, env.PI("nodes")))
	nk := max(1, env.P("keys"))
	ctx := context.Background()
	at := func(i int64) string { return nodes[i%int64(len(nodes))] }
	env.Par(func(t int, ops []simkit.Op) {
		for i, op := range ops {
			k := keyName(op.A%nk + env.P("spread"))
			n := w.get(at(op.B))
			id := int64(t+1)*1000 + int64(i)
			c := simkit.Seq()
			switch op.K {
			case "set":
				h.w(k, write{val: id, call: c, ret: inf})
				if put(ctx, n, k, makeVal(k, id)) == nil {
					h.ack(k, id, simkit.Seq())
				}
			case "remove":
				err := n.dm.Remove(ctx, k)
				ret := simkit.Seq()
				if err != nil {
					ret = inf
				}
				h.w(k, write{val: 0, call: c, ret: ret, ok: err == nil})
				h.mu.Lock()
				removedAt[k] = max(removedAt[k], simkit.Seq())
				h.mu.Unlock()
			case "get":
				if it, ok := n.dm.Get(ctx, k); ok {
					w.readVal(k, it)
				}
			case "cut":
				w.setCut(at(op.B), at(op.C), true)
				env.CountFault("one-way-cut")
			case "isolate":
				w.isolate(n.id, nodes)
				env.CountFault("isolated-node")
			case "heal":
				w.healAll()
			case "sleep":
				time.Sleep(time.Duration(op.C) * time.Millisecond)
			}
		}
	})
	env.StopFaults()
	w.healAll()
	time.Sleep(2*w.rpcTimeout() + 150*time.Millisecond)
	w.awaitSync()
	judge := func() {
		now := simkit.Seq()
		for _, k := range simkit.SortedKeys(h.writes) {
			owners := ids(w.get(nodes[0]).dm.DebugOwners(k))
			vals := map[string]int64{}
			for _, o := range owners {
				if it, ok := w.local(o, k); ok {
					vals[o] = w.readVal(k, it)
				} else {
					vals[o] = 0
				}
				env.Observe(k + o + show(vals[o]))
			}
			for _, o := range owners {
				if vals[o] != vals[owners[0]] {
					env.Fail("diverged", "long after the last fault the owners of %s hold different values: %v\n%s", k, vals, h.dump(k))
				}
			}
			v := vals[owners[0]]
			if v != 0 {
				if !h.allowed(k, v, now, now) {
					env.Fail("resurrected", "long after the last fault the owners of %s hold %s\n%s", k, show(v), h.dump(k))
				}

				continue
			}
			// gone: some removal may have come last
			for _, x := range h.writes[k] {
				if x.ok && x.val != 0 && x.call > removedAt[k] {
					env.Fail("lost-write", "%s is gone, though write %d was acknowledged after the last removal message (at %d)\n%s", k, x.val, removedAt[k], h.dump(k))
				}
			}
			env.Nontrivial()
		}
	}
	ttl := time.Duration(env.P("tomb_ms")) * time.Millisecond
	if ttl > 0 && time.Since(began) >= ttl {
		env.Probe("tombstones-expired-early") // the faults outlasted them
		w.stopAll()

		return
	}
	judge()
	if ttl > 0 {
		// every owner has learnt of the removals before any forgets them
		time.Sleep(ttl + 2*time.Duration(env.P("tomb_sweep_ms"))*time.Millisecond)
		w.awaitSync()
		judge()
		for _, n := range w.up() {
			if c := n.dm.Metrics().TombstonesActive; c != 0 {
				env.Fail("tombstones-kept", "%s still keeps %d tombstones, all older than their lifetime", n.id, c)
			}
		}
		env.Probe("tombstones-expired")
	}
	w.stopAll()
}

func (w *world) isolate(id string, nodes []string) {
	for _, o := range nodes {
		if o != id {
			w.setCut(id, o, true)
			w.setCut(o, id, true)
		}
	}
}
