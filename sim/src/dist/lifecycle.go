package main

import (
	"context"
	"errors"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/backend"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// "stop": nodes with every background loop on are stopped at any moment, by
// several callers, among clients and network faults. Stop returns, no operation
// panics or hangs, and the node falls silent with none of its goroutines left.
//
// "drain": a draining node refuses new writes, without a trace of them, and goes
// on serving reads; the rest of a healthy cluster does not notice.

func init() {
	register(&simkit.Scenario{Name: "stop", Gen: genStop, Exec: execStop, MaxYields: 100_000_000})
	register(&simkit.Scenario{Name: "drain", Gen: genDrain, Exec: execDrain, After: func(env *simkit.Env) {
		env.Data.(*hist).checkRegular(env, "stale-read", false)
	}})
}

func genStop(r *simkit.Rand, tier string) *simkit.Plan {
	n := r.I(1, 4)
	hb := simkit.Pick(r, int64(0), 20, 60)
	p := &simkit.Plan{P: map[string]int64{
		"nodes": int64(n), "rf": int64(r.I(1, 3)), "wc": int64(r.N(3)), "rc": int64(r.N(3)), "parallel": int64(r.N(2)),
		"shards": simkit.Pick(r, int64(1), 2), "vnodes": simkit.Pick(r, int64(1), 8), "keys": int64(r.I(1, 4)), "spread": int64(r.N(1000)),
		"lat_us": simkit.Pick(r, int64(0), 500, 3000), "rpc_ms": simkit.Pick(r, int64(20), 100),
		"repair_ms": simkit.Pick(r, int64(0), 5, 40), "repair_max": int64(r.I(1, 3)),
		"hint_ttl_ms": simkit.Pick(r, int64(0), 500), "hint_ms": simkit.Pick(r, int64(5), 25),
		"sync_ms": simkit.Pick(r, int64(0), 10, 30), "chunk": int64(r.I(1, 4)),
		"rebalance_ms": simkit.Pick(r, int64(0), 10, 30), "rebalance_batch": int64(r.N(3)), "rebalance_conc": int64(r.I(1, 2)),
		"grace_ms": simkit.Pick(r, int64(0), 20), "tomb_ms": simkit.Pick(r, int64(0), 30), "tomb_sweep_ms": 10,
		"hb_ms": hb, "suspect_ms": 3 * hb, "dead_ms": 6 * hb, "indirect": int64(r.N(3)), "gossip_ms": simkit.Pick(r, int64(0), 15, 40),
		"down_sentinel": int64(r.N(2)), "down_blackhole": int64(r.N(2)),
	}, Rates: map[string]int64{
		"delay": simkit.Pick(r, int64(0), 1500, 4000), "drop-request": simkit.Pick(r, int64(0), 500, 2000),
		"drop-response": simkit.Pick(r, int64(0), 500, 2000), "duplicate": simkit.Pick(r, int64(0), 1000),
	}}
	for range r.I(2, 5) {
		var ops []simkit.Op
		for range r.I(2, 8) {
			ops = append(ops, simkit.Op{
				K: []string{"set", "get", "remove", "list", "stop", "drain", "cut", "isolate", "heal", "sleep"}[r.PickW(6, 5, 2, 1, 4, 1, 1, 1, 1, 4)],
				A: int64(r.N(4)), B: int64(r.N(4)), C: int64(r.N(60)),
			})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

// ended tracks nodes that were stopped and the clients still using them.
type ended struct {
	mu   sync.Mutex
	at   map[string]time.Time
	busy map[string]int
	last map[string]time.Time
}

// use notes a client's operation on node id for as long as it lasts.
func (e *ended) use(id string) func() {
	e.mu.Lock()
	e.busy[id]++
	e.mu.Unlock()

	return func() {
		e.mu.Lock()
		e.busy[id]--
		e.last[id] = time.Now()
		e.mu.Unlock()
	}
}

// quietFor is how long node id has been stopped and unused.
func (e *ended) quietFor(id string) time.Duration {
	e.mu.Lock()
	defer e.mu.Unlock()
	at, ok := e.at[id]
	if !ok || e.busy[id] > 0 {
		return 0
	}
	if e.last[id].After(at) {
		at = e.last[id]
	}

	return time.Since(at)
}

func execStop(env *simkit.Env) {
	w := newWorld(env)
	w.opts = func(string) []backend.DistMemoryOption { return baseOpts(env) }
	end := &ended{at: map[string]time.Time{}, busy: map[string]int{}, last: map[string]time.Time{}}
	// what was under way when Stop returned may still finish its sends
	grace := 12*w.rpcTimeout() + 200*time.Millisecond
	w.onCall = func(from, method, to string) {
		if q := end.quietFor(from); q > grace {
			env.Fail("not-quiet", "%s still sends %s to %s %v after it was stopped", from, method, to, q)
		}
	}
	nodes := w.boot(max(1, env.PI("nodes")))
	nk := max(1, env.P("keys"))
	ctx := context.Background()
	at := func(i int64) string { return nodes[i%int64(len(nodes))] }
	slow := 100*w.rpcTimeout() + 5*time.Second
	timed := func(what, id string, f func()) {
		began := time.Now()
		f()
		if d := time.Since(began); d > slow {
			env.Fail("stuck", "%s on %s took %v", what, id, d)
		}
	}
	env.Par(func(t int, ops []simkit.Op) {
		for i, op := range ops {
			k := keyName(op.A%nk + env.P("spread"))
			n := w.get(at(op.B))
			switch op.K {
			case "set", "get", "remove", "list":
				done := end.use(n.id)
				timed(op.K, n.id, func() {
					switch op.K {
					case "set":
						_ = put(ctx, n, k, makeVal(k, int64(t+1)*1000+int64(i)))
					case "get":
						if it, ok := n.dm.Get(ctx, k); ok {
							w.readVal(k, it)
						}
					case "remove":
						_ = n.dm.Remove(ctx, k)
					case "list":
						_, _ = n.dm.ListKeys(ctx, "", 0)
					}
				})
				done()
			case "stop":
				timed("Stop", n.id, func() {
					if err := n.dm.Stop(ctx); err != nil {
						env.Fail("stop-error", "Stop(%s): %v", n.id, err)
					}
				})
				w.wire.Unregister(n.id)
				end.mu.Lock()
				if _, ok := end.at[n.id]; !ok {
					end.at[n.id] = time.Now()
				}
				end.mu.Unlock()
				env.CountFault("stopped-node")
				env.Nontrivial()
			case "drain":
				if err := n.dm.Drain(ctx); err != nil {
					env.Fail("drain-error", "Drain(%s): %v", n.id, err)
				}
			case "cut":
				w.setCut(at(op.B), at(op.C), true)
				env.CountFault("one-way-cut")
			case "isolate":
				w.isolate(n.id, nodes)
				env.CountFault("isolated-node")
			case "heal":
				w.healAll()
			case "sleep":
				time.Sleep(time.Duration(op.C) * time.Millisecond)
			}
		}
	})
	env.StopFaults()
	time.Sleep(2*grace + time.Second)
	w.stopAll()
}

func genDrain(r *simkit.Rand, tier string) *simkit.Plan {
	p := genHealthy(r, tier)
	p.P["nodes"] = int64(r.I(1, 5))
	p.P["indirect_drain"] = int64(r.N(2))
	p.Threads = nil
	for range r.I(2, 5) {
		var ops []simkit.Op
		for range r.I(3, 8) {
			ops = append(ops, simkit.Op{
				K: []string{"set", "get", "remove", "drain", "sleep"}[r.PickW(7, 6, 2, 3, 2)],
				A: int64(r.N(4)), B: int64(r.N(5)), C: int64(r.N(30)),
			})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

func execDrain(env *simkit.Env) {
	w := newWorld(env)
	w.opts = func(string) []backend.DistMemoryOption { return baseOpts(env) }
	nodes := w.boot(max(1, env.PI("nodes")))
	h := newHist()
	env.Data = h
	nk := max(1, env.P("keys"))
	ctx := context.Background()
	drained := map[string]*atomic.Bool{}
	started := map[string]*atomic.Bool{}
	for _, id := range nodes {
		drained[id], started[id] = &atomic.Bool{}, &atomic.Bool{}
	}
	var mu sync.Mutex
	refused := map[int64]bool{}
	env.Par(func(t int, ops []simkit.Op) {
		for i, op := range ops {
			k := keyName(op.A%nk + env.P("spread"))
			n := w.get(nodes[op.B%int64(len(nodes))])
			id := int64(t+1)*1000 + int64(i)
			was := drained[n.id].Load()
			c := simkit.Seq()
			switch op.K {
			case "set", "remove":
				var err error
				val := id
				ks := []string{k}
				if op.K == "set" {
					err = put(ctx, n, k, makeVal(k, id))
				} else {
					val = 0
					for j := int64(1); op.C%3 == 0 && j < nk; j++ {
						ks = append(ks, keyName((op.A+j)%nk+env.P("spread")))
					}
					err = n.dm.Remove(ctx, ks...)
				}
				switch {
				case err == nil && was:
					env.Fail("accepted", "%s(%s) was accepted by %s, which had been drained before", op.K, k, n.id)
				case err == nil:
					for _, k := range ks {
						h.w(k, write{val: val, call: c, ret: simkit.Seq(), ok: true})
					}
				case !errors.Is(err, sentinel.ErrDraining):
					env.Fail("write-failed", "%s(%s) through %s with every node up: %v", op.K, k, n.id, err)
				case !started[n.id].Load():
					env.Fail("refused", "%s(%s) through %s, which nobody drained: %v", op.K, k, n.id, err)
				default:
					mu.Lock()
					refused[id] = true
					mu.Unlock()
					env.Probe("refused-write")
					env.Nontrivial()
				}
			case "get":
				it, ok := n.dm.Get(ctx, k)
				ret := simkit.Seq()
				var v int64
				if ok {
					v = w.readVal(k, it)
				}
				h.r(k, read{v, c, ret, n.id})
			case "drain":
				started[n.id].Store(true)
				if err := n.dm.Drain(ctx); err != nil {
					env.Fail("drain-error", "Drain(%s): %v", n.id, err)
				}
				drained[n.id].Store(true)
				env.CountFault("drained-node")
			case "sleep":
				time.Sleep(time.Duration(op.C) * time.Millisecond)
			}
		}
	})
	env.StopFaults()
	time.Sleep(400 * time.Millisecond)
	for _, id := range nodes {
		n := w.get(id)
		want := int64(0)
		if drained[id].Load() {
			want = 1
		}
		if got := n.dm.Metrics().Drains; got != want || n.dm.IsDraining() != (want == 1) {
			env.Fail("drain-state", "%s: drained %v, IsDraining %v, %d transitions counted", id, want == 1, n.dm.IsDraining(), got)
		}
		for k, it := range keysOf(n.dm) {
			if v := w.readVal(k, it); refused[v] {
				env.Fail("refused-kept", "%s holds %s of %s, which was refused", id, show(v), k)
			}
		}
	}
	w.agree(env, h, nodes)
	w.stopAll()
}
