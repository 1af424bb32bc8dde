package main

import (
	"context"
	"time"

	"github.com/hyp3rd/hypercache/zzsim/simkit"

	"github.com/hyp3rd/hypercache/pkg/backend"
)

// "healthy": a cluster without faults, with any message delays and any
// coordinators, is one cache: what was acknowledged is read everywhere.

func init() {
	register(&simkit.Scenario{Name: "healthy", Gen: genHealthy, Exec: execHealthy, After: func(env *simkit.Env) {
		env.Data.(*hist).checkRegular(env, "stale-read", false)
	}})
}

func genHealthy(r *simkit.Rand, tier string) *simkit.Plan {
	n := r.I(1, 5)
	p := &simkit.Plan{P: map[string]int64{
		"nodes": int64(n), "rf": int64(r.I(1, 4)), "wc": int64(r.N(3)), "rc": int64(r.N(3)), "parallel": int64(r.N(2)),
		"shards": simkit.Pick(r, int64(1), 2, 8), "vnodes": simkit.Pick(r, int64(1), 8, 0), "keys": int64(r.I(1, 3)), "spread": int64(r.N(1000)),
		"lat_us": simkit.Pick(r, int64(0), 0, 200), "inline": int64(r.N(2)),
		"repair_ms": simkit.Pick(r, int64(0), 0, 5), "repair_max": int64(r.I(1, 3)),
		"hint_ttl_ms": simkit.Pick(r, int64(0), 500), "hint_ms": 10,
		"sync_ms": simkit.Pick(r, int64(0), 0, 15), "chunk": int64(r.I(1, 4)),
		"rebalance_ms": simkit.Pick(r, int64(0), 0, 12), "rpc_ms": 5000, // nothing is lost here
	}, Rates: map[string]int64{"delay": simkit.Pick(r, int64(0), 1500, 4000)}}
	for range r.I(1, 4) {
		var ops []simkit.Op
		for range r.I(2, 7) {
			ops = append(ops, simkit.Op{
				K: []string{"set", "get", "remove", "sleep"}[r.PickW(6, 7, 3, 1)],
				A: int64(r.N(4)), B: int64(r.N(5)), C: int64(r.N(30)),
			})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

func execHealthy(env *simkit.Env) {
	w := newWorld(env)
	w.opts = func(string) []backend.DistMemoryOption { return baseOpts(env) }
	nodes := w.boot(max(1, env.PI("nodes")))
	h := newHist()
	env.Data = h
	nk := max(1, env.P("keys"))
	ctx := context.Background()
	env.Par(func(t int, ops []simkit.Op) {
		for i, op := range ops {
			k := keyName(op.A%nk + env.P("spread"))
			n := w.get(nodes[op.B%int64(len(nodes))])
			id := int64(t+1)*1000 + int64(i)
			c := simkit.Seq()
			switch op.K {
			case "set":
				err := put(ctx, n, k, makeVal(k, id))
				if err != nil {
					env.Fail("set-failed", "Set(%s) through %s with every node up: %v", k, n.id, err)
				}
				h.w(k, write{val: id, call: c, ret: simkit.Seq(), ok: true})
			case "remove":
				ks := []string{k}
				for j := int64(1); op.C%3 == 0 && j < nk; j++ {
					ks = append(ks, keyName((op.A+j)%nk+env.P("spread")))
				}
				if err := n.dm.Remove(ctx, ks...); err != nil {
					env.Fail("remove-failed", "Remove(%q) through %s with every node up: %v", ks, n.id, err)
				}
				for _, k := range ks {
					h.w(k, write{val: 0, call: c, ret: simkit.Seq(), ok: true})
				}
			case "get":
				it, ok := n.dm.Get(ctx, k)
				ret := simkit.Seq()
				var v int64
				if ok {
					v = w.readVal(k, it)
				}
				h.r(k, read{v, c, ret, n.id})
				env.Nontrivial()
			case "sleep":
				time.Sleep(time.Duration(op.C) * time.Millisecond)
			}
		}
	})
	env.StopFaults()
	time.Sleep(400 * time.Millisecond)
	w.agree(env, h, nodes)
	w.stopAll()
}

// agree: at rest all owners hold the same, the result of a write that no
// acknowledged one came after, and every node reads it.
func (w *world) agree(env *simkit.Env, h *hist, nodes []string) {
	now := simkit.Seq()
	for _, k := range simkit.SortedKeys(h.writes) {
		owners := ids(w.get(nodes[0]).dm.DebugOwners(k))
		vals := map[string]int64{}
		for _, o := range owners {
			var v int64
			if it, ok := w.local(o, k); ok {
				v = w.readVal(k, it)
			}
			vals[o] = v
			env.Observe(k + o + show(v))
		}
		for _, o := range owners {
			if !h.allowed(k, vals[o], now, now) {
				env.Fail("lost-write", "at rest owner %s of %s holds %s\n%s", o, k, show(vals[o]), h.dump(k))
			}
		}
		if h.contested(k) && env.P("sync_ms") == 0 {
			env.Probe("contested")

			continue
		}
		for _, o := range owners {
			if vals[o] != vals[owners[0]] {
				env.Fail("diverged", "at rest the owners of %s hold different values: %v (owners %v)\n%s", k, vals, owners, h.dump(k))
			}
		}
		for _, id := range nodes {
			it, ok := w.get(id).dm.Get(context.Background(), k)
			var v int64
			if ok {
				v = w.readVal(k, it)
			}
			if v != vals[owners[0]] {
				env.Fail("stale-read", "at rest %s reads %s of %s, its owners hold %s\n%s", id, show(v), k, show(vals[owners[0]]), h.dump(k))
			}
		}
	}
}
