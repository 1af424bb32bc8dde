package main

import (
	"context"
	"time"

	"github.com/hyp3rd/hypercache/zzsim/simkit"

	"github.com/hyp3rd/hypercache/pkg/backend"
)

// "quorum": a fixed set of nodes over a network that loses, delays and
// repeats messages and is cut now and then. An acknowledged write is held by
// as many owners as the write consistency asks for, and reads whose quorum
// overlaps the writes' never return a value older than an acknowledged one.

func init() {
	register(&simkit.Scenario{Name: "quorum", Gen: genQuorum, Exec: execQuorum, After: func(env *simkit.Env) {
		if overlapping(env) {
			// removals carry no version: until anti-entropy has compared
			// replicas, one that missed a removal may bring the key back
			env.Data.(*hist).checkRegular(env, "stale-quorum-read", true)
		}
	}})
}

// overlapping reports whether every read quorum meets every write quorum, and
// write quorums each other: versions are assigned by whoever coordinates a
// write, who learns of newer ones from the owners it writes to.
func overlapping(env *simkit.Env) bool {
	if env.P("rc") == 0 && env.P("sync_ms") > 0 {
		// with no owner answering, a node falls back on a copy anti-entropy
		// left with it
		return false
	}
	n := min(max(1, env.PI("rf")), max(1, env.PI("nodes")))

	return needed(n, env.P("wc"))+needed(n, env.P("rc")) > n && 2*needed(n, env.P("wc")) > n
}

func genQuorum(r *simkit.Rand, tier string) *simkit.Plan {
	n := r.I(2, 6)
	p := &simkit.Plan{P: map[string]int64{
		"nodes": int64(n), "rf": int64(r.I(1, 5)), "wc": simkit.Pick(r, int64(0), 1, 1, 1, 1, 2), "rc": simkit.Pick(r, int64(0), 1, 1, 1, 2), "parallel": int64(r.N(2)),
		"shards": simkit.Pick(r, int64(1), 2, 8), "vnodes": simkit.Pick(r, int64(1), 8, 0), "keys": int64(r.I(1, 3)), "spread": int64(r.N(1000)),
		"lat_us": simkit.Pick(r, int64(0), 200), "rpc_ms": simkit.Pick(r, int64(20), 60, 150),
		"repair_ms": simkit.Pick(r, int64(0), 0, 5), "repair_max": int64(r.I(1, 3)),
		"hint_ttl_ms": simkit.Pick(r, int64(0), 0, 60, 2000), "hint_ms": simkit.Pick(r, int64(5), 25),
		"hint_cap": simkit.Pick(r, int64(0), 0, 1, 2),
		"sync_ms":  simkit.Pick(r, int64(0), 0, 0, 15), "chunk": int64(r.I(1, 4)),
		"rebalance_ms": simkit.Pick(r, int64(0), 0, 12), "removes": int64(r.N(8) / 7),
		"down_sentinel": int64(r.N(2)),
	}, Rates: map[string]int64{
		"delay": simkit.Pick(r, int64(0), 1500, 4000), "drop-request": simkit.Pick(r, int64(0), 500, 2000),
		"drop-response": simkit.Pick(r, int64(0), 500, 2000), "duplicate": simkit.Pick(r, int64(0), 1000),
	}}
	for range r.I(1, 4) {
		var ops []simkit.Op
		for range r.I(2, 9) {
			ops = append(ops, simkit.Op{
				K: []string{"set", "get", "remove", "cut", "isolate", "heal", "sleep"}[r.PickW(8, 8, 2, 2, 1, 1, 2)],
				A: int64(r.N(4)), B: int64(r.N(6)), C: int64(r.N(30)),
			})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

func execQuorum(env *simkit.Env) {
	w := newWorld(env)
	w.opts = func(string) []backend.DistMemoryOption {
		o := baseOpts(env)
		if c := env.PI("hint_cap"); c > 0 {
			o = append(o, backend.WithDistHintMaxPerNode(c))
		}

		return o
	}
	nodes := w.boot(max(1, env.PI("nodes")))
	h := newHist()
	env.Data = h
	nk := max(1, env.P("keys"))
	ctx := context.Background()
	removes := env.P("removes") == 1 && env.P("sync_ms") == 0
	at := func(i int64) string { return nodes[i%int64(len(nodes))] }
	env.Par(func(t int, ops []simkit.Op) {
		for i, op := range ops {
			k := keyName(op.A%nk + env.P("spread"))
			n := w.get(at(op.B))
			id := int64(t+1)*1000 + int64(i)
			c := simkit.Seq()
			switch op.K {
			case "set":
				// announced first: it may take effect whatever becomes of it
				h.w(k, write{val: id, call: c, ret: inf, ok: false})
				err := put(ctx, n, k, makeVal(k, id))
				if err != nil {
					env.Probe("write-failed")

					continue
				}
				ret := simkit.Seq()
				h.ack(k, id, ret)
				w.held(env, h, k, write{val: id, call: c, ret: ret, ok: true})
				env.Probe("write-acked")
			case "remove":
				if !removes {
					continue
				}
				// removals reach the replicas at best effort: one may or may
				// not take effect anywhere
				h.w(k, write{val: 0, call: c, ret: inf, ok: false})
				_ = n.dm.Remove(ctx, k)
			case "get":
				it, ok := n.dm.Get(ctx, k)
				ret := simkit.Seq()
				if !ok {
					continue // too few owners may have answered
				}
				h.r(k, read{w.readVal(k, it), c, ret, n.id})
				env.Nontrivial()
			case "cut":
				w.setCut(at(op.B), at(op.C), true)
				env.CountFault("one-way-cut")
			case "isolate":
				for _, o := range nodes {
					if o != n.id {
						w.setCut(n.id, o, true)
						w.setCut(o, n.id, true)
					}
				}
				env.CountFault("isolated-node")
			case "heal":
				w.healAll()
			case "sleep":
				time.Sleep(time.Duration(op.C) * time.Millisecond)
			}
		}
	})
	env.StopFaults()
	w.healAll()
	time.Sleep(2 * w.rpcTimeout())
	// With the network whole, a quorum answers, and reads find what was
	// acknowledged.
	for _, k := range simkit.SortedKeys(h.writes) {
		for _, id := range nodes {
			c := simkit.Seq()
			it, ok := w.get(id).dm.Get(ctx, k)
			ret := simkit.Seq()
			var v int64
			if ok {
				v = w.readVal(k, it)
			}
			h.r(k, read{v, c, ret, id})
		}
	}
	w.stopAll()
}

// held: when a write is acknowledged, as many owners as its consistency level
// demands hold it or something that may have replaced it.
func (w *world) held(env *simkit.Env, h *hist, k string, x write) {
	owners := ids(w.get(nodeID(0)).dm.DebugOwners(k))
	got := 0
	vals := map[string]string{}
	minority := 2*needed(len(owners), env.P("wc")) <= len(owners)
	for _, o := range owners {
		var v int64
		if it, ok := w.local(o, k); ok {
			v = w.readVal(k, it)
		}
		vals[o] = show(v)
		if minority {
			// a coordinator out of touch may version its write below one
			// completed earlier
			x.call = -1
		}
		if v == x.val || h.mayReplace(k, v, x) {
			got++
		}
	}
	if need := needed(len(owners), env.P("wc")); got < need {
		env.Fail("under-replicated", "write %d of %s was acknowledged with %d of %d owners holding it, %d are needed: %v\n%s", x.val, k, got, len(owners), need, vals, h.dump(k))
	}
}
