package main

import (
	"context"
	"slices"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/pkg/backend"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// "hintroom": one node writes while another is away, and its queue of hints for
// it is compared with a model of a bounded queue: what it accepts, what has to
// go for that, and what is delivered in the end.

func init() {
	register(&simkit.Scenario{Name: "hintroom", Gen: genHintRoom, Exec: execHintRoom})
}

func genHintRoom(r *simkit.Rand, tier string) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{
		"nodes": int64(r.I(2, 3)), "wc": 0, "shards": simkit.Pick(r, int64(1), 4), "vnodes": simkit.Pick(r, int64(1), 8), "spread": int64(r.N(1000)),
		"lat_us": simkit.Pick(r, int64(0), 200), "rpc_ms": simkit.Pick(r, int64(20), 60), "hint_ttl_ms": 1000000, "hint_ms": simkit.Pick(r, int64(5), 50, 2000),
		"cap_node": simkit.Pick(r, int64(0), 1, 2, 4), "cap_total": simkit.Pick(r, int64(0), 0, 1, 3, 5), "cap_bytes": simkit.Pick(r, int64(0), 60, 200, 600),
	}, Rates: map[string]int64{}}
	p.P["rf"] = p.P["nodes"]
	for range r.I(1, 3) { // outages
		var ops []simkit.Op
		for range r.I(1, 10) {
			ops = append(ops, simkit.Op{K: []string{"set", "sleep"}[r.PickW(7, 1)], A: int64(r.N(5)), C: int64(r.N(4) * r.N(4) * r.N(60))})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

type roomHint struct {
	key, val string
	size     int64
}

func execHintRoom(env *simkit.Env) {
	w := newWorld(env)
	capNode, capTotal, capBytes := env.PI("cap_node"), env.PI("cap_total"), env.P("cap_bytes")
	w.opts = func(string) []backend.DistMemoryOption {
		return append(baseOpts(env), backend.WithDistHintMaxPerNode(capNode), backend.WithDistHintMaxTotal(capTotal), backend.WithDistHintMaxBytes(capBytes))
	}
	nodes := w.boot(max(2, env.PI("nodes")))
	from, to := nodes[0], nodes[1]
	n := w.get(from)
	ctx := context.Background()
	var keys []string
	for i := env.P("spread"); len(keys) < 5 && i < env.P("spread")+500; i++ {
		if k := keyName(i); ids(n.dm.DebugOwners(k))[0] == from {
			keys = append(keys, k)
		}
	}
	if len(keys) == 0 {
		w.stopAll()

		return
	}
	held := map[string]string{} // what the peer is to hold
	for t, ops := range env.Plan.Threads {
		w.isolate(to, nodes)
		env.CountFault("isolated-node")
		var queue []roomHint
		began := n.dm.Metrics()
		for i, op := range ops {
			if op.K == "sleep" {
				time.Sleep(time.Duration(op.C) * time.Millisecond)

				continue
			}
			k := keys[int(op.A)%len(keys)]
			v := makeVal(k, int64(t*100+i)) + strings.Repeat("x", int(op.C))
			m0 := n.dm.Metrics()
			if err := put(ctx, n, k, v); err != nil {
				env.Fail("write-failed", "Set(%s) through its primary, written ONE: %v", k, err)
			}
			time.Sleep(time.Millisecond) // the hint may be queued once the write is through
			m1 := n.dm.Metrics()
			took, refused := m1.HintedQueued-m0.HintedQueued, m1.HintedGlobalDropped-m0.HintedGlobalDropped
			grown := m1.HintedBytes - m0.HintedBytes
			env.Nontrivial()
			if took+refused != 1 {
				env.Fail("hint-count", "a write that did not reach %s queued %d hints and refused %d", to, took, refused)
			}
			full := capNode > 0 && len(queue) >= capNode
			if refused == 1 {
				if grown != 0 {
					env.Fail("hint-displaced", "a hint of %d bytes was refused and %d bytes of others gone: %d were queued for %s (caps %d, %d, %d bytes)", len(k)+len(v), -grown, len(queue), to, capNode, capTotal, capBytes)
				}
				if full {
					env.Probe("refused-when-full")
				}
				after := m0.HintedBytes + int64(4*(len(k)+len(v))+256)
				room := len(queue)
				if full {
					room--
				}
				if (capTotal == 0 || room < capTotal) && (capBytes == 0 || after <= capBytes) {
					env.Fail("hint-refused", "a hint of %d bytes was refused, %d are queued, %d bytes in all (caps %d, %d, %d bytes)", len(k)+len(v), len(queue), m0.HintedBytes, capNode, capTotal, capBytes)
				}

				continue
			}
			size := grown
			if full {
				size += queue[0].size
				queue = queue[1:]
			}
			queue = append(queue, roomHint{k, v, size})
			if size <= 0 || capTotal > 0 && len(queue) > capTotal || capBytes > 0 && m1.HintedBytes > capBytes {
				env.Fail("over-cap", "%d hints of %d bytes in all are queued, the last of %d bytes (caps %d, %d, %d bytes)", len(queue), m1.HintedBytes, size, capNode, capTotal, capBytes)
			}
		}
		for _, h := range queue {
			held[h.key] = h.val // in order: the last one stands
		}
		w.healAll()
		time.Sleep(time.Duration(len(queue)+4)*w.rpcTimeout() + 3*time.Duration(env.P("hint_ms"))*time.Millisecond)
		ended := n.dm.Metrics()
		if got := ended.HintedReplayed - began.HintedReplayed; got != int64(len(queue)) || ended.HintedBytes != 0 {
			env.Fail("hint-lost", "%d hints were queued for %s, %d were delivered, %d bytes are left", len(queue), to, got, ended.HintedBytes)
		}
		for _, k := range keys {
			it, ok := w.local(to, k)
			want, owed := held[k]
			if ok != owed || ok && it.Value != want {
				env.Fail("hint-lost", "%s holds %v of %s once its hints are delivered, it was owed %q (%v)", to, it, k, want, owed)
			}
		}
		env.Observe(strings.Join(slices.Sorted(func(yield func(string) bool) {
			for k, v := range held {
				if !yield(k + v) {
					return
				}
			}
		}), " "))
	}
	w.stopAll()
}
