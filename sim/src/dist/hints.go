package main

import (
	"context"
	"fmt"
	"slices"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/zzsim/simkit"

	"github.com/hyp3rd/hypercache/pkg/backend"
)

// "hints": writes while owners are cut off or down. Hinted handoff alone - no
// anti-entropy, no read repair - brings every owner up to date once it can be
// reached; never after a hint's lifetime, never more than the caps allow; and
// no write waits for a peer its key has nothing to do with.

func init() {
	register(&simkit.Scenario{Name: "hints", Gen: genHints, Exec: execHints})
}

const (
	hintsAll = iota // every hint must arrive
	hintsTTL        // the outage may outlast them
	hintsCap        // the queues are bounded
)

func genHints(r *simkit.Rand, tier string) *simkit.Plan {
	n := r.I(2, 5)
	mode := int64(r.PickW(5, 2, 3))
	p := &simkit.Plan{P: map[string]int64{
		"nodes": int64(n), "rf": int64(r.I(2, 4)), "wc": int64(r.N(3)), "mode": mode,
		"shards": simkit.Pick(r, int64(1), 2, 8), "vnodes": simkit.Pick(r, int64(1), 8, 0), "keys": int64(r.I(1, 8)), "spread": int64(r.N(1000)),
		"lat_us": simkit.Pick(r, int64(0), 200), "rpc_ms": simkit.Pick(r, int64(20), 60),
		"hint_ttl_ms": 1000000, "hint_ms": simkit.Pick(r, int64(5), 20, 50),
		"down_sentinel": int64(r.N(2)), "down_blackhole": int64(r.N(2)), "crashes": int64(r.N(2)),
	}, Rates: map[string]int64{}}
	switch mode {
	case hintsAll:
		p.Rates["delay"] = simkit.Pick(r, int64(0), 0, 3000)
		p.Rates["drop-request"] = simkit.Pick(r, int64(0), 0, 2000)
		p.Rates["drop-response"] = simkit.Pick(r, int64(0), 0, 2000)
	case hintsTTL:
		p.P["hint_ttl_ms"] = int64(r.I(20, 200))
	case hintsCap:
		p.P["cap_node"] = simkit.Pick(r, int64(0), 1, 2, 3)
		p.P["cap_total"] = simkit.Pick(r, int64(0), 0, 1, 3, 5)
		p.P["cap_bytes"] = simkit.Pick(r, int64(0), 0, 20, 40, 80)
	}
	for range r.I(1, 4) {
		var ops []simkit.Op
		for range r.I(3, 10) {
			ops = append(ops, simkit.Op{
				K: []string{"set", "crash", "restart", "cut", "isolate", "heal", "sleep"}[r.PickW(12, 1, 1, 2, 2, 1, 2)],
				A: int64(r.N(8)), B: int64(r.N(6)), C: int64(r.N(60)),
			})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

// sendID is one write on its way to one node.
type sendID struct {
	from, to, key, origin string
	version               uint64
}

func execHints(env *simkit.Env) {
	w := newWorld(env)
	mode := env.P("mode")
	w.opts = func(string) []backend.DistMemoryOption {
		o := baseOpts(env)
		if c := env.PI("cap_node"); c > 0 {
			o = append(o, backend.WithDistHintMaxPerNode(c))
		}
		if c := env.PI("cap_total"); c > 0 {
			o = append(o, backend.WithDistHintMaxTotal(c))
		}
		if c := env.P("cap_bytes"); c > 0 {
			o = append(o, backend.WithDistHintMaxBytes(c))
		}

		return o
	}
	var mu sync.Mutex
	failed := map[sendID]time.Time{} // when a replica write first failed
	delivered := map[sendID]bool{}   // failed ones that got through later
	ttl := time.Duration(env.P("hint_ttl_ms")) * time.Millisecond
	type pass struct{ began, ended time.Time }
	passes := map[string]*pass{} // the replay a node is at: its attempts, back to back
	w.afterSet = func(id sendID, replicate bool, began time.Time, err error) {
		if replicate {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		at, before := failed[id]
		if before {
			// a replay looks at the clock once, when it begins
			p := passes[id.from]
			if p == nil || began.Sub(p.ended) > time.Millisecond {
				p = &pass{began: began}
				passes[id.from] = p
			}
			p.ended = time.Now()
			if p.began.Sub(at) > ttl+2*time.Millisecond {
				env.Fail("hint-outlived", "%s offered %s version %d to %s in a replay begun %v after the first attempt failed, hints live %v", id.from, id.key, id.version, id.to, p.began.Sub(at), ttl)
			}
		}
		switch {
		case err == nil || isRefusal(err):
			if before {
				delivered[id] = true
			}
		case !before:
			failed[id] = time.Now()
		}
	}
	nodes := w.boot(max(2, env.PI("nodes")))
	victim := nodes[len(nodes)-1]
	crashes := env.P("crashes") == 1 && mode == hintsAll && len(nodes) > 2
	nk := max(1, env.P("keys"))
	ctx := context.Background()
	at := func(i int64) string { return nodes[i%int64(len(nodes))] }
	var epoch int64 // changes with reachability
	var busy sync.Mutex
	quietNet := env.Plan.Rates["delay"] == 0 && env.Plan.Rates["drop-request"] == 0 && env.Plan.Rates["drop-response"] == 0
	env.Par(func(t int, ops []simkit.Op) {
		for i, op := range ops {
			k := keyName(op.A%nk + env.P("spread"))
			switch op.K {
			case "set":
				id := at(op.B)
				if crashes && id == victim {
					id = nodes[0]
				}
				n := w.get(id)
				owners := ids(n.dm.DebugOwners(k))
				mu.Lock()
				e0 := epoch
				mu.Unlock()
				reach := w.reachable(id, owners)
				t0 := time.Now()
				_ = put(ctx, n, k, makeVal(k, int64(t+1)*1000+int64(i)))
				took := time.Now().Sub(t0)
				mu.Lock()
				same := epoch == e0
				mu.Unlock()
				if reach && same && quietNet && took >= w.rpcTimeout() {
					env.Fail("write-stalled", "Set(%s) through %s took %v, though it and the owners %v can reach each other", k, id, took, owners)
				}
				if m := n.dm.Metrics(); env.P("cap_bytes") > 0 && m.HintedBytes > env.P("cap_bytes") {
					env.Fail("over-cap", "%s queues %d bytes of hints, %d are allowed", id, m.HintedBytes, env.P("cap_bytes"))
				}
			case "crash", "restart":
				func() {
					busy.Lock()
					defer busy.Unlock()
					if !crashes {
						return
					}
					mu.Lock()
					epoch++
					mu.Unlock()
					if up := w.alive(victim, 0); up && op.K == "crash" {
						w.crash(victim)
						env.CountFault("crash")
					} else if !up && op.K == "restart" {
						w.start(victim, nodes)
						env.CountFault("restart-empty")
					}
				}()
			case "cut", "isolate", "heal":
				mu.Lock()
				epoch++
				mu.Unlock()
				switch op.K {
				case "cut":
					w.setCut(at(op.B), at(op.C), true)
					env.CountFault("one-way-cut")
				case "isolate":
					w.isolate(at(op.B), nodes)
					env.CountFault("isolated-node")
				default:
					w.healAll()
				}
				mu.Lock()
				epoch++
				mu.Unlock()
			case "sleep":
				time.Sleep(time.Duration(op.C) * time.Millisecond)
			}
		}
	})
	env.StopFaults()
	if !w.alive(victim, 0) {
		w.start(victim, nodes)
	}
	time.Sleep(2*w.rpcTimeout() + 150*time.Millisecond)
	mu.Lock()
	pending := map[[2]string]int{}
	early := map[[2]string]bool{}
	due := map[string]copyOf{} // what the victim is still to be told
	before := map[sendID]bool{}
	for id := range failed {
		if delivered[id] {
			before[id] = true
			early[[2]string{id.from, id.to}] = true

			continue
		}
		if id.to == victim && id.version >= due[id.key].version {
			due[id.key] = copyOf{version: id.version, origin: id.origin}
		}
		pending[[2]string{id.from, id.to}]++
	}
	mu.Unlock()
	if len(pending) > 0 {
		env.Nontrivial()
	}
	w.healAll()
	// passes under way may still be waiting for answers
	time.Sleep(time.Duration(len(failed)+4)*w.rpcTimeout() + 3*time.Duration(env.P("hint_ms"))*time.Millisecond)
	mu.Lock()
	got := map[[2]string]int{}
	gotFrom := map[string]int{}
	for id := range delivered {
		if !before[id] {
			got[[2]string{id.from, id.to}]++
			gotFrom[id.from]++
		}
	}
	mu.Unlock()
	for _, n := range w.up() {
		m := n.dm.Metrics()
		env.Observe(fmt.Sprint(n.id, m.HintedQueued, m.HintedReplayed, m.HintedExpired, m.HintedGlobalDropped))
		if m.HintedBytes != 0 {
			env.Fail("hint-account", "%s accounts for %d bytes of hints with none left", n.id, m.HintedBytes)
		}
		if env.P("cap_node") == 0 && m.HintedQueued != m.HintedReplayed+m.HintedExpired {
			env.Fail("hint-account", "%s queued %d hints, delivered %d, let %d expire, and has none left", n.id, m.HintedQueued, m.HintedReplayed, m.HintedExpired)
		}
	}
	if mode == hintsCap {
		for _, from := range nodes {
			if c := env.PI("cap_total"); c > 0 && gotFrom[from] > c {
				env.Fail("over-cap", "%s delivered %d hints once its peers were back, it may hold %d", from, gotFrom[from], c)
			}
			for _, to := range nodes {
				c := env.PI("cap_node")
				if c == 0 {
					continue
				}
				p := [2]string{from, to}
				if got[p] > c {
					env.Fail("over-cap", "%s delivered %d hints to %s once it was back, it may hold %d", from, got[p], to, c)
				}
				if env.P("cap_total") == 0 && env.P("cap_bytes") == 0 && !early[p] && got[p] < min(c, pending[p]) {
					env.Fail("hint-lost", "%s delivered %d hints to %s once it was back, %d writes had failed and %d hints may be held", from, got[p], to, pending[p], c)
				}
			}
		}
	}
	if mode == hintsAll {
		best := map[string]copyOf{}
		for _, n := range w.up() {
			for k, it := range keysOf(n.dm) {
				c := w.copyAt(k, it)
				if b, ok := best[k]; !ok || c.newer(b) {
					best[k] = c
				}
			}
		}
		for _, k := range simkit.SortedKeys(best) {
			owners := ids(w.get(nodes[0]).dm.DebugOwners(k))
			if crashes && owners[0] == victim {
				continue // it lost its hints
			}
			for _, o := range owners {
				it, ok := w.local(o, k)
				want := best[k]
				if crashes && o == victim {
					// what it was told before it crashed is gone
					var owed bool
					if want, owed = due[k]; !owed || (ok && !want.newer(copyOf{version: it.Version, origin: it.Origin})) {
						continue
					}
				}
				if !ok {
					env.Fail("hint-lost", "owner %s of %s lacks it long after it can be reached again, %v was written", o, k, best[k])
				}
				c := w.copyAt(k, it)
				if want.newer(c) {
					env.Fail("hint-lost", "owner %s of %s holds %v long after it can be reached again, %v was written", o, k, c, best[k])
				}
			}
		}
	}
	if mode != hintsTTL {
		w.hintsAgain(nodes)
	}
	w.stopAll()
}

// hintsAgain: with every queue drained, as many writes as the caps allow are
// hinted anew and delivered. What came before has left no trace.
func (w *world) hintsAgain(nodes []string) {
	env, ctx := w.env, context.Background()
	from, to := nodes[0], nodes[1]
	n := w.get(from)
	limit := 3
	for _, c := range []int{env.PI("cap_node"), env.PI("cap_total")} {
		if c > 0 {
			limit = min(limit, c)
		}
	}
	room := env.PI("cap_bytes")
	w.setCut(from, to, true)
	want := map[string]int64{}
	for i := int64(0); i < 300 && len(want) < limit; i++ {
		k := keyName(3000 + i)
		owners := ids(n.dm.DebugOwners(k))
		if owners[0] != from || !slices.Contains(owners, to) {
			continue
		}
		id := 900_000 + i
		size := len(k) + len(fmt.Sprint(makeVal(k, id)))
		if env.P("cap_bytes") > 0 && size > room {
			continue
		}
		room -= size
		_ = put(ctx, n, k, makeVal(k, id))
		want[k] = id
	}
	w.healAll()
	time.Sleep(time.Duration(len(want)+4)*w.rpcTimeout() + 3*time.Duration(env.P("hint_ms"))*time.Millisecond)
	for _, k := range simkit.SortedKeys(want) {
		it, ok := w.local(to, k)
		if !ok || w.readVal(k, it) != want[k] {
			env.Fail("hint-lost", "%s was cut off from %s for %d writes after all earlier hints had gone, no more than may be held; long after it can be reached it lacks %s", to, from, len(want), k)
		}
	}
	if len(want) > 0 {
		env.Probe("hinted-again")
	}
}

// reachable reports whether id and the nodes are up and reach each other.
func (w *world) reachable(id string, nodes []string) bool {
	all := append([]string{id}, nodes...)
	for _, a := range all {
		if !w.alive(a, 0) {
			return false
		}
		for _, b := range all {
			if a != b && w.isCut(a, b) {
				return false
			}
		}
	}

	return true
}
