package main

import (
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/pkg/backend"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// "members": heartbeats, indirect probes and gossip alone keep the views of who
// is in the cluster.
//
//   - calm: every probe is answered in time; nobody is ever suspected.
//   - link: one pair of nodes cannot talk, others can reach both; with indirect
//     probes nobody is ever suspected. Or all nodes but one cannot reach the one
//     node, and each asks every other to.
//   - storm: crashes, restarts, cuts, loss. When it is over every node that
//     stayed known to somebody is listed, alive, by all, and no crashed one.

func init() {
	register(&simkit.Scenario{Name: "members", Gen: genMembers, Exec: execMembers, MaxYields: 100_000_000})
}

const (
	membersCalm = iota
	membersLink
	membersStorm
)

func genMembers(r *simkit.Rand, tier string) *simkit.Plan {
	mode := int64(r.PickW(2, 2, 6))
	n := r.I(2, 6)
	if mode == membersLink {
		n = r.I(3, 6)
	}
	hb := simkit.Pick(r, int64(40), 100)
	p := &simkit.Plan{P: map[string]int64{
		"mode": mode, "nodes": int64(n), "rf": int64(r.I(1, 3)), "vnodes": simkit.Pick(r, int64(1), 8), "shards": 1,
		"hb_ms": hb, "suspect_ms": hb * int64(r.I(2, 4)), "dead_ms": hb * int64(r.I(5, 10)),
		"hb_sample": simkit.Pick(r, int64(0), 0, 0, 1, 2, 3), "indirect": int64(r.N(4)), "indirect_ms": simkit.Pick(r, int64(0), hb/2),
		"gossip_ms": simkit.Pick(r, hb, hb, hb/2, hb*2), "lat_us": simkit.Pick(r, int64(0), 500, 2000),
		"rpc_ms": simkit.Pick(r, int64(20), 60), "down_sentinel": int64(r.N(2)), "down_blackhole": int64(r.N(2)),
		"link": int64(r.N(1000)), "twoway": int64(r.N(2)),
	}, Rates: map[string]int64{}}
	if mode == membersLink {
		p.P["indirect"] = int64(r.I(1, 3))
		if n > 3 && r.P(1, 2) { // all but one of the relays cannot reach it either, and every one is asked
			p.P["indirect"], p.P["cutters"] = int64(n-2), int64(r.I(2, n-2))
		}
	}
	if mode == membersStorm {
		p.Rates["delay"] = simkit.Pick(r, int64(0), 1500, 4000)
		p.Rates["drop-request"] = simkit.Pick(r, int64(0), 500, 3000)
		p.Rates["drop-response"] = simkit.Pick(r, int64(0), 500, 3000)
		p.Rates["duplicate"] = simkit.Pick(r, int64(0), 1000)
	}
	for range r.I(1, 3) {
		var ops []simkit.Op
		for range r.I(2, 7) {
			op := simkit.Op{K: "sleep", A: int64(r.N(6)), B: int64(r.N(6)), C: int64(r.N(int(hb) * 8))}
			switch mode {
			case membersLink:
				op.K = []string{"link", "heal", "sleep"}[r.PickW(2, 1, 3)]
			case membersStorm:
				op.K = []string{"crash", "restart", "cut", "isolate", "heal", "sleep"}[r.PickW(3, 3, 2, 2, 2, 5)]
			}
			ops = append(ops, op)
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

func execMembers(env *simkit.Env) {
	w := newWorld(env)
	w.opts = func(string) []backend.DistMemoryOption { return baseOpts(env) }
	nodes := w.boot(max(2, env.PI("nodes")))
	mode := env.P("mode")
	at := func(i int64) string { return nodes[i%int64(len(nodes))] }
	ms := time.Millisecond
	var busy sync.Mutex
	env.Par(func(t int, ops []simkit.Op) {
		for _, op := range ops {
			switch op.K {
			case "link":
				l := env.P("link")
				a, b := at(l), at(l+1+l/7%int64(len(nodes)-1))
				w.setCut(a, b, true)
				if env.P("twoway") == 1 {
					w.setCut(b, a, true)
				}
				env.CountFault("broken-link")
				for j, left := int64(2), env.P("cutters")-1; left > 0; j++ {
					if c := at(l + j); c != a && c != b {
						w.setCut(c, b, true)
						env.CountFault("broken-relay-link")
						left--
					}
				}
			case "crash":
				busy.Lock()
				if len(w.up()) > 1 && w.alive(at(op.A), 0) {
					w.crash(at(op.A))
					env.CountFault("crash")
				}
				busy.Unlock()
			case "restart":
				busy.Lock()
				if !w.alive(at(op.A), 0) {
					w.start(at(op.A), nodes)
					env.CountFault("restart-empty")
				}
				busy.Unlock()
			case "cut":
				w.setCut(at(op.A), at(op.B), true)
				env.CountFault("one-way-cut")
			case "isolate":
				w.isolate(at(op.A), nodes)
				env.CountFault("isolated-node")
			case "heal":
				w.healAll()
			case "sleep":
				time.Sleep(time.Duration(op.C) * ms)
			}
		}
	})
	if mode != membersStorm {
		time.Sleep(time.Duration(2*env.P("dead_ms")) * ms)
		for _, n := range w.up() {
			m := n.dm.Metrics()
			if m.NodesSuspect+m.NodesRemoved+m.NodesDead != 0 {
				env.Fail("false-alarm", "%s suspected %d times and removed %d nodes though every one was up and reachable: %v", n.id, m.NodesSuspect, m.NodesRemoved, viewOf(n))
			}
		}
		env.Nontrivial()
		w.sameView(env, nodes)
		w.stopAll()

		return
	}
	env.StopFaults()
	w.healAll()
	n := env.P("nodes")
	tick := env.P("hb_ms") + n*(env.P("hb_ms")/2+env.P("indirect")*max(env.P("hb_ms")/2, env.P("indirect_ms")))
	// probes under way may still fail on what was broken when they were sent
	time.Sleep(time.Duration(2*tick+2*env.P("rpc_ms")) * ms)
	// whom the survivors can still learn of: those some other survivor lists
	know := map[string]map[string]bool{}
	for _, n := range w.up() {
		know[n.id] = map[string]bool{n.id: true}
	}
	for _, n := range w.up() {
		for id := range viewOf(n) {
			if know[id] != nil {
				know[n.id][id], know[id][n.id] = true, true
			}
		}
	}
	for range nodes { // transitively
		for _, a := range simkit.SortedKeys(know) {
			for _, b := range simkit.SortedKeys(know[a]) {
				for _, c := range simkit.SortedKeys(know[b]) {
					know[a][c] = true
				}
			}
		}
	}
	if s := env.P("hb_sample"); s > 0 {
		tick *= 1 + 3*n/s
	}
	round := env.P("gossip_ms") + env.P("rpc_ms")
	time.Sleep(time.Duration(4*env.P("dead_ms")+20*tick+40*n*round) * ms)
	alive := w.up()
	for _, x := range alive {
		v := viewOf(x)
		for _, id := range simkit.SortedKeys(v) {
			if know[id] == nil {
				env.Fail("ghost", "long after %s crashed %s still lists it: %v", id, x.id, v)
			}
			if v[id] != cluster.NodeAlive {
				env.Fail("not-alive", "%s lists %s as %v though it is up and reachable: %v", x.id, id, v[id], v)
			}
		}
		for _, id := range simkit.SortedKeys(know[x.id]) {
			if _, ok := v[id]; !ok {
				env.Fail("forgotten", "%s does not list %s, which a survivor listed when the network was whole again: %v, could learn of %v", x.id, id, v, simkit.SortedKeys(know[x.id]))
			}
		}
		env.Observe(x.id + show(int64(len(v))))
	}
	if len(alive) > 1 {
		env.Nontrivial()
	}
	groups := map[string][]string{}
	for _, x := range alive {
		k := ""
		for _, id := range simkit.SortedKeys(know[x.id]) {
			k += id + " "
		}
		groups[k] = append(groups[k], x.id)
	}
	for _, k := range simkit.SortedKeys(groups) {
		w.sameView(env, groups[k])
	}
	w.stopAll()
}

func viewOf(n *node) map[string]cluster.NodeState {
	out := map[string]cluster.NodeState{}
	for _, m := range n.dm.Membership().List() {
		out[string(m.ID)] = m.State
	}

	return out
}

// sameView: nodes with the same members route every key to the same owners.
func (w *world) sameView(env *simkit.Env, nodes []string) {
	for i := range int64(40) {
		k := keyName(i)
		want := ids(w.get(nodes[0]).dm.DebugOwners(k))
		for _, id := range nodes[1:] {
			got := ids(w.get(id).dm.DebugOwners(k))
			if len(got) != len(want) {
				env.Fail("owners-differ", "%s: owners %v at %s, %v at %s", k, want, nodes[0], got, id)
			}
			for j := range got {
				if got[j] != want[j] {
					env.Fail("owners-differ", "%s: owners %v at %s, %v at %s", k, want, nodes[0], got, id)
				}
			}
		}
	}
}
