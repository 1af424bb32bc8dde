package main

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/pkg/backend"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// "rebalance": nodes join empty and leave while clients write and messages are
// lost; every node learns of each change at its own time. However keys move,
// the newest copy of each is never dropped, and once the views agree the owners
// have what they own, others let go of it, and the moving stops.
//
// "scale": one change at a time, settled before the next. Overlapping quorums
// then keep reads fresh right through it.

func init() {
	register(&simkit.Scenario{Name: "rebalance", Gen: genRebalance, Exec: execRebalance, MaxYields: 400_000_000})
	register(&simkit.Scenario{Name: "scale", Gen: genScale, Exec: execScale, MaxYields: 400_000_000, After: func(env *simkit.Env) {
		env.Data.(*hist).checkRegular(env, "stale-read", false)
	}})
}

func genRebalance(r *simkit.Rand, tier string) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{
		"nodes": int64(r.I(1, 4)), "rf": int64(r.I(1, 3)), "wc": int64(r.N(3)), "rc": int64(r.N(3)), "parallel": int64(r.N(2)),
		"shards": simkit.Pick(r, int64(1), 2, 8), "vnodes": simkit.Pick(r, int64(1), 8, 0), "keys": int64(r.I(1, 10)), "spread": int64(r.N(1000)),
		"lat_us": simkit.Pick(r, int64(0), 200), "rpc_ms": simkit.Pick(r, int64(20), 60),
		"rebalance_ms": simkit.Pick(r, int64(5), 15, 40), "rebalance_batch": int64(r.N(4)), "rebalance_conc": int64(r.I(1, 3)),
		"grace_ms": simkit.Pick(r, int64(0), 0, 10, 60), "diff_max": simkit.Pick(r, int64(0), 0, 1, 2),
		"hint_ttl_ms": simkit.Pick(r, int64(0), 0, 60, 500), "hint_ms": simkit.Pick(r, int64(5), 25),
		"sync_ms": simkit.Pick(r, int64(0), 0, 10), "chunk": int64(r.I(1, 4)),
		"stagger_ms": simkit.Pick(r, int64(0), 5, 50), "down_sentinel": int64(r.N(2)),
	}, Rates: map[string]int64{
		"delay": simkit.Pick(r, int64(0), 1500, 4000), "drop-request": simkit.Pick(r, int64(0), 500, 2000),
		"drop-response": simkit.Pick(r, int64(0), 500, 2000), "duplicate": simkit.Pick(r, int64(0), 1000),
	}}
	for range r.I(1, 4) {
		var ops []simkit.Op
		for range r.I(2, 9) {
			ops = append(ops, simkit.Op{
				K: []string{"set", "get", "join", "leave", "cut", "isolate", "heal", "sleep"}[r.PickW(12, 2, 3, 2, 1, 1, 1, 3)],
				A: int64(r.N(12)), B: int64(r.N(6)), C: int64(r.N(40)),
			})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

// roster is the operator's view of who is a member.
type roster struct {
	w       *world
	mu      sync.Mutex
	members map[string]bool
	left    map[string]bool
	next    int
}

func (r *roster) ids() []string { return simkit.SortedKeys(r.members) }

// join starts a new node and tells the others, one after the other.
func (r *roster) join(stagger func()) string {
	r.mu.Lock()
	id := nodeID(r.next)
	r.next++
	r.members[id] = true
	others := r.w.up()
	r.w.start(id, r.ids())
	r.mu.Unlock()
	for _, n := range others {
		stagger()
		n.dm.Membership().Upsert(newMember(id))
	}

	return id
}

// leave tells every node, the leaver included, that it is no member any more.
func (r *roster) leave(id string, stagger func()) bool {
	r.mu.Lock()
	if !r.members[id] || len(r.members) < 2 {
		r.mu.Unlock()

		return false
	}
	delete(r.members, id)
	r.left[id] = true
	all := r.w.up()
	r.mu.Unlock()
	for _, n := range all {
		stagger()
		n.dm.Membership().Remove(cluster.NodeID(id))
	}

	return true
}

// settle makes all views equal.
func (r *roster) settle() {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, n := range r.w.up() {
		m := n.dm.Membership()
		have := map[string]bool{}
		for _, x := range m.List() {
			if !r.members[string(x.ID)] {
				m.Remove(x.ID)
			}
			have[string(x.ID)] = true
		}
		for _, id := range r.ids() {
			if !have[id] {
				m.Upsert(newMember(id))
			}
		}
	}
}

func newMember(id string) *cluster.Node {
	return &cluster.Node{ID: cluster.NodeID(id), Address: addrOf(id), State: cluster.NodeAlive, Incarnation: 1}
}

func newRoster(w *world, n int) *roster {
	r := &roster{w: w, members: map[string]bool{}, left: map[string]bool{}, next: n}
	for _, id := range w.boot(n) {
		r.members[id] = true
	}

	return r
}

// ticks is long enough for the rebalancers to move everything once faults are
// over.
func (w *world) ticks() time.Duration {
	env := w.env
	rounds := int64(6)
	if d := env.P("diff_max"); d > 0 {
		rounds += 2 * env.P("keys") * max(1, env.P("rf")) / d
	}
	every := time.Duration(env.P("rebalance_ms"))*time.Millisecond +
		4*time.Duration(env.P("keys")*max(1, env.P("rf"))*env.P("lat_us"))*time.Microsecond

	return time.Duration(rounds)*every + 2*time.Duration(env.P("grace_ms"))*time.Millisecond
}

func execRebalance(env *simkit.Env) {
	w := newWorld(env)
	w.opts = func(string) []backend.DistMemoryOption { return baseOpts(env) }
	ros := newRoster(w, max(1, env.PI("nodes")))
	nk := max(1, env.P("keys"))
	ctx := context.Background()
	pick := func(i int64) *node { u := w.up(); return u[int(i)%len(u)] }
	var mu sync.Mutex
	kept := map[string]uint64{} // the highest version an acknowledged write was seen at
	changes := 0
	env.Par(func(t int, ops []simkit.Op) {
		for i, op := range ops {
			k := keyName(op.A%nk + env.P("spread"))
			n := pick(op.B)
			stagger := func() { time.Sleep(time.Duration((op.C*7+op.A)%max(1, env.P("stagger_ms"))) * time.Millisecond) }
			switch op.K {
			case "set":
				id := int64(t+1)*1000 + int64(i)
				if put(ctx, n, k, makeVal(k, id)) != nil {
					continue
				}
				for _, o := range w.up() {
					it, ok := w.local(o.id, k)
					if !ok {
						continue
					}
					if c := w.copyAt(k, it); c.val == id {
						mu.Lock()
						kept[k] = max(kept[k], c.version)
						mu.Unlock()
					}
				}
			case "get":
				if it, ok := n.dm.Get(ctx, k); ok {
					w.readVal(k, it)
				}
			case "join":
				mu.Lock()
				changes++
				ok := ros.next < env.PI("nodes")+3
				mu.Unlock()
				if ok {
					ros.join(stagger)
					env.CountFault("join-empty")
				}
			case "leave":
				if ros.leave(n.id, stagger) {
					env.CountFault("leave")
				}
			case "cut":
				w.setCut(n.id, pick(op.C).id, true)
				env.CountFault("one-way-cut")
			case "isolate":
				var all []string
				for _, x := range w.up() {
					all = append(all, x.id)
				}
				w.isolate(n.id, all)
				env.CountFault("isolated-node")
			case "heal":
				w.healAll()
			case "sleep":
				time.Sleep(time.Duration(op.C) * time.Millisecond)
			}
		}
	})
	env.StopFaults()
	w.healAll()
	ros.settle()
	time.Sleep(2*w.rpcTimeout() + 150*time.Millisecond)
	best := w.newest(env)
	for _, k := range simkit.SortedKeys(kept) {
		if best[k].version < kept[k] {
			env.Fail("lost", "no node holds %s at version %d or later any more, only %v", k, kept[k], best[k])
		}
	}
	if len(ros.left)+ros.next-env.PI("nodes") > 0 && len(best) > 0 {
		env.Nontrivial()
	}
	time.Sleep(w.ticks())
	if env.P("sync_ms") > 0 {
		w.awaitSync()
		time.Sleep(w.ticks())
	}
	w.moved(env, ros, best)
	moves := func() (n int64) {
		for _, x := range w.up() {
			n += x.dm.Metrics().RebalancedKeys
		}

		return n
	}
	if env.P("sync_ms") == 0 {
		before := moves()
		time.Sleep(8 * time.Duration(env.P("rebalance_ms")) * time.Millisecond)
		if after := moves(); after != before {
			env.Fail("restless", "long after the last change the rebalancers still move keys: %d more", after-before)
		}
	}
	w.stopAll()
}

// newest is the newest copy of each key held anywhere.
func (w *world) newest(env *simkit.Env) map[string]copyOf {
	best := map[string]copyOf{}
	for _, n := range w.up() {
		for k, it := range keysOf(n.dm) {
			c := w.copyAt(k, it)
			if b, ok := best[k]; !ok || c.newer(b) {
				best[k] = c
			}
		}
	}

	return best
}

// moved: every key is where it belongs.
func (w *world) moved(env *simkit.Env, ros *roster, best map[string]copyOf) {
	sync := env.P("sync_ms") > 0
	for _, k := range simkit.SortedKeys(best) {
		owners := ids(w.get(ros.ids()[0]).dm.DebugOwners(k))
		found := false
		for _, o := range owners {
			it, ok := w.local(o, k)
			c := copyOf{}
			if ok {
				c = w.copyAt(k, it)
			}
			env.Observe(k + o + show(c.val))
			if ok && !best[k].newer(c) {
				found = true
			} else if sync {
				env.Fail("stale-owner", "owner %s of %s holds %v, %v was held when the views had settled", o, k, c, best[k])
			}
		}
		if !found {
			env.Fail("lost", "no owner of %s (%v) holds %v, which was held when the views had settled", k, owners, best[k])
		}
		for _, id := range ros.ids() {
			if env.P("rc") != 0 && !sync {
				continue
			}
			it, ok := w.get(id).dm.Get(context.Background(), k)
			if !ok {
				env.Fail("unreadable", "%s does not find %s (owners %v)", id, k, owners)
			}
			v := w.readVal(k, it)
			if sync && v != best[k].val {
				env.Fail("stale-read", "%s reads %s of %s, its owners hold %v", id, show(v), k, best[k])
			}
		}
	}
	if sync {
		return // anti-entropy also pulls keys a node does not own
	}
	for _, n := range w.up() {
		var extra []string
		for k := range keysOf(n.dm) {
			if own := ids(w.get(ros.ids()[0]).dm.DebugOwners(k)); !contains(own, n.id) {
				extra = append(extra, k)
			}
		}
		sort.Strings(extra)
		if len(extra) > 0 {
			env.Fail("not-released", "%s still holds %v, which it does not own (member: %v)", n.id, extra, ros.members[n.id])
		}
	}
}

func contains(s []string, x string) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}

	return false
}

func genScale(r *simkit.Rand, tier string) *simkit.Plan {
	p := genRebalance(r, tier)
	p.P["nodes"] = int64(r.I(2, 4))
	p.P["rf"] = int64(r.I(2, 3))
	p.P["wc"] = 2
	p.P["rc"] = int64(r.I(1, 2))
	p.P["keys"] = int64(r.I(1, 4))
	p.P["sync_ms"] = simkit.Pick(r, int64(15), 40)
	p.P["rebalance_ms"] = simkit.Pick(r, int64(15), 40)
	p.P["lossy"] = int64(r.N(2))
	if p.P["lossy"] == 0 {
		p.Rates = map[string]int64{"delay": simkit.Pick(r, int64(0), 1500, 4000)}
		p.P["rpc_ms"] = 5000
		if r.N(2) == 0 { // rebalancing on its own, nobody writing meanwhile
			p.P["alone"], p.P["sync_ms"], p.P["stagger_ms"] = 1, 0, 0
			p.P["keys"] = int64(r.I(1, 8))
		}
	}
	p.Threads = nil
	for t := range r.I(2, 4) {
		var ops []simkit.Op
		for range r.I(3, 8) {
			op := simkit.Op{
				K: []string{"set", "get", "sleep"}[r.PickW(5, 6, 4)],
				A: int64(r.N(8)), B: int64(r.N(6)), C: int64(r.N(120)),
			}
			if t == 0 {
				op.K = []string{"join", "leave", "sleep"}[r.PickW(4, 3, 2)]
			}
			ops = append(ops, op)
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

func execScale(env *simkit.Env) {
	w := newWorld(env)
	w.opts = func(string) []backend.DistMemoryOption { return baseOpts(env) }
	ros := newRoster(w, max(2, env.PI("nodes")))
	h := newHist()
	env.Data = h
	nk := max(1, env.P("keys"))
	ctx := context.Background()
	var change sync.Mutex // one at a time, whatever the plan says
	var pause sync.RWMutex
	pick := func(i int64) *node {
		ros.mu.Lock()
		defer ros.mu.Unlock()
		m := ros.ids()

		return w.get(m[int(i)%len(m)])
	}
	changes := 0
	// settle waits, clients paused, until the owners of every key agree
	alone := env.P("alone") == 1
	settle := func() {
		if !alone {
			pause.Lock()
			defer pause.Unlock()
		}
		began := time.Now()
		for {
			time.Sleep(100 * time.Millisecond)
			if w.settled(env, ros) {
				return
			}
			if time.Since(began) > 30*time.Second {
				env.Fail("unsettled", "30s after the members became %v the owners' copies still differ: %s", ros.ids(), w.unsettled(env, ros))
			}
		}
	}
	env.Par(func(t int, ops []simkit.Op) {
		for i, op := range ops {
			k := keyName(op.A%nk + env.P("spread"))
			id := int64(t+1)*1000 + int64(i)
			stagger := func() { time.Sleep(time.Duration((op.C*7+op.A)%max(1, env.P("stagger_ms"))) * time.Millisecond) }
			client := op.K == "set" || op.K == "get"
			if client {
				pause.RLock()
			}
			switch op.K {
			case "set":
				n := pick(op.B)
				c := simkit.Seq()
				h.w(k, write{val: id, call: c, ret: inf})
				err := put(ctx, n, k, makeVal(k, id))
				if err == nil {
					h.ack(k, id, simkit.Seq())
				}
			case "get":
				n := pick(op.B)
				c := simkit.Seq()
				it, ok := n.dm.Get(ctx, k)
				ret := simkit.Seq()
				if ok {
					h.r(k, read{w.readVal(k, it), c, ret, n.id})
				} else if env.P("lossy") == 0 {
					h.r(k, read{0, c, ret, n.id})
				}
			case "join", "leave":
				func() {
					change.Lock()
					defer change.Unlock()
					if alone {
						pause.Lock()
						defer pause.Unlock()
					}
					if op.K == "join" && ros.next < env.PI("nodes")+3 {
						ros.join(stagger)
					} else if op.K == "leave" && len(ros.members) > 2 {
						n := pick(op.B)
						ros.leave(n.id, stagger)
					} else {
						return
					}
					changes++
					env.CountFault(op.K)
					settle()
				}()
			case "sleep":
				time.Sleep(time.Duration(op.C) * time.Millisecond)
			}
			if client {
				pause.RUnlock()
			}
		}
	})
	env.StopFaults()
	if changes > 0 && len(h.reads) > 0 {
		env.Nontrivial()
	}
	settle()
	w.agree(env, h, ros.ids())
	w.stopAll()
}

// settled reports whether the owners of every key anyone holds all have the
// newest copy.
func (w *world) settled(env *simkit.Env, ros *roster) bool { return w.unsettled(env, ros) == "" }

// unsettled names an owner that is behind.
func (w *world) unsettled(env *simkit.Env, ros *roster) string {
	best := w.newest(env)
	for _, k := range simkit.SortedKeys(best) {
		owners := ids(w.get(ros.ids()[0]).dm.DebugOwners(k))
		for _, o := range owners {
			it, ok := w.local(o, k)
			if !ok || best[k].newer(copyOf{it.Version, it.Origin, 0}) {
				return fmt.Sprintf("of the owners %v of %s %s lacks %v", owners, k, o, best[k])
			}
		}
	}

	return ""
}
