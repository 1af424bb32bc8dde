package main

import (
	"context"
	"encoding/json"
	"fmt"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/internal/eventbus"
	"github.com/hyp3rd/hypercache/pkg/backend"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// "events": what a subscriber of a node's event bus learns last about the
// members is how they are, and every real change is told: whatever operations,
// probes and gossip change them at the same time.

func init() {
	register(&simkit.Scenario{Name: "events", Gen: genEvents, Exec: execEvents, MaxYields: 100_000_000})
}

func genEvents(r *simkit.Rand, tier string) *simkit.Plan {
	n := r.I(1, 4)
	p := &simkit.Plan{P: map[string]int64{
		"nodes": int64(n), "rf": int64(r.I(1, 3)), "vnodes": simkit.Pick(r, int64(1), 4), "shards": 1, "rpc_ms": 20,
		"lat_us": simkit.Pick(r, int64(0), 500, 2000), "subs": int64(r.I(1, 3)),
	}, Rates: map[string]int64{}}
	if n > 1 && r.N(2) == 0 {
		p.P["hb_ms"] = simkit.Pick(r, int64(40), 100)
		p.P["suspect_ms"], p.P["dead_ms"] = p.P["hb_ms"]*int64(r.I(2, 4)), p.P["hb_ms"]*int64(r.I(5, 10))
		p.P["indirect"] = int64(r.N(2))
		p.P["gossip_ms"] = simkit.Pick(r, int64(0), p.P["hb_ms"], p.P["hb_ms"]/2)
		p.Rates["delay"] = simkit.Pick(r, int64(0), 1500, 4000)
		p.Rates["drop-request"] = simkit.Pick(r, int64(0), 500)
	} else if n > 1 {
		p.P["gossip_ms"] = simkit.Pick(r, int64(0), 30)
	}
	for range r.I(2, 4) {
		var ops []simkit.Op
		for range r.I(2, 8) {
			ops = append(ops, simkit.Op{
				K: []string{"add", "remove", "sleep", "crash", "restart", "cut", "heal", "resub", "leave"}[r.PickW(6, 5, 2, b2i(p.P["hb_ms"] > 0), b2i(p.P["hb_ms"] > 0), b2i(p.P["hb_ms"] > 0), b2i(p.P["hb_ms"] > 0), 1, 2)],
				A: int64(r.N(4)), B: int64(r.N(4)), C: int64(r.N(300)),
			})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

func b2i(b bool) int {
	if b {
		return 1
	}

	return 0
}

// listener reads one subscription from start to end.
type listener struct {
	bus    *eventbus.Bus
	cancel func()
	mu     sync.Mutex
	last   string // the last word about the members
	events int
	closed bool
	beats  []int64
}

func (l *listener) read(env *simkit.Env, id string, ch <-chan eventbus.Event) {
	var version uint64
	for e := range ch {
		if e.Version <= version {
			env.Fail("order", "%s: event %d came after %d", id, e.Version, version)
		}
		version = e.Version
		b, err := json.Marshal(e.Payload)
		if err != nil {
			env.Fail("payload", "%s: %s event: %v", id, e.Type, err)
		}
		l.mu.Lock()
		l.events++
		switch e.Type {
		case "members":
			l.last = string(b)
		case "heartbeat":
			var v map[string]int64
			if json.Unmarshal(b, &v) != nil || len(v) != 4 {
				env.Fail("payload", "%s: heartbeat event %s", id, b)
			}
			now := []int64{v["heartbeatSuccess"], v["heartbeatFailure"], v["nodesRemoved"]}
			for i, x := range l.beats {
				if now[i] < x {
					env.Fail("counter", "%s: heartbeat event %s after %v", id, b, l.beats)
				}
			}
			l.beats = now
		}
		l.mu.Unlock()
	}
	l.mu.Lock()
	l.closed = true
	l.mu.Unlock()
}

func execEvents(env *simkit.Env) {
	w := newWorld(env)
	w.opts = func(string) []backend.DistMemoryOption { return baseOpts(env) }
	nodes := w.boot(max(1, env.PI("nodes")))
	at := func(i int64) string { return nodes[i%int64(len(nodes))] }
	ls := map[*node][]*listener{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	subscribe := func(n *node) {
		ctx, cancel := context.WithCancel(context.Background())
		ch, unsub := n.dm.EventBus().Subscribe(ctx)
		l := &listener{bus: n.dm.EventBus(), cancel: cancel}
		if env.P("subs") == 2 {
			l.cancel = func() { unsub(); cancel() }
		}
		l.last = membersJSON(n) // as the stream of the management server begins
		mu.Lock()
		ls[n] = append(ls[n], l)
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			l.read(env, n.id, ch)
		}()
	}
	for _, n := range w.up() {
		for range env.P("subs") {
			subscribe(n)
		}
	}
	var busy sync.Mutex
	env.Par(func(t int, ops []simkit.Op) {
		for _, op := range ops {
			var n *node
			for _, x := range w.up() {
				if n == nil || x.id == at(op.A) {
					n = x
				}
			}
			other := fmt.Sprintf("peer%d.sim:7000", op.B)
			switch op.K {
			case "add":
				n.dm.AddPeer(other)
			case "remove":
				n.dm.RemovePeer(other)
			case "leave":
				n.dm.RemovePeer(addrOf(at(op.B)))
			case "crash":
				busy.Lock()
				if len(w.up()) > 1 && w.alive(at(op.A), 0) {
					w.crash(at(op.A))
					env.CountFault("crash")
				}
				busy.Unlock()
			case "restart":
				busy.Lock()
				if !w.alive(at(op.A), 0) {
					subscribe(w.start(at(op.A), nodes))
					env.CountFault("restart-empty")
				}
				busy.Unlock()
			case "cut":
				w.setCut(at(op.A), at(op.B), true)
				env.CountFault("one-way-cut")
			case "heal":
				w.healAll()
			case "resub":
				subscribe(n)
			case "sleep":
				time.Sleep(time.Duration(op.C) * time.Millisecond)
			}
		}
	})
	env.StopFaults()
	w.healAll()
	tick := 1 + env.P("hb_ms") + env.P("nodes")*(env.P("hb_ms")+env.P("rpc_ms"))
	time.Sleep(time.Duration(4*env.P("dead_ms")+20*tick+40*(env.P("gossip_ms")+env.P("rpc_ms"))) * time.Millisecond)
	for _, n := range w.up() {
		var before, after string
		for range 50 { // a quiet moment
			before = membersJSON(n)
			time.Sleep(5 * time.Millisecond)
			if after = membersJSON(n); before == after {
				break
			}
		}
		if before != after {
			continue
		}
		for i, l := range ls[n] {
			l.mu.Lock()
			last, events, closed := l.last, l.events, l.closed
			l.mu.Unlock()
			if closed {
				env.Fail("closed", "%s: subscription %d ended by itself", n.id, i)
			}
			if l.bus.Dropped() > 0 {
				env.Probe("dropped")

				continue
			}
			if canonical(last) != before {
				env.Fail("stale", "%s: the last of %d events says\n%s\nbut the members are\n%s", n.id, events, canonical(last), before)
			}
			if events > 0 {
				env.Nontrivial()
			}
		}
	}
	w.stopAll()
	for _, all := range ls {
		for _, l := range all {
			l.cancel()
		}
	}
	wg.Wait()
}

type memberList struct {
	Replication  int `json:"replication"`
	VirtualNodes int `json:"virtualNodes"`
	Members      []struct {
		ID, Address, State string
		Incarnation        uint64
	} `json:"members"`
}

func membersJSON(n *node) string {
	var v memberList
	v.Replication, v.VirtualNodes = n.dm.Ring().Replication(), n.dm.Ring().VirtualNodesPerNode()
	for _, m := range n.dm.Membership().List() {
		v.Members = append(v.Members, struct {
			ID, Address, State string
			Incarnation        uint64
		}{string(m.ID), m.Address, m.State.String(), m.Incarnation})
	}
	b, _ := json.Marshal(v)

	return canonical(string(b))
}

// canonical orders the members.
func canonical(s string) string {
	var v memberList
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		return s
	}
	m := map[string]string{}
	for _, x := range v.Members {
		m[x.ID] = fmt.Sprintf("%s %s %d", x.Address, x.State, x.Incarnation)
	}
	out := fmt.Sprintf("replication %d virtual nodes %d", v.Replication, v.VirtualNodes)
	for _, id := range simkit.SortedKeys(m) {
		out += fmt.Sprintf("\n%s %s", id, m[id])
	}

	return out
}
