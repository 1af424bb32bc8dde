package main

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/pkg/backend"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// "streams": event streams that are opened and ended at the moment the members
// change. Once nothing changes any more, the last word of every stream that is
// still open is how the server sees the members.

func init() {
	simkit.Register(&simkit.Scenario{Name: "streams", Gen: genStreams, Exec: execStreams, MaxYields: 100_000_000})
}

func genStreams(r *simkit.Rand, tier string) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{
		"base_us": simkit.Pick(r, int64(0), 0, 20, 500), "first": int64(r.N(3)), "pace": simkit.Pick(r, int64(0), 0, 1, 3), "stop": int64(r.N(2)),
	}, Rates: map[string]int64{}}
	p.Rates["net-delay"], p.Rates["net-split"] = simkit.Pick(r, int64(0), 0, 800), simkit.Pick(r, int64(0), 2000)
	for range r.I(1, 2) { // at most 12 changes: a stream has room for 16
		var ops []simkit.Op
		for range r.I(1, 6) {
			ops = append(ops, simkit.Op{K: []string{"add", "mark", "drop"}[r.PickW(4, 4, 2)], A: int64(r.N(4)), B: int64(r.N(3)), C: int64(r.N(1000))})
		}
		p.Threads = append(p.Threads, ops)
	}
	for range r.I(1, 4) {
		var ops []simkit.Op
		for range r.I(1, 3) {
			ops = append(ops, simkit.Op{K: []string{"open", "end"}[r.PickW(5, 1)], A: int64(r.N(4)), C: int64(r.N(1000))})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

func execStreams(env *simkit.Env) {
	s := newStack(env)
	s.net.Base = time.Duration(env.P("base_us")) * time.Microsecond
	ring := cluster.NewRing(cluster.WithReplication(2), cluster.WithVirtualNodes(4))
	members := cluster.NewMembership(ring)
	p := &proc{id: "n0"}
	cfg, err := hypercache.NewConfig[backend.DistMemory](constants.DistMemoryBackend)
	if err != nil {
		env.Fail("boot", "%v", err)

		return
	}
	cfg.DistMemoryOptions = []backend.DistMemoryOption{backend.WithDistMembership(members, cluster.NewNode("n0", "n0")), backend.WithDistReplication(2)}
	cfg.HyperCacheOptions = append(cfg.HyperCacheOptions, hypercache.WithManagementHTTP[backend.DistMemory](p.mgmt()))
	hc, err := hypercache.New(context.Background(), hypercache.GetDefaultManager(), cfg)
	if err != nil {
		env.Fail("boot", "%v", err)

		return
	}
	name := func(a int64) cluster.NodeID { return cluster.NodeID(fmt.Sprint("m", a)) }
	upsert := func(a, b int64) {
		members.Upsert(&cluster.Node{ID: name(a), Address: fmt.Sprintf("m%d:%d", a, b), State: cluster.NodeState(b), Incarnation: uint64(b)})
	}
	for i := range env.P("first") {
		upsert(i, 0)
	}
	for try := 0; s.call("GET", p.mgmt(), "/health", "", nil).status != 200; try++ {
		if try > 100 {
			env.Fail("boot", "the management server does not answer")
		}
		time.Sleep(10 * time.Millisecond)
	}
	p.running = true
	var mu sync.Mutex
	changes, opened, gaveUp := 0, 0, 0
	env.Par(func(t int, ops []simkit.Op) {
		type stream struct {
			*watcher
			cancel context.CancelFunc
		}
		var mine []stream
		for _, op := range ops {
			if pace := env.P("pace"); pace > 0 {
				time.Sleep(time.Duration(op.C*pace) * time.Microsecond)
			}
			switch op.K {
			case "add":
				upsert(op.A, op.B)
			case "mark":
				members.Mark(name(op.A), cluster.NodeState(op.B))
			case "drop":
				members.Remove(name(op.A))
			case "open":
				ctx, cancel := context.WithCancel(s.ctx)
				w := &watcher{p: p}
				mine = append(mine, stream{w, cancel})
				s.wg.Add(1)
				go func() {
					defer s.wg.Done()
					w.follow(ctx, s, "")
				}()
			case "end":
				if len(mine) > 0 {
					mine[0].mu.Lock()
					answered := mine[0].code != 0
					mine[0].mu.Unlock()
					mine[0].cancel()
					if !answered {
						mu.Lock()
						gaveUp++
						mu.Unlock()
					}
					mine = mine[1:]
					env.CountFault("stream-ended")
				}
			}
			mu.Lock()
			switch op.K {
			case "add", "mark", "drop":
				changes++
			case "open":
				opened++
			}
			mu.Unlock()
			env.Ops(1)
		}
		mu.Lock()
		defer mu.Unlock()
		for _, m := range mine {
			s.watchers = append(s.watchers, m.watcher)
		}
	})
	time.Sleep(2 * time.Second)
	s.judgeStreams("")
	if changes > 0 && opened > 0 {
		env.Nontrivial()
	}
	p.running = false
	if env.P("stop") == 1 {
		s.cancel() // the streams end first
		time.Sleep(100 * time.Millisecond)
	}
	from := time.Now()
	// A client that gives up while it connects keeps the connection it dialed
	// and says nothing on it: the server may wait for its first request as
	// long as Stop may take, and then say so.
	if err := hc.Stop(context.Background()); err != nil && (gaveUp == 0 || !errors.Is(err, context.DeadlineExceeded)) {
		env.Fail("stop", "with %d streams open: %v", len(s.watchers), err)
	}
	if d := time.Since(from); d > 5*time.Second {
		env.Fail("stop", "with %d streams open it took %v", len(s.watchers), d)
	}
	env.Observe(fmt.Sprint(changes, opened, len(s.watchers)))
	s.close()
}
