package main

import (
	"context"
	"fmt"
	"slices"
	"time"

	"github.com/hyp3rd/hypercache/internal/eventbus"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// A bus run: publisher threads, and subscriber threads that subscribe, read in
// their own rhythm, and leave by unsubscribing, by cancelling, or by both at
// once. Every received event and every publish interval is recorded.

func init() {
	simkit.Register(&simkit.Scenario{Name: "bus", Gen: genBus, Exec: execBus})
}

func genBus(r *simkit.Rand, tier string) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{"quiet": int64(r.N(3))}}
	pubs := r.I(1, 4)
	limit := 60
	if p.P["quiet"] == 0 { // stay below the buffer size: nothing may be dropped
		limit = 15
	}
	for range pubs {
		var ops []simkit.Op
		for range r.I(1, max(1, limit/pubs)) {
			if r.P(1, 6) {
				ops = append(ops, simkit.Op{K: "sleep", A: int64(r.I(1, 20))})
			} else {
				ops = append(ops, simkit.Op{K: "pub", A: int64(r.N(3))})
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	for range r.I(1, 4) {
		ops := []simkit.Op{{K: "sub"}}
		for range r.N(4) {
			switch r.N(3) {
			case 0:
				ops = append(ops, simkit.Op{K: "read", A: int64(r.I(1, 20))})
			case 1:
				ops = append(ops, simkit.Op{K: "sleep", A: int64(r.I(1, 30))})
			case 2:
				ops = append(ops, simkit.Op{K: "count"})
			}
		}
		ops = append(ops, simkit.Op{K: simkit.Pick(r, "unsub", "unsub", "cancel", "both", "end", "end")})
		if r.P(1, 3) { // a second subscription by the same thread
			ops = append(ops, simkit.Op{K: "sub"}, simkit.Op{K: "read", A: int64(r.I(1, 9))}, simkit.Op{K: "unsub"})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

type busGot struct {
	evt eventbus.Event
	at  int64
}

type busSub struct {
	subCall, subRet    int64
	leaveCall, leaveRe int64
	how                string
	got                []busGot
	consumedAll        bool
	capacity           int
	firstRead          int64 // seq of the first read, 0 if none
	closed             bool
}

type busPub struct {
	ver       uint64
	typ       string
	payload   int
	call, ret int64
	took      time.Duration
}

func execBus(env *simkit.Env) {
	bus := eventbus.New()
	nt := len(env.Plan.Threads)
	pubs := make([][]busPub, nt)
	subs := make([][]*busSub, nt)
	fails := make([]string, nt)
	type live struct {
		ch     <-chan eventbus.Event
		unsub  func()
		cancel context.CancelFunc
		rec    *busSub
	}
	ends := make([][]*live, nt)
	env.Par(func(t int, ops []simkit.Op) {
		var cur *live
		take := func(e eventbus.Event, ok bool) bool {
			if !ok {
				cur.rec.closed = true

				return false
			}
			cur.rec.got = append(cur.rec.got, busGot{e, simkit.Seq()})

			return true
		}
		for i, op := range ops {
			switch op.K {
			case "sleep":
				time.Sleep(time.Duration(op.A) * time.Millisecond)
			case "pub":
				typ := []string{"members", "heartbeat", "x"}[op.A%3]
				pb := busPub{typ: typ, payload: t*1000 + i, call: simkit.Seq()}
				t0 := time.Now()
				pb.ver = bus.Publish(eventbus.Event{Type: typ, Payload: pb.payload})
				pb.took = time.Since(t0)
				pb.ret = simkit.Seq()
				pubs[t] = append(pubs[t], pb)
			case "sub":
				ctx, cancel := context.WithCancel(context.Background())
				rec := &busSub{subCall: simkit.Seq()}
				ch, unsub := bus.Subscribe(ctx)
				rec.subRet = simkit.Seq()
				rec.capacity = cap(ch)
				cur = &live{ch, unsub, cancel, rec}
				subs[t] = append(subs[t], rec)
				ends[t] = append(ends[t], cur)
			case "read":
				if cur == nil {
					continue
				}
				if cur.rec.firstRead == 0 {
					cur.rec.firstRead = simkit.Seq()
				}
				for range op.A {
					select {
					case e, ok := <-cur.ch:
						take(e, ok)
					case <-time.After(5 * time.Millisecond):
					}
				}
			case "count":
				if n := bus.SubscriberCount(); n < 0 || n > 2*nt {
					fails[t] = fmt.Sprintf("SubscriberCount() = %d", n)
				}
			case "unsub", "cancel", "both":
				if cur == nil || cur.rec.leaveCall != 0 {
					continue
				}
				cur.rec.how = op.K
				cur.rec.leaveCall = simkit.Seq()
				switch op.K {
				case "unsub":
					cur.unsub()
				case "cancel":
					cur.cancel()
				case "both":
					u := cur.unsub
					fin := make(chan struct{})
					go func() { u(); close(fin) }()
					cur.cancel()
					cur.unsub()
					<-fin
				}
				cur.rec.leaveRe = simkit.Seq()
			}
		}
	})
	// Everything is quiet. Leave what is still subscribed, then drain: every
	// channel must end closed, after the events still buffered in it.
	active := 0
	time.Sleep(time.Second)
	for t := range ends {
		for _, l := range ends[t] {
			if l.rec.leaveCall == 0 {
				active++
			}
		}
	}
	if n := bus.SubscriberCount(); n != active {
		env.Fail("subscriber-count", "SubscriberCount() = %d at rest, %d subscriptions are open", n, active)
	}
	dropped := bus.Dropped()
	for t := range ends {
		for i, l := range ends[t] {
			if l.rec.leaveCall == 0 {
				l.rec.leaveCall = simkit.Seq()
				if i%2 == 0 {
					l.unsub()
				} else {
					l.cancel()
				}
				l.rec.leaveRe = simkit.Seq()
				l.rec.how = "end"
			}
			deadline := time.After(time.Minute)
		drain:
			for {
				select {
				case e, ok := <-l.ch:
					if !ok {
						l.rec.closed = true

						break drain
					}
					l.rec.got = append(l.rec.got, busGot{e, simkit.Seq()})
				case <-deadline:
					env.Fail("never-closed", "a channel was not closed after its subscription ended by %s", l.rec.how)
				}
			}
			l.unsub() // idempotent
			l.cancel()
		}
	}
	if n := bus.SubscriberCount(); n != 0 {
		env.Fail("subscriber-count", "SubscriberCount() = %d after every subscription ended", n)
	}
	before := bus.Dropped()
	bus.Publish(eventbus.Event{Type: "after"})
	if bus.Dropped() != before {
		env.Fail("drop-count", "publishing without subscribers counted a drop")
	}
	checkBus(env, pubs, subs, fails, dropped)
}

func checkBus(env *simkit.Env, pubs [][]busPub, subs [][]*busSub, fails []string, dropped uint64) {
	for _, f := range fails {
		if f != "" {
			env.Fail("api", "%s", f)
		}
	}
	byVer := map[uint64]busPub{}
	var order []uint64
	for _, l := range pubs {
		for _, p := range l {
			if q, dup := byVer[p.ver]; dup {
				env.Fail("version-reused", "two publishes returned version %d: %+v and %+v", p.ver, p, q)
			}
			if p.took != 0 {
				env.Fail("publisher-blocked", "Publish took %v of simulated time", p.took)
			}
			byVer[p.ver] = p
			order = append(order, p.ver)
		}
	}
	slices.Sort(order)
	for i := range order {
		for j := i + 1; j < len(order); j++ {
			if byVer[order[j]].ret < byVer[order[i]].call {
				env.Fail("version-order", "a publish that finished before another began got the higher version: %+v, %+v", byVer[order[j]], byVer[order[i]])
			}
		}
	}
	env.Ops(len(order))
	var missed int64
	exact := true
	nsubs := 0
	for t := range subs {
		for k, s := range subs[t] {
			nsubs++
			name := fmt.Sprintf("subscriber %d.%d", t, k)
			var last uint64
			have := map[uint64]int{}
			for i, g := range s.got {
				if g.evt.Version <= last {
					env.Fail("version-order", "%s received version %d after %d", name, g.evt.Version, last)
				}
				last = g.evt.Version
				p, ok := byVer[g.evt.Version]
				if !ok {
					env.Fail("unknown-event", "%s received version %d, which no publish returned", name, g.evt.Version)
				}
				if p.typ != g.evt.Type || g.evt.Payload != any(p.payload) {
					env.Fail("altered-event", "%s received %+v for publish %+v", name, g.evt, p)
				}
				if g.evt.Timestamp.IsZero() {
					env.Fail("no-timestamp", "%s received version %d without a timestamp", name, g.evt.Version)
				}
				if p.ret < s.subCall {
					env.Fail("replayed", "%s received version %d published before it subscribed", name, p.ver)
				}
				if p.call > s.leaveRe && s.how != "cancel" {
					env.Fail("after-unsubscribe", "%s received version %d published after it unsubscribed", name, p.ver)
				}
				have[g.evt.Version] = i
			}
			// Which events had to arrive?
			var must []uint64
			maybe := 0
			for _, v := range order {
				p := byVer[v]
				switch {
				case p.call > s.subRet && p.ret < s.leaveCall:
					must = append(must, v)
				case p.ret < s.subCall || (p.call > s.leaveRe && s.how != "cancel"):
				default:
					maybe++
				}
			}
			if maybe > 0 {
				exact = false
			}
			for _, v := range must {
				if _, ok := have[v]; ok {
					continue
				}
				missed++
				// A drop is allowed only while the buffer is full: the events
				// enqueued before it and not yet consumed must fill it.
				pending := 0
				for _, g := range s.got {
					if g.evt.Version < v && g.at > byVer[v].call {
						pending++
					}
				}
				if pending < s.capacity {
					env.Fail("lost-event", "%s never received version %d although at most %d of its %d buffer slots were taken", name, v, pending, s.capacity)
				}
				env.Probe("drop")
			}
			if !s.closed {
				env.Fail("never-closed", "%s: channel not closed", name)
			}
			env.Observe(fmt.Sprint(name, len(s.got), last, s.how))
		}
	}
	if exact && int64(dropped) != missed {
		env.Fail("drop-count", "Dropped() = %d, but subscribers missed %d events", dropped, missed)
	}
	if int64(dropped) < missed {
		env.Fail("drop-count", "Dropped() = %d, but subscribers missed at least %d events", dropped, missed)
	}
	if len(order) > 1 && nsubs > 0 {
		env.Nontrivial()
	}
}
