package main

import (
	"context"
	"fmt"
	"net/http"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/pkg/client"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// A topology run: the cluster's membership changes (joins, leaves, deaths,
// replacements of every node but the seeds), nodes fail in every way, while the
// client refreshes in the background, refreshes on demand, serves commands, and
// is closed by several goroutines. Afterwards the faults stop and the client
// has a bounded time to be right again.

func init() {
	simkit.Register(&simkit.Scenario{Name: "topology", Gen: func(r *simkit.Rand, _ string) *simkit.Plan { return genTopo(r, false) }, Exec: execTopo, Gaps: []uint64{0, 16, 64, 256, 1024}})
	simkit.Register(&simkit.Scenario{Name: "topology-race", Gen: func(r *simkit.Rand, _ string) *simkit.Plan { return genTopo(r, true) }, Exec: execTopo, Gaps: []uint64{0, 8, 16, 64, 256}})
}

func genTopo(r *simkit.Rand, quiet bool) *simkit.Plan {
	nodes := r.I(2, 6)
	seeds := r.I(1, min(nodes, 3))
	p := &simkit.Plan{P: map[string]int64{
		"nodes": int64(nodes), "seeds": int64(seeds), "inject": int64(r.N(3)),
		"interval": int64(simkit.Pick(r, 0, 1000, 1000, 1500, 3000, 10000)),
	}, Rates: map[string]int64{}}
	if !quiet && r.P(4, 5) {
		for _, k := range []string{"http-5xx", "http-503", "http-cut", "http-garbage", "http-slow", "net-refuse", "net-reset", "net-delay", "members-garbage", "members-empty", "http-4xx"} {
			if r.P(1, 3) {
				p.Rates[k] = int64(r.I(100, 3000))
			}
		}
	}
	manual := r.I(0, 2)
	if p.P["interval"] == 0 {
		manual = max(manual, 1)
	}
	for range manual {
		var ops []simkit.Op
		for range r.I(1, 8) {
			ops = append(ops, simkit.Op{K: simkit.Pick(r, "refresh", "refresh", "endpoints", "get", "sleep"), A: int64(r.I(1, 3000))})
		}
		p.Threads = append(p.Threads, ops)
	}
	var ops []simkit.Op
	for range r.I(1, 10) {
		ops = append(ops, simkit.Op{K: simkit.Pick(r, "join", "leave", "dead", "suspect", "crash", "hang", "heal", "replace", "weird"), A: int64(r.N(nodes))})
		if r.P(2, 3) {
			ops = append(ops, simkit.Op{K: "sleep", A: int64(r.I(1, 4000))})
		}
		if r.P(1, 4) {
			ops = append(ops, simkit.Op{K: "endpoints"})
		}
	}
	if quiet {
		for i := range ops {
			if slices.Contains([]string{"crash", "hang"}, ops[i].K) {
				ops[i].K = "dead"
			}
		}
	}
	p.Threads = append(p.Threads, ops)
	if r.P(1, 2) {
		for range r.I(1, 3) {
			p.Threads = append(p.Threads, []simkit.Op{{K: "sleep", A: int64(r.I(1, 9000))}, {K: "close"}, {K: "endpoints"}, {K: "close"}})
		}
	}

	return p
}

type topoWorld struct {
	*world
	mu    sync.Mutex
	rows  map[int]string // node -> state
	weird bool
}

func (w *topoWorld) members(env *simkit.Env, f *fleet) ([]memberRow, bool) {
	var rows []memberRow
	w.mu.Lock()
	weird := w.weird
	var ids []int
	for i := range w.rows {
		ids = append(ids, i)
	}
	slices.Sort(ids)
	for _, i := range ids {
		a := f.addrs[i]
		if weird {
			switch i % 4 {
			case 0:
				a = "http://" + a + "/"
			case 1:
				a = " " + a + " "
			}
		}
		rows = append(rows, memberRow{fmt.Sprintf("n%d", i), a, w.rows[i]})
	}
	w.mu.Unlock()
	if weird {
		rows = append(rows, memberRow{"blank", "", "alive"}, memberRow{"gone", "10.0.0.99:1", "dead"})
	}
	if ok, _ := env.Fault("members-empty", "m"); ok {
		if len(rows)%2 == 0 {
			return nil, false
		}
		for i := range rows {
			rows[i].State = "dead"
		}
	}
	if ok, _ := env.Fault("members-garbage", "m"); ok {
		return rows, true
	}

	return rows, false
}

func execTopo(env *simkit.Env) {
	n := max(env.PI("nodes"), 1)
	ns := min(max(env.PI("seeds"), 1), n)
	var seeds []string
	for i := range ns {
		seeds = append(seeds, fmt.Sprintf("http://10.0.0.%d:8080", i+1))
	}
	interval := time.Duration(env.P("interval")) * time.Millisecond
	var opts []client.Option
	if interval > 0 {
		if interval < time.Second {
			if _, err := client.New(seeds, client.WithTopologyRefresh(interval)); err == nil {
				env.Fail("interval-floor", "a refresh interval of %v was accepted", interval)
			}
			interval = time.Second
		}
		opts = append(opts, client.WithTopologyRefresh(interval))
	}
	tw := &topoWorld{rows: map[int]string{}}
	for i := range n {
		tw.rows[i] = "alive"
	}
	tw.world = setupTopo(env, n, seeds, func(f *fleet) {
		f.members = func() ([]memberRow, bool) { return tw.members(env, f) }
	}, opts...)
	w := tw.world
	type note struct {
		class, msg string
	}
	notes := make([]note, len(env.Plan.Threads))
	type snap struct {
		view      []string
		call, ret int64
	}
	snaps := make([][]snap, len(env.Plan.Threads))
	closeRet := make([]int64, len(env.Plan.Threads))
	solo := interval == 0 // then, with one refreshing thread, the view is exact
	refreshers := 0
	for _, ops := range env.Plan.Threads {
		for _, op := range ops {
			if op.K == "refresh" {
				refreshers++

				break
			}
		}
	}
	refreshes := make([]int, len(env.Plan.Threads))
	env.Par(func(t int, ops []simkit.Op) {
		look := func() []string {
			call := simkit.Seq()
			v := w.c.Endpoints()
			snaps[t] = append(snaps[t], snap{slices.Clone(v), call, simkit.Seq()})
			for i := range v { // the caller may do with its copy as it likes
				v[i] = "http://scribbled"
			}

			return snaps[t][len(snaps[t])-1].view
		}
		for i, op := range ops {
			node := int(op.A) % n
			switch op.K {
			case "sleep":
				time.Sleep(time.Duration(op.A) * time.Millisecond)
			case "endpoints":
				look()
			case "close":
				t0 := env.Now()
				if err := w.c.Close(); err != nil {
					notes[t] = note{"close-error", err.Error()}
				}
				// A tick that is already due may win against the stop signal,
				// each time with probability one half.
				if d := env.Now() - t0; d > 40*interval+2*time.Second {
					notes[t] = note{"close-hang", fmt.Sprintf("Close took %v with a refresh interval of %v", d, interval)}
				}
				if closeRet[t] == 0 {
					closeRet[t] = simkit.Seq()
				}
			case "refresh":
				op := fmt.Sprintf("r%d.%d", t, i)
				ctx, cancel := context.WithTimeout(context.WithValue(context.Background(), opKey{}, op), 20*time.Second)
				before := w.c.Endpoints()
				err := w.c.RefreshTopology(ctx)
				cancel()
				refreshes[t]++
				after := look()
				if !solo || refreshers != 1 {
					continue
				}
				atts := w.sh.of(op)
				if len(atts) == 0 {
					notes[t] = note{"no-attempt", "RefreshTopology asked nobody"}

					continue
				}
				last := atts[len(atts)-1]
				s := w.f.find(last.op, last.n)
				good := last.netErr == nil && last.status == 200 && s != nil && last.bodyErr == nil && string(last.body) == string(s.raw) && !s.badBody
				switch {
				case err == nil && !good && last.readAll:
					notes[t] = note{"false-refresh", fmt.Sprintf("RefreshTopology succeeded on a broken answer\n%s", w.describe(atts))}
				case err != nil && good:
					notes[t] = note{"refresh-lost", fmt.Sprintf("RefreshTopology failed on a good answer: %v\n%s", err, w.describe(atts))}
				case err == nil && good && len(s.view) > 0 && !slices.Equal(after, s.view):
					notes[t] = note{"wrong-view", fmt.Sprintf("view %v, the members answer projects to %v", after, s.view)}
				case (err != nil || good && len(s.view) == 0) && !slices.Equal(before, after):
					notes[t] = note{"view-lost", fmt.Sprintf("a refresh that learned nothing changed the view from %v to %v (%v)", before, after, err)}
				}
			case "get":
				ctx := context.WithValue(context.Background(), opKey{}, fmt.Sprintf("g%d.%d", t, i))
				ctx, cancel := context.WithTimeout(ctx, 15*time.Second)
				w.c.Get(ctx, "k")
				cancel()
			case "crash", "hang", "heal":
				w.f.set(op.K, node)
			case "weird":
				tw.mu.Lock()
				tw.weird = !tw.weird
				tw.mu.Unlock()
			case "join", "leave", "dead", "suspect", "replace":
				tw.mu.Lock()
				switch op.K {
				case "join":
					tw.rows[node] = "alive"
				case "leave":
					delete(tw.rows, node)
				case "dead":
					tw.rows[node] = "dead"
				case "suspect":
					tw.rows[node] = "suspect"
				case "replace": // a rolling replacement: only the nodes from here on stay members
					tw.rows = map[int]string{}
					for j := node; j < n; j++ {
						tw.rows[j] = "alive"
					}
				}
				tw.mu.Unlock()
			}
		}
	})
	for t := range notes {
		if notes[t].class != "" {
			env.Fail(notes[t].class, "%s", notes[t].msg)
		}
	}
	var closedAt int64
	for _, c := range closeRet {
		if c != 0 && (closedAt == 0 || c < closedAt) {
			closedAt = c
		}
	}
	// Faults stop: every node is healthy, at least one seed is a member.
	env.StopFaults()
	tw.mu.Lock()
	tw.weird = false
	live := false
	for _, st := range tw.rows {
		live = live || st != "dead"
	}
	if !live || len(tw.rows)%2 == 0 {
		tw.rows[0] = "alive"
	}
	want := []string{}
	for i := range n {
		if st, ok := tw.rows[i]; ok && st != "dead" {
			want = append(want, "http://"+w.f.addrs[i])
		}
	}
	tw.mu.Unlock()
	for i := range n {
		if i < ns || slices.Contains(want, "http://"+w.f.addrs[i]) {
			w.f.set("heal", i)
		} else {
			w.f.set("crash", i) // not a member any more: it is gone
		}
	}
	healed := env.Now()
	if interval > 0 && closedAt == 0 {
		time.Sleep(4*interval + 30*time.Second)
		got := w.c.Endpoints()
		if !sameSet(got, want) {
			env.Fail("no-convergence", "%v after the faults stopped (refresh interval %v) the view is %v, the members are %v; seeds %v\n%s", env.Now()-healed, interval, got, want, seeds, w.describe(w.sh.of("")))
		}
		env.Probe("converged")
	} else {
		ctx, cancel := context.WithTimeout(context.WithValue(context.Background(), opKey{}, "final"), 2*time.Minute)
		err := w.c.RefreshTopology(ctx)
		cancel()
		if err != nil {
			env.Fail("no-recovery", "with every seed healthy a refresh fails: %v\n%s", err, w.describe(w.sh.of("final")))
		}
		if got := w.c.Endpoints(); !sameSet(got, want) {
			env.Fail("no-convergence", "after a refresh on a healthy cluster the view is %v, the members are %v", got, want)
		}
	}
	ctx, cancel := context.WithTimeout(context.WithValue(context.Background(), opKey{}, "last"), 2*time.Minute)
	if err := w.c.Set(ctx, "k", []byte("v"), 0); err != nil {
		env.Fail("no-recovery", "on a healthy cluster a command fails: %v\n%s", err, w.describe(w.sh.of("last")))
	}
	cancel()
	if interval > 0 && closedAt == 0 {
		// The loop keeps its cadence.
		a := countMembers(w)
		time.Sleep(10 * interval)
		if k := countMembers(w) - a; k < 9 || k > 11 {
			env.Fail("cadence", "%d refreshes in 10 intervals of %v on a healthy cluster", k, interval)
		}
	}
	if err := w.c.Close(); err != nil {
		env.Fail("close-error", "%v", err)
	}
	if closedAt == 0 {
		closedAt = simkit.Seq()
	}
	time.Sleep(5*interval + time.Second)
	if err := w.c.Set(context.WithValue(context.Background(), opKey{}, "afterclose"), "k", []byte("v"), 0); err != nil {
		env.Fail("closed-command", "a command after Close fails: %v", err)
	}
	for _, a := range w.sh.all {
		env.Observe(fmt.Sprint(a.endpoint, a.status, a.netErr != nil, a.op))
		if a.op == "" && strings.HasSuffix(a.url, "/cluster/members") && a.seq > closedAt {
			env.Fail("refresh-after-close", "the refresh loop sent %s %s at %v, after Close had returned", a.method, a.url, a.start)
		}
	}
	// Every snapshot is the seeds or one whole answer, and holds no dead member.
	for t := range snaps {
		for _, s := range snaps[t] {
			ok := slices.Equal(s.view, seeds)
			for _, l := range w.f.log {
				if l.hasView && l.seq < s.ret && slices.Equal(l.view, s.view) {
					ok = true
				}
			}
			if !ok {
				env.Fail("invented-view", "Endpoints() returned %v: neither the seeds nor what any members answer listed", s.view)
			}
		}
		env.Observe(fmt.Sprint(len(snaps[t])))
	}
	env.Ops(len(w.sh.all))
	if len(w.sh.all) > 1 {
		env.Nontrivial()
	}
	w.teardown()
}

func countMembers(w *world) int {
	n := 0
	w.sh.mu.Lock()
	for _, a := range w.sh.all {
		if a.op == "" && a.status == http.StatusOK && strings.HasSuffix(a.url, "/cluster/members") {
			n++
		}
	}
	w.sh.mu.Unlock()

	return n
}
