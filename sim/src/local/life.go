package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/pkg/backend"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// "pool": the worker pool runs every accepted job exactly once, with as many
// workers as it was last told to have, until it is shut down.
// "life": a cache may be stopped at any moment, by anyone, any number of times.

func init() {
	simkit.Register(&simkit.Scenario{Name: "pool", Gen: genPool, Exec: execPool})
	simkit.Register(&simkit.Scenario{Name: "life", Gen: genLife, Exec: execLife})
}

func genPool(r *simkit.Rand, tier string) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{"workers": int64(r.I(1, 4)), "reader": int64(r.N(2)), "early_stop": int64(r.N(2))}}
	for range r.I(1, 4) {
		var ops []simkit.Op
		for range r.I(1, 10) {
			k := []string{"job", "slow", "fail", "resize", "sleep", "stop"}[r.PickW(8, 3, 5, 4, 1, 1)]
			op := simkit.Op{K: k, A: int64(r.I(1, 5)), B: int64(r.N(3))}
			if k == "stop" && p.P["early_stop"] == 0 {
				op.K = "job"
			}
			ops = append(ops, op)
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

type jobRec struct {
	ran        int
	start, end int64
	enq, ret   int64
	err        error
}

func execPool(env *simkit.Env) {
	pool := hypercache.NewWorkerPool(max(1, env.PI("workers")))
	jobs := make([][]*jobRec, len(env.Plan.Threads)+1)
	stopCall, stopRet := forever, forever // first Shutdown called, first Shutdown returned
	var mu sync.Mutex
	received := map[error]int{}
	readerDone := make(chan struct{})
	if env.P("reader") == 1 {
		go func() {
			defer close(readerDone)
			for err := range pool.Errors() {
				mu.Lock()
				received[err]++
				mu.Unlock()
			}
		}()
	} else {
		close(readerDone)
	}
	enqueue := func(t int, d time.Duration, fail bool) *jobRec {
		j := &jobRec{enq: simkit.Seq()}
		if fail {
			j.err = fmt.Errorf("job %d of thread %d failed", len(jobs[t]), t)
		}
		jobs[t] = append(jobs[t], j)
		pool.Enqueue(func() error {
			mu.Lock()
			j.ran++
			j.start = simkit.Seq()
			if j.ran > 1 {
				env.Fail("job-twice", "a job ran %d times", j.ran)
			}
			mu.Unlock()
			if d > 0 {
				time.Sleep(d)
			}
			mu.Lock()
			j.end = simkit.Seq()
			mu.Unlock()

			return j.err
		})
		j.ret = simkit.Seq()

		return j
	}
	shutdown := func() {
		mu.Lock()
		stopCall = min(stopCall, simkit.Seq())
		mu.Unlock()
		pool.Shutdown()
		mu.Lock()
		stopRet = min(stopRet, simkit.Seq())
		mu.Unlock()
	}
	env.Par(func(t int, ops []simkit.Op) {
		for _, op := range ops {
			switch op.K {
			case "job":
				enqueue(t, 0, false)
			case "slow":
				enqueue(t, time.Duration(op.A)*time.Millisecond, false)
			case "fail":
				enqueue(t, time.Duration(op.B)*time.Millisecond, true)
			case "resize":
				pool.Resize(max(1, int(op.A)))
				env.Probe("resized")
			case "sleep":
				time.Sleep(time.Duration(op.A) * time.Millisecond)
			case "stop":
				shutdown()
			}
			env.Ops(1)
		}
	})
	last := len(jobs) - 1
	if stopCall == forever {
		time.Sleep(time.Hour) // everything accepted finishes by itself
		mu.Lock()
		for t := range jobs {
			for i, j := range jobs[t] {
				if j.ran != 1 || j.end == 0 {
					env.Fail("job-lost", "job %d of thread %d ran %d times (finished: %v) in a pool left alone for an hour", i, t, j.ran, j.end != 0)
				}
			}
		}
		mu.Unlock()
		// As many workers as asked for: n jobs overlap, n+1 do not.
		for _, n := range []int{3, 1, max(1, env.PI("workers"))} {
			pool.Resize(n)
			time.Sleep(time.Minute)
			began := env.Now()
			var ends []time.Duration
			var wg sync.WaitGroup
			for range 2 * n {
				wg.Add(1)
				pool.Enqueue(func() error {
					defer wg.Done()
					time.Sleep(time.Second)
					mu.Lock()
					ends = append(ends, env.Now()-began)
					mu.Unlock()

					return nil
				})
			}
			wg.Wait()
			for i, e := range ends {
				want := time.Duration(i/n+1) * time.Second
				if e != want {
					env.Fail("wrong-workers", "resized to %d workers, the %d-th one-second job was done after %v (expected %v)", n, i+1, e, want)
				}
			}
		}
	}
	for range 2 { // and once more, to no effect
		shutdown()
	}
	mu.Lock()
	stopped := simkit.Seq()
	mu.Unlock()
	enqueue(last, 0, false)
	pool.Resize(3)
	time.Sleep(time.Hour)
	<-readerDone
	mu.Lock()
	defer mu.Unlock()
	if j := jobs[last][len(jobs[last])-1]; j.ran != 0 {
		env.Fail("job-after-stop", "a job enqueued after Shutdown returned ran")
	}
	want := map[error]int{}
	for t := range jobs {
		for i, j := range jobs[t] {
			if j.ret < stopCall && j.ran != 1 {
				env.Fail("job-lost", "job %d of thread %d, accepted before Shutdown, ran %d times", i, t, j.ran)
			}
			if j.start > stopped {
				env.Fail("job-after-stop", "job %d of thread %d started after Shutdown returned", i, t)
			}
			if j.ran > 0 && j.end > stopRet && stopRet != forever && j.ret < stopCall && len(env.Plan.Threads) == 1 {
				env.Fail("job-after-stop", "job %d of thread %d was still running when Shutdown returned", i, t)
			}
			if j.ran > 0 && j.err != nil {
				want[j.err]++
			}
		}
	}
	for err, n := range received {
		if want[err] < n {
			env.Fail("error-invented", "error %q was delivered %d times", err, n)
		}
	}
	if env.P("reader") == 0 {
		n := 0
		for err := range pool.Errors() { // closed: ends
			n++
			if want[err] == 0 {
				env.Fail("error-invented", "error %q was delivered", err)
			}
		}
		if n == 0 && len(want) > 0 {
			env.Fail("error-lost", "%d jobs failed and no error was kept", len(want))
		}
	} else if len(received) == 0 && len(want) > 0 {
		env.Fail("error-lost", "%d jobs failed and no error was delivered", len(want))
	}
	total := 0
	for t := range jobs {
		total += len(jobs[t])
	}
	env.Observe(fmt.Sprint(total, len(want), len(received)))
	if total > 2 {
		env.Nontrivial()
	}
}

func genLife(r *simkit.Rand, tier string) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{
		"algo": int64(r.N(4)), "cap": int64(r.N(6)), "keys": int64(r.I(1, 8)), "shards": simkit.Pick(r, int64(1), 32),
		"evict_ms": simkit.Pick(r, int64(0), 1, 5), "expire_ms": simkit.Pick(r, int64(0), 1, 4), "debounce_ms": simkit.Pick(r, int64(0), 2),
		"cancel": int64(r.N(3)), "trigger_buf": simkit.Pick(r, int64(0), 1),
	}}
	for range r.I(2, 5) {
		var ops []simkit.Op
		for range r.I(1, 10) {
			k := []string{"set", "get", "getorset", "remove", "clear", "capacity", "evict", "expire", "sleep", "stop", "count", "stats"}[r.PickW(8, 4, 2, 2, 1, 2, 2, 2, 3, 3, 1, 1)]
			ops = append(ops, simkit.Op{K: k, A: int64(r.N(int(p.P["keys"]))), B: int64(r.N(8))})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

// idle checks that nothing reclaims what is written from now on: items past
// their lifetime or beyond the capacity stay, since no loop runs any more. With
// an eviction interval of zero every Set evicts by itself.
func idle(env *simkit.Env, hc *hyper, how string) {
	ctx := context.Background()
	hc.SetCapacity(ctx, 3)
	time.Sleep(10 * time.Millisecond)
	was := hc.Count(ctx)
	for i := range 5 {
		if err := hc.Set(ctx, fmt.Sprint(how, i), "x", 50*time.Millisecond); err != nil {
			env.Fail("set-failed", "Set: %v", err)
		}
	}
	time.Sleep(10 * time.Millisecond)
	wrote := hc.Count(ctx)
	time.Sleep(time.Second)
	left := hc.Count(ctx)
	if env.P("evict_ms") > 0 && wrote != was+5 {
		env.Fail("loop-runs", "%s: %d items and 5 more are %d", how, was, wrote)
	}
	if left != wrote {
		env.Fail("loop-runs", "%s: %d of %d items left a second later", how, left, wrote)
	}
}

func execLife(env *simkit.Env) {
	parent, cancel := context.WithCancel(context.Background())
	defer cancel()
	ctx := context.Background()
	// what a canceled cache that never evicts by itself keeps
	base, keeps := runtime.NumGoroutine(), 0
	if env.P("cancel") == 1 {
		none, end := context.WithCancel(ctx)
		other, err := newCacheCtx(none, env, hypercache.WithEvictionInterval[backend.InMemory](0))
		if err != nil {
			env.Fail("setup", "New: %v", err)
		}
		end()
		time.Sleep(20 * time.Millisecond)
		keeps = runtime.NumGoroutine() - base
		if err := other.Stop(ctx); err != nil {
			env.Fail("stop-failed", "Stop: %v", err)
		}
		time.Sleep(time.Millisecond)
		base = runtime.NumGoroutine()
	}
	hc, err := newCacheCtx(parent, env)
	if err != nil {
		env.Fail("setup", "New: %v", err)
	}
	stops := 0
	stop := func() {
		began := env.Now()
		if err := hc.Stop(ctx); err != nil {
			env.Fail("stop-failed", "Stop: %v", err)
		}
		if d := env.Now() - began; d > time.Second {
			env.Fail("stop-slow", "Stop took %v", d)
		}
	}
	one := func(t, i int, op simkit.Op) {
		k := key(op.A)
		began := env.Now()
		switch op.K {
		case "set":
			if err := hc.Set(ctx, k, makeVal(k, int64(t*1000+i), 0, 0), time.Duration(op.B)*time.Millisecond); err != nil {
				env.Fail("set-failed", "Set: %v", err)
			}
		case "get":
			if v, ok := hc.Get(ctx, k); ok {
				if q, _ := readVal(v); q != k {
					env.Fail("wrong-item", "Get(%s) returned a value of %s", k, q)
				}
			}
		case "getorset":
			_, _ = hc.GetOrSet(ctx, k, makeVal(k, int64(t*1000+i), 0, 0), 0)
		case "remove":
			if err := hc.Remove(ctx, k); err != nil {
				env.Fail("remove-failed", "Remove: %v", err)
			}
		case "clear":
			if err := hc.Clear(ctx); err != nil {
				env.Fail("clear-failed", "Clear: %v", err)
			}
		case "capacity":
			hc.SetCapacity(ctx, int(op.B))
		case "evict":
			hc.TriggerEviction(ctx)
		case "expire":
			hc.TriggerExpiration()
		case "count":
			hc.Count(ctx)
			hc.Allocation()
		case "stats":
			hc.GetStats()
		}
		if d := env.Now() - began; d > 0 && op.K != "sleep" {
			env.Fail("blocked", "%s waited %v", op.K, d)
		}
	}
	var mu sync.Mutex
	env.Par(func(t int, ops []simkit.Op) {
		for i, op := range ops {
			switch op.K {
			case "sleep":
				time.Sleep(time.Duration(op.B) * time.Millisecond)
			case "stop":
				stop()
				mu.Lock()
				stops++
				mu.Unlock()
			default:
				one(t, i, op)
			}
			env.Ops(1)
		}
	})
	if stops > 1 {
		env.Nontrivial()
		env.Probe("stopped-repeatedly")
	}
	if env.P("cancel") == 1 { // the parent context alone ends the loops
		cancel()
		time.Sleep(20 * time.Millisecond)
		if n := runtime.NumGoroutine() - base; n > keeps {
			env.Fail("loop-runs", "%d goroutines of a canceled cache run, %d without an eviction loop", n, keeps)
		}
		idle(env, hc, "canceled")
	}
	stop()
	// A stopped cache is still safe to use; it does not reclaim any more.
	for i, k := range []string{"set", "get", "expire", "evict", "capacity", "remove", "clear", "getorset"} {
		one(99, i, simkit.Op{K: k, A: int64(i % 3), B: 1})
	}
	time.Sleep(time.Second)
	idle(env, hc, "stopped")
	_ = hc.Set(ctx, "after", "after|1|", 0)
	if v, ok := hc.Get(ctx, "after"); ok && v != "after|1|" {
		env.Fail("wrong-item", "Get after Stop: %v", v)
	}
	stop()
	env.Observe(fmt.Sprint(stops))
	if ctx.Err() != nil || errors.Is(parent.Err(), context.DeadlineExceeded) {
		env.Fail("setup", "context ended")
	}
	// Whatever still runs when this returns is reported as a leak.
}
