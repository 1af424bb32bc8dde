package main

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// Memory accounting: what the cache says it holds is what it holds, a limit is
// never exceeded, and a write that fits is never refused.

func init() {
	simkit.Register(&simkit.Scenario{Name: "memory", Gen: genMemory, Exec: execMemory, After: afterMemory})
}

func genMemory(r *simkit.Rand, tier string) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{
		"algo": int64(r.N(4)), "keys": int64(r.I(1, 8)), "shards": simkit.Pick(r, int64(1), 4, 32),
		"max_size": simkit.Pick(r, int64(0), 40, 90, 200, 1000), "big": int64(r.I(1, 60)), "phases": int64(r.I(1, 3)),
	}}
	kinds := []string{"set", "getorset", "get", "remove", "clear", "sleep", "list"}
	weights := []int{14, 3, 3, 5, 1, 2, 2}
	if r.P(1, 2) { // with eviction and expiration
		p.P["lossy"], p.P["cap"] = 1, simkit.Pick(r, int64(0), 1, 3, 6)
		p.P["evict_ms"], p.P["expire_ms"] = simkit.Pick(r, int64(0), 5), simkit.Pick(r, int64(0), 4, 9)
		p.P["max_evict"] = simkit.Pick(r, int64(0), 1)
		kinds = append(kinds, "trigger", "expire", "capacity")
		weights = append(weights, 1, 2, 1)
	}
	for range r.I(1, 4) {
		var ops []simkit.Op
		for range r.I(2, 16) {
			op := simkit.Op{K: kinds[r.PickW(weights...)], A: int64(r.N(int(p.P["keys"]))), B: int64(r.N(4)), C: int64(r.N(int(p.P["big"]) + 1))}
			if p.P["lossy"] == 1 && r.P(1, 3) {
				op.S = "ttl"
			}
			ops = append(ops, op)
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

// memEv is one write, removal or refusal with the size it concerned.
type memEv struct {
	op, key   string
	size      int64
	call, ret int64
	refused   bool
}

type memLog struct {
	th [][]memEv
}

func execMemory(env *simkit.Env) {
	hc, err := newCache(env)
	if err != nil {
		env.Fail("setup", "New: %v", err)
	}
	ctx := context.Background()
	limit := env.P("max_size")
	log := &memLog{th: make([][]memEv, len(env.Plan.Threads))}
	env.Data = log
	write := func(t, i int, op simkit.Op) {
		k := key(op.A)
		v := makeVal(k, int64(t+1)*1000+int64(i), op.B, op.C)
		size := trueSize(v)
		var ttl time.Duration
		if op.S == "ttl" {
			ttl = time.Duration(op.C%12+1) * time.Millisecond
		}
		var err error
		c := simkit.Seq()
		if op.K == "set" {
			err = hc.Set(ctx, k, v, ttl)
		} else {
			var got any
			got, err = hc.GetOrSet(ctx, k, v, ttl)
			if err == nil {
				if _, n := readVal(got); n != int64(t+1)*1000+int64(i) {
					return // found
				}
			}
			if errors.Is(err, sentinel.ErrKeyExpired) {
				return
			}
		}
		e := memEv{op: "set", key: k, size: size, call: c, ret: simkit.Seq(), refused: err != nil}
		if err != nil {
			if !errors.Is(err, sentinel.ErrCacheFull) || limit == 0 {
				env.Fail("refused", "writing %d bytes with limit %d: %v", size, limit, err)
			}
			env.Probe("refused")
		}
		log.th[t] = append(log.th[t], e)
	}
	phases := max(1, env.PI("phases"))
	for ph := range phases {
		var wg sync.WaitGroup
		for t, all := range env.Plan.Threads {
			ops := all[len(all)*ph/phases : len(all)*(ph+1)/phases]
			if len(ops) == 0 {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, op := range ops {
					k := key(op.A)
					switch op.K {
					case "set", "getorset":
						write(t, ph*100+i, op)
					case "get":
						hc.Get(ctx, k)
					case "remove":
						c := simkit.Seq()
						if err := hc.Remove(ctx, k); err != nil {
							env.Fail("remove-failed", "Remove: %v", err)
						}
						log.th[t] = append(log.th[t], memEv{op: "remove", key: k, call: c, ret: simkit.Seq()})
					case "clear":
						c := simkit.Seq()
						if err := hc.Clear(ctx); err != nil {
							env.Fail("clear-failed", "Clear: %v", err)
						}
						log.th[t] = append(log.th[t], memEv{op: "clear", call: c, ret: simkit.Seq()})
					case "list":
						if a := hc.Allocation(); a < 0 {
							env.Fail("negative", "Allocation() = %d", a)
						}
					case "sleep":
						time.Sleep(time.Duration(op.C) * time.Millisecond)
					case "trigger":
						hc.TriggerEviction(ctx)
					case "expire":
						hc.TriggerExpiration()
					case "capacity":
						hc.SetCapacity(ctx, int(op.C%7))
					}
					env.Ops(1)
				}
			}()
		}
		wg.Wait()
		time.Sleep(time.Nanosecond) // background removals finish
		items, err := hc.List(ctx)
		if err != nil {
			env.Fail("list-failed", "List: %v", err)
		}
		var sum int64
		for _, it := range items {
			itemOK(env, it.Key, it)
			sum += it.Size
		}
		if a := hc.Allocation(); a != sum {
			env.Fail("misaccounted", "phase %d at rest: Allocation() = %d, the %d items stored weigh %d", ph, a, len(items), sum)
		}
		if limit > 0 && sum > limit {
			env.Fail("over-limit", "the items stored weigh %d, the limit is %d", sum, limit)
		}
		if n := hc.Count(ctx); n != len(items) {
			env.Fail("miscounted", "Count() = %d with %d items stored", n, len(items))
		}
		env.Observe(fmt.Sprint(sum, len(items)))
		if len(items) > 1 {
			env.Nontrivial()
		}
		// One client alone: what fits is accepted, what does not is refused.
		if limit > 0 && ph == phases-1 {
			free := limit - sum
			probe := func(n int64, fits bool) {
				if n < 0 {
					return
				}
				err := hc.Set(ctx, "probe", string(make([]byte, n)), 0)
				if fits && err != nil {
					env.Fail("refused", "writing %d bytes into a cache holding %d of %d at rest: %v", n, sum, limit, err)
				}
				if !fits && !errors.Is(err, sentinel.ErrCacheFull) {
					env.Fail("over-limit", "writing %d bytes into a cache holding %d of %d at rest: %v", n, sum, limit, err)
				}
			}
			env.Probe("probed-limit")
			probe(free+1, false)
			if a := hc.Allocation(); a != sum {
				env.Fail("misaccounted", "a refused write moved Allocation() from %d to %d", sum, a)
			}
			if env.P("lossy") == 0 {
				probe(free, true)
				if a := hc.Allocation(); a != limit {
					env.Fail("misaccounted", "after filling up, Allocation() = %d of %d", a, limit)
				}
			}
		}
	}
	if err := hc.Clear(ctx); err != nil {
		env.Fail("clear-failed", "Clear: %v", err)
	}
	time.Sleep(time.Nanosecond)
	if a := hc.Allocation(); a != 0 {
		env.Fail("misaccounted", "Allocation() = %d after Clear", a)
	}
	if err := hc.Stop(ctx); err != nil {
		env.Fail("stop-failed", "Stop: %v", err)
	}
}

// afterMemory decides from the history what must and what may have been stored.
func afterMemory(env *simkit.Env) {
	limit := env.P("max_size")
	if limit == 0 || env.P("lossy") != 0 {
		return
	}
	var all []memEv
	for _, t := range env.Data.(*memLog).th {
		all = append(all, t...)
	}
	touches := func(e memEv, k string) bool { return !e.refused && (e.op == "clear" || e.key == k) }
	for _, at := range all {
		if at.op != "set" {
			continue
		}
		if !at.refused {
			// Surely stored once this write returned: writes nothing could
			// have undone yet.
			var sure int64
			for _, w := range all {
				if w.op != "set" || w.refused || w.ret > at.ret {
					continue
				}
				undone := false
				for _, u := range all {
					if u != w && touches(u, w.key) && u.ret > w.call && u.call < at.ret {
						undone = true

						break
					}
				}
				if !undone {
					sure += w.size
				}
			}
			if sure > limit {
				env.Fail("over-limit", "items weighing at least %d were stored at once, the limit is %d", sure, limit)
			}

			continue
		}
		// Possibly stored (or being written) while this write was refused.
		possible := at.size
		for _, w := range all {
			if w == at || w.op != "set" || w.call > at.ret {
				continue
			}
			if w.refused { // holds a reservation while it is being decided
				if w.ret > at.call {
					possible += w.size
				}

				continue
			}
			gone := false
			for _, u := range all {
				if u != w && touches(u, w.key) && u.call > w.ret && u.ret < at.call {
					gone = true

					break
				}
			}
			if !gone {
				possible += w.size
				if w.ret > at.call { // its reservation and the item itself
					possible += w.size
				}
			}
		}
		if possible <= limit {
			env.Fail("refused", "writing %d bytes was refused, at most %d of %d bytes could have been in use", at.size, possible-at.size, limit)
		}
	}
}
