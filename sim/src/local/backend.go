package main

import (
	"context"
	"errors"
	"time"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
	"github.com/hyp3rd/hypercache/zzsim/listing"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// The in-memory backend by itself: every key is an atomic register, whatever
// other keys and whole-map operations do at the same time.

func init() {
	simkit.Register(&simkit.Scenario{Name: "backend", Gen: genBackend, Exec: execBackend, After: func(env *simkit.Env) {
		env.Data.(*history).check(env, "not-linearizable", false)
	}})
}

func genBackend(r *simkit.Rand, tier string) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{"keys": int64(r.I(1, 4)), "spread": int64(r.N(1000))}}
	for range r.I(2, 4) {
		var ops []simkit.Op
		for range r.I(2, 9) {
			k := int64(r.N(int(p.P["keys"])))
			op := simkit.Op{A: k, B: int64(r.N(4)), C: int64(r.N(4))}
			op.K = []string{"set", "get", "remove", "touch", "list", "count", "clear", "removectx", "removemany", "bad", "sleep"}[r.PickW(9, 9, 5, 3, 2, 2, 1, 1, 1, 1, 1)]
			ops = append(ops, op)
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

func execBackend(env *simkit.Env) {
	b, err := backend.NewInMemory()
	if err != nil {
		env.Fail("setup", "NewInMemory: %v", err)
	}
	ctx := context.Background()
	nk := max(1, env.P("keys"))
	keyOf := func(a int64) string { return key(a%nk + env.P("spread")) }
	h := newHistory(len(env.Plan.Threads) + 1)
	mutations := make([]int, len(env.Plan.Threads))
	env.Par(func(t int, ops []simkit.Op) {
		for i, op := range ops {
			k := keyOf(op.A)
			id := int64(t+1)*1000 + int64(i)
			switch op.K {
			case "set":
				v := makeVal(k, id, op.B, op.C)
				it := &cache.Item{Key: k, Value: v, Size: trueSize(v), LastAccess: time.Now()}
				c := simkit.Seq()
				err := b.Set(ctx, it)
				if err != nil {
					env.Fail("set-refused", "Set(%s) of a valid item: %v", k, err)
				}
				h.add(t, "set", k, id, true, 0, c, simkit.Seq())
				mutations[t]++
			case "bad": // refused writes leave no trace
				it := &cache.Item{Key: k, Value: makeVal(k, id, 0, 0)}
				want := error(nil)
				switch op.B % 3 {
				case 0:
					it.Key, want = " ", sentinel.ErrInvalidKey
				case 1:
					it.Value, want = nil, sentinel.ErrNilValue
				default:
					it.Expiration, want = -1, sentinel.ErrInvalidExpiration
				}
				env.CountFault("refused-write")
				if err := b.Set(ctx, it); !errors.Is(err, want) {
					env.Fail("bad-accepted", "Set of an invalid item: got %v, want %v", err, want)
				}
			case "get":
				c := simkit.Seq()
				it, ok := b.Get(ctx, k)
				ret := simkit.Seq()
				var got int64
				if ok {
					itemOK(env, k, it)
					_, got = readVal(it.Value)
					it.Value, it.Key = "mine", "mine" // the copy is the caller's
				}
				h.add(t, "get", k, 0, ok, got, c, ret)
			case "touch":
				toucher, is := b.(interface {
					Touch(context.Context, string) bool
				})
				if !is {
					continue
				}
				c := simkit.Seq()
				ok := toucher.Touch(ctx, k)
				h.add(t, "has", k, 0, ok, 0, c, simkit.Seq())
			case "remove":
				c := simkit.Seq()
				if err := b.Remove(ctx, k); err != nil {
					env.Fail("remove-failed", "Remove: %v", err)
				}
				h.add(t, "remove", k, 0, true, 0, c, simkit.Seq())
				mutations[t]++
			case "removemany":
				k2 := keyOf(op.B)
				c := simkit.Seq()
				if err := b.Remove(ctx, k, k2); err != nil {
					env.Fail("remove-failed", "Remove: %v", err)
				}
				ret := simkit.Seq()
				h.add(t, "remove", k, 0, true, 0, c, ret)
				// The keys go one after the other, each at an instant of its own,
				// even when it is the same key twice.
				h.add(t, "remove", k2, 0, true, 0, c, ret)
			case "removectx":
				cctx, cancel := context.WithCancel(ctx)
				if op.B%2 == 0 {
					cancel()
				} else {
					go cancel()
				}
				env.CountFault("cancelled-context")
				c := simkit.Seq()
				err := b.Remove(cctx, k)
				ret := simkit.Seq()
				cancel()
				if err != nil {
					if !errors.Is(err, sentinel.ErrTimeoutOrCanceled) {
						env.Fail("remove-failed", "Remove: %v", err)
					}

					break // it removed nothing, and will not
				}
				h.add(t, "remove", k, 0, true, 0, c, ret)
			case "clear":
				cctx, cancel := context.WithCancel(ctx)
				if op.B%4 == 0 {
					env.CountFault("cancelled-context")
					if op.A%2 == 0 {
						cancel()
					} else {
						go cancel()
					}
				}
				c := simkit.Seq()
				err := b.Clear(cctx)
				ret := simkit.Seq()
				cancel()
				if err != nil {
					if op.B%4 != 0 || !errors.Is(err, sentinel.ErrTimeoutOrCanceled) {
						env.Fail("clear-failed", "Clear: %v", err)
					}

					break
				}
				for n := range nk {
					h.add(t, "remove", keyOf(n), 0, true, 0, c, ret)
				}
				mutations[t]++
			case "list":
				how := listing.Of(op.A*16 + op.B*4 + op.C)
				c := simkit.Seq()
				items, err := b.List(ctx, how.Filters...)
				ret := simkit.Seq()
				if (err != nil) != how.Refused() {
					env.Fail("list-failed", "List: %v", err)
				}
				if err != nil {
					break
				}
				if m := how.Judge(items); m != "" {
					env.Fail("bad-listing", "List: %s", m)
				}
				seen := map[string]int64{}
				for _, it := range items {
					if _, dup := seen[it.Key]; dup {
						env.Fail("list-duplicate", "List returned %s twice", it.Key)
					}
					itemOK(env, it.Key, it)
					_, seen[it.Key] = readVal(it.Value)
					it.Value = "mine"
				}
				for n := range nk {
					if !how.Keeps(keyOf(n)) {
						continue
					}
					got, ok := seen[keyOf(n)]
					h.add(t, "get", keyOf(n), 0, ok, got, c, ret)
				}
			case "count":
				if n := b.Count(ctx); n < 0 || int64(n) > nk {
					env.Fail("bad-count", "Count returned %d with only %d keys in use", n, nk)
				}
			case "sleep":
				time.Sleep(time.Millisecond)
			}
			env.Ops(1)
		}
	})
	time.Sleep(time.Millisecond) // cancelled removals finish
	present := int64(0)
	t := len(env.Plan.Threads)
	for n := range nk {
		c := simkit.Seq()
		it, ok := b.Get(ctx, keyOf(n))
		var got int64
		if ok {
			present++
			itemOK(env, keyOf(n), it)
			_, got = readVal(it.Value)
		}
		h.add(t, "get", keyOf(n), 0, ok, got, c, simkit.Seq())
		env.Observe(keyOf(n) + it2s(ok))
	}
	if n := b.Count(ctx); int64(n) != present {
		env.Fail("bad-count", "Count is %d, but %d keys are present and nothing is running", n, present)
	}
	items, err := b.List(ctx)
	if err != nil || int64(len(items)) != present {
		env.Fail("bad-list", "List has %d items (%v), but %d keys are present and nothing is running", len(items), err, present)
	}
	total := 0
	for _, m := range mutations {
		total += m
	}
	if total > 1 {
		env.Nontrivial()
	}
	env.Data = h
}

func it2s(ok bool) string {
	if ok {
		return "+"
	}

	return "-"
}
