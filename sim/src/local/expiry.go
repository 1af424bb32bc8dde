package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// Expiration: every client owns its keys, so each key's life is known exactly;
// all share the cache and its background removal. Time is virtual.

func init() {
	simkit.Register(&simkit.Scenario{Name: "expiry", Gen: genExpiry, Exec: execExpiry})
}

func genExpiry(r *simkit.Rand, tier string) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{
		"algo": int64(r.N(4)), "cap": simkit.Pick(r, int64(0), 1000), "shards": simkit.Pick(r, int64(1), 32), "keys": int64(r.I(1, 4)),
		"expire_ms": simkit.Pick(r, int64(0), 0, 3, 10, 25), "evict_ms": simkit.Pick(r, int64(0), 10),
		"debounce_ms": simkit.Pick(r, int64(0), 0, 2, 8), "trigger_buf": simkit.Pick(r, int64(0), 0, 1, 4),
	}}
	for range r.I(1, 4) {
		var ops []simkit.Op
		for range r.I(2, 18) {
			k := []string{"set", "getorset", "get", "info", "multi", "remove", "list", "trigger", "sleep", "swept"}[r.PickW(10, 3, 6, 2, 2, 1, 2, 2, 8, 2)]
			op := simkit.Op{K: k, A: int64(r.N(int(p.P["keys"]))), B: int64(r.N(4))}
			switch k {
			case "set", "getorset":
				op.C = simkit.Pick(r, int64(0), 500, 1000, 2000, 5000, 12000, 30000) // TTL, µs
			case "sleep":
				op.C = simkit.Pick(r, int64(1), 400, 999, 1000, 1001, 2500, 6000, 14000, 40000) // µs
			}
			ops = append(ops, op)
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

// life is what is known of one key.
type life struct {
	id       int64
	ttl      time.Duration
	accessed time.Duration // last write or successful read
	written  bool          // a write was accepted and not removed since
}

// at says whether the key must be alive (+1), must be expired (-1) or is exactly
// on the border (0).
func (l *life) at(now time.Duration) int {
	if !l.written {
		return -1
	}
	if l.ttl == 0 || now-l.accessed < l.ttl {
		return 1
	}
	if now-l.accessed == l.ttl {
		return 0
	}

	return -1
}

func execExpiry(env *simkit.Env) {
	hc, err := newCache(env)
	if err != nil {
		env.Fail("setup", "New: %v", err)
	}
	ctx := context.Background()
	nk := max(1, env.P("keys"))
	interval := time.Duration(env.P("expire_ms")) * time.Millisecond
	debounce := time.Duration(env.P("debounce_ms")) * time.Millisecond
	lives := make([]map[string]*life, len(env.Plan.Threads))
	env.Par(func(t int, ops []simkit.Op) {
		mine := map[string]*life{}
		lives[t] = mine
		for i, op := range ops {
			k := fmt.Sprintf("t%d-%s", t, key(op.A%nk))
			l := mine[k]
			if l == nil {
				l = &life{}
				mine[k] = l
			}
			id := int64(t+1)*1000 + int64(i)
			ttl := time.Duration(op.C) * time.Microsecond
			seen := func(what string, ok bool, got int64, now time.Duration) {
				st := l.at(now)
				if ok && st < 0 {
					env.Fail("expired-returned", "%s(%s) returned a value at %v; %s", what, k, now, l)
				}
				if !ok && st > 0 {
					env.Fail("live-vanished", "%s(%s) found nothing at %v; %s", what, k, now, l)
				}
				if ok && got != l.id {
					env.Fail("wrong-value", "%s(%s) returned write %d; %s", what, k, got, l)
				}
				if ok {
					l.accessed = now
					if l.ttl > 0 {
						env.Nontrivial()
					}
				} else if l.written {
					env.Probe("expired-on-read")
				}
			}
			now := env.Now()
			switch op.K {
			case "set":
				if err := hc.Set(ctx, k, makeVal(k, id, op.B, 3), ttl); err != nil {
					env.Fail("set-failed", "Set(%s, ttl %v): %v", k, ttl, err)
				}
				*l = life{id, ttl, now, true}
			case "getorset":
				v, err := hc.GetOrSet(ctx, k, makeVal(k, id, op.B, 3), ttl)
				switch {
				case errors.Is(err, sentinel.ErrKeyExpired):
					if l.at(now) > 0 {
						env.Fail("live-vanished", "GetOrSet(%s) says expired at %v; %s", k, now, l)
					}
					if !l.written {
						env.Fail("wrong-value", "GetOrSet(%s) says expired; %s", k, l)
					}
				case err != nil:
					env.Fail("set-failed", "GetOrSet(%s): %v", k, err)
				default:
					_, n := readVal(v)
					if n == id {
						if l.at(now) > 0 {
							env.Fail("live-vanished", "GetOrSet(%s) replaced a live value at %v; %s", k, now, l)
						}
						*l = life{id, ttl, now, true}
					} else {
						seen("GetOrSet", true, n, now)
					}
				}
			case "get":
				v, ok := hc.Get(ctx, k)
				n := int64(0)
				if ok {
					_, n = readVal(v)
				}
				seen("Get", ok, n, now)
			case "info":
				it, ok := hc.GetWithInfo(ctx, k)
				n := int64(0)
				if ok {
					itemOK(env, k, it)
					_, n = readVal(it.Value)
					if it.Expiration != l.ttl && n == l.id {
						env.Fail("wrong-ttl", "GetWithInfo(%s).Expiration = %v; %s", k, it.Expiration, l)
					}
				}
				seen("GetWithInfo", ok, n, now)
			case "multi":
				vals, errs := hc.GetMultiple(ctx, k, k+"-never")
				v, ok := vals[k]
				n := int64(0)
				if ok {
					_, n = readVal(v)
				}
				seen("GetMultiple", ok, n, now)
				if _, bad := vals[k+"-never"]; bad || errs[k+"-never"] == nil {
					env.Fail("wrong-value", "GetMultiple made up a value for a key never written")
				}
			case "remove":
				if err := hc.Remove(ctx, k); err != nil {
					env.Fail("remove-failed", "Remove: %v", err)
				}
				*l = life{}
			case "list":
				items, err := hc.List(ctx)
				if err != nil {
					env.Fail("list-failed", "List: %v", err)
				}
				there := map[string]bool{}
				for _, it := range items {
					there[it.Key] = true
				}
				for q, o := range mine {
					if o.at(now) > 0 && !there[q] {
						env.Fail("live-vanished", "List misses %s at %v; %s", q, now, o)
					}
					if !o.written && there[q] {
						env.Fail("expired-returned", "List shows %s at %v, never written or removed", q, now)
					}
				}
			case "trigger":
				hc.TriggerExpiration()
			case "sleep":
				time.Sleep(time.Duration(op.C) * time.Microsecond)
			case "swept":
				// What has expired is physically gone after one interval, or
				// after a trigger nobody else's trigger made redundant.
				dead := map[string]time.Duration{}
				for q, o := range mine {
					if o.written && o.at(now) < 0 {
						dead[q] = o.accessed
					}
				}
				if interval > 0 {
					time.Sleep(interval + time.Nanosecond)
				} else {
					// Outlast the debounce of any earlier trigger, then trigger.
					time.Sleep(debounce + time.Nanosecond)
					hc.TriggerExpiration()
					time.Sleep(time.Nanosecond)
					if debounce > 0 {
						// Another client may have triggered just before the
						// debounced one; its run covers us too.
						time.Sleep(debounce + time.Nanosecond)
						hc.TriggerExpiration()
						time.Sleep(time.Nanosecond)
					}
				}
				items, err := hc.List(ctx)
				if err != nil {
					env.Fail("list-failed", "List: %v", err)
				}
				for _, it := range items {
					if _, gone := dead[it.Key]; gone {
						env.Fail("not-removed", "%s expired before %v and is still held at %v (interval %v, debounce %v)", it.Key, now, env.Now(), interval, debounce)
					}
				}
				if len(dead) > 0 {
					env.Probe("swept")
				}
			}
			env.Ops(1)
		}
	})
	// In the end only what never expires is left.
	time.Sleep(50*time.Millisecond + interval)
	for range 3 {
		time.Sleep(debounce + time.Nanosecond)
		hc.TriggerExpiration()
	}
	time.Sleep(interval + time.Nanosecond)
	want, border := 0, 0
	now := env.Now()
	for _, m := range lives {
		for k, l := range m {
			switch l.at(now) {
			case 1:
				want++
				if _, ok := hc.Get(ctx, k); !ok {
					env.Fail("live-vanished", "Get(%s) found nothing in the end; %s", k, l)
				}
			case 0:
				border++
			}
		}
	}
	if n := hc.Count(ctx); n < want || n > want+border {
		env.Fail("not-removed", "%d items left in the end, %d of them live (interval %v, debounce %v)", n, want, interval, debounce)
	}
	env.Observe(fmt.Sprint(want, env.Now()))
	if err := hc.Stop(ctx); err != nil {
		env.Fail("stop-failed", "Stop: %v", err)
	}
}

func (l *life) String() string {
	if !l.written {
		return "it was never written, or removed"
	}

	return fmt.Sprintf("write %d, lifetime %v, last access at %v", l.id, l.ttl, l.accessed)
}
