package main

import (
	"context"
	"path"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/pkg/backend"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// "listkeys": listings of the whole cluster, from any node, while clients write
// and remove, nodes crash and messages are lost. A listing that claims to be
// complete is; one that is not says whose keys may be missing.

func init() {
	register(&simkit.Scenario{Name: "listkeys", Gen: genListKeys, Exec: execListKeys})
}

var listPrefixes = []string{"a", "a/b", "ab", "b[", "b*", "é/", "a?c", ""}

var listPatterns = []string{"", "a", "a/", "a/b", "ab", "a*", "a/*", "*", "*/*", "[ab]*", "[^a]*", "a?*", "b[[]*", `b\**`, "[a-", "é*", "é/", "zzz", "b*", `a\`, "a/b-?", "[]a]*", "*-[0-3]"}

func genListKeys(r *simkit.Rand, tier string) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{
		"nodes": int64(r.I(1, 5)), "rf": int64(r.I(1, 3)), "wc": int64(r.N(3)), "rc": 1,
		"shards": simkit.Pick(r, int64(1), 2, 8), "vnodes": simkit.Pick(r, int64(1), 8), "keys": int64(r.I(1, 12)),
		"lat_us": simkit.Pick(r, int64(0), 500, 3000), "rpc_ms": simkit.Pick(r, int64(20), 60),
		"down_sentinel": int64(r.N(2)), "down_blackhole": int64(r.N(2)),
	}, Rates: map[string]int64{
		"delay": simkit.Pick(r, int64(0), 1500, 4000), "drop-request": simkit.Pick(r, int64(0), 0, 1000), "drop-response": simkit.Pick(r, int64(0), 0, 1000),
	}}
	if r.N(2) == 0 { // over HTTP, a node's keys take a request for each shard
		for _, f := range []string{"net-refuse", "net-reset", "net-cut"} {
			p.Rates[f] = simkit.Pick(r, int64(0), 300, 1500)
		}
	}
	for range r.I(1, 4) {
		var ops []simkit.Op
		for range r.I(3, 10) {
			ops = append(ops, simkit.Op{
				K: []string{"set", "remove", "list", "cut", "crash", "heal", "sleep"}[r.PickW(8, 2, 7, 1, 1, 1, 2)],
				A: int64(r.N(12)), B: int64(r.N(5)), C: int64(r.N(len(listPatterns) * 8)),
			})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

func listKey(i int64) string {
	return listPrefixes[i%int64(len(listPrefixes))] + "-" + string(rune('0'+i%10))
}

func execListKeys(env *simkit.Env) {
	w := newWorld(env)
	w.opts = func(string) []backend.DistMemoryOption { return baseOpts(env) }
	nodes := w.boot(max(1, env.PI("nodes")))
	nk := max(1, env.P("keys"))
	at := func(i int64) string { return nodes[i%int64(len(nodes))] }
	var busy, mu sync.Mutex
	failed := map[string]int{} // "a>b": calls of ListKeys that failed
	known := map[string]bool{}
	w.afterList = func(from, to string, err error) {
		if err != nil {
			mu.Lock()
			failed[from+">"+to]++
			mu.Unlock()
		}
	}
	env.Par(func(t int, ops []simkit.Op) {
		for i, op := range ops {
			k, d := listKey(op.A%nk), op.C%8
			n := w.get(at(op.B))
			switch op.K {
			case "set":
				mu.Lock()
				known[k] = true
				mu.Unlock()
				_ = put(context.Background(), n, k, makeVal("x", int64(t+1)*1000+int64(i)))
			case "remove":
				_ = n.dm.Remove(context.Background(), k)
			case "list":
				if !w.alive(n.id, 0) {
					continue
				}
				pattern := listPatterns[op.C/8%int64(len(listPatterns))]
				limit := int([]int64{0, 1, 2, 3, 100, 0, 5, -1}[d])
				ctx, cancel := context.Background(), func() {}
				if op.A == 3 {
					ctx, cancel = context.WithTimeout(ctx, time.Duration(d)*5*time.Millisecond)
				}
				checkList(env, w, nodes, n, ctx, pattern, limit, &mu, failed, known)
				cancel()
			case "cut":
				w.setCut(at(op.B), at(op.B+1+d), true)
				env.CountFault("one-way-cut")
			case "crash":
				busy.Lock()
				if len(w.up()) > 1 {
					w.crash(n.id)
					env.CountFault("crash")
				}
				busy.Unlock()
			case "heal":
				w.healAll()
			case "sleep":
				time.Sleep(time.Duration(d*5) * time.Millisecond)
			}
		}
	})
	w.stopAll()
}

// matches says whether key k is asked for by pattern, and whether the pattern
// is well formed.
func matches(pattern, k string) (ok, valid bool) {
	if !strings.ContainsAny(pattern, "*?[") {
		return strings.HasPrefix(k, pattern), true
	}
	if _, err := path.Match(pattern, ""); err != nil {
		return false, false
	}
	ok, err := path.Match(pattern, k)

	return ok && err == nil, true
}

func checkList(env *simkit.Env, w *world, nodes []string, n *node, ctx context.Context, pattern string, limit int, mu *sync.Mutex, failed map[string]int, known map[string]bool) {
	held := func() map[string]map[string]uint64 {
		out := map[string]map[string]uint64{}
		for _, x := range w.up() {
			for k, it := range keysOf(x.dm) {
				if out[k] == nil {
					out[k] = map[string]uint64{}
				}
				out[k][x.id] = it.Version
			}
		}

		return out
	}
	fails := func() map[string]int {
		mu.Lock()
		defer mu.Unlock()
		out := map[string]int{}
		for _, id := range nodes {
			out[id] = failed[n.id+">"+id]
		}

		return out
	}
	before, fBefore := held(), fails()
	res, err := n.dm.ListKeys(ctx, pattern, limit)
	after, fAfter := held(), fails()
	env.Observe(pattern + strings.Join(res.Keys, " "))
	if _, valid := matches(pattern, ""); !valid {
		if err == nil {
			env.Fail("bad-pattern", "ListKeys(%q) succeeded", pattern)
		}

		return
	}
	if err != nil {
		env.Fail("list-error", "ListKeys(%q): %v", pattern, err)
	}
	if limit <= 0 {
		limit = 10000
	}
	if !sort.StringsAreSorted(res.Keys) || len(res.Keys) > limit {
		env.Fail("list-shape", "ListKeys(%q, %d) returned %q", pattern, limit, res.Keys)
	}
	in := map[string]bool{}
	for _, k := range res.Keys {
		if ok, _ := matches(pattern, k); !ok || in[k] {
			env.Fail("list-shape", "ListKeys(%q) returned %q", pattern, res.Keys)
		}
		in[k] = true
		mu.Lock()
		ok := known[k]
		mu.Unlock()
		if !ok {
			env.Fail("list-invented", "ListKeys(%q) returned %q, which was never written", pattern, k)
		}
	}
	if res.Truncated && len(res.Keys) != limit {
		env.Fail("list-truncated", "ListKeys(%q, %d) returned %d keys and claims there are more", pattern, limit, len(res.Keys))
	}
	mu.Lock()
	all := 0
	for k := range known {
		if ok, _ := matches(pattern, k); ok {
			all++
		}
	}
	mu.Unlock()
	if res.Truncated && all <= limit {
		env.Fail("list-truncated", "ListKeys(%q, %d) claims there are more than %q, no more were ever written", pattern, limit, res.Keys)
	}
	partial := map[string]bool{}
	for _, id := range res.PartialNodes {
		if partial[id] || !contains(nodes, id) || id == n.id {
			env.Fail("list-partial", "ListKeys(%q) at %s names %q as partial", pattern, n.id, res.PartialNodes)
		}
		partial[id] = true
		if fAfter[id] == fBefore[id] {
			env.Fail("list-partial", "ListKeys(%q) at %s names %s as partial, which answered", pattern, n.id, id)
		}
	}
	for _, k := range simkit.SortedKeys(before) {
		if ok, _ := matches(pattern, k); !ok {
			continue
		}
		for _, id := range simkit.SortedKeys(before[k]) {
			v := before[k][id]
			if after[k] == nil || after[k][id] != v || partial[id] {
				continue
			}
			env.Nontrivial()
			if !in[k] && !res.Truncated {
				env.Fail("list-incomplete", "ListKeys(%q, %d) at %s lacks %q, which %s held all along; partial %v", pattern, limit, n.id, k, id, res.PartialNodes)
			}
		}
	}
}
