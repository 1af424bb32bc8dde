package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// "wire": every call of the HTTP transport to a real node's HTTP server has the
// outcome the same call has in a twin cluster that lives in one process, over
// any connection: delayed, split, reset, stalled or broken off midway.

func init() {
	simkit.Register(&simkit.Scenario{Name: "wire", Gen: genWire, Exec: execWire, MaxYields: 1_000_000_000})
}

func genWire(r *simkit.Rand, tier string) *simkit.Plan {
	n := r.I(1, 3)
	p := &simkit.Plan{P: map[string]int64{
		"http": 1, "nodes": int64(n), "rf": int64(r.I(1, 3)), "wc": int64(r.N(3)), "rc": 1, "vnodes": 4,
		"shards": simkit.Pick(r, int64(1), 3, 16), "gzip": simkit.Pick(r, int64(0), 1, 200), "body_max": simkit.Pick(r, int64(0), 0, 3000),
		"down": int64(r.N(2) * r.N(2)), "drain": int64(r.N(2) * r.N(2)), "lat_us": 200, "rpc_ms": 300, "down_sentinel": int64(r.N(2)),
		"spread": int64(r.N(1000)),
	}, Rates: map[string]int64{}}
	if r.N(40) == 0 {
		p.P["shards"] = 1100
	}
	if r.N(2) == 0 {
		p.P["faulty"] = 1
		for _, f := range []string{"net-refuse", "net-slow-dial", "net-reset", "net-delay", "net-stall", "net-split", "net-cut"} {
			p.Rates[f] = simkit.Pick(r, int64(0), 300, 1500)
		}
	}
	for range r.I(1, 4) {
		var ops []simkit.Op
		for range r.I(4, 16) {
			ops = append(ops, simkit.Op{
				K: []string{"set", "get", "remove", "health", "probe", "raw", "gossip", "keys"}[r.PickW(9, 8, 4, 1, 1, 2, 1, 2)],
				A: int64(r.N(6)), B: int64(r.N(13)), C: int64(r.N(1 << 30)),
			})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

func wireValue(c int64) any {
	c /= 7
	switch c % 12 {
	case 0:
		return "plain " + fmt.Sprint(c)
	case 1:
		return "h\"o\\s<t>&i\u2028l\x00e\té\U0001F600" + fmt.Sprint(c)
	case 2:
		return c
	case 3:
		return float64(c) / 7
	case 4:
		return c%2 == 0
	case 5:
		return []byte("bytes\x00\xff" + fmt.Sprint(c))
	case 6:
		return map[string]any{"a": []any{"x", float64(c), nil, true}, "b": map[string]any{"": "y"}}
	case 7:
		return strings.Repeat("compressible ", 40+int(c%900))
	case 8:
		return ""
	case 9:
		return []any{}
	case 10:
		return `{"json": "in a string"}`
	}

	return fmt.Sprintf("%x", c*c*c)
}

var wireTTLs = []time.Duration{0, 1, 300 * time.Microsecond, time.Millisecond, 1500 * time.Microsecond, time.Second, 90 * time.Minute, 400 * 24 * time.Hour, 0, 0}

var wireVersions = []uint64{1, 2, 3, 5, 1 << 53, 1<<53 + 1, 1<<62 + 1}

// sameItem compares what two clusters hold, as far as JSON can tell.
func sameItem(a, b *cache.Item, loose bool) string {
	ja, errA := json.Marshal(a.Value)
	jb, errB := json.Marshal(b.Value)
	var va, vb any
	_, _ = json.Unmarshal(ja, &va), json.Unmarshal(jb, &vb)
	d := a.Expiration - b.Expiration
	switch {
	case errA != nil || errB != nil || !reflect.DeepEqual(va, vb):
		return fmt.Sprintf("value %.200s, not %.200s", ja, jb)
	case a.Key != b.Key:
		return fmt.Sprintf("key %q, not %q", a.Key, b.Key)
	case d >= time.Millisecond || d <= -time.Millisecond || (a.Expiration == 0) != (b.Expiration == 0):
		return fmt.Sprintf("lifetime %v, not %v", a.Expiration, b.Expiration)
	case a.Origin != b.Origin:
		return fmt.Sprintf("origin %q, not %q", a.Origin, b.Origin)
	case !loose && a.Version != b.Version:
		return fmt.Sprintf("version %d, not %d", a.Version, b.Version)
	}

	return ""
}

type rawReq struct{ method, target, head, body string }

// rawReqs are requests no node may act on.
var rawReqs = []rawReq{
	{"POST", "/internal/set", "", "{"},
	{"POST", "/internal/set", "", `{"key": 5}`},
	{"POST", "/internal/set", "", `{"key":"x","version":-1}`},
	{"POST", "/internal/set", "Content-Encoding: gzip\r\n", `{"key":"x","value":1,"version":9}`},
	{"POST", "/internal/cache/set", "", `[1]`},
	{"GET", "/internal/get", "", ""},
	{"GET", "/internal/get?key=", "", ""},
	{"DELETE", "/internal/del", "", ""},
	{"DELETE", "/internal/del?key=x&replicate=maybe", "", ""},
	{"GET", "/internal/keys?cursor=-1", "", ""},
	{"GET", "/internal/keys?cursor=x", "", ""},
	{"GET", "/internal/keys?limit=-1", "", ""},
	{"GET", "/internal/keys?q=%5B", "", ""},
	{"GET", "/internal/probe", "", ""},
	{"POST", "/internal/gossip", "", `{"id":"n0"}`},
	{"POST", "/internal/gossip", "", `[{"id":1}]`},
	{"GET", "/internal/set", "", ""},
	{"GET", "/nothing/here", "", ""},
}

func execWire(env *simkit.Env) {
	w := newWorld(env)
	// the twin: the same cluster in one process
	tw := &world{env: env, wire: backend.NewInProcessTransport(), nodes: map[string]*node{}, cut: map[string]bool{}, stall: map[string]time.Duration{}}
	w.opts = func(string) []backend.DistMemoryOption { return baseOpts(env) }
	tw.opts = w.opts
	nodes := w.boot(max(1, env.PI("nodes")))
	tw.boot(len(nodes))
	last := nodes[len(nodes)-1]
	if env.P("down") == 1 && len(nodes) > 1 {
		w.crash(last)
		tw.crash(last)
	}
	if env.P("drain") == 1 {
		_, _ = w.get(nodes[0]).dm.Drain(context.Background()), tw.get(nodes[0]).dm.Drain(context.Background())
	}
	hop := backend.NewDistHTTPTransportWithLimits(w.httpLimits(), func(id string) (string, bool) {
		return "http://" + addrOf(id), contains(nodes, id)
	})
	limit := env.PI("body_max")
	faulty := env.P("faulty") == 1
	ctx := context.Background()
	dubious := make([]map[string]bool, len(env.Plan.Threads))
	written := make([]map[string]bool, len(env.Plan.Threads))
	// verdict compares two errors: does the caller learn the same?
	verdict := func(what string, got, want error) {
		for _, e := range []error{sentinel.ErrNotOwner, sentinel.ErrQuorumFailed, sentinel.ErrBackendNotFound} {
			if errors.Is(want, e) && e == sentinel.ErrBackendNotFound && got != nil {
				return // a node that is not there
			}
			if errors.Is(got, e) != errors.Is(want, e) {
				env.Fail("error", "%s: %v, in one process %v", what, got, want)
			}
		}
		if (got == nil) != (want == nil) || want != nil && strings.HasPrefix(want.Error(), "superseded") && got.Error() != want.Error() {
			env.Fail("error", "%s: %v, in one process %v", what, got, want)
		}
	}
	compare := func(what, id, k string, loose bool) {
		var it [2]*cache.Item
		var ok [2]bool
		for i, x := range []*world{w, tw} {
			if x.alive(id, 0) {
				it[i], ok[i], _ = x.wire.ForwardGet(ctx, id, k)
			}
		}
		if ok[0] != ok[1] || (it[0] == nil) != (it[1] == nil) {
			env.Fail("state", "%s: node %s holds %q: %v; in one process: %v", what, id, k, ok[0], ok[1])
		}
		if it[0] == nil {
			return
		}
		if d := sameItem(it[0], it[1], loose); d != "" {
			env.Fail("state", "%s: node %s holds %q with %s", what, id, k, d)
		}
	}
	env.Par(func(t int, ops []simkit.Op) {
		dubious[t], written[t] = map[string]bool{}, map[string]bool{}
		for _, op := range ops {
			a := op.A % 6
			k := fmt.Sprintf("%s/%d", keyName(env.P("spread")+a), t)
			loose := a%2 == 1 // versions given by the node
			to := nodes[op.B%int64(len(nodes))]
			if op.B == 12 {
				to = "nobody"
			}
			what := fmt.Sprintf("%s %q to %s", op.K, k, to)
			network := func(err error) bool {
				// under faults a call may fail without a verdict
				return faulty && err != nil && !errors.Is(err, sentinel.ErrNotOwner) && !errors.Is(err, sentinel.ErrQuorumFailed) &&
					!errors.Is(err, sentinel.ErrBackendNotFound) && !strings.HasPrefix(err.Error(), "superseded")
			}
			switch op.K {
			case "set":
				it := cache.Item{Key: k, Value: wireValue(op.C), Expiration: wireTTLs[op.C%10]}
				if !loose {
					it.Version, it.Origin = wireVersions[op.C/16%7], nodeID(int(op.C/128%4))
				}
				written[t][k] = true
				cp, cp2 := it, it
				err := hop.ForwardSet(ctx, to, &cp, loose)
				size, _ := json.Marshal(it.Value)
				if limit > 0 && len(size)+200 > limit {
					if err == nil && len(size) > limit {
						env.Fail("limit", "%s of %d bytes accepted, the limit is %d", what, len(size), limit)
					}
					if err != nil {
						env.Probe("too-large")

						continue
					}
				}
				if network(err) {
					dubious[t][k] = true
					env.Probe("lost-call")

					continue
				}
				dubious[t][k] = dubious[t][k] || faulty && loose // the coordinator's own calls may fail
				if dubious[t][k] {
					continue
				}
				verdict(what, err, tw.wire.ForwardSet(ctx, to, &cp2, loose))
				env.Nontrivial()
				for _, id := range nodes {
					compare(what, id, k, loose)
				}
			case "get":
				it, ok, err := hop.ForwardGet(ctx, to, k)
				if network(err) || dubious[t][k] {
					continue
				}
				it2, ok2, err2 := tw.wire.ForwardGet(ctx, to, k)
				if size, _ := json.Marshal(it2); err != nil && limit > 0 && len(size) > limit/2 {
					env.Probe("too-large")

					continue
				}
				verdict(what, err, err2)
				if ok != ok2 || (it == nil) != (it2 == nil) {
					env.Fail("get", "%s: %v %v, in one process %v %v", what, it, ok, it2, ok2)
				}
				if it != nil {
					if !ok {
						it.Key, it.Origin, it.Value, it.Expiration = it2.Key, it2.Origin, it2.Value, it2.Expiration // a tombstone is a version
					}
					if d := sameItem(it, it2, loose); d != "" {
						env.Fail("get", "%s: %s", what, d)
					}
					env.Observe(fmt.Sprint(it.Version, it.Origin))
				}
			case "remove":
				err := hop.ForwardRemove(ctx, to, k, loose)
				dubious[t][k] = dubious[t][k] || network(err) || faulty && loose
				if dubious[t][k] {
					continue
				}
				verdict(what, err, tw.wire.ForwardRemove(ctx, to, k, loose))
			case "health":
				err := hop.Health(ctx, to)
				if network(err) {
					continue
				}
				want := tw.wire.Health(ctx, to)
				if to == nodes[0] && env.P("drain") == 1 {
					if err == nil {
						env.Fail("health", "a draining node calls itself ready")
					}

					continue
				}
				verdict(what, err, want)
			case "probe":
				target := nodes[op.C%int64(len(nodes))]
				if env.P("drain") == 1 && target == nodes[0] {
					continue
				}
				err := hop.IndirectHealth(ctx, to, target)
				if network(err) {
					continue
				}
				if faulty {
					continue // the relay's own probe may have failed
				}
				verdict(what+" of "+target, err, tw.wire.IndirectHealth(ctx, to, target))
			case "keys":
				if !w.alive(to, 0) {
					continue
				}
				pat := listPatterns[op.C%int64(len(listPatterns))]
				if op.A%2 == 0 {
					pat = ""
				}
				before, _ := w.wire.ListKeys(ctx, to, pat)
				got, err := hop.ListKeys(ctx, to, pat)
				after, err2 := w.wire.ListKeys(ctx, to, pat)
				if network(err) || limit > 0 && err != nil {
					continue
				}
				if (err == nil) != (err2 == nil) {
					env.Fail("keys", "%s for %q: %v, in one process %v", what, pat, err, err2)
				}
				for _, k := range before { // nobody else changes the keys of this thread
					if strings.HasSuffix(k, fmt.Sprintf("/%d", t)) && contains(after, k) && !contains(got, k) && err == nil {
						env.Fail("keys", "%s for %q: %q lacks %q, which it holds", what, pat, got, k)
					}
				}
			case "raw":
				raw(env, w, rawReqs[op.C%int64(len(rawReqs))], to, faulty)
			case "gossip":
				ms := []backend.GossipMember{{ID: nodeID(int(op.C % int64(len(nodes)))), Address: addrOf(nodeID(int(op.C % int64(len(nodes))))), State: []string{"alive", "suspect"}[op.C/8%2], Incarnation: 0}}
				err := hop.Gossip(ctx, to, ms)
				if network(err) {
					continue
				}
				verdict(what, err, tw.wire.Gossip(ctx, to, ms))
			}
		}
	})
	env.StopFaults()
	time.Sleep(3 * time.Minute)
	for t := range written {
		for _, k := range simkit.SortedKeys(written[t]) {
			if dubious[t][k] {
				continue
			}
			for _, id := range nodes {
				loose := looseKey(env, k, t)
				if !faulty || limit == 0 {
					compare("at rest", id, k, loose)
				}
			}
		}
	}
	for _, n := range w.up() {
		want, _ := w.wire.FetchMerkle(ctx, n.id)
		got, err := hop.FetchMerkle(ctx, n.id)
		if limit > 0 && err != nil {
			continue
		}
		if err != nil || !reflect.DeepEqual(got.LeafHashes, want.LeafHashes) && len(got.LeafHashes)+len(want.LeafHashes) > 0 || string(got.Root) != string(want.Root) || got.ChunkSize != want.ChunkSize {
			env.Fail("merkle", "tree of %s over HTTP: %v %v, in one process %v", n.id, got, err, want)
		}
		for _, pat := range []string{"", listPatterns[int(env.P("spread"))%len(listPatterns)], "k", "*-*"} {
			want, err2 := w.wire.ListKeys(ctx, n.id, pat)
			got, err := hop.ListKeys(ctx, n.id, pat)
			sort.Strings(want)
			sort.Strings(got)
			if (err == nil) != (err2 == nil) || err == nil && len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
				env.Fail("keys", "keys of %s for %q over HTTP: %q %v, in one process %q %v", n.id, pat, got, err, want, err2)
			}
		}
		if n.id == nodes[0] && env.P("drain") == 1 {
			continue
		}
		if err := hop.Health(ctx, n.id); err != nil {
			env.Fail("health", "node %s, up and reachable: %v", n.id, err)
		}
	}
	tw.stopAll()
	w.stopAll()
}

// looseKey says whether key k of thread t gets its versions from the nodes.
func looseKey(env *simkit.Env, k string, t int) bool {
	for a := range int64(6) {
		if k == fmt.Sprintf("%s/%d", keyName(env.P("spread")+a), t) {
			return a%2 == 1
		}
	}

	return true
}

// raw sends a malformed request: it must be refused.
func raw(env *simkit.Env, w *world, q rawReq, to string, faulty bool) {
	if !w.alive(to, 0) {
		return
	}
	conn, err := (&net.Dialer{}).DialContext(context.Background(), "tcp", addrOf(to))
	if err != nil {
		if !faulty {
			env.Fail("raw", "dial %s: %v", to, err)
		}

		return
	}
	defer conn.Close()
	_ = conn.SetDeadline(time.Now().Add(time.Minute))
	fmt.Fprintf(conn, "%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n%sContent-Length: %d\r\n\r\n%s", q.method, q.target, q.head, len(q.body), q.body)
	resp, err := http.ReadResponse(bufio.NewReader(conn), nil)
	if err != nil {
		if !faulty {
			env.Fail("raw", "%s %s %s: %v", q.method, q.target, q.body, err)
		}

		return
	}
	resp.Body.Close()
	if resp.StatusCode < 400 || resp.StatusCode > 499 {
		env.Fail("raw", "%s %s %s answered %d", q.method, q.target, q.body, resp.StatusCode)
	}
	env.Probe("refused-request")
}
