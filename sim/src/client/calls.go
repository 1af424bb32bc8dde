package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"slices"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/pkg/client"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// A calls run: 1-3 threads share one client over 1-4 nodes that crash, hang,
// recover, answer errors, answer late, or break off. Every call is judged
// against what its own attempts met.

func init() {
	for _, n := range []string{"failover", "payload", "calls-race", "spread"} {
		simkit.Register(&simkit.Scenario{Name: n, Gen: func(r *simkit.Rand, tier string) *simkit.Plan { return genCalls(r, n) }, Exec: execCalls, Gaps: []uint64{0, 16, 64, 256, 1024, 4096}})
	}
}

var callKinds = []string{"set", "get", "item", "del", "me", "can", "bset", "bget", "bdel"}

func genCalls(r *simkit.Rand, name string) *simkit.Plan {
	nodes := r.I(1, 4)
	p := &simkit.Plan{P: map[string]int64{"nodes": int64(nodes), "inject": int64(r.N(3))}, Rates: map[string]int64{}}
	rate := func(k string, hi int) {
		if r.P(1, 2) {
			p.Rates[k] = int64(r.I(1, hi))
		}
	}
	threads := r.I(1, 3)
	switch name {
	case "failover":
		rate("http-5xx", 3500)
		rate("http-503", 3500)
		rate("http-4xx", 1500)
		rate("http-slow", 1500)
		rate("http-cut", 1500)
		rate("net-refuse", 3000)
		rate("net-reset", 800)
		rate("net-delay", 1500)
		rate("net-stall", 500)
		rate("net-slow-dial", 1500)
		rate("net-split", 1000)
	case "payload":
		p.P["big"] = int64(r.N(2))
		rate("http-cut", 3000)
		rate("http-garbage", 2500)
		rate("item-fail", 3000)
		rate("item-garbage", 1500)
		rate("net-split", 5000)
		rate("net-delay", 1000)
		rate("net-reset", 600)
		rate("http-503", 800)
		rate("http-5xx", 500)
		rate("http-4xx", 800)
	case "calls-race":
		threads = 3
		p.Rates["net-split"] = 1
	}
	if name == "spread" {
		p.P["nodes"] = int64(r.I(2, 3))
		var ops []simkit.Op
		for range 90 {
			ops = append(ops, simkit.Op{K: simkit.Pick(r, "set", "get", "del", "bset", "me"), A: int64(1 + r.N(3)), B: int64(r.N(1 << 20))})
		}
		p.Threads = append(p.Threads, ops)

		return p
	}
	for t := range threads {
		var ops []simkit.Op
		for range r.I(2, 12) {
			var k string
			if name == "payload" {
				k = simkit.Pick(r, "set", "get", "item", "bset", "bget", "bdel", "bset", "bget")
			} else {
				k = simkit.Pick(r, callKinds...)
			}
			op := simkit.Op{K: k, A: int64(r.N(9)), B: int64(r.N(1 << 20)), C: int64(r.N(12))}
			ops = append(ops, op)
			if r.P(1, 5) {
				ops = append(ops, simkit.Op{K: "sleep", A: int64(r.I(1, 5000))})
			}
			if name == "failover" && r.P(1, 3) && t == 0 {
				ops = append(ops, simkit.Op{K: simkit.Pick(r, "crash", "hang", "heal", "heal"), A: int64(r.N(nodes))})
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	if name == "failover" && r.P(1, 2) { // node trouble in the middle of calls
		var ops []simkit.Op
		for range r.I(1, 6) {
			ops = append(ops, simkit.Op{K: "sleep", A: int64(r.I(1, 3000))}, simkit.Op{K: simkit.Pick(r, "crash", "hang", "heal", "heal"), A: int64(r.N(nodes))})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

var keyPool = []string{"a", "b c", "d/e", "ключ", "p%2Fq", "x?y=1&z#f", "k;v,w+", "batch/put", "\"q\\"}

type world struct {
	env     *simkit.Env
	f       *fleet
	sh      *recShared
	c       *client.Client
	seeds   []string
	timeout time.Duration
	closers []func()
	seen    map[string]bool // endpoints a call tried first
}

// setup builds the fleet, the recording transport and the client.
func setup(env *simkit.Env, nodes int, seeds []string, opts ...client.Option) *world {
	return setupTopo(env, nodes, seeds, func(*fleet) {}, opts...)
}

func setupTopo(env *simkit.Env, nodes int, seeds []string, prep func(*fleet), opts ...client.Option) *world {
	w := &world{env: env, f: newFleet(env, nodes), sh: &recShared{}, timeout: 10 * time.Second, seen: map[string]bool{}}
	prep(w.f)
	if seeds == nil {
		for _, a := range w.f.addrs {
			seeds = append(seeds, "http://"+a)
		}
	}
	w.seeds = seeds
	def := newTransport()
	oldDefault := http.DefaultTransport
	http.DefaultTransport = &recorder{env: env, base: def, sh: w.sh}
	w.closers = append(w.closers, def.CloseIdleConnections, func() { http.DefaultTransport = oldDefault })
	switch env.P("inject") {
	case 1:
		tr := newTransport()
		w.timeout = 3 * time.Second
		opts = append([]client.Option{client.WithHTTPClient(&http.Client{Transport: &recorder{env: env, via: "inj", base: tr, sh: w.sh}, Timeout: w.timeout})}, opts...)
		w.closers = append(w.closers, tr.CloseIdleConnections)
	case 2:
		tr := newTransport()
		tr.DisableKeepAlives = true
		opts = append([]client.Option{client.WithHTTPClient(&http.Client{Transport: &recorder{env: env, via: "inj", base: tr, sh: w.sh}, Timeout: w.timeout})}, opts...)
		w.closers = append(w.closers, tr.CloseIdleConnections)
	}
	c, err := client.New(seeds, opts...)
	if err != nil {
		env.Fail("construction", "New(%q) failed: %v", seeds, err)
	}
	w.c = c

	return w
}

func (w *world) teardown() {
	w.c.Close()
	w.f.stop()
	for _, f := range w.closers {
		f()
	}
	w.f.net.Uninstall()
	time.Sleep(2 * time.Minute) // timers and half-open work drain
}

func execCalls(env *simkit.Env) {
	w := setup(env, max(env.PI("nodes"), 1), nil)
	msgs := make([]string, len(env.Plan.Threads))
	cls := make([]string, len(env.Plan.Threads))
	first := make([][]string, len(env.Plan.Threads))
	env.Par(func(t int, ops []simkit.Op) {
		for i, op := range ops {
			switch op.K {
			case "sleep":
				time.Sleep(time.Duration(op.A) * time.Millisecond)
			case "crash", "hang", "heal":
				w.f.set(op.K, int(op.A))
			default:
				cl, m, f := w.call(t, i, op, w.seeds)
				first[t] = append(first[t], f)
				if cl != "" {
					cls[t], msgs[t] = cl, m

					return
				}
			}
		}
	})
	for t := range msgs {
		if cls[t] != "" {
			env.Fail(cls[t], "%s", msgs[t])
		}
	}
	if calls := len(slices.Concat(first...)); calls > 1 {
		env.Nontrivial()
		env.Ops(calls)
	}
	if env.Spec.Scenario == "spread" && len(first[0]) > 80 {
		// Each of at most three healthy endpoints misses 80 random picks with
		// probability below 1e-13.
		for _, s := range w.seeds {
			if !slices.Contains(first[0], s) {
				env.Fail("no-spread", "%d calls over %d healthy endpoints never started at %s", len(first[0]), len(w.seeds), s)
			}
		}
	}
	for _, a := range w.sh.all {
		env.Observe(fmt.Sprint(a.endpoint, a.status, a.netErr != nil, a.op))
		if a.netErr == nil && !a.closed {
			env.Fail("response-leak", "the response body of %s %s was never closed: its connection cannot be reused", a.method, a.url)
		}
	}
	w.teardown()
}

func (w *world) key(t int, n int64) string {
	return fmt.Sprintf("t%d-%s", t, keyPool[int(n)%len(keyPool)])
}

func value(n int64, big bool) []byte {
	size := int(n % 40)
	if big && n%3 == 0 {
		size = int(n % 9000)
	}
	b := make([]byte, size)
	x := uint64(n)
	for i := range b {
		x = x*6364136223846793005 + 1442695040888963407
		b[i] = byte(x >> 56)
	}

	return b
}

// batchSize is mostly small; one batch in 24 holds up to a few hundred items.
func batchSize(op simkit.Op) int {
	if op.C == 11 && op.B%2 == 0 {
		return int(op.A) * int(1+op.B%50)
	}

	return int(op.A)
}

// call runs one command and judges it. It returns a violation class and text,
// and the endpoint tried first.
func (w *world) call(t, i int, op simkit.Op, candidates []string) (cl, msg, first string) {
	opID := fmt.Sprintf("c%d.%d", t, i)
	ctx := context.WithValue(context.Background(), opKey{}, opID)
	var cancel context.CancelFunc = func() {}
	switch op.C {
	case 1: // a deadline within reach of the faults
		ctx, cancel = context.WithTimeout(ctx, time.Duration(1+op.B%8000)*time.Millisecond)
	case 2:
		ctx, cancel = context.WithCancel(ctx)
		tm := time.AfterFunc(time.Duration(op.B%3000)*time.Millisecond, cancel)
		defer tm.Stop()
	}
	defer cancel()
	start := w.env.Now()
	res := w.invoke(ctx, t, op)
	took := w.env.Now() - start
	ctxErr := ctx.Err()
	atts := w.sh.of(opID)
	if len(atts) > 0 {
		first = atts[0].endpoint
	}
	what := fmt.Sprintf("%s by thread %d", res.desc, t)
	say := func(class, format string, args ...any) (string, string, string) {
		return class, what + ": " + fmt.Sprintf(format, args...) + "\n" + w.describe(atts) + fmt.Sprintf("  call returned err=%v after %v", res.err, took), first
	}
	w.env.Tracef("%s -> err=%v took=%v\n%s", what, res.err, took, w.describe(atts))
	if res.noop {
		if res.err != nil || len(atts) > 0 || res.len != 0 {
			return say("empty-batch", "an empty batch must be a no-op")
		}

		return
	}
	if res.mutated != "" {
		return say("caller-data", "%s", res.mutated)
	}
	if len(atts) == 0 {
		if ctxErr != nil && res.err != nil {
			return
		}

		return say("no-attempt", "the call reached no endpoint")
	}
	seen := map[string]bool{}
	for k, a := range atts {
		if !slices.Contains(candidates, a.endpoint) {
			return say("foreign-endpoint", "endpoint %s is not a known endpoint", a.endpoint)
		}
		if seen[a.endpoint] {
			return say("endpoint-twice", "endpoint %s was tried twice in one call", a.endpoint)
		}
		seen[a.endpoint] = true
		if k < len(atts)-1 && a.netErr == nil && a.status < 500 {
			return say("retried-answer", "the call moved on after endpoint %s answered %d", a.endpoint, a.status)
		}
		if a.end-a.start > w.timeout+time.Second {
			return say("attempt-timeout", "an attempt took %v, the client's timeout is %v", a.end-a.start, w.timeout)
		}
		if m := w.checkSent(a, op, t, res); m != "" {
			return say("altered-request", "%s", m)
		}
	}
	last := atts[len(atts)-1]
	srv := w.f.find(last.op, last.n)
	var se *client.StatusError
	isSE := errors.As(res.err, &se)
	limit := time.Duration(len(candidates))*w.timeout + w.timeout + time.Second
	if dl, ok := ctx.Deadline(); ok && op.C == 1 {
		_ = dl
		limit = time.Duration(1+op.B%8000)*time.Millisecond + time.Second
	}
	if took > limit {
		return say("hang", "the call took %v (limit %v)", took, limit)
	}
	switch {
	case last.netErr != nil || last.status >= 500:
		w.env.Probe("retryable-last")
		if res.err == nil {
			return say("false-success", "the call reports success although its last attempt failed")
		}
		if len(atts) < len(candidates) && ctxErr == nil {
			return say("gave-up", "the call gave up after %d of %d endpoints", len(atts), len(candidates))
		}
		if len(atts) == len(candidates) && ctxErr == nil {
			if !errors.Is(res.err, client.ErrAllEndpointsFailed) {
				return say("error-class", "exhausting every endpoint must report ErrAllEndpointsFailed")
			}
		}
		if last.netErr == nil {
			if !isSE || se.HTTPStatus != last.status {
				return say("error-class", "the status %d of the last endpoint is not reachable through errors.As", last.status)
			}
			if m := checkSentinels(res.err, last.status, se); m != "" {
				return say("error-class", "%s", m)
			}
			if m := checkEnvelope(se, srv, last); m != "" {
				return say("error-detail", "%s", m)
			}
		} else if last.ctxDone && ctxErr != nil && !errors.Is(res.err, ctxErr) {
			return say("error-class", "the context ended with %v before the last attempt, the error does not say so", ctxErr)
		}
	case last.status >= 400:
		w.env.Probe("terminal-4xx")
		if !isSE || se.HTTPStatus != last.status {
			return say("error-class", "a %d answer must come back as that StatusError", last.status)
		}
		if errors.Is(res.err, client.ErrAllEndpointsFailed) {
			return say("error-class", "a %d answer was reported as ErrAllEndpointsFailed", last.status)
		}
		if m := checkSentinels(res.err, last.status, se); m != "" {
			return say("error-class", "%s", m)
		}
		if m := checkEnvelope(se, srv, last); m != "" {
			return say("error-detail", "%s", m)
		}
	default:
		if srv == nil {
			return say("harness", "no record of the answered attempt")
		}
		if len(atts) > 1 {
			w.env.Probe("failover-success")
		}
		// The response arrived; the body may still be broken.
		whole := bytes.Equal(last.body, srv.raw) && last.bodyErr == nil
		needBody := op.K != "set" && op.K != "del"
		if res.err != nil {
			if !needBody {
				return say("false-failure", "status %d reported as a failure", last.status)
			}
			if last.readAll && whole && !srv.badBody {
				return say("false-failure", "a complete answer was reported as a failure")
			}
			w.env.Probe("broken-body-error")

			return
		}
		if needBody && op.K != "get" && srv.badBody {
			return say("garbage-accepted", "an undecodable body was accepted: %q", srv.raw)
		}
		if op.K == "get" && (last.bodyErr != nil || !whole) {
			return say("truncated-value", "the body broke off after %d of %d bytes and the call reports success", len(last.body), len(srv.raw))
		}
		if m := res.check(srv); m != "" {
			return say("wrong-result", "%s", m)
		}
	}

	return
}

func (w *world) describe(atts []*attempt) string {
	var b strings.Builder
	for _, a := range atts {
		fmt.Fprintf(&b, "  attempt %s %s %s %v..%v status=%d neterr=%v body=%d/%v\n", a.n, a.method, a.url, a.start, a.end, a.status, a.netErr, len(a.body), a.bodyErr)
	}

	return b.String()
}

func checkSentinels(err error, status int, se *client.StatusError) string {
	want := map[string]bool{
		"ErrNotFound":     status == 404 || se.Code == "NOT_FOUND",
		"ErrUnauthorized": status == 401 || se.Code == "UNAUTHORIZED",
		"ErrForbidden":    status == 403,
		"ErrDraining":     status == 503 || se.Code == "DRAINING",
		"ErrBadRequest":   status == 400 || se.Code == "BAD_REQUEST",
		"ErrInternal":     (status >= 500 && status != 503) || se.Code == "INTERNAL",
	}
	got := map[string]bool{
		"ErrNotFound":     errors.Is(err, client.ErrNotFound),
		"ErrUnauthorized": errors.Is(err, client.ErrUnauthorized),
		"ErrForbidden":    errors.Is(err, client.ErrForbidden),
		"ErrDraining":     errors.Is(err, client.ErrDraining),
		"ErrBadRequest":   errors.Is(err, client.ErrBadRequest),
		"ErrInternal":     errors.Is(err, client.ErrInternal),
	}
	for _, k := range simkit.SortedKeys(want) {
		if want[k] != got[k] {
			return fmt.Sprintf("errors.Is(err, %s) = %v for status %d code %q", k, got[k], status, se.Code)
		}
	}

	return ""
}

// checkEnvelope compares the typed error with the envelope the node sent.
func checkEnvelope(se *client.StatusError, srv *served, a *attempt) string {
	if srv == nil || a.bodyErr != nil || !bytes.Equal(a.body, srv.raw) {
		return "" // the error body itself was lost
	}
	if se.Code != srv.code {
		return fmt.Sprintf("code %q, the node sent %q", se.Code, srv.code)
	}
	if srv.code != "" && (se.Message != srv.msg || se.Details != srv.details) {
		return fmt.Sprintf("message %q details %q, the node sent %q and %q", se.Message, se.Details, srv.msg, srv.details)
	}

	return ""
}

// outcome is what a call returned and how to judge it.
type outcome struct {
	desc    string
	err     error
	noop    bool
	len     int
	mutated string
	key     string
	val     []byte
	ttl     time.Duration
	bset    []client.BatchSetItem
	keys    []string
	check   func(s *served) string
}

func ttlOf(n int64) time.Duration {
	switch n % 6 {
	case 0:
		return 0
	case 1:
		return -time.Second
	case 2:
		return time.Duration(1+n%5000) * time.Millisecond
	case 3:
		return time.Duration(1+n%300) * time.Second
	case 4:
		return time.Duration(1+n%90000) * time.Microsecond
	}

	return time.Duration(n) * time.Minute
}

func (w *world) invoke(ctx context.Context, t int, op simkit.Op) *outcome {
	c := w.c
	o := &outcome{}
	big := w.env.P("big") == 1
	switch op.K {
	case "set":
		o.key, o.val, o.ttl = w.key(t, op.A), value(op.B, big), ttlOf(op.B)
		keep := slices.Clone(o.val)
		o.desc = fmt.Sprintf("Set(%q, %d bytes, %v)", o.key, len(o.val), o.ttl)
		o.err = c.Set(ctx, o.key, o.val, o.ttl)
		if !bytes.Equal(keep, o.val) {
			o.mutated = "Set changed the caller's value"
		}
		o.check = func(s *served) string { return "" }
	case "get":
		o.key = w.key(t, op.A)
		o.desc = fmt.Sprintf("Get(%q)", o.key)
		b, err := c.Get(ctx, o.key)
		o.err = err
		o.check = func(s *served) string {
			if !bytes.Equal(b, s.item.val) {
				return fmt.Sprintf("returned %d bytes that differ from the %d stored", len(b), len(s.item.val))
			}

			return ""
		}
	case "item":
		o.key = w.key(t, op.A)
		o.desc = fmt.Sprintf("GetItem(%q)", o.key)
		it, err := c.GetItem(ctx, o.key)
		o.err = err
		o.check = func(s *served) string { return diffItem(it, s.item, o.key, fmt.Sprintf("node%d", s.node)) }
	case "del":
		o.key = w.key(t, op.A)
		o.desc = fmt.Sprintf("Delete(%q)", o.key)
		o.err = c.Delete(ctx, o.key)
		o.check = func(s *served) string { return "" }
	case "me":
		o.desc = "Identity()"
		id, err := c.Identity(ctx)
		o.err = err
		o.check = func(s *served) string {
			if id == nil || id.ID != fmt.Sprintf("me-node%d", s.node) || !slices.Equal(id.Scopes, []string{"read", "write"}) || !slices.Equal(id.Capabilities, []string{"cache.read", "cache.write"}) {
				return fmt.Sprintf("identity %+v", id)
			}

			return ""
		}
	case "can":
		capab := []string{"cache.read", "cache.write", "bogus", "cache.a b&c=read"}[op.A%4]
		o.key = capab
		o.desc = fmt.Sprintf("Can(%q)", capab)
		ok, err := c.Can(ctx, capab)
		o.err = err
		o.check = func(s *served) string {
			if ok != strings.HasSuffix(capab, "read") {
				return fmt.Sprintf("Can = %v", ok)
			}

			return ""
		}
	case "bset":
		n := batchSize(op)
		for k := range n {
			v := op.B + int64(k)*7919
			o.bset = append(o.bset, client.BatchSetItem{Key: w.key(t, v), Value: value(v, big && n < 10), TTL: ttlOf(v / 3)})
		}
		o.noop = n == 0
		o.desc = fmt.Sprintf("BatchSet(%d items)", n)
		rs, err := c.BatchSet(ctx, o.bset)
		o.err, o.len = err, len(rs)
		o.check = func(s *served) string {
			if len(rs) != len(s.results) {
				return fmt.Sprintf("%d results for %d items", len(rs), len(s.results))
			}
			for k, r := range rs {
				x := s.results[k]
				if r.Key != x.key || r.Stored != x.ok || r.Bytes != x.bytes || !slices.Equal(r.Owners, x.owners) {
					return fmt.Sprintf("result %d is %+v, the node answered %+v", k, r, x)
				}
				if m := diffItemErr(r.Err, x); m != "" {
					return fmt.Sprintf("result %d: %s", k, m)
				}
			}

			return ""
		}
	case "bget":
		n := batchSize(op)
		for k := range n {
			o.keys = append(o.keys, w.key(t, op.B+int64(k)*31))
		}
		o.noop = n == 0
		o.desc = fmt.Sprintf("BatchGet(%q)", o.keys)
		rs, err := c.BatchGet(ctx, o.keys)
		o.err, o.len = err, len(rs)
		o.check = func(s *served) string {
			if len(rs) != len(s.results) {
				return fmt.Sprintf("%d results for %d keys", len(rs), len(s.results))
			}
			for k, r := range rs {
				x := s.results[k]
				if r.Key != x.key || r.Found != x.ok || (r.Item != nil) != x.ok {
					return fmt.Sprintf("result %d is %+v, the node answered %+v", k, r, x)
				}
				if x.ok {
					if m := diffItem(r.Item, x.item, x.key, fmt.Sprintf("node%d", s.node)); m != "" {
						return fmt.Sprintf("result %d: %s", k, m)
					}
				}
			}

			return ""
		}
	case "bdel":
		n := batchSize(op)
		for k := range n {
			o.keys = append(o.keys, w.key(t, op.B+int64(k)*17))
		}
		o.noop = n == 0
		o.desc = fmt.Sprintf("BatchDelete(%q)", o.keys)
		rs, err := c.BatchDelete(ctx, o.keys)
		o.err, o.len = err, len(rs)
		o.check = func(s *served) string {
			if len(rs) != len(s.results) {
				return fmt.Sprintf("%d results for %d keys", len(rs), len(s.results))
			}
			for k, r := range rs {
				x := s.results[k]
				if r.Key != x.key || r.Deleted != x.ok || !slices.Equal(r.Owners, x.owners) {
					return fmt.Sprintf("result %d is %+v, the node answered %+v", k, r, x)
				}
				if m := diffItemErr(r.Err, x); m != "" {
					return fmt.Sprintf("result %d: %s", k, m)
				}
			}

			return ""
		}
	default:
		o.noop = true
	}

	return o
}

func diffItem(it *client.Item, x *stored, key, node string) string {
	if it == nil {
		return "no item"
	}
	want := client.Item{
		Key: key, Value: x.val, Version: x.version, Origin: fmt.Sprintf("o%d", x.version%7), LastUpdated: fmt.Sprintf("lu%d", x.version), Node: node, Owners: owners(key),
	}
	if x.ttlMs > 0 {
		want.TTLMs, want.ExpiresAt = x.ttlMs, fmt.Sprintf("ea%d", x.version)
	}
	if it.Key != want.Key || !bytes.Equal(it.Value, want.Value) || it.Version != want.Version || it.Origin != want.Origin ||
		it.LastUpdated != want.LastUpdated || it.Node != want.Node || !slices.Equal(it.Owners, want.Owners) || it.TTLMs != want.TTLMs || it.ExpiresAt != want.ExpiresAt {
		return fmt.Sprintf("item %+v, the node sent %+v", *it, want)
	}

	return ""
}

func diffItemErr(err *client.StatusError, x batchRes) string {
	if (err == nil) != x.ok {
		return fmt.Sprintf("per-item error %v for success=%v", err, x.ok)
	}
	if err == nil {
		return ""
	}
	if err.Code != x.code || err.Message != x.msg {
		return fmt.Sprintf("per-item error %+v, the node sent %q %q", *err, x.code, x.msg)
	}
	if errors.Is(err, client.ErrDraining) != (x.code == "DRAINING") || errors.Is(err, client.ErrInternal) != (x.code == "INTERNAL") || errors.Is(err, client.ErrBadRequest) != (x.code == "BAD_REQUEST") {
		return fmt.Sprintf("per-item error %+v matches the wrong sentinel", *err)
	}

	return ""
}

// checkSent compares what an attempt carried with what was asked for.
func (w *world) checkSent(a *attempt, op simkit.Op, t int, o *outcome) string {
	s := w.f.find(a.op, a.n)
	if s == nil {
		return "" // never fully received
	}
	if s.method != a.method {
		return "method changed"
	}
	switch op.K {
	case "set":
		if s.method != http.MethodPut || !bytes.Equal(s.body, o.val) {
			return fmt.Sprintf("node%d received %s with %d bytes, the value has %d", s.node, s.method, len(s.body), len(o.val))
		}
		if k, q := splitPath(a.url); k != o.key {
			return fmt.Sprintf("the request addresses key %q", k)
		} else if d, err := parseTTL(q); err != nil || d != max(o.ttl, 0) {
			return fmt.Sprintf("the request carries ttl %v (%v), the caller asked for %v", d, err, o.ttl)
		}
	case "get", "item", "del":
		want := map[string]string{"get": http.MethodGet, "item": http.MethodGet, "del": http.MethodDelete}[op.K]
		if k, _ := splitPath(a.url); k != o.key || s.method != want {
			return fmt.Sprintf("the request is %s of key %q", s.method, k)
		}
	case "bset":
		if s.put == nil {
			return ""
		}
		if len(s.put) != len(o.bset) {
			return fmt.Sprintf("node%d received %d items of %d", s.node, len(s.put), len(o.bset))
		}
		for k, it := range s.put {
			x := o.bset[k]
			if it.Key != x.Key {
				return fmt.Sprintf("item %d has key %q instead of %q", k, it.Key, x.Key)
			}
			// The wire carries milliseconds; the nearest whole ones will do,
			// but an item that should expire must not become permanent.
			if (x.TTL > 0) != (it.TTLMs > 0) || it.TTLMs-max(x.TTL, 0).Milliseconds() > 1 || it.TTLMs < max(x.TTL, 0).Milliseconds() {
				return fmt.Sprintf("item %d carries ttl_ms %d, the caller asked for %v", k, it.TTLMs, x.TTL)
			}
		}
		if s.results != nil {
			for k, r := range s.results {
				if r.ok && r.bytes != len(o.bset[k].Value) {
					return fmt.Sprintf("item %d arrived with %d bytes of %d", k, r.bytes, len(o.bset[k].Value))
				}
			}
		}
	case "bget", "bdel":
		if s.keys != nil && !slices.Equal(s.keys, o.keys) {
			return fmt.Sprintf("node%d received keys %q", s.node, s.keys)
		}
	case "can":
		if s.key != "" && s.key != o.key {
			return fmt.Sprintf("node%d was asked for capability %q", s.node, s.key)
		}
	}

	return ""
}

func splitPath(raw string) (key string, q url.Values) {
	u, err := url.Parse(raw)
	if err != nil {
		return "!" + err.Error(), nil
	}
	k, err := url.PathUnescape(strings.TrimPrefix(u.EscapedPath(), "/v1/cache/"))
	if err != nil {
		return "!" + err.Error(), nil
	}

	return k, u.Query()
}

func parseTTL(q url.Values) (time.Duration, error) {
	if q.Get("ttl") == "" {
		return 0, nil
	}

	return time.ParseDuration(q.Get("ttl"))
}
