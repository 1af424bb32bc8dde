package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	fiber "github.com/gofiber/fiber/v3"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// "peerauth": a cluster as shipped, over HTTP, whose nodes authenticate each
// other by a shared token or by signatures, serves its clients while strangers
// try every endpoint with every kind of wrong credentials: they neither learn
// nor change anything, and the nodes never refuse one another.

func init() {
	simkit.Register(&simkit.Scenario{Name: "peerauth", Gen: genPeerAuth, Exec: execPeerAuth, MaxYields: 1_000_000_000})
}

const (
	authToken   = iota
	authSigned  // signatures alone
	authReplace // a token is configured, the verifier replaces it
	authBoth    // a token is verified; the signer sends it and more
	authOpen    // signed, open to anyone by choice
	authModes
)

var authTokens = []string{"s3cret-token", "x", "Bearer", "with space", "t:k/=+,;\"", strings.Repeat("long", 90)}

func genPeerAuth(r *simkit.Rand, tier string) *simkit.Plan {
	n := r.I(2, 4)
	p := &simkit.Plan{P: map[string]int64{
		"http": 1, "nodes": int64(n), "rf": int64(r.I(1, 3)), "wc": int64(r.I(1, 2)), "rc": 1, "vnodes": 4, "shards": simkit.Pick(r, int64(1), 4),
		"gzip": simkit.Pick(r, int64(0), 1), "auth": int64(r.PickW(4, 2, 2, 2, 1)), "token": int64(r.N(len(authTokens))),
		"stranger": int64(r.N(4)), "spread": int64(r.N(1000)), "sync_ms": simkit.Pick(r, int64(0), 20), "chunk": 2,
		"gossip_ms": simkit.Pick(r, int64(0), 30), "hint_ttl_ms": simkit.Pick(r, int64(0), 5000), "hint_ms": 30,
		"repair_ms": simkit.Pick(r, int64(0), 10), "repair_max": 2, "parallel": int64(r.N(2)),
	}, Rates: map[string]int64{}}
	if r.N(3) == 0 {
		p.P["faulty"] = 1
		for _, f := range []string{"net-refuse", "net-slow-dial", "net-reset", "net-delay", "net-stall", "net-split", "net-cut"} {
			p.Rates[f] = simkit.Pick(r, int64(0), 300, 1500)
		}
	} else {
		p.Rates["net-delay"], p.Rates["net-split"] = simkit.Pick(r, int64(0), 800), simkit.Pick(r, int64(0), 2000)
		if r.N(2) == 0 {
			p.P["hb_ms"], p.P["suspect_ms"], p.P["dead_ms"] = 40, 30000, 60000
			p.P["indirect"], p.P["indirect_ms"] = int64(r.N(2)), 5000
		}
	}
	for t := range r.I(2, 4) {
		var ops []simkit.Op
		for range r.I(5, 16) {
			op := simkit.Op{
				K: []string{"set", "get", "remove", "attack", "impostor", "cluster"}[r.PickW(6, 5, 1, 8, 3, 2)],
				A: int64(r.N(3)), B: int64(r.N(12)), C: int64(r.N(1 << 30)),
			}
			if t == 0 {
				op.K = "attack"
			}
			ops = append(ops, op)
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

func sig(token, method string) string { return "sig/" + method + "/" + token }

var errNoKey = errors.New("no signing key")

// attacks are requests that would read or change a node. V stands for a key of
// the cluster's clients, N for a member.
var attacks = []rawReq{
	{"POST", "/internal/set", "", `{"key":"V","value":"evil","version":1099511627776,"origin":"evil","replicate":true}`},
	{"POST", "/internal/set", "", `{"key":"evil","value":"evil","version":1099511627776,"origin":"evil"}`},
	{"POST", "/internal/cache/set", "", `{"key":"V","value":"evil","version":1099511627776,"origin":"evil"}`},
	{"POST", "/internal/cache/set", "", `{"key":"evil","value":"evil","replicate":true}`},
	{"GET", "/internal/get?key=V", "", ""},
	{"GET", "/internal/cache/get?key=V", "", ""},
	{"HEAD", "/internal/get?key=V", "", ""},
	{"DELETE", "/internal/del?key=V", "", ""},
	{"DELETE", "/internal/del?key=V&replicate=true", "", ""},
	{"DELETE", "/internal/cache/remove?key=V&replicate=true", "", ""},
	{"GET", "/health", "", ""},
	{"POST", "/dist/drain", "", ""},
	{"GET", "/internal/probe?target=N", "", ""},
	{"POST", "/internal/gossip", "", `[{"id":"evil","address":"evil.sim:7000","state":"alive","incarnation":99}]`},
	{"POST", "/internal/gossip", "", `[{"id":"N","address":"evil.sim:7000","state":"dead","incarnation":99}]`},
	{"GET", "/internal/merkle", "", ""},
	{"GET", "/internal/keys", "", ""},
	{"GET", "/internal/keys?cursor=0&limit=1&q=V", "", ""},
}

// canonical: the request is one a member would send, and must be refused as
// unauthorised; a variant may also be unknown.
func variant(target string, v int64) (string, bool) {
	path, q, _ := strings.Cut(target, "?")
	if q != "" {
		q = "?" + q
	}
	switch v {
	case 1:
		return strings.ToUpper(path) + q, false
	case 2:
		return path + "/" + q, false
	case 3:
		return "/" + path + q, false
	case 4:
		return "/internal/.." + path + q, false
	case 5:
		return "/%" + fmt.Sprintf("%x", path[1]) + path[2:] + q, false
	case 6:
		return "http://elsewhere" + path + q, false
	}

	return target, true
}

// wrongCredentials are headers that do not authenticate anyone.
func wrongCredentials(mode int64, tok string) []string {
	out := []string{
		"", "Authorization: \r\n", "Authorization: Bearer\r\n", "Authorization: Bearer \r\n",
		"Authorization: " + "Basic " + tok + "\r\n", "Authorization: Bearer " + tok + "x\r\n", "Authorization: Bearer x" + tok + "\r\n",
		"Authorization: Bearer " + tok[:len(tok)-1] + "\r\n", "Authorization: bearer " + tok + "\r\n", "Authorization: Bearer  " + tok + "\r\n",
		"Authorization: Bearer " + tok + ", Bearer " + tok + "\r\n", "X-Authorization: Bearer " + tok + "\r\n", "Proxy-Authorization: Bearer " + tok + "\r\n",
		"Cookie: Authorization=Bearer " + tok + "\r\n", "X-Forwarded-For: 127.0.0.1\r\n", "X-Sig: wrong\r\n", "Authorization: Bearer null\r\n",
		"Authorization: Bearer " + strings.Repeat("a", len(tok)) + "\r\n",
	}
	if tok != "Bearer" {
		out = append(out, "Authorization: "+tok+"\r\n")
	}
	if mode == authReplace || mode == authSigned {
		// the signature is what counts
		out = append(out, "Authorization: Bearer "+tok+"\r\n", "X-Sig: \r\nAuthorization: Bearer "+tok+"\r\n")
	} else {
		out = append(out, "X-Sig: "+sig(tok, "GET")+"\r\n")
	}

	return out
}

func execPeerAuth(env *simkit.Env) {
	w := newWorld(env)
	w.shipped = true
	mode := env.P("auth") % authModes
	tok := authTokens[int(env.P("token"))%len(authTokens)]
	faulty := env.P("faulty") == 1
	var refused atomic.Int64 // members' own requests
	signer := func(r *http.Request) error {
		r.Header.Set("X-Sig", sig(tok, r.Method))
		if mode == authBoth {
			r.Header.Set("Authorization", "Bearer "+tok)
		}

		return nil
	}
	verifier := func(c fiber.Ctx) error {
		if c.Get("X-Sig") != sig(tok, c.Method()) {
			if c.Get("X-Attack") == "" {
				refused.Add(1)
			}

			return errors.New("bad signature")
		}

		return nil
	}
	policy := backend.DistHTTPAuth{}
	switch mode {
	case authToken:
		policy.Token = tok
	case authSigned:
		policy.ServerVerify, policy.ClientSign = verifier, signer
	case authReplace:
		policy.Token, policy.ServerVerify, policy.ClientSign = tok, verifier, signer
	case authBoth:
		policy.Token, policy.ClientSign = tok, signer
	case authOpen:
		policy.ClientSign, policy.AllowAnonymousInbound = signer, true
	}
	member := baseOpts(env)
	w.opts = func(id string) []backend.DistMemoryOption {
		return append(member[:len(member):len(member)], backend.WithDistHTTPAuth(policy))
	}

	// signing without verifying takes an explicit choice
	bad := backend.DistHTTPAuth{ClientSign: signer}
	if b, err := backend.NewDistMemory(context.Background(), backend.WithDistNode("odd", addrOf("odd")), backend.WithDistHTTPAuth(bad)); !errors.Is(err, sentinel.ErrInsecureAuthConfig) {
		env.Fail("config", "a node that signs and verifies nothing: %v, %v", b, err)
	}

	nodes := w.boot(max(2, env.PI("nodes")))
	last := nodes[len(nodes)-1]
	ctx := context.Background()
	var stranger *node
	opts := w.opts
	if s := env.P("stranger"); s > 0 && mode != authOpen {
		// a node of another cluster is given our members as its seeds
		p := backend.DistHTTPAuth{Token: "other", ServerVerify: func(fiber.Ctx) error { return nil }, ClientSign: func(r *http.Request) error {
			r.Header.Set("X-Attack", "stranger")
			switch s {
			case 2:
				r.Header.Set("Authorization", "Bearer other")
				r.Header.Set("X-Sig", "other")
			case 3:
				if mode == authToken || mode == authBoth {
					r.Header.Set("Authorization", "Bearer "+tok)
				}
				r.Header.Set("X-Sig", sig(tok, r.Method))

				return errNoKey // its signer fails: nothing may leave
			}

			return nil
		}}
		w.opts = func(string) []backend.DistMemoryOption {
			return append(member[:len(member):len(member)], backend.WithDistHTTPAuth(p))
		}
		stranger = w.start("stranger", nodes)
		w.opts = opts
	}
	resolve := func(id string) (string, bool) { return "http://" + addrOf(id), contains(nodes, id) }
	insider := backend.NewDistHTTPTransportWithAuth(w.httpLimits(), policy, resolve)
	impostors := []backend.DistTransport{
		backend.NewDistHTTPTransportWithLimits(w.httpLimits(), resolve),
		backend.NewDistHTTPTransportWithAuth(w.httpLimits(), backend.DistHTTPAuth{Token: tok + "x"}, resolve),
		backend.NewDistHTTPTransportWithAuth(w.httpLimits(), backend.DistHTTPAuth{Token: tok, ClientSign: func(r *http.Request) error {
			r.Header.Set("X-Attack", "impostor")
			r.Header.Set("X-Sig", "other")

			return nil
		}}, resolve),
		backend.NewDistHTTPTransportWithAuth(w.httpLimits(), backend.DistHTTPAuth{Token: tok, ClientSign: func(r *http.Request) error {
			_ = signer(r)

			return errNoKey
		}}, resolve),
	}
	if mode == authSigned || mode == authReplace { // the verifier counts what it does not know
		impostors[0], impostors[1] = impostors[2], impostors[2]
	}
	var mu sync.Mutex
	written := map[string]bool{} // key=value
	var attacked atomic.Bool
	at := func(i int64) string { return nodes[i%int64(len(nodes))] }
	key := func(t int, a int64) string { return fmt.Sprintf("victim-%d-%d", t, a%3+env.P("spread")) }
	env.Par(func(t int, ops []simkit.Op) {
		value := map[string]string{}
		known := map[string]bool{}
		for i, op := range ops {
			k := key(t, op.A)
			n := w.get(at(op.B))
			switch op.K {
			case "set":
				v := fmt.Sprintf("hush|%s|%d", k, i)
				mu.Lock()
				written[k+"="+v] = true
				mu.Unlock()
				err := n.dm.Set(ctx, &cache.Item{Key: k, Value: v})
				if err != nil && !faulty {
					env.Fail("refused", "Set %s at %s: %v", k, n.id, err)
				}
				value[k], known[k] = v, err == nil
				env.Probe("write")
			case "remove":
				if err := n.dm.Remove(ctx, k); err != nil && !faulty {
					env.Fail("refused", "Remove %s at %s: %v", k, n.id, err)
				}
				value[k], known[k] = "", env.P("rf") == 1 // replicas follow at best effort
			case "get":
				it, ok := n.dm.Get(ctx, k)
				if known[k] && !faulty {
					if got := text(it); got != value[k] || ok != (value[k] != "") {
						env.Fail("refused", "Get %s at %s: %q %v, wrote %q", k, n.id, got, ok, value[k])
					}
					env.Nontrivial()
				}
			case "cluster":
				to := at(op.C)
				var err error
				what := []string{"Health", "IndirectHealth", "Gossip", "FetchMerkle", "ListKeys", "ForwardGet"}[op.B%6]
				switch what {
				case "Health":
					err = insider.Health(ctx, to)
				case "IndirectHealth":
					err = insider.IndirectHealth(ctx, to, at(op.C+1))
				case "Gossip":
					err = insider.Gossip(ctx, to, []backend.GossipMember{{ID: to, Address: addrOf(to), State: "alive"}})
				case "FetchMerkle":
					_, err = insider.FetchMerkle(ctx, to)
				case "ListKeys":
					_, err = insider.ListKeys(ctx, to, "")
				case "ForwardGet":
					_, _, err = insider.ForwardGet(ctx, to, k)
				}
				if err != nil && !faulty {
					env.Fail("refused", "%s to %s with the cluster's credentials: %v", what, to, err)
				}
			case "attack":
				if mode == authOpen {
					continue
				}
				attacked.Store(true)
				creds := wrongCredentials(mode, tok)
				q := attacks[op.C%int64(len(attacks))]
				victim := key(int(op.C/32)%len(env.Plan.Threads), op.A)
				rep := strings.NewReplacer("V", victim, "N", at(op.C/64))
				q.body = rep.Replace(q.body)
				target := rep.Replace(q.target)
				var strict bool
				q.target, strict = variant(target, max(0, op.C/128%14-7))
				q.head = creds[op.C/2048%int64(len(creds))]
				strike(env, q, at(op.B), faulty, strict, op.C/65536%3, mode, tok, victim)
			case "impostor":
				if mode == authOpen {
					continue
				}
				attacked.Store(true)
				x := impostors[op.C%4]
				to := at(op.B)
				victim := key(int(op.C/4)%len(env.Plan.Threads), op.A)
				what := []string{"ForwardSet", "ForwardGet", "ForwardRemove", "Health", "IndirectHealth", "Gossip", "FetchMerkle", "ListKeys"}[op.C/64%8]
				var err error
				var got any
				switch what {
				case "ForwardSet":
					err = x.ForwardSet(ctx, to, &cache.Item{Key: victim, Value: "evil", Version: 1 << 40, Origin: "evil"}, op.C/512%2 == 0)
				case "ForwardGet":
					it, ok, e := x.ForwardGet(ctx, to, victim)
					err = e
					if it != nil || ok {
						got = it
					}
				case "ForwardRemove":
					err = x.ForwardRemove(ctx, to, victim, op.C/512%2 == 0)
				case "Health":
					err = x.Health(ctx, to)
				case "IndirectHealth":
					err = x.IndirectHealth(ctx, to, at(op.C/512))
				case "Gossip":
					err = x.Gossip(ctx, to, []backend.GossipMember{{ID: "evil", Address: addrOf("evil"), State: "alive", Incarnation: 9}})
				case "FetchMerkle":
					tr, e := x.FetchMerkle(ctx, to)
					err = e
					if tr != nil {
						got = tr
					}
				case "ListKeys":
					ks, e := x.ListKeys(ctx, to, "")
					err = e
					if len(ks) > 0 {
						got = ks
					}
				}
				if err == nil || got != nil {
					env.Fail("admitted", "%s to %s as impostor %d: %v, %v", what, to, op.C%4, got, err)
				}
				if op.C%4 == 3 && !errors.Is(err, errNoKey) {
					env.Fail("admitted", "%s to %s with a signer that fails: %v", what, to, err)
				}
				env.Probe("impostor-refused")
			}
			if stranger != nil && i%3 == t%3 {
				k := key(int(op.C/256)%len(env.Plan.Threads), op.A)
				switch op.C / 1024 % 3 {
				case 0:
					if it, ok := stranger.dm.Get(ctx, k); ok && strings.HasPrefix(text(it), "hush") {
						env.Fail("admitted", "a stranger reads %s: %v", k, it.Value)
					}
				case 1:
					_ = stranger.dm.Set(ctx, &cache.Item{Key: k, Value: "evil", Version: 1 << 40})
				case 2:
					_ = stranger.dm.Remove(ctx, k)
				}
				env.Probe("stranger-acted")
			}
		}
		if !faulty {
			for k, v := range value {
				if !known[k] {
					continue
				}
				for _, id := range nodes {
					it, ok := w.get(id).dm.Get(ctx, k)
					if text(it) != v || ok != (v != "") {
						env.Fail("refused", "in the end %s reads %s as %q %v, it was written %q", id, k, text(it), ok, v)
					}
				}
			}
		}
	})
	env.StopFaults()
	time.Sleep(2 * time.Second)
	for _, id := range nodes {
		n := w.get(id)
		if n.dm.IsDraining() {
		}
		for k, it := range keysOf(n.dm) {
			if !written[k+"="+text(it)] {
				env.Fail("admitted", "%s holds %s=%v, which no client wrote", id, k, it.Value)
			}
			env.Observe(id + k + text(it))
		}
		for m, st := range viewOf(n) {
			if !contains(nodes, m) {
				env.Fail("admitted", "%s lists %s", id, m)
			}
			if st.String() != "alive" && !faulty && m != last {
				env.Fail("admitted", "%s lists %s as %s", id, m, st)
			}
		}
		if len(viewOf(n)) != len(nodes) && !faulty {
			env.Fail("admitted", "%s lists %v", id, viewOf(n))
		}
	}
	if stranger != nil {
		for k, it := range keysOf(stranger.dm) {
			if strings.HasPrefix(text(it), "hush") {
				env.Fail("admitted", "a stranger came by %s=%v", k, it.Value)
			}
		}
	}
	if n := refused.Load(); n > 0 {
		env.Fail("unsigned", "%d requests of members carried no valid signature", n)
	}
	if attacked.Load() {
		env.Nontrivial()
	}
	w.stopAll()
}

// text is the string an item carries, however it travelled.
func text(it *cache.Item) string {
	if it == nil {
		return ""
	}
	switch v := it.Value.(type) {
	case string:
		return v
	default:
		return strings.Trim(fmt.Sprintf("%s", v), `"`)
	}
}

// strike sends one request without valid credentials, alone or behind a valid
// one on the same connection: it is refused and its answer gives nothing away.
func strike(env *simkit.Env, q rawReq, to string, faulty, strict bool, style, mode int64, tok, victim string) {
	conn, err := (&net.Dialer{}).DialContext(context.Background(), "tcp", addrOf(to))
	if err != nil {
		if !faulty {
			env.Fail("unreachable", "dial %s: %v", to, err)
		}

		return
	}
	defer conn.Close()
	_ = conn.SetDeadline(time.Now().Add(time.Minute))
	good := "GET /health HTTP/1.1\r\nHost: x\r\nAuthorization: Bearer " + tok + "\r\nX-Sig: " + sig(tok, "GET") + "\r\nX-Attack: no\r\n\r\n"
	body := ""
	if q.method == "POST" {
		body = fmt.Sprintf("Content-Type: application/json\r\nContent-Length: %d\r\n", len(q.body))
	}
	evil := fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\nX-Attack: yes\r\n%s%s\r\n%s", q.method, q.target, q.head, body, q.body)
	br := bufio.NewReader(conn)
	fetch := func(method string) (int, []byte, error) {
		resp, err := http.ReadResponse(br, &http.Request{Method: method})
		if err != nil {
			return 0, nil, err
		}
		defer resp.Body.Close()
		b, err := io.ReadAll(resp.Body)

		return resp.StatusCode, b, err
	}
	if style == 2 {
		_, _ = io.WriteString(conn, good+evil)
	} else if style == 1 {
		_, _ = io.WriteString(conn, good)
	}
	if style > 0 {
		st, _, err := fetch("GET")
		if err == nil && faulty && st == 408 {
			return // it took too long to arrive
		}
		if err != nil && !faulty || err == nil && st != 200 {
			env.Fail("refused", "GET /health of %s with the cluster's credentials: %d %v", to, st, err)
		}
		if err != nil {
			return
		}
	}
	if style < 2 {
		_, _ = io.WriteString(conn, evil)
	}
	st, b, err := fetch(q.method)
	if err != nil {
		if !faulty {
			env.Fail("unanswered", "%s %s to %s: %v", q.method, q.target, to, err)
		}

		return
	}
	env.Observe(fmt.Sprint(st))
	ok := st == 401 || st == 400 || faulty && st == 408
	if !strict {
		ok = st >= 300 && st < 500
	}
	if !ok {
		env.Fail("admitted", "%s %s to %s with %q answered %d: %.200s", q.method, q.target, to, q.head, st, b)
	}
	for _, s := range []string{"hush", victim, "leaf_hashes", "next_cursor"} {
		if bytes.Contains(b, []byte(s)) && (strict || s != victim) {
			env.Fail("admitted", "%s %s to %s with %q answered %d: %.200s", q.method, q.target, to, q.head, st, b)
		}
	}
	env.Probe("attack-refused")
}
