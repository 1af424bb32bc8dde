package main

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"log/slog"
	"net"
	"net/http"
	"net/url"
	"slices"
	"strings"
	"sync"
	"time"

	"golang.org/x/oauth2/clientcredentials"

	"github.com/hyp3rd/hypercache/pkg/client"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
	"github.com/hyp3rd/hypercache/zzsim/simnet"
)

// A credentials run: the client is built with a random sequence of options;
// nodes and the identity provider fail; tokens expire. Every request any node
// receives must carry exactly the credential of the last auth option.

func init() {
	for _, n := range []string{"creds", "creds-race"} {
		simkit.Register(&simkit.Scenario{Name: n, Gen: func(r *simkit.Rand, _ string) *simkit.Plan { return genCreds(r, n == "creds-race") }, Exec: execCreds, Gaps: []uint64{0, 16, 64, 256, 1024}})
	}
}

func genCreds(r *simkit.Rand, quiet bool) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{
		"nodes": int64(r.I(1, 3)), "life": int64(simkit.Pick(r, 15, 30, 60, 300)), "refresh": int64(simkit.Pick(r, 0, 0, 1, 5)),
	}, Rates: map[string]int64{}}
	if !quiet {
		for _, k := range []string{"http-5xx", "http-503", "net-refuse", "net-reset", "net-delay", "http-slow", "idp-fail", "idp-slow", "idp-cut"} {
			if r.P(1, 3) {
				p.Rates[k] = int64(r.I(100, 3000))
			}
		}
	}
	// Thread 0 lists the options, in order.
	var opts []simkit.Op
	opts = append(opts, simkit.Op{K: "seq"})
	for range r.I(0, 3) {
		opts = append(opts, simkit.Op{K: simkit.Pick(r, "http", "bearer", "basic", "oidc", "logger"), A: int64(r.N(4))})
	}
	if quiet || r.P(1, 2) {
		opts = append(opts, simkit.Op{K: "oidc", A: int64(r.N(4))})
	} else {
		opts = append(opts, simkit.Op{K: simkit.Pick(r, "bearer", "basic", "oidc"), A: int64(r.N(4))})
	}
	if r.P(1, 2) {
		opts = append(opts, simkit.Op{K: "logger"})
	}
	p.Threads = append(p.Threads, opts)
	for range r.I(1, 4) {
		var ops []simkit.Op
		for range r.I(2, 10) {
			switch r.N(4) {
			case 0:
				ops = append(ops, simkit.Op{K: "sleep", A: int64(r.I(1, 40000))})
			default:
				ops = append(ops, simkit.Op{K: simkit.Pick(r, "get", "set", "me", "bget", "refresh"), A: int64(r.N(3))})
			}
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

type issued struct {
	tok string
	at  time.Duration
}

type idp struct {
	env     *simkit.Env
	mu      sync.Mutex
	tokens  map[string]issued
	n       int
	life    time.Duration
	bad     string
	id      string
	secret  string
	noVia   int
	viaWant string
	reqs    int
}

func (p *idp) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	r.ParseForm()
	p.mu.Lock()
	p.reqs++
	u, s, ok := r.BasicAuth()
	if !ok {
		u, s = r.PostForm.Get("client_id"), r.PostForm.Get("client_secret")
	} else {
		u, _ = url.QueryUnescape(u)
		s, _ = url.QueryUnescape(s)
	}
	if u != p.id || s != p.secret || r.PostForm.Get("grant_type") != "client_credentials" || r.PostForm.Get("audience") != "cache" || r.PostForm.Get("scope") != "a b" {
		p.bad = fmt.Sprintf("token request with client %q/%q, form %v", u, s, r.PostForm)
	}
	if r.Header.Get("X-Via") != p.viaWant {
		p.noVia++
	}
	p.mu.Unlock()
	if ok, v := p.env.Fault("idp-slow", "idp"); ok {
		time.Sleep(time.Duration(v%20000) * time.Millisecond)
	}
	if ok, v := p.env.Fault("idp-fail", "idp"); ok {
		w.WriteHeader([]int{500, 503, 429, 400}[v%4])
		w.Write([]byte(`{"error":"temporarily_unavailable"}`))

		return
	}
	p.mu.Lock()
	p.n++
	tok := fmt.Sprintf("tok-%d-%s", p.n, strings.Repeat("z", p.n%5))
	p.tokens[tok] = issued{tok, p.env.Now()}
	p.mu.Unlock()
	b, _ := json.Marshal(map[string]any{"access_token": tok, "token_type": "Bearer", "expires_in": int(p.life / time.Second)})
	if ok, v := p.env.Fault("idp-cut", "idp"); ok {
		if c, _ := r.Context().Value(connKey{}).(*simnet.Conn); c != nil {
			c.CutAfter(1+int(v%uint64(150+len(b))), v>>40%2 == 0)
		}
	}
	w.Header().Set("Content-Type", "application/json")
	w.Write(b)
}

// logSink counts rotation lines and looks for secrets.
type logSink struct {
	mu       sync.Mutex
	rotated  int
	text     strings.Builder
	untilNow int
}

func (s *logSink) Enabled(context.Context, slog.Level) bool { return true }
func (s *logSink) WithAttrs([]slog.Attr) slog.Handler       { return s }
func (s *logSink) WithGroup(string) slog.Handler            { return s }
func (s *logSink) Handle(_ context.Context, r slog.Record) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if r.Message == "oidc token rotated" {
		s.rotated++
	}
	fmt.Fprint(&s.text, r.Level, " ", r.Message)
	r.Attrs(func(a slog.Attr) bool { fmt.Fprint(&s.text, " ", a.String()); return true })
	s.text.WriteByte('\n')

	return nil
}

func execCreds(env *simkit.Env) {
	n := max(env.PI("nodes"), 1)
	f := newFleet(env, n)
	f.members = func() ([]memberRow, bool) {
		var rows []memberRow
		for i, a := range f.addrs {
			rows = append(rows, memberRow{fmt.Sprint(i), a, "alive"})
		}

		return rows, false
	}
	sh := &recShared{}
	provider := &idp{env: env, tokens: map[string]issued{}, life: time.Duration(max(env.P("life"), 12)) * time.Second}
	il, err := f.net.Listen("10.0.1.1:443")
	if err != nil {
		env.Fail("harness", "%v", err)
	}
	isrv := &http.Server{
		Handler: provider, ErrorLog: log.New(io.Discard, "", 0),
		ConnContext: func(ctx context.Context, c net.Conn) context.Context { return context.WithValue(ctx, connKey{}, c) },
	}
	go isrv.Serve(il)
	def := newTransport()
	oldDefault := http.DefaultTransport
	http.DefaultTransport = &recorder{env: env, base: def, sh: sh}
	sink := &logSink{}
	var opts []client.Option
	var transports []*http.Transport
	timeout := 10 * time.Second
	kind, want, via := "", "", ""
	var secrets []string
	if len(env.Plan.Threads) == 0 {
		env.Plan.Threads = [][]simkit.Op{{}}
	}
	for _, op := range env.Plan.Threads[0] {
		switch op.K {
		case "http":
			tr := newTransport()
			transports = append(transports, tr)
			via = fmt.Sprintf("inj%d", len(transports))
			timeout = time.Duration(2+op.A) * time.Second
			opts = append(opts, client.WithHTTPClient(&http.Client{Transport: &recorder{env: env, via: via, base: tr, sh: sh}, Timeout: timeout}))
			kind, want = "", ""
		case "bearer":
			tok := fmt.Sprintf("static-%d+/=", op.A)
			opts = append(opts, client.WithBearerAuth(tok))
			kind, want = "static", "Bearer "+tok
			secrets = append(secrets, tok)
		case "basic":
			u, pw := fmt.Sprintf("user%d", op.A), []string{"p:w", "päss", "x y", "zzz"}[op.A%4]
			opts = append(opts, client.WithBasicAuth(u, pw))
			kind, want = "static", "Basic "+base64.StdEncoding.EncodeToString([]byte(u+":"+pw))
			secrets = append(secrets, want)
		case "oidc":
			provider.id, provider.secret = fmt.Sprintf("client%d", op.A), fmt.Sprintf("s3cr&t=%d", op.A)
			secrets = append(secrets, provider.secret)
			opts = append(opts, client.WithOIDCClientCredentials(clientcredentials.Config{
				ClientID: provider.id, ClientSecret: provider.secret, TokenURL: "http://10.0.1.1:443/token", Scopes: []string{"a", "b"},
				EndpointParams: url.Values{"audience": {"cache"}},
			}))
			kind, want = "oidc", ""
			provider.viaWant = via
		case "logger":
			opts = append(opts, client.WithLogger(slog.New(sink)))
		}
	}
	hasLogger := slices.ContainsFunc(env.Plan.Threads[0], func(o simkit.Op) bool { return o.K == "logger" })
	if r := env.P("refresh"); r > 0 {
		opts = append(opts, client.WithTopologyRefresh(time.Duration(r)*time.Second))
	}
	seeds := []string{}
	for _, a := range f.addrs {
		seeds = append(seeds, "http://"+a)
	}
	c, err := client.New(seeds, opts...)
	if err != nil {
		env.Fail("construction", "New failed: %v", err)
	}
	plan := env.Plan.Threads
	msgs := make([]string, len(plan))
	do := func(ctx context.Context, k string) error {
		switch k {
		case "get":
			_, err := c.Get(ctx, "k")

			return err
		case "set":
			return c.Set(ctx, "k", []byte("v"), 0)
		case "me":
			_, err := c.Identity(ctx)

			return err
		case "bget":
			_, err := c.BatchGet(ctx, []string{"k"})

			return err
		case "refresh":
			return c.RefreshTopology(ctx)
		}

		return nil
	}
	env.Par(func(t int, ops []simkit.Op) {
		if t == 0 {
			return
		}
		for i, op := range ops {
			if op.K == "sleep" {
				time.Sleep(time.Duration(op.A) * time.Millisecond)

				continue
			}
			ctx, cancel := context.WithTimeout(context.WithValue(context.Background(), opKey{}, fmt.Sprintf("t%d.%d", t, i)), 5*time.Minute)
			t0 := env.Now()
			do(ctx, op.K)
			if d := env.Now() - t0; d > time.Duration(2*n)*timeout+21*time.Second*time.Duration(len(plan)*n) {
				msgs[t] = fmt.Sprintf("%s took %v with a client timeout of %v", op.K, d, timeout)
			}
			cancel()
		}
	})
	for _, m := range msgs {
		if m != "" {
			env.Fail("hang", "%s", m)
		}
	}
	env.StopFaults()
	// A token the provider handed out is valid again, a lost one is fetched anew.
	for range 2 {
		ctx := context.WithValue(context.Background(), opKey{}, "final")
		if err := do(ctx, "set"); err != nil {
			env.Fail("no-recovery", "with every node and the provider healthy a command fails: %v", err)
		}
		time.Sleep(provider.life + time.Second)
	}
	c.Close()
	if provider.bad != "" {
		env.Fail("token-request", "%s", provider.bad)
	}
	if provider.noVia > 0 {
		env.Fail("transport-bypassed", "%d token requests did not go through the transport %q injected before the auth option", provider.noVia, provider.viaWant)
	}
	used := map[string]bool{}
	for _, a := range sh.all {
		env.Observe(fmt.Sprint(a.endpoint, a.status, a.netErr != nil, a.op))
		if strings.HasSuffix(a.url, "/token") {
			continue
		}
		if a.end-a.start > timeout+time.Second {
			env.Fail("attempt-timeout", "an attempt took %v, the client's timeout is %v", a.end-a.start, timeout)
		}
		if via != "" && !a.via {
			env.Fail("transport-bypassed", "%s %s did not go through the injected transport", a.method, a.url)
		}
		switch kind {
		case "":
			if len(a.auth) > 0 && env.Plan.Threads[0][0].K == "seq" && len(opts) == 0 {
				env.Fail("wrong-credential", "an anonymous client sent %q", a.auth)
			}
		case "static":
			if len(a.auth) != 1 || a.auth[0] != want {
				env.Fail("wrong-credential", "%s %s carries %q, the last auth option configured %q", a.method, a.url, a.auth, want)
			}
		case "oidc":
			if len(a.auth) != 1 || !strings.HasPrefix(a.auth[0], "Bearer ") {
				env.Fail("wrong-credential", "%s %s carries %q instead of a provider token", a.method, a.url, a.auth)
			}
			tok := strings.TrimPrefix(a.auth[0], "Bearer ")
			is, ok := provider.tokens[tok]
			if !ok {
				env.Fail("wrong-credential", "%s %s carries %q, which the provider never issued", a.method, a.url, a.auth)
			}
			if age := a.start - is.at; age > provider.life {
				env.Fail("expired-token", "%s %s was sent with a token %v old; tokens live %v", a.method, a.url, age, provider.life)
			}
			used[tok] = true
		}
	}
	if kind == "oidc" {
		if provider.n > 1 {
			env.Probe("token-rotated")
		}
		if hasLogger && sink.rotated != len(used) {
			env.Fail("rotation-log", "%d rotation lines for %d tokens taken into use", sink.rotated, len(used))
		}
	}
	text := sink.text.String()
	for _, s := range secrets {
		if strings.Contains(text, s) {
			env.Fail("secret-logged", "the log contains the secret %q", s)
		}
	}
	for _, tok := range simkit.SortedKeys(provider.tokens) {
		if strings.Contains(text, tok) {
			env.Fail("secret-logged", "the log contains the access token %q", tok)
		}
	}
	env.Ops(len(sh.all))
	if kind != "" && len(sh.all) > 3 {
		env.Nontrivial()
	}
	f.stop()
	isrv.Close()
	def.CloseIdleConnections()
	for _, t := range transports {
		t.CloseIdleConnections()
	}
	http.DefaultTransport = oldDefault
	f.net.Uninstall()
	time.Sleep(2 * time.Minute)
}
