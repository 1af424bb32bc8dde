package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"strings"
	"sync"
	"time"

	fiber "github.com/gofiber/fiber/v3"
	"golang.org/x/crypto/bcrypt"

	"github.com/hyp3rd/hypercache/pkg/httpauth"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
	"github.com/hyp3rd/hypercache/zzsim/simnet"
)

// An auth run: a real fiber server with routes behind the policy, and raw HTTP
// connections that keep alive, pipeline, split and break off while presenting
// every kind of right, wrong and malformed credential. A reference resolver
// says who each request is.

func init() {
	for _, n := range []string{"auth", "auth-race"} {
		simkit.Register(&simkit.Scenario{Name: n, Gen: func(r *simkit.Rand, _ string) *simkit.Plan { return genAuth(r, n == "auth-race") }, Exec: execAuth, Gaps: []uint64{0, 16, 64, 256, 1024}})
	}
	simkit.Register(&simkit.Scenario{Name: "authconf", Gen: genAuthConf, Exec: execAuthConf})
}

func genAuth(r *simkit.Rand, quiet bool) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{
		"tokens": int64(r.N(4)), "users": int64(r.N(4)), "certs": int64(r.N(3)), "verify": int64(r.N(2)), "anon": int64(r.PickW(3, 1)), "plain": int64(r.N(2)),
	}, Rates: map[string]int64{}}
	if !quiet {
		for _, k := range []string{"net-split", "net-delay", "net-reset", "verify-slow"} {
			if r.P(1, 2) {
				p.Rates[k] = int64(r.I(100, 2500))
			}
		}
	}
	for range r.I(1, 4) {
		ops := []simkit.Op{{K: "conn", A: int64(r.N(len(connKinds)))}}
		for range r.I(2, 14) {
			switch r.N(8) {
			case 0:
				ops = append(ops, simkit.Op{K: "conn", A: int64(r.N(len(connKinds)))})
			case 1:
				ops = append(ops, simkit.Op{K: "sleep", A: int64(r.I(1, 20))})
			default:
				ops = append(ops, simkit.Op{K: "req", A: int64(r.N(1 << 16)), B: int64(r.N(27)), C: int64(r.N(4))})
			}
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

var scopeSets = [][]httpauth.Scope{
	{httpauth.ScopeRead}, {httpauth.ScopeWrite}, {httpauth.ScopeRead, httpauth.ScopeWrite},
	{httpauth.ScopeAdmin}, {httpauth.ScopeRead, httpauth.ScopeWrite, httpauth.ScopeAdmin},
	{}, // known, and allowed nothing
}

// "cert:" connections have a verified chain; "issued:" ones are verified too,
// and it is the issuer that bears the name.
var connKinds = []string{"plain", "tls", "cert:cn0", "cert:cn1", "unverified:cn0", "plain", "tls", "cert:cn0", "cert:cn0.example", "cert:CN0", "cert:cn", "cert:", "issued:cn0"}

var passwords = []string{"pw-one", "two:colons:", "päss wörd"}

var hashes = func() [][]byte {
	var out [][]byte
	for _, p := range passwords {
		h, err := bcrypt.GenerateFromPassword([]byte(p), bcrypt.MinCost)
		if err != nil {
			panic(err)
		}
		out = append(out, h)
	}

	return out
}()

func hookScopes(who string) []httpauth.Scope {
	return scopeSets[int(simkit.HashString(who)%uint64(len(scopeSets)))]
}

func buildPolicy(env *simkit.Env) httpauth.Policy {
	var p httpauth.Policy
	for i := range env.PI("tokens") {
		p.Tokens = append(p.Tokens, httpauth.TokenIdentity{ID: fmt.Sprintf("svc%d", i), Token: strings.Repeat("t", 1+i) + fmt.Sprintf("ok%d", i), Scopes: slices.Clone(scopeSets[[]int{0, 5, 1, 4}[i%4]])})
	}
	for i := range env.PI("users") {
		p.BasicIdentities = append(p.BasicIdentities, httpauth.BasicIdentity{Username: fmt.Sprintf("u%d", i), PasswordBcrypt: hashes[i%len(hashes)], ID: fmt.Sprintf("person%d", i), Scopes: slices.Clone(scopeSets[(i+2)%len(scopeSets)])})
	}
	for i := range env.PI("certs") {
		p.CertIdentities = append(p.CertIdentities, httpauth.CertIdentity{SubjectCN: fmt.Sprintf("cn%d", i), Scopes: slices.Clone(scopeSets[(i+3)%len(scopeSets)])})
	}
	p.AllowAnonymous = env.P("anon") == 1
	p.AllowBasicWithoutTLS = env.P("plain") == 1
	if env.P("verify") == 1 {
		p.ServerVerify = func(c fiber.Ctx) (httpauth.Identity, error) {
			who := strings.Clone(c.Get("X-Verify"))
			if ok, v := env.Fault("verify-slow", "hook"); ok {
				time.Sleep(time.Duration(v%3000) * time.Millisecond)
			}
			if who == "" || who == "nobody" {
				// A hook that fails may still return something; it must not count.
				return httpauth.Identity{ID: "leaked", Scopes: scopeSets[4]}, errors.New("hook says no")
			}

			return httpauth.Identity{ID: "hook-" + who, Scopes: hookScopes(who)}, nil
		}
	}

	return p
}

// who is the reference: the identities a request may resolve to (by position:
// "" means 401). More than one entry means the documentation leaves it open.
type refIdentity struct {
	id     string
	scopes []httpauth.Scope
}

func reference(p httpauth.Policy, auth, verify, connKind string) (ids []refIdentity) {
	auth = strings.TrimSpace(auth)
	for _, t := range p.Tokens {
		if auth == "Bearer "+t.Token {
			return []refIdentity{{t.ID, t.Scopes}}
		}
	}
	isTLS := connKind != "plain"
	if rest, ok := strings.CutPrefix(auth, "Basic "); ok && (isTLS || p.AllowBasicWithoutTLS) {
		raw, err := base64.StdEncoding.DecodeString(strings.TrimSpace(rest))
		if err == nil {
			if u, pw, ok := strings.Cut(string(raw), ":"); ok {
				for i, b := range p.BasicIdentities {
					if b.Username == u && pw == passwords[i%len(passwords)] {
						return []refIdentity{{b.ID, b.Scopes}}
					}
				}
			}
		}
	}
	if cn, ok := strings.CutPrefix(connKind, "cert:"); ok {
		for _, c := range p.CertIdentities {
			if c.SubjectCN == cn {
				return []refIdentity{{cn, c.Scopes}}
			}
		}
	}
	if p.ServerVerify != nil && verify != "" && verify != "nobody" {
		return []refIdentity{{"hook-" + verify, hookScopes(verify)}}
	}
	if p.AllowAnonymous {
		ids = append(ids, refIdentity{"anonymous", scopeSets[4]})
		if auth != "" {
			ids = append(ids, refIdentity{}) // presented something wrong: refusing is also sound
		}

		return ids
	}

	return []refIdentity{{}}
}

var routes = []string{"read", "write", "admin", ""}

type authReq struct {
	id           string
	auth, verify string
	kind         string
	route        string
	gate         bool
	may          []refIdentity
}

type authSeen struct {
	ID, Again string
	Scopes    []httpauth.Scope
	Caps      []string
	Has       bool
}

var fiberWarm sync.Once

// newApp builds the server under test.
func newApp(p httpauth.Policy, ran func(id string, s authSeen)) *fiber.App {
	app := fiber.New()
	handle := func(c fiber.Ctx) error {
		hold := c.Get("X-Hold")
		var s authSeen
		id, ok := c.Locals(httpauth.IdentityKey).(httpauth.Identity)
		s.Has, s.ID, s.Scopes, s.Caps = ok, id.ID, id.Scopes, id.Capabilities()
		if hold == "1" {
			time.Sleep(3 * time.Millisecond)
		}
		again, _ := c.Locals(httpauth.IdentityKey).(httpauth.Identity)
		s.Again = again.ID
		ran(strings.Clone(c.Get("X-Id")), s)
		b, _ := json.Marshal(s)

		return c.Send(b)
	}
	for _, rt := range routes {
		app.Get("/m/"+rt+"x", p.Middleware(httpauth.Scope(rt)), handle)
		app.Get("/g/"+rt+"x", func(c fiber.Ctx) error {
			if err := p.Verify(c, httpauth.Scope(rt)); err != nil {
				return err
			}

			return handle(c)
		})
	}

	return app
}

// Fiber and fasthttp start process-wide clocks on first use: start them before
// any simulation.
func warmFiber() {
	fiberWarm.Do(func() {
		app := newApp(httpauth.Policy{AllowAnonymous: true}, func(string, authSeen) {})
		a, b := net.Pipe()
		done := make(chan struct{})
		go func() { app.Server().ServeConn(b); close(done) }()
		app.Handler()
		fmt.Fprint(a, "GET /m/x HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")
		io.ReadAll(a)
		a.Close()
		<-done
	})
}

func init() { warmFiber() }

func execAuth(env *simkit.Env) {
	p := buildPolicy(env)
	if err := p.Validate(); err != nil {
		env.Fail("validate", "a well-formed policy is refused: %v", err)
	}
	keep := fmt.Sprintf("%+v%+v%+v", p.Tokens, p.BasicIdentities, p.CertIdentities)
	nw := simnet.New(env)
	var mu sync.Mutex
	type connKind struct{}
	nw.TLS = func(ctx context.Context) *tls.ConnectionState {
		k, _ := ctx.Value(connKind{}).(string)
		st := &tls.ConnectionState{HandshakeComplete: true}
		switch {
		case k == "plain" || k == "":
			return nil
		case strings.HasPrefix(k, "cert:"):
			crt := &x509.Certificate{Subject: pkix.Name{CommonName: strings.TrimPrefix(k, "cert:")}}
			st.PeerCertificates = []*x509.Certificate{crt}
			st.VerifiedChains = [][]*x509.Certificate{{crt}}
		case strings.HasPrefix(k, "issued:"):
			leaf, issuer := &x509.Certificate{Subject: pkix.Name{CommonName: "stranger"}}, &x509.Certificate{Subject: pkix.Name{CommonName: strings.TrimPrefix(k, "issued:")}}
			st.PeerCertificates = []*x509.Certificate{leaf, issuer}
			st.VerifiedChains = [][]*x509.Certificate{{leaf, issuer}}
		case strings.HasPrefix(k, "unverified:"):
			st.PeerCertificates = []*x509.Certificate{{Subject: pkix.Name{CommonName: strings.TrimPrefix(k, "unverified:")}}}
		}

		return st
	}
	ln, err := nw.Listen("10.0.0.1:8080")
	if err != nil {
		env.Fail("harness", "%v", err)
	}
	ran := map[string]authSeen{}
	app := newApp(p, func(id string, s authSeen) {
		mu.Lock()
		ran[id] = s
		mu.Unlock()
	})
	srvDone := make(chan struct{})
	go func() {
		defer close(srvDone)
		app.Listener(ln, fiber.ListenConfig{DisableStartupMessage: true})
	}()
	n := len(env.Plan.Threads)
	reqs := make([][]authReq, n)
	bad := make([]string, n)
	answered := make([]int, n)
	env.Par(func(t int, ops []simkit.Op) {
		var conn net.Conn
		var rd *bufio.Reader
		kind := "plain"
		var queue []authReq
		drop := func() {
			if conn != nil {
				conn.Close()
			}
			conn, queue = nil, nil
		}
		dial := func(a int64) {
			drop()
			kind = connKinds[a%int64(len(connKinds))]
			c, err := (&net.Dialer{}).DialContext(context.WithValue(context.Background(), connKind{}, kind), "tcp", "10.0.0.1:8080")
			if err != nil {
				return
			}
			conn, rd = c, bufio.NewReader(c)
		}
		read := func() {
			for len(queue) > 0 {
				q := queue[0]
				queue = queue[1:]
				conn.SetReadDeadline(time.Now().Add(time.Minute))
				resp, err := http.ReadResponse(rd, nil)
				if err != nil {
					env.Probe("connection-broke")
					drop()

					return
				}
				body, err := io.ReadAll(resp.Body)
				resp.Body.Close()
				if err != nil {
					drop()

					return
				}
				answered[t]++
				if resp.StatusCode == 200 {
					env.Probe("served-on-" + strings.Split(q.kind, ":")[0])
				}
				if m := judge(q, resp.StatusCode, body); m != "" {
					bad[t] = m

					return
				}
			}
		}
		for i, op := range ops {
			if bad[t] != "" {
				return
			}
			switch op.K {
			case "conn":
				if conn != nil {
					read()
				}
				dial(op.A)
			case "sleep":
				time.Sleep(time.Duration(op.A) * time.Millisecond)
			case "req":
				if conn == nil {
					dial(op.A)
					if conn == nil {
						continue
					}
				}
				q := authReq{id: fmt.Sprintf("%d.%d", t, i), kind: kind, route: routes[op.C%4], gate: op.A%2 == 1}
				q.auth = credential(op.B, op.A/2)
				q.verify = []string{"", "", "alice", "nobody", "bob", "carol", "dave"}[(op.A/16)%7]
				q.may = reference(p, q.auth, q.verify, kind)
				reqs[t] = append(reqs[t], q)
				prefix := "/m/"
				if q.gate {
					prefix = "/g/"
				}
				var b strings.Builder
				fmt.Fprintf(&b, "GET %s%sx HTTP/1.1\r\nHost: cache\r\nX-Id: %s\r\n", prefix, q.route, q.id)
				if q.auth != "" {
					fmt.Fprintf(&b, "Authorization: %s\r\n", q.auth)
				}
				if q.verify != "" {
					fmt.Fprintf(&b, "X-Verify: %s\r\n", q.verify)
				}
				if op.A%3 == 0 {
					b.WriteString("X-Hold: 1\r\n")
				}
				b.WriteString("\r\n")
				if _, err := io.WriteString(conn, b.String()); err != nil {
					drop()

					continue
				}
				queue = append(queue, q)
				if op.A%5 != 0 || len(queue) > 3 { // otherwise pipeline
					read()
				}
			}
		}
		if conn != nil {
			read()
		}
		drop()
	})
	for _, m := range bad {
		if m != "" {
			env.Fail("wrong-answer", "%s", m)
		}
	}
	time.Sleep(10 * time.Second)
	mu.Lock()
	total := 0
	for t := range reqs {
		env.Ops(answered[t])
		total += answered[t]
		for _, q := range reqs[t] {
			s, did := ran[q.id]
			if !did {
				continue
			}
			if m := judge(q, 200, mustJSON(s)); m != "" {
				env.Fail("handler-ran", "the handler ran although its answer was lost: %s", m)
			}
			env.Observe(q.id + s.ID)
		}
	}
	mu.Unlock()
	if k := fmt.Sprintf("%+v%+v%+v", p.Tokens, p.BasicIdentities, p.CertIdentities); k != keep {
		env.Fail("policy-changed", "serving requests changed the policy from %s to %s", keep, k)
	}
	if total > 2 {
		env.Nontrivial()
	}
	nw.CloseAll()
	app.Shutdown()
	<-srvDone
	nw.Uninstall()
	time.Sleep(2 * time.Minute)
}

func mustJSON(v any) []byte {
	b, _ := json.Marshal(v)

	return b
}

// credential makes the c-th kind of Authorization header.
func credential(c, n int64) string {
	tok := func(i int64) string { return strings.Repeat("t", 1+int(i%4)) + fmt.Sprintf("ok%d", i%4) }
	basic := func(s string) string { return "Basic " + base64.StdEncoding.EncodeToString([]byte(s)) }
	switch c {
	case 0, 1:
		return ""
	case 2, 3, 4, 5:
		return "Bearer " + tok(n)
	case 6:
		return "Bearer " + tok(n)[:len(tok(n))-1]
	case 7:
		return "Bearer " + tok(n) + "x"
	case 8:
		return "bearer " + tok(n)
	case 9:
		return tok(n)
	case 10:
		return "Bearer"
	case 11:
		return "Bearer  " + tok(n)
	case 12, 13, 14:
		return basic(fmt.Sprintf("u%d:%s", n%4, passwords[n%4%3]))
	case 15:
		return basic(fmt.Sprintf("u%d:%s", n%3, passwords[(n+1)%3]))
	case 16:
		return basic(fmt.Sprintf("u%d", n%3))
	case 17:
		return "Basic !!notbase64"
	case 18:
		return basic(fmt.Sprintf("nobody:%s", passwords[n%3]))
	case 19:
		return basic(fmt.Sprintf("U%d:%s", n%3, passwords[n%3]))
	case 20:
		return basic(fmt.Sprintf("u%d :%s", n%3, passwords[n%3]))
	case 21:
		return basic(fmt.Sprintf("u%d:%s", n%3, strings.ToUpper(passwords[n%3])))
	case 22:
		return "basic " + strings.TrimPrefix(basic(fmt.Sprintf("u%d:%s", n%3, passwords[n%3])), "Basic ")
	case 23:
		return "Bearer " + strings.ToUpper(tok(n))
	case 24:
		return basic(fmt.Sprintf("svc%d:%s", n%3, tok(n))) // a token is not a password
	case 25:
		return "Bearer " + string(hashes[n%3])
	}

	return basic(fmt.Sprintf("u%d:", n%3))
}

func judge(q authReq, status int, body []byte) string {
	say := func(format string, args ...any) string {
		return fmt.Sprintf("request %s (%s connection, Authorization %q, X-Verify %q, route scope %q): ", q.id, q.kind, q.auth, q.verify, q.route) + fmt.Sprintf(format, args...)
	}
	var want []string
	for _, r := range q.may {
		switch {
		case r.id == "":
			if status == 401 {
				return ""
			}
			want = append(want, "401")
		case q.route != "" && !slices.Contains(r.scopes, httpauth.Scope(q.route)):
			if status == 403 {
				return ""
			}
			want = append(want, "403 as "+r.id)
		default:
			want = append(want, "200 as "+r.id)
			if status != 200 {
				continue
			}
			var s authSeen
			if err := json.Unmarshal(body, &s); err != nil {
				return say("unreadable answer %q", body)
			}
			var caps []string
			for _, x := range r.scopes {
				caps = append(caps, "cache."+string(x))
			}
			if !s.Has || s.ID != r.id || s.Again != r.id || !slices.Equal(s.Scopes, r.scopes) || !slices.Equal(s.Caps, caps) {
				return say("served as %+v, must be %s with scopes %v", s, r.id, r.scopes)
			}

			return ""
		}
	}

	return say("answered %d %q, must be %s", status, body, strings.Join(want, " or "))
}

// ---- configuration files under storage faults ----

func genAuthConf(r *simkit.Rand, _ string) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{
		"tokens": int64(r.N(3)), "users": int64(r.N(3)), "certs": int64(r.N(2)), "style": int64(r.N(4)), "anon": int64(r.N(3)), "plain": int64(r.N(2)), "env": int64(r.N(3)),
	}, Rates: map[string]int64{}}
	var ops []simkit.Op
	for range r.I(2, 8) {
		ops = append(ops, simkit.Op{K: simkit.Pick(r, "full", "torn", "torn", "torn", "missing", "empty", "flip", "dir", "dup", "typo", "badscope", "noscope", "notoken", "nohash", "noise", "none"), A: int64(r.N(1 << 16))})
	}
	p.Threads = append(p.Threads, ops)

	return p
}

func renderConf(env *simkit.Env) string {
	var b strings.Builder
	style := env.P("style")
	row := func(kv ...string) {
		fields := []string{}
		for i := 0; i < len(kv); i += 2 {
			fields = append(fields, kv[i]+": "+kv[i+1])
		}
		if style&1 == 1 {
			slices.Reverse(fields)
		}
		for i, f := range fields {
			if i == 0 {
				b.WriteString("  - " + f + "\n")
			} else {
				b.WriteString("    " + f + "\n")
			}
		}
	}
	scopes := func(i int) string {
		if style&2 == 2 {
			s := ""
			for _, x := range scopeSets[i%5] {
				s += "\n      - " + string(x)
			}

			return s
		}
		var l []string
		for _, x := range scopeSets[i%5] {
			l = append(l, string(x))
		}

		return "[" + strings.Join(l, ", ") + "]"
	}
	if env.P("anon") > 0 {
		fmt.Fprintf(&b, "allow_anonymous: %v\n", env.P("anon") == 2)
	}
	if env.PI("tokens") > 0 {
		b.WriteString("tokens:\n")
	}
	for i := range env.PI("tokens") {
		row("id", fmt.Sprintf("svc%d", i), "token", fmt.Sprintf("\"secret-%d\"", i), "scopes", scopes(i))
	}
	if env.PI("users") > 0 {
		b.WriteString("users:\n")
	}
	for i := range env.PI("users") {
		row("id", fmt.Sprintf("person%d", i), "username", fmt.Sprintf("u%d", i), "password_bcrypt", "\""+string(hashes[i%3])+"\"", "scopes", scopes(i+2))
	}
	if env.PI("certs") > 0 {
		b.WriteString("cert_identities:\n")
	}
	for i := range env.PI("certs") {
		row("subject_cn", fmt.Sprintf("cn%d", i), "scopes", scopes(i+3))
	}
	if env.P("plain") > 0 {
		fmt.Fprintf(&b, "allow_basic_without_tls: %v\n", env.P("anon") == 0)
	}

	return b.String()
}

func execAuthConf(env *simkit.Env) {
	dir, err := os.MkdirTemp("", "vsim-auth")
	if err != nil {
		env.Fail("harness", "%v", err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "auth.yaml")
	full := renderConf(env)
	want := httpauth.Policy{AllowAnonymous: env.P("anon") == 2, AllowBasicWithoutTLS: env.P("plain") > 0 && env.P("anon") == 0, Tokens: []httpauth.TokenIdentity{}, BasicIdentities: []httpauth.BasicIdentity{}, CertIdentities: []httpauth.CertIdentity{}}
	for i := range env.PI("tokens") {
		want.Tokens = append(want.Tokens, httpauth.TokenIdentity{ID: fmt.Sprintf("svc%d", i), Token: fmt.Sprintf("secret-%d", i), Scopes: scopeSets[i%5]})
	}
	for i := range env.PI("users") {
		want.BasicIdentities = append(want.BasicIdentities, httpauth.BasicIdentity{ID: fmt.Sprintf("person%d", i), Username: fmt.Sprintf("u%d", i), PasswordBcrypt: hashes[i%3], Scopes: scopeSets[(i+2)%5]})
	}
	for i := range env.PI("certs") {
		want.CertIdentities = append(want.CertIdentities, httpauth.CertIdentity{SubjectCN: fmt.Sprintf("cn%d", i), Scopes: scopeSets[(i+3)%5]})
	}
	if full == "" {
		full = "allow_anonymous: false\n"
		want.AllowAnonymous = false
	}
	load := func(conf, token string) (httpauth.Policy, error) {
		os.Setenv(httpauth.EnvAuthConfig, conf)
		os.Setenv(httpauth.EnvAuthToken, token)
		defer os.Unsetenv(httpauth.EnvAuthConfig)
		defer os.Unsetenv(httpauth.EnvAuthToken)

		return httpauth.LoadFromEnv()
	}
	token := []string{"", "legacy", "legacy"}[env.P("env")%3]
	for _, op := range env.Plan.Threads[0] {
		os.RemoveAll(path)
		mustFail := true
		text := full
		switch op.K {
		case "none": // no file configured at all
			p, err := load("", token)
			if err != nil {
				env.Fail("load", "%v", err)
			}
			if token == "" && !reflect.DeepEqual(p, httpauth.Policy{}) {
				env.Fail("load", "nothing configured gives %+v", p)
			}
			if token != "" && (p.AllowAnonymous || len(p.Tokens) != 1 || p.Tokens[0].Token != token || len(p.Tokens[0].Scopes) != 3) {
				env.Fail("load", "one token configured gives %+v", p)
			}

			continue
		case "missing":
			text = ""
		case "dir":
			os.Mkdir(path, 0o755)
			text = ""
		case "full":
			mustFail = false
		case "torn":
			env.CountFault("torn-file")
			text = full[:int(op.A)%(len(full)+1)]
			mustFail = len(strings.TrimSpace(text)) == 0
		case "empty":
			env.CountFault("lost-file-content")
			text = "\n"
		case "flip":
			env.CountFault("bit-flip")
			b := []byte(full)
			b[int(op.A)%len(b)] ^= 1 << (op.A >> 8 % 7)
			text, mustFail = string(b), false
		case "dup":
			text = full + "allow_anonymous: true\nallow_anonymous: true\n"
		case "typo":
			text = full + "alow_anonymous: true\n"
		case "badscope":
			text = full + "\ncert_identities:\n  - subject_cn: zz\n    scopes: [root]\n"
		case "noscope":
			text = "tokens:\n  - id: a\n    token: b\n"
		case "notoken":
			text = "tokens:\n  - id: a\n    token: \"\"\n    scopes: [read]\n"
		case "nohash":
			text = "users:\n  - id: a\n    username: b\n    password_bcrypt: plaintext\n    scopes: [read]\n"
		case "noise":
			text = string(bytes.Repeat([]byte{byte(op.A), 0xff, '{'}, 9))
		default:
			continue
		}
		if op.K != "missing" && op.K != "dir" {
			if err := os.WriteFile(path, []byte(text), 0o600); err != nil {
				env.Fail("harness", "%v", err)
			}
		}
		p, err := load(path, token)
		env.Ops(1)
		env.Observe(fmt.Sprint(op.K, err != nil, len(p.Tokens)))
		if err != nil {
			if !reflect.DeepEqual(p, httpauth.Policy{}) {
				env.Fail("half-policy", "%s: LoadFromEnv failed and still returned %+v", op.K, p)
			}
			for _, t := range append(want.Tokens, httpauth.TokenIdentity{Token: token}) {
				if t.Token != "" && len(t.Token) > 6 && strings.Contains(err.Error(), t.Token) && op.K == "full" {
					env.Fail("secret-logged", "the error contains a token: %v", err)
				}
			}
		}
		switch {
		case mustFail && err == nil:
			env.Fail("fail-open", "%s: a broken configuration was accepted as %+v\nfile:\n%s", op.K, p, text)
		case op.K == "full":
			if err != nil {
				env.Fail("load", "a sound configuration is refused: %v\n%s", err, text)
			}
			if p.AllowAnonymous != want.AllowAnonymous || p.AllowBasicWithoutTLS != want.AllowBasicWithoutTLS || !reflect.DeepEqual(p.Tokens, want.Tokens) || !reflect.DeepEqual(p.BasicIdentities, want.BasicIdentities) || !reflect.DeepEqual(p.CertIdentities, want.CertIdentities) {
				env.Fail("load", "the file reads as %+v, must be %+v\n%s", p, want, text)
			}
		case op.K == "torn" && err == nil:
			env.Probe("torn-accepted")
			if m := wider(p, want); m != "" {
				env.Fail("torn-grants", "a torn file grants more than the whole one: %s\nfile:\n%s", m, text)
			}
		}
	}
	env.Nontrivial()
}

func wider(p, full httpauth.Policy) string {
	if p.AllowAnonymous && !full.AllowAnonymous || p.AllowBasicWithoutTLS && !full.AllowBasicWithoutTLS {
		return "a permission flag"
	}
	if len(p.Tokens) > len(full.Tokens) || len(p.BasicIdentities) > len(full.BasicIdentities) || len(p.CertIdentities) > len(full.CertIdentities) {
		return "an identity"
	}
	sub := func(a, b []httpauth.Scope) bool {
		for _, x := range a {
			if !slices.Contains(b, x) {
				return false
			}
		}

		return true
	}
	for i, t := range p.Tokens {
		if f := full.Tokens[i]; !strings.HasPrefix(f.ID, t.ID) || !strings.HasPrefix(f.Token, t.Token) || !sub(t.Scopes, f.Scopes) {
			return fmt.Sprintf("token identity %+v", t)
		}
	}
	for i, t := range p.BasicIdentities {
		if f := full.BasicIdentities[i]; !strings.HasPrefix(f.ID, t.ID) || !strings.HasPrefix(f.Username, t.Username) || !bytes.HasPrefix(f.PasswordBcrypt, t.PasswordBcrypt) || !sub(t.Scopes, f.Scopes) {
			return fmt.Sprintf("basic identity %+v", t)
		}
	}
	for i, t := range p.CertIdentities {
		if f := full.CertIdentities[i]; !strings.HasPrefix(f.SubjectCN, t.SubjectCN) || !sub(t.Scopes, f.Scopes) {
			return fmt.Sprintf("certificate identity %+v", t)
		}
	}

	return ""
}
