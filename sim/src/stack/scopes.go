package main

import (
	"bytes"
	"context"
	"crypto/ed25519"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/crypto/bcrypt"

	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// "scopes": shipped servers under every way of configuring who may do what, and
// callers with every kind of credential on every route. A caller is served what
// its identity's scopes allow, and nothing else.

func init() {
	simkit.Register(&simkit.Scenario{Name: "scopes", Gen: genScopes, Exec: execScopes, MaxYields: 1_000_000_000})
	for i := range subsets {
		h, err := bcrypt.GenerateFromPassword([]byte(password(i)), bcrypt.MinCost)
		if err != nil {
			panic(err)
		}
		hashes = append(hashes, string(h))
	}
}

var (
	subsets = [][]string{{"read"}, {"write"}, {"admin"}, {"read", "write"}, {"read", "write", "admin"}, {"read", "admin"}}
	hashes  []string
)

func password(i int) string { return fmt.Sprintf("pass:wörd %d", i) }

// ways to configure a server
const (
	confFile   = iota // identities in a file
	confToken         // the one token
	confOpen          // nothing
	confEmpty         // a file that names nobody
	confOIDC          // an issuer, nothing else
	confBoth          // a file and an issuer
	confAnon          // a file that lets anyone in
	confIssuer        // the one token and an issuer
	confKinds
)

type cred struct {
	name string
	auth string // the Authorization header
	conn string // "", "tls", "cert:CN", "unverified:CN"
	id   string
	scop []string
	is   verdict
	key  int // the issuer's key it is signed with, plus one
}

type verdict int

const (
	nobody verdict = iota
	somebody
	either // may or may not be known
)

func genScopes(r *simkit.Rand, _ string) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{
		"nodes": int64(r.I(1, 2)), "conf": int64(r.N(confKinds)), "peer": int64(r.N(2)), "basic": int64(r.N(2)), "rot": int64(r.N(3)),
		"who": simkit.Pick(r, int64(63), 63, int64(r.I(1, 63))), // which identities the file names
	}, Rates: map[string]int64{}}
	p.Rates["net-delay"], p.Rates["net-split"] = simkit.Pick(r, int64(0), 800), simkit.Pick(r, int64(0), 2000)
	p.Rates["idp-fail"] = simkit.Pick(r, int64(0), 0, 3000)
	for range r.I(1, 4) {
		var ops []simkit.Op
		for range r.I(10, 60) {
			ops = append(ops, simkit.Op{
				K: []string{"ask", "odd", "me", "can", "rotate", "sleep", "peer", "storm", "late"}[r.PickW(30, 6, 6, 3, 1, 1, 3, 1, 1)],
				A: int64(r.N(1000)), B: int64(r.N(1000)), C: int64(r.N(1 << 20)),
			})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

// idp is an OpenID issuer inside the simulated network.
type idp struct {
	env  *simkit.Env
	mu   sync.Mutex
	keys []ed25519.PrivateKey // the last one signs
	gone int                  // how many of them are no longer published
}

const issuer = "http://idp.sim"

func b64(v any) string {
	b, _ := v.([]byte)
	if b == nil {
		b, _ = json.Marshal(v)
	}

	return base64.RawURLEncoding.EncodeToString(b)
}

func (p *idp) key(i int) ed25519.PrivateKey {
	return ed25519.NewKeyFromSeed(bytes.Repeat([]byte{byte(i + 1)}, ed25519.SeedSize))
}

func (p *idp) rotate() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.keys = append(p.keys, p.key(len(p.keys)))
	p.gone = max(0, len(p.keys)-2)
}

// token signs claims with the key of index k, under the key id kid.
func (p *idp) token(claims map[string]any, k ed25519.PrivateKey, kid, alg string) string {
	head := b64(map[string]any{"alg": alg, "kid": kid, "typ": "JWT"})
	body := b64(claims)
	var sig []byte
	switch alg {
	case "EdDSA":
		sig = ed25519.Sign(k, []byte(head+"."+body))
	default:
		sig = []byte{}
	}

	return head + "." + body + "." + b64(sig)
}

func fails(env *simkit.Env) bool {
	ok, _ := env.Fault("idp-fail", "idp")

	return ok
}

func (p *idp) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if r.URL.Path != "/.well-known/openid-configuration" && fails(p.env) {
		w.WriteHeader(500)

		return
	}
	w.Header().Set("Content-Type", "application/json")
	switch r.URL.Path {
	case "/.well-known/openid-configuration":
		_ = json.NewEncoder(w).Encode(map[string]any{"issuer": issuer, "authorization_endpoint": issuer + "/a", "token_endpoint": issuer + "/t", "jwks_uri": issuer + "/keys", "id_token_signing_alg_values_supported": []string{"EdDSA", "RS256"}})
	case "/keys":
		var ks []map[string]any
		for i, k := range p.keys {
			if i >= p.gone {
				pub, _ := k.Public().(ed25519.PublicKey)
				ks = append(ks, map[string]any{"kty": "OKP", "crv": "Ed25519", "use": "sig", "alg": "EdDSA", "kid": fmt.Sprint("k", i), "x": b64([]byte(pub))})
			}
		}
		_ = json.NewEncoder(w).Encode(map[string]any{"keys": ks})
	default:
		w.WriteHeader(404)
	}
}

// jwt is a caller's token of some kind, and whether it is good.
func (p *idp) jwt(n int64, thread int) cred {
	p.mu.Lock()
	defer p.mu.Unlock()
	scopes := subsets[n%int64(len(subsets))]
	n /= int64(len(subsets))
	now := time.Now()
	id := fmt.Sprintf("sub%d-%d", thread, n)
	last := len(p.keys) - 1
	claims := map[string]any{"iss": issuer, "aud": "cache", "sub": id, "iat": now.Unix(), "exp": now.Add(time.Hour).Unix(), "scope": strings.Join(scopes, " ") + " openid"}
	c := cred{id: id, scop: scopes, is: somebody}
	if p.env.Plan.Rates["idp-fail"] > 0 {
		c.is = either // the issuer may not answer for its keys
	}
	k, kid, alg := p.keys[last], fmt.Sprint("k", last), "EdDSA"
	switch kind := n % 16; kind {
	case 0:
		c.name = "expired"
		claims["exp"] = now.Add(-time.Second).Unix()
		c.is = nobody
	case 1:
		c.name, claims["aud"], c.is = "for others", []string{"other", "cache2"}, nobody
	case 2:
		c.name, claims["iss"], c.is = "of another issuer", "http://evil.sim", nobody
	case 3:
		c.name, c.is = "signed by a stranger", nobody
		k = p.key(99)
	case 4:
		c.name, c.is, alg = "unsigned", nobody, "none"
	case 5:
		c.name, c.is = "forged", nobody
	case 6:
		c.name, claims["aud"] = "for several", []string{"other", "cache"}
	case 7:
		c.name = "signed by an unknown key"
		k, kid, c.is = p.key(98), "k98", nobody
	case 8:
		if last > 0 {
			c.name = "signed by the key before"
			k, kid = p.keys[last-1], fmt.Sprint("k", last-1)
			if p.gone > last-1 {
				c.is = either
			}
		}
	case 9:
		c.name, c.is = "without subject", nobody
		delete(claims, "sub")
		if n/16%2 == 1 {
			claims["sub"] = ""
		}
	case 10:
		c.name, c.is = "of a numbered subject", nobody
		claims["sub"] = 7
	case 11:
		c.name = "with odd scopes"
		claims["scope"], c.scop = "READ reader admin2 ,write * cache.read", nil
	case 12:
		c.name = "with a list of scopes"
		claims["scope"] = append([]any{1, nil, "other"}, toAny(scopes)...)
	case 13:
		c.name, c.scop = "without scopes", nil
		delete(claims, "scope")
	default:
		c.name = "good"
	}
	if n/32%2 == 1 { // claims that mean nothing to the cache
		for _, other := range []string{"roles", "scopes", "scp", "permissions"} {
			claims[other] = []string{"read", "write", "admin"}
		}
		claims["azp"], claims["preferred_username"], claims["client_id"] = "cache", "root", "cache"
	}
	t := p.token(claims, k, kid, alg)
	if c.name == "forged" {
		parts := strings.Split(t, ".")
		claims["scope"], claims["sub"] = "read write admin", "root"
		t = parts[0] + "." + b64(claims) + "." + parts[2]
	}
	c.name, c.key = "JWT "+c.name, last+1
	if strings.HasSuffix(c.name, "key before") {
		c.key = last
	}
	c.auth = "Bearer " + t

	return c
}

// brief is a token that expires soon.
func (p *idp) brief(n int64, thread int) (cred, time.Time) {
	p.mu.Lock()
	defer p.mu.Unlock()
	scopes, now, last := subsets[n%int64(len(subsets))], time.Now(), len(p.keys)-1
	exp := time.Unix(now.Unix()+2+n%3, 0)
	c := cred{name: "brief JWT", id: fmt.Sprint("brief", thread), scop: scopes, is: somebody, key: last + 1}
	if p.env.Plan.Rates["idp-fail"] > 0 {
		c.is = either
	}
	c.auth = "Bearer " + p.token(map[string]any{"iss": issuer, "aud": "cache", "sub": c.id, "exp": exp.Unix(), "scope": strings.Join(scopes, " ")}, p.keys[last], fmt.Sprint("k", last), "EdDSA")

	return c, exp
}

func toAny(s []string) (out []any) {
	for _, x := range s {
		out = append(out, x)
	}

	return
}

type scopeWorld struct {
	*stack
	conf   int64
	file   bool
	oidc   bool
	anon   bool
	basic  bool
	legacy string
	peer   string
	idp    *idp
	trs    map[string]*http.Transport
	tmu    sync.Mutex
	master cred
	vars   []string
}

func (w *scopeWorld) named() bool {
	return w.conf == confFile || w.conf == confBoth || w.conf == confAnon
}

// named1 tells whether the file names the identities of index i.
func (w *scopeWorld) named1(i int) bool { return w.env.P("who")>>i&1 == 1 }

// cred draws a credential.
func (w *scopeWorld) cred(n int64, thread int) cred {
	kind := n % 12
	n /= 12
	i := int(n) % len(subsets)
	n /= int64(len(subsets))
	c := cred{id: fmt.Sprint("tok-id-", i), scop: subsets[i]}
	known := somebody
	if !w.named() || !w.named1(i) {
		known = nobody
	}
	token := fmt.Sprintf("secret-token-%d", i)
	switch kind {
	case 0:
		c.name = "nothing"
	case 1, 2, 3:
		c.name, c.auth, c.is = "token "+fmt.Sprint(c.scop), "Bearer "+token, known
	case 4:
		c.auth = "Bearer " + []string{token[:len(token)-1], token + "0", "", token + " ", "x" + token, token + "," + token, "default", "\x7e", strings.ToUpper(token)}[n%9]
		if strings.HasSuffix(c.auth, " ") {
			c.auth = strings.TrimRight(c.auth, " ") + "!"
		}
		c.name = "wrong token " + c.auth
	case 5, 6:
		c.conn = []string{"", "tls"}[n%2]
		c.id = fmt.Sprint("user-id-", i)
		c.auth = "Basic " + base64.StdEncoding.EncodeToString([]byte(fmt.Sprintf("user%d:%s", i, password(i))))
		c.name = "password " + c.conn
		if w.basic || c.conn == "tls" {
			c.is = known
		}
	case 7:
		c.conn = "tls"
		pair := []string{fmt.Sprintf("user%d:", i), fmt.Sprintf("user%d:%s", i, password((i+1)%len(subsets))), "nobody:" + password(i), ":" + password(i), fmt.Sprintf("user%d:%s!", i, password(i)), fmt.Sprintf("user%d", i), fmt.Sprintf("user%d:%s", i, hashes[i])}[n%7]
		c.auth = "Basic " + base64.StdEncoding.EncodeToString([]byte(pair))
		c.name = "wrong password " + pair
	case 8:
		c.name, c.conn, c.id = "certificate", fmt.Sprint("cert:cn", i), fmt.Sprint("cn", i)
		c.is = known
	case 9:
		c.name, c.conn = "foreign certificate", []string{fmt.Sprint("unverified:cn", i), fmt.Sprintf("cert:cn%d.evil", i), "cert:", fmt.Sprintf("cert:CN%d", i)}[n%4]
	case 10:
		c.auth, c.name = "Bearer "+w.peer, "peer token"
		if w.peer == "" {
			c.auth, c.name = "Bearer secret-peer", "token nobody has"
		}
		if w.legacy != "" {
			c.is, c.id, c.scop = somebody, "default", subsets[4]
		}
	case 11:
		c = w.idp.jwt(n*int64(len(subsets))+int64(i), thread)
		if !w.oidc {
			c.is = nobody
		}
	}
	if w.anon && c.is == nobody {
		c.is, c.id, c.scop = somebody, "anonymous", subsets[4]
	}
	if c.is == either && w.anon {
		c.is = either
	}

	return c
}

type route struct {
	method, path string
	scope        string // "": public
	body         string
	mgmt         bool
	stream       bool
	harmful      bool // only sent by those who must not
}

const intruder = "intruder was here"

var routes = []route{
	{method: "GET", path: "/v1/cache/keep0", scope: "read"},
	{method: "GET", path: "/v1/cache/keep1", scope: "read"},
	{method: "GET", path: "/v1/cache/gone", scope: "read"},
	{method: "HEAD", path: "/v1/cache/keep0", scope: "read"},
	{method: "GET", path: "/v1/cache/keys", scope: "read"},
	{method: "GET", path: "/v1/cache/keys?q=keep*", scope: "read"},
	{method: "GET", path: "/v1/owners/keep0", scope: "read"},
	{method: "GET", path: "/v1/me", scope: "read"},
	{method: "GET", path: "/v1/me/can?capability=cache.read", scope: "read"},
	{method: "POST", path: "/v1/cache/batch/get", scope: "read", body: `{"keys":["keep0","keep1"]}`},
	{method: "PUT", path: "/v1/cache/KEY", scope: "write", body: intruder},
	{method: "PUT", path: "/v1/cache/KEY", scope: "write", body: intruder},
	{method: "DELETE", path: "/v1/cache/KEY", scope: "write"},
	{method: "POST", path: "/v1/cache/batch/put", scope: "write", body: `{"items":[{"key":"KEY","value":"` + intruder + `"}]}`},
	{method: "POST", path: "/v1/cache/batch/delete", scope: "write", body: `{"keys":["KEY"]}`},
	{method: "GET", path: "/healthz"},
	{method: "GET", path: "/v1/openapi.yaml"},
	{method: "GET", path: "/health", mgmt: true},
	{method: "GET", path: "/stats", mgmt: true, scope: "read"},
	{method: "GET", path: "/config", mgmt: true, scope: "read"},
	{method: "GET", path: "/dist/metrics", mgmt: true, scope: "read"},
	{method: "GET", path: "/dist/owners?key=keep0", mgmt: true, scope: "read"},
	{method: "GET", path: "/cluster/members", mgmt: true, scope: "read"},
	{method: "GET", path: "/cluster/ring", mgmt: true, scope: "read"},
	{method: "GET", path: "/cluster/heartbeat", mgmt: true, scope: "read"},
	{method: "GET", path: "/cluster/events", mgmt: true, scope: "read", stream: true},
	{method: "POST", path: "/evict", mgmt: true, scope: "admin", harmful: true},
	{method: "POST", path: "/trigger-expiration", mgmt: true, scope: "admin"},
	{method: "POST", path: "/clear", mgmt: true, scope: "admin", harmful: true},
}

type connKind struct{}

// client with connections of one kind of its own
func (w *scopeWorld) transport(kind string) *http.Transport {
	w.tmu.Lock()
	defer w.tmu.Unlock()
	t := w.trs[kind]
	if t == nil {
		t = &http.Transport{MaxIdleConnsPerHost: 4, IdleConnTimeout: 90 * time.Second, DialContext: func(ctx context.Context, _, addr string) (net.Conn, error) {
			return (&net.Dialer{}).DialContext(context.WithValue(ctx, connKind{}, kind), "tcp", addr)
		}}
		w.trs[kind] = t
	}

	return t
}

// send asks once, or once more where the server may have been fetching the
// issuer's keys since before there was the one that the caller's token is signed with.
func (w *scopeWorld) send(c cred, method, addr, path, body string, stream bool) reply {
	r := w.sendOnce(c, method, addr, path, body, stream)
	if r.status == 401 && c.is == somebody && c.key > 1 {
		w.env.Probe("again")
		r = w.sendOnce(c, method, addr, path, body, stream)
	}

	return r
}

func (w *scopeWorld) sendOnce(c cred, method, addr, path, body string, stream bool) reply {
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	req, err := http.NewRequestWithContext(ctx, method, "http://"+addr+path, strings.NewReader(body))
	if err != nil {
		return reply{err: err}
	}
	if c.auth != "" {
		req.Header.Set("Authorization", c.auth)
	}
	if strings.HasPrefix(body, "{") {
		req.Header.Set("Content-Type", "application/json")
	}
	resp, err := w.transport(c.conn).RoundTrip(req)
	if err != nil {
		return reply{err: err}
	}
	defer resp.Body.Close()
	if stream && resp.StatusCode == 200 {
		return reply{status: 200, head: resp.Header}
	}
	b, err := io.ReadAll(resp.Body)

	return reply{resp.StatusCode, resp.Header, b, err}
}

func tellsSecrets(r reply) string {
	if bytes.Contains(r.body, []byte("secret-")) {
		return "the body"
	}
	for k, v := range r.head {
		if strings.HasPrefix(k, "X-Cache") || strings.Contains(strings.Join(v, ","), "secret-") {
			return k
		}
	}

	return ""
}

func execScopes(env *simkit.Env) {
	s := newStack(env)
	w := &scopeWorld{stack: s, conf: env.P("conf"), idp: &idp{env: env}, trs: map[string]*http.Transport{}}
	s.net.TLS = func(ctx context.Context) *tls.ConnectionState {
		k, _ := ctx.Value(connKind{}).(string)
		st := &tls.ConnectionState{HandshakeComplete: true}
		switch {
		case k == "":
			return nil
		case strings.HasPrefix(k, "cert:"):
			crt := &x509.Certificate{Subject: pkix.Name{CommonName: strings.TrimPrefix(k, "cert:")}}
			st.PeerCertificates = []*x509.Certificate{crt}
			st.VerifiedChains = [][]*x509.Certificate{{crt}}
		case strings.HasPrefix(k, "unverified:"):
			st.PeerCertificates = []*x509.Certificate{{Subject: pkix.Name{CommonName: strings.TrimPrefix(k, "unverified:")}}}
		}

		return st
	}
	w.idp.rotate()
	ln, err := s.net.Listen("idp.sim:80")
	if err != nil {
		env.Fail("harness", "%v", err)
	}
	srv := &http.Server{Handler: w.idp}
	served := make(chan struct{})
	go func() { _ = srv.Serve(ln); close(served) }()

	dir, err := os.MkdirTemp("", "scopes")
	if err != nil {
		env.Fail("harness", "%v", err)
	}
	defer os.RemoveAll(dir)
	w.file = w.named() || w.conf == confEmpty
	w.oidc = w.conf == confOIDC || w.conf == confBoth || w.conf == confIssuer
	w.basic = env.P("basic") == 1
	if w.conf == confToken || w.conf == confIssuer || w.file && env.P("peer") == 1 {
		w.peer = "secret-peer"
		s.vars["HYPERCACHE_AUTH_TOKEN"] = w.peer
		if !w.file {
			w.legacy = w.peer
		}
	}
	w.anon = w.conf == confOpen || w.conf == confAnon
	if w.oidc {
		s.vars["HYPERCACHE_OIDC_ISSUER"], s.vars["HYPERCACHE_OIDC_AUDIENCE"] = issuer, "cache"
	}
	if w.file {
		var b strings.Builder
		if w.named() {
			b.WriteString("tokens:\n")
			for i, sc := range subsets {
				if !w.named1(i) {
					continue
				}
				fmt.Fprintf(&b, "  - {id: tok-id-%d, token: secret-token-%d, scopes: [%s]}\n", i, i, strings.Join(sc, ", "))
			}
			b.WriteString("users:\n")
			for i, sc := range subsets {
				if !w.named1(i) {
					continue
				}
				fmt.Fprintf(&b, "  - {id: user-id-%d, username: user%d, password_bcrypt: %q, scopes: [%s]}\n", i, i, hashes[i], strings.Join(sc, ", "))
			}
			b.WriteString("cert_identities:\n")
			for i, sc := range subsets {
				if !w.named1(i) {
					continue
				}
				fmt.Fprintf(&b, "  - {subject_cn: cn%d, scopes: [%s]}\n", i, strings.Join(sc, ", "))
			}
		} else {
			b.WriteString("tokens: []\n")
		}
		fmt.Fprintf(&b, "allow_anonymous: %v\nallow_basic_without_tls: %v\n", w.conf == confAnon, w.basic)
		f := filepath.Join(dir, "auth.yaml")
		if err := os.WriteFile(f, []byte(b.String()), 0o600); err != nil {
			env.Fail("harness", "%v", err)
		}
		s.vars["HYPERCACHE_AUTH_CONFIG"] = f
	}
	s.vars["HYPERCACHE_LOG_LEVEL"] = "error"
	for i := range max(1, env.PI("nodes")) {
		s.procs = append(s.procs, &proc{id: fmt.Sprintf("n%d", i)})
	}
	for _, p := range s.procs {
		var seeds []string
		for _, q := range s.procs {
			if q != p {
				seeds = append(seeds, q.id+"@"+q.dist())
			}
		}
		p.vars = map[string]string{
			"HYPERCACHE_NODE_ID": p.id, "HYPERCACHE_API_ADDR": p.api(), "HYPERCACHE_MGMT_ADDR": p.mgmt(), "HYPERCACHE_DIST_ADDR": p.dist(),
			"HYPERCACHE_SEEDS": strings.Join(seeds, ","),
		}
	}
	for _, p := range s.procs {
		if !s.start(p) {
			env.Fail("boot", "%s ended with code %d", p.id, p.code)
		}
	}

	// Somebody who may do everything, if there is such a one.
	switch {
	case w.anon:
		w.master = cred{name: "anybody", is: somebody}
	case w.named() && w.named1(4):
		w.master = cred{name: "master", auth: "Bearer secret-token-4", is: somebody}
	case w.legacy != "":
		w.master = cred{name: "master", auth: "Bearer " + w.legacy, is: somebody}
	case w.oidc:
		w.master = w.jwtOfMaster()
	}
	keep := []string{"keep0", "keep1"}
	if w.master.is == somebody {
		for _, k := range keep {
			w.must("PUT", s.procs[0].api(), "/v1/cache/"+k, "secret-"+k)
		}
	}
	env.Par(func(t int, ops []simkit.Op) {
		for _, op := range ops {
			w.do(t, op)
		}
	})
	if w.master.is == somebody {
		for _, p := range s.procs {
			for _, k := range keep {
				if r := w.must("GET", p.api(), "/v1/cache/"+k, ""); string(r.body) != "secret-"+k {
					env.Fail("harm", "%s at %s is %v after callers without the right to change it", k, p.id, r)
				}
			}
		}
	}
	for _, t := range simkit.SortedKeys(w.trs) {
		w.trs[t].CloseIdleConnections()
	}
	_ = srv.Close()
	<-served
	s.close()
}

func (w *scopeWorld) jwtOfMaster() cred {
	w.idp.mu.Lock()
	defer w.idp.mu.Unlock()
	last := len(w.idp.keys) - 1
	now := time.Now()

	return cred{name: "JWT of master", is: somebody, auth: "Bearer " + w.idp.token(map[string]any{
		"iss": issuer, "aud": "cache", "sub": "master", "iat": now.Unix(), "exp": now.Add(time.Hour).Unix(), "scope": "read write admin",
	}, w.idp.keys[last], fmt.Sprint("k", last), "EdDSA")}
}

// must asks for what is allowed until the issuer answers.
func (w *scopeWorld) must(method, addr, path, body string) reply {
	for try := 0; ; try++ {
		if w.master.name == "JWT of master" {
			w.master = w.jwtOfMaster()
		}
		r := w.send(w.master, method, addr, path, body, false)
		if r.err == nil && r.status == 200 {
			return r
		}
		if try > 20 || !w.oidc {
			w.env.Fail("refused", "%s %s as one who may do everything: %v", method, path, r)
		}
		time.Sleep(time.Second)
	}
}

func (w *scopeWorld) do(t int, op simkit.Op) {
	env := w.env
	p := w.procs[int(op.C)%len(w.procs)]
	c := w.cred(op.B*1009+op.C/7, t)
	switch op.K {
	case "ask":
		w.ask(p, c, routes[op.A%int64(len(routes))], op.C)
	case "odd":
		w.odd(p, c, op)
	case "me":
		w.me(p, c)
	case "can":
		w.can(p, c, op)
	case "rotate":
		if w.oidc && env.P("rot") > 0 {
			w.idp.rotate()
			env.CountFault("rotate")
		}
	case "sleep":
		time.Sleep(time.Duration(op.A) * time.Millisecond)
	case "peer":
		w.peers(p, c, op)
	case "late": // a token that expires between two requests
		if !w.oidc {
			return
		}
		c, exp := w.idp.brief(op.B, t)
		w.me(p, c)
		time.Sleep(time.Until(exp) + time.Duration(op.A%50)*time.Millisecond)
		c.name, c.is = "expired "+c.name, nobody
		w.ask(p, c, routes[op.C%int64(len(routes))], op.C)
		env.Probe("late")
	case "storm": // the same route by many at once: identities must not mix
		var wg sync.WaitGroup
		for i := range 3 + op.A%4 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				w.me(p, w.cred(op.B*31+i*12+1+i%3+op.C%5*12, t))
			}()
		}
		wg.Wait()
	}
}

// judge compares an answer with what the caller may have.
func (w *scopeWorld) judgeScope(p *proc, c cred, what, scope string, r reply) {
	env := w.env
	if r.err != nil {
		env.Fail("transport", "%s at %s with %s: %v", what, p.id, c.name, r.err)
	}
	if c.is == somebody && c.key > 0 {
		w.idp.mu.Lock()
		if w.idp.gone >= c.key {
			c.is = either // its key was withdrawn meanwhile
		}
		w.idp.mu.Unlock()
	}
	may := c.is != nobody && slices.Contains(c.scop, scope)
	denied := r.status == 401 || r.status == 403
	switch {
	case scope == "":
		if r.status != 200 {
			env.Fail("public", "%s at %s with %s: %v", what, p.id, c.name, r)
		}

		return
	case c.is == nobody && r.status != 401:
		env.Fail("open", "%s at %s with %s: %v; nobody that the server knows", what, p.id, c.name, r)
	case c.is == either && r.status == 401:
	case c.is != nobody && !may && r.status != 403:
		env.Fail("open", "%s at %s with %s, which has %v: %v", what, p.id, c.name, c.scop, r)
	case may && c.is == somebody && denied:
		env.Fail("refused", "%s at %s with %s, which has %v: %v", what, p.id, c.name, c.scop, r)
	}
	if denied {
		if s := tellsSecrets(r); s != "" {
			env.Fail("leak", "%s at %s with %s is refused, but %s tells: %v", what, p.id, c.name, s, r)
		}
	}
	env.Nontrivial()
	env.Probe(fmt.Sprint("status-", r.status))
}

func (w *scopeWorld) ask(p *proc, c cred, rt route, n int64) {
	may := c.is != nobody && slices.Contains(c.scop, rt.scope)
	if may && rt.harmful {
		return
	}
	addr, path, body := p.api(), rt.path, rt.body
	if rt.mgmt {
		addr = p.mgmt()
	}
	key := fmt.Sprint("keep", n%2)
	if may {
		key = fmt.Sprint("own", n%3)
		body = strings.ReplaceAll(body, intruder, "own")
	}
	path, body = strings.ReplaceAll(path, "KEY", key), strings.ReplaceAll(body, "KEY", key)
	r := w.send(c, rt.method, addr, path, body, rt.stream)
	w.judgeScope(p, c, rt.method+" "+path, rt.scope, r)
	if may && strings.HasPrefix(path, "/v1/cache/keep") && w.master.is == somebody && r.status == 200 && rt.method == "GET" && string(r.body) != "secret-"+path[len("/v1/cache/"):] {
		w.env.Fail("harm", "%s at %s: %v", path, p.id, r)
	}
}

// odd spellings of a route: whatever they mean to the server, a caller without
// the scope gets nothing from them.
func (w *scopeWorld) odd(p *proc, c cred, op simkit.Op) {
	rt := routes[op.A%int64(len(routes))]
	if rt.scope == "" || c.is != nobody && (slices.Contains(c.scop, rt.scope) || slices.Contains(c.scop, "write") || slices.Contains(c.scop, "read") || slices.Contains(c.scop, "admin")) {
		return
	}
	addr, path := p.api(), strings.ReplaceAll(rt.path, "KEY", "keep0")
	if rt.mgmt {
		addr = p.mgmt()
	}
	method := rt.method
	switch op.C / 16 % 14 {
	case 0:
		path = strings.ToUpper(path)
	case 1:
		path += "/"
	case 2:
		path = "/" + path
	case 3:
		path = "/." + path
	case 4:
		path = "/healthz/.." + path
	case 5:
		path = "/%" + fmt.Sprintf("%x", path[1]) + path[2:]
	case 6:
		path = strings.Replace(path, "/", "//", 2)
	case 7:
		path += "?access_token=secret-token-4&token=secret-peer"
	case 8:
		method = "HEAD"
	case 9:
		method = "OPTIONS"
	case 10:
		path = "/v1/openapi.yaml/.." + path[min(3, len(path)-1):]
	case 11:
		path = path + "%2f"
	case 12:
		path = path + ";/healthz"
	case 13:
		method = "PATCH"
	}
	r := w.send(c, method, addr, path, strings.ReplaceAll(rt.body, "KEY", "keep0"), rt.stream)
	if r.err != nil {
		w.env.Fail("transport", "%s %s at %s: %v", method, path, p.id, r.err)
	}
	if s := tellsSecrets(r); s != "" || r.status/100 == 2 && method != "OPTIONS" {
		w.env.Fail("open", "%s %s at %s with %s, which has %v: %v (%s)", method, path, p.id, c.name, c.scop, r, s)
	}
	w.env.Probe("odd")
}

func (w *scopeWorld) me(p *proc, c cred) {
	r := w.send(c, "GET", p.api(), "/v1/me", "", false)
	w.judgeScope(p, c, "GET /v1/me", "read", r)
	if r.status != 200 {
		return
	}
	var v struct {
		ID           string   `json:"id"`
		Scopes       []string `json:"scopes"`
		Capabilities []string `json:"capabilities"`
	}
	if err := r.json(&v); err != nil {
		w.env.Fail("me", "%v: %v", r, err)
	}
	sc := slices.Clone(v.Scopes)
	want := slices.Clone(c.scop)
	sort.Strings(sc)
	sort.Strings(want)
	if v.ID != c.id || fmt.Sprint(sc) != fmt.Sprint(want) || len(v.Capabilities) != len(v.Scopes) {
		w.env.Fail("me", "/v1/me at %s with %s says %s; it is %s with %v", p.id, c.name, r, c.id, c.scop)
	}
}

func (w *scopeWorld) can(p *proc, c cred, op simkit.Op) {
	s := []string{"read", "write", "admin"}[op.A%3]
	r := w.send(c, "GET", p.api(), "/v1/me/can?capability=cache."+s, "", false)
	w.judgeScope(p, c, "GET /v1/me/can", "read", r)
	var v struct{ Allowed bool }
	if r.status == 200 && (r.json(&v) != nil || v.Allowed != slices.Contains(c.scop, s)) {
		w.env.Fail("me", "/v1/me/can cache.%s at %s with %s, which has %v, says %s", s, p.id, c.name, c.scop, r)
	}
}

// peers: the port between nodes is open to the holders of the peer token alone,
// when there is one.
func (w *scopeWorld) peers(p *proc, c cred, op simkit.Op) {
	if w.peer == "" || c.auth == "Bearer "+w.peer {
		return
	}
	type q struct{ method, path, body string }
	x := []q{
		{"GET", "/internal/cache/get?key=keep0", ""},
		{"GET", "/internal/keys", ""},
		{"GET", "/internal/merkle", ""},
		{"POST", "/internal/cache/set", `{"key":"keep0","value":"` + intruder + `","version":1000,"replicate":true}`},
		{"DELETE", "/internal/cache/remove?key=keep0&replicate=true", ""},
		{"POST", "/internal/gossip", `[{"id":"n0","address":"evil.sim:1","state":"dead","incarnation":99}]`},
		{"POST", "/dist/drain", ""},
		{"GET", "/internal/probe?target=n0", ""},
		{"GET", "/health", ""},
	}[op.A%9]
	r := w.send(c, x.method, p.dist(), x.path, x.body, false)
	if r.err != nil {
		w.env.Fail("transport", "%s %s at %s: %v", x.method, x.path, p.id, r.err)
	}
	if r.status != 401 && r.status != 403 {
		w.env.Fail("open", "%s %s between nodes at %s with %s: %v", x.method, x.path, p.id, c.name, r)
	}
	if s := tellsSecrets(r); s != "" {
		w.env.Fail("leak", "%s %s between nodes at %s with %s: %v", x.method, x.path, p.id, c.name, r)
	}
	w.env.Probe("peers")
}
