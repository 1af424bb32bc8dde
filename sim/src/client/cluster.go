package main

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/zzsim/simkit"
	"github.com/hyp3rd/hypercache/zzsim/simnet"
)

// The nodes are stand-ins: real net/http servers that speak the documented REST
// protocol over one shared, perfectly consistent map, and fail on command.

type stored struct {
	val     []byte
	ttlMs   int64
	version uint64
}

// served is one request as a node saw it and what it answered.
type served struct {
	node         int
	op, att      string
	seq          int64
	method, path string
	hdr          http.Header
	body         []byte
	bodyErr      error
	fault        string
	status       int
	code, msg    string
	details      string
	raw          []byte // response body
	// what the node understood
	key      string
	ttl      time.Duration
	put      []batchPut
	keys     []string
	results  []batchRes
	item     *stored
	view     []string // what a members answer projects to
	hasView  bool
	decoded  bool // 200 with a JSON body the client decodes
	badBody  bool // 200 with an undecodable body
	instant  time.Duration
	recvDone bool
}

type batchPut struct {
	Key   string `json:"key"`
	Value string `json:"value"`
	Enc   string `json:"value_encoding"`
	TTLMs int64  `json:"ttl_ms"`
}

type batchRes struct {
	key    string
	ok     bool
	code   string
	msg    string
	bytes  int
	owners []string
	item   *stored
}

type fleet struct {
	env   *simkit.Env
	net   *simnet.Net
	mu    sync.Mutex
	addrs []string
	srv   []*http.Server
	lis   []*simnet.Listener
	data  map[string]*stored
	ver   uint64
	log   []*served
	// members, when set, produces the body of /cluster/members.
	members func() ([]memberRow, bool)
	// auth, when set, decides the status of a request by its credentials.
	auth func(r *http.Request) int
}

type memberRow struct {
	ID      string `json:"id"`
	Address string `json:"address"`
	State   string `json:"state"`
}

type connKey struct{}

func newFleet(env *simkit.Env, n int) *fleet {
	f := &fleet{env: env, net: simnet.New(env), data: map[string]*stored{}}
	for i := range n {
		f.addrs = append(f.addrs, fmt.Sprintf("10.0.0.%d:8080", i+1))
		f.srv, f.lis = append(f.srv, nil), append(f.lis, nil)
		f.start(i)
	}

	return f
}

func (f *fleet) start(i int) {
	l, err := f.net.Listen(f.addrs[i])
	if err != nil {
		return // already running
	}
	f.net.SetState(f.addrs[i], simnet.Up)
	s := &http.Server{
		Handler:     http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { f.serve(i, w, r) }),
		ErrorLog:    log.New(io.Discard, "", 0),
		ConnContext: func(ctx context.Context, c net.Conn) context.Context { return context.WithValue(ctx, connKey{}, c) },
	}
	f.mu.Lock()
	f.srv[i], f.lis[i] = s, l
	f.mu.Unlock()
	go s.Serve(l)
}

// crash takes a node down: its listener and connections vanish.
func (f *fleet) crash(i int) {
	f.mu.Lock()
	s, l := f.srv[i], f.lis[i]
	f.srv[i], f.lis[i] = nil, nil
	f.mu.Unlock()
	f.net.SetState(f.addrs[i], simnet.Down)
	if s != nil {
		l.Close()
		s.Close()
	}
}

// set applies a plan's node command.
func (f *fleet) set(cmd string, i int) {
	i = ((i % len(f.addrs)) + len(f.addrs)) % len(f.addrs)
	switch cmd {
	case "crash":
		f.env.CountFault("node-crash")
		f.crash(i)
	case "hang":
		f.env.CountFault("node-hang")
		f.net.SetState(f.addrs[i], simnet.Hung)
	case "heal":
		if f.net.StateOf(f.addrs[i]) == simnet.Hung {
			f.net.SetState(f.addrs[i], simnet.Up)
		}
		f.start(i)
	}
}

func (f *fleet) stop() {
	for i := range f.addrs {
		f.net.SetState(f.addrs[i], simnet.Up)
		f.crash(i)
	}
	f.net.CloseAll()
}

func (f *fleet) record(s *served) {
	f.mu.Lock()
	f.log = append(f.log, s)
	f.mu.Unlock()
}

// find returns what a node did with one attempt.
func (f *fleet) find(op, att string) *served {
	f.mu.Lock()
	defer f.mu.Unlock()
	for i := len(f.log) - 1; i >= 0; i-- {
		if f.log[i].op == op && f.log[i].att == att {
			return f.log[i]
		}
	}

	return nil
}

func (f *fleet) serve(i int, w http.ResponseWriter, r *http.Request) {
	s := &served{
		node: i, op: r.Header.Get("X-Sim-Op"), att: r.Header.Get("X-Sim-Att"), seq: simkit.Seq(), method: r.Method,
		path: r.URL.EscapedPath(), hdr: r.Header.Clone(), instant: f.env.Now(),
	}
	s.body, s.bodyErr = io.ReadAll(r.Body)
	if s.bodyErr != nil {
		return // the caller went away while sending
	}
	s.recvDone = true
	point := fmt.Sprintf("node%d", i)
	if s.path == "/cluster/members" {
		point += "/members"
	}
	f.answer(s, r, point)
	f.record(s)
	if ok, v := f.env.Fault("http-slow", point); ok {
		d := time.Duration(v%40000) * time.Millisecond
		s.fault += "+slow"
		t := time.NewTimer(d)
		select {
		case <-t.C:
		case <-r.Context().Done():
			t.Stop()
		}
	}
	if ok, v := f.env.Fault("http-cut", point); ok {
		if c, _ := r.Context().Value(connKey{}).(*simnet.Conn); c != nil {
			s.fault += "+cut"
			c.CutAfter(1+int(v%uint64(200+len(s.raw))), v>>40%2 == 0)
		}
	}
	w.WriteHeader(s.status)
	w.Write(s.raw)
}

func (s *served) fail(w *served, status int, code, msg, details string) {
	s.status, s.code, s.msg, s.details = status, code, msg, details
	s.raw, _ = json.Marshal(map[string]string{"code": code, "error": msg, "details": details})
}

func (s *served) json(v any) {
	s.status = http.StatusOK
	s.decoded = true
	s.raw, _ = json.Marshal(v)
}

func (f *fleet) answer(s *served, r *http.Request, point string) {
	if ok, v := f.env.Fault("http-5xx", point); ok {
		s.fault = "5xx"
		switch v % 4 {
		case 0:
			s.fail(s, 500, "INTERNAL", "boom", "")
		case 1:
			s.status, s.raw = 502, []byte("<html>"+strings.Repeat("bad gateway ", 40)+"</html>")
		case 2:
			s.status, s.raw = 504, nil
		case 3:
			s.fail(s, 507, "STORAGE", "full", "disk")
		}

		return
	}
	if ok, v := f.env.Fault("http-503", point); ok {
		s.fault = "503"
		if v%3 == 0 {
			s.status, s.raw = 503, []byte("unavailable")
		} else {
			s.fail(s, 503, "DRAINING", "node is draining", "")
		}

		return
	}
	if ok, v := f.env.Fault("http-4xx", point); ok {
		s.fault = "4xx"
		switch v % 6 {
		case 0:
			s.fail(s, 401, "UNAUTHORIZED", "no", "")
		case 1:
			s.status, s.raw = 401, []byte("Unauthorized")
		case 2:
			s.fail(s, 403, "FORBIDDEN", "missing scope", "write")
		case 3:
			s.fail(s, 400, "BAD_REQUEST", "bad", "shape")
		case 4:
			s.fail(s, 404, "NOT_FOUND", "nothing here", "")
		case 5:
			s.status, s.raw = 429, []byte(`{"slow":"down"}`)
		}

		return
	}
	if f.auth != nil {
		if st := f.auth(r); st != 0 {
			s.fault = "auth"
			s.fail(s, st, "UNAUTHORIZED", "credentials", "")

			return
		}
	}
	f.mu.Lock()
	f.handle(s, r)
	f.mu.Unlock()
	if s.decoded && len(s.raw) > 0 {
		if ok, v := f.env.Fault("http-garbage", point); ok {
			s.fault += "+garbage"
			s.badBody = true
			s.raw = s.raw[:int(v%uint64(len(s.raw)))]
		}
	}
}

func owners(key string) []string {
	h := simkit.HashString(key)

	return []string{fmt.Sprintf("n%d", h%5), fmt.Sprintf("n%d", 5+h%3)}
}

func (f *fleet) put(key string, val []byte, ttlMs int64) *stored {
	f.ver++
	it := &stored{val: val, ttlMs: ttlMs, version: f.ver}
	f.data[key] = it

	return it
}

func envelope(key string, it *stored, node string) map[string]any {
	m := map[string]any{
		"key": key, "value": base64.StdEncoding.EncodeToString(it.val), "value_encoding": "base64",
		"version": it.version, "origin": fmt.Sprintf("o%d", it.version%7), "last_updated": fmt.Sprintf("lu%d", it.version),
		"node": node, "owners": owners(key),
	}
	if it.ttlMs > 0 {
		m["ttl_ms"] = it.ttlMs
		m["expires_at"] = fmt.Sprintf("ea%d", it.version)
	}

	return m
}

func (f *fleet) handle(s *served, r *http.Request) {
	node := fmt.Sprintf("node%d", s.node)
	switch {
	case s.path == "/cluster/members" && s.method == http.MethodGet:
		rows, garbage := f.members()
		s.json(map[string]any{"members": rows, "version": 3})
		if garbage {
			s.raw, s.badBody = []byte(`{"members": [{"id":`), true
			if len(rows) > 1 && f.ver%2 == 0 { // good up to a row of other types
				mixed := []any{rows[0], map[string]any{"id": 7, "address": []int{1}, "state": "alive"}}
				s.json(map[string]any{"members": mixed, "version": 3})
			}
			f.ver++

			return
		}
		s.hasView = true
		for _, m := range rows {
			a := strings.TrimSpace(m.Address)
			if m.State == "dead" || a == "" {
				continue
			}
			if !strings.Contains(a, "://") {
				a = "http://" + a
			}
			s.view = append(s.view, strings.TrimRight(a, "/"))
		}
	case s.path == "/v1/me" && s.method == http.MethodGet:
		s.json(map[string]any{"id": "me-" + node, "scopes": []string{"read", "write"}, "capabilities": []string{"cache.read", "cache.write"}})
	case s.path == "/v1/me/can" && s.method == http.MethodGet:
		c := r.URL.Query().Get("capability")
		s.key = c
		if !strings.HasPrefix(c, "cache.") {
			s.fail(s, 400, "BAD_REQUEST", "unknown capability", c)

			return
		}
		s.json(map[string]any{"capability": c, "allowed": strings.HasSuffix(c, "read")})
	case s.path == "/v1/cache/batch/put" && s.method == http.MethodPost:
		var in struct{ Items []batchPut }
		if err := json.Unmarshal(s.body, &in); err != nil {
			s.fail(s, 400, "BAD_REQUEST", "json", err.Error())

			return
		}
		s.put = in.Items
		var rs []map[string]any
		for _, it := range in.Items {
			b, err := base64.StdEncoding.DecodeString(it.Value)
			res := batchRes{key: it.Key, ok: true, bytes: len(b), owners: owners(it.Key)}
			if err != nil || it.Enc != "base64" {
				res.ok, res.code, res.msg = false, "BAD_REQUEST", "encoding"
			} else {
				f.itemFault(&res)
			}
			m := map[string]any{"key": it.Key, "stored": res.ok}
			if res.ok {
				f.put(it.Key, b, it.TTLMs)
				m["bytes"], m["owners"] = res.bytes, res.owners
			} else {
				res.bytes, res.owners = 0, nil
				m["error"], m["code"] = res.msg, res.code
			}
			s.results = append(s.results, res)
			rs = append(rs, m)
		}
		s.json(map[string]any{"results": rs, "node": node})
	case s.path == "/v1/cache/batch/get" && s.method == http.MethodPost:
		var in struct{ Keys []string }
		if err := json.Unmarshal(s.body, &in); err != nil {
			s.fail(s, 400, "BAD_REQUEST", "json", err.Error())

			return
		}
		s.keys = in.Keys
		var rs []map[string]any
		for _, k := range in.Keys {
			it := f.data[k]
			if it == nil {
				rs = append(rs, map[string]any{"key": k, "found": false})
			} else {
				m := envelope(k, it, node)
				delete(m, "node")
				m["found"] = true
				if bad, _ := f.env.Fault("item-garbage", "batch"); bad {
					m["value"], s.badBody = "*"+m["value"].(string), true
				}
				rs = append(rs, m)
			}
			s.results = append(s.results, batchRes{key: k, ok: it != nil, item: it})
		}
		s.json(map[string]any{"results": rs, "node": node})
	case s.path == "/v1/cache/batch/delete" && s.method == http.MethodPost:
		var in struct{ Keys []string }
		if err := json.Unmarshal(s.body, &in); err != nil {
			s.fail(s, 400, "BAD_REQUEST", "json", err.Error())

			return
		}
		s.keys = in.Keys
		var rs []map[string]any
		for _, k := range in.Keys {
			res := batchRes{key: k, ok: true, owners: owners(k)}
			f.itemFault(&res)
			m := map[string]any{"key": k, "deleted": res.ok}
			if res.ok {
				delete(f.data, k)
				m["owners"] = res.owners
			} else {
				res.owners = nil
				m["error"], m["code"] = res.msg, res.code
			}
			s.results = append(s.results, res)
			rs = append(rs, m)
		}
		s.json(map[string]any{"results": rs, "node": node})
	case strings.HasPrefix(s.path, "/v1/cache/"):
		key, err := url.PathUnescape(strings.TrimPrefix(s.path, "/v1/cache/"))
		if err != nil || strings.Contains(strings.TrimPrefix(s.path, "/v1/cache/"), "/") || key == "" {
			s.fail(s, 400, "BAD_REQUEST", "key", "")

			return
		}
		s.key = key
		switch s.method {
		case http.MethodPut:
			if q := r.URL.Query().Get("ttl"); q != "" {
				d, err := time.ParseDuration(q)
				if err != nil {
					s.fail(s, 400, "BAD_REQUEST", "invalid ttl", q)

					return
				}
				s.ttl = d
			}
			f.put(key, s.body, s.ttl.Milliseconds())
			s.json(map[string]any{"key": key, "stored": true})
		case http.MethodGet:
			it := f.data[key]
			if it == nil {
				s.fail(s, 404, "NOT_FOUND", "key not found", key)

				return
			}
			s.item = it
			if strings.Contains(r.Header.Get("Accept"), "application/json") {
				s.json(envelope(key, it, node))
			} else {
				s.status, s.raw = 200, it.val
			}
		case http.MethodDelete:
			delete(f.data, key)
			if f.ver%2 == 0 {
				s.status = http.StatusNoContent
			} else {
				s.json(map[string]any{"key": key, "deleted": true})
			}
		default:
			s.fail(s, 405, "BAD_REQUEST", "method", "")
		}
	default:
		s.fail(s, 404, "NOT_FOUND", "route", s.path)
	}
}

func (f *fleet) itemFault(res *batchRes) {
	if ok, v := f.env.Fault("item-fail", "batch"); ok {
		res.ok = false
		res.code = []string{"DRAINING", "INTERNAL", "BAD_REQUEST", "ODD", ""}[v%5]
		res.msg = "item failed: " + res.code
	}
}

// ---- the recording transport under the client ----

// attempt is one request as the client's transport saw it.
type attempt struct {
	op       string
	n        string
	endpoint string
	method   string
	url      string
	auth     []string
	via      bool
	start    time.Duration
	end      time.Duration
	seq      int64
	netErr   error
	status   int
	body     []byte
	bodyErr  error
	readAll  bool
	closed   bool
	ctxDone  bool // the caller's context was over before the attempt
}

type opKey struct{}

type recorder struct {
	env  *simkit.Env
	via  string
	base http.RoundTripper
	sh   *recShared
}

type recShared struct {
	mu  sync.Mutex
	all []*attempt
	seq int
}

func (t *recorder) RoundTrip(req *http.Request) (*http.Response, error) {
	op, _ := req.Context().Value(opKey{}).(string)
	a := &attempt{
		op: op, endpoint: req.URL.Scheme + "://" + req.URL.Host, method: req.Method, url: req.URL.String(),
		auth: req.Header.Values("Authorization"), start: t.env.Now(), seq: simkit.Seq(), via: t.via != "", ctxDone: req.Context().Err() != nil,
	}
	t.sh.mu.Lock()
	t.sh.seq++
	a.n = fmt.Sprint(t.sh.seq)
	t.sh.all = append(t.sh.all, a)
	t.sh.mu.Unlock()
	req = req.Clone(req.Context())
	req.Header.Set("X-Sim-Op", op)
	req.Header.Set("X-Sim-Att", a.n)
	if t.via != "" {
		req.Header.Set("X-Via", t.via)
	}
	resp, err := t.base.RoundTrip(req)
	end := t.env.Now()
	t.sh.mu.Lock()
	a.end, a.netErr = end, err
	if err == nil {
		a.status = resp.StatusCode
	}
	t.sh.mu.Unlock()
	if err != nil {
		return nil, err
	}
	resp.Body = &recBody{resp.Body, a}

	return resp, nil
}

type recBody struct {
	io.ReadCloser
	a *attempt
}

func (b *recBody) Read(p []byte) (int, error) {
	n, err := b.ReadCloser.Read(p)
	b.a.body = append(b.a.body, p[:n]...)
	if err == io.EOF {
		b.a.readAll = true
	} else if err != nil {
		b.a.bodyErr = err
	}

	return n, err
}

func (b *recBody) Close() error {
	b.a.closed = true

	return b.ReadCloser.Close()
}

// of returns the attempts of one call, in order.
func (s *recShared) of(op string) []*attempt {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []*attempt
	for _, a := range s.all {
		if a.op == op {
			out = append(out, a)
		}
	}

	return out
}

func newTransport() *http.Transport {
	return &http.Transport{DialContext: (&net.Dialer{}).DialContext, MaxIdleConnsPerHost: 4, IdleConnTimeout: 90 * time.Second}
}

func sameSet(a, b []string) bool {
	a, b = slices.Clone(a), slices.Clone(b)
	slices.Sort(a)
	slices.Sort(b)

	return slices.Equal(a, b)
}
