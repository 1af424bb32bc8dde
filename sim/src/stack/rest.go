package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/pkg/client"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// "rest": a cluster of shipped servers, configured through the environment, and
// its clients. What one client stored through any route of any server is what
// every route of every server then answers, byte for byte, until it is removed,
// replaced or expires; restarting servers one at a time loses none of it.

func init() {
	simkit.Register(&simkit.Scenario{Name: "rest", Gen: genRest, Exec: execRest, MaxYields: 1_000_000_000})
}

// kinds of keys; the thread's number goes in front.
var kinds = []string{
	"plain", "a b", "a/b", "100%", "a%20b", "x+y", "q?x=1", "a#b", "k;v=1", "a//b", "UPPER", "upper", "dir/", "a&b=c", "~", "quo\"te", "back\\slash",
	"ключ", "emoji😀", "*", ":key", "%2F", "keys", "batch/get", "null", "tab\tnl\n", "..", "../x", ".", "[a-z]", "{x}", "<&>", "",
}

// a value the thread can recognise, in one of the shapes a heuristic may trip over
func valueOf(c int64, tag string) []byte {
	switch c % 14 {
	case 0:
		return []byte("v|" + tag)
	case 1:
		return nil
	case 2: // text that is base64 of something
		return []byte(base64.StdEncoding.EncodeToString([]byte("v|" + tag)))
	case 3: // and twice
		return []byte(base64.StdEncoding.EncodeToString([]byte(base64.StdEncoding.EncodeToString([]byte("v|" + tag)))))
	case 4:
		return []byte(`{"v":"` + tag + `","n":[1,2.50,1e400,null]}`)
	case 5:
		return []byte(`"` + tag + `"`)
	case 6:
		return []byte(fmt.Sprint(c))
	case 7:
		return []byte("\x00\xff\xfe" + tag + "\xc3\x28\x80\n\r\x00")
	case 8:
		return []byte("null")
	case 9:
		return []byte("abcd"[:1+c/14%4])
	case 10:
		return bytes.Repeat([]byte(tag+"|\xf0\x9f"), 1+int(c/14%700))
	case 11:
		return []byte("AAAA")
	case 12:
		return []byte(" \t" + tag + "\r\n ")
	}

	return []byte("<html>&amp;\u2028" + tag)
}

func genRest(r *simkit.Rand, tier string) *simkit.Plan {
	n := r.I(1, 4)
	p := &simkit.Plan{P: map[string]int64{
		"nodes": int64(n), "rf": int64(r.I(1, 3)), "auth": int64(r.N(3)), "rounds": 1, "tuned": int64(r.N(2)), "spread": int64(r.N(100)), "watch": int64(r.N(2)),
	}, Rates: map[string]int64{}}
	if n > 1 && r.N(2) == 0 {
		p.P["rf"] = int64(r.I(2, 3))
		p.P["rounds"], p.P["restart"] = int64(r.I(2, 3)), int64(r.I(1, 2))
	}
	brief := simkit.Pick(r, 0, 2, 6, 20)
	p.Rates["net-delay"], p.Rates["net-split"] = simkit.Pick(r, int64(0), 800), simkit.Pick(r, int64(0), 2000)
	for range r.I(1, 3) {
		var ops []simkit.Op
		for range r.I(6, 20) {
			ops = append(ops, simkit.Op{
				K: []string{"set", "get", "item", "head", "delete", "batchset", "batchget", "batchdelete", "peek", "owners", "me", "ttl", "brief", "glance", "wait", "trigger", "renew", "rawput", "meta"}[r.PickW(6, 5, 3, 2, 2, 3, 3, 1, 4, 1, 1, 1, brief, 2*brief, brief, brief, brief, 3, 3)],
				A: int64(r.N(len(kinds))), B: int64(r.N(60)), C: int64(r.N(1 << 30)),
			})
		}
		p.Threads = append(p.Threads, ops)
	}

	return p
}

const (
	tokenAll  = "tok-all"
	tokenRead = "tok-read"
)

// slot is what a thread knows about one of its keys.
type slot struct {
	mu    sync.Mutex
	key   string
	ever  [][]byte // every value ever sent for it
	cur   []byte
	held  bool
	ttl   bool // stored with a lifetime, of an hour
	loose bool // the last request's outcome is unknown
}

func (s *slot) sent(v []byte) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, e := range s.ever {
		if bytes.Equal(e, v) {
			return true
		}
	}

	return false
}

func (s *slot) add(v []byte) {
	s.mu.Lock()
	s.ever = append(s.ever, v)
	s.mu.Unlock()
}

func esc(k string) string { return url.PathEscape(k) }

func execRest(env *simkit.Env) {
	s := newStack(env)
	tok := ""
	if env.P("auth") > 0 {
		tok = tokenAll
		s.vars["HYPERCACHE_AUTH_TOKEN"] = tok
	}
	s.vars["HYPERCACHE_LOG_LEVEL"] = "error"
	s.vars["HYPERCACHE_REPLICATION"] = fmt.Sprint(env.P("rf"))
	if env.P("tuned") == 1 {
		s.vars["HYPERCACHE_HEARTBEAT"], s.vars["HYPERCACHE_GOSSIP_INTERVAL"] = "200ms", "100ms"
		s.vars["HYPERCACHE_REBALANCE_INTERVAL"], s.vars["HYPERCACHE_HINT_REPLAY"] = "50ms", "50ms"
	}
	n := max(1, env.PI("nodes"))
	for i := range n {
		s.procs = append(s.procs, &proc{id: fmt.Sprintf("n%d", i)})
	}
	for _, p := range s.procs {
		var seeds []string
		for _, q := range s.procs {
			if q != p {
				seeds = append(seeds, q.id+"@"+q.dist())
			}
		}
		p.vars = map[string]string{
			"HYPERCACHE_NODE_ID": p.id, "HYPERCACHE_API_ADDR": p.api(), "HYPERCACHE_MGMT_ADDR": p.mgmt(), "HYPERCACHE_DIST_ADDR": p.dist(),
			"HYPERCACHE_SEEDS": strings.Join(seeds, ","),
		}
	}
	for _, p := range s.procs {
		if !s.start(p) {
			env.Fail("boot", "%s ended with code %d", p.id, p.code)
		}
	}
	if err := s.converge(tok, time.Minute); err != nil {
		env.Fail("members", "%v", err)
	}

	if env.P("watch") == 1 {
		for _, p := range s.procs {
			s.watch(p, tok)
		}
	}
	w := &restWorld{stack: s, tok: tok, calm: true}
	for t := range env.Plan.Threads {
		w.briefs = append(w.briefs, []*brief{{key: fmt.Sprintf("brief%d", t)}, {key: fmt.Sprintf("brief/%d", t)}})
		var ks []*slot
		for i := range kinds {
			ks = append(ks, &slot{key: fmt.Sprintf("t%d%s", t, kinds[i])})
		}
		w.slots = append(w.slots, ks)
	}
	rounds := max(1, env.PI("rounds"))
	for round := range rounds {
		var wg sync.WaitGroup
		var victim *proc
		if round > 0 && round <= env.PI("restart") {
			victim = s.procs[int(env.P("spread")+int64(round))%n]
			w.calm = false
		}
		for t, ops := range env.Plan.Threads {
			part := ops[len(ops)*round/rounds : len(ops)*(round+1)/rounds]
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, op := range part {
					w.do(t, round*1000+i, op)
				}
			}()
		}
		if victim != nil {
			env.CountFault("restart")
			s.stop(victim)
			if victim.code != 0 {
				env.Fail("exit", "%s told to stop ended with code %d", victim.id, victim.code)
			}
			time.Sleep(time.Duration(env.P("spread")%20) * 500 * time.Millisecond)
			if !s.start(victim) {
				env.Fail("boot", "%s started again ended with code %d", victim.id, victim.code)
			}
		}
		wg.Wait()
		if victim != nil {
			if err := s.converge(tok, time.Minute); err != nil {
				env.Fail("members", "after a restart of %s: %v", victim.id, err)
			}
			time.Sleep(10 * time.Second)
			w.calm = true
		}
		w.settled(false)
		s.judgeStreams(tok)
	}
	w.settled(true)
	s.close()
}

type restWorld struct {
	*stack
	tok   string
	slots [][]*slot
	calm  bool
	// keys that are written with short lifetimes
	briefs [][]*brief
}

// brief is what a thread knows about a key of limited life.
type brief struct {
	key   string
	v     []byte
	from  time.Time // the write began
	by    time.Time // the last answer about it: a read may prolong its life
	ttl   time.Duration
	calm  bool // nothing was restarted since the write
	loose bool
}

// what a lifetime may vary by: the delays of the hops a copy took.
const ttlSlack = time.Second

// judge checks one answer about a brief key; asked is when the request began.
func (w *restWorld) judge(what string, at *proc, b *brief, asked time.Time, v []byte, found bool) {
	if b.loose {
		return
	}
	if found && b.ttl > 0 && asked.Sub(b.by) > b.ttl+ttlSlack {
		w.env.Fail("expired", "%s of %q at %s: %q, stored with a lifetime of %v and not asked for since %v", what, b.key, at.id, v, b.ttl, asked.Sub(b.by))
	}
	defer func() { b.by = time.Now() }()
	if !b.calm || !w.calm {
		return
	}
	if found && !bytes.Equal(v, b.v) {
		w.env.Fail("value", "%s of %q at %s: %q, stored %q", what, b.key, at.id, v, b.v)
	}
	if !found && b.v != nil && (b.ttl == 0 || time.Since(b.from) < b.ttl) {
		w.env.Fail("early", "%s of %q at %s: not there %v after it was stored with a lifetime of %v", what, b.key, at.id, time.Since(b.from), b.ttl)
	}
	w.env.Nontrivial()
}

func (w *restWorld) doBrief(c *client.Client, t, i int, op simkit.Op, at *proc) {
	env := w.env
	b := w.briefs[t][op.A%2]
	ctx := context.Background()
	asked := time.Now()
	switch op.K {
	case "brief":
		v := []byte(fmt.Sprintf("brief|%d|%d", t, i))
		ttl := []time.Duration{0, time.Second, 1500 * time.Millisecond, 3 * time.Second, 5 * time.Second, 8 * time.Second}[op.C%6]
		calm := w.calm
		var err error
		if op.C/6%3 == 0 {
			var res []client.BatchPutResult
			res, err = c.BatchSet(ctx, []client.BatchSetItem{{Key: b.key, Value: v, TTL: ttl}})
			if err == nil && (len(res) != 1 || !res[0].Stored) {
				err = fmt.Errorf("answered %+v", res)
			}
		} else {
			err = c.Set(ctx, b.key, v, ttl)
		}
		if err != nil && calm && w.calm {
			env.Fail("refused", "Set of %q at %s: %v", b.key, at.id, err)
		}
		*b = brief{key: b.key, v: v, from: asked, by: time.Now(), ttl: ttl, calm: calm && w.calm, loose: err != nil}
		env.Probe("brief")
	case "glance":
		if op.C%3 == 0 { // just around the end of its life
			if d := time.Until(b.from.Add(b.ttl)) + time.Duration(op.C/3%4-1)*time.Second/2; b.ttl > 0 && d > 0 {
				time.Sleep(d)
				asked = time.Now()
			}
		}
		it, err := c.GetItem(ctx, b.key)
		if errors.Is(err, client.ErrNotFound) {
			it, err = nil, nil
		}
		if err != nil {
			if w.calm {
				env.Fail("refused", "GetItem of %q at %s: %v", b.key, at.id, err)
			}

			return
		}
		var v []byte
		if it != nil {
			v = it.Value
			left := time.Duration(it.TTLMs) * time.Millisecond
			if !b.loose && b.calm && w.calm {
				if b.ttl == 0 && left != 0 || b.ttl > 0 && (time.Now().Add(left).Before(b.from.Add(b.ttl-2*time.Millisecond)) || left > b.ttl) {
					env.Fail("remaining", "GetItem of %q at %s: %v left, written with a lifetime of %v %v before", b.key, at.id, left, b.ttl, time.Since(b.from))
				}
			}
		}
		w.judge("GetItem", at, b, asked, v, it != nil)
	case "renew": // written anew while the servers look for what has expired
		if b.ttl == 0 || b.loose {
			return
		}
		if d := time.Until(b.by.Add(b.ttl + ttlSlack)); d > 0 {
			time.Sleep(d)
		}
		var wg sync.WaitGroup
		for _, q := range w.procs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				w.call("POST", q.mgmt(), "/trigger-expiration", w.tok, nil)
			}()
		}
		time.Sleep(time.Duration(op.C/6%50) * 10 * time.Microsecond)
		op.K, op.C = "brief", op.C-op.C%6
		w.doBrief(c, t, i, op, at)
		wg.Wait()
		env.Probe("renew")
	case "trigger":
		r := w.call("POST", at.mgmt(), "/trigger-expiration", w.tok, nil)
		if r.err == nil && r.status >= 300 {
			env.Fail("refused", "POST /trigger-expiration at %s: %v", at.id, r)
		}
		env.Probe("trigger")
	}
}

func (w *restWorld) client(op simkit.Op) *client.Client {
	var seeds []string
	for i := range w.procs {
		seeds = append(seeds, "http://"+w.procs[(i+int(op.B))%len(w.procs)].api())
	}
	if w.calm {
		seeds = seeds[:1]
	}
	opts := []client.Option{client.WithHTTPClient(w.hc)}
	if w.tok != "" {
		opts = append(opts, client.WithBearerAuth(w.tok))
	}
	c, err := client.New(seeds, opts...)
	if err != nil {
		w.env.Fail("client", "New(%v): %v", seeds, err)
	}

	return c
}

func (w *restWorld) do(t, i int, op simkit.Op) {
	env := w.env
	ctx := context.Background()
	c := w.client(op)
	defer c.Close()
	at := w.procs[int(op.B)%len(w.procs)]
	own := w.slots[t]
	sl := own[op.A]
	calm := w.calm
	failed := func(what string, err error) bool {
		if err == nil {
			return false
		}
		if calm && w.calm {
			env.Fail("refused", "%s of %q at %s: %v", what, sl.key, at.id, err)
		}

		return true
	}
	get := func(what string, v []byte, found bool, err error, sl *slot) {
		if err != nil {
			failed(what, err)

			return
		}
		w.check(what, at, sl, v, found)
	}
	switch op.K {
	case "brief", "glance", "trigger", "renew":
		w.doBrief(c, t, i, op, at)
	case "wait":
		time.Sleep(time.Duration(op.C%40) * 100 * time.Millisecond)
	case "set", "ttl":
		v := valueOf(op.C, fmt.Sprintf("%s|%d", sl.key, i))
		sl.add(v)
		ttl := time.Duration(0)
		if op.K == "ttl" {
			ttl = time.Hour
		}
		err := c.Set(ctx, sl.key, v, ttl)
		sl.cur, sl.held, sl.ttl, sl.loose = v, true, ttl > 0, failed("Set", err)
		env.Probe("write")
	case "get":
		v, err := c.Get(ctx, sl.key)
		found := !errors.Is(err, client.ErrNotFound)
		if !found {
			err = nil
		}
		get("Get", v, found, err, sl)
	case "item":
		it, err := c.GetItem(ctx, sl.key)
		found := !errors.Is(err, client.ErrNotFound)
		if !found {
			err = nil
		}
		var v []byte
		if it != nil {
			v = it.Value
			if it.Key != sl.key {
				env.Fail("key", "GetItem of %q at %s names %q", sl.key, at.id, it.Key)
			}
		}
		get("GetItem", v, found, err, sl)
		if it != nil && err == nil {
			w.lifetime("GetItem", at, sl, it.TTLMs)
		}
	case "head":
		r := w.call("HEAD", at.api(), "/v1/cache/"+esc(sl.key), w.tok, nil)
		if !failed("HEAD", r.err) && calm && w.calm && !sl.loose && (r.status == 200) != sl.held {
			env.Fail("head", "HEAD of %q at %s: %v, held %v", sl.key, at.id, r, sl.held)
		}
	case "delete":
		err := c.Delete(ctx, sl.key)
		sl.cur, sl.held, sl.loose = nil, false, failed("Delete", err)
	case "batchset":
		var items []client.BatchSetItem
		m := 1 + int(op.C/97%4)
		for j := range m {
			x := own[(int(op.A)+j*7)%len(own)]
			v := valueOf(op.C+int64(j), fmt.Sprintf("%s|%d.%d", x.key, i, j))
			x.add(v)
			items = append(items, client.BatchSetItem{Key: x.key, Value: v, TTL: time.Duration((op.C/389+int64(j))%2) * time.Hour})
		}
		res, err := c.BatchSet(ctx, items)
		bad := failed("BatchSet", err)
		if !bad && len(res) != m {
			env.Fail("batch", "BatchSet of %d at %s answered %v", m, at.id, res)
		}
		for j := range m {
			x := own[(int(op.A)+j*7)%len(own)]
			x.cur, x.held, x.ttl, x.loose = items[j].Value, true, items[j].TTL > 0, bad
			if !bad && (!res[j].Stored || res[j].Key != x.key) {
				x.loose = true
				if calm && w.calm {
					env.Fail("batch", "BatchSet of %q at %s answered %+v", x.key, at.id, res[j])
				}
			}
		}
		env.Probe("write")
	case "batchget":
		var keys []string
		for j := range 1 + int(op.C/97%4) {
			keys = append(keys, own[(int(op.A)+j*7)%len(own)].key)
		}
		res, err := c.BatchGet(ctx, keys)
		if failed("BatchGet", err) {
			return
		}
		if len(res) != len(keys) {
			env.Fail("batch", "BatchGet of %q at %s answered %v", keys, at.id, res)
		}
		for j, r := range res {
			x := own[(int(op.A)+j*7)%len(own)]
			var v []byte
			found := r.Found
			if r.Item != nil {
				v = r.Item.Value
			}
			if r.Key != x.key {
				env.Fail("key", "BatchGet of %q at %s names %q", x.key, at.id, r.Key)
			}
			w.check("BatchGet", at, x, v, found)
			if r.Item != nil {
				w.lifetime("BatchGet", at, x, r.Item.TTLMs)
			}
		}
	case "rawput":
		w.rawPut(t, i, op, at)
	case "meta":
		if calm && !sl.loose {
			w.meta(sl, int(op.C))
		}
	case "batchdelete":
		var keys []string
		m := 1 + int(op.C/97%4)
		for j := range m {
			keys = append(keys, own[(int(op.A)+j*7)%len(own)].key)
		}
		blank := op.C%3 == 0
		if blank {
			keys = append([]string{""}, keys...)
		}
		res, err := c.BatchDelete(ctx, keys)
		bad := failed("BatchDelete", err)
		if !bad && len(res) != len(keys) {
			env.Fail("batch", "BatchDelete of %q at %s answered %v", keys, at.id, res)
		}
		if !bad && blank {
			if res[0].Key != "" || res[0].Deleted {
				env.Fail("batch", "BatchDelete of no key at %s answered %+v", at.id, res[0])
			}
			res = res[1:]
		}
		for j := range m {
			x := own[(int(op.A)+j*7)%len(own)]
			x.cur, x.held, x.loose = nil, false, bad
			if !bad && res[j].Key != x.key {
				env.Fail("key", "BatchDelete of %q at %s names %q", x.key, at.id, res[j].Key)
			}
			if !bad && !res[j].Deleted {
				x.loose = true
				if calm && w.calm {
					env.Fail("batch", "BatchDelete of %q at %s answered %+v", x.key, at.id, res)
				}
			}
		}
	case "peek": // someone else's key
		o := w.slots[int(op.C)%len(w.slots)][op.A]
		r := w.call("GET", at.api(), "/v1/cache/"+esc(o.key), w.tok, nil)
		if failed("GET", r.err) {
			return
		}
		if r.status == 200 && !o.sent(r.body) {
			env.Fail("value", "GET of %q at %s: %v, which nobody stored there", o.key, at.id, r)
		}
	case "owners":
		var v struct {
			Key    string
			Owners []string
		}
		r := w.call("GET", at.api(), "/v1/owners/"+esc(sl.key), w.tok, nil)
		if failed("owners", r.err) {
			return
		}
		if err := r.json(&v); err != nil || v.Key != sl.key && sl.key != "" || calm && w.calm && len(v.Owners) != min(len(w.procs), w.env.PI("rf")) {
			env.Fail("owners", "owners of %q at %s: %v", sl.key, at.id, r)
		}
	case "me":
		for cap, want := range map[string]bool{"cache.read": true, "cache.write": true, "cache.admin": true} {
			ok, err := c.Can(ctx, cap)
			if !failed("Can", err) && ok != want && w.tok != "" {
				env.Fail("me", "Can(%s) at %s: %v", cap, at.id, ok)
			}
		}
	}
}

// lifetime judges how long a key is said to live: an hour or for ever.
func (w *restWorld) lifetime(what string, at *proc, sl *slot, left int64) {
	if !w.calm || sl.loose || !sl.held {
		return
	}
	if sl.ttl != (left > 0) || left > time.Hour.Milliseconds() {
		w.env.Fail("remaining", "%s of %q at %s: %d ms left, stored with a lifetime %v", what, sl.key, at.id, left, sl.ttl)
	}
}

// rawPut stores a batch of the shapes that other clients than the library send:
// text beside base64, lifetimes beside none, items that cannot be stored in between.
func (w *restWorld) rawPut(t, i int, op simkit.Op, at *proc) {
	env, own, calm := w.env, w.slots[t], w.calm
	type item map[string]any
	var items []item
	var slots []*slot // nil: to be refused
	var vals [][]byte
	n := op.C
	for j := range 2 + int(op.C%5) {
		n = n*1103515245 + 12345
		bits := n >> 16 & 0xffff
		x := own[(int(op.A)+j*7)%len(own)]
		it := item{"key": x.key}
		switch kind := bits % 6; {
		case kind == 0 && j > 0:
			it = []item{{"key": ""}, {"key": x.key, "value": "a*b", "value_encoding": "base64"}, {"key": x.key, "value": "YQ", "value_encoding": "base64", "ttl_ms": 5}, {"value": "x"}}[bits/6%4]
			items, slots, vals = append(items, it), append(slots, nil), append(vals, nil)

			continue
		case kind < 3:
			v := fmt.Sprintf("raw|%s|%d.%d", x.key, i, j)
			if bits/6%3 == 0 {
				v = base64.StdEncoding.EncodeToString([]byte(v))
			}
			if bits/6%7 == 1 {
				v = ""
			} else {
				it["value"] = v
			}
			if bits/6%4 == 1 {
				it["value_encoding"] = "utf8"
			}
			vals = append(vals, []byte(v))
		default:
			v := valueOf(bits/6, fmt.Sprintf("%s|%d.%d", x.key, i, j))
			it["value"], it["value_encoding"] = base64.StdEncoding.EncodeToString(v), "base64"
			vals = append(vals, v)
		}
		if bits/64%3 == 0 {
			it["ttl_ms"] = time.Hour.Milliseconds()
		}
		items, slots = append(items, it), append(slots, x)
		x.add(vals[j])
	}
	r := w.call("POST", at.api(), "/v1/cache/batch/put", w.tok, toJSON(map[string]any{"items": items}))
	var v struct {
		Results []struct {
			Key    string
			Stored bool
			Bytes  int
			Owners []string
			Error  string
			Code   string
		}
	}
	err := r.err
	if err == nil && r.status != 200 {
		err = fmt.Errorf("%v", r)
	}
	if err == nil {
		err = r.json(&v)
	}
	if err != nil && calm && w.calm {
		env.Fail("refused", "batch put of %v at %s: %v", items, at.id, err)
	}
	if err == nil && len(v.Results) != len(items) {
		env.Fail("batch", "batch put of %v at %s: %v", items, at.id, r)
	}
	for j, x := range slots {
		if x == nil {
			if err == nil && (v.Results[j].Stored || v.Results[j].Code != "BAD_REQUEST" || v.Results[j].Error == "") {
				env.Fail("batch", "batch put of %v at %s answered %+v", items[j], at.id, v.Results[j])
			}

			continue
		}
		_, ttl := items[j]["ttl_ms"]
		x.cur, x.held, x.ttl, x.loose = vals[j], true, ttl, err != nil
		if err == nil {
			got := v.Results[j]
			if !got.Stored || got.Key != x.key || got.Bytes != len(vals[j]) {
				x.loose = true
				if calm && w.calm {
					env.Fail("batch", "batch put of %v at %s answered %+v", items[j], at.id, got)
				}
			}
		}
	}
	env.Probe("rawput")
}

// meta compares what every route of every server tells about one key.
func (w *restWorld) meta(sl *slot, at int) {
	env := w.env
	type told struct {
		Key     string
		Found   bool
		Value   string
		TTLMs   int64 `json:"ttl_ms"`
		Version uint64
		Origin  string
		Updated string `json:"last_updated"`
		Owners  []string
		Node    string
	}
	var first told
	for i := range w.procs {
		p := w.procs[(i+at)%len(w.procs)]
		var one told
		r := w.call("GET", p.api(), "/v1/cache/"+esc(sl.key), w.tok, nil, "Accept", "application/json")
		if !w.calm {
			return
		}
		if r.err != nil || (r.status == 200) != sl.held || r.status == 200 && r.json(&one) != nil {
			env.Fail("meta", "GET of %q at %s: %v, held %v", sl.key, p.id, r, sl.held)
		}
		one.Found = r.status == 200
		var many struct {
			Results []told
			Node    string
		}
		b := w.call("POST", p.api(), "/v1/cache/batch/get", w.tok, toJSON(map[string]any{"keys": []string{"", sl.key, "t-nobody"}}))
		h := w.call("HEAD", p.api(), "/v1/cache/"+esc(sl.key), w.tok, nil)
		if !w.calm {
			return
		}
		if b.status != 200 || b.json(&many) != nil || len(many.Results) != 3 || many.Results[0].Found || many.Results[2].Found || h.err != nil {
			env.Fail("meta", "batch get of %q at %s: %v, HEAD %v", sl.key, p.id, b, h)
		}
		two := many.Results[1]
		if one.Found {
			if one.Node != p.id || many.Node != p.id || h.head.Get("X-Cache-Node") != p.id {
				env.Fail("meta", "%q at %s: GET says it is %s, batch get %s, HEAD %s", sl.key, p.id, one.Node, many.Node, h.head.Get("X-Cache-Node"))
			}
			three := told{Key: sl.key, Found: h.status == 200, Value: one.Value, Origin: h.head.Get("X-Cache-Origin"), Updated: h.head.Get("X-Cache-Last-Updated"), Owners: strings.Split(h.head.Get("X-Cache-Owners"), ",")}
			_, _ = fmt.Sscan(h.head.Get("X-Cache-Version"), &three.Version)
			_, _ = fmt.Sscan(h.head.Get("X-Cache-TTL-Ms"), &three.TTLMs)
			for _, x := range []told{one, two, three} {
				w.lifetime("one route's get", p, sl, x.TTLMs)
			}
			one.Node, one.TTLMs, two.TTLMs, three.TTLMs = "", 0, 0, 0
			if fmt.Sprint(one) != fmt.Sprint(two) || fmt.Sprint(one) != fmt.Sprint(three) {
				env.Fail("meta", "%q at %s: GET %+v, batch get %+v, HEAD %+v", sl.key, p.id, one, two, three)
			}
			v, err := base64.StdEncoding.DecodeString(one.Value)
			if err != nil {
				env.Fail("meta", "%q at %s: %v", sl.key, p.id, err)
			}
			w.check("meta", p, sl, v, true)
		} else if two.Found || h.status != 404 {
			env.Fail("meta", "%q at %s: not there, batch get %+v, HEAD %v", sl.key, p.id, two, h)
		}
		if i == 0 {
			first = one
		} else if fmt.Sprint(one) != fmt.Sprint(first) {
			env.Fail("meta", "%q: one server says %+v, %s says %+v", sl.key, first, p.id, one)
		}
	}
	env.Probe("meta")
}

// check judges one answer about a key of the asking thread.
func (w *restWorld) check(what string, at *proc, sl *slot, v []byte, found bool) {
	if found && !sl.sent(v) {
		w.env.Fail("value", "%s of %q at %s: %.200q, which nobody stored there", what, sl.key, at.id, v)
	}
	if !w.calm || sl.loose {
		return
	}
	if found != sl.held || !bytes.Equal(v, sl.cur) {
		w.env.Fail("value", "%s of %q at %s: %.200q %v, stored %.200q %v", what, sl.key, at.id, v, found, sl.cur, sl.held)
	}
	w.env.Nontrivial()
}

// settled judges every key at every server while nothing else goes on; at last
// when the short lives are over and every server has looked for expired keys.
func (w *restWorld) settled(last bool) {
	env := w.env
	if last {
		time.Sleep(8*time.Second + ttlSlack)
		for _, q := range w.procs {
			if r := w.call("POST", q.mgmt(), "/trigger-expiration", w.tok, nil); r.err != nil || r.status >= 300 {
				env.Fail("refused", "POST /trigger-expiration at %s: %v", q.id, r)
			}
		}
		time.Sleep(4 * time.Second)
	}
	for _, p := range w.procs {
		want := map[string]bool{}
		for _, ks := range w.slots {
			for _, sl := range ks {
				if sl.ever == nil {
					continue
				}
				r := w.call("GET", p.api(), "/v1/cache/"+esc(sl.key), w.tok, nil)
				if r.err != nil || r.status != 200 && r.status != 404 {
					env.Fail("refused", "GET of %q at %s: %v", sl.key, p.id, r)
				}
				w.check("GET", p, sl, r.body[:len(r.body)*b2i(r.status == 200)], r.status == 200)
				if sl.loose {
					want[sl.key] = r.status == 200 // as it turned out
				} else {
					want[sl.key] = sl.held
				}
			}
		}
		for _, bs := range w.briefs {
			for _, b := range bs {
				asked := time.Now()
				r := w.call("GET", p.api(), "/v1/cache/"+esc(b.key), w.tok, nil)
				if r.err != nil || r.status != 200 && r.status != 404 {
					env.Fail("refused", "GET of %q at %s: %v", b.key, p.id, r)
				}
				w.judge("GET", p, b, asked, r.body, r.status == 200)
				want[b.key] = r.status == 200
			}
		}
		if last || !w.expiring() {
			w.list(p, want)
		}
	}
}

// expiring reports whether keys may be listed that have expired already.
func (w *restWorld) expiring() bool {
	for _, bs := range w.briefs {
		for _, b := range bs {
			if b.ttl > 0 || b.loose {
				return true
			}
		}
	}

	return false
}

func b2i(b bool) int {
	if b {
		return 1
	}

	return 0
}

type keysPage struct {
	Keys         []string
	Next         string   `json:"next_cursor"`
	Total        int      `json:"total_matched"`
	Truncated    bool     `json:"truncated"`
	Node         string   `json:"node"`
	PartialNodes []string `json:"partial_nodes"`
}

func (w *restWorld) page(p *proc, query string) keysPage {
	var v keysPage
	r := w.call("GET", p.api(), "/v1/cache/keys?"+query, w.tok, nil)
	if err := r.json(&v); err != nil || r.status != 200 || len(v.PartialNodes) > 0 || v.Node != p.id || v.Keys == nil {
		w.env.Fail("list", "keys?%s at %s: %v", query, p.id, r)
	}

	return v
}

// list pages through the keys a server lists: exactly those stored, as many to a
// page as asked for; fewer, and marked so, where the caller wants fewer; those
// matching, where it names a pattern.
func (w *restWorld) list(p *proc, want map[string]bool) {
	exp := []string{}
	for k, ok := range want {
		if ok {
			exp = append(exp, k)
		}
	}
	sort.Strings(exp)
	odd := w.env.P("spread") + int64(len(exp))
	limit := []int{7, 1, 3, 500, 7000, 0}[odd%6]
	ask, size := fmt.Sprintf("limit=%d&", limit), min(limit, 500)
	if limit == 0 {
		ask, size = "", 100
	}
	var got []string
	cursor := ""
	for range 200 {
		v := w.page(p, ask+"cursor="+cursor)
		if v.Truncated || v.Total != len(exp) || len(v.Keys) != min(size, len(exp)-len(got)) {
			w.env.Fail("list", "keys?%scursor=%s at %s: %d keys of %d, truncated %v; %d are stored, %d were listed before", ask, cursor, p.id, len(v.Keys), v.Total, v.Truncated, len(exp), len(got))
		}
		got = append(got, v.Keys...)
		if cursor = v.Next; cursor == "" {
			break
		}
	}
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", exp) {
		w.env.Fail("list", "%s lists %q, stored are %q", p.id, got, exp)
	}
	if v := w.page(p, fmt.Sprintf("cursor=%d", int64(len(exp))+odd%3)); len(v.Keys) != 0 || v.Next != "" || v.Total != len(exp) {
		w.env.Fail("list", "past the end %s lists %q of %d, next %q", p.id, v.Keys, v.Total, v.Next)
	}
	for _, bad := range []string{"limit=0", "limit=x", "cursor=-1", "cursor=%20", "max=0", "max=-5", "q=%5B"} {
		if r := w.call("GET", p.api(), "/v1/cache/keys?"+bad, w.tok, nil); r.status != 400 {
			w.env.Fail("list", "keys?%s at %s: %v", bad, p.id, r)
		}
	}
	if len(exp) == 0 {
		return
	}
	most := 1 + int(odd%int64(len(exp)+1)) // one more than there are, at most
	for _, size := range []int{500, max(1, most-1)} {
		v := w.page(p, fmt.Sprintf("max=%d&limit=%d", most, size))
		n := min(most, len(exp))
		bad := len(v.Keys) != min(size, n) || v.Total != n || (v.Next == "") != (n <= size) || v.Truncated != (n < len(exp))
		for i, k := range v.Keys {
			bad = bad || !want[k] || i > 0 && v.Keys[i-1] >= k
		}
		if bad {
			w.env.Fail("list", "at most %d keys, %d to a page: %s lists %q of %d, next %q, truncated %v; stored are %q", most, size, p.id, v.Keys, v.Total, v.Next, v.Truncated, exp)
		}
	}
	prefix := exp[int(odd)%len(exp)]
	prefix = prefix[:min(len(prefix), 1+int(odd%5))]
	if strings.ContainsAny(prefix, `*?[\`) {
		return
	}
	var match []string
	for _, k := range exp {
		if strings.HasPrefix(k, prefix) {
			match = append(match, k)
		}
	}
	if v := w.page(p, "limit=500&q="+url.QueryEscape(prefix)); fmt.Sprintf("%q", v.Keys) != fmt.Sprintf("%q", match) || v.Total != len(match) {
		w.env.Fail("list", "%s lists %q of %d for the prefix %q, stored are %q", p.id, v.Keys, v.Total, prefix, exp)
	}
}

func toJSON(v any) []byte {
	b, _ := json.Marshal(v)

	return b
}
