package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
	"github.com/hyp3rd/hypercache/zzsim/simnet"
)

var (
	errLost = errors.New("simnet: i/o timeout")
	errDown = errors.New("simnet: connection refused")
)

// world is a cluster of real nodes over a simulated network.
type world struct {
	env     *simkit.Env
	wire    *backend.InProcessTransport // delivers to the node now running under an id
	net     *simnet.Net                 // with "http": every message is an HTTP request over it
	mu      sync.Mutex
	nodes   map[string]*node
	cut     map[string]bool // "a>b": a's messages do not reach b
	stall   map[string]time.Duration
	wg      sync.WaitGroup
	closers []func()
	shipped bool // nodes use the transport they come with
	// onSet, if set, sees every write a node accepted from the network.
	onSet func(to string, gen int, it *cache.Item)
	// afterSet, if set, sees the outcome of every write message.
	afterSet func(id sendID, replicate bool, began time.Time, err error)
	// onRemove, if set, sees every removal message that arrives.
	onRemove func(key string)
	// onCall, if set, sees every message a node tries to send.
	onCall func(from, method, to string)
	// afterList, if set, sees the outcome of every request for a node's keys.
	afterList func(from, to string, err error)
	opts      func(id string) []backend.DistMemoryOption
}

type node struct {
	id  string
	dm  *backend.DistMemory
	gen int
	up  bool
}

func newWorld(env *simkit.Env) *world {
	w := &world{
		env: env, wire: backend.NewInProcessTransport(), nodes: map[string]*node{},
		cut: map[string]bool{}, stall: map[string]time.Duration{},
	}
	if env.P("http") == 1 {
		w.useHTTP()
	}

	return w
}

func nodeID(i int) string { return "n" + strconv.Itoa(i) }

func addrOf(id string) string { return id + ".sim:7000" }

// start boots a fresh node: nothing survives from an earlier one of that id.
func (w *world) start(id string, seeds []string) *node {
	w.mu.Lock()
	gen := 1
	if old := w.nodes[id]; old != nil {
		gen = old.gen + 1
	}
	n := &node{id: id, gen: gen, up: true}
	w.nodes[id] = n
	w.mu.Unlock()
	var peers []string
	for _, s := range seeds {
		if s != id {
			peers = append(peers, s+"@"+addrOf(s))
		}
	}
	lk := &link{w: w, id: id, gen: gen, hop: w.wire}
	opts := []backend.DistMemoryOption{backend.WithDistNode(id, addrOf(id)), backend.WithDistSeeds(peers)}
	if w.net != nil {
		lk.hop = w.httpHop()
		opts = append(opts, backend.WithDistHTTPLimits(w.httpLimits()))
		w.net.SetState(addrOf(id), simnet.Up)
	} else {
		opts = append(opts, backend.WithDistTransport(lk))
	}
	opts = append(opts, w.opts(id)...)
	b, err := backend.NewDistMemory(context.Background(), opts...)
	if err != nil {
		w.env.Fail("setup", "NewDistMemory(%s): %v", id, err)
	}
	dm, ok := b.(*backend.DistMemory)
	if !ok {
		w.env.Fail("setup", "NewDistMemory(%s) is a %T", id, b)
	}
	if w.net != nil && !w.shipped {
		dm.SetTransport(lk)
	}
	w.mu.Lock()
	n.dm = dm
	w.mu.Unlock()
	w.wire.Register(dm)

	return n
}

func (w *world) get(id string) *node {
	w.mu.Lock()
	defer w.mu.Unlock()

	return w.nodes[id]
}

func (w *world) alive(id string, gen int) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	n := w.nodes[id]

	return n != nil && n.up && (gen == 0 || n.gen == gen)
}

func (w *world) genOf(id string) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if n := w.nodes[id]; n != nil {
		return n.gen
	}

	return 0
}

// crash cuts a node off for good: no message of this incarnation is sent or
// delivered any more, and its goroutines end.
func (w *world) crash(id string) {
	w.mu.Lock()
	n := w.nodes[id]
	if n == nil || !n.up {
		w.mu.Unlock()

		return
	}
	n.up = false
	w.mu.Unlock()
	w.wire.Unregister(id)
	if w.net != nil {
		w.net.SetState(addrOf(id), simnet.Down)
	}
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		_ = n.dm.Stop(context.Background())
	}()
}

func (w *world) up() []*node {
	w.mu.Lock()
	defer w.mu.Unlock()
	var out []*node
	for _, id := range simkit.SortedKeys(w.nodes) {
		if n := w.nodes[id]; n.up && n.dm != nil {
			out = append(out, n)
		}
	}

	return out
}

// stopAll ends every node and every message still on its way.
func (w *world) stopAll() {
	for _, n := range w.up() {
		if err := n.dm.Stop(context.Background()); err != nil {
			w.env.Fail("stop-error", "Stop(%s): %v", n.id, err)
		}
	}
	// repairs under way when Stop was called end by themselves
	time.Sleep(w.rpcTimeout() + time.Second)
	w.wg.Wait()
	w.closeHTTP()
}

func (w *world) setCut(a, b string, cut bool) {
	w.mu.Lock()
	if cut {
		w.cut[a+">"+b] = true
	} else {
		delete(w.cut, a+">"+b)
	}
	w.mu.Unlock()
}

func (w *world) healAll() {
	w.mu.Lock()
	w.cut = map[string]bool{}
	w.stall = map[string]time.Duration{}
	w.mu.Unlock()
}

func (w *world) isCut(a, b string) bool {
	w.mu.Lock()
	defer w.mu.Unlock()

	return w.cut[a+">"+b]
}

func (w *world) stallOf(id string) time.Duration {
	w.mu.Lock()
	defer w.mu.Unlock()

	return w.stall[id]
}

// local reads what a node itself holds for a key.
func (w *world) local(id, key string) (*cache.Item, bool) {
	it, ok, err := w.wire.ForwardGet(context.Background(), id, key)

	return it, ok && err == nil
}

// keysOf lists what a node itself holds.
func keysOf(dm *backend.DistMemory) map[string]*cache.Item {
	out := map[string]*cache.Item{}
	its, _ := dm.List(context.Background())
	for _, it := range its {
		out[it.Key] = it
	}

	return out
}

// link is one incarnation's way onto the network.
type link struct {
	w   *world
	id  string
	gen int
	hop backend.DistTransport // carries what the simulated network lets through
}

// rpcTimeout is how long a caller waits for an answer.
func (w *world) rpcTimeout() time.Duration {
	if ms := w.env.P("rpc_ms"); ms > 0 {
		return time.Duration(ms) * time.Millisecond
	}

	return 300 * time.Millisecond
}

// call sends one request and waits for its answer. exec runs at the receiver
// and must be safe to run twice.
func (l *link) call(ctx context.Context, method, to string, exec func(ctx context.Context) error) error {
	w, env := l.w, l.w.env
	if w.onCall != nil {
		w.onCall(l.id, method, to)
	}
	if !w.alive(l.id, l.gen) {
		return errDown
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	point := l.id + ">" + to + "|" + method
	down := func() error {
		if env.P("down_sentinel") == 1 {
			return sentinel.ErrBackendNotFound
		}

		return errDown
	}
	toGen := w.genOf(to)
	if w.alive(to, 0) && !w.isCut(l.id, to) && env.P("inline") == 1 {
		// a perfect, immediate network
		return exec(ctx)
	}
	res := make(chan error, 1)
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		// a stalled sender or receiver
		if d := w.stallOf(l.id) + w.stallOf(to); d > 0 {
			time.Sleep(d)
		}
		if lat := env.P("lat_us"); lat > 0 {
			time.Sleep(time.Duration(lat) * time.Microsecond)
		}
		if ok, v := env.Fault("delay", point); ok {
			time.Sleep(time.Duration(v%400)*time.Millisecond/4 + time.Microsecond)
		}
		switch {
		case !w.alive(l.id, l.gen):
			return
		case !w.alive(to, 0):
			if env.P("down_blackhole") == 1 {
				return
			}
			res <- down()

			return
		case w.isCut(l.id, to):
			return // lost: the caller times out
		}
		if ok, _ := env.Fault("drop-request", point); ok {
			return
		}
		if ok, v := env.Fault("duplicate", point); ok {
			w.wg.Add(1)
			go func() {
				defer w.wg.Done()
				time.Sleep(time.Duration(v%600) * time.Millisecond / 4)
				if w.alive(to, toGen) {
					_ = exec(context.WithoutCancel(ctx))
				}
			}()
		}
		err := exec(context.WithoutCancel(ctx))
		if !w.alive(to, toGen) || w.isCut(to, l.id) {
			return // the answer never left
		}
		if ok, _ := env.Fault("drop-response", point); ok {
			return
		}
		if ok, v := env.Fault("delay", point+"|r"); ok {
			time.Sleep(time.Duration(v%400)*time.Millisecond/4 + time.Microsecond)
		}
		res <- err
	}()
	timer := time.NewTimer(w.rpcTimeout())
	defer timer.Stop()
	select {
	case err := <-res:
		return err
	case <-ctx.Done():
		return ctx.Err()
	case <-timer.C:
		env.Probe("rpc-timeout")

		return errLost
	}
}

// isRefusal reports whether err is a node's answer, not the network's.
func isRefusal(err error) bool {
	for _, e := range []error{nil, errLost, errDown, sentinel.ErrBackendNotFound, context.Canceled, context.DeadlineExceeded} {
		if errors.Is(err, e) {
			return false
		}
	}

	return true
}

func wireItem(it *cache.Item) *cache.Item {
	c := *it
	c.Key = strings.Clone(it.Key) // a request carries its bytes

	return &c
}

func (l *link) ForwardSet(ctx context.Context, to string, it *cache.Item, replicate bool) error {
	sent := wireItem(it)
	gen := l.w.genOf(to)
	began := time.Now()

	err := l.call(ctx, "set", to, func(ctx context.Context) error {
		err := l.hop.ForwardSet(ctx, to, wireItem(sent), replicate)
		simkit.Debug("%4d   arrives %s>%s %s=%v v%d/%s repl=%v: %v", simkit.Seq(), l.id, to, sent.Key, sent.Value, sent.Version, sent.Origin, replicate, err)
		if err != nil {
			return err
		}
		if l.w.onSet != nil {
			l.w.onSet(to, gen, sent)
		}

		return nil
	})
	simkit.Debug("%4d set %s>%s %s v%d: %v", simkit.Seq(), l.id, to, sent.Key, sent.Version, err)
	if l.w.afterSet != nil {
		l.w.afterSet(sendID{l.id, to, sent.Key, sent.Origin, sent.Version}, replicate, began, err)
	}

	return err
}

func (l *link) ForwardGet(ctx context.Context, to, key string) (*cache.Item, bool, error) {
	key = strings.Clone(key)
	type ans struct {
		it *cache.Item
		ok bool
	}
	ch := make(chan ans, 2)
	err := l.call(ctx, "get", to, func(ctx context.Context) error {
		it, ok, err := l.hop.ForwardGet(ctx, to, key)
		if err != nil {
			return err
		}
		if it != nil {
			it = wireItem(it)
		}
		select {
		case ch <- ans{it, ok}:
		default:
		}

		return nil
	})
	if err != nil {
		simkit.Debug("%4d get %s>%s %s: %v", simkit.Seq(), l.id, to, key, err)

		return nil, false, err
	}
	a := <-ch
	simkit.Debug("%4d get %s>%s %s: %v %v", simkit.Seq(), l.id, to, key, a.it, a.ok)

	return a.it, a.ok, nil
}

func (l *link) ForwardRemove(ctx context.Context, to, key string, replicate bool) error {
	key = strings.Clone(key)

	return l.call(ctx, "remove", to, func(ctx context.Context) error {
		if l.w.onRemove != nil {
			defer l.w.onRemove(key)
		}
		return l.hop.ForwardRemove(ctx, to, key, replicate)
	})
}

func (l *link) Health(ctx context.Context, to string) error {
	return l.call(ctx, "health", to, func(ctx context.Context) error {
		return l.hop.Health(ctx, to)
	})
}

func (l *link) IndirectHealth(ctx context.Context, relay, target string) error {
	return l.call(ctx, "indirect", relay, func(ctx context.Context) error {
		return (&link{l.w, relay, l.w.genOf(relay), l.hop}).Health(ctx, target)
	})
}

func (l *link) Gossip(ctx context.Context, to string, ms []backend.GossipMember) error {
	ms = append([]backend.GossipMember(nil), ms...)

	return l.call(ctx, "gossip", to, func(ctx context.Context) error {
		return l.hop.Gossip(ctx, to, ms)
	})
}

func (l *link) FetchMerkle(ctx context.Context, to string) (*backend.MerkleTree, error) {
	ch := make(chan *backend.MerkleTree, 2)
	err := l.call(ctx, "merkle", to, func(ctx context.Context) error {
		t, err := l.hop.FetchMerkle(ctx, to)
		if err != nil {
			return err
		}
		select {
		case ch <- t:
		default:
		}

		return nil
	})
	if err != nil {
		return nil, err
	}

	return <-ch, nil
}

func (l *link) ListKeys(ctx context.Context, to, pattern string) ([]string, error) {
	ch := make(chan []string, 2)
	err := l.call(ctx, "keys", to, func(ctx context.Context) error {
		ks, err := l.hop.ListKeys(ctx, to, pattern)
		if err != nil {
			return err
		}
		select {
		case ch <- append([]string(nil), ks...):
		default:
		}

		return nil
	})
	if l.w.afterList != nil {
		l.w.afterList(l.id, to, err)
	}
	if err != nil {
		return nil, err
	}

	return <-ch, nil
}

var levels = []backend.ConsistencyLevel{backend.ConsistencyOne, backend.ConsistencyQuorum, backend.ConsistencyAll}

func needed(n int, level int64) int {
	switch level % 3 {
	case 1:
		return n/2 + 1
	case 2:
		return n
	}

	return 1
}

// baseOpts reads the node configuration of the plan.
func baseOpts(env *simkit.Env) []backend.DistMemoryOption {
	ms := func(n string) time.Duration { return time.Duration(env.P(n)) * time.Millisecond }
	o := []backend.DistMemoryOption{
		backend.WithDistReplication(max(1, env.PI("rf"))),
		backend.WithDistWriteConsistency(levels[env.P("wc")%3]),
		backend.WithDistReadConsistency(levels[env.P("rc")%3]),
		backend.WithDistShardCount(max(1, env.PI("shards"))),
		backend.WithDistParallelReads(env.P("parallel") == 1),
	}
	if v := env.PI("vnodes"); v > 0 {
		o = append(o, backend.WithDistVirtualNodes(v))
	}
	if v := env.P("hint_ttl_ms"); v > 0 {
		o = append(o, backend.WithDistHintTTL(ms("hint_ttl_ms")), backend.WithDistHintReplayInterval(ms("hint_ms")))
	}
	if v := env.P("sync_ms"); v > 0 {
		o = append(o, backend.WithDistMerkleAutoSync(ms("sync_ms")), backend.WithDistMerkleChunkSize(max(1, env.PI("chunk"))))
		if p := env.PI("sync_peers"); p > 0 {
			o = append(o, backend.WithDistMerkleAutoSyncPeers(p))
		}
		if p := env.PI("sync_backoff"); p > 1 {
			o = append(o, backend.WithDistMerkleAdaptiveBackoff(p))
		}
	}
	if v := env.P("repair_ms"); v > 0 {
		o = append(o, backend.WithDistReadRepairBatch(ms("repair_ms"), max(1, env.PI("repair_max"))))
	}
	if v := env.P("tomb_ms"); v > 0 {
		o = append(o, backend.WithDistTombstoneTTL(ms("tomb_ms")), backend.WithDistTombstoneSweep(ms("tomb_sweep_ms")))
	}
	if v := env.P("rebalance_ms"); v > 0 {
		o = append(o, backend.WithDistRebalanceInterval(ms("rebalance_ms")))
		if b := env.PI("rebalance_batch"); b > 0 {
			o = append(o, backend.WithDistRebalanceBatchSize(b), backend.WithDistRebalanceMaxConcurrent(max(1, env.PI("rebalance_conc"))))
		}
		if g := env.P("grace_ms"); g > 0 {
			o = append(o, backend.WithDistRemovalGrace(ms("grace_ms")))
		}
		if g := env.PI("diff_max"); g > 0 {
			o = append(o, backend.WithDistReplicaDiffMaxPerTick(g))
		}
	}
	if v := env.P("hb_ms"); v > 0 {
		o = append(o, backend.WithDistHeartbeat(ms("hb_ms"), ms("suspect_ms"), ms("dead_ms")))
		if k := env.PI("hb_sample"); k > 0 {
			o = append(o, backend.WithDistHeartbeatSample(k))
		}
		if k := env.PI("indirect"); k > 0 {
			o = append(o, backend.WithDistIndirectProbes(k, ms("indirect_ms")))
		}
	}
	if v := env.P("gossip_ms"); v > 0 {
		o = append(o, backend.WithDistGossipInterval(ms("gossip_ms")))
	}

	return o
}

// boot starts nodes 0..n-1, each knowing all of them.
func (w *world) boot(n int) []string {
	var ids []string
	for i := range n {
		ids = append(ids, nodeID(i))
	}
	for _, id := range ids {
		w.start(id, ids)
	}

	return ids
}

func ids(ns []cluster.NodeID) []string {
	var out []string
	for _, n := range ns {
		out = append(out, string(n))
	}

	return out
}

func keyName(n int64) string {
	return []string{"key-", "a/b-", "é ü-", "%41+&=?#-", "\x00\n\"-", "../-", "\xff\xfe-"}[n%7] + strconv.FormatInt(n, 10)
}

// put stores a value; what the caller does with its item afterwards is its own
// business.
func put(ctx context.Context, n *node, k, val string) error {
	it := &cache.Item{Key: k, Value: val}
	err := n.dm.Set(ctx, it)
	scribble(it)

	return err
}

func scribble(it *cache.Item) {
	it.Key, it.Value, it.Version, it.Origin, it.Expiration = "scribbled", "scribbled", 1<<40, "", time.Nanosecond
}

func makeVal(k string, n int64) string {
	return strconv.QuoteToASCII(k) + "|" + strconv.FormatInt(n, 10)
}

// readVal returns the number a value was made with; it fails the run if the
// value was written under another key.
func (w *world) readVal(key string, it *cache.Item) int64 {
	defer scribble(it)
	if raw, ok := it.Value.(json.RawMessage); ok && w.net != nil {
		// a value read over HTTP comes as the JSON it travelled as
		var v any
		if err := json.Unmarshal(raw, &v); err != nil {
			w.env.Fail("wrong-value", "key %s holds %q: %v", key, raw, err)
		}
		it = &cache.Item{Key: it.Key, Value: v}
	}
	s, ok := it.Value.(string)
	if !ok {
		w.env.Fail("wrong-value", "key %s holds a %T", key, it.Value)
	}
	k, num, _ := strings.Cut(s, "|")
	n, err := strconv.ParseInt(num, 10, 64)
	if err != nil || k != strconv.QuoteToASCII(key) || it.Key != key {
		w.env.Fail("wrong-value", "asked for %s, got an item of key %q with value %q", key, it.Key, s)
	}

	return n
}

// write is one attempted write (val) or removal (val 0) of a key.
type write struct {
	val       int64
	call, ret int64
	ok        bool // acknowledged
}

type read struct {
	val       int64
	call, ret int64
	who       string
}

// hist is the history of one key, kept per thread until the run ends.
type hist struct {
	mu     sync.Mutex
	writes map[string][]write
	reads  map[string][]read
}

func newHist() *hist { return &hist{writes: map[string][]write{}, reads: map[string][]read{}} }

func (h *hist) w(k string, x write) {
	h.mu.Lock()
	h.writes[k] = append(h.writes[k], x)
	h.mu.Unlock()
}

func (h *hist) r(k string, x read) {
	h.mu.Lock()
	h.reads[k] = append(h.reads[k], x)
	h.mu.Unlock()
}

// ack marks an announced write acknowledged.
func (h *hist) ack(k string, val, ret int64) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for i := range h.writes[k] {
		if x := &h.writes[k][i]; x.val == val {
			x.ok, x.ret = true, ret
		}
	}
}

// mayReplace reports whether an attempt at val may have come after write x.
func (h *hist) mayReplace(k string, val int64, x write) bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	for _, y := range h.writes[k] {
		if y.val == val && y.end() > x.call {
			return true
		}
	}

	return false
}

const inf = int64(1) << 62

// candidates are the writes a read over [call,ret] may return: those begun
// before it ended and not completely superseded before it began.
func (h *hist) allowed(k string, val, call, ret int64) bool {
	ws := h.writes[k]
	ok := func(x write) bool {
		if x.call > ret {
			return false
		}
		xr := x.ret
		if !x.ok {
			xr = inf
		}
		for _, y := range ws {
			if y.ok && y.call > xr && y.ret < call {
				return false
			}
		}

		return true
	}
	if val == 0 && ok(write{val: 0, call: -2, ret: -1, ok: true}) {
		return true
	}
	for _, x := range ws {
		if x.val == val && ok(x) {
			return true
		}
	}

	return false
}

// checkRegular judges every read. With unremoved, only those over before the first
// removal of their key began are judged.
func (h *hist) checkRegular(env *simkit.Env, class string, unremoved bool) {
	for _, k := range simkit.SortedKeys(h.reads) {
		until := inf
		for _, x := range h.writes[k] {
			if x.val == 0 && unremoved {
				until = min(until, x.call)
			}
		}
		for _, r := range h.reads[k] {
			if r.ret < until && !h.allowed(k, r.val, r.call, r.ret) {
				env.Fail(class, "read of %s at %s [%d,%d] returned %s\n%s", k, r.who, r.call, r.ret, show(r.val), h.dump(k))
			}
		}
	}
}

// contested reports whether a removal of k overlapped a write of it. A removal
// travels without a version, so replicas may see the two in different orders
// until anti-entropy has compared them.
func (h *hist) contested(k string) bool {
	for _, x := range h.writes[k] {
		for _, y := range h.writes[k] {
			if x.val == 0 && y.val != 0 && x.call < y.end() && y.call < x.end() {
				return true
			}
		}
	}

	return false
}

// end is when the write has certainly taken effect.
func (x write) end() int64 {
	if !x.ok {
		return inf
	}

	return x.ret
}

func show(v int64) string {
	if v == 0 {
		return "nothing"
	}

	return "write " + strconv.FormatInt(v, 10)
}

func (h *hist) dump(k string) string {
	ws := append([]write(nil), h.writes[k]...)
	sort.Slice(ws, func(i, j int) bool { return ws[i].call < ws[j].call })
	var b strings.Builder
	for _, x := range ws {
		what := "write " + strconv.FormatInt(x.val, 10)
		if x.val == 0 {
			what = "remove"
		}
		res := "acknowledged"
		if !x.ok {
			res = "failed"
		}
		fmt.Fprintf(&b, "  [%d,%d] %s %s\n", x.call, x.ret, what, res)
	}

	return b.String()
}
