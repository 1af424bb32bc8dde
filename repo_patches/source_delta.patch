From 4a255badf357d270daf4eee55368e45b0cb07251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:22 +0000
Subject: [PATCH 01/67] fix: build the hash ring under the membership lock

Upsert and Remove committed the member set under the lock but built the
ring after releasing it, so two concurrent mutations could install their
rings in the opposite order and leave a removed node owning keys (or a
new one owning none) until the next membership change.
---
 internal/cluster/membership.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 65fcc1f..328819a 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -62,12 +62,7 @@ func (m *Membership) Upsert(n *Node) {
 	n.LastSeen = time.Now()
 	m.nodes[n.ID] = n
 
-	nodes := make([]*Node, 0, len(m.nodes))
-	for _, v := range m.nodes { // exclude dead nodes from ring ownership
-		if v.State != NodeDead {
-			nodes = append(nodes, v)
-		}
-	}
+	m.rebuildRingLocked()
 
 	version := m.ver.Next()
 	observers := m.observers
@@ -75,10 +70,24 @@ func (m *Membership) Upsert(n *Node) {
 	state := n.State
 	m.mu.Unlock()
 
-	m.ring.Build(nodes)
 	notify(observers, id, state, version)
 }
 
+// rebuildRingLocked recomputes ring ownership from the current non-dead
+// members. The caller must hold m.mu: building outside the lock would let
+// two concurrent mutations install their rings in the opposite order of
+// their commits and leave the ring describing a superseded member set.
+func (m *Membership) rebuildRingLocked() {
+	nodes := make([]*Node, 0, len(m.nodes))
+	for _, v := range m.nodes { // exclude dead nodes from ring ownership
+		if v.State != NodeDead {
+			nodes = append(nodes, v)
+		}
+	}
+
+	m.ring.Build(nodes)
+}
+
 // List returns current nodes snapshot.
 func (m *Membership) List() []*Node {
 	m.mu.RLock()
@@ -114,18 +123,12 @@ func (m *Membership) Remove(id NodeID) bool {
 
 	delete(m.nodes, id)
 
-	nodes := make([]*Node, 0, len(m.nodes))
-	for _, v := range m.nodes { // exclude dead nodes
-		if v.State != NodeDead {
-			nodes = append(nodes, v)
-		}
-	}
+	m.rebuildRingLocked()
 
 	version := m.ver.Next()
 	observers := m.observers
 	m.mu.Unlock()
 
-	m.ring.Build(nodes)
 	// State NodeDead represents "removed from membership" for
 	// observer purposes; the node is gone from the map and will
 	// not appear in any subsequent List() call.
-- 
2.43.0


From f21ef24cc7cd0db450f76c72066bc024790817ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:22 +0000
Subject: [PATCH 02/67] fix: rebuild the hash ring when Mark or Refute crosses
 the dead state

Dead members are excluded from ring ownership, but only Upsert and Remove
rebuilt the ring: a member marked dead kept owning keys, and one that
gossip had recorded as dead stayed out of the ring after a successful
probe marked it alive again.
---
 internal/cluster/membership.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 328819a..63e0d8c 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -188,9 +188,15 @@ func (m *Membership) Mark(id NodeID, state NodeState) bool {
 
 	n.Incarnation++
 
+	ownershipChanged := (n.State == NodeDead) != (state == NodeDead)
+
 	n.State = state
 	n.LastSeen = time.Now()
 
+	if ownershipChanged {
+		m.rebuildRingLocked()
+	}
+
 	version := m.ver.Next()
 	observers := m.observers
 
@@ -230,9 +236,15 @@ func (m *Membership) Refute(id NodeID) bool {
 
 	n.Incarnation++
 
+	ownershipChanged := n.State == NodeDead
+
 	n.State = NodeAlive
 	n.LastSeen = time.Now()
 
+	if ownershipChanged {
+		m.rebuildRingLocked()
+	}
+
 	version := m.ver.Next()
 	observers := m.observers
 
-- 
2.43.0


From c4110f413c4e3244482570eb4a8e635a20d90bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:53 +0000
Subject: [PATCH 03/67] fix: deliver bus events in version order

Publish stamped the version and fanned out under a read lock, so two
concurrent publishers could enqueue their events in the opposite order
of their versions and every subscriber saw the version go backwards.
---
 internal/eventbus/bus.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/eventbus/bus.go b/internal/eventbus/bus.go
index 1f2429b..31f79c4 100644
--- a/internal/eventbus/bus.go
+++ b/internal/eventbus/bus.go
@@ -127,11 +127,14 @@ func (b *Bus) Subscribe(ctx context.Context) (<-chan Event, func()) {
 // SWIM heartbeat goroutine drives publishes and must keep ticking
 // at its configured interval regardless of consumer health.
 func (b *Bus) Publish(evt Event) uint64 {
-	b.mu.RLock()
-	defer b.mu.RUnlock()
+	// The exclusive lock covers both the stamp and the fan-out: with a
+	// read lock two publishers could take versions 1 and 2 and then
+	// enqueue them in the opposite order, so subscribers would see the
+	// version go backwards. Sends are non-blocking, so the lock is
+	// never held across a wait.
+	b.mu.Lock()
+	defer b.mu.Unlock()
 
-	// Stamp the event under the read lock so version is
-	// monotonic across concurrent publishers.
 	version := b.version.Add(1)
 
 	evt.Version = version
-- 
2.43.0


From 77f03c864dba62a0e2d3efaeb14c692318a503a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:27 +0000
Subject: [PATCH 04/67] fix: make Client.Close safe to call concurrently

Two concurrent Close calls could both take the default branch and close
the stop channel twice, which panics.
---
 pkg/client/client.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 0527ef7..42c5add 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -58,6 +58,7 @@ type Client struct {
 	refreshInterval time.Duration
 	refreshStopCh   chan struct{}
 	refreshDoneCh   chan struct{}
+	closeOnce       sync.Once
 
 	logger *slog.Logger
 }
@@ -127,12 +128,7 @@ func (c *Client) Endpoints() []string {
 // should cancel via their request context if needed.
 func (c *Client) Close() error {
 	if c.refreshStopCh != nil {
-		select {
-		case <-c.refreshStopCh:
-			// already closed
-		default:
-			close(c.refreshStopCh)
-		}
+		c.closeOnce.Do(func() { close(c.refreshStopCh) })
 
 		if c.refreshDoneCh != nil {
 			<-c.refreshDoneCh
-- 
2.43.0


From 9c6155ed8eb101f305e6647d5c56ddd3c84dc6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:55 +0000
Subject: [PATCH 05/67] fix: keep the injected transport under the client's
 auth options

WithBearerAuth and WithBasicAuth replaced the transport of a client
supplied with WithHTTPClient by http.DefaultTransport, silently dropping
its mTLS identity, dialer and proxy settings, and WithOIDCClientCredentials
after a static auth option kept sending the static credential (also to the
identity provider) instead of the token.
---
 pkg/client/client.go  | 84 +++++++++++++++++++++++++------------------
 pkg/client/options.go |  9 ++---
 2 files changed, 52 insertions(+), 41 deletions(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 42c5add..077c62b 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -318,41 +318,63 @@ func (c *Client) Can(ctx context.Context, capability string) (bool, error) {
 
 // --- internal helpers used by options.go ---
 
-// bearerAuthTransport returns a RoundTripper that injects the
-// given bearer token on every request.
-func bearerAuthTransport(token string) http.RoundTripper {
-	return bearerLikeAuthTransport("Bearer " + token)
+// headerAuthTransport sets one Authorization header value on every
+// request and hands it to base. Used by both bearer and Basic auth —
+// both share the "set one header on every request" shape.
+type headerAuthTransport struct {
+	headerValue string
+	base        http.RoundTripper // nil means http.DefaultTransport
 }
 
-// bearerLikeAuthTransport returns a RoundTripper that injects the
-// given Authorization header value on every request. Used by both
-// bearer and Basic auth — both share the "set one header on every
-// request" shape.
-func bearerLikeAuthTransport(headerValue string) http.RoundTripper {
-	return roundTripperFunc(func(req *http.Request) (*http.Response, error) {
-		// Clone before mutating so the caller's copy stays clean.
-		cloned := req.Clone(req.Context())
-		cloned.Header.Set("Authorization", headerValue)
+// RoundTrip implements http.RoundTripper.
+func (t *headerAuthTransport) RoundTrip(req *http.Request) (*http.Response, error) {
+	// Clone before mutating so the caller's copy stays clean.
+	cloned := req.Clone(req.Context())
+	cloned.Header.Set("Authorization", t.headerValue)
 
-		base := http.DefaultTransport
+	base := t.base
+	if base == nil {
+		base = http.DefaultTransport
+	}
 
-		resp, err := base.RoundTrip(cloned)
-		if err != nil {
-			return nil, fmt.Errorf("client transport: %w", err)
-		}
+	resp, err := base.RoundTrip(cloned)
+	if err != nil {
+		return nil, fmt.Errorf("client transport: %w", err)
+	}
 
-		return resp, nil
-	})
+	return resp, nil
 }
 
-// httpClientWithAuth wraps the existing http.Client with an
-// authentication transport. The original client's Timeout is
-// preserved.
-func httpClientWithAuth(base *http.Client, authTransport http.RoundTripper) *http.Client {
-	out := &http.Client{Transport: authTransport}
-	if base != nil {
-		out.Timeout = base.Timeout
+// withoutAuth returns a copy of base whose Transport no longer carries
+// the layers earlier auth options added, so that the last auth option
+// applied is the only one in effect while a Transport injected with
+// WithHTTPClient stays underneath it.
+func withoutAuth(base *http.Client) *http.Client {
+	if base == nil {
+		return &http.Client{}
+	}
+
+	out := *base
+
+	for {
+		switch t := out.Transport.(type) {
+		case *headerAuthTransport:
+			out.Transport = t.base
+		case *oauth2.Transport:
+			out.Transport = t.Base
+		default:
+			return &out
+		}
 	}
+}
+
+// httpClientWithAuth layers a static Authorization header over the
+// existing http.Client; its Transport, Timeout and other settings are
+// preserved.
+func httpClientWithAuth(base *http.Client, headerValue string) *http.Client {
+	out := withoutAuth(base)
+
+	out.Transport = &headerAuthTransport{headerValue: headerValue, base: out.Transport}
 
 	return out
 }
@@ -369,14 +391,6 @@ func contextWithBaseHTTP(base *http.Client) context.Context {
 	return context.WithValue(context.Background(), oauth2.HTTPClient, base)
 }
 
-// roundTripperFunc is the function-as-RoundTripper adapter the
-// stdlib should ship but doesn't.
-type roundTripperFunc func(*http.Request) (*http.Response, error)
-
-func (f roundTripperFunc) RoundTrip(req *http.Request) (*http.Response, error) {
-	return f(req)
-}
-
 // decodeEnvelopeValue returns the raw bytes from an itemEnvelope.
 // The server always emits base64 in the envelope, but we tolerate
 // the (currently-unused) raw encoding for forward-compatibility.
diff --git a/pkg/client/options.go b/pkg/client/options.go
index 53a6d4f..72f34b2 100644
--- a/pkg/client/options.go
+++ b/pkg/client/options.go
@@ -48,7 +48,7 @@ func WithBearerAuth(token string) Option {
 			return errBearerEmpty
 		}
 
-		c.http = httpClientWithAuth(c.http, bearerAuthTransport(token))
+		c.http = httpClientWithAuth(c.http, "Bearer "+token)
 
 		return nil
 	}
@@ -72,7 +72,7 @@ func WithBasicAuth(username, password string) Option {
 
 		encoded := base64.StdEncoding.EncodeToString([]byte(username + ":" + password))
 
-		c.http = httpClientWithAuth(c.http, bearerLikeAuthTransport("Basic "+encoded))
+		c.http = httpClientWithAuth(c.http, "Basic "+encoded)
 
 		return nil
 	}
@@ -102,10 +102,7 @@ func WithOIDCClientCredentials(cfg clientcredentials.Config) Option {
 		// refresh transparently. Pass the existing Transport as
 		// the base so any prior WithHTTPClient (e.g. mTLS) is
 		// preserved.
-		base := c.http
-		if base == nil {
-			base = http.DefaultClient
-		}
+		base := withoutAuth(c.http)
 
 		baseCtx := contextWithBaseHTTP(base)
 
-- 
2.43.0


From 0b0c0c6582985d4c96495d2734bb10c150453d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:19 +0000
Subject: [PATCH 06/67] fix: try the seeds once every endpoint in the refreshed
 view failed

The seeds were consulted only when the refreshed view was empty, which a
refresh never produces. A client whose view listed only nodes that have
since been replaced could neither serve a request nor refresh, although
its seed address still led to a live node.
---
 pkg/client/transport.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/pkg/client/transport.go b/pkg/client/transport.go
index b34c7fe..2bd1c75 100644
--- a/pkg/client/transport.go
+++ b/pkg/client/transport.go
@@ -10,6 +10,7 @@ import (
 	"log/slog"
 	mathrand "math/rand/v2"
 	"net/http"
+	"slices"
 	"sync"
 )
 
@@ -120,16 +121,11 @@ func (c *Client) do(
 		bodyBytes = buffered
 	}
 
-	c.failoverRandMu.Lock()
-
-	order := c.failoverRand.order(len(endpoints))
-	c.failoverRandMu.Unlock()
+	candidates := c.failoverOrder(endpoints)
 
 	var lastErr error
 
-	for _, i := range order {
-		endpoint := endpoints[i]
-
+	for _, endpoint := range candidates {
 		resp, err := c.tryOnce(ctx, endpoint, method, path, bodyBytes, headers)
 		if err == nil {
 			return resp, nil
@@ -150,7 +146,31 @@ func (c *Client) do(
 		lastErr = err
 	}
 
-	return nil, fmt.Errorf("%w (%d endpoints tried): %w", ErrAllEndpointsFailed, len(endpoints), lastErr)
+	return nil, fmt.Errorf("%w (%d endpoints tried): %w", ErrAllEndpointsFailed, len(candidates), lastErr)
+}
+
+// failoverOrder returns the endpoints to try, in order: a random
+// permutation of the working view, then the seeds the view does not
+// contain. The seeds come last so they only see traffic once every
+// endpoint the topology refresh reported is unreachable; without them a
+// view whose members were all replaced would strand the client, because
+// the refresh itself could not reach a live node either.
+func (c *Client) failoverOrder(endpoints []string) []string {
+	c.failoverRandMu.Lock()
+	defer c.failoverRandMu.Unlock()
+
+	out := make([]string, 0, len(endpoints)+len(c.seeds))
+	for _, i := range c.failoverRand.order(len(endpoints)) {
+		out = append(out, endpoints[i])
+	}
+
+	for _, i := range c.failoverRand.order(len(c.seeds)) {
+		if !slices.Contains(out, c.seeds[i]) {
+			out = append(out, c.seeds[i])
+		}
+	}
+
+	return out
 }
 
 // tryOnce dispatches a single request against the given endpoint.
-- 
2.43.0


From 621fc6b07ae36fd1ec0ecdd16ef0d775ded91c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:44 +0000
Subject: [PATCH 07/67] fix: keep sub-millisecond batch TTLs from becoming
 permanent

---
 pkg/client/batch.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/client/batch.go b/pkg/client/batch.go
index 6608de2..401daf4 100644
--- a/pkg/client/batch.go
+++ b/pkg/client/batch.go
@@ -147,7 +147,9 @@ func (c *Client) BatchSet(ctx context.Context, items []BatchSetItem) ([]BatchPut
 			ValueEncoding: "base64",
 		}
 		if it.TTL > 0 {
-			wire.TTLMs = it.TTL.Milliseconds()
+			// The wire counts milliseconds and 0 means "no expiry": a
+			// shorter TTL must not turn the item into a permanent one.
+			wire.TTLMs = max(it.TTL.Milliseconds(), 1)
 		}
 
 		body.Items = append(body.Items, wire)
-- 
2.43.0


From c57a4e77ea78c7948085d3fe9cad5746f42fdb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:30 +0000
Subject: [PATCH 08/67] fix: let the clock find a victim whenever it holds one

Evict and the eviction inside Set gave up after one lap, so they found no
victim (and dropped the new key) while every page still had a second chance.
---
 pkg/eviction/clock.go | 102 ++++++++++++++++++++++++------------------
 1 file changed, 58 insertions(+), 44 deletions(-)

diff --git a/pkg/eviction/clock.go b/pkg/eviction/clock.go
index f36a135..ad7bdba 100644
--- a/pkg/eviction/clock.go
+++ b/pkg/eviction/clock.go
@@ -37,37 +37,7 @@ func (c *ClockAlgorithm) Evict() (string, bool) {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if c.capacity == 0 {
-		return "", false
-	}
-
-	for range c.capacity {
-		item := c.items[c.hand]
-		if item == nil { // empty slot, advance
-			c.hand = (c.hand + 1) % c.capacity
-
-			continue
-		}
-
-		if item.AccessCount > 0 { // give second chance
-			item.AccessCount--
-
-			c.hand = (c.hand + 1) % c.capacity
-
-			continue
-		}
-
-		// evict
-		evictedKey := item.Key
-		delete(c.keys, evictedKey)
-		c.itemPoolManager.Put(item)
-
-		c.items[c.hand] = nil
-
-		return evictedKey, true
-	}
-
-	return "", false
+	return c.evictLocked()
 }
 
 // Set sets the item with the given key and value in the cache.
@@ -164,15 +134,65 @@ func (c *ClockAlgorithm) tryInsertInFreeSlot(key string, value any) bool {
 }
 
 func (c *ClockAlgorithm) evictAndInsert(key string, value any) {
+	_, ok := c.evictLocked() // leaves the hand on the freed slot
+	if !ok {
+		return
+	}
+
+	newItem := c.itemPoolManager.Get()
+
+	newItem.Key = key
+	newItem.Value = value
+	newItem.AccessCount = 1
+	c.items[c.hand] = newItem
+	c.keys[key] = c.hand
+	c.advanceHand()
+}
+
+// evictLocked frees the slot the hand ends on and returns its key; it only
+// fails on an empty clock. Items met on the way lose one second chance each.
+// When a whole lap finds no victim, the laps that could not find one either
+// are taken in one step: every count is lowered by the smallest of them, which
+// is what the hand would have done going round that many times.
+func (c *ClockAlgorithm) evictLocked() (string, bool) {
+	if len(c.keys) == 0 {
+		return "", false
+	}
+
+	if key, ok := c.evictLap(); ok {
+		return key, true
+	}
+
+	var lowest *cache.Item
+
+	for _, item := range c.items {
+		if item != nil && (lowest == nil || item.AccessCount < lowest.AccessCount) {
+			lowest = item
+		}
+	}
+
+	spent := lowest.AccessCount
+
+	for _, item := range c.items {
+		if item != nil {
+			item.AccessCount -= spent
+		}
+	}
+
+	return c.evictLap()
+}
+
+// evictLap moves the hand at most once round the clock.
+func (c *ClockAlgorithm) evictLap() (string, bool) {
 	for range c.capacity {
 		item := c.items[c.hand]
-		if item == nil { // skip empty
+		if item == nil { // empty slot, advance
 			c.advanceHand()
 
 			continue
 		}
 
-		if item.AccessCount > 0 { // second chance
+		if item.AccessCount > 0 { // give second chance
 			item.AccessCount--
 
 			c.advanceHand()
@@ -180,22 +200,16 @@ func (c *ClockAlgorithm) evictAndInsert(key string, value any) {
 			continue
 		}
 
-		delete(c.keys, item.Key)
+		evictedKey := item.Key
+		delete(c.keys, evictedKey)
 		c.itemPoolManager.Put(item)
 
 		c.items[c.hand] = nil
 
-		newItem := c.itemPoolManager.Get()
-
-		newItem.Key = key
-		newItem.Value = value
-		newItem.AccessCount = 1
-		c.items[c.hand] = newItem
-		c.keys[key] = c.hand
-		c.advanceHand()
-
-		return
+		return evictedKey, true
 	}
+
+	return "", false
 }
 
 func (c *ClockAlgorithm) advanceHand() { // small helper
-- 
2.43.0


From 81aba4cb29c1063bfef30c6559118c11ffdb0785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:41 +0000
Subject: [PATCH 09/67] fix: keep ARC within its capacity and its ghost lists
 bounded

A full cache could skip the replacement step (history trim with |T1| < c, or
replace() picking an empty T2), and B1 grew without limit while T1 was full.
---
 pkg/eviction/arc.go | 51 ++++++++++++++-------------------------------
 1 file changed, 16 insertions(+), 35 deletions(-)

diff --git a/pkg/eviction/arc.go b/pkg/eviction/arc.go
index 74f2f32..d53819e 100644
--- a/pkg/eviction/arc.go
+++ b/pkg/eviction/arc.go
@@ -278,7 +278,7 @@ func (a *ARC) Evict() (string, bool) {
 // Returns the evicted resident key (if any).
 func (a *ARC) replace(x string) string {
 	fromT1 := a.t1.len > 0 && ((x != "" && a.b2Idx[x] != nil && a.t1.len == a.p) || (a.t1.len > a.p))
-	if fromT1 {
+	if fromT1 || a.t2.len == 0 {
 		if tail := a.t1.removeTail(); tail != nil {
 			delete(a.t1Idx, tail.key)
 			a.b1.pushFront(&arcGhostNode{key: tail.key})
@@ -338,7 +338,9 @@ func (a *ARC) handleGhostHit(key string, value any) bool {
 			a.p = a.capacity
 		}
 
-		a.replace(key)
+		if a.length >= a.capacity {
+			a.replace(key)
+		}
 
 		a.b1.remove(ghost)
 		delete(a.b1Idx, key)
@@ -360,7 +362,9 @@ func (a *ARC) handleGhostHit(key string, value any) bool {
 			a.p = 0
 		}
 
-		a.replace(key)
+		if a.length >= a.capacity {
+			a.replace(key)
+		}
 
 		a.b2.remove(ghost)
 		delete(a.b2Idx, key)
@@ -379,9 +383,7 @@ func (a *ARC) handleGhostHit(key string, value any) bool {
 
 // insertNew ensures capacity and history bounds, then inserts key into T1.
 func (a *ARC) insertNew(key string, value any) {
-	if a.length >= a.capacity {
-		a.ensureCapacityForNew()
-	}
+	a.makeRoomForNew()
 
 	node := &arcNode{key: key, value: value}
 	a.t1.pushFront(node)
@@ -390,46 +392,25 @@ func (a *ARC) insertNew(key string, value any) {
 	a.length++
 }
 
-// ensureCapacityForNew frees space for a new resident item per ARC rules.
-func (a *ARC) ensureCapacityForNew() {
-	if a.t1.len+a.b1.len >= a.capacity {
-		a.trimForHistoryLimit()
-
-		return
+// makeRoomForNew makes space for a new resident item in T1, then trims the
+// history it no longer has room for: |T1|+|B1| stays within c and all four
+// lists together within 2c once the item is in.
+func (a *ARC) makeRoomForNew() {
+	if a.length >= a.capacity {
+		a.replace("")
 	}
 
-	a.trimForTotalLimit()
-}
-
-// trimForHistoryLimit handles the case where |T1| + |B1| >= c.
-func (a *ARC) trimForHistoryLimit() {
-	if a.t1.len < a.capacity {
+	if a.t1.len+a.b1.len >= a.capacity {
 		if tail := a.b1.removeTail(); tail != nil {
 			delete(a.b1Idx, tail.key)
 		}
-
-		return
 	}
 
-	if tail := a.t1.removeTail(); tail != nil {
-		delete(a.t1Idx, tail.key)
-		a.b1.pushFront(&arcGhostNode{key: tail.key})
-
-		a.b1Idx[tail.key] = a.b1.head
-		a.length--
-	}
-}
-
-// trimForTotalLimit handles the case where total lists exceed 2c, then calls replace.
-func (a *ARC) trimForTotalLimit() {
-	total := a.t1.len + a.t2.len + a.b1.len + a.b2.len
-	if total >= 2*a.capacity {
+	if a.length+a.b1.len+a.b2.len >= 2*a.capacity {
 		if tail := a.b2.removeTail(); tail != nil {
 			delete(a.b2Idx, tail.key)
 		}
 	}
-
-	a.replace("")
 }
 
 func arcIntMax(a, b int) int {
-- 
2.43.0


From 9340319884c3e3bc70ba991169560ae6830c0f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:47 +0000
Subject: [PATCH 10/67] fix: bring the cache back within its capacity

Eviction stopped for good when the eviction algorithm had lost track of the
excess items (capacity raised from 0, keys cleared while being written), when
maxEvictionCount was 0, and after popping a key that was already gone. An
unlimited cache (capacity 0) with WithMaxEvictionCount lost items for nothing.
---
 hypercache_eviction.go | 97 ++++++++++++++++++++++++++++++++++++------
 hypercache_io.go       | 12 +++---
 2 files changed, 89 insertions(+), 20 deletions(-)

diff --git a/hypercache_eviction.go b/hypercache_eviction.go
index 91dd8ce..0558c4c 100644
--- a/hypercache_eviction.go
+++ b/hypercache_eviction.go
@@ -3,11 +3,13 @@ package hypercache
 import (
 	"context"
 	"log/slog"
+	"slices"
 	"time"
 
 	"github.com/hyp3rd/sectools/pkg/converters"
 
 	"github.com/hyp3rd/hypercache/pkg/backend"
+	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
 	"github.com/hyp3rd/hypercache/pkg/eviction"
 )
 
@@ -106,8 +108,10 @@ func (hyperCache *HyperCache[T]) evictionLoop(ctx context.Context) {
 
 		var evictedCount uint
 
-		for hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
-			if hyperCache.maxEvictionCount == evictedCount {
+		nextVictim := hyperCache.victims(ctx)
+
+		for hyperCache.overCapacity(ctx) {
+			if hyperCache.evictedEnough(evictedCount) {
 				break
 			}
 
@@ -115,7 +119,7 @@ func (hyperCache *HyperCache[T]) evictionLoop(ctx context.Context) {
 			// outer lock needed. The Evict() -> Remove() window below is
 			// already non-atomic by design (other workers may insert items
 			// between the two calls); a wider lock would not change that.
-			key, ok := hyperCache.evictionAlgorithm.Evict()
+			key, ok := nextVictim()
 			if !ok {
 				// no more items to evict
 				break
@@ -175,21 +179,86 @@ func (hyperCache *HyperCache[T]) logEvictionTick(evicted uint, remaining int64,
 	)
 }
 
-// evictItem is a helper function that removes an item from the cache and returns the key of the evicted item.
-// If no item can be evicted, it returns a false.
-func (hyperCache *HyperCache[T]) evictItem(ctx context.Context) (string, bool) {
-	key, ok := hyperCache.evictionAlgorithm.Evict()
-	if !ok {
-		// no more items to evict
-		return "", false
+// overCapacity reports whether the backend holds more items than it should; a
+// capacity of 0 means no limit.
+func (hyperCache *HyperCache[T]) overCapacity(ctx context.Context) bool {
+	capacity := hyperCache.backend.Capacity()
+
+	return capacity > 0 && hyperCache.backend.Count(ctx) > capacity
+}
+
+// victims returns a function that yields the keys to evict: first those the
+// eviction algorithm picks, then (once) the excess it does not know of.
+func (hyperCache *HyperCache[T]) victims(ctx context.Context) func() (string, bool) {
+	var (
+		untracked []string
+		listed    bool
+	)
+
+	return func() (string, bool) {
+		key, ok := hyperCache.evictionAlgorithm.Evict()
+		if ok {
+			return key, true
+		}
+
+		if !listed {
+			untracked, listed = hyperCache.excessKeys(ctx), true
+		}
+
+		if len(untracked) == 0 {
+			return "", false
+		}
+
+		key, untracked = untracked[0], untracked[1:]
+
+		return key, true
 	}
+}
 
-	err := hyperCache.Remove(ctx, key)
+// excessKeys returns the least recently accessed keys, as many as the backend
+// holds above its capacity. It covers the items the eviction algorithm does not
+// know of, such as those inserted while the capacity was unlimited.
+func (hyperCache *HyperCache[T]) excessKeys(ctx context.Context) []string {
+	items, err := hyperCache.backend.List(ctx)
 	if err != nil {
-		return "", false
+		return nil
 	}
 
-	return key, true
+	excess := len(items) - hyperCache.backend.Capacity()
+	if excess <= 0 {
+		return nil
+	}
+
+	slices.SortStableFunc(items, func(a, b *cache.Item) int { return a.LastAccess.Compare(b.LastAccess) })
+
+	keys := make([]string, 0, excess)
+	for _, item := range items[:excess] {
+		keys = append(keys, item.Key)
+	}
+
+	return keys
+}
+
+// evictedEnough reports whether an eviction run has used up its allowance; 0 means no limit.
+func (hyperCache *HyperCache[T]) evictedEnough(evicted uint) bool {
+	return hyperCache.maxEvictionCount > 0 && evicted >= hyperCache.maxEvictionCount
+}
+
+// evictExcess evicts until the backend is back within its capacity, or nothing is left to evict.
+func (hyperCache *HyperCache[T]) evictExcess(ctx context.Context) {
+	nextVictim := hyperCache.victims(ctx)
+
+	for evicted := uint(0); hyperCache.overCapacity(ctx) && !hyperCache.evictedEnough(evicted); evicted++ {
+		key, ok := nextVictim()
+		if !ok {
+			return
+		}
+
+		err := hyperCache.Remove(ctx, key)
+		if err != nil {
+			return
+		}
+	}
 }
 
 // SetCapacity sets the capacity of the cache. If the new capacity is smaller than the current number of items in the cache,
@@ -201,7 +270,7 @@ func (hyperCache *HyperCache[T]) SetCapacity(ctx context.Context, capacity int)
 	hyperCache.shouldEvict.Swap(hyperCache.evictionInterval == 0 && hyperCache.backend.Capacity() > 0)
 
 	// if the cache size is greater than the new capacity, evict items
-	if hyperCache.backend.Count(ctx) > hyperCache.Capacity() {
+	if hyperCache.overCapacity(ctx) {
 		hyperCache.evictionLoop(ctx)
 	}
 }
diff --git a/hypercache_io.go b/hypercache_io.go
index 320ec44..31e0c1b 100644
--- a/hypercache_io.go
+++ b/hypercache_io.go
@@ -53,9 +53,9 @@ func (hyperCache *HyperCache[T]) Set(ctx context.Context, key string, value any,
 	// state internally; no outer lock needed.
 	hyperCache.evictionAlgorithm.Set(key, item.Value)
 
-	// If the cache is at capacity, evict an item when the eviction interval is zero
-	if hyperCache.shouldEvict.Load() && hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
-		hyperCache.evictItem(ctx)
+	// If the cache is at capacity, evict the excess when the eviction interval is zero
+	if hyperCache.shouldEvict.Load() {
+		hyperCache.evictExcess(ctx)
 	}
 
 	return nil
@@ -167,9 +167,9 @@ func (hyperCache *HyperCache[T]) GetOrSet(ctx context.Context, key string, value
 	// been recorded. The algorithm's own internal mutex provides safety.
 	hyperCache.evictionAlgorithm.Set(key, item.Value)
 
-	// If the cache is at capacity, evict an item when the eviction interval is zero
-	if hyperCache.shouldEvict.Load() && hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
-		hyperCache.evictItem(ctx)
+	// If the cache is at capacity, evict the excess when the eviction interval is zero
+	if hyperCache.shouldEvict.Load() {
+		hyperCache.evictExcess(ctx)
 	}
 
 	return value, nil
-- 
2.43.0


From 0a15cb71229afac50c48b1dabb9798f48c6aebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:11 +0000
Subject: [PATCH 11/67] fix: evict the item the algorithm ranks last

The in-memory cache gave its eviction algorithm no more room than its capacity
(less per shard, or with WithMaxEvictionCount), so inserting the item that went
over made the algorithm forget the one it should have evicted: the wrong item
was evicted and the right one could never be, and items written between two
runs of the eviction loop stayed above the capacity forever.
---
 hypercache_eviction.go   | 23 ++++++++++++++++++++---
 pkg/eviction/arc.go      |  8 ++++----
 pkg/eviction/clock.go    | 19 +++++++++++++++----
 pkg/eviction/eviction.go | 12 ++++++++++++
 pkg/eviction/lfu.go      |  2 +-
 pkg/eviction/lru.go      |  2 +-
 6 files changed, 53 insertions(+), 13 deletions(-)

diff --git a/hypercache_eviction.go b/hypercache_eviction.go
index 0558c4c..fd6a454 100644
--- a/hypercache_eviction.go
+++ b/hypercache_eviction.go
@@ -37,7 +37,7 @@ func configureEvictionSettings[T backend.IBackendConstrain](hc *HyperCache[T]) {
 // at the cost of strict global LRU/LFU ordering. shardCount <= 1 keeps the
 // previous single-instance behavior.
 func initEvictionAlgorithm[T backend.IBackendConstrain](hc *HyperCache[T]) error {
-	maxEvictionCount, err := converters.ToInt(hc.maxEvictionCount)
+	tracked, err := trackingCapacity(hc)
 	if err != nil {
 		return err
 	}
@@ -48,16 +48,33 @@ func initEvictionAlgorithm[T backend.IBackendConstrain](hc *HyperCache[T]) error
 	}
 
 	if hc.evictionShardCount > 1 {
-		hc.evictionAlgorithm, err = eviction.NewSharded(algorithmName, maxEvictionCount, hc.evictionShardCount)
+		hc.evictionAlgorithm, err = eviction.NewSharded(algorithmName, tracked, hc.evictionShardCount)
 
 		return err
 	}
 
-	hc.evictionAlgorithm, err = eviction.NewEvictionAlgorithm(algorithmName, maxEvictionCount)
+	hc.evictionAlgorithm, err = eviction.NewEvictionAlgorithm(algorithmName, tracked)
 
 	return err
 }
 
+// trackingCapacity is how many keys the eviction algorithm keeps in order. An
+// algorithm that is full drops the very key it would evict next, so it must not
+// fill up before the backend does: the in-memory backend may exceed its capacity
+// until the eviction that follows, and sharding splits keys unevenly.
+func trackingCapacity[T backend.IBackendConstrain](hc *HyperCache[T]) (int, error) {
+	if _, ok := any(hc.backend).(*backend.InMemory); ok && hc.backend.Capacity() > 0 {
+		return eviction.Unlimited, nil
+	}
+
+	maxEvictionCount, err := converters.ToInt(hc.maxEvictionCount)
+	if err != nil {
+		return 0, err
+	}
+
+	return max(maxEvictionCount, hc.backend.Capacity()), nil
+}
+
 // startEvictionRoutine launches the periodic eviction loop if configured.
 func (hyperCache *HyperCache[T]) startEvictionRoutine(ctx context.Context) {
 	if hyperCache.evictionInterval <= 0 {
diff --git a/pkg/eviction/arc.go b/pkg/eviction/arc.go
index d53819e..a5616c4 100644
--- a/pkg/eviction/arc.go
+++ b/pkg/eviction/arc.go
@@ -165,10 +165,10 @@ func NewARCAlgorithm(capacity int) (*ARC, error) {
 	return &ARC{
 		capacity: capacity,
 		p:        0,
-		t1Idx:    make(map[string]*arcNode, capacity),
-		t2Idx:    make(map[string]*arcNode, capacity),
-		b1Idx:    make(map[string]*arcGhostNode, capacity),
-		b2Idx:    make(map[string]*arcGhostNode, capacity),
+		t1Idx:    make(map[string]*arcNode, preallocated(capacity)),
+		t2Idx:    make(map[string]*arcNode, preallocated(capacity)),
+		b1Idx:    make(map[string]*arcGhostNode, preallocated(capacity)),
+		b2Idx:    make(map[string]*arcGhostNode, preallocated(capacity)),
 	}, nil
 }
 
diff --git a/pkg/eviction/clock.go b/pkg/eviction/clock.go
index ad7bdba..941f005 100644
--- a/pkg/eviction/clock.go
+++ b/pkg/eviction/clock.go
@@ -24,9 +24,9 @@ func NewClockAlgorithm(capacity int) (*ClockAlgorithm, error) {
 	}
 
 	return &ClockAlgorithm{
-		items:           make([]*cache.Item, capacity),
+		items:           make([]*cache.Item, preallocated(capacity)),
 		itemPoolManager: cache.NewItemPoolManager(),
-		keys:            make(map[string]int, capacity),
+		keys:            make(map[string]int, preallocated(capacity)),
 		capacity:        capacity,
 		hand:            0,
 	}, nil
@@ -111,6 +111,17 @@ func (c *ClockAlgorithm) updateIfExists(key string, value any) bool {
 }
 
 func (c *ClockAlgorithm) tryInsertInFreeSlot(key string, value any) bool {
+	if len(c.keys) == len(c.items) { // no free slot
+		if len(c.items) == c.capacity {
+			return false
+		}
+
+		// the clock has not grown to its capacity yet
+		grown := make([]*cache.Item, min(c.capacity, 2*len(c.items)))
+		copy(grown, c.items)
+		c.items = grown
+	}
+
 	start := c.hand
 	for {
 		if c.items[c.hand] == nil { // free slot
@@ -184,7 +195,7 @@ func (c *ClockAlgorithm) evictLocked() (string, bool) {
 
 // evictLap moves the hand at most once round the clock.
 func (c *ClockAlgorithm) evictLap() (string, bool) {
-	for range c.capacity {
+	for range len(c.items) {
 		item := c.items[c.hand]
 		if item == nil { // empty slot, advance
 			c.advanceHand()
@@ -213,5 +224,5 @@ func (c *ClockAlgorithm) evictLap() (string, bool) {
 }
 
 func (c *ClockAlgorithm) advanceHand() { // small helper
-	c.hand = (c.hand + 1) % c.capacity
+	c.hand = (c.hand + 1) % len(c.items)
 }
diff --git a/pkg/eviction/eviction.go b/pkg/eviction/eviction.go
index 5dde5f1..dc1d15d 100644
--- a/pkg/eviction/eviction.go
+++ b/pkg/eviction/eviction.go
@@ -3,6 +3,7 @@ package eviction
 
 import (
 	"maps"
+	"math"
 
 	"github.com/hyp3rd/ewrap"
 
@@ -21,6 +22,17 @@ type IAlgorithm interface {
 	Delete(key string)
 }
 
+// Unlimited is a capacity no algorithm reaches: it orders its keys for Evict and
+// never drops one on its own. For use when somebody else enforces the capacity.
+const Unlimited = math.MaxInt32
+
+// preallocated returns how many entries to allocate up front for a capacity.
+func preallocated(capacity int) int {
+	const most = 64
+
+	return min(capacity, most)
+}
+
 // AlgorithmRegistry manages eviction algorithm constructors.
 type AlgorithmRegistry struct {
 	algorithms map[string]func(capacity int) (IAlgorithm, error)
diff --git a/pkg/eviction/lfu.go b/pkg/eviction/lfu.go
index 0abed48..912c7f5 100644
--- a/pkg/eviction/lfu.go
+++ b/pkg/eviction/lfu.go
@@ -81,7 +81,7 @@ func NewLFUAlgorithm(capacity int) (*LFUAlgorithm, error) {
 	}
 
 	return &LFUAlgorithm{
-		items:  make(map[string]*Node, capacity),
+		items:  make(map[string]*Node, preallocated(capacity)),
 		freqs:  &FrequencyHeap{},
 		length: 0,
 		cap:    capacity,
diff --git a/pkg/eviction/lru.go b/pkg/eviction/lru.go
index a3248b5..8fc47be 100644
--- a/pkg/eviction/lru.go
+++ b/pkg/eviction/lru.go
@@ -33,7 +33,7 @@ func NewLRUAlgorithm(capacity int) (*LRU, error) {
 
 	return &LRU{
 		capacity: capacity,
-		items:    make(map[string]*lruCacheItem, capacity),
+		items:    make(map[string]*lruCacheItem, preallocated(capacity)),
 		itemPool: sync.Pool{
 			New: func() any {
 				return &lruCacheItem{}
-- 
2.43.0


From 0916ef354c7d023717c541402ba0f03162a2e719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:22 +0000
Subject: [PATCH 12/67] fix: count reads in the eviction order

Get, GetOrSet, GetWithInfo and GetMultiple never told the eviction algorithm,
so LRU and LFU ranked items by their writes alone.
---
 hypercache_io.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hypercache_io.go b/hypercache_io.go
index 31e0c1b..de49fa7 100644
--- a/hypercache_io.go
+++ b/hypercache_io.go
@@ -216,6 +216,9 @@ func (hyperCache *HyperCache[T]) touchItem(ctx context.Context, key string, item
 		toucher.Touch(ctx, key)
 	}
 
+	// Reads count for the eviction order too.
+	hyperCache.evictionAlgorithm.Get(key)
+
 	item.Touch()
 }
 
-- 
2.43.0


From aef3f26bbb726e0391c6ee931a9dee9de46449d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:29 +0000
Subject: [PATCH 13/67] fix: account for exactly what the in-memory cache
 stores

Allocation grew by the full size on every overwrite, kept the size of items the
backend refused, was subtracted twice by concurrent removals of one key and
lost the writes that raced with Clear, so maxCacheSize ended up refusing writes
to an empty cache or admitting too many. The map now keeps the sum itself.
---
 hypercache.go           | 13 ++++++-
 hypercache_io.go        | 78 ++++++++++++++++++++++++-----------------
 pkg/backend/inmemory.go |  5 +++
 pkg/cache/v2/cmap.go    | 31 ++++++++++++++--
 4 files changed, 91 insertions(+), 36 deletions(-)

diff --git a/hypercache.go b/hypercache.go
index 2102240..a8a8fb4 100644
--- a/hypercache.go
+++ b/hypercache.go
@@ -66,7 +66,7 @@ type HyperCache[T backend.IBackendConstrain] struct {
 	shouldEvict                atomic.Bool         // proactive eviction enabled
 	maxEvictionCount           uint                // max items per eviction run
 	maxCacheSize               int64               // hard memory limit (MB), 0 = unlimited
-	memoryAllocation           atomic.Int64        // current memory usage (bytes)
+	memoryAllocation           atomic.Int64        // current memory usage (bytes); writes in flight only, see allocationBackend
 	once                       sync.Once           // ensures background loops start once
 	statsCollectorName         string              // configured stats collector name
 	// StatsCollector to collect cache statistics
@@ -88,6 +88,13 @@ type touchBackend interface {
 	Touch(ctx context.Context, key string) bool
 }
 
+// allocationBackend is the optional interface of a backend that accounts for the
+// size of what it stores. memoryAllocation then only holds the writes that are in
+// flight; for any other backend it is the whole account.
+type allocationBackend interface {
+	Allocation() int64
+}
+
 // NewInMemoryWithDefaults initializes a new HyperCache with the default configuration.
 // The default configuration is:
 //   - The eviction interval is set to 10 minutes.
@@ -224,6 +231,10 @@ func (hyperCache *HyperCache[T]) Capacity() int {
 
 // Allocation returns the size allocation in bytes of the current cache.
 func (hyperCache *HyperCache[T]) Allocation() int64 {
+	if measured, ok := hyperCache.backend.(allocationBackend); ok {
+		return measured.Allocation()
+	}
+
 	return hyperCache.memoryAllocation.Load()
 }
 
diff --git a/hypercache_io.go b/hypercache_io.go
index de49fa7..f7a92ed 100644
--- a/hypercache_io.go
+++ b/hypercache_io.go
@@ -31,27 +31,14 @@ func (hyperCache *HyperCache[T]) Set(ctx context.Context, key string, value any,
 		return err
 	}
 
-	// check if adding this item will exceed the maxCacheSize
-	hyperCache.memoryAllocation.Add(item.Size)
-
-	if hyperCache.maxCacheSize > 0 && hyperCache.memoryAllocation.Load() > hyperCache.maxCacheSize {
-		hyperCache.memoryAllocation.Add(-item.Size)
-
-		return sentinel.ErrCacheFull
-	}
-
-	// Insert the item into the cache
-	err = hyperCache.backend.Set(ctx, item)
+	err = hyperCache.storeItem(ctx, item)
 	if err != nil {
-		hyperCache.memoryAllocation.Add(-item.Size)
-		hyperCache.itemPoolManager.Put(item)
-
 		return err
 	}
 
 	// Set the item in the eviction algorithm. The algorithm protects its own
 	// state internally; no outer lock needed.
-	hyperCache.evictionAlgorithm.Set(key, item.Value)
+	hyperCache.evictionAlgorithm.Set(key, value)
 
 	// If the cache is at capacity, evict the excess when the eviction interval is zero
 	if hyperCache.shouldEvict.Load() {
@@ -142,22 +129,8 @@ func (hyperCache *HyperCache[T]) GetOrSet(ctx context.Context, key string, value
 		return nil, err
 	}
 
-	// check if adding this item will exceed the maxCacheSize
-	hyperCache.memoryAllocation.Add(item.Size)
-
-	if hyperCache.maxCacheSize > 0 && hyperCache.memoryAllocation.Load() > hyperCache.maxCacheSize {
-		hyperCache.memoryAllocation.Add(-item.Size)
-		hyperCache.itemPoolManager.Put(item)
-
-		return nil, sentinel.ErrCacheFull
-	}
-
-	// Insert the item into the cache
-	err = hyperCache.backend.Set(ctx, item)
+	err = hyperCache.storeItem(ctx, item)
 	if err != nil {
-		hyperCache.memoryAllocation.Add(-item.Size)
-		hyperCache.itemPoolManager.Put(item)
-
 		return nil, err
 	}
 
@@ -165,7 +138,7 @@ func (hyperCache *HyperCache[T]) GetOrSet(ctx context.Context, key string, value
 	// goroutine had no panic recovery, no shutdown coordination with Stop(),
 	// and let the caller observe a key whose eviction tracking had not yet
 	// been recorded. The algorithm's own internal mutex provides safety.
-	hyperCache.evictionAlgorithm.Set(key, item.Value)
+	hyperCache.evictionAlgorithm.Set(key, value)
 
 	// If the cache is at capacity, evict the excess when the eviction interval is zero
 	if hyperCache.shouldEvict.Load() {
@@ -175,6 +148,40 @@ func (hyperCache *HyperCache[T]) GetOrSet(ctx context.Context, key string, value
 	return value, nil
 }
 
+// storeItem inserts a sized item into the backend and accounts for it, unless that
+// exceeds maxCacheSize. The item belongs to the backend afterwards; on an error it
+// is back in the pool.
+func (hyperCache *HyperCache[T]) storeItem(ctx context.Context, item *cache.Item) error {
+	size := item.Size // the backend may clear an item it refuses
+	total := hyperCache.memoryAllocation.Add(size)
+
+	measured, ok := hyperCache.backend.(allocationBackend)
+	if ok {
+		total += measured.Allocation()
+	}
+
+	if hyperCache.maxCacheSize > 0 && total > hyperCache.maxCacheSize {
+		hyperCache.memoryAllocation.Add(-size)
+		hyperCache.itemPoolManager.Put(item)
+
+		return sentinel.ErrCacheFull
+	}
+
+	err := hyperCache.backend.Set(ctx, item)
+	if err != nil {
+		hyperCache.memoryAllocation.Add(-size)
+		hyperCache.itemPoolManager.Put(item)
+
+		return err
+	}
+
+	if ok { // stored, and measured by the backend from here on
+		hyperCache.memoryAllocation.Add(-size)
+	}
+
+	return nil
+}
+
 // GetMultiple retrieves the items with the given keys from the cache.
 func (hyperCache *HyperCache[T]) GetMultiple(ctx context.Context, keys ...string) (map[string]any, map[string]error) {
 	result := make(map[string]any, len(keys))   // Preallocate the result map
@@ -273,7 +280,10 @@ func (hyperCache *HyperCache[T]) Remove(ctx context.Context, keys ...string) err
 		item, ok := hyperCache.backend.Get(ctx, key)
 		if ok {
 			// remove the item from the cacheBackend and update the memory allocation
-			hyperCache.memoryAllocation.Add(-item.Size)
+			if _, measured := hyperCache.backend.(allocationBackend); !measured {
+				hyperCache.memoryAllocation.Add(-item.Size)
+			}
+
 			hyperCache.evictionAlgorithm.Delete(key)
 		}
 	}
@@ -310,7 +320,9 @@ func (hyperCache *HyperCache[T]) Clear(ctx context.Context) error {
 	}
 
 	// reset the memory allocation
-	hyperCache.memoryAllocation.Store(0)
+	if _, measured := hyperCache.backend.(allocationBackend); !measured {
+		hyperCache.memoryAllocation.Store(0)
+	}
 
 	return err
 }
diff --git a/pkg/backend/inmemory.go b/pkg/backend/inmemory.go
index ac448bf..a3c2d9d 100644
--- a/pkg/backend/inmemory.go
+++ b/pkg/backend/inmemory.go
@@ -53,6 +53,11 @@ func (cacheBackend *InMemory) Count(_ context.Context) int {
 	return cacheBackend.items.Count()
 }
 
+// Allocation returns the total size in bytes of the items stored.
+func (cacheBackend *InMemory) Allocation() int64 {
+	return cacheBackend.items.Size()
+}
+
 // Get retrieves the item with the given key from the cacheBackend. If the item is not found, it returns nil.
 func (cacheBackend *InMemory) Get(_ context.Context, key string) (*cache.Item, bool) {
 	item, ok := cacheBackend.items.GetCopy(key)
diff --git a/pkg/cache/v2/cmap.go b/pkg/cache/v2/cmap.go
index e7d96a4..29b389e 100644
--- a/pkg/cache/v2/cmap.go
+++ b/pkg/cache/v2/cmap.go
@@ -52,6 +52,7 @@ type ConcurrentMapShard struct {
 
 	items map[string]*Item
 	count atomic.Int64
+	size  atomic.Int64 // sum of the items' Size, kept like count
 }
 
 // New creates a new concurrent map.
@@ -92,10 +93,13 @@ func (cm *ConcurrentMap) Set(key string, value *Item) {
 	shard := cm.GetShard(key)
 	shard.Lock()
 
-	if _, existed := shard.items[key]; !existed {
+	previous, existed := shard.items[key]
+	if !existed {
 		shard.count.Add(1)
 	}
 
+	shard.size.Add(sizeOf(value) - sizeOf(previous))
+
 	shard.items[key] = value
 	shard.Unlock()
 }
@@ -177,6 +181,7 @@ func (cm *ConcurrentMap) Pop(key string) (*Item, bool) {
 
 	delete(shard.items, key)
 	shard.count.Add(-1)
+	shard.size.Add(-sizeOf(item))
 	shard.Unlock()
 
 	return item, ok
@@ -231,9 +236,10 @@ func (cm *ConcurrentMap) Remove(key string) {
 	shard := cm.GetShard(key)
 	shard.Lock()
 
-	if _, existed := shard.items[key]; existed {
+	if item, existed := shard.items[key]; existed {
 		delete(shard.items, key)
 		shard.count.Add(-1)
+		shard.size.Add(-sizeOf(item))
 	}
 
 	shard.Unlock()
@@ -247,6 +253,7 @@ func (cm *ConcurrentMap) Clear() {
 
 		shard.items = make(map[string]*Item)
 		shard.count.Store(0)
+		shard.size.Store(0)
 		shard.Unlock()
 	}
 }
@@ -267,3 +274,23 @@ func (cm *ConcurrentMap) Count() int {
 
 	return int(total)
 }
+
+// Size returns the sum of the items' Size, lock-free like Count.
+func (cm *ConcurrentMap) Size() int64 {
+	var total int64
+
+	for _, shard := range cm.shards {
+		total += shard.size.Load()
+	}
+
+	return total
+}
+
+// sizeOf returns the size an item is accounted with.
+func sizeOf(item *Item) int64 {
+	if item == nil {
+		return 0
+	}
+
+	return item.Size
+}
-- 
2.43.0


From 2ddcddcd16a75f2c805654ec8303cd739a07312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:06 +0000
Subject: [PATCH 14/67] fix: do not expire an item that was rewritten after
 being listed

---
 hypercache_expiration.go | 35 ++++++++++++++++++++++++++++++++---
 pkg/backend/inmemory.go  |  6 ++++++
 pkg/cache/v2/cmap.go     | 19 +++++++++++++++++++
 3 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/hypercache_expiration.go b/hypercache_expiration.go
index bb2e342..9f0e46c 100644
--- a/hypercache_expiration.go
+++ b/hypercache_expiration.go
@@ -141,13 +141,17 @@ func (hyperCache *HyperCache[T]) expirationLoop(ctx context.Context) {
 
 		// iterate all expired items and remove them
 		for _, item := range items {
-			expiredCount++
-
-			err := hyperCache.Remove(ctx, item.Key)
+			live, err := hyperCache.removeExpired(ctx, item)
 			if err != nil {
 				return err
 			}
 
+			if live { // rewritten since it was listed
+				continue
+			}
+
+			expiredCount++
+
 			hyperCache.itemPoolManager.Put(item)
 			hyperCache.StatsCollector.Incr("item_expired_count", 1)
 		}
@@ -178,5 +182,30 @@ func (hyperCache *HyperCache[T]) expirationLoop(ctx context.Context) {
 	})
 }
 
+// expiringBackend is the optional interface of a backend that can check that an
+// item has expired and remove it in one step.
+type expiringBackend interface {
+	RemoveExpired(key string) (live bool)
+}
+
+// removeExpired removes an item that was found expired. It reports true, and leaves
+// the key alone, when it has been rewritten in the meantime.
+func (hyperCache *HyperCache[T]) removeExpired(ctx context.Context, item *cache.Item) (bool, error) {
+	expiring, ok := hyperCache.backend.(expiringBackend)
+	if !ok {
+		return false, hyperCache.Remove(ctx, item.Key)
+	}
+
+	hyperCache.evictionAlgorithm.Delete(item.Key)
+
+	if expiring.RemoveExpired(item.Key) {
+		hyperCache.evictionAlgorithm.Set(item.Key, item.Value)
+
+		return true, nil
+	}
+
+	return false, nil
+}
+
 // TriggerExpiration exposes a manual expiration trigger (debounced/coalesced internally).
 func (hyperCache *HyperCache[T]) TriggerExpiration() { hyperCache.execTriggerExpiration() }
diff --git a/pkg/backend/inmemory.go b/pkg/backend/inmemory.go
index a3c2d9d..1983042 100644
--- a/pkg/backend/inmemory.go
+++ b/pkg/backend/inmemory.go
@@ -136,6 +136,12 @@ func (cacheBackend *InMemory) Remove(ctx context.Context, keys ...string) error
 	}
 }
 
+// RemoveExpired removes the item with the given key if it has expired by now, and
+// reports whether the key holds a live item.
+func (cacheBackend *InMemory) RemoveExpired(key string) bool {
+	return cacheBackend.items.RemoveExpired(key)
+}
+
 // Clear removes all items from the cacheBackend.
 func (cacheBackend *InMemory) Clear(ctx context.Context) error {
 	done := make(chan struct{})
diff --git a/pkg/cache/v2/cmap.go b/pkg/cache/v2/cmap.go
index 29b389e..c7b0c54 100644
--- a/pkg/cache/v2/cmap.go
+++ b/pkg/cache/v2/cmap.go
@@ -245,6 +245,25 @@ func (cm *ConcurrentMap) Remove(key string) {
 	shard.Unlock()
 }
 
+// RemoveExpired removes the item under the specified key if it has expired, and
+// reports whether the key holds a live item.
+func (cm *ConcurrentMap) RemoveExpired(key string) bool {
+	shard := cm.GetShard(key)
+	shard.Lock()
+	defer shard.Unlock()
+
+	item, ok := shard.items[key]
+	if !ok || !item.Expired() {
+		return ok
+	}
+
+	delete(shard.items, key)
+	shard.count.Add(-1)
+	shard.size.Add(-sizeOf(item))
+
+	return false
+}
+
 // Clear removes all items from map.
 func (cm *ConcurrentMap) Clear() {
 	// Fast clear: reset each shard's map under lock.
-- 
2.43.0


From 68db7bf3c083b6fa3b06aed53c1e46393e58a633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:48 +0000
Subject: [PATCH 15/67] fix: keep manual expiration triggers alive

A trigger queued while the loop was draining the channel was dropped with its
pending flag still set, which coalesced every later trigger into it.
---
 hypercache_expiration.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hypercache_expiration.go b/hypercache_expiration.go
index 9f0e46c..9b9a914 100644
--- a/hypercache_expiration.go
+++ b/hypercache_expiration.go
@@ -46,11 +46,8 @@ func (hyperCache *HyperCache[T]) handleExpirationSelect(ctx context.Context, tic
 		// scheduled expiration
 		hyperCache.expirationLoop(ctx)
 	case <-hyperCache.expirationTriggerCh:
-		// manual/coalesced trigger
-		hyperCache.expirationLoop(ctx)
-		hyperCache.expirationSignalPending.Store(false)
-
-		// drain any queued triggers quickly
+		// manual/coalesced trigger: drain any queued triggers quickly, they are
+		// all served by the run below
 		for draining := true; draining; {
 			select {
 			case <-hyperCache.expirationTriggerCh:
@@ -60,6 +57,11 @@ func (hyperCache *HyperCache[T]) handleExpirationSelect(ctx context.Context, tic
 			}
 		}
 
+		// Only now may a trigger be queued again: one queued before the drain
+		// would be swallowed and leave its signal pending forever.
+		hyperCache.expirationSignalPending.Store(false)
+		hyperCache.expirationLoop(ctx)
+
 	case <-hyperCache.evictCh:
 		// manual eviction trigger
 		hyperCache.evictionLoop(ctx)
-- 
2.43.0


From 61a1f18e6f7c81bfc898318cf7ffab0bcd2101ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:48 +0000
Subject: [PATCH 16/67] fix: keep the worker pool alive when jobs fail or it is
 resized

Nobody has to read Errors(): once its buffer was full every failing job wedged
its worker for good and Shutdown never returned. Resize raced with itself and
panicked (send on closed channel) after Shutdown.
---
 pool.go | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/pool.go b/pool.go
index 9b225f6..a18307e 100644
--- a/pool.go
+++ b/pool.go
@@ -20,10 +20,12 @@ type WorkerPool struct {
 	shutdownMu sync.RWMutex
 	closed     bool
 
-	workers   int
+	workers   int // guarded by resizeMu
+	resizeMu  sync.Mutex
 	jobs      chan JobFunc
 	wg        sync.WaitGroup
-	quit      chan struct{}
+	quit      chan struct{} // one signal retires one worker
+	done      chan struct{} // closed once Shutdown has run every job
 	errorChan chan error
 }
 
@@ -34,6 +36,7 @@ func NewWorkerPool(workers int) *WorkerPool {
 		jobs:    make(chan JobFunc, workers),
 		// buffer quit to allow multiple resize signals without blocking immediately
 		quit:      make(chan struct{}, workers),
+		done:      make(chan struct{}),
 		errorChan: make(chan error, workers),
 	}
 	pool.start()
@@ -75,22 +78,34 @@ func (pool *WorkerPool) Shutdown() {
 	// Wait for all enqueued jobs to complete
 	pool.wg.Wait()
 	// Now signal any lingering workers to exit select loop
-	close(pool.quit)
+	close(pool.done)
 	// It's now safe to close the error channel (no more sends after wg completes)
 	close(pool.errorChan)
 }
 
 // Errors returns a channel that can be used to receive errors from the worker pool.
+// It holds as many errors as the pool has workers; further ones are dropped until
+// they are received, so that jobs go on running when nobody does.
 func (pool *WorkerPool) Errors() <-chan error {
 	return pool.errorChan
 }
 
-// Resize resizes the worker pool.
+// Resize resizes the worker pool. It is safe for concurrent use, and a no-op once
+// the pool has been shut down.
 func (pool *WorkerPool) Resize(newSize int) {
 	if newSize < 0 {
 		return
 	}
 
+	pool.resizeMu.Lock()
+	defer pool.resizeMu.Unlock()
+
+	select {
+	case <-pool.done:
+		return
+	default:
+	}
+
 	diff := newSize - pool.workers
 	if diff == 0 {
 		return
@@ -107,7 +122,11 @@ func (pool *WorkerPool) Resize(newSize int) {
 		// Decrease the number of workers
 		// Send only the number of quit signals needed to remove workers
 		for range -diff {
-			pool.quit <- struct{}{}
+			select {
+			case pool.quit <- struct{}{}:
+			case <-pool.done:
+				return
+			}
 		}
 	}
 }
@@ -131,13 +150,19 @@ func (pool *WorkerPool) worker() {
 
 			err := job()
 			if err != nil {
-				pool.errorChan <- err
+				select {
+				case pool.errorChan <- err:
+				default:
+				}
 			}
 
 			pool.wg.Done()
 
 		case <-pool.quit:
 			return
+
+		case <-pool.done:
+			return
 		}
 	}
 }
-- 
2.43.0


From 7e9bb1119cc3e371badb6e9f4394f8adc3f0a842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:47 +0000
Subject: [PATCH 17/67] fix: make HyperCache.Stop safe to call concurrently

---
 hypercache.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hypercache.go b/hypercache.go
index a8a8fb4..2280fd3 100644
--- a/hypercache.go
+++ b/hypercache.go
@@ -201,13 +201,12 @@ func (hyperCache *HyperCache[T]) Stop(ctx context.Context) error {
 	default:
 	}
 
+	// Canceling is idempotent, so Stop needs no state of its own and may be
+	// called concurrently.
 	if hyperCache.bgCancel != nil {
 		hyperCache.bgCancel()
-
-		hyperCache.bgCancel = nil
 	}
 
-	hyperCache.once = sync.Once{}
 	hyperCache.workerPool.Shutdown()
 
 	if hyperCache.mgmtHTTP != nil {
-- 
2.43.0


From 1fee77ef79255c2e3c88e1a2c2851c513468cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:47 +0000
Subject: [PATCH 18/67] fix: make the in-memory backend's capacity safe to
 change while in use

---
 pkg/backend/inmemory.go | 9 +++++----
 pkg/backend/options.go  | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/backend/inmemory.go b/pkg/backend/inmemory.go
index 1983042..b0b378a 100644
--- a/pkg/backend/inmemory.go
+++ b/pkg/backend/inmemory.go
@@ -2,6 +2,7 @@ package backend
 
 import (
 	"context"
+	"sync/atomic"
 
 	"github.com/hyp3rd/hypercache/internal/constants"
 	"github.com/hyp3rd/hypercache/internal/sentinel"
@@ -14,7 +15,7 @@ import (
 type InMemory struct {
 	items           cache.ConcurrentMap    // map to store the items in the cache
 	itemPoolManager *cache.ItemPoolManager // item pool manager to manage the item pool
-	capacity        int                    // capacity of the cache, limits the number of items that can be stored in the cache
+	capacity        atomic.Int64           // capacity of the cache, limits the number of items that can be stored in the cache
 }
 
 // NewInMemory creates a new in-memory cache with the given options.
@@ -27,7 +28,7 @@ func NewInMemory(opts ...Option[InMemory]) (IBackend[InMemory], error) {
 	ApplyOptions(backendInstance, opts...)
 
 	// Check if the `capacity` is valid
-	if backendInstance.capacity < 0 {
+	if backendInstance.capacity.Load() < 0 {
 		return nil, sentinel.ErrInvalidCapacity
 	}
 
@@ -40,12 +41,12 @@ func (cacheBackend *InMemory) SetCapacity(capacity int) {
 		return
 	}
 
-	cacheBackend.capacity = capacity
+	cacheBackend.capacity.Store(int64(capacity))
 }
 
 // Capacity returns the capacity of the cacheBackend.
 func (cacheBackend *InMemory) Capacity() int {
-	return cacheBackend.capacity
+	return int(cacheBackend.capacity.Load())
 }
 
 // Count returns the number of items in the cache.
diff --git a/pkg/backend/options.go b/pkg/backend/options.go
index 1c36e25..4c16c5c 100644
--- a/pkg/backend/options.go
+++ b/pkg/backend/options.go
@@ -14,7 +14,7 @@ type iConfigurableBackend interface {
 
 // setCapacity sets the `Capacity` field of the `InMemory` backend.
 func (inm *InMemory) setBackendCapacity(capacity int) {
-	inm.capacity = capacity
+	inm.capacity.Store(int64(capacity))
 }
 
 // setCapacity sets the `Capacity` field of the `Redis` backend.
-- 
2.43.0


From a9a9009e64f0cc43e8d04d7fe9a8e01c1e412e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:02 +0000
Subject: [PATCH 19/67] fix: never let an older write or removal replace a
 newer one on a distributed node

Writes reach an owner in any order - concurrent fan-outs, replayed hints, read
repair, anti-entropy, rebalance - but applySet stored whatever came last, ran
unsynchronised with removals, and tombstones never stopped a late write. Apply
an item only if it is newer than what is held (version, then origin, against
tombstones too), keep the version counter ahead of every version seen, and have
a primary whose version is refused as older write past it.
---
 pkg/backend/dist_http_server.go    |   7 +-
 pkg/backend/dist_http_transport.go |  11 ++
 pkg/backend/dist_http_types.go     |   3 +-
 pkg/backend/dist_memory.go         | 247 ++++++++++++++++++++++-------
 pkg/backend/dist_transport.go      |   4 +-
 5 files changed, 211 insertions(+), 61 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index 35005a9..d5f07a6 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -389,7 +389,12 @@ func (s *distHTTPServer) handleSet(fctx fiber.Ctx, dm *DistMemory) error {
 
 	// Forwarded arrival from a peer: ownership guard fires if this
 	// node disagrees with the sender's view about K's owners.
-	dm.applyForwardedSet(s.ctx, it, req.Replicate)
+	applyErr := dm.applyForwardedSet(s.ctx, it, req.Replicate)
+
+	var older *supersededError
+	if errors.As(applyErr, &older) {
+		return fctx.Status(fiber.StatusConflict).JSON(httpSetResponse{Error: older.Error(), Version: older.version})
+	}
 
 	return fctx.JSON(httpSetResponse{})
 }
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index bc1c1e8..62f12c9 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -197,6 +197,17 @@ func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item
 		return sentinel.ErrBackendNotFound
 	}
 
+	if resp.StatusCode == http.StatusConflict {
+		var refusal httpSetResponse
+
+		derr := readAndUnmarshal(body, &refusal)
+		if derr != nil {
+			return derr
+		}
+
+		return &supersededError{version: refusal.Version}
+	}
+
 	if resp.StatusCode >= statusThreshold {
 		errBody, rerr := io.ReadAll(body)
 		if rerr != nil {
diff --git a/pkg/backend/dist_http_types.go b/pkg/backend/dist_http_types.go
index 69968c3..ed7b799 100644
--- a/pkg/backend/dist_http_types.go
+++ b/pkg/backend/dist_http_types.go
@@ -15,7 +15,8 @@ type httpSetRequest struct { // shared with server & transport
 }
 
 type httpSetResponse struct {
-	Error string `json:"error,omitempty"`
+	Error   string `json:"error,omitempty"`
+	Version uint64 `json:"version,omitempty"` // what superseded the write (409 Conflict)
 }
 
 type httpGetResponse struct {
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 0030471..8930810 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -171,9 +171,6 @@ type DistMemory struct {
 	autoSyncBackoffFactor    atomic.Int64 // current multiplier; >=1 when adaptive enabled
 	autoSyncCleanTicks       atomic.Int64 // cumulative clean ticks (whole-cycle, not per-peer)
 
-	// tombstone version source when no prior item exists (monotonic per process)
-	tombVersionCounter atomic.Uint64
-
 	// tombstone retention / compaction
 	tombstoneTTL      time.Duration
 	tombstoneSweepInt time.Duration
@@ -365,6 +362,7 @@ func (dm *DistMemory) LifecycleContext() context.Context { return dm.lifeCtx }
 
 type distShard struct {
 	items             cache.ConcurrentMap
+	applyMu           sync.Mutex                  // orders version checks with the writes they allow; guards tombs
 	tombs             map[string]tombstone        // per-key tombstones
 	originalPrimary   map[string]cluster.NodeID   // recorded primary owner at first insert
 	originalPrimaryMu sync.RWMutex                // guards originalPrimary
@@ -1193,9 +1191,14 @@ func (dm *DistMemory) DebugInject(it *cache.Item) {
 	}
 
 	sh := dm.shardFor(it.Key)
+
+	sh.applyMu.Lock()
+	defer sh.applyMu.Unlock()
+
 	// test helper: injecting a concrete item implies intent to resurrect; clear any tombstone so normal version comparison applies
 	delete(sh.tombs, it.Key)
 	sh.items.Set(it.Key, it)
+	dm.observeVersion(it.Version)
 }
 
 // LocalNodeID returns this instance's node ID (testing helper).
@@ -1875,37 +1878,58 @@ func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 	sh := dm.shardFor(key)
 
 	if !ok { // remote missing key (could be delete) -> adopt tombstone locally if we still have it
-		if _, hasTomb := sh.tombs[key]; hasTomb { // already have tombstone
-			return
-		}
+		dm.adoptRemoval(sh, key)
 
-		if cur, okLocal := sh.items.Get(key); okLocal { // create tombstone advancing version
-			sh.items.Remove(key)
+		return
+	}
 
-			nextVer := cur.Version + 1
+	if stored, _ := dm.applyIfNewer(sh, it); stored {
+		dm.metrics.merkleKeysPulled.Add(1)
+	}
+}
 
-			sh.tombs[key] = tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()}
-			dm.metrics.tombstonesActive.Store(dm.countTombstones())
-		}
+// adoptRemoval drops the local copy of a key a peer no longer holds and leaves
+// a tombstone superseding it.
+func (dm *DistMemory) adoptRemoval(sh *distShard, key string) {
+	sh.applyMu.Lock()
+	defer sh.applyMu.Unlock()
 
+	if _, hasTomb := sh.tombs[key]; hasTomb { // already have tombstone
 		return
 	}
 
-	if tomb, hasTomb := sh.tombs[key]; hasTomb {
-		// If tombstone version newer or equal, do not resurrect
-		if tomb.version >= it.Version {
+	cur, okLocal := sh.items.Get(key)
+	if !okLocal {
+		return
+	}
+
+	sh.items.Remove(key)
+	dm.buryLocked(sh, key, cur.Version+1)
+}
+
+// observeVersion advances the local version counter past a version seen
+// elsewhere, so that the next write coordinated here supersedes it.
+func (dm *DistMemory) observeVersion(version uint64) {
+	for {
+		cur := dm.versionCounter.Load()
+		if version <= cur || dm.versionCounter.CompareAndSwap(cur, version) {
 			return
 		}
+	}
+}
 
-		// remote has newer version; clear tombstone (key resurrected intentionally)
-		delete(sh.tombs, key)
-		dm.metrics.tombstonesActive.Store(dm.countTombstones())
+// buryLocked leaves a tombstone for key; call with sh.applyMu held.
+func (dm *DistMemory) buryLocked(sh *distShard, key string, version uint64) {
+	if sh.tombs == nil {
+		sh.tombs = make(map[string]tombstone)
 	}
 
-	if cur, okLocal := sh.items.Get(key); !okLocal || it.Version > cur.Version {
-		dm.applySet(ctx, it, false)
-		dm.metrics.merkleKeysPulled.Add(1)
+	if _, replaced := sh.tombs[key]; !replaced {
+		dm.metrics.tombstonesActive.Add(1)
 	}
+
+	sh.tombs[strings.Clone(key)] = tombstone{version: version, origin: string(dm.localNode.ID), at: time.Now()}
+	dm.observeVersion(version)
 }
 
 // merkleEntries gathers key/version pairs from all shards.
@@ -1921,9 +1945,13 @@ func (dm *DistMemory) merkleEntries() []merkleKV {
 			entries = append(entries, merkleKV{k: k, v: it.Version})
 		}
 
+		shard.applyMu.Lock()
+
 		for k, ts := range shard.tombs { // include tombstones
 			entries = append(entries, merkleKV{k: k, v: ts.version})
 		}
+
+		shard.applyMu.Unlock()
 	}
 
 	return entries
@@ -1974,6 +2002,8 @@ func (dm *DistMemory) compactTombstones() int64 {
 			continue
 		}
 
+		sh.applyMu.Lock()
+
 		for k, ts := range sh.tombs {
 			if now.Sub(ts.at) >= dm.tombstoneTTL {
 				delete(sh.tombs, k)
@@ -1981,6 +2011,8 @@ func (dm *DistMemory) compactTombstones() int64 {
 				purged++
 			}
 		}
+
+		sh.applyMu.Unlock()
 	}
 
 	return purged
@@ -1995,7 +2027,11 @@ func (dm *DistMemory) countTombstones() int64 {
 			continue
 		}
 
+		sh.applyMu.Lock()
+
 		total += int64(len(sh.tombs))
+
+		sh.applyMu.Unlock()
 	}
 
 	return total
@@ -2374,7 +2410,7 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 	// replicate=false; the new primary's own rebalance/replica-diff
 	// scan re-fans-out to its replicas eventually.
 	migrationErr := transport.ForwardSet(ctx, string(owners[0]), item, true)
-	if migrationErr != nil {
+	if migrationErr != nil && !isSuperseded(migrationErr) {
 		dm.logger.Info(
 			"rebalance migration forward failed; queued for hint replay",
 			slog.String("key", item.Key),
@@ -2724,7 +2760,7 @@ func (dm *DistMemory) tryRemoteGet(ctx context.Context, key string, idx int, oid
 	if dm.ownsKeyInternal(key) {
 		if _, ok2 := dm.shardFor(key).items.Get(key); !ok2 {
 			cloned := *it
-			dm.applySet(ctx, &cloned, false)
+			_ = dm.applySet(ctx, &cloned, false)
 			dm.metrics.readRepair.Add(1)
 		}
 	}
@@ -2844,14 +2880,18 @@ func (dm *DistMemory) fetchOwner(ctx context.Context, key string, idx int, oid c
 	return it, true
 }
 
-// replicateTo sends writes to replicas (best-effort) returning ack count.
-func (dm *DistMemory) replicateTo(ctx context.Context, item *cache.Item, replicas []cluster.NodeID) int {
+// replicateTo sends writes to replicas (best-effort) returning ack count and
+// the highest version a replica refused the write for (0 if none did).
+func (dm *DistMemory) replicateTo(ctx context.Context, item *cache.Item, replicas []cluster.NodeID) (int, uint64) {
 	transport := dm.loadTransport()
 	if transport == nil {
-		return 0
+		return 0, 0
 	}
 
 	acks := 0
+
+	var newest uint64
+
 	for _, oid := range replicas {
 		if oid == dm.localNode.ID {
 			continue
@@ -2869,6 +2909,13 @@ func (dm *DistMemory) replicateTo(ctx context.Context, item *cache.Item, replica
 			continue
 		}
 
+		var older *supersededError
+		if errors.As(err, &older) { // reached, but holds something newer
+			newest = max(newest, older.version)
+
+			continue
+		}
+
 		// Queue a hint for ANY transport error — pre-Phase-B this was
 		// gated on ErrBackendNotFound only, so transient HTTP failures
 		// (timeout, 5xx, connection reset) silently dropped replicas.
@@ -2877,7 +2924,7 @@ func (dm *DistMemory) replicateTo(ctx context.Context, item *cache.Item, replica
 		dm.queueHint(string(oid), item, hintSourceReplication)
 	}
 
-	return acks
+	return acks, newest
 }
 
 // getWithConsistencyParallel performs parallel owner fan-out until quorum/all reached.
@@ -3140,7 +3187,7 @@ func (dm *DistMemory) processHint(ctx context.Context, nodeID string, entry hint
 	}
 
 	err := transport.ForwardSet(ctx, nodeID, entry.item, false)
-	if err == nil {
+	if err == nil || isSuperseded(err) { // delivered, or no longer needed
 		dm.metrics.hintedReplayed.Add(1)
 
 		if entry.source == hintSourceMigration {
@@ -3603,7 +3650,7 @@ func (dm *DistMemory) repairLocalReplica(ctx context.Context, key string, chosen
 	localIt, ok := dm.shardFor(key).items.Get(key)
 	if !ok || localIt.Version < chosen.Version || (localIt.Version == chosen.Version && localIt.Origin > chosen.Origin) {
 		cloned := *chosen
-		dm.applySet(ctx, &cloned, false)
+		_ = dm.applySet(ctx, &cloned, false)
 		dm.metrics.readRepair.Add(1)
 	}
 }
@@ -3861,12 +3908,6 @@ func (dm *DistMemory) setImpl(ctx context.Context, item *cache.Item, span trace.
 		promoted = true
 	}
 
-	// primary path: assign version & timestamp
-	item.Version = dm.versionCounter.Add(1)
-	item.Origin = string(dm.localNode.ID)
-	item.LastUpdated = time.Now()
-	dm.applySet(ctx, item, false)
-
 	// When we promoted, the original primary is unreachable but still
 	// a listed owner. Pass the full owners list (not owners[1:]) so
 	// replicateTo's existing failure-path queues a hint for the dead
@@ -3879,7 +3920,7 @@ func (dm *DistMemory) setImpl(ctx context.Context, item *cache.Item, span trace.
 		replicas = owners
 	}
 
-	acks := 1 + dm.replicateTo(ctx, item, replicas)
+	acks := dm.writeAsPrimary(ctx, item, replicas)
 	dm.metrics.writeAcks.Add(int64(acks))
 
 	span.SetAttributes(attribute.Int("dist.acks", acks))
@@ -3894,6 +3935,35 @@ func (dm *DistMemory) setImpl(ctx context.Context, item *cache.Item, span trace.
 	return nil
 }
 
+// writeAsPrimary versions item, stores it and replicates it, returning how many
+// owners hold it. An owner may hold a version this node never saw - written
+// before this node joined or restarted, or by a replica promoted meanwhile -
+// and then refuses the write; it is versioned past that and sent again.
+func (dm *DistMemory) writeAsPrimary(ctx context.Context, item *cache.Item, replicas []cluster.NodeID) int {
+	const maxAttempts = 3
+
+	acks := 0
+
+	for range maxAttempts {
+		item.Version = dm.versionCounter.Add(1)
+		item.Origin = string(dm.localNode.ID)
+		item.LastUpdated = time.Now()
+
+		_ = dm.applySet(ctx, item, false) // a newer concurrent write may supersede it
+
+		held, newest := dm.replicateTo(ctx, item, replicas)
+
+		acks = 1 + held
+		if newest < item.Version {
+			break
+		}
+
+		dm.observeVersion(newest)
+	}
+
+	return acks
+}
+
 // removeImpl is the business logic for Remove. Mirrors setImpl's
 // primary-routing semantics: only owners[0] runs applyRemove +
 // replica fan-out locally; everyone else (replicas, non-owners)
@@ -4478,14 +4548,16 @@ func (dm *DistMemory) setupOTelMetrics() {
 // re-fanned-back → stuck again" loop on a 5-node cluster, even
 // though MembershipVersion was stable (views were merely diverged,
 // not actively churning).
-func (dm *DistMemory) applyForwardedSet(ctx context.Context, item *cache.Item, replicate bool) {
+//
+// The error is a supersededError when this node holds something newer.
+func (dm *DistMemory) applyForwardedSet(ctx context.Context, item *cache.Item, replicate bool) error {
 	if dm.ring != nil && !dm.ownsKeyInternal(item.Key) {
 		dm.metrics.writeApplyRefused.Add(1)
 
-		return
+		return nil
 	}
 
-	dm.applySet(ctx, item, replicate)
+	return dm.applySet(ctx, item, replicate)
 }
 
 // applySet stores item locally and optionally replicates to other owners.
@@ -4496,7 +4568,7 @@ func (dm *DistMemory) applyForwardedSet(ctx context.Context, item *cache.Item, r
 // ownership guard fires; direct callers (primary write, migration,
 // merkle pull, read-repair) bypass the guard because they've already
 // verified ownership or explicitly want to plant regardless.
-func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate bool) {
+func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate bool) error {
 	sh := dm.shardFor(item.Key)
 
 	// Clone the key STRING data (not just the Item struct) before
@@ -4510,24 +4582,24 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 	// stored key from the caller's buffer lifetime. The Item.Key
 	// field also gets the cloned key so any downstream code that
 	// reads cloned.Key sees the stable value.
-	stableKey := strings.Clone(item.Key)
-
-	dm.recordOriginalPrimary(sh, stableKey)
-
 	cloned := *item
 
-	cloned.Key = stableKey
-	sh.items.Set(stableKey, &cloned)
+	cloned.Key = strings.Clone(item.Key)
+
+	_, err := dm.applyIfNewer(sh, &cloned)
+	if err != nil {
+		return err
+	}
 
 	if !replicate || dm.ring == nil {
-		return
+		return nil
 	}
 
 	owners := dm.ring.Lookup(item.Key)
 	transport := dm.loadTransport()
 
 	if len(owners) <= 1 || transport == nil {
-		return
+		return nil
 	}
 
 	dm.metrics.replicaFanoutSet.Add(int64(len(owners) - 1))
@@ -4539,6 +4611,62 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 
 		_ = dm.replicateSetWithSpan(ctx, transport, oid, item)
 	}
+
+	return nil
+}
+
+// supersededError is a node's answer to a write older than what it holds.
+type supersededError struct {
+	version uint64 // the version held
+}
+
+func (e *supersededError) Error() string {
+	return "superseded by version " + strconv.FormatUint(e.version, 10)
+}
+
+// isSuperseded reports whether err says that the peer holds something newer.
+func isSuperseded(err error) bool {
+	var older *supersededError
+
+	return errors.As(err, &older)
+}
+
+// applyIfNewer stores item unless this node already holds something at least as
+// new for its key: a higher version, the same version from a preferred origin
+// (see chooseNewer), or a tombstone of the same or a higher version. Writes
+// reach a node in any order - concurrent fan-outs, replayed hints, repairs,
+// anti-entropy - and must not undo newer ones. It reports whether it stored;
+// the error is a supersededError when something newer is held.
+func (dm *DistMemory) applyIfNewer(sh *distShard, item *cache.Item) (bool, error) {
+	dm.recordOriginalPrimary(sh, item.Key)
+
+	sh.applyMu.Lock()
+	defer sh.applyMu.Unlock()
+
+	dm.observeVersion(item.Version)
+
+	if cur, ok := sh.items.Get(item.Key); ok {
+		if cur.Version > item.Version || (cur.Version == item.Version && cur.Origin < item.Origin) {
+			return false, &supersededError{version: cur.Version}
+		}
+
+		if cur.Version == item.Version && cur.Origin == item.Origin && item.Version != 0 {
+			return false, nil // this very write, delivered again
+		}
+	}
+
+	if tomb, ok := sh.tombs[item.Key]; ok {
+		if tomb.version >= item.Version { // deleted later: do not resurrect
+			return false, &supersededError{version: tomb.version}
+		}
+
+		delete(sh.tombs, item.Key)
+		dm.metrics.tombstonesActive.Add(-1)
+	}
+
+	sh.items.Set(item.Key, item)
+
+	return true, nil
 }
 
 // replicateSetWithSpan opens a child span around a single replica
@@ -4609,23 +4737,30 @@ func (dm *DistMemory) recordOriginalPrimary(sh *distShard, key string) {
 // applyRemove deletes locally and optionally fan-outs removal to replicas.
 func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate bool) {
 	sh := dm.shardFor(key)
-	// capture version from existing item (if any) and increment for tombstone
+
+	sh.applyMu.Lock()
+
+	// The tombstone supersedes what is held here. Where the removal is
+	// coordinated it supersedes every version seen as well; a replica that
+	// holds nothing has nothing to supersede, and a higher version would make
+	// it refuse the primary's next write.
 	var nextVer uint64
 
 	if it, ok := sh.items.Get(key); ok && it != nil {
-		ci := it // already *cache.Item (ConcurrentMap stores *cache.Item)
+		nextVer = it.Version + 1
+	}
 
-		nextVer = ci.Version + 1
+	if replicate {
+		nextVer = max(nextVer, dm.versionCounter.Add(1))
 	}
 
-	if nextVer == 0 { // no prior item seen; allocate monotonic tomb version
-		nextVer = dm.tombVersionCounter.Add(1)
+	if tomb, ok := sh.tombs[key]; ok {
+		nextVer = max(nextVer, tomb.version)
 	}
 
 	sh.items.Remove(key)
-
-	sh.tombs[key] = tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()}
-	dm.metrics.tombstonesActive.Store(dm.countTombstones())
+	dm.buryLocked(sh, key, nextVer)
+	sh.applyMu.Unlock()
 
 	transport := dm.loadTransport()
 	if !replicate || dm.ring == nil || transport == nil {
diff --git a/pkg/backend/dist_transport.go b/pkg/backend/dist_transport.go
index 535267c..e6e9df2 100644
--- a/pkg/backend/dist_transport.go
+++ b/pkg/backend/dist_transport.go
@@ -151,9 +151,7 @@ func (t *InProcessTransport) ForwardSet(ctx context.Context, nodeID string, item
 	// Forwarded arrival: ownership guard fires if the receiver's
 	// ring view says this node isn't an owner of the key. Stops
 	// divergent-view senders from planting stuck keys.
-	b.applyForwardedSet(ctx, item, replicate)
-
-	return nil
+	return b.applyForwardedSet(ctx, item, replicate)
 }
 
 // ForwardGet forwards a get operation to the specified backend node.
-- 
2.43.0


From 7d17938c5334b42691e1667c40fbe65a0a573488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:24 +0000
Subject: [PATCH 20/67] fix: make the primary coordinate the writes forwarded
 to it

A write entering the cluster at a node other than its key's primary was stored
by the primary under the version the client sent (usually 0), replicated
without hints and acknowledged whatever the write consistency; a peer that no
longer owned the key dropped it and acknowledged it all the same. The primary
now versions and coordinates it like its own writes, and refuses what it does
not own.
---
 pkg/backend/dist_http_server.go    |  8 +++
 pkg/backend/dist_http_transport.go | 34 +++++++----
 pkg/backend/dist_memory.go         | 98 +++++++++++++++++++++---------
 3 files changed, 98 insertions(+), 42 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index d5f07a6..3b8683a 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -396,6 +396,14 @@ func (s *distHTTPServer) handleSet(fctx fiber.Ctx, dm *DistMemory) error {
 		return fctx.Status(fiber.StatusConflict).JSON(httpSetResponse{Error: older.Error(), Version: older.version})
 	}
 
+	if errors.Is(applyErr, sentinel.ErrNotOwner) {
+		return fctx.Status(fiber.StatusMisdirectedRequest).JSON(httpSetResponse{Error: applyErr.Error()})
+	}
+
+	if applyErr != nil {
+		return fctx.Status(fiber.StatusServiceUnavailable).JSON(httpSetResponse{Error: applyErr.Error()})
+	}
+
 	return fctx.JSON(httpSetResponse{})
 }
 
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index 62f12c9..6b0bf84 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -197,29 +197,39 @@ func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item
 		return sentinel.ErrBackendNotFound
 	}
 
-	if resp.StatusCode == http.StatusConflict {
-		var refusal httpSetResponse
-
-		derr := readAndUnmarshal(body, &refusal)
-		if derr != nil {
-			return derr
-		}
-
-		return &supersededError{version: refusal.Version}
-	}
-
 	if resp.StatusCode >= statusThreshold {
 		errBody, rerr := io.ReadAll(body)
 		if rerr != nil {
 			return ewrap.Wrap(rerr, "read error body")
 		}
 
-		return ewrap.Newf("forward set status %d body %s", resp.StatusCode, string(errBody))
+		return forwardSetError(resp.StatusCode, errBody)
 	}
 
 	return nil
 }
 
+// forwardSetError maps a peer's refusal of a write back to the error the peer
+// had, for the verdicts callers act on.
+func forwardSetError(status int, body []byte) error {
+	var refusal httpSetResponse
+
+	derr := json.Unmarshal(body, &refusal)
+	if derr == nil {
+		switch {
+		case status == http.StatusConflict:
+			return &supersededError{version: refusal.Version}
+		case status == http.StatusMisdirectedRequest:
+			return sentinel.ErrNotOwner
+		case status == http.StatusServiceUnavailable && refusal.Error == sentinel.ErrQuorumFailed.Error():
+			return sentinel.ErrQuorumFailed
+		default:
+		}
+	}
+
+	return ewrap.Newf("forward set status %d body %s", status, string(body))
+}
+
 // ForwardGet fetches a single item from a remote node.
 func (t *DistHTTPTransport) ForwardGet(ctx context.Context, nodeID, key string) (*cache.Item, bool, error) {
 	// prefer canonical endpoint
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 8930810..c846659 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1918,6 +1918,22 @@ func (dm *DistMemory) observeVersion(version uint64) {
 	}
 }
 
+// heldVersion returns the version this node holds for key, item or tombstone.
+func (dm *DistMemory) heldVersion(key string) uint64 {
+	sh := dm.shardFor(key)
+
+	sh.applyMu.Lock()
+	defer sh.applyMu.Unlock()
+
+	held := sh.tombs[key].version
+
+	if it, ok := sh.items.Get(key); ok {
+		held = max(held, it.Version)
+	}
+
+	return held
+}
+
 // buryLocked leaves a tombstone for key; call with sh.applyMu held.
 func (dm *DistMemory) buryLocked(sh *distShard, key string, version uint64) {
 	if sh.tombs == nil {
@@ -2911,7 +2927,11 @@ func (dm *DistMemory) replicateTo(ctx context.Context, item *cache.Item, replica
 
 		var older *supersededError
 		if errors.As(err, &older) { // reached, but holds something newer
-			newest = max(newest, older.version)
+			if older.version > item.Version && older.version <= dm.heldVersion(item.Key) {
+				acks++ // a later write coordinated here overtook this one
+			} else {
+				newest = max(newest, older.version)
+			}
 
 			continue
 		}
@@ -3713,9 +3733,15 @@ func (dm *DistMemory) handleForwardPrimary(ctx context.Context, owners []cluster
 
 	dm.metrics.forwardSet.Add(1)
 
-	errFwd := transport.ForwardSet(ctx, string(owners[0]), item, true)
-	if errFwd == nil {
-		return false, nil
+	// Forwarded without a version: the primary assigns one and coordinates
+	// the write (see applyForwardedSet).
+	unversioned := *item
+	unversioned.Version = 0
+	unversioned.Origin = ""
+
+	errFwd := transport.ForwardSet(ctx, string(owners[0]), &unversioned, true)
+	if errFwd == nil || errors.Is(errFwd, sentinel.ErrQuorumFailed) {
+		return false, errFwd // the primary's verdict
 	}
 
 	// Primary unreachable for any reason — try to promote to a replica
@@ -3893,8 +3919,6 @@ func (dm *DistMemory) setImpl(ctx context.Context, item *cache.Item, span trace.
 
 	span.SetAttributes(attribute.Int("dist.owners.count", len(owners)))
 
-	promoted := false
-
 	if owners[0] != dm.localNode.ID { // attempt forward; may promote
 		proceedAsPrimary, ferr := dm.handleForwardPrimary(ctx, owners, item)
 		if ferr != nil {
@@ -3904,42 +3928,40 @@ func (dm *DistMemory) setImpl(ctx context.Context, item *cache.Item, span trace.
 		if !proceedAsPrimary { // forwarded successfully; nothing else to do
 			return nil
 		}
-
-		promoted = true
 	}
 
-	// When we promoted, the original primary is unreachable but still
-	// a listed owner. Pass the full owners list (not owners[1:]) so
-	// replicateTo's existing failure-path queues a hint for the dead
-	// primary — its post-restart convergence is bounded by hint-replay
-	// (~200ms by default) rather than waiting for the next merkle tick.
-	// replicateTo already skips the local node, so adding owners[0]
-	// back in doesn't cause a self-forward.
-	replicas := owners[1:]
-	if promoted {
-		replicas = owners
-	}
+	acks, err := dm.coordinateWrite(ctx, item, owners)
+	span.SetAttributes(attribute.Int("dist.acks", acks))
 
-	acks := dm.writeAsPrimary(ctx, item, replicas)
-	dm.metrics.writeAcks.Add(int64(acks))
+	return err
+}
 
-	span.SetAttributes(attribute.Int("dist.acks", acks))
+// coordinateWrite stores item as its primary (or as a replica promoted in its
+// place), replicates it to the other owners and checks the write quorum.
+//
+// When we promoted, the original primary is unreachable but still a listed
+// owner: replicateTo's failure path queues a hint for it, so its post-restart
+// convergence is bounded by hint-replay (~200ms by default) rather than
+// waiting for the next merkle tick.
+func (dm *DistMemory) coordinateWrite(ctx context.Context, item *cache.Item, owners []cluster.NodeID) (int, error) {
+	acks := dm.writeAsPrimary(ctx, item, owners)
+	dm.metrics.writeAcks.Add(int64(acks))
 
 	needed := dm.requiredAcks(len(owners), dm.writeConsistency)
 	if acks < needed {
 		dm.metrics.writeQuorumFailures.Add(1)
 
-		return sentinel.ErrQuorumFailed
+		return acks, sentinel.ErrQuorumFailed
 	}
 
-	return nil
+	return acks, nil
 }
 
 // writeAsPrimary versions item, stores it and replicates it, returning how many
 // owners hold it. An owner may hold a version this node never saw - written
 // before this node joined or restarted, or by a replica promoted meanwhile -
 // and then refuses the write; it is versioned past that and sent again.
-func (dm *DistMemory) writeAsPrimary(ctx context.Context, item *cache.Item, replicas []cluster.NodeID) int {
+func (dm *DistMemory) writeAsPrimary(ctx context.Context, item *cache.Item, owners []cluster.NodeID) int {
 	const maxAttempts = 3
 
 	acks := 0
@@ -3951,7 +3973,7 @@ func (dm *DistMemory) writeAsPrimary(ctx context.Context, item *cache.Item, repl
 
 		_ = dm.applySet(ctx, item, false) // a newer concurrent write may supersede it
 
-		held, newest := dm.replicateTo(ctx, item, replicas)
+		held, newest := dm.replicateTo(ctx, item, owners)
 
 		acks = 1 + held
 		if newest < item.Version {
@@ -4534,10 +4556,15 @@ func (dm *DistMemory) setupOTelMetrics() {
 // paths (InProcessTransport.ForwardSet, HTTP /internal/set handler)
 // to apply a write that arrived from a peer. Unlike `applySet`, this
 // path enforces an ownership guard: if the local ring view says this
-// node is not an owner of the key, the write is silently dropped
-// (sender's transport call still returns nil — best-effort semantics
-// are already the contract on the hot path). Merkle anti-entropy is
-// the convergence safety net for any write refused here.
+// node is not an owner of the key, the write is dropped. A replica copy
+// is dropped silently (sender's transport call still returns nil —
+// best-effort semantics are already the contract on the hot path) and
+// Merkle anti-entropy is the convergence safety net for it; a write this
+// node was asked to coordinate is refused, since nobody else would store it.
+//
+// A write without a version is a client's, forwarded here to be coordinated:
+// it is versioned, replicated and held to the write quorum as if it had
+// arrived here in the first place.
 //
 // Why the guard belongs here and not in applySet itself: legitimate
 // internal callers (setImpl primary path, migrateIfNeeded forwarder,
@@ -4554,9 +4581,20 @@ func (dm *DistMemory) applyForwardedSet(ctx context.Context, item *cache.Item, r
 	if dm.ring != nil && !dm.ownsKeyInternal(item.Key) {
 		dm.metrics.writeApplyRefused.Add(1)
 
+		if replicate {
+			return sentinel.ErrNotOwner
+		}
+
 		return nil
 	}
 
+	if replicate && item.Version == 0 {
+		cloned := *item
+		_, err := dm.coordinateWrite(ctx, &cloned, dm.lookupOwners(item.Key))
+
+		return err
+	}
+
 	return dm.applySet(ctx, item, replicate)
 }
 
-- 
2.43.0


From 9f2d121ef3caa18204a9e9e0ced9da332b249ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:07 +0000
Subject: [PATCH 21/67] fix: anti-entropy must not take a peer's missing key
 for a removal

A node syncing with a peer that restarted empty, joined late or missed a write
deleted its own copy of every key the peer lacked and left tombstones for them.
Carry the tombstone's version with a miss and adopt that, and only if it is
newer; make copies that differ in origin alone, or in being a tombstone, show
up in the tree.
---
 pkg/backend/dist_http_server.go    | 10 ++++--
 pkg/backend/dist_http_transport.go | 21 ++++++++----
 pkg/backend/dist_http_types.go     |  3 ++
 pkg/backend/dist_memory.go         | 52 ++++++++++++++++++++++--------
 pkg/backend/dist_transport.go      | 10 +++---
 5 files changed, 70 insertions(+), 26 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index 3b8683a..42a73b7 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -428,11 +428,17 @@ func (*distHTTPServer) handleGet(fctx fiber.Ctx, dm *DistMemory) error {
 		return fctx.Status(fiber.StatusNotFound).JSON(fiber.Map{constants.ErrorLabel: "not owner"})
 	}
 
-	if it, ok := dm.shardFor(key).items.Get(key); ok {
+	it, found := dm.localCopy(key)
+	if found {
 		return fctx.JSON(httpGetResponse{Found: true, Item: it})
 	}
 
-	return fctx.JSON(httpGetResponse{Found: false})
+	resp := httpGetResponse{Found: false}
+	if it != nil {
+		resp.Tombstone = &it.Version
+	}
+
+	return fctx.JSON(resp)
 }
 
 func (s *distHTTPServer) registerGet(dm *DistMemory) {
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index 6b0bf84..becb996 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -261,11 +261,7 @@ func (t *DistHTTPTransport) ForwardGet(ctx context.Context, nodeID, key string)
 		return nil, false, derr
 	}
 
-	if !found {
-		return nil, false, nil
-	}
-
-	return item, true, nil
+	return item, found, nil
 }
 
 func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
@@ -286,7 +282,20 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 	}
 
 	if !found {
-		return nil, false, nil
+		var removed httpGetResponse
+
+		if tb, ok := raw["tombstone"]; ok {
+			err := json.Unmarshal(tb, &removed.Tombstone)
+			if err != nil {
+				return nil, false, ewrap.Wrap(err, "unmarshal tombstone")
+			}
+		}
+
+		if removed.Tombstone == nil {
+			return nil, false, nil
+		}
+
+		return &cache.Item{Version: *removed.Tombstone}, false, nil
 	}
 
 	if ib, ok := raw["item"]; ok && len(ib) > 0 {
diff --git a/pkg/backend/dist_http_types.go b/pkg/backend/dist_http_types.go
index ed7b799..1bdb181 100644
--- a/pkg/backend/dist_http_types.go
+++ b/pkg/backend/dist_http_types.go
@@ -23,4 +23,7 @@ type httpGetResponse struct {
 	Found bool        `json:"found"`
 	Item  *cache.Item `json:"item,omitempty"`
 	Error string      `json:"error,omitempty"`
+
+	// Tombstone is the version under which the key was removed, when it was.
+	Tombstone *uint64 `json:"tombstone,omitempty"`
 }
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index c846659..2f8f526 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -521,6 +521,7 @@ func (dm *DistMemory) BuildMerkleTree() *MerkleTree {
 			encodeUint64BigEndian(buf, e.v)
 
 			_, _ = hasher.Write(buf)
+			_, _ = hasher.Write([]byte(e.tag))
 		}
 
 		leaves = append(leaves, append([]byte(nil), hasher.Sum(nil)...))
@@ -533,8 +534,9 @@ func (dm *DistMemory) BuildMerkleTree() *MerkleTree {
 
 // merkleKV is an internal pair used during tree construction & sync.
 type merkleKV struct {
-	k string
-	v uint64
+	k   string
+	v   uint64
+	tag string // what else tells two copies apart: the item's origin, or that it is a tombstone
 }
 
 // DiffLeafRanges compares two trees and returns indexes of differing leaf chunks.
@@ -1877,8 +1879,13 @@ func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 
 	sh := dm.shardFor(key)
 
-	if !ok { // remote missing key (could be delete) -> adopt tombstone locally if we still have it
-		dm.adoptRemoval(sh, key)
+	if !ok {
+		// A tombstone travels as a version without a value. A peer that
+		// merely lacks the key - it restarted, joined later or missed the
+		// write - has nothing to say about ours.
+		if it != nil {
+			dm.adoptRemoval(sh, key, it.Version)
+		}
 
 		return
 	}
@@ -1888,23 +1895,42 @@ func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 	}
 }
 
-// adoptRemoval drops the local copy of a key a peer no longer holds and leaves
-// a tombstone superseding it.
-func (dm *DistMemory) adoptRemoval(sh *distShard, key string) {
+// adoptRemoval buries key under a peer's tombstone of the given version, unless
+// something newer is held.
+func (dm *DistMemory) adoptRemoval(sh *distShard, key string, version uint64) {
 	sh.applyMu.Lock()
 	defer sh.applyMu.Unlock()
 
-	if _, hasTomb := sh.tombs[key]; hasTomb { // already have tombstone
+	if tomb, hasTomb := sh.tombs[key]; hasTomb && tomb.version >= version {
 		return
 	}
 
-	cur, okLocal := sh.items.Get(key)
-	if !okLocal {
+	if cur, okLocal := sh.items.Get(key); okLocal && cur.Version > version {
 		return
 	}
 
 	sh.items.Remove(key)
-	dm.buryLocked(sh, key, cur.Version+1)
+	dm.buryLocked(sh, key, version)
+}
+
+// localCopy returns what this node holds for key, in the form ForwardGet
+// delivers it: the item and true, or false with either nil or, for a removed
+// key, an item carrying only the tombstone's version.
+func (dm *DistMemory) localCopy(key string) (*cache.Item, bool) {
+	sh := dm.shardFor(key)
+
+	sh.applyMu.Lock()
+	defer sh.applyMu.Unlock()
+
+	if it, ok := sh.items.GetCopy(key); ok {
+		return it, true
+	}
+
+	if tomb, ok := sh.tombs[key]; ok {
+		return &cache.Item{Key: key, Version: tomb.version, Origin: tomb.origin}, false
+	}
+
+	return nil, false
 }
 
 // observeVersion advances the local version counter past a version seen
@@ -1958,13 +1984,13 @@ func (dm *DistMemory) merkleEntries() []merkleKV {
 		}
 
 		for k, it := range shard.items.All() {
-			entries = append(entries, merkleKV{k: k, v: it.Version})
+			entries = append(entries, merkleKV{k: k, v: it.Version, tag: it.Origin})
 		}
 
 		shard.applyMu.Lock()
 
 		for k, ts := range shard.tombs { // include tombstones
-			entries = append(entries, merkleKV{k: k, v: ts.version})
+			entries = append(entries, merkleKV{k: k, v: ts.version, tag: "\x00removed"})
 		}
 
 		shard.applyMu.Unlock()
diff --git a/pkg/backend/dist_transport.go b/pkg/backend/dist_transport.go
index e6e9df2..1b3ddd0 100644
--- a/pkg/backend/dist_transport.go
+++ b/pkg/backend/dist_transport.go
@@ -13,6 +13,9 @@ import (
 // DistTransport defines forwarding operations needed by DistMemory.
 type DistTransport interface {
 	ForwardSet(ctx context.Context, nodeID string, item *cache.Item, replicate bool) error
+	// ForwardGet returns the node's copy of key. When it holds none the bool
+	// is false; the item is then nil, or carries just the version of the
+	// tombstone the node keeps for the removed key.
 	ForwardGet(ctx context.Context, nodeID, key string) (*cache.Item, bool, error)
 	ForwardRemove(ctx context.Context, nodeID, key string, replicate bool) error
 	Health(ctx context.Context, nodeID string) error
@@ -161,12 +164,9 @@ func (t *InProcessTransport) ForwardGet(_ context.Context, nodeID, key string) (
 		return nil, false, sentinel.ErrBackendNotFound
 	}
 
-	it, ok2 := b.shardFor(key).items.GetCopy(key)
-	if !ok2 {
-		return nil, false, nil
-	}
+	it, ok2 := b.localCopy(key)
 
-	return it, true, nil
+	return it, ok2, nil
 }
 
 // ForwardRemove forwards a remove operation.
-- 
2.43.0


From 2bcd742bbbc38220df2452bbda9427f85527e3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:35 +0000
Subject: [PATCH 22/67] fix: find the keys only a peer holds over any transport

Anti-entropy enumerated remote-only keys by type-asserting the transport, so
with the chaos wrapper (or any other DistTransport) a node never pulled a key
it lacked; over HTTP the key cap applied before filtering, so past it no
missing key was ever found, and the in-process path read the peer registry
unlocked.
---
 pkg/backend/dist_memory.go | 75 ++++++++++----------------------------
 1 file changed, 20 insertions(+), 55 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 2f8f526..5560c15 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1745,42 +1745,38 @@ func (dm *DistMemory) sortedMerkleEntries() []merkleKV {
 	return entries
 }
 
-// resolveMissingKeys enumerates remote-only keys using in-process or HTTP listing.
+// resolveMissingKeys enumerates the keys only the remote node holds.
 func (dm *DistMemory) resolveMissingKeys(ctx context.Context, nodeID string, entries []merkleKV) map[string]struct{} {
-	missing := dm.enumerateRemoteOnlyKeys(nodeID, entries)
-	if len(missing) != 0 {
-		return missing
-	}
-
-	httpT, ok := dm.loadTransport().(*DistHTTPTransport)
-	if !ok {
-		return missing
+	transport := dm.loadTransport()
+	if transport == nil {
+		return nil
 	}
 
-	keys, kerr := httpT.ListKeys(ctx, nodeID, "")
+	keys, kerr := transport.ListKeys(ctx, nodeID, "")
 	if kerr != nil || len(keys) == 0 {
-		return missing
+		return nil
 	}
 
-	if dm.listKeysMax > 0 && len(keys) > dm.listKeysMax { // cap enforcement
-		keys = keys[:dm.listKeysMax]
+	local := make(map[string]struct{}, len(entries))
+	for _, e := range entries {
+		local[e.k] = struct{}{}
 	}
 
-	mset := make(map[string]struct{}, len(keys))
-	for _, k := range keys { // populate
-		mset[k] = struct{}{}
-	}
+	missing := make(map[string]struct{})
 
-	for _, e := range entries { // remove existing
-		delete(mset, e.k)
-	}
+	for _, k := range keys {
+		if _, held := local[k]; held {
+			continue
+		}
 
-	// track number of remote-only keys discovered via fallback
-	if len(mset) > 0 {
-		dm.metrics.merkleKeysPulled.Add(int64(len(mset)))
+		if dm.listKeysMax > 0 && len(missing) >= dm.listKeysMax { // cap enforcement; the rest follows in later rounds
+			break
+		}
+
+		missing[k] = struct{}{}
 	}
 
-	return mset
+	return missing
 }
 
 // applyMerkleDiffs fetches and adopts keys for differing Merkle chunks.
@@ -1834,37 +1830,6 @@ func (dm *DistMemory) storeTransport(t DistTransport) {
 	dm.transport.Store(&distTransportSlot{t: t})
 }
 
-// enumerateRemoteOnlyKeys returns keys present only on the remote side (best-effort, in-process only).
-func (dm *DistMemory) enumerateRemoteOnlyKeys(nodeID string, local []merkleKV) map[string]struct{} {
-	missing := make(map[string]struct{})
-
-	ip, ok := dm.loadTransport().(*InProcessTransport)
-	if !ok {
-		return missing
-	}
-
-	remote, ok := ip.backends[nodeID]
-	if !ok {
-		return missing
-	}
-
-	for _, shard := range remote.shards {
-		if shard == nil {
-			continue
-		}
-
-		for k := range shard.items.All() {
-			missing[k] = struct{}{}
-		}
-	}
-
-	for _, e := range local { // remove any that we already have
-		delete(missing, e.k)
-	}
-
-	return missing
-}
-
 // fetchAndAdopt pulls a key from a remote node and adopts it if it's newer or absent locally.
 func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 	transport := dm.loadTransport()
-- 
2.43.0


From 2bab896f7390b9db84e5aeebb6b20cf80d1c2bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:43 +0000
Subject: [PATCH 23/67] fix: tell the primary about a removal a promoted
 replica coordinated

---
 pkg/backend/dist_memory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 5560c15..67daef7 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -4803,7 +4803,7 @@ func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate boo
 
 	dm.metrics.replicaFanoutRemove.Add(int64(len(owners) - 1))
 
-	for _, oid := range owners[1:] {
+	for _, oid := range owners { // a promoted replica tells the primary, too
 		if oid == dm.localNode.ID {
 			continue
 		}
-- 
2.43.0


From 80d73800aa414fe04ff54091edc2633a1c72c736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:17 +0000
Subject: [PATCH 24/67] fix: keep the hint accounting right when a cap refuses
 the hint

With the per-node queue full and a global cap refusing the new hint, the oldest
hint was taken off the counters but stayed in the queue, and the caps let in
more and more.
---
 pkg/backend/dist_memory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 67daef7..56c6130 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3026,6 +3026,7 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 		dropped := queue[0]
 
 		queue = queue[1:]
+		dm.hints[nodeID] = queue
 
 		dm.adjustHintAccounting(-1, -dropped.size)
 	}
-- 
2.43.0


From bc5fc7c67b1f0e4690f5aea07bcd30301868159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:17 +0000
Subject: [PATCH 25/67] fix: deliver hints without holding the lock writes
 queue them under

A peer slow to answer a replayed hint blocked every write that had a hint to
queue, for any peer.
---
 pkg/backend/dist_memory.go | 49 ++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 56c6130..b6d255f 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3153,32 +3153,51 @@ func (dm *DistMemory) replayHints(ctx context.Context) { // reduced cognitive co
 
 	dm.hintsMu.Lock()
 
+	pending := make(map[string][]hintedEntry, len(dm.hints))
 	for nodeID, queue := range dm.hints {
-		out := queue[:0]
+		pending[nodeID] = slices.Clone(queue)
+	}
+
+	dm.hintsMu.Unlock()
+
+	// Deliver without the lock: writes queue hints under it, and must not wait
+	// for a peer that is slow to answer.
+	for nodeID, queue := range pending {
+		done := make(map[*cache.Item]struct{}, len(queue))
 
 		for _, hintEntry := range queue { // renamed for clarity
-			action := dm.processHint(ctx, nodeID, hintEntry, now)
-			//nolint:revive // identical-switch-branches rule disabled for clarity
-			switch action { // 0 keep, 1 remove
-			case 0:
-				out = append(out, hintEntry)
-			case 1:
-				dm.adjustHintAccounting(-1, -hintEntry.size)
-
-			default: // defensive future-proofing
-				out = append(out, hintEntry)
+			if dm.processHint(ctx, nodeID, hintEntry, now) != 0 {
+				done[hintEntry.item] = struct{}{}
 			}
 		}
 
-		if len(out) == 0 {
-			delete(dm.hints, nodeID)
+		dm.dequeueHints(nodeID, done)
+	}
+}
+
+// dequeueHints removes the hints whose items are in done from a node's queue.
+func (dm *DistMemory) dequeueHints(nodeID string, done map[*cache.Item]struct{}) {
+	dm.hintsMu.Lock()
+	defer dm.hintsMu.Unlock()
+
+	queue := dm.hints[nodeID]
+	out := make([]hintedEntry, 0, len(queue))
+
+	for _, hintEntry := range queue {
+		if _, ok := done[hintEntry.item]; ok {
+			dm.adjustHintAccounting(-1, -hintEntry.size)
 		} else {
-			dm.hints[nodeID] = out
+			out = append(out, hintEntry)
 		}
 	}
 
+	if len(out) == 0 {
+		delete(dm.hints, nodeID)
+	} else {
+		dm.hints[nodeID] = out
+	}
+
 	dm.metrics.hintedBytes.Store(dm.hintBytes)
-	dm.hintsMu.Unlock()
 }
 
 // processHint returns 0=keep,1=remove.
-- 
2.43.0


From 96cefd447c5cc169ceab7d13a69e9398d6366203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:54 +0000
Subject: [PATCH 26/67] fix: rebalancing must not drop or skip a key it failed
 to hand over

A key whose forward to its new primary failed was released all the same (with
hints off, overflowing or expired, its last copy), and a replica whose copy
could not be sent, or fell past the per-tick limit, counted as having it. Keep
the key and retry on the next tick; note who really was primary, and forget
owners that left.
---
 pkg/backend/dist_memory.go | 94 ++++++++++++++++++++++++++++++++------
 1 file changed, 79 insertions(+), 15 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index b6d255f..246da18 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2227,22 +2227,41 @@ func (dm *DistMemory) replDiffShard(ctx context.Context, sh *distShard, processe
 			continue
 		}
 
+		dm.notePrimary(sh, it.Key)
+
 		if !dm.ensureOwnerBaseline(sh, it.Key, owners) {
 			continue
 		} // baseline created
 
 		newRepls := dm.computeNewReplicas(sh, it.Key, owners)
-		if len(newRepls) == 0 {
-			continue
-		}
 
-		processed = dm.sendReplicaDiff(ctx, it, newRepls, processed, limit)
-		dm.setOwnerBaseline(sh, it.Key, owners)
+		var unsent []cluster.NodeID
+
+		processed, unsent = dm.sendReplicaDiff(ctx, it, newRepls, processed, limit)
+
+		// What could not be sent is left out, for the next tick to see it as new
+		// again; so is an owner that left, in case it comes back without the key.
+		dm.setOwnerBaseline(sh, it.Key, slices.DeleteFunc(slices.Clone(owners), func(id cluster.NodeID) bool {
+			return slices.Contains(unsent, id)
+		}))
 	}
 
 	return processed
 }
 
+// notePrimary records that this node is now the primary of key, whoever was
+// when the key arrived, so that it hands the key over when it ceases to be.
+func (dm *DistMemory) notePrimary(sh *distShard, key string) {
+	if sh.originalPrimary == nil {
+		return
+	}
+
+	sh.originalPrimaryMu.Lock()
+
+	sh.originalPrimary[key] = dm.localNode.ID
+	sh.originalPrimaryMu.Unlock()
+}
+
 func (*DistMemory) ensureOwnerBaseline(sh *distShard, key string, owners []cluster.NodeID) bool { // returns existed
 	sh.originalOwnersMu.RLock()
 
@@ -2289,23 +2308,30 @@ func (*DistMemory) computeNewReplicas(sh *distShard, key string, owners []cluste
 	return out
 }
 
+// sendReplicaDiff sends item to repls, returning how many sends the tick has
+// used up and the repls still without it.
 func (dm *DistMemory) sendReplicaDiff(
 	ctx context.Context,
 	it *cache.Item,
 	repls []cluster.NodeID,
 	processed, limit int,
-) int {
+) (int, []cluster.NodeID) {
 	transport := dm.loadTransport()
 	if transport == nil {
-		return processed
+		return processed, repls
 	}
 
-	for _, rid := range repls {
+	var unsent []cluster.NodeID
+
+	for i, rid := range repls {
 		if rid == dm.localNode.ID {
 			continue
 		}
 
-		_ = transport.ForwardSet(ctx, string(rid), it, false)
+		err := transport.ForwardSet(ctx, string(rid), it, false)
+		if err != nil && !isSuperseded(err) {
+			unsent = append(unsent, rid)
+		}
 
 		dm.metrics.replicaFanoutSet.Add(1)
 		dm.metrics.rebalancedKeys.Add(1)
@@ -2315,11 +2341,11 @@ func (dm *DistMemory) sendReplicaDiff(
 		if limit > 0 && processed >= limit {
 			dm.metrics.rebalanceReplicaDiffThrottle.Add(1)
 
-			return processed
+			return processed, append(unsent, repls[i+1:]...)
 		}
 	}
 
-	return processed
+	return processed, unsent
 }
 
 func (*DistMemory) setOwnerBaseline(sh *distShard, key string, owners []cluster.NodeID) {
@@ -2417,27 +2443,42 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 	// replicate=false; the new primary's own rebalance/replica-diff
 	// scan re-fans-out to its replicas eventually.
 	migrationErr := transport.ForwardSet(ctx, string(owners[0]), item, true)
-	if migrationErr != nil && !isSuperseded(migrationErr) {
+
+	failed := migrationErr != nil && !isSuperseded(migrationErr)
+	if failed {
 		dm.logger.Info(
 			"rebalance migration forward failed; queued for hint replay",
 			slog.String("key", item.Key),
 			slog.String("new_primary", string(owners[0])),
 			slog.Any("err", migrationErr),
 		)
-
-		dm.queueHint(string(owners[0]), item, hintSourceMigration)
 	}
 
 	// Update originalPrimary so a future primary-shift comparison
 	// (the second branch of shouldRebalance) sees the new owner.
 	sh := dm.shardFor(item.Key)
+	hinted := false
+
 	if sh.originalPrimary != nil {
 		sh.originalPrimaryMu.Lock()
 
+		hinted = sh.originalPrimary[item.Key] == owners[0] // by a previous tick
 		sh.originalPrimary[item.Key] = owners[0]
 		sh.originalPrimaryMu.Unlock()
 	}
 
+	if failed {
+		if !hinted {
+			dm.queueHint(string(owners[0]), item, hintSourceMigration)
+		}
+
+		// This may be the last copy, and hints expire, overflow or are off:
+		// keep it until a later tick gets it across.
+		dm.cancelRemoval(sh, item.Key)
+
+		return
+	}
+
 	// If this node is no longer an owner of the key (the migration
 	// was driven by the "lost ownership" branch of shouldRebalance,
 	// not just a primary shift among owners), the local copy MUST
@@ -2460,11 +2501,34 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 
 			sh.removedAtMu.Unlock()
 		} else {
-			sh.items.Remove(item.Key)
+			dm.dropMigrated(sh, item)
 		}
 	}
 }
 
+// cancelRemoval forgets that key is waiting for its removal grace period to
+// elapse; the next rebalance tick starts it anew.
+func (*DistMemory) cancelRemoval(sh *distShard, key string) {
+	if sh.removedAt == nil {
+		return
+	}
+
+	sh.removedAtMu.Lock()
+	delete(sh.removedAt, key)
+	sh.removedAtMu.Unlock()
+}
+
+// dropMigrated releases the local copy of a migrated item, unless a newer one
+// arrived meanwhile.
+func (*DistMemory) dropMigrated(sh *distShard, item *cache.Item) {
+	sh.applyMu.Lock()
+	defer sh.applyMu.Unlock()
+
+	if cur, ok := sh.items.Get(item.Key); ok && cur.Version <= item.Version {
+		sh.items.Remove(item.Key)
+	}
+}
+
 // shedRemovedKeys deletes keys for which this node is no longer an owner after grace period.
 // Best-effort: we iterate shards, check removal timestamps, and remove local copy if grace elapsed.
 func (dm *DistMemory) shedRemovedKeys() {
-- 
2.43.0


From aa3064af01777f6b0fe716609b6c4c3b1f803e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:33 +0000
Subject: [PATCH 27/67] fix: a read finishing during Stop must not find the
 repair queue gone

---
 pkg/backend/dist_memory.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 246da18..f050082 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1484,9 +1484,7 @@ func (dm *DistMemory) Stop(ctx context.Context) error {
 		// dispatches in-flight repairs rather than dropping them.
 		// stop() blocks until the flusher goroutine emits its final
 		// flushAll and exits.
-		dm.repairQueue.stop()
-
-		dm.repairQueue = nil
+		dm.repairQueue.stop() // kept: reads under way may still queue repairs
 	}
 
 	// Unregister the OTel metric callback before tearing down the HTTP
-- 
2.43.0


From e7fe3c517c8ba4746fa11f40b6d50e8ae8e9d8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:56 +0000
Subject: [PATCH 28/67] fix: serve a ConsistencyOne read from the local copy
 only as an owner

A node that no longer owns a key, or pulled it by anti-entropy without ever
owning it, kept answering reads with a copy no write or removal reaches.
---
 pkg/backend/dist_memory.go | 41 ++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index f050082..040ca2f 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2769,17 +2769,29 @@ func (*DistMemory) requiredAcks(total int, lvl ConsistencyLevel) int {
 
 // getOne fetches from a single owner path.
 func (dm *DistMemory) getOne(ctx context.Context, key string, owners []cluster.NodeID) (*cache.Item, bool) {
+	answered := false
+
 	for idx, oid := range owners { // iterate owners until hit
 		if it, ok := dm.tryLocalGet(key, idx, oid); ok {
 			return it, true
 		}
 
-		if it, ok := dm.tryRemoteGet(ctx, key, idx, oid); ok {
+		it, ok, err := dm.tryRemoteGet(ctx, key, idx, oid)
+		if ok {
 			return it, true
 		}
+
+		if err == nil || oid == dm.localNode.ID {
+			answered = true
+		}
 	}
 
-	return nil, false
+	if answered {
+		return nil, false
+	}
+
+	// No owner can say: a copy this node happens to hold is better than none.
+	return dm.shardFor(key).items.GetCopy(key)
 }
 
 // tryLocalGet attempts local shard lookup when oid is local; returns item if found.
@@ -2800,10 +2812,11 @@ func (dm *DistMemory) tryLocalGet(key string, idx int, oid cluster.NodeID) (*cac
 }
 
 // tryRemoteGet attempts remote fetch for given owner; includes promotion + repair.
-func (dm *DistMemory) tryRemoteGet(ctx context.Context, key string, idx int, oid cluster.NodeID) (*cache.Item, bool) {
+// The error says that the owner did not answer.
+func (dm *DistMemory) tryRemoteGet(ctx context.Context, key string, idx int, oid cluster.NodeID) (*cache.Item, bool, error) {
 	transport := dm.loadTransport()
 	if oid == dm.localNode.ID || transport == nil { // skip local path or missing transport
-		return nil, false
+		return nil, false, errNoTransport
 	}
 
 	dm.metrics.forwardGet.Add(1)
@@ -2814,11 +2827,11 @@ func (dm *DistMemory) tryRemoteGet(ctx context.Context, key string, idx int, oid
 			dm.metrics.readPrimaryPromote.Add(1)
 		}
 
-		return nil, false
+		return nil, false, err
 	}
 
 	if !ok { // miss
-		return nil, false
+		return nil, false, err
 	}
 
 	if idx > 0 { // promotion occurred
@@ -2834,7 +2847,7 @@ func (dm *DistMemory) tryRemoteGet(ctx context.Context, key string, idx int, oid
 		}
 	}
 
-	return it, true
+	return it, true, nil
 }
 
 // getWithConsistency performs quorum/all reads.
@@ -3953,17 +3966,19 @@ func (dm *DistMemory) ownsKeyInternal(key string) bool {
 // wrapper to a literal `defer span.End()`, avoids named returns, and
 // still lets the wrapper set `cache.hit` after the impl returns.
 func (dm *DistMemory) getImpl(ctx context.Context, key string) (*cache.Item, bool) {
-	if dm.readConsistency == ConsistencyOne { // fast local path
-		if it, ok := dm.shardFor(key).items.GetCopy(key); ok {
-			return it, true
-		}
-	}
-
 	owners := dm.lookupOwners(key)
 	if len(owners) == 0 {
 		return nil, false
 	}
 
+	// Fast local path, for owners only: a copy left from before a rebalance or
+	// pulled by anti-entropy is not told about later writes.
+	if dm.readConsistency == ConsistencyOne && slices.Contains(owners, dm.localNode.ID) {
+		if it, ok := dm.shardFor(key).items.GetCopy(key); ok {
+			return it, true
+		}
+	}
+
 	if dm.readConsistency == ConsistencyOne {
 		return dm.getOne(ctx, key, owners)
 	}
-- 
2.43.0


From 7d983abb501210531cfd3234c12e3e561aa1068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:12 +0000
Subject: [PATCH 29/67] fix: have a refused write versioned anew until every
 owner reached takes it

Counting an owner that holds something newer as holding the write is only right
if that newer version is a concurrent write's.
---
 pkg/backend/dist_memory.go | 42 ++++++++++++++------------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 040ca2f..c315412 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1907,22 +1907,6 @@ func (dm *DistMemory) observeVersion(version uint64) {
 	}
 }
 
-// heldVersion returns the version this node holds for key, item or tombstone.
-func (dm *DistMemory) heldVersion(key string) uint64 {
-	sh := dm.shardFor(key)
-
-	sh.applyMu.Lock()
-	defer sh.applyMu.Unlock()
-
-	held := sh.tombs[key].version
-
-	if it, ok := sh.items.Get(key); ok {
-		held = max(held, it.Version)
-	}
-
-	return held
-}
-
 // buryLocked leaves a tombstone for key; call with sh.applyMu held.
 func (dm *DistMemory) buryLocked(sh *distShard, key string, version uint64) {
 	if sh.tombs == nil {
@@ -2993,11 +2977,7 @@ func (dm *DistMemory) replicateTo(ctx context.Context, item *cache.Item, replica
 
 		var older *supersededError
 		if errors.As(err, &older) { // reached, but holds something newer
-			if older.version > item.Version && older.version <= dm.heldVersion(item.Key) {
-				acks++ // a later write coordinated here overtook this one
-			} else {
-				newest = max(newest, older.version)
-			}
+			newest = max(newest, older.version)
 
 			continue
 		}
@@ -4046,11 +4026,12 @@ func (dm *DistMemory) coordinateWrite(ctx context.Context, item *cache.Item, own
 }
 
 // writeAsPrimary versions item, stores it and replicates it, returning how many
-// owners hold it. An owner may hold a version this node never saw - written
-// before this node joined or restarted, or by a replica promoted meanwhile -
-// and then refuses the write; it is versioned past that and sent again.
+// owners took it. An owner may hold a version this node did not know of - a
+// concurrent write's that overtook this one, or one from before this node
+// joined or restarted, or from a replica promoted meanwhile - and then refuses
+// the write; it is versioned past that and sent again.
 func (dm *DistMemory) writeAsPrimary(ctx context.Context, item *cache.Item, owners []cluster.NodeID) int {
-	const maxAttempts = 3
+	const maxAttempts = 10
 
 	acks := 0
 
@@ -4059,11 +4040,18 @@ func (dm *DistMemory) writeAsPrimary(ctx context.Context, item *cache.Item, owne
 		item.Origin = string(dm.localNode.ID)
 		item.LastUpdated = time.Now()
 
-		_ = dm.applySet(ctx, item, false) // a newer concurrent write may supersede it
+		errLocal := dm.applySet(ctx, item, false)
 
 		held, newest := dm.replicateTo(ctx, item, owners)
+		acks = held
+
+		var older *supersededError
+		if errors.As(errLocal, &older) {
+			newest = max(newest, older.version)
+		} else {
+			acks++
+		}
 
-		acks = 1 + held
 		if newest < item.Version {
 			break
 		}
-- 
2.43.0


From 5d6c9f343faf4297af9ab25618cc62d565d8e119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 30/67] fix: count an owner answering that it lacks the key
 towards the read quorum

A quorum read needed that many owners holding the key: with one replica behind
and another down, a value acknowledged by a write quorum read as absent though
a read quorum had answered.
---
 pkg/backend/dist_memory.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index c315412..bdbd56a 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2864,15 +2864,15 @@ func (dm *DistMemory) collectQuorum(
 ) []cluster.NodeID {
 	stale := make([]cluster.NodeID, 0, len(owners))
 	for idx, oid := range owners {
-		it, ok := dm.fetchOwner(ctx, key, idx, oid)
-		if !ok {
+		it, answered := dm.fetchOwner(ctx, key, idx, oid)
+		if !answered {
 			continue
 		}
 
 		prev := *chosen
 
 		*chosen = dm.chooseNewer(*chosen, it)
-		*acks++
+		*acks++ // an owner without the key answered, too
 
 		if prev != nil && *chosen != prev {
 			stale = append(stale, oid)
@@ -2911,14 +2911,16 @@ func (dm *DistMemory) repairStaleOwners(
 	}
 }
 
-// fetchOwner attempts to fetch item from given owner (local or remote) updating metrics.
+// fetchOwner attempts to fetch item from given owner (local or remote) updating
+// metrics. It reports whether the owner answered; the item is nil if the owner
+// answered that it does not hold the key.
 func (dm *DistMemory) fetchOwner(ctx context.Context, key string, idx int, oid cluster.NodeID) (*cache.Item, bool) {
 	if oid == dm.localNode.ID { // local
 		if it, ok := dm.shardFor(key).items.GetCopy(key); ok {
 			return it, true
 		}
 
-		return nil, false
+		return nil, true
 	}
 
 	transport := dm.loadTransport()
@@ -2935,10 +2937,14 @@ func (dm *DistMemory) fetchOwner(ctx context.Context, key string, idx int, oid c
 		return nil, false
 	}
 
-	if !ok {
+	if err != nil {
 		return nil, false
 	}
 
+	if !ok {
+		return nil, true
+	}
+
 	if idx > 0 { // earlier owner skipped
 		dm.metrics.readPrimaryPromote.Add(1)
 	}
-- 
2.43.0


From 70b28905772fbf3658cc31f5fd1c820bc1eaee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:26 +0000
Subject: [PATCH 31/67] fix: a forwarded write reaching its primary late must
 not replace a newer one

The node forwarding a write now versions it, so that the primary (or a replica)
can tell a duplicated or delayed forward from a new write; it is versioned
past whatever an owner holds that is newer, as before.
---
 pkg/backend/dist_memory.go | 178 ++++++++++++++++++++-----------------
 1 file changed, 94 insertions(+), 84 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index bdbd56a..8acac7a 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2426,7 +2426,8 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 	// scan re-fans-out to its replicas eventually.
 	migrationErr := transport.ForwardSet(ctx, string(owners[0]), item, true)
 
-	failed := migrationErr != nil && !isSuperseded(migrationErr)
+	// The primary has the item if only its replicas fall short of a quorum.
+	failed := migrationErr != nil && !isSuperseded(migrationErr) && !errors.Is(migrationErr, sentinel.ErrQuorumFailed)
 	if failed {
 		dm.logger.Info(
 			"rebalance migration forward failed; queued for hint replay",
@@ -2826,7 +2827,7 @@ func (dm *DistMemory) tryRemoteGet(ctx context.Context, key string, idx int, oid
 	if dm.ownsKeyInternal(key) {
 		if _, ok2 := dm.shardFor(key).items.Get(key); !ok2 {
 			cloned := *it
-			_ = dm.applySet(ctx, &cloned, false)
+			_ = dm.applySet(&cloned)
 			dm.metrics.readRepair.Add(1)
 		}
 	}
@@ -2971,7 +2972,7 @@ func (dm *DistMemory) replicateTo(ctx context.Context, item *cache.Item, replica
 
 		// Reuse the per-peer child-span helper so the primary-path
 		// fan-out emits the same `dist.replicate.set` spans that
-		// applySet's incoming-replica fan-out emits — operators see a
+		// a forwarded write's fan-out emits — operators see a
 		// uniform trace tree regardless of which path drove the
 		// replication.
 		err := dm.replicateSetWithSpan(ctx, transport, oid, item)
@@ -3738,11 +3739,11 @@ func (dm *DistMemory) repairReplicas(ctx context.Context, key string, chosen *ca
 }
 
 // repairLocalReplica updates the local item if stale.
-func (dm *DistMemory) repairLocalReplica(ctx context.Context, key string, chosen *cache.Item) { // separated to reduce cyclomatic complexity
+func (dm *DistMemory) repairLocalReplica(_ context.Context, key string, chosen *cache.Item) { // separated to reduce cyclomatic complexity
 	localIt, ok := dm.shardFor(key).items.Get(key)
 	if !ok || localIt.Version < chosen.Version || (localIt.Version == chosen.Version && localIt.Origin > chosen.Origin) {
 		cloned := *chosen
-		_ = dm.applySet(ctx, &cloned, false)
+		_ = dm.applySet(&cloned)
 		dm.metrics.readRepair.Add(1)
 	}
 }
@@ -3805,14 +3806,24 @@ func (dm *DistMemory) handleForwardPrimary(ctx context.Context, owners []cluster
 
 	dm.metrics.forwardSet.Add(1)
 
-	// Forwarded without a version: the primary assigns one and coordinates
-	// the write (see applyForwardedSet).
-	unversioned := *item
-	unversioned.Version = 0
-	unversioned.Origin = ""
+	// Versioned here, so that the forward reaching the primary late, after we
+	// gave up on it and promoted ourselves, is recognizably older.
+	var errFwd error
 
-	errFwd := transport.ForwardSet(ctx, string(owners[0]), &unversioned, true)
-	if errFwd == nil || errors.Is(errFwd, sentinel.ErrQuorumFailed) {
+	for range maxVersionAttempts {
+		dm.stampVersion(item)
+
+		errFwd = transport.ForwardSet(ctx, string(owners[0]), item, true)
+
+		var older *supersededError
+		if !errors.As(errFwd, &older) {
+			break
+		}
+
+		dm.observeVersion(older.version)
+	}
+
+	if errFwd == nil || errors.Is(errFwd, sentinel.ErrQuorumFailed) || isSuperseded(errFwd) {
 		return false, errFwd // the primary's verdict
 	}
 
@@ -4010,62 +4021,79 @@ func (dm *DistMemory) setImpl(ctx context.Context, item *cache.Item, span trace.
 	return err
 }
 
-// coordinateWrite stores item as its primary (or as a replica promoted in its
-// place), replicates it to the other owners and checks the write quorum.
+// maxVersionAttempts bounds how often a write is versioned anew because an
+// owner holds something newer.
+const maxVersionAttempts = 10
+
+// stampVersion makes item a write of this node, newer than everything seen.
+func (dm *DistMemory) stampVersion(item *cache.Item) {
+	item.Version = dm.versionCounter.Add(1)
+	item.Origin = string(dm.localNode.ID)
+	item.LastUpdated = time.Now()
+}
+
+// coordinateWrite versions item and writes it as its primary (or as a replica
+// promoted in its place), returning how many owners took it. An owner may hold
+// a version this node did not know of - a concurrent write's that overtook this
+// one, or one from before this node joined or restarted, or from a replica
+// promoted meanwhile - and then refuses the write; it is versioned past that
+// and written again.
 //
 // When we promoted, the original primary is unreachable but still a listed
 // owner: replicateTo's failure path queues a hint for it, so its post-restart
 // convergence is bounded by hint-replay (~200ms by default) rather than
 // waiting for the next merkle tick.
 func (dm *DistMemory) coordinateWrite(ctx context.Context, item *cache.Item, owners []cluster.NodeID) (int, error) {
-	acks := dm.writeAsPrimary(ctx, item, owners)
-	dm.metrics.writeAcks.Add(int64(acks))
+	var (
+		acks int
+		err  error
+	)
 
-	needed := dm.requiredAcks(len(owners), dm.writeConsistency)
-	if acks < needed {
-		dm.metrics.writeQuorumFailures.Add(1)
+	for range maxVersionAttempts {
+		dm.stampVersion(item)
 
-		return acks, sentinel.ErrQuorumFailed
+		acks, err = dm.writeToOwners(ctx, item, owners)
+
+		var older *supersededError
+		if !errors.As(err, &older) {
+			break
+		}
+
+		dm.observeVersion(older.version)
 	}
 
-	return acks, nil
+	return acks, err
 }
 
-// writeAsPrimary versions item, stores it and replicates it, returning how many
-// owners took it. An owner may hold a version this node did not know of - a
-// concurrent write's that overtook this one, or one from before this node
-// joined or restarted, or from a replica promoted meanwhile - and then refuses
-// the write; it is versioned past that and sent again.
-func (dm *DistMemory) writeAsPrimary(ctx context.Context, item *cache.Item, owners []cluster.NodeID) int {
-	const maxAttempts = 10
+// writeToOwners stores a versioned item here, replicates it to the other owners
+// and checks the write quorum, returning how many owners took it. The error is
+// a supersededError if one of them holds something at least as new.
+func (dm *DistMemory) writeToOwners(ctx context.Context, item *cache.Item, owners []cluster.NodeID) (int, error) {
+	errLocal := dm.applySet(item)
 
-	acks := 0
-
-	for range maxAttempts {
-		item.Version = dm.versionCounter.Add(1)
-		item.Origin = string(dm.localNode.ID)
-		item.LastUpdated = time.Now()
+	acks, newest := dm.replicateTo(ctx, item, owners)
 
-		errLocal := dm.applySet(ctx, item, false)
+	var older *supersededError
+	if errors.As(errLocal, &older) {
+		newest = max(newest, older.version)
+	} else {
+		acks++
+	}
 
-		held, newest := dm.replicateTo(ctx, item, owners)
-		acks = held
+	dm.metrics.writeAcks.Add(int64(acks))
 
-		var older *supersededError
-		if errors.As(errLocal, &older) {
-			newest = max(newest, older.version)
-		} else {
-			acks++
-		}
+	if newest >= item.Version {
+		return acks, &supersededError{version: newest}
+	}
 
-		if newest < item.Version {
-			break
-		}
+	needed := dm.requiredAcks(len(owners), dm.writeConsistency)
+	if acks < needed {
+		dm.metrics.writeQuorumFailures.Add(1)
 
-		dm.observeVersion(newest)
+		return acks, sentinel.ErrQuorumFailed
 	}
 
-	return acks
+	return acks, nil
 }
 
 // removeImpl is the business logic for Remove. Mirrors setImpl's
@@ -4644,9 +4672,8 @@ func (dm *DistMemory) setupOTelMetrics() {
 // Merkle anti-entropy is the convergence safety net for it; a write this
 // node was asked to coordinate is refused, since nobody else would store it.
 //
-// A write without a version is a client's, forwarded here to be coordinated:
-// it is versioned, replicated and held to the write quorum as if it had
-// arrived here in the first place.
+// With replicate, this node was asked to coordinate the write: it is replicated
+// and held to the write quorum as if it had arrived here in the first place.
 //
 // Why the guard belongs here and not in applySet itself: legitimate
 // internal callers (setImpl primary path, migrateIfNeeded forwarder,
@@ -4670,25 +4697,32 @@ func (dm *DistMemory) applyForwardedSet(ctx context.Context, item *cache.Item, r
 		return nil
 	}
 
-	if replicate && item.Version == 0 {
-		cloned := *item
-		_, err := dm.coordinateWrite(ctx, &cloned, dm.lookupOwners(item.Key))
+	if !replicate {
+		return dm.applySet(item)
+	}
+
+	cloned := *item
+	owners := dm.lookupOwners(item.Key)
+	dm.metrics.replicaFanoutSet.Add(int64(len(owners) - 1))
 
-		return err
+	var err error
+	if cloned.Version == 0 {
+		_, err = dm.coordinateWrite(ctx, &cloned, owners)
+	} else {
+		_, err = dm.writeToOwners(ctx, &cloned, owners)
 	}
 
-	return dm.applySet(ctx, item, replicate)
+	return err
 }
 
-// applySet stores item locally and optionally replicates to other owners.
-// replicate indicates whether replication fan-out should occur (false for replica writes).
+// applySet stores item locally unless something newer is held.
 //
 // Callers that receive a forwarded write from a peer (transport-side
 // arrivals) MUST go through `applyForwardedSet` instead so the
 // ownership guard fires; direct callers (primary write, migration,
 // merkle pull, read-repair) bypass the guard because they've already
 // verified ownership or explicitly want to plant regardless.
-func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate bool) error {
+func (dm *DistMemory) applySet(item *cache.Item) error {
 	sh := dm.shardFor(item.Key)
 
 	// Clone the key STRING data (not just the Item struct) before
@@ -4707,32 +4741,8 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 	cloned.Key = strings.Clone(item.Key)
 
 	_, err := dm.applyIfNewer(sh, &cloned)
-	if err != nil {
-		return err
-	}
 
-	if !replicate || dm.ring == nil {
-		return nil
-	}
-
-	owners := dm.ring.Lookup(item.Key)
-	transport := dm.loadTransport()
-
-	if len(owners) <= 1 || transport == nil {
-		return nil
-	}
-
-	dm.metrics.replicaFanoutSet.Add(int64(len(owners) - 1))
-
-	for _, oid := range owners[1:] { // skip primary
-		if oid == dm.localNode.ID {
-			continue
-		}
-
-		_ = dm.replicateSetWithSpan(ctx, transport, oid, item)
-	}
-
-	return nil
+	return err
 }
 
 // supersededError is a node's answer to a write older than what it holds.
-- 
2.43.0


From 3b0daf71c7d18eff9aef14abf121f7fbecd90c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:53 +0000
Subject: [PATCH 32/67] fix: let a write contended on by several nodes get
 through

Versioned one past what it was refused for each time, it could be overtaken
until its attempts ran out.
---
 pkg/backend/dist_memory.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 8acac7a..c7016ae 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3810,7 +3810,7 @@ func (dm *DistMemory) handleForwardPrimary(ctx context.Context, owners []cluster
 	// gave up on it and promoted ourselves, is recognizably older.
 	var errFwd error
 
-	for range maxVersionAttempts {
+	for attempt := range maxVersionAttempts {
 		dm.stampVersion(item)
 
 		errFwd = transport.ForwardSet(ctx, string(owners[0]), item, true)
@@ -3820,7 +3820,7 @@ func (dm *DistMemory) handleForwardPrimary(ctx context.Context, owners []cluster
 			break
 		}
 
-		dm.observeVersion(older.version)
+		dm.outrunVersion(older.version, attempt)
 	}
 
 	if errFwd == nil || errors.Is(errFwd, sentinel.ErrQuorumFailed) || isSuperseded(errFwd) {
@@ -4032,6 +4032,13 @@ func (dm *DistMemory) stampVersion(item *cache.Item) {
 	item.LastUpdated = time.Now()
 }
 
+// outrunVersion makes the next version assigned here supersede one a write was
+// refused for, further ahead with each attempt so that concurrent writes cannot
+// overtake this one for ever.
+func (dm *DistMemory) outrunVersion(version uint64, attempt int) {
+	dm.observeVersion(version + 1<<attempt - 1)
+}
+
 // coordinateWrite versions item and writes it as its primary (or as a replica
 // promoted in its place), returning how many owners took it. An owner may hold
 // a version this node did not know of - a concurrent write's that overtook this
@@ -4049,7 +4056,7 @@ func (dm *DistMemory) coordinateWrite(ctx context.Context, item *cache.Item, own
 		err  error
 	)
 
-	for range maxVersionAttempts {
+	for attempt := range maxVersionAttempts {
 		dm.stampVersion(item)
 
 		acks, err = dm.writeToOwners(ctx, item, owners)
@@ -4059,7 +4066,7 @@ func (dm *DistMemory) coordinateWrite(ctx context.Context, item *cache.Item, own
 			break
 		}
 
-		dm.observeVersion(older.version)
+		dm.outrunVersion(older.version, attempt)
 	}
 
 	return acks, err
-- 
2.43.0


From 9b144794cb85bc6b5670a63b200676325535de01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:53 +0000
Subject: [PATCH 33/67] fix: do not take a restarted node's write for one it
 made before

A node that restarts empty counts its versions from the start again. An owner
that held its earlier write of the same version acknowledged the new one as a
repeated delivery, without storing it.
---
 pkg/backend/dist_memory.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index c7016ae..d748d17 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -10,6 +10,7 @@ import (
 	"hash/fnv"
 	"log/slog"
 	"math/big"
+	"reflect"
 	"slices"
 	"strconv"
 	"strings"
@@ -4788,6 +4789,11 @@ func (dm *DistMemory) applyIfNewer(sh *distShard, item *cache.Item) (bool, error
 		}
 
 		if cur.Version == item.Version && cur.Origin == item.Origin && item.Version != 0 {
+			if !reflect.DeepEqual(cur.Value, item.Value) {
+				// the origin assigned this version before it restarted, too
+				return false, &supersededError{version: cur.Version}
+			}
+
 			return false, nil // this very write, delivered again
 		}
 	}
-- 
2.43.0


From 67d6feeb1f0da5c242f1d9ecd683ba6929125ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:55 +0000
Subject: [PATCH 34/67] fix: deliver the read repairs a flush had taken when
 Stop cancelled it

---
 pkg/backend/dist_read_repair.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/backend/dist_read_repair.go b/pkg/backend/dist_read_repair.go
index 8643f46..6f48a8b 100644
--- a/pkg/backend/dist_read_repair.go
+++ b/pkg/backend/dist_read_repair.go
@@ -146,30 +146,34 @@ func (q *repairQueue) enqueue(ctx context.Context, peer cluster.NodeID, item *ca
 
 // run is the flusher goroutine body. Ticks on interval, flushes
 // everything; on stopCh signal, does one final flushAll, then
-// closes doneCh so stop() can return. Shutdown flushes use
+// closes doneCh so stop() can return. Flushes use
 // context.WithoutCancel so the drain dispatches even when the
-// parent ctx is already Done — losing queued repairs on a clean
-// stop would defeat the drain guarantee.
+// parent ctx is already Done, and so a periodic flush under way
+// when Stop cancels it still delivers what it took off the queue —
+// losing queued repairs on a clean stop would defeat the drain
+// guarantee.
 func (q *repairQueue) run(ctx context.Context) {
 	defer close(q.doneCh)
 
+	flushCtx := context.WithoutCancel(ctx)
+
 	ticker := time.NewTicker(q.interval)
 	defer ticker.Stop()
 
 	for {
 		select {
 		case <-ctx.Done():
-			q.flushAll(context.WithoutCancel(ctx))
+			q.flushAll(flushCtx)
 
 			return
 
 		case <-q.stopCh:
-			q.flushAll(context.WithoutCancel(ctx))
+			q.flushAll(flushCtx)
 
 			return
 
 		case <-ticker.C:
-			q.flushAll(ctx)
+			q.flushAll(flushCtx)
 		}
 	}
 }
-- 
2.43.0


From 129790539bdd1354434e2ab1f5ccf165284f5893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:27 +0000
Subject: [PATCH 35/67] fix: prune and suspect a peer only when it cannot be
 reached, not for going unprobed

---
 pkg/backend/dist_memory.go | 72 ++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 34 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index d748d17..2af96e1 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -4982,37 +4982,10 @@ func (dm *DistMemory) runHeartbeatTick(ctx context.Context) { //nolint:revive
 	}
 }
 
-// evaluateLiveness applies timeout-based transitions then performs a probe.
+// evaluateLiveness probes a peer and, when nobody can reach it, applies the
+// timeout-based transitions. Time alone condemns no one: a peer may have gone
+// unprobed because it was not sampled, or because probing others took long.
 func (dm *DistMemory) evaluateLiveness(ctx context.Context, now time.Time, node *cluster.Node) {
-	elapsed := now.Sub(node.LastSeen)
-
-	if dm.hbDeadAfter > 0 && elapsed > dm.hbDeadAfter { // prune dead
-		if dm.membership.Remove(node.ID) {
-			dm.metrics.nodesRemoved.Add(1)
-			dm.metrics.nodesDead.Add(1)
-
-			dm.logger.Warn(
-				"peer pruned (dead)",
-				slog.String("peer_id", string(node.ID)),
-				slog.String("peer_addr", node.Address),
-				slog.Duration("elapsed_since_seen", elapsed),
-			)
-		}
-
-		return
-	}
-
-	if dm.hbSuspectAfter > 0 && elapsed > dm.hbSuspectAfter && node.State == cluster.NodeAlive { // suspect
-		dm.membership.Mark(node.ID, cluster.NodeSuspect)
-		dm.metrics.nodesSuspect.Add(1)
-
-		dm.logger.Info(
-			"peer marked suspect (timeout)",
-			slog.String("peer_id", string(node.ID)),
-			slog.Duration("elapsed_since_seen", elapsed),
-		)
-	}
-
 	transport := dm.loadTransport()
 	if transport == nil {
 		return
@@ -5025,7 +4998,7 @@ func (dm *DistMemory) evaluateLiveness(ctx context.Context, now time.Time, node
 
 	if err != nil {
 		dm.metrics.heartbeatFailure.Add(1)
-		dm.handleProbeFailure(ctx, transport, node, err)
+		dm.handleProbeFailure(ctx, transport, now, node, err)
 
 		return
 	}
@@ -5039,9 +5012,16 @@ func (dm *DistMemory) evaluateLiveness(ctx context.Context, now time.Time, node
 // a direct-probe failure: when indirect probes are enabled and any
 // relay confirms the target is reachable, the direct failure is
 // dismissed as caller-side. Otherwise the target is escalated to
-// suspect. Extracted from evaluateLiveness to keep that function under
+// suspect, or pruned once it has not been seen for hbDeadAfter.
+// Extracted from evaluateLiveness to keep that function under
 // the function-length lint cap.
-func (dm *DistMemory) handleProbeFailure(ctx context.Context, transport DistTransport, node *cluster.Node, directErr error) {
+func (dm *DistMemory) handleProbeFailure(
+	ctx context.Context,
+	transport DistTransport,
+	now time.Time,
+	node *cluster.Node,
+	directErr error,
+) {
 	if dm.indirectProbeK > 0 && dm.indirectProbeReachable(ctx, transport, node.ID) {
 		dm.metrics.indirectProbeRefuted.Add(1)
 
@@ -5057,6 +5037,24 @@ func (dm *DistMemory) handleProbeFailure(ctx context.Context, transport DistTran
 		return
 	}
 
+	elapsed := now.Sub(node.LastSeen)
+
+	if dm.hbDeadAfter > 0 && elapsed > dm.hbDeadAfter { // prune dead
+		if dm.membership.Remove(node.ID) {
+			dm.metrics.nodesRemoved.Add(1)
+			dm.metrics.nodesDead.Add(1)
+
+			dm.logger.Warn(
+				"peer pruned (dead)",
+				slog.String("peer_id", string(node.ID)),
+				slog.String("peer_addr", node.Address),
+				slog.Duration("elapsed_since_seen", elapsed),
+			)
+		}
+
+		return
+	}
+
 	if node.State != cluster.NodeAlive {
 		return
 	}
@@ -5064,9 +5062,15 @@ func (dm *DistMemory) handleProbeFailure(ctx context.Context, transport DistTran
 	dm.membership.Mark(node.ID, cluster.NodeSuspect)
 	dm.metrics.nodesSuspect.Add(1)
 
+	reason := "peer marked suspect (probe failed)"
+	if dm.hbSuspectAfter > 0 && elapsed > dm.hbSuspectAfter {
+		reason = "peer marked suspect (timeout)"
+	}
+
 	dm.logger.Info(
-		"peer marked suspect (probe failed)",
+		reason,
 		slog.String("peer_id", string(node.ID)),
+		slog.Duration("elapsed_since_seen", elapsed),
 		slog.Any("err", directErr),
 	)
 }
-- 
2.43.0


From b4376f4cbd713f6b691ea1f3682f24bd1536c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:41 +0000
Subject: [PATCH 36/67] fix: gossip from a peer that still suspects a dead
 member must not bring it back

---
 pkg/backend/dist_memory.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 2af96e1..411ff89 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3637,7 +3637,9 @@ func (dm *DistMemory) acceptGossip(nodes []*cluster.Node) {
 			}
 		}
 
-		if !existing {
+		// A peer unknown here may have been pruned as dead: only word that it is
+		// alive brings it back, not that of one who merely suspects it so far.
+		if !existing && node.State == cluster.NodeAlive {
 			dm.membership.Upsert(&cluster.Node{
 				ID:          node.ID,
 				Address:     node.Address,
-- 
2.43.0


From bfc18a37a2049336725f81ff3d04676bc9c9ba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:58 +0000
Subject: [PATCH 37/67] fix: shed a key after the grace period only once its
 new primary has it

---
 pkg/backend/dist_memory.go | 86 ++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 49 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 411ff89..df54810 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -361,6 +361,13 @@ func (dm *DistMemory) Ring() *cluster.Ring { return dm.ring }
 // the returned ctx has no effect.
 func (dm *DistMemory) LifecycleContext() context.Context { return dm.lifeCtx }
 
+// handover is a copy that reached the new primary of its key, and when the
+// first one did.
+type handover struct {
+	at      time.Time
+	version uint64
+}
+
 type distShard struct {
 	items             cache.ConcurrentMap
 	applyMu           sync.Mutex                  // orders version checks with the writes they allow; guards tombs
@@ -369,7 +376,7 @@ type distShard struct {
 	originalPrimaryMu sync.RWMutex                // guards originalPrimary
 	originalOwners    map[string][]cluster.NodeID // recorded full owner set at first insert (for replica diff)
 	originalOwnersMu  sync.RWMutex                // guards originalOwners
-	removedAt         map[string]time.Time        // when we first observed we are no longer an owner (for grace shedding)
+	removedAt         map[string]handover         // keys we no longer own, handed over to their primary (for grace shedding)
 	removedAtMu       sync.Mutex                  // guards removedAt
 }
 
@@ -2128,19 +2135,11 @@ func (dm *DistMemory) collectRebalanceCandidates() []cache.Item {
 // Triggers when this node lost all ownership or was previously primary and is no longer.
 func (dm *DistMemory) shouldRebalance(sh *distShard, it *cache.Item) bool {
 	if !dm.ownsKeyInternal(it.Key) { // lost all ownership
-		if dm.removalGracePeriod > 0 && sh.removedAt != nil { // record timestamp if not already
-			sh.removedAtMu.Lock()
-
-			if _, exists := sh.removedAt[it.Key]; !exists {
-				sh.removedAt[it.Key] = time.Now()
-			}
-
-			sh.removedAtMu.Unlock()
-		}
-
 		return true
 	}
 
+	dm.cancelRemoval(sh, it.Key) // owned again
+
 	if dm.ring == nil || sh.originalPrimary == nil { // nothing else to compare
 		return false
 	}
@@ -2205,8 +2204,6 @@ func (dm *DistMemory) replDiffShard(ctx context.Context, sh *distShard, processe
 
 		owners := dm.ring.Lookup(it.Key)
 		if len(owners) == 0 || owners[0] != dm.localNode.ID {
-			dm.maybeRecordRemoval(sh, it.Key)
-
 			continue
 		}
 
@@ -2341,24 +2338,6 @@ func (*DistMemory) setOwnerBaseline(sh *distShard, key string, owners []cluster.
 	sh.originalOwnersMu.Unlock()
 }
 
-func (dm *DistMemory) maybeRecordRemoval(sh *distShard, key string) {
-	if dm.removalGracePeriod <= 0 || sh.removedAt == nil {
-		return
-	}
-
-	if dm.ownsKeyInternal(key) {
-		return
-	}
-
-	sh.removedAtMu.Lock()
-
-	if _, ok := sh.removedAt[key]; !ok {
-		sh.removedAt[key] = time.Now()
-	}
-
-	sh.removedAtMu.Unlock()
-}
-
 // migrateItems concurrently migrates items in batches respecting configured limits.
 func (dm *DistMemory) migrateItems(ctx context.Context, items []cache.Item) {
 	if len(items) == 0 {
@@ -2477,19 +2456,28 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 	// via shedRemovedKeys; otherwise release immediately.
 	if !dm.ownsKeyInternal(item.Key) {
 		if dm.removalGracePeriod > 0 && sh.removedAt != nil {
-			sh.removedAtMu.Lock()
-
-			if _, exists := sh.removedAt[item.Key]; !exists {
-				sh.removedAt[item.Key] = time.Now()
-			}
-
-			sh.removedAtMu.Unlock()
+			sh.recordHandover(item)
 		} else {
-			dm.dropMigrated(sh, item)
+			dm.dropMigrated(sh, item.Key, item.Version)
 		}
 	}
 }
 
+// recordHandover starts the removal grace period of item's key, unless it runs
+// already.
+func (sh *distShard) recordHandover(item *cache.Item) {
+	sh.removedAtMu.Lock()
+	defer sh.removedAtMu.Unlock()
+
+	done, exists := sh.removedAt[item.Key]
+	if !exists {
+		done.at = time.Now()
+	}
+
+	done.version = max(done.version, item.Version)
+	sh.removedAt[item.Key] = done
+}
+
 // cancelRemoval forgets that key is waiting for its removal grace period to
 // elapse; the next rebalance tick starts it anew.
 func (*DistMemory) cancelRemoval(sh *distShard, key string) {
@@ -2504,12 +2492,12 @@ func (*DistMemory) cancelRemoval(sh *distShard, key string) {
 
 // dropMigrated releases the local copy of a migrated item, unless a newer one
 // arrived meanwhile.
-func (*DistMemory) dropMigrated(sh *distShard, item *cache.Item) {
+func (*DistMemory) dropMigrated(sh *distShard, key string, version uint64) {
 	sh.applyMu.Lock()
 	defer sh.applyMu.Unlock()
 
-	if cur, ok := sh.items.Get(item.Key); ok && cur.Version <= item.Version {
-		sh.items.Remove(item.Key)
+	if cur, ok := sh.items.Get(key); ok && cur.Version <= version {
+		sh.items.Remove(key)
 	}
 }
 
@@ -2537,20 +2525,20 @@ func (dm *DistMemory) shedShard(sh *distShard, now time.Time) {
 
 	sh.removedAtMu.Lock()
 
-	var dels []string
+	dels := make(map[string]uint64)
 
-	for k, at := range sh.removedAt {
-		if now.Sub(at) >= grace {
-			dels = append(dels, k)
+	for k, done := range sh.removedAt {
+		if now.Sub(done.at) >= grace {
+			dels[k] = done.version
 			delete(sh.removedAt, k)
 		}
 	}
 
 	sh.removedAtMu.Unlock()
 
-	for _, k := range dels {
+	for k, version := range dels {
 		if !dm.ownsKeyInternal(k) {
-			sh.items.Remove(k)
+			dm.dropMigrated(sh, k, version)
 		}
 	}
 }
@@ -2606,7 +2594,7 @@ func (dm *DistMemory) ensureShardConfig() {
 				tombs:           make(map[string]tombstone),
 				originalPrimary: make(map[string]cluster.NodeID),
 				originalOwners:  make(map[string][]cluster.NodeID),
-				removedAt:       make(map[string]time.Time),
+				removedAt:       make(map[string]handover),
 			})
 	}
 }
-- 
2.43.0


From 0c166013db3b5e9e9a27522794f6de6cffc287fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:19 +0000
Subject: [PATCH 38/67] fix: refute a peer's suspicion in one step, past the
 incarnation it was claimed at

---
 internal/cluster/membership.go | 30 +++++++++++++++++++++++++++---
 pkg/backend/dist_memory.go     |  6 ++----
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 63e0d8c..8095bdc 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -234,7 +234,33 @@ func (m *Membership) Refute(id NodeID) bool {
 		return false
 	}
 
-	n.Incarnation++
+	m.refuteAndUnlock(n, n.Incarnation+1)
+
+	return true
+}
+
+// RefuteClaim is Refute in answer to a peer's claim made at incarnation
+// claimed: it moves past the claim. A claim older than the node's incarnation
+// has been refuted already and changes nothing. Returns true if it refuted.
+func (m *Membership) RefuteClaim(id NodeID, claimed uint64) bool {
+	m.mu.Lock()
+
+	n, ok := m.nodes[id]
+	if !ok || claimed < n.Incarnation {
+		m.mu.Unlock()
+
+		return false
+	}
+
+	m.refuteAndUnlock(n, claimed+1)
+
+	return true
+}
+
+// refuteAndUnlock sets n alive at incarnation, releases m.mu and tells the observers.
+func (m *Membership) refuteAndUnlock(n *Node, incarnation uint64) {
+	id := n.ID
+	n.Incarnation = incarnation
 
 	ownershipChanged := n.State == NodeDead
 
@@ -251,8 +277,6 @@ func (m *Membership) Refute(id NodeID) bool {
 	m.mu.Unlock()
 
 	notify(observers, id, NodeAlive, version)
-
-	return true
 }
 
 // notify invokes each observer in registration order with the
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index df54810..e811602 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3659,14 +3659,12 @@ func (dm *DistMemory) refuteIfSuspected(claim *cluster.Node) {
 		return // peer agrees we're alive — nothing to refute
 	}
 
-	// Only refute when the peer's claim is at >= our incarnation;
+	// Only refuted when the peer's claim is at >= our incarnation;
 	// older claims are stale and ignored.
-	if claim.Incarnation < dm.localNode.Incarnation {
+	if !dm.membership.RefuteClaim(dm.localNode.ID, claim.Incarnation) {
 		return
 	}
 
-	dm.membership.Refute(dm.localNode.ID)
-
 	dm.logger.Info(
 		"self-refuted suspect/dead claim from peer",
 		slog.Uint64("claim_incarnation", claim.Incarnation),
-- 
2.43.0


From b8d0d5552475ec7c1b0c6122d92871da1a0f91bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:17 +0000
Subject: [PATCH 39/67] fix: a stopped node must not go on serving HTTP when
 Stop overtakes its server's start

---
 pkg/backend/dist_http_server.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index 42a73b7..324efe0 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -751,5 +751,11 @@ func (s *distHTTPServer) stop(ctx context.Context) error {
 	// the previous `go func() { ch <- s.app.Shutdown() }()` pattern which
 	// leaked the shutdown goroutine when our ctx fired before fiber
 	// finished draining.
-	return s.app.ShutdownWithContext(ctx)
+	err := s.app.ShutdownWithContext(ctx)
+
+	// A serve goroutine that had not taken over the listener yet was not told
+	// to stop: without its listener it ends at once.
+	_ = s.ln.Close()
+
+	return err
 }
-- 
2.43.0


From 00910d7705f1f56891445465f02b2ec728ae9f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:37 +0000
Subject: [PATCH 40/67] fix: a lifetime under a millisecond must not reach a
 peer as no expiration

---
 pkg/backend/dist_http_transport.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index becb996..3a545e4 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -157,7 +157,7 @@ func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item
 	reqBody := httpSetRequest{
 		Key:        item.Key,
 		Value:      item.Value,
-		Expiration: item.Expiration.Milliseconds(),
+		Expiration: wireExpiration(item.Expiration),
 		Version:    item.Version,
 		Origin:     item.Origin,
 		Replicate:  replicate,
@@ -209,6 +209,16 @@ func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item
 	return nil
 }
 
+// wireExpiration is a lifetime in milliseconds. A shorter one must not become 0,
+// which stands for no expiration.
+func wireExpiration(d time.Duration) int64 {
+	if d > 0 && d < time.Millisecond {
+		return 1
+	}
+
+	return d.Milliseconds()
+}
+
 // forwardSetError maps a peer's refusal of a write back to the error the peer
 // had, for the verdicts callers act on.
 func forwardSetError(status int, body []byte) error {
-- 
2.43.0


From c31b5d3ac9d6f925df80dc93dccae25237ff4e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:37 +0000
Subject: [PATCH 41/67] fix: read an item's lifetime from a peer in the unit it
 was written in

---
 pkg/backend/dist_http_transport.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index 3a545e4..ba35bee 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -312,7 +312,7 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 		var mirror struct {
 			Key        string          `json:"key"`
 			Value      json.RawMessage `json:"value"`
-			Expiration int64           `json:"expiration"`
+			Expiration time.Duration   `json:"expiration"` // nanoseconds, as cache.Item encodes it
 			Version    uint64          `json:"version"`
 			Origin     string          `json:"origin"`
 		}
@@ -325,7 +325,7 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 		return &cache.Item{
 			Key:         mirror.Key,
 			Value:       mirror.Value,
-			Expiration:  time.Duration(mirror.Expiration) * time.Millisecond,
+			Expiration:  mirror.Expiration,
 			Version:     mirror.Version,
 			Origin:      mirror.Origin,
 			LastUpdated: time.Now(),
-- 
2.43.0


From 84283d3d6455065335243c25e05dd91a6b944c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:37 +0000
Subject: [PATCH 42/67] fix: list every key of a peer with more than 1024
 shards

---
 pkg/backend/dist_http_transport.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index ba35bee..e955ed0 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -519,7 +519,7 @@ func (t *DistHTTPTransport) ListKeys(ctx context.Context, nodeID, pattern string
 		cursor string
 	)
 
-	const safetyLimit = 1024 // upper bound to prevent infinite loop on a buggy server
+	const safetyLimit = 1 << 20 // upper bound to prevent infinite loop on a buggy server; one page per shard
 
 	for range safetyLimit {
 		page, err := t.listKeysPage(ctx, nodeID, cursor, pattern)
@@ -545,7 +545,8 @@ func (t *DistHTTPTransport) ListKeys(ctx context.Context, nodeID, pattern string
 		cursor = page.NextCursor
 	}
 
-	return all, nil
+	// A partial listing must not pass for the whole key set.
+	return nil, ewrap.New("list keys: the peer's cursor never reached the end")
 }
 
 // listKeysPage is the per-page fetch for ListKeys; broken out so the
@@ -578,6 +579,10 @@ func (t *DistHTTPTransport) listKeysPage(ctx context.Context, nodeID, cursor, pa
 	respBody := t.limitedBody(resp)
 	defer drainBody(respBody)
 
+	if resp.StatusCode == http.StatusNotFound {
+		return keysPageResp{}, sentinel.ErrBackendNotFound
+	}
+
 	if resp.StatusCode >= statusThreshold {
 		return keysPageResp{}, ewrap.Newf("list keys status %d", resp.StatusCode)
 	}
-- 
2.43.0


From 30144945066f92ea35410deab9d49cbe5f9591b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:04 +0000
Subject: [PATCH 43/67] fix: carry keys that are not valid UTF-8 between nodes
 intact

---
 pkg/backend/dist_http_server.go    | 34 ++++++++++++++++++++++++++----
 pkg/backend/dist_http_transport.go | 26 +++++++++++++++++------
 pkg/backend/dist_http_types.go     |  1 +
 3 files changed, 51 insertions(+), 10 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index 324efe0..922a38e 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -11,6 +11,7 @@ import (
 	"strconv"
 	"sync/atomic"
 	"time"
+	"unicode/utf8"
 
 	"github.com/goccy/go-json"
 	fiber "github.com/gofiber/fiber/v3"
@@ -377,6 +378,10 @@ func (s *distHTTPServer) handleSet(fctx fiber.Ctx, dm *DistMemory) error {
 		return fctx.Status(fiber.StatusBadRequest).JSON(fiber.Map{constants.ErrorLabel: unmarshalErr.Error()})
 	}
 
+	if len(req.RawKey) > 0 {
+		req.Key = string(req.RawKey)
+	}
+
 	it := &cache.Item{ // LastUpdated set to now for replicated writes
 		Key:         req.Key,
 		Value:       req.Value,
@@ -659,13 +664,34 @@ func handleKeys(fctx fiber.Ctx, dm *DistMemory) error {
 		// end-of-iteration to the client.
 	}
 
-	return fctx.JSON(fiber.Map{
-		"keys":        keys,
-		"next_cursor": nextCursor,
-		"truncated":   truncated,
+	return fctx.JSON(keysPageResp{
+		Keys:       keys,
+		RawKeys:    rawKeys(keys),
+		NextCursor: nextCursor,
+		Truncated:  truncated,
 	})
 }
 
+// rawKeys returns, by position, the keys that are not valid UTF-8, which
+// a JSON string cannot carry.
+func rawKeys(keys []string) map[int][]byte {
+	var raw map[int][]byte
+
+	for i, key := range keys {
+		if utf8.ValidString(key) {
+			continue
+		}
+
+		if raw == nil {
+			raw = make(map[int][]byte)
+		}
+
+		raw[i] = []byte(key)
+	}
+
+	return raw
+}
+
 // collectShardKeys reads up to `limit` keys from shard that match
 // `matcher`. limit<=0 returns every matching key. The truncated
 // bool reports whether the shard had more matching keys than
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index e955ed0..393d3f0 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -11,6 +11,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	"github.com/goccy/go-json"
 	"github.com/hyp3rd/ewrap"
@@ -163,6 +164,10 @@ func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item
 		Replicate:  replicate,
 	}
 
+	if !utf8.ValidString(item.Key) {
+		reqBody.RawKey = []byte(item.Key)
+	}
+
 	payloadBytes, err := json.Marshal(&reqBody)
 	if err != nil {
 		return ewrap.Wrap(err, "marshal set request")
@@ -271,6 +276,10 @@ func (t *DistHTTPTransport) ForwardGet(ctx context.Context, nodeID, key string)
 		return nil, false, derr
 	}
 
+	if found {
+		item.Key = key // a JSON string cannot carry a key that is not valid UTF-8
+	}
+
 	return item, found, nil
 }
 
@@ -527,6 +536,12 @@ func (t *DistHTTPTransport) ListKeys(ctx context.Context, nodeID, pattern string
 			return nil, err
 		}
 
+		for i, raw := range page.RawKeys {
+			if i >= 0 && i < len(page.Keys) {
+				page.Keys[i] = string(raw)
+			}
+		}
+
 		all = append(all, page.Keys...)
 
 		if page.NextCursor == "" {
@@ -597,13 +612,12 @@ func (t *DistHTTPTransport) listKeysPage(ctx context.Context, nodeID, cursor, pa
 	return page, nil
 }
 
-// keysPageResp matches the JSON shape returned by /internal/keys —
-// kept private to the transport since handleKeys is the source of
-// truth for the wire format.
+// keysPageResp is the JSON shape returned by /internal/keys.
 type keysPageResp struct {
-	Keys       []string `json:"keys"`
-	NextCursor string   `json:"next_cursor"`
-	Truncated  bool     `json:"truncated"`
+	Keys       []string       `json:"keys"`
+	RawKeys    map[int][]byte `json:"raw_keys,omitempty"` // those of Keys, by position, that are not valid UTF-8
+	NextCursor string         `json:"next_cursor"`
+	Truncated  bool           `json:"truncated"`
 }
 
 // limitedBody wraps resp.Body so reads beyond respBodyLimit return
diff --git a/pkg/backend/dist_http_types.go b/pkg/backend/dist_http_types.go
index 1bdb181..5fd2afa 100644
--- a/pkg/backend/dist_http_types.go
+++ b/pkg/backend/dist_http_types.go
@@ -7,6 +7,7 @@ import (
 // Shared HTTP request/response DTOs for distributed transport/server.
 type httpSetRequest struct { // shared with server & transport
 	Key        string `json:"key"`
+	RawKey     []byte `json:"raw_key,omitempty"` // the key, when it is not valid UTF-8 and Key cannot carry it
 	Value      any    `json:"value"`
 	Expiration int64  `json:"expiration_ms"`
 	Version    uint64 `json:"version"`
-- 
2.43.0


From 04d2c12106772318ff0f2cedea70edf617f79e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:18 +0000
Subject: [PATCH 44/67] fix: a peer's tombstone keeps its age when adopted

---
 pkg/backend/dist_http_server.go    |  1 +
 pkg/backend/dist_http_transport.go |  9 ++++++++-
 pkg/backend/dist_http_types.go     |  6 +++++-
 pkg/backend/dist_memory.go         | 32 +++++++++++++++++++-----------
 pkg/backend/dist_transport.go      |  3 ++-
 5 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index 922a38e..b6c0faf 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -441,6 +441,7 @@ func (*distHTTPServer) handleGet(fctx fiber.Ctx, dm *DistMemory) error {
 	resp := httpGetResponse{Found: false}
 	if it != nil {
 		resp.Tombstone = &it.Version
+		resp.TombstoneAge = time.Since(it.LastUpdated)
 	}
 
 	return fctx.JSON(resp)
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index 393d3f0..1443a07 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -314,7 +314,14 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 			return nil, false, nil
 		}
 
-		return &cache.Item{Version: *removed.Tombstone}, false, nil
+		if ab, ok := raw["tombstone_age"]; ok {
+			err := json.Unmarshal(ab, &removed.TombstoneAge)
+			if err != nil {
+				return nil, false, ewrap.Wrap(err, "unmarshal tombstone age")
+			}
+		}
+
+		return &cache.Item{Version: *removed.Tombstone, LastUpdated: time.Now().Add(-removed.TombstoneAge)}, false, nil
 	}
 
 	if ib, ok := raw["item"]; ok && len(ib) > 0 {
diff --git a/pkg/backend/dist_http_types.go b/pkg/backend/dist_http_types.go
index 5fd2afa..416976d 100644
--- a/pkg/backend/dist_http_types.go
+++ b/pkg/backend/dist_http_types.go
@@ -1,6 +1,8 @@
 package backend
 
 import (
+	"time"
+
 	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
 )
 
@@ -26,5 +28,7 @@ type httpGetResponse struct {
 	Error string      `json:"error,omitempty"`
 
 	// Tombstone is the version under which the key was removed, when it was.
-	Tombstone *uint64 `json:"tombstone,omitempty"`
+	// TombstoneAge is how long ago that was.
+	Tombstone    *uint64       `json:"tombstone,omitempty"`
+	TombstoneAge time.Duration `json:"tombstone_age,omitempty"`
 }
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index e811602..bfe06a8 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1855,7 +1855,7 @@ func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 		// merely lacks the key - it restarted, joined later or missed the
 		// write - has nothing to say about ours.
 		if it != nil {
-			dm.adoptRemoval(sh, key, it.Version)
+			dm.adoptRemoval(sh, key, it.Version, it.LastUpdated)
 		}
 
 		return
@@ -1866,9 +1866,10 @@ func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 	}
 }
 
-// adoptRemoval buries key under a peer's tombstone of the given version, unless
-// something newer is held.
-func (dm *DistMemory) adoptRemoval(sh *distShard, key string, version uint64) {
+// adoptRemoval buries key under a peer's tombstone of the given version and
+// age, unless something newer is held. The tombstone does not start a new life
+// here: peers whose sweeps do not coincide would hand it back and forth forever.
+func (dm *DistMemory) adoptRemoval(sh *distShard, key string, version uint64, at time.Time) {
 	sh.applyMu.Lock()
 	defer sh.applyMu.Unlock()
 
@@ -1876,17 +1877,23 @@ func (dm *DistMemory) adoptRemoval(sh *distShard, key string, version uint64) {
 		return
 	}
 
-	if cur, okLocal := sh.items.Get(key); okLocal && cur.Version > version {
+	cur, okLocal := sh.items.Get(key)
+	if okLocal && cur.Version > version {
 		return
 	}
 
+	if !okLocal && dm.tombstoneTTL > 0 && time.Since(at) >= dm.tombstoneTTL {
+		return // due for compaction, here as there
+	}
+
 	sh.items.Remove(key)
-	dm.buryLocked(sh, key, version)
+	dm.buryLocked(sh, key, version, at)
 }
 
 // localCopy returns what this node holds for key, in the form ForwardGet
 // delivers it: the item and true, or false with either nil or, for a removed
-// key, an item carrying only the tombstone's version.
+// key, an item carrying only the tombstone's version and, as LastUpdated, the
+// time of the removal.
 func (dm *DistMemory) localCopy(key string) (*cache.Item, bool) {
 	sh := dm.shardFor(key)
 
@@ -1898,7 +1905,7 @@ func (dm *DistMemory) localCopy(key string) (*cache.Item, bool) {
 	}
 
 	if tomb, ok := sh.tombs[key]; ok {
-		return &cache.Item{Key: key, Version: tomb.version, Origin: tomb.origin}, false
+		return &cache.Item{Key: key, Version: tomb.version, Origin: tomb.origin, LastUpdated: tomb.at}, false
 	}
 
 	return nil, false
@@ -1915,8 +1922,9 @@ func (dm *DistMemory) observeVersion(version uint64) {
 	}
 }
 
-// buryLocked leaves a tombstone for key; call with sh.applyMu held.
-func (dm *DistMemory) buryLocked(sh *distShard, key string, version uint64) {
+// buryLocked leaves a tombstone for key, removed at the given time; call with
+// sh.applyMu held.
+func (dm *DistMemory) buryLocked(sh *distShard, key string, version uint64, at time.Time) {
 	if sh.tombs == nil {
 		sh.tombs = make(map[string]tombstone)
 	}
@@ -1925,7 +1933,7 @@ func (dm *DistMemory) buryLocked(sh *distShard, key string, version uint64) {
 		dm.metrics.tombstonesActive.Add(1)
 	}
 
-	sh.tombs[strings.Clone(key)] = tombstone{version: version, origin: string(dm.localNode.ID), at: time.Now()}
+	sh.tombs[strings.Clone(key)] = tombstone{version: version, origin: string(dm.localNode.ID), at: at}
 	dm.observeVersion(version)
 }
 
@@ -4890,7 +4898,7 @@ func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate boo
 	}
 
 	sh.items.Remove(key)
-	dm.buryLocked(sh, key, nextVer)
+	dm.buryLocked(sh, key, nextVer, time.Now())
 	sh.applyMu.Unlock()
 
 	transport := dm.loadTransport()
diff --git a/pkg/backend/dist_transport.go b/pkg/backend/dist_transport.go
index 1b3ddd0..8f757ef 100644
--- a/pkg/backend/dist_transport.go
+++ b/pkg/backend/dist_transport.go
@@ -15,7 +15,8 @@ type DistTransport interface {
 	ForwardSet(ctx context.Context, nodeID string, item *cache.Item, replicate bool) error
 	// ForwardGet returns the node's copy of key. When it holds none the bool
 	// is false; the item is then nil, or carries just the version of the
-	// tombstone the node keeps for the removed key.
+	// tombstone the node keeps for the removed key and, as LastUpdated, the
+	// time of the removal.
 	ForwardGet(ctx context.Context, nodeID, key string) (*cache.Item, bool, error)
 	ForwardRemove(ctx context.Context, nodeID, key string, replicate bool) error
 	Health(ctx context.Context, nodeID string) error
-- 
2.43.0


From 8973e1aca3b7c2187074dfb225be300bf80bcca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:19 +0000
Subject: [PATCH 45/67] fix: a key in a request path is what its
 percent-escapes stand for

---
 cmd/hypercache-server/main.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 57a3d91..8382660 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -26,6 +26,7 @@ import (
 	"log/slog"
 	"net"
 	"net/http"
+	"net/url"
 	"os"
 	"os/signal"
 	"strconv"
@@ -679,6 +680,21 @@ const (
 	listKeysHardMax      = 50000
 )
 
+// pathKey returns the key named in the request path. Fiber hands path
+// parameters over as sent, percent-escapes included, and in a buffer it
+// reuses for later requests; the key is what the escapes stand for, so
+// that it is the same key the batch routes name in JSON.
+func pathKey(c fiber.Ctx) string {
+	raw := c.Params("key")
+
+	key, err := url.PathUnescape(raw)
+	if err != nil { // not an escape: a literal percent sign
+		key = raw
+	}
+
+	return strings.Clone(key)
+}
+
 // handlePut implements PUT /v1/cache/:key.
 // Body is the raw value (any content type). Optional ?ttl=<dur>
 // applies a relative expiration; empty/absent means no expiration.
@@ -687,7 +703,7 @@ const (
 // owners list is the operator's visibility into where the value
 // actually landed across the cluster.
 func handlePut(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
+	key := pathKey(c)
 	if key == "" {
 		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
 	}
@@ -875,7 +891,7 @@ func setItemHeaders(c fiber.Ctx, key string, it *cache.Item, nodeCtx *nodeContex
 // owners, etc. Lets API clients fetch metadata in one round-trip
 // instead of GET + HEAD.
 func handleGet(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
+	key := pathKey(c)
 	if key == "" {
 		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
 	}
@@ -1174,7 +1190,7 @@ func classifyErrCode(err error) string {
 // without paying the value-transfer cost. Useful for
 // cache-revalidation flows and conditional logic.
 func handleHead(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
+	key := pathKey(c)
 	if key == "" {
 		return c.SendStatus(fiber.StatusBadRequest)
 	}
@@ -1285,7 +1301,7 @@ func decodeBase64Bytes(s string) ([]byte, bool) {
 // supposed to live — useful for follow-up retries against a
 // peer.
 func handleDelete(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
+	key := pathKey(c)
 	if key == "" {
 		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
 	}
@@ -1310,7 +1326,7 @@ func handleDelete(c fiber.Ctx, nodeCtx *nodeContext) error {
 // the owners array even when the key has never been written, since
 // the ring is deterministic from the key + membership.
 func handleOwners(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
+	key := pathKey(c)
 	if key == "" {
 		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
 	}
-- 
2.43.0


From 8c2047bcc50f42cac4a1fe45a87fbd758f209bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:19 +0000
Subject: [PATCH 46/67] fix: stopping a cache stops the backend it built

---
 hypercache.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/hypercache.go b/hypercache.go
index 2280fd3..edcc176 100644
--- a/hypercache.go
+++ b/hypercache.go
@@ -9,6 +9,7 @@ package hypercache
 
 import (
 	"context"
+	"errors"
 	"log/slog"
 	"sync"
 	"sync/atomic"
@@ -191,8 +192,8 @@ func New[T backend.IBackendConstrain](ctx context.Context, bm *BackendManager, c
 	return hyperCache, nil
 }
 
-// Stop signals background loops to stop, shuts down the worker pool, and
-// closes any optional management HTTP server. The shutdown is bounded by
+// Stop signals background loops to stop, shuts down the worker pool, closes
+// any optional management HTTP server and stops the backend. The shutdown is bounded by
 // shutdownTimeout to keep tests responsive.
 func (hyperCache *HyperCache[T]) Stop(ctx context.Context) error {
 	// Best-effort stop signal for listeners that still rely on stop channel.
@@ -209,18 +210,22 @@ func (hyperCache *HyperCache[T]) Stop(ctx context.Context) error {
 
 	hyperCache.workerPool.Shutdown()
 
+	ctx, cancel := context.WithTimeout(ctx, shutdownTimeout)
+	defer cancel()
+
+	var mgmtErr error
+
 	if hyperCache.mgmtHTTP != nil {
-		ctx, cancel := context.WithTimeout(ctx, shutdownTimeout)
-		defer cancel()
+		mgmtErr = hyperCache.mgmtHTTP.Shutdown(ctx)
+	}
 
-		err := hyperCache.mgmtHTTP.Shutdown(ctx)
-		if err != nil {
-			// Handle error
-			return err
-		}
+	// The cache built its backend and is the only one to hold it: background
+	// loops and listeners of the backend end with the cache.
+	if owned, ok := any(hyperCache.backend).(interface{ Stop(ctx context.Context) error }); ok {
+		return errors.Join(mgmtErr, owned.Stop(ctx))
 	}
 
-	return nil
+	return mgmtErr
 }
 
 // Capacity returns the capacity of the cache.
-- 
2.43.0


From 95a7dd973b16d56fe061d05f70d4dabe24f32602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:15 +0000
Subject: [PATCH 47/67] fix: listing a distributed cache applies the filters

The expiration loop lists what has expired and removes it: without its
filter one expired key took every key this node holds with it.
---
 pkg/backend/dist_memory.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index bfe06a8..740e76e 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -28,6 +28,7 @@ import (
 	"go.opentelemetry.io/otel/trace/noop"
 
 	"github.com/hyp3rd/hypercache/internal/cluster"
+	"github.com/hyp3rd/hypercache/internal/constants"
 	"github.com/hyp3rd/hypercache/internal/eventbus"
 	"github.com/hyp3rd/hypercache/internal/sentinel"
 	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
@@ -1122,8 +1123,8 @@ func (dm *DistMemory) Set(ctx context.Context, item *cache.Item) error {
 
 // --- Consistency helper methods. ---
 
-// List aggregates items (no ordering, then filters applied per interface contract not yet integrated; kept simple);.
-func (dm *DistMemory) List(_ context.Context, _ ...IFilter) ([]*cache.Item, error) {
+// List returns the items held by this node, filtered and ordered by the given options.
+func (dm *DistMemory) List(_ context.Context, filters ...IFilter) ([]*cache.Item, error) {
 	items := make([]*cache.Item, 0, listPrealloc)
 	for _, s := range dm.shards {
 		for _, it := range s.items.All() {
@@ -1133,6 +1134,15 @@ func (dm *DistMemory) List(_ context.Context, _ ...IFilter) ([]*cache.Item, erro
 		}
 	}
 
+	var err error
+
+	for _, filter := range filters {
+		items, err = filter.ApplyFilter(constants.DistMemoryBackend, items)
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	return items, nil
 }
 
-- 
2.43.0


From e43576037ee1b9fef3b8d121cbe2402c8f963b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:30 +0000
Subject: [PATCH 48/67] fix: the expiration loop spares a distributed key
 rewritten since it was listed

---
 pkg/backend/dist_memory.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 740e76e..a8ccef0 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1169,6 +1169,27 @@ func (dm *DistMemory) Remove(ctx context.Context, keys ...string) error {
 	return err
 }
 
+// RemoveExpired removes the item with the given key from this node if it has
+// expired by now, and reports whether the key holds a live item. Every owner
+// does this for itself: the tombstone supersedes the expired version and
+// nothing newer, wherever that is stored by now.
+func (dm *DistMemory) RemoveExpired(key string) bool {
+	sh := dm.shardFor(key)
+
+	sh.applyMu.Lock()
+	defer sh.applyMu.Unlock()
+
+	item, ok := sh.items.Get(key)
+	if !ok || !item.Expired() {
+		return ok
+	}
+
+	sh.items.Remove(key)
+	dm.buryLocked(sh, key, item.Version, time.Now())
+
+	return false
+}
+
 // Clear wipes all shards.
 func (dm *DistMemory) Clear(ctx context.Context) error {
 	done := make(chan struct{})
-- 
2.43.0


From 5b4c282b0c3a0dacd6a8bf631e2d6d541dd30211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:53 +0000
Subject: [PATCH 49/67] fix: a lifetime goes on where it was when an item moves
 between nodes

Over HTTP every hop restarted it: replicas outlived the write they copied,
an expired value was served by every node but its owners, and handing it on
kept it alive.
---
 pkg/backend/dist_http_server.go    |  4 ++--
 pkg/backend/dist_http_transport.go | 12 +++++++++++-
 pkg/backend/dist_http_types.go     | 16 ++++++++++++++++
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index b6c0faf..ce10454 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -389,7 +389,7 @@ func (s *distHTTPServer) handleSet(fctx fiber.Ctx, dm *DistMemory) error {
 		Version:     req.Version,
 		Origin:      req.Origin,
 		LastUpdated: time.Now(),
-		LastAccess:  time.Now(),
+		LastAccess:  time.Now().Add(-req.Age),
 	}
 
 	// Forwarded arrival from a peer: ownership guard fires if this
@@ -435,7 +435,7 @@ func (*distHTTPServer) handleGet(fctx fiber.Ctx, dm *DistMemory) error {
 
 	it, found := dm.localCopy(key)
 	if found {
-		return fctx.JSON(httpGetResponse{Found: true, Item: it})
+		return fctx.JSON(httpGetResponse{Found: true, Item: it, Age: itemAge(it)})
 	}
 
 	resp := httpGetResponse{Found: false}
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index 1443a07..78c5105 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -162,6 +162,7 @@ func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item
 		Version:    item.Version,
 		Origin:     item.Origin,
 		Replicate:  replicate,
+		Age:        itemAge(item),
 	}
 
 	if !utf8.ValidString(item.Key) {
@@ -338,6 +339,15 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 			return nil, false, ewrap.Wrap(err, "unmarshal mirror")
 		}
 
+		var age time.Duration
+
+		if ab, ok := raw["age"]; ok {
+			err := json.Unmarshal(ab, &age)
+			if err != nil {
+				return nil, false, ewrap.Wrap(err, "unmarshal age")
+			}
+		}
+
 		return &cache.Item{
 			Key:         mirror.Key,
 			Value:       mirror.Value,
@@ -345,7 +355,7 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 			Version:     mirror.Version,
 			Origin:      mirror.Origin,
 			LastUpdated: time.Now(),
-			LastAccess:  time.Now(),
+			LastAccess:  time.Now().Add(-age),
 		}, true, nil
 	}
 
diff --git a/pkg/backend/dist_http_types.go b/pkg/backend/dist_http_types.go
index 416976d..7c62560 100644
--- a/pkg/backend/dist_http_types.go
+++ b/pkg/backend/dist_http_types.go
@@ -15,6 +15,9 @@ type httpSetRequest struct { // shared with server & transport
 	Version    uint64 `json:"version"`
 	Origin     string `json:"origin"`
 	Replicate  bool   `json:"replicate"`
+
+	// Age is how much of the item's lifetime has passed.
+	Age time.Duration `json:"age,omitempty"`
 }
 
 type httpSetResponse struct {
@@ -27,8 +30,21 @@ type httpGetResponse struct {
 	Item  *cache.Item `json:"item,omitempty"`
 	Error string      `json:"error,omitempty"`
 
+	// Age is how much of the item's lifetime has passed.
+	Age time.Duration `json:"age,omitempty"`
+
 	// Tombstone is the version under which the key was removed, when it was.
 	// TombstoneAge is how long ago that was.
 	Tombstone    *uint64       `json:"tombstone,omitempty"`
 	TombstoneAge time.Duration `json:"tombstone_age,omitempty"`
 }
+
+// itemAge is how much of an item's lifetime has passed: what a peer needs to
+// know besides the lifetime, whose clock may differ, to let it end in time.
+func itemAge(it *cache.Item) time.Duration {
+	if it.Expiration <= 0 || it.LastAccess.IsZero() {
+		return 0
+	}
+
+	return max(time.Since(it.LastAccess), 0)
+}
-- 
2.43.0


From b0ec7d21a864cd4b1e6dfce70fd41bd0318c117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:01 +0000
Subject: [PATCH 50/67] fix: the last membership event describes the members as
 they are

---
 pkg/backend/dist_memory_events.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/backend/dist_memory_events.go b/pkg/backend/dist_memory_events.go
index cfa4c5d..70b66ca 100644
--- a/pkg/backend/dist_memory_events.go
+++ b/pkg/backend/dist_memory_events.go
@@ -1,6 +1,7 @@
 package backend
 
 import (
+	"sync"
 	"time"
 
 	"github.com/hyp3rd/hypercache/internal/cluster"
@@ -52,7 +53,15 @@ func (dm *DistMemory) installEventBusObserver() {
 		return
 	}
 
+	// Observers of concurrent changes run concurrently: without the lock a
+	// snapshot taken before the last change could be published after it, and
+	// subscribers would be left with that.
+	var mu sync.Mutex
+
 	dm.membership.OnStateChange(func(_ cluster.NodeID, _ cluster.NodeState, _ uint64) {
+		mu.Lock()
+		defer mu.Unlock()
+
 		dm.eventBus.Publish(eventbus.Event{
 			Type:    "members",
 			Payload: dm.membersSnapshot(),
-- 
2.43.0


From a14d9c8a7db904576d7299689255ab6ad804e5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:29 +0000
Subject: [PATCH 51/67] fix: OIDC or a config file without identities no longer
 opens the server

The open-mode decision ran before the OIDC verifier was attached, so a server
configured with OIDC alone let every caller in as anonymous with all scopes;
so did a HYPERCACHE_AUTH_CONFIG that names no identities.
---
 cmd/hypercache-server/main.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 8382660..687d98c 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -1595,13 +1595,23 @@ func run() int {
 
 	slog.SetDefault(logger)
 
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	// The OIDC verifier counts as configured auth, so it is attached
+	// before the open-mode decision below.
+	if !attachOIDCVerifier(ctx, &cfg, logger) {
+		return 1
+	}
+
 	// Preserve the pre-v2 zero-config dev posture: when neither
-	// HYPERCACHE_AUTH_CONFIG nor HYPERCACHE_AUTH_TOKEN is set, the
-	// loader returns the zero Policy, and we explicitly opt into
-	// AllowAnonymous mode here with a loud warning. Without this,
+	// HYPERCACHE_AUTH_CONFIG nor HYPERCACHE_AUTH_TOKEN is set (nor
+	// OIDC), the loader returns the zero Policy, and we explicitly opt
+	// into AllowAnonymous mode here with a loud warning. Without this,
 	// every protected route would 401 — every existing
-	// `docker run hypercache` would break on upgrade.
-	if !cfg.AuthPolicy.IsConfigured() {
+	// `docker run hypercache` would break on upgrade. A config file
+	// that names no identities stays closed: it says who may come in.
+	if os.Getenv(httpauth.EnvAuthConfig) == "" && !cfg.AuthPolicy.IsConfigured() {
 		logger.Warn(
 			"hypercache-server running with no client API auth configured; set " +
 				httpauth.EnvAuthConfig + " or " + httpauth.EnvAuthToken + " for production",
@@ -1610,13 +1620,6 @@ func run() int {
 		cfg.AuthPolicy.AllowAnonymous = true
 	}
 
-	ctx, cancel := context.WithCancel(context.Background())
-	defer cancel()
-
-	if !attachOIDCVerifier(ctx, &cfg, logger) {
-		return 1
-	}
-
 	logger.Info(
 		"hypercache-server starting",
 		slog.String("api_addr", cfg.APIAddr),
-- 
2.43.0


From a6e5d1aeeb04978cb38cb1cdad5287deaa833708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:27 +0000
Subject: [PATCH 52/67] fix: an item keeps its time of writing between nodes

Over HTTP a copied or forwarded item was given the receiver's current time,
so a server that does not own a key told clients it had been written just now.
---
 pkg/backend/dist_http_server.go    | 8 ++++++--
 pkg/backend/dist_http_transport.go | 6 +++++-
 pkg/backend/dist_http_types.go     | 3 +++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index ce10454..a05e5df 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -382,16 +382,20 @@ func (s *distHTTPServer) handleSet(fctx fiber.Ctx, dm *DistMemory) error {
 		req.Key = string(req.RawKey)
 	}
 
-	it := &cache.Item{ // LastUpdated set to now for replicated writes
+	it := &cache.Item{
 		Key:         req.Key,
 		Value:       req.Value,
 		Expiration:  time.Duration(req.Expiration) * time.Millisecond,
 		Version:     req.Version,
 		Origin:      req.Origin,
-		LastUpdated: time.Now(),
+		LastUpdated: req.LastUpdated,
 		LastAccess:  time.Now().Add(-req.Age),
 	}
 
+	if it.LastUpdated.IsZero() { // the peer does not tell
+		it.LastUpdated = time.Now()
+	}
+
 	// Forwarded arrival from a peer: ownership guard fires if this
 	// node disagrees with the sender's view about K's owners.
 	applyErr := dm.applyForwardedSet(s.ctx, it, req.Replicate)
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index 78c5105..ffcbd67 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -163,6 +163,8 @@ func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item
 		Origin:     item.Origin,
 		Replicate:  replicate,
 		Age:        itemAge(item),
+
+		LastUpdated: item.LastUpdated,
 	}
 
 	if !utf8.ValidString(item.Key) {
@@ -332,6 +334,8 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 			Expiration time.Duration   `json:"expiration"` // nanoseconds, as cache.Item encodes it
 			Version    uint64          `json:"version"`
 			Origin     string          `json:"origin"`
+
+			LastUpdated time.Time `json:"LastUpdated"`
 		}
 
 		err := json.Unmarshal(ib, &mirror)
@@ -354,7 +358,7 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 			Expiration:  mirror.Expiration,
 			Version:     mirror.Version,
 			Origin:      mirror.Origin,
-			LastUpdated: time.Now(),
+			LastUpdated: mirror.LastUpdated,
 			LastAccess:  time.Now().Add(-age),
 		}, true, nil
 	}
diff --git a/pkg/backend/dist_http_types.go b/pkg/backend/dist_http_types.go
index 7c62560..6418223 100644
--- a/pkg/backend/dist_http_types.go
+++ b/pkg/backend/dist_http_types.go
@@ -18,6 +18,9 @@ type httpSetRequest struct { // shared with server & transport
 
 	// Age is how much of the item's lifetime has passed.
 	Age time.Duration `json:"age,omitempty"`
+
+	// LastUpdated is when the version was written.
+	LastUpdated time.Time `json:"last_updated,omitzero"`
 }
 
 type httpSetResponse struct {
-- 
2.43.0


From 0ef746c079efc9a2b17b2ddec3b6276bd7c8bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:55 +0000
Subject: [PATCH 53/67] fix: the loop duration statistics are durations

The eviction and expiration loops recorded the time of day at which they began
as their durations.
---
 hypercache_eviction.go   | 4 +++-
 hypercache_expiration.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/hypercache_eviction.go b/hypercache_eviction.go
index fd6a454..b6105f4 100644
--- a/hypercache_eviction.go
+++ b/hypercache_eviction.go
@@ -121,7 +121,9 @@ func (hyperCache *HyperCache[T]) evictionLoop(ctx context.Context) {
 
 		start := time.Now()
 
-		defer hyperCache.StatsCollector.Timing("eviction_loop_duration", time.Now().UnixNano())
+		defer func() {
+			hyperCache.StatsCollector.Timing("eviction_loop_duration", time.Since(start).Nanoseconds())
+		}()
 
 		var evictedCount uint
 
diff --git a/hypercache_expiration.go b/hypercache_expiration.go
index 9b9a914..5c83320 100644
--- a/hypercache_expiration.go
+++ b/hypercache_expiration.go
@@ -123,7 +123,9 @@ func (hyperCache *HyperCache[T]) expirationLoop(ctx context.Context) {
 
 		start := time.Now()
 
-		defer hyperCache.StatsCollector.Timing("expiration_loop_duration", time.Now().UnixNano())
+		defer func() {
+			hyperCache.StatsCollector.Timing("expiration_loop_duration", time.Since(start).Nanoseconds())
+		}()
 
 		var (
 			expiredCount int64
-- 
2.43.0


From d20298abd6e230b1c19940f83178176c7d1f347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:55 +0000
Subject: [PATCH 54/67] fix: an expired item counts once

Two expiration runs that overlap both counted the items that one of them removed.
---
 hypercache_expiration.go   | 19 +++++++++----------
 pkg/backend/dist_memory.go | 12 ++++++------
 pkg/backend/inmemory.go    |  4 ++--
 pkg/cache/v2/cmap.go       |  8 ++++----
 4 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/hypercache_expiration.go b/hypercache_expiration.go
index 5c83320..235f1a6 100644
--- a/hypercache_expiration.go
+++ b/hypercache_expiration.go
@@ -145,12 +145,12 @@ func (hyperCache *HyperCache[T]) expirationLoop(ctx context.Context) {
 
 		// iterate all expired items and remove them
 		for _, item := range items {
-			live, err := hyperCache.removeExpired(ctx, item)
+			removed, err := hyperCache.removeExpired(ctx, item)
 			if err != nil {
 				return err
 			}
 
-			if live { // rewritten since it was listed
+			if !removed { // rewritten since it was listed, or gone already
 				continue
 			}
 
@@ -189,26 +189,25 @@ func (hyperCache *HyperCache[T]) expirationLoop(ctx context.Context) {
 // expiringBackend is the optional interface of a backend that can check that an
 // item has expired and remove it in one step.
 type expiringBackend interface {
-	RemoveExpired(key string) (live bool)
+	RemoveExpired(key string) (removed, live bool)
 }
 
-// removeExpired removes an item that was found expired. It reports true, and leaves
-// the key alone, when it has been rewritten in the meantime.
+// removeExpired removes an item that was found expired. It reports false, and leaves
+// the key alone, when it has been rewritten or removed in the meantime.
 func (hyperCache *HyperCache[T]) removeExpired(ctx context.Context, item *cache.Item) (bool, error) {
 	expiring, ok := hyperCache.backend.(expiringBackend)
 	if !ok {
-		return false, hyperCache.Remove(ctx, item.Key)
+		return true, hyperCache.Remove(ctx, item.Key)
 	}
 
 	hyperCache.evictionAlgorithm.Delete(item.Key)
 
-	if expiring.RemoveExpired(item.Key) {
+	removed, live := expiring.RemoveExpired(item.Key)
+	if live {
 		hyperCache.evictionAlgorithm.Set(item.Key, item.Value)
-
-		return true, nil
 	}
 
-	return false, nil
+	return removed, nil
 }
 
 // TriggerExpiration exposes a manual expiration trigger (debounced/coalesced internally).
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index a8ccef0..5ba7e8c 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1170,10 +1170,10 @@ func (dm *DistMemory) Remove(ctx context.Context, keys ...string) error {
 }
 
 // RemoveExpired removes the item with the given key from this node if it has
-// expired by now, and reports whether the key holds a live item. Every owner
-// does this for itself: the tombstone supersedes the expired version and
-// nothing newer, wherever that is stored by now.
-func (dm *DistMemory) RemoveExpired(key string) bool {
+// expired by now, and reports whether it did and whether the key holds a live
+// item instead. Every owner does this for itself: the tombstone supersedes the
+// expired version and nothing newer, wherever that is stored by now.
+func (dm *DistMemory) RemoveExpired(key string) (removed, live bool) {
 	sh := dm.shardFor(key)
 
 	sh.applyMu.Lock()
@@ -1181,13 +1181,13 @@ func (dm *DistMemory) RemoveExpired(key string) bool {
 
 	item, ok := sh.items.Get(key)
 	if !ok || !item.Expired() {
-		return ok
+		return false, ok
 	}
 
 	sh.items.Remove(key)
 	dm.buryLocked(sh, key, item.Version, time.Now())
 
-	return false
+	return true, false
 }
 
 // Clear wipes all shards.
diff --git a/pkg/backend/inmemory.go b/pkg/backend/inmemory.go
index b0b378a..695cb59 100644
--- a/pkg/backend/inmemory.go
+++ b/pkg/backend/inmemory.go
@@ -138,8 +138,8 @@ func (cacheBackend *InMemory) Remove(ctx context.Context, keys ...string) error
 }
 
 // RemoveExpired removes the item with the given key if it has expired by now, and
-// reports whether the key holds a live item.
-func (cacheBackend *InMemory) RemoveExpired(key string) bool {
+// reports whether it did and whether the key holds a live item instead.
+func (cacheBackend *InMemory) RemoveExpired(key string) (removed, live bool) {
 	return cacheBackend.items.RemoveExpired(key)
 }
 
diff --git a/pkg/cache/v2/cmap.go b/pkg/cache/v2/cmap.go
index c7b0c54..afd4ddf 100644
--- a/pkg/cache/v2/cmap.go
+++ b/pkg/cache/v2/cmap.go
@@ -246,22 +246,22 @@ func (cm *ConcurrentMap) Remove(key string) {
 }
 
 // RemoveExpired removes the item under the specified key if it has expired, and
-// reports whether the key holds a live item.
-func (cm *ConcurrentMap) RemoveExpired(key string) bool {
+// reports whether it did and whether the key holds a live item instead.
+func (cm *ConcurrentMap) RemoveExpired(key string) (removed, live bool) {
 	shard := cm.GetShard(key)
 	shard.Lock()
 	defer shard.Unlock()
 
 	item, ok := shard.items[key]
 	if !ok || !item.Expired() {
-		return ok
+		return false, ok
 	}
 
 	delete(shard.items, key)
 	shard.count.Add(-1)
 	shard.size.Add(-sizeOf(item))
 
-	return false
+	return true, false
 }
 
 // Clear removes all items from map.
-- 
2.43.0


From 67881ccf12c104170a3dc988b1b2913af6f68c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:29 +0000
Subject: [PATCH 55/67] fix: a Remove or Clear that failed does not take effect
 later

InMemory ran both in a goroutine of their own and returned when the context
ended, while the removal still went on: it could take away an item stored after
the failed call had returned, and an eviction that met the end of the cache
removed an item it did not count.
---
 pkg/backend/inmemory.go | 42 ++++++++++++++---------------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/pkg/backend/inmemory.go b/pkg/backend/inmemory.go
index 695cb59..1d155e5 100644
--- a/pkg/backend/inmemory.go
+++ b/pkg/backend/inmemory.go
@@ -118,23 +118,17 @@ func (cacheBackend *InMemory) List(_ context.Context, filters ...IFilter) ([]*ca
 }
 
 // Remove removes items with the given key from the cacheBackend. If an item is not found, it does nothing.
+// It removes nothing when ctx has ended: an item stored after a failed Remove stays.
 func (cacheBackend *InMemory) Remove(ctx context.Context, keys ...string) error {
-	done := make(chan struct{})
-
-	go func() {
-		defer close(done)
-
-		for _, key := range keys {
-			cacheBackend.items.Remove(key)
-		}
-	}()
-
-	select {
-	case <-done:
-		return nil
-	case <-ctx.Done():
+	if ctx.Err() != nil {
 		return sentinel.ErrTimeoutOrCanceled
 	}
+
+	for _, key := range keys {
+		cacheBackend.items.Remove(key)
+	}
+
+	return nil
 }
 
 // RemoveExpired removes the item with the given key if it has expired by now, and
@@ -143,21 +137,13 @@ func (cacheBackend *InMemory) RemoveExpired(key string) (removed, live bool) {
 	return cacheBackend.items.RemoveExpired(key)
 }
 
-// Clear removes all items from the cacheBackend.
+// Clear removes all items from the cacheBackend, and none when ctx has ended.
 func (cacheBackend *InMemory) Clear(ctx context.Context) error {
-	done := make(chan struct{})
-
-	go func() {
-		defer close(done)
-
-		// clear the cacheBackend
-		cacheBackend.items.Clear()
-	}()
-
-	select {
-	case <-done:
-		return nil
-	case <-ctx.Done():
+	if ctx.Err() != nil {
 		return sentinel.ErrTimeoutOrCanceled
 	}
+
+	cacheBackend.items.Clear()
+
+	return nil
 }
-- 
2.43.0


From 251535e758dd9a836b4270650e195e083db74723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:26 +0000
Subject: [PATCH 56/67] fix: the Redis backends store items with their default
 options

The default serializer was msgpack, which is disabled: every Set failed.
---
 pkg/backend/redis.go         | 3 +--
 pkg/backend/redis_cluster.go | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/backend/redis.go b/pkg/backend/redis.go
index 81dd9b5..480246d 100644
--- a/pkg/backend/redis.go
+++ b/pkg/backend/redis.go
@@ -55,8 +55,7 @@ func NewRedis(redisOptions ...Option[Redis]) (IBackend[Redis], error) {
 	if rb.Serializer == nil {
 		var err error
 
-		// Set a the serializer to default to `msgpack`
-		rb.Serializer, err = serializer.New("msgpack")
+		rb.Serializer, err = serializer.New("default")
 		if err != nil {
 			return nil, err
 		}
diff --git a/pkg/backend/redis_cluster.go b/pkg/backend/redis_cluster.go
index b720814..f43e67e 100644
--- a/pkg/backend/redis_cluster.go
+++ b/pkg/backend/redis_cluster.go
@@ -50,7 +50,7 @@ func NewRedisCluster(redisOptions ...Option[RedisCluster]) (IBackend[RedisCluste
 	if rc.Serializer == nil {
 		var err error
 
-		rc.Serializer, err = serializer.New("msgpack")
+		rc.Serializer, err = serializer.New("default")
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 2767cfec794a19abdcd58490a661455ba0b920b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:26 +0000
Subject: [PATCH 57/67] fix: a Remove or Clear that Redis carried out reports
 no error

Wrap returns a nil *Error for a nil error, which is not a nil error.
---
 pkg/backend/redis.go         | 7 +++++--
 pkg/backend/redis_cluster.go | 7 +++++--
 pkg/backend/redis_common.go  | 5 ++++-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/pkg/backend/redis.go b/pkg/backend/redis.go
index 480246d..adfee4c 100644
--- a/pkg/backend/redis.go
+++ b/pkg/backend/redis.go
@@ -144,7 +144,10 @@ func (cacheBackend *Redis) Remove(ctx context.Context, keys ...string) error {
 
 // Clear removes all items from the cache.
 func (cacheBackend *Redis) Clear(ctx context.Context) error {
-	_, err := cacheBackend.rdb.FlushDB(ctx).Result()
+	err := cacheBackend.rdb.FlushDB(ctx).Err()
+	if err != nil {
+		return ewrap.Wrap(err, "flushing database", ewrap.WithRetry(maxRetries, retriesDelay))
+	}
 
-	return ewrap.Wrap(err, "flushing database", ewrap.WithRetry(maxRetries, retriesDelay))
+	return nil
 }
diff --git a/pkg/backend/redis_cluster.go b/pkg/backend/redis_cluster.go
index f43e67e..c51cabb 100644
--- a/pkg/backend/redis_cluster.go
+++ b/pkg/backend/redis_cluster.go
@@ -129,7 +129,10 @@ func (cacheBackend *RedisCluster) Remove(ctx context.Context, keys ...string) er
 
 // Clear flushes the database.
 func (cacheBackend *RedisCluster) Clear(ctx context.Context) error {
-	_, err := cacheBackend.rdb.FlushDB(ctx).Result()
+	err := cacheBackend.rdb.FlushDB(ctx).Err()
+	if err != nil {
+		return ewrap.Wrap(err, "flushing database", ewrap.WithRetry(clusterMaxRetries, clusterRetriesDelay))
+	}
 
-	return ewrap.Wrap(err, "flushing database", ewrap.WithRetry(clusterMaxRetries, clusterRetriesDelay))
+	return nil
 }
diff --git a/pkg/backend/redis_common.go b/pkg/backend/redis_common.go
index d48a3f9..a88098b 100644
--- a/pkg/backend/redis_common.go
+++ b/pkg/backend/redis_common.go
@@ -139,6 +139,9 @@ func redisRemove(ctx context.Context, client redisCmd, keysSetName string, keys
 	}
 
 	_, err = pipe.Exec(ctx)
+	if err != nil {
+		return ewrap.Wrap(err, "executing pipeline")
+	}
 
-	return ewrap.Wrap(err, "executing pipeline")
+	return nil
 }
-- 
2.43.0


From 990710367d2d19377d5ab4ef92e97f3953af8eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:26 +0000
Subject: [PATCH 58/67] fix: an item in Redis lives as long as its last write
 says

Lifetimes were cut to whole seconds, and an item without one inherited that
of the item it replaced.
---
 pkg/backend/redis_common.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/backend/redis_common.go b/pkg/backend/redis_common.go
index a88098b..b72b41a 100644
--- a/pkg/backend/redis_common.go
+++ b/pkg/backend/redis_common.go
@@ -51,7 +51,9 @@ func redisSet(ctx context.Context, client redisCmd, keysSetName string, item *ca
 	pipe.SAdd(ctx, keysSetName, item.Key)
 
 	if item.Expiration > 0 {
-		pipe.Expire(ctx, item.Key, item.Expiration)
+		pipe.PExpire(ctx, item.Key, item.Expiration)
+	} else { // an overwritten item may have had a lifetime
+		pipe.Persist(ctx, item.Key)
 	}
 
 	_, err = pipe.Exec(ctx)
-- 
2.43.0


From e24bebbee43d8c8e90d255d68e124f255777f1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:26 +0000
Subject: [PATCH 59/67] fix: Count over Redis counts the items, not the set of
 their keys too

A cache at its capacity evicted an item for it.
---
 pkg/backend/redis.go         |  7 +------
 pkg/backend/redis_cluster.go |  7 +------
 pkg/backend/redis_common.go  | 17 +++++++++++++++++
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/pkg/backend/redis.go b/pkg/backend/redis.go
index adfee4c..4f9e5b0 100644
--- a/pkg/backend/redis.go
+++ b/pkg/backend/redis.go
@@ -81,12 +81,7 @@ func (cacheBackend *Redis) Capacity() int {
 
 // Count returns the number of items in the cache.
 func (cacheBackend *Redis) Count(ctx context.Context) int {
-	count, err := cacheBackend.rdb.DBSize(ctx).Result()
-	if err != nil {
-		return 0
-	}
-
-	return int(count)
+	return redisCount(ctx, cacheBackend.rdb, cacheBackend.keysSetName)
 }
 
 // Get retrieves the Item with the given key from the cacheBackend. If the item is not found, it returns nil.
diff --git a/pkg/backend/redis_cluster.go b/pkg/backend/redis_cluster.go
index c51cabb..6639bde 100644
--- a/pkg/backend/redis_cluster.go
+++ b/pkg/backend/redis_cluster.go
@@ -75,12 +75,7 @@ func (cacheBackend *RedisCluster) Capacity() int {
 
 // Count returns the number of keys stored.
 func (cacheBackend *RedisCluster) Count(ctx context.Context) int {
-	count, err := cacheBackend.rdb.DBSize(ctx).Result()
-	if err != nil {
-		return 0
-	}
-
-	return int(count)
+	return redisCount(ctx, cacheBackend.rdb, cacheBackend.keysSetName)
 }
 
 // Get retrieves an item by key.
diff --git a/pkg/backend/redis_common.go b/pkg/backend/redis_common.go
index b72b41a..c07cdf4 100644
--- a/pkg/backend/redis_common.go
+++ b/pkg/backend/redis_common.go
@@ -13,6 +13,8 @@ import (
 
 // redisCmd abstracts the subset of go-redis client API we need.
 type redisCmd interface {
+	DBSize(ctx context.Context) *redis.IntCmd
+	Exists(ctx context.Context, keys ...string) *redis.IntCmd
 	TxPipeline() redis.Pipeliner
 	Pipelined(ctx context.Context, fn func(redis.Pipeliner) error) ([]redis.Cmder, error)
 	SMembers(ctx context.Context, key string) *redis.StringSliceCmd
@@ -66,6 +68,21 @@ func redisSet(ctx context.Context, client redisCmd, keysSetName string, item *ca
 	return nil
 }
 
+// redisCount counts the keys of the database, less the set that holds their names.
+func redisCount(ctx context.Context, client redisCmd, keysSetName string) int {
+	count, err := client.DBSize(ctx).Result()
+	if err != nil {
+		return 0
+	}
+
+	own, err := client.Exists(ctx, keysSetName).Result()
+	if err != nil {
+		return 0
+	}
+
+	return int(max(0, count-own))
+}
+
 func redisList(
 	ctx context.Context,
 	client redisCmd,
-- 
2.43.0


From 9cdbff854a5e7c8d12702caf3687ae8fd1b7d68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:26 +0000
Subject: [PATCH 60/67] fix: a key named like the set of keys does not destroy
 it

Setting it made every later Set fail, removing it lost all items.
---
 pkg/backend/redis_common.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/backend/redis_common.go b/pkg/backend/redis_common.go
index c07cdf4..fb8a935 100644
--- a/pkg/backend/redis_common.go
+++ b/pkg/backend/redis_common.go
@@ -2,12 +2,14 @@ package backend
 
 import (
 	"context"
+	"slices"
 
 	"github.com/hyp3rd/ewrap"
 	"github.com/redis/go-redis/v9"
 
 	"github.com/hyp3rd/hypercache/internal/constants"
 	"github.com/hyp3rd/hypercache/internal/libs/serializer"
+	"github.com/hyp3rd/hypercache/internal/sentinel"
 	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
 )
 
@@ -29,6 +31,10 @@ func redisSet(ctx context.Context, client redisCmd, keysSetName string, item *ca
 		return err
 	}
 
+	if item.Key == keysSetName { // taken by the set of keys
+		return sentinel.ErrInvalidKey
+	}
+
 	// Serialize item
 	data, err := ser.Marshal(item)
 	if err != nil {
@@ -145,6 +151,14 @@ func redisList(
 }
 
 func redisRemove(ctx context.Context, client redisCmd, keysSetName string, keys ...string) error {
+	if slices.Contains(keys, keysSetName) { // never stored, and deleting it loses all others
+		keys = slices.DeleteFunc(slices.Clone(keys), func(key string) bool { return key == keysSetName })
+
+		if len(keys) == 0 {
+			return nil
+		}
+	}
+
 	pipe := client.TxPipeline()
 
 	_, err := pipe.SRem(ctx, keysSetName, keys).Result()
-- 
2.43.0


From bed37e9fd6eae70ccb96dd7875921843968f86c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:02 +0000
Subject: [PATCH 61/67] fix: Set and Remove over a Redis Cluster do not span
 hash slots

Both failed unless the key shared a slot with the set of keys.
---
 pkg/backend/redis_common.go | 51 ++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/pkg/backend/redis_common.go b/pkg/backend/redis_common.go
index fb8a935..5ef49fb 100644
--- a/pkg/backend/redis_common.go
+++ b/pkg/backend/redis_common.go
@@ -22,6 +22,13 @@ type redisCmd interface {
 	SMembers(ctx context.Context, key string) *redis.StringSliceCmd
 }
 
+// isSharded reports whether the client's keys live in hash slots of their own.
+func isSharded(client redisCmd) bool {
+	_, ok := client.(*redis.ClusterClient)
+
+	return ok
+}
+
 func redisSet(ctx context.Context, client redisCmd, keysSetName string, item *cache.Item, ser serializer.ISerializer) error {
 	pipe := client.TxPipeline()
 
@@ -43,6 +50,20 @@ func redisSet(ctx context.Context, client redisCmd, keysSetName string, item *ca
 
 	expiration := item.Expiration.String()
 
+	// Track key
+	pipe.SAdd(ctx, keysSetName, item.Key)
+
+	if isSharded(client) {
+		// A transaction cannot span hash slots. The key goes first: one that is tracked
+		// without data is harmless, data that is not tracked is out of reach.
+		_, err = pipe.Exec(ctx)
+		if err != nil {
+			return ewrap.Wrap(err, "failed to track key in redis")
+		}
+
+		pipe = client.TxPipeline()
+	}
+
 	err = pipe.HSet(
 		ctx,
 		item.Key,
@@ -55,9 +76,6 @@ func redisSet(ctx context.Context, client redisCmd, keysSetName string, item *ca
 		return ewrap.Wrap(err, "failed to set item in redis")
 	}
 
-	// Track key and TTL
-	pipe.SAdd(ctx, keysSetName, item.Key)
-
 	if item.Expiration > 0 {
 		pipe.PExpire(ctx, item.Key, item.Expiration)
 	} else { // an overwritten item may have had a lifetime
@@ -159,6 +177,10 @@ func redisRemove(ctx context.Context, client redisCmd, keysSetName string, keys
 		}
 	}
 
+	if isSharded(client) {
+		return redisRemoveSharded(ctx, client, keysSetName, keys...)
+	}
+
 	pipe := client.TxPipeline()
 
 	_, err := pipe.SRem(ctx, keysSetName, keys).Result()
@@ -178,3 +200,26 @@ func redisRemove(ctx context.Context, client redisCmd, keysSetName string, keys
 
 	return nil
 }
+
+// redisRemoveSharded removes keys that live in different hash slots, the data before the tracking.
+func redisRemoveSharded(ctx context.Context, client redisCmd, keysSetName string, keys ...string) error {
+	_, err := client.Pipelined(ctx, func(pipe redis.Pipeliner) error {
+		for _, key := range keys {
+			pipe.Del(ctx, key)
+		}
+
+		return nil
+	})
+	if err != nil {
+		return ewrap.Wrap(err, "removing keys")
+	}
+
+	_, err = client.Pipelined(ctx, func(pipe redis.Pipeliner) error {
+		return pipe.SRem(ctx, keysSetName, keys).Err()
+	})
+	if err != nil {
+		return ewrap.Wrap(err, "removing keys from set")
+	}
+
+	return nil
+}
-- 
2.43.0


From 1d35b2563728707335119f08d44618efbaa269c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:02 +0000
Subject: [PATCH 62/67] fix: Clear over a Redis Cluster clears every master,
 not one of them

---
 pkg/backend/redis_cluster.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/backend/redis_cluster.go b/pkg/backend/redis_cluster.go
index 6639bde..b1c9113 100644
--- a/pkg/backend/redis_cluster.go
+++ b/pkg/backend/redis_cluster.go
@@ -124,7 +124,9 @@ func (cacheBackend *RedisCluster) Remove(ctx context.Context, keys ...string) er
 
 // Clear flushes the database.
 func (cacheBackend *RedisCluster) Clear(ctx context.Context) error {
-	err := cacheBackend.rdb.FlushDB(ctx).Err()
+	err := cacheBackend.rdb.ForEachMaster(ctx, func(ctx context.Context, master *redis.Client) error {
+		return master.FlushDB(ctx).Err()
+	})
 	if err != nil {
 		return ewrap.Wrap(err, "flushing database", ewrap.WithRetry(clusterMaxRetries, clusterRetriesDelay))
 	}
-- 
2.43.0


From 7a7fff1708167f7d56869a0ff345e88659cab2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:29 +0000
Subject: [PATCH 63/67] fix: an expired item gives its size back to the cache

---
 hypercache_expiration.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hypercache_expiration.go b/hypercache_expiration.go
index 235f1a6..d8af562 100644
--- a/hypercache_expiration.go
+++ b/hypercache_expiration.go
@@ -207,6 +207,10 @@ func (hyperCache *HyperCache[T]) removeExpired(ctx context.Context, item *cache.
 		hyperCache.evictionAlgorithm.Set(item.Key, item.Value)
 	}
 
+	if _, measured := hyperCache.backend.(allocationBackend); removed && !measured {
+		hyperCache.memoryAllocation.Add(-item.Size)
+	}
+
 	return removed, nil
 }
 
-- 
2.43.0


From f7a1ace59125b1306876998398f3ce88caf9b2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:00 +0000
Subject: [PATCH 64/67] fix: expiring an item over Redis spares one that was
 rewritten meanwhile

---
 hypercache_expiration.go     |  4 +--
 pkg/backend/dist_memory.go   |  2 +-
 pkg/backend/inmemory.go      |  2 +-
 pkg/backend/redis.go         |  6 +++++
 pkg/backend/redis_cluster.go |  6 +++++
 pkg/backend/redis_common.go  | 51 ++++++++++++++++++++++++++++++++++++
 6 files changed, 67 insertions(+), 4 deletions(-)

diff --git a/hypercache_expiration.go b/hypercache_expiration.go
index d8af562..dae6dbd 100644
--- a/hypercache_expiration.go
+++ b/hypercache_expiration.go
@@ -189,7 +189,7 @@ func (hyperCache *HyperCache[T]) expirationLoop(ctx context.Context) {
 // expiringBackend is the optional interface of a backend that can check that an
 // item has expired and remove it in one step.
 type expiringBackend interface {
-	RemoveExpired(key string) (removed, live bool)
+	RemoveExpired(ctx context.Context, key string) (removed, live bool)
 }
 
 // removeExpired removes an item that was found expired. It reports false, and leaves
@@ -202,7 +202,7 @@ func (hyperCache *HyperCache[T]) removeExpired(ctx context.Context, item *cache.
 
 	hyperCache.evictionAlgorithm.Delete(item.Key)
 
-	removed, live := expiring.RemoveExpired(item.Key)
+	removed, live := expiring.RemoveExpired(ctx, item.Key)
 	if live {
 		hyperCache.evictionAlgorithm.Set(item.Key, item.Value)
 	}
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 5ba7e8c..f017abf 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1173,7 +1173,7 @@ func (dm *DistMemory) Remove(ctx context.Context, keys ...string) error {
 // expired by now, and reports whether it did and whether the key holds a live
 // item instead. Every owner does this for itself: the tombstone supersedes the
 // expired version and nothing newer, wherever that is stored by now.
-func (dm *DistMemory) RemoveExpired(key string) (removed, live bool) {
+func (dm *DistMemory) RemoveExpired(_ context.Context, key string) (removed, live bool) {
 	sh := dm.shardFor(key)
 
 	sh.applyMu.Lock()
diff --git a/pkg/backend/inmemory.go b/pkg/backend/inmemory.go
index 1d155e5..a965de5 100644
--- a/pkg/backend/inmemory.go
+++ b/pkg/backend/inmemory.go
@@ -133,7 +133,7 @@ func (cacheBackend *InMemory) Remove(ctx context.Context, keys ...string) error
 
 // RemoveExpired removes the item with the given key if it has expired by now, and
 // reports whether it did and whether the key holds a live item instead.
-func (cacheBackend *InMemory) RemoveExpired(key string) (removed, live bool) {
+func (cacheBackend *InMemory) RemoveExpired(_ context.Context, key string) (removed, live bool) {
 	return cacheBackend.items.RemoveExpired(key)
 }
 
diff --git a/pkg/backend/redis.go b/pkg/backend/redis.go
index 4f9e5b0..371f32b 100644
--- a/pkg/backend/redis.go
+++ b/pkg/backend/redis.go
@@ -137,6 +137,12 @@ func (cacheBackend *Redis) Remove(ctx context.Context, keys ...string) error {
 	return redisRemove(ctx, cacheBackend.rdb, cacheBackend.keysSetName, keys...)
 }
 
+// RemoveExpired removes the item with the given key if it has expired by now, and
+// reports whether it did and whether the key holds a live item instead.
+func (cacheBackend *Redis) RemoveExpired(ctx context.Context, key string) (removed, live bool) {
+	return redisRemoveExpired(ctx, cacheBackend.rdb, cacheBackend.keysSetName, key, cacheBackend.Serializer)
+}
+
 // Clear removes all items from the cache.
 func (cacheBackend *Redis) Clear(ctx context.Context) error {
 	err := cacheBackend.rdb.FlushDB(ctx).Err()
diff --git a/pkg/backend/redis_cluster.go b/pkg/backend/redis_cluster.go
index b1c9113..9e92db1 100644
--- a/pkg/backend/redis_cluster.go
+++ b/pkg/backend/redis_cluster.go
@@ -122,6 +122,12 @@ func (cacheBackend *RedisCluster) Remove(ctx context.Context, keys ...string) er
 	return redisRemove(ctx, cacheBackend.rdb, cacheBackend.keysSetName, keys...)
 }
 
+// RemoveExpired removes the item with the given key if it has expired by now, and
+// reports whether it did and whether the key holds a live item instead.
+func (cacheBackend *RedisCluster) RemoveExpired(ctx context.Context, key string) (removed, live bool) {
+	return redisRemoveExpired(ctx, cacheBackend.rdb, cacheBackend.keysSetName, key, cacheBackend.Serializer)
+}
+
 // Clear flushes the database.
 func (cacheBackend *RedisCluster) Clear(ctx context.Context) error {
 	err := cacheBackend.rdb.ForEachMaster(ctx, func(ctx context.Context, master *redis.Client) error {
diff --git a/pkg/backend/redis_common.go b/pkg/backend/redis_common.go
index 5ef49fb..4825775 100644
--- a/pkg/backend/redis_common.go
+++ b/pkg/backend/redis_common.go
@@ -2,6 +2,7 @@ package backend
 
 import (
 	"context"
+	"errors"
 	"slices"
 
 	"github.com/hyp3rd/ewrap"
@@ -20,6 +21,7 @@ type redisCmd interface {
 	TxPipeline() redis.Pipeliner
 	Pipelined(ctx context.Context, fn func(redis.Pipeliner) error) ([]redis.Cmder, error)
 	SMembers(ctx context.Context, key string) *redis.StringSliceCmd
+	Watch(ctx context.Context, fn func(*redis.Tx) error, keys ...string) error
 }
 
 // isSharded reports whether the client's keys live in hash slots of their own.
@@ -201,6 +203,55 @@ func redisRemove(ctx context.Context, client redisCmd, keysSetName string, keys
 	return nil
 }
 
+// redisRemoveExpired removes an item unless it has been rewritten since it expired.
+func redisRemoveExpired(
+	ctx context.Context,
+	client redisCmd,
+	keysSetName, key string,
+	ser serializer.ISerializer,
+) (removed, live bool) {
+	err := client.Watch(ctx, func(tx *redis.Tx) error {
+		removed, live = false, false
+
+		data, err := tx.HGet(ctx, key, "data").Bytes()
+		if errors.Is(err, redis.Nil) {
+			return nil
+		}
+
+		if err != nil {
+			return err
+		}
+
+		item := &cache.Item{}
+
+		err = ser.Unmarshal(data, item)
+		if err != nil {
+			return err
+		}
+
+		live = !item.Expired()
+		if live {
+			return nil
+		}
+
+		_, err = tx.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
+			pipe.Del(ctx, key)
+
+			if !isSharded(client) { // a transaction cannot span hash slots
+				pipe.SRem(ctx, keysSetName, key)
+			}
+
+			return nil
+		})
+		removed = err == nil
+
+		return err
+	}, key)
+
+	// What cannot be told to be gone counts as live.
+	return removed, live || err != nil
+}
+
 // redisRemoveSharded removes keys that live in different hash slots, the data before the tracking.
 func redisRemoveSharded(ctx context.Context, client redisCmd, keysSetName string, keys ...string) error {
 	_, err := client.Pipelined(ctx, func(pipe redis.Pipeliner) error {
-- 
2.43.0


From a31006f4eab859f26c98e78af997774e63d5017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:11 +0000
Subject: [PATCH 65/67] fix: a listing over Redis reports a filter that failed,
 whatever follows it

---
 pkg/backend/redis_common.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/backend/redis_common.go b/pkg/backend/redis_common.go
index 4825775..aac0a78 100644
--- a/pkg/backend/redis_common.go
+++ b/pkg/backend/redis_common.go
@@ -164,10 +164,13 @@ func redisList(
 	if len(filters) > 0 {
 		for _, filter := range filters {
 			items, err = filter.ApplyFilter(constants.RedisBackend, items)
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 
-	return items, err
+	return items, nil
 }
 
 func redisRemove(ctx context.Context, client redisCmd, keysSetName string, keys ...string) error {
-- 
2.43.0


From 08bc5e7cf497e05c37bee0beb852d800ea2264c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:13 +0000
Subject: [PATCH 66/67] fix: a listing of exactly as many keys as its limit is
 complete

---
 pkg/backend/dist_keys.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/backend/dist_keys.go b/pkg/backend/dist_keys.go
index 1653c25..e8aa60a 100644
--- a/pkg/backend/dist_keys.go
+++ b/pkg/backend/dist_keys.go
@@ -108,6 +108,10 @@ func (a *listKeysAccumulator) tryAdd(keys []string) {
 	defer a.mu.Unlock()
 
 	for _, k := range keys {
+		if _, known := a.dedup[k]; known {
+			continue
+		}
+
 		if len(a.dedup) >= a.maxKeys {
 			a.truncated = true
 
-- 
2.43.0


From 60d720ee378eff11f9f8cf8be5afd18c3d45836e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:22 +0000
Subject: [PATCH 67/67] fix: a hint refused by the global caps displaces no
 other

---
 pkg/backend/dist_memory.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index f017abf..18700a5 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3112,16 +3112,15 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 
 	queue := dm.hints[nodeID]
 
-	if dm.hintMaxPerNode > 0 && len(queue) >= dm.hintMaxPerNode { // drop oldest
-		dropped := queue[0]
-
-		queue = queue[1:]
-		dm.hints[nodeID] = queue
-
-		dm.adjustHintAccounting(-1, -dropped.size)
+	// A full queue makes room by dropping its oldest, but not for a hint that
+	// the global caps refuse all the same.
+	drop, dropSize := 0, int64(0)
+	if dm.hintMaxPerNode > 0 && len(queue) >= dm.hintMaxPerNode {
+		drop, dropSize = 1, queue[0].size
 	}
 
-	if (dm.hintMaxTotal > 0 && dm.hintTotal >= dm.hintMaxTotal) || (dm.hintMaxBytes > 0 && dm.hintBytes+size > dm.hintMaxBytes) {
+	if (dm.hintMaxTotal > 0 && dm.hintTotal-drop >= dm.hintMaxTotal) ||
+		(dm.hintMaxBytes > 0 && dm.hintBytes-dropSize+size > dm.hintMaxBytes) {
 		dm.hintsMu.Unlock()
 		dm.metrics.hintedGlobalDropped.Add(1)
 
@@ -3132,6 +3131,9 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 		return
 	}
 
+	queue = queue[drop:]
+	dm.adjustHintAccounting(-drop, -dropSize)
+
 	cloned := *item
 
 	now := time.Now()
-- 
2.43.0

