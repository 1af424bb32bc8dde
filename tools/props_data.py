def anch(files, mech, state=(), observe=(), hook=None):
    return {
        "files": list(files),
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(observe),
        "hook_needed": hook,
    }


def q(over, text):
    return {"over": list(over), "text": text}


NOTE = ("Exploration by seeded simulation: no violation in the schedules, inputs and faults explored; "
        "one seed is one repeatable execution. Trusts the simulator's scheduler hooks and the oracle; ")

PROPS = [
    dict(
        id="C01", title="Key ownership is a function of the live member set",
        statement="Once membership changes have settled, every node that knows the same live members computes the same owners for every key: distinct live members, exactly min(replication factor, live members) of them, none of them dead or removed, whatever order or overlap the changes arrived in. A membership change moves only the keys the changed node gains or loses.",
        quantifier=q(["schedules", "histories", "configurations"], "every interleaving and order of joins, updates, removals, deaths and revivals, every ring configuration, every key"),
        why_tests_cant="The tests build rings sequentially from fixed node lists; they never overlap two membership mutations nor compare nodes that reached a member set by different histories.",
        anchors=anch(["internal/cluster/ring.go", "internal/cluster/membership.go"],
                     [("ring rebuild on membership change", "Membership.Upsert/Remove/Mark/Refute -> Ring.Build"), ("clockwise distinct-owner walk", "Ring.Lookup")],
                     [("nodes", "current members", "Membership.nodes"), ("vnodes", "sorted virtual nodes", "Ring.vnodes")],
                     ["Ring.Lookup", "Membership.List"]),
        note=NOTE + "ownership judged against an independently built ring and structural rules, so a different but consistent hash placement is accepted."),
    dict(
        id="C02", title="Membership changes are atomic, versioned once and announced once",
        statement="Concurrent membership operations behave as if executed one at a time: each real change advances the membership version by exactly one and is announced exactly once, to every observer, with the state and version it produced; an operation that changes nothing is silent. Snapshots are consistent and changing a snapshot never changes the membership.",
        quantifier=q(["schedules", "histories"], "every interleaving of any sequence of membership operations and reads"),
        why_tests_cant="The tests call the operations one after another and check a few transitions; they do not overlap them or check histories for a sequential explanation.",
        anchors=anch(["internal/cluster/membership.go", "internal/cluster/version.go"],
                     [("mutations under one lock, notification after commit", "Membership.Upsert/Mark/Refute/Remove, notify"), ("monotonic version", "MembershipVersion.Next")],
                     [("ver", "membership version", "Membership.ver")],
                     ["Membership.List", "Membership.Version", "OnStateChange callback"]),
        note=NOTE + "histories checked with porcupine against a sequential model of the operations."),
    dict(
        id="C03", title="Event bus delivers in version order and loses only to full buffers",
        statement="Every subscriber sees events in strictly increasing version order, unchanged, and only events published while it was subscribed; an event is missing only if the subscriber's buffer was full at that moment, and every such loss is counted. Publishing never waits for a subscriber, and unsubscribing (explicitly, by cancellation, or both at once) closes the channel exactly once with no delivery afterwards.",
        quantifier=q(["schedules", "histories"], "every interleaving of publishers, subscribers, unsubscribes and cancellations, and every reading rhythm"),
        why_tests_cant="The tests publish from one goroutine or only count deliveries; ordering across publishers and races between publish, unsubscribe and cancellation need particular interleavings.",
        anchors=anch(["internal/eventbus/bus.go"],
                     [("version stamp and fan-out", "Bus.Publish"), ("once-only close", "Bus.Subscribe unsub closure")],
                     [("subscribers", "open subscriptions", "Bus.subscribers"), ("dropped", "lost deliveries", "Bus.dropped")],
                     ["subscriber channel", "Bus.Dropped", "Bus.SubscriberCount"]),
        note=NOTE + "delivery, loss and drop counts are judged from the recorded history."),
    dict(
        id="C04", title="Recorded statistics are never lost or distorted",
        statement="After any concurrent recording, count, sum, minimum, maximum and mean of every statistic equal those of the values recorded, exactly. The sample window never exceeds its size, holds only recorded values, keeps every uncontended recent one, and snapshots handed out are isolated from the collector.",
        quantifier=q(["schedules", "inputs", "configurations"], "every interleaving of recorders and readers, every value sequence and window size"),
        why_tests_cant="The tests hammer one key from real goroutines and compare the count; lost updates in the aggregates and window need a switch at a specific statement.",
        anchors=anch(["pkg/stats/histogramcollector.go"],
                     [("atomic aggregates and CAS extremes", "HistogramStatsCollector.record"), ("bounded ring buffer", "statShard.samples"), ("shard creation race", "HistogramStatsCollector.shard")],
                     [("statShard", "per-statistic aggregates", "histogramcollector.go")],
                     ["GetStats", "Mean", "Percentile"]),
        note=NOTE + "aggregates compared with an exact replay of the recorded values."),
    dict(
        id="C05", title="A client call fails over until a node can answer it, and no further",
        statement="Every client call tries known endpoints, each at most once per round, moving on only after a failure another node could repair (transport error, 5xx, draining); it returns the first decisive answer, succeeds whenever some tried node answers it, and reports failure only after every candidate failed. Caller errors, a missing key and a cancelled or expired context end the call at once; concurrent calls never see each other's answers. Calls spread over all endpoints.",
        quantifier=q(["schedules", "faults", "histories"], "every combination of node outages, slow, reset or truncated connections, answers, deadlines and concurrent callers"),
        why_tests_cant="The tests script one or two httptest servers with immediate answers; they do not cut connections mid-body, overlap callers with cancellations, or check every attempt of every call.",
        anchors=anch(["pkg/client/transport.go", "pkg/client/client.go", "pkg/client/batch.go", "pkg/client/errors.go"],
                     [("per-call failover loop", "Client.do"), ("random starting order", "Client.failoverOrder"), ("error classification", "classifyResponse, isRetryable")],
                     [("endpoints", "current endpoint view", "Client.endpoints")],
                     ["Client.Get/Set/Delete/Batch*", "HTTP attempts"]),
        note=NOTE + "the nodes are scripted HTTP servers."),
    dict(
        id="C06", title="The client's view follows the cluster and its lifecycle is clean",
        statement="With refresh on, the client's endpoint view always equals some view a node really served (or the seeds before the first), follows topology changes within a bounded number of intervals once a known node or seed is reachable, never becomes empty, and a failed refresh leaves it unchanged. Close may be called at any time, repeatedly and concurrently; it returns promptly, stops refreshing for good and leaks nothing.",
        quantifier=q(["schedules", "faults", "histories"], "every history of membership changes, outages and malformed answers, every interleaving of refresh, calls and Close"),
        why_tests_cant="The tests run one refresh against a healthy server; they do not change topology during outages, nor overlap Close with Close, refresh and calls.",
        anchors=anch(["pkg/client/topology.go", "pkg/client/client.go", "pkg/client/transport.go"],
                     [("periodic refresh loop", "Client.topologyRefreshLoop, RefreshTopology"), ("once-only close", "Client.Close"), ("seeds as fallback", "Client.failoverOrder")],
                     [("endpoints", "current endpoint view", "Client.endpoints")],
                     ["Client.Endpoints", "Client.RefreshTopology", "Client.Close"]),
        note=NOTE + "the cluster is scripted; bounds count refresh intervals in virtual time."),
    dict(
        id="C07", title="Client payloads arrive and return unchanged",
        statement="Whatever the key, value and TTL, a client operation reaches the node with exactly that key, those bytes and that lifetime (never permanent when a TTL was given), and reads return exactly the stored bytes and metadata. Every batch result belongs to the item at its position and says what really happened to it; a truncated answer is an error, never a shorter value.",
        quantifier=q(["inputs", "faults", "schedules"], "every key, value, TTL and batch, under truncated, reset and delayed connections"),
        why_tests_cant="The tests use short ASCII keys and complete responses; they do not cut responses at arbitrary byte offsets or use hostile keys and sub-millisecond lifetimes.",
        anchors=anch(["pkg/client/client.go", "pkg/client/batch.go", "pkg/client/transport.go"],
                     [("key escaping and TTL encoding", "Client.Set/Get/Delete"), ("wire encoding of batches", "Client.BatchSet"), ("item decoding", "decodeEnvelopeValue, itemFromBatchGet")],
                     [], ["HTTP requests at the node", "client return values"]),
        note=NOTE + "the node is a scripted server over a reference store."),
    dict(
        id="C08", title="Every client request carries the configured credentials",
        statement="A client configured with a bearer token, basic credentials or OIDC client credentials sends valid ones on every attempt to every endpoint, including refreshes, retries and failovers, whatever the order of its options; it keeps the caller's transport and timeout. OIDC tokens are reused while valid, renewed before use once expired, and an identity-provider failure fails only the calls that needed it.",
        quantifier=q(["schedules", "faults", "configurations"], "every option order, token lifetime, identity-provider outage and interleaving of callers"),
        why_tests_cant="The tests check one option at a time against one server with one request; they do not vary option order, expire tokens under concurrency or fail the identity provider mid-run.",
        anchors=anch(["pkg/client/options.go", "pkg/client/oidc_logging.go", "pkg/client/client.go"],
                     [("credential round-trippers", "WithBearerAuth/WithBasicAuth/WithOIDCClientCredentials, headerAuthTransport")],
                     [("http", "client transport chain", "Client.http")],
                     ["Authorization header and TLS state at the node"]),
        note=NOTE + "the identity provider and nodes are scripted; TLS handshakes are simulated."),
    dict(
        id="C09", title="Only properly authenticated and authorised requests pass",
        statement="For every policy and request the middleware admits exactly the requests whose credentials the policy accepts and whose identity holds every required scope: missing or wrong credentials get 401, missing scopes 403, and the identity attached is that of the presented credential, never another request's. A policy file that is torn, malformed or incomplete fails to load and never yields a more permissive policy than written.",
        quantifier=q(["inputs", "schedules", "configurations", "faults"], "every policy, credential mix and interleaving of requests, every truncation or corruption of the policy file"),
        why_tests_cant="The tests call the middleware with one request per policy; fiber reuses request contexts and buffers, so leaks between overlapping requests need concurrency, and file corruption needs every cut.",
        anchors=anch(["pkg/httpauth/policy.go", "pkg/httpauth/loader.go"],
                     [("credential resolution", "Policy.Middleware, resolve"), ("policy file decoding", "LoadFromEnv, loadFromFile")],
                     [("identity", "resolved caller", "fiber.Ctx Locals")],
                     ["HTTP status", "identity seen by the handler"]),
        note=NOTE + "decisions compared with an independent reference resolver; invalid credentials under AllowAnonymous may be refused or treated as anonymous."),
    dict(
        id="C10", title="The in-memory backend is one atomic register per key",
        statement="Whatever other keys, listings, counts and clears do at the same time, every key of the in-memory backend behaves as one atomic register: a read returns the last write, a removed key is absent, a refused or cancelled operation leaves no partial trace. At rest the count equals the number of items listed, each listed exactly once.",
        quantifier=q(["schedules", "histories"], "every interleaving of any operations on any keys"),
        why_tests_cant="The tests run goroutines against real time and check the final map; a lost update or a count drifting by one needs a switch between two statements of one shard.",
        anchors=anch(["pkg/backend/inmemory.go", "pkg/cache/v2/cmap.go", "pkg/cache/v2/item.go"],
                     [("sharded map, one lock per shard", "ConcurrentMap.Set/GetCopy/Remove/RemoveExpired/Touch"), ("count kept beside the shards", "ConcurrentMapShard.count, ConcurrentMap.Count")],
                     [("items", "stored items", "ConcurrentMap.shards")],
                     ["InMemory.Get/Set/Remove/List/Count/Clear"]),
        note=NOTE + "per-key histories checked with porcupine."),
    dict(
        id="C11", title="Cache operations on a key are linearizable",
        statement="On a cache that has room, concurrent Set, Get, GetWithInfo, GetMultiple, GetOrSet, Remove, Clear and List behave, for every key, as if executed one at a time: every read returns the latest completed or an overlapping write, nothing acknowledged is lost while background eviction and expiration run, and nothing removed comes back. GetOrSet is a read that missed followed by a write.",
        quantifier=q(["schedules", "histories"], "every interleaving of client operations and background passes"),
        why_tests_cant="The tests use the cache from one goroutine, or from many without checking what each read returned; lost writes need an expiration or eviction pass at a particular moment.",
        anchors=anch(["hypercache_io.go", "hypercache_expiration.go", "hypercache_eviction.go"],
                     [("write path", "HyperCache.Set, storeItem"), ("read path", "HyperCache.Get*, touchItem"), ("background removal", "expirationLoop, evictionLoop")],
                     [("backend", "the store", "HyperCache.backend")],
                     ["HyperCache public API"]),
        note=NOTE + "per-key histories checked with porcupine."),
    dict(
        id="C12", title="A cache over capacity is brought back to exactly its capacity",
        statement="Whatever clients did and however the capacity was changed, once writing stops a bounded number of eviction runs (or, with immediate eviction, the writes themselves) leave at most capacity items, never fewer than capacity if more were there; an unlimited cache evicts nothing. With immediate eviction a single client never sees more than capacity items after its write.",
        quantifier=q(["schedules", "histories", "configurations"], "every algorithm, shard count, allowance and capacity history, every interleaving of clients and eviction"),
        why_tests_cant="The tests fill one cache from one goroutine with default settings; items the policy lost track of appear only after capacity changes or overlapping writes and evictions.",
        anchors=anch(["hypercache_eviction.go", "hypercache_io.go", "pkg/eviction"],
                     [("eviction run", "evictionLoop, evictExcess, victims, excessKeys"), ("capacity change", "HyperCache.SetCapacity")],
                     [("evictionAlgorithm", "ranking of keys", "HyperCache.evictionAlgorithm")],
                     ["HyperCache.Count", "HyperCache.List"]),
        note=NOTE + "the bound is the number of runs the per-run allowance needs, plus those spent on keys already gone."),
    dict(
        id="C13", title="Memory is accounted for exactly and the limit holds",
        statement="At rest the reported allocation equals the summed size of the stored items, whatever was overwritten, removed, evicted, expired, refused or cleared concurrently. With a limit, the stored items never exceed it at any instant, and a write that fits into what is left, nothing else being written, is accepted; one that does not is refused and changes nothing.",
        quantifier=q(["schedules", "inputs", "histories"], "every interleaving of writers, removers and background passes, every value size"),
        why_tests_cant="The tests add and remove items one after another; drift comes from an overwrite, removal or expiry landing between another operation's read and update of the account.",
        anchors=anch(["hypercache_io.go", "hypercache.go", "pkg/backend/inmemory.go", "pkg/cache/v2/cmap.go", "pkg/cache/v2/item.go"],
                     [("reservation and limit check", "HyperCache.storeItem"), ("size kept per shard", "ConcurrentMap.Size, InMemory.Allocation"), ("value sizing", "Item.SetSize")],
                     [("memoryAllocation", "bytes reserved by writes in flight", "HyperCache.memoryAllocation")],
                     ["HyperCache.Allocation", "HyperCache.Set error", "HyperCache.List sizes"]),
        note=NOTE + "what must and may be stored at each instant is derived from the history of acknowledged and refused writes."),
    dict(
        id="C14", title="Items live exactly their lifetime and then go away",
        statement="An item is readable until its lifetime has passed since it was last written or read, and never after; one without a lifetime never expires, and rewriting a key starts a new life. Expired items are physically removed within one expiration interval, or by a manual trigger when none is set, and no pass ever removes a live item, even one rewritten while the pass runs.",
        quantifier=q(["schedules", "histories", "configurations"], "every sequence of writes, reads, triggers and waits, every lifetime and interval, every interleaving with expiration passes"),
        why_tests_cant="The tests sleep real time and check one key; a pass overlapping a rewrite, a trigger lost to debounce or a lifetime ending between two reads need virtual time and chosen schedules.",
        anchors=anch(["hypercache_expiration.go", "hypercache_io.go", "pkg/cache/v2/item.go", "pkg/cache/v2/cmap.go"],
                     [("sliding lifetime", "Item.Expired, touchItem, ConcurrentMap.Touch"), ("expiration pass", "expirationLoop, removeExpired"), ("coalesced, debounced triggers", "execTriggerExpiration, handleExpirationSelect")],
                     [("LastAccess, Expiration", "life of an item", "cache.Item")],
                     ["HyperCache.Get*/GetOrSet/List/Count"]),
        note=NOTE + "at the exact instant a lifetime ends both answers are accepted."),
    dict(
        id="C15", title="Eviction follows the configured policy",
        statement="LRU, LFU, Clock, CAWOLFU and ARC evict what their policy ranks last, counting reads as well as writes; they never exceed their capacity, never name a key they do not hold, forget deleted keys, and find a victim whenever they hold a key. Concurrent use is linearizable, sharding preserves this per shard, and a whole cache holds exactly the items its policy leaves.",
        quantifier=q(["histories", "schedules", "configurations"], "every sequence of operations, every capacity, shard count and interleaving"),
        why_tests_cant="The tests check a few hand-written sequences per algorithm; ties, re-insertions, deletions in the middle and long histories reach states they never visit.",
        anchors=anch(["pkg/eviction/lru.go", "pkg/eviction/lfu.go", "pkg/eviction/clock.go", "pkg/eviction/cawolfu.go", "pkg/eviction/arc.go", "pkg/eviction/sharded.go", "hypercache_eviction.go"],
                     [("ranking structures", "LRU list, LFU heap, Clock hand, CAWOLFU counts, ARC lists"), ("shard routing", "eviction.Sharded")],
                     [("items", "tracked keys", "each algorithm")],
                     ["IAlgorithm.Set/Get/Delete/Evict", "HyperCache.List"]),
        note=NOTE + "references are small value-semantics implementations of each documented policy; ARC, which is not selectable by name for a whole cache, is judged by its invariants."),
    dict(
        id="C16", title="The worker pool runs every accepted job exactly once",
        statement="Every job accepted before shutdown runs exactly once, whatever fails, whether or not anyone reads the errors, and however often the pool is resized; after a resize to n, n jobs run in parallel and no more. Shutdown returns once accepted jobs have finished, may be called repeatedly and concurrently with enqueues and resizes, and no job starts afterwards.",
        quantifier=q(["schedules", "histories"], "every interleaving of enqueue, resize, shutdown and job completion"),
        why_tests_cant="The tests enqueue a few jobs and shut down; a worker lost to an unread error or a resize overlapping a shutdown needs a particular order.",
        anchors=anch(["pool.go"],
                     [("job channel and workers", "WorkerPool.Enqueue, worker"), ("orderly stop", "WorkerPool.Shutdown"), ("worker count", "WorkerPool.Resize")],
                     [("jobs", "queued jobs", "WorkerPool.jobs")],
                     ["job side effects", "WorkerPool.Errors"]),
        note=NOTE + "pools of at least one worker."),
    dict(
        id="C17", title="A cache can be stopped at any moment, by anyone",
        statement="Stop may be called at any moment, repeatedly and concurrently with itself and every other operation: it returns promptly, ends every background goroutine, and never panics, blocks or crashes a caller; operations on a stopped cache still return. Cancelling the construction context ends the background loops as well.",
        quantifier=q(["schedules", "histories"], "every interleaving of Stop with operations, triggers, ticks and other Stops"),
        why_tests_cant="The tests stop an idle cache once; a tick, trigger or job overlapping the shutdown needs a particular interleaving.",
        anchors=anch(["hypercache.go", "hypercache_construct.go", "hypercache_expiration.go", "hypercache_eviction.go", "pool.go"],
                     [("loop cancellation", "HyperCache.Stop, startBackgroundJobs"), ("drain of background work", "WorkerPool.Shutdown")],
                     [("bgCancel", "ends the loops", "HyperCache.bgCancel")],
                     ["return of Stop and of operations", "goroutines left"]),
        note=NOTE + "goroutines left are counted by the simulated scheduler."),
    dict(
        id="C18", title="Nothing handed out ever belongs to another key or write",
        statement="While a cache evicts, expires, refuses writes, changes capacity and recycles its pooled items, every value, item and listing it hands out carries the key it was asked for and exactly the value, size and lifetime of one write to that key; and it stays so after being handed out.",
        quantifier=q(["schedules", "histories", "faults"], "every interleaving of operations with eviction, expiration, refused and cancelled writes"),
        why_tests_cant="The tests read back what they just wrote; a pooled item reused while still referenced needs a removal between another reader's lookup and copy.",
        anchors=anch(["pkg/cache/v2/item.go", "pkg/cache/v2/cmap.go", "hypercache_io.go", "hypercache_expiration.go", "pkg/backend/inmemory.go"],
                     [("item pool", "ItemPoolManager.Get/Put"), ("copies on read", "ConcurrentMap.GetCopy, InMemory.List")],
                     [("pool", "recycled items", "ItemPoolManager.pool")],
                     ["HyperCache.Get*/List"]),
        note=NOTE + "values carry the key and number of the write that made them."),
    dict(
        id="C19", title="A healthy cluster behaves like one cache",
        statement="With every node up and the network only slow, writes, reads and removals through any node succeed, and a read returns the value of the last write completed before it began or of one overlapping it, whatever the consistency levels, replication factor and background repair, synchronisation or rebalancing. At rest every owner holds the same value, that of a write nothing later replaced; a removed key is held by none.",
        quantifier=q(["schedules", "histories", "configurations"], "every interleaving of clients on every node, every message order, number of nodes, replication factor and consistency level"),
        why_tests_cant="The tests write through one node and poll another; a forwarded write overtaken by a later one, or a repair carrying an older copy, needs a particular order of deliveries.",
        anchors=anch(["pkg/backend/dist_memory.go", "pkg/backend/dist_transport.go", "internal/cluster/ring.go"],
                     [("routing and replication", "setImpl, handleForwardPrimary, writeToOwners, removeImpl"), ("versions", "stampVersion, applyIfNewer, chooseNewer"), ("reads", "getImpl, getWithConsistency, repairReplicas")],
                     [("items, tombs", "copies and tombstones per shard", "distShard")],
                     ["DistMemory.Set/Get/Remove on every node", "copies held by owners"]),
        note=NOTE + "overlapping writes and removals of one key are exempt from agreement at rest unless anti-entropy runs, since a removal carries no version between nodes."),
    dict(
        id="C20", title="An acknowledged write is held by as many owners as promised",
        statement="When Set returns nil, at least one, a majority, or all of the key's owners (write consistency ONE, QUORUM, ALL) hold the written value or another that replaced it, whatever messages were lost, repeated, delayed or cut off and whichever node took the write; otherwise Set returns an error.",
        quantifier=q(["faults", "schedules", "histories"], "every pattern of lost, delayed, duplicated and cut messages, every node and consistency level"),
        why_tests_cant="The tests count acknowledgements with all nodes up or one missing; a forward that timed out but took effect, or a refusal counted as an acknowledgement, needs message-level faults.",
        anchors=anch(["pkg/backend/dist_memory.go", "pkg/backend/dist_transport.go"],
                     [("write quorum", "writeToOwners, replicateTo, requiredAcks"), ("promotion", "handleForwardPrimary"), ("ownership guard", "applyForwardedSet")],
                     [("items", "copies per owner", "distShard.items")],
                     ["DistMemory.Set error", "copies held by owners"]),
        note=NOTE + "the copies are counted at the instant Set returns; where write quorums need not overlap, a copy of any other write of the key counts, since versions then need not follow real time."),
    dict(
        id="C21", title="Overlapping quorums never read a stale value",
        statement="When read and write quorums overlap (R+W>N) and write quorums are majorities, a successful read never returns a value older than one acknowledged before the read began, through any node, under message loss, delay, duplication, reordering and partitions; once the network is whole again every key's last acknowledged value, or a later attempt's, is read through every node.",
        quantifier=q(["faults", "schedules", "histories", "configurations"], "every pattern of message faults, every interleaving, every replication factor and pair of consistency levels whose quorums overlap"),
        why_tests_cant="The tests partition one node once; a late or duplicated forward replacing a newer write, or a version assigned by a node unaware of a newer one, needs a specific sequence of faults.",
        anchors=anch(["pkg/backend/dist_memory.go"],
                     [("quorum reads", "getWithConsistency, getWithConsistencyParallel, collectQuorum"), ("versioning past what owners hold", "stampVersion, observeVersion, coordinateWrite"), ("refusal of older writes", "applyIfNewer")],
                     [("versionCounter", "logical clock", "DistMemory.versionCounter")],
                     ["DistMemory.Get results"]),
        note=NOTE + "with read consistency ONE and anti-entropy, a node no owner answers may fall back on a copy of its own, so these are not judged; nor are reads after the first removal of a key: removals carry no version between nodes and are repaired by anti-entropy (C22)."),
    dict(
        id="C22", title="Removed keys stay removed, written keys stay written",
        statement="With every write taken by all owners and anti-entropy running, whatever messages were lost, delayed, repeated or cut off: long after the last fault the owners of a key agree; what they hold is a write no completed removal or write followed; and a key none of them holds had no acknowledged write after the last removal took effect. No stale replica, hint or repair brings a removed key back.",
        quantifier=q(["faults", "schedules", "histories"], "every pattern of message faults, every interleaving of writes and removals through any nodes"),
        why_tests_cant="The tests remove one key with one replica cut off; a hint or repair racing a removal, or a tombstone and a copy crossing during synchronisation, needs chosen faults and order.",
        anchors=anch(["pkg/backend/dist_memory.go"],
                     [("removal and tombstones", "removeImpl, applyRemove, nextTombstoneVersion"), ("refusal of buried versions", "applyIfNewer"), ("anti-entropy", "SyncWith, fetchAndAdopt, resolveMissingKeys")],
                     [("tombs", "removed keys and their versions", "distShard.tombs")],
                     ["copies held by owners", "DistMemory.Get"]),
        note=NOTE + "no node crashes here (tombstones are memory only) and removals race no membership change; below write consistency ALL a removal, which carries no version between nodes, may miss owners that later give the key back."),
    dict(
        id="C23", title="Hinted handoff delivers what an unreachable owner missed",
        statement="A write whose replica could not be reached is delivered to it once it can be, by the hint queue alone, within a bounded number of replay rounds; a hint is never offered after its lifetime, the caps on hints per node, in total and in bytes are never exceeded, nothing is refused or dropped where they leave room, a hint that is refused displaces no other, the counts reported match what is queued, and no write waits for a peer that owns none of its keys.",
        quantifier=q(["faults", "schedules", "histories", "configurations"], "every outage and crash pattern, every lifetime, replay interval and cap"),
        why_tests_cant="The tests queue one hint for one dead node; hints queued while a replay is delivering, caps met during replay, or a slow peer under the queue lock need chosen timing.",
        anchors=anch(["pkg/backend/dist_memory.go"],
                     [("hint queue", "queueHint, processHint, replayHints"), ("caps", "WithDistHintMaxPerNode/MaxTotal/MaxBytes"), ("delivery", "startHintReplayIfEnabled")],
                     [("hints, hintBytes", "queued writes per node", "DistMemory.hints")],
                     ["copies held by owners", "Metrics().Hint*"]),
        note=NOTE + "hints live in the coordinator's memory: what a crashed coordinator had queued is not judged."),
    dict(
        id="C24", title="A read brings its key's owners up to date",
        statement="A quorum or all-owners read that succeeds leaves every reachable owner holding at least the version it returned, immediately or, when repairs are batched, within one flush interval, and still when the reading node is stopped right after; a read of all owners returns the newest version held; no repair ever replaces a newer copy.",
        quantifier=q(["schedules", "histories", "faults"], "every divergence that message faults leave behind, every interleaving of reads, writes, repair flushes and Stop"),
        why_tests_cant="The tests diverge one replica and read once; a batch flushed while Stop runs, or a repair racing a newer write, needs a chosen schedule.",
        anchors=anch(["pkg/backend/dist_read_repair.go", "pkg/backend/dist_memory.go"],
                     [("choice of newest", "chooseNewer, collectQuorum"), ("repairs", "repairReplicas, repairRemoteReplica, repairLocalReplica"), ("batching", "repairQueue.enqueue, flushPeer, stop")],
                     [("entries", "repairs not yet sent", "repairQueue.entries")],
                     ["copies held by owners after a read"]),
        note=NOTE + "owners are judged while reachable; a ConsistencyOne read repairs only the reader's own copy."),
    dict(
        id="C25", title="Anti-entropy alone makes owners converge on the newest copy",
        statement="Once every node is up and the network whole, anti-entropy makes every owner of each key hold the newest copy any node held at that moment, whatever faults, crashes and empty restarts came before, for every chunk size, number of peers per round, backoff and key-list cap; then every node reads it.",
        quantifier=q(["faults", "crash points", "schedules", "histories", "configurations"], "every pattern of message faults, crashes and empty restarts, every anti-entropy configuration"),
        why_tests_cant="The tests sync two nodes once with one difference; keys only a peer holds, chunk boundaries, capped listings, backed-off rounds and restarted nodes combine in ways they never build.",
        anchors=anch(["pkg/backend/dist_memory.go", "pkg/backend/dist_transport.go"],
                     [("comparison", "BuildMerkleTree, DiffLeafRanges, SyncWith"), ("adoption", "fetchAndAdopt, applyIfNewer"), ("pacing", "runAutoSyncTick, adaptive backoff")],
                     [("items", "copies per owner", "distShard.items")],
                     ["copies held by owners", "DistMemory.Get"]),
        note=NOTE + "values two incarnations of a node wrote under the same version are a known finding (KF1)."),
    dict(
        id="C26", title="Scaling out or in moves keys without losing them",
        statement="While nodes join empty and leave, each node learning of it at its own time, and messages are lost, delayed, repeated or cut off, the newest copy of a key is never given up by the last node holding it. Once the views agree, rebalancing brings it to an owner (with anti-entropy, to all), former owners let go of what they handed over, and the moving stops. With changes made one at a time and writes taken by all owners, reads stay fresh throughout; where all nodes learn of a change at once and no message is lost, rebalancing alone supplies every new owner.",
        quantifier=q(["faults", "schedules", "histories", "configurations"], "every sequence of joins and leaves, every skew between the nodes' views, every pattern of message faults, every rebalancing configuration"),
        why_tests_cant="The tests add one node to a quiet cluster; losing a key needs a hand-over that fails, a second change, or a write at a particular point of a rebalancing tick.",
        anchors=anch(["pkg/backend/dist_memory.go"],
                     [("hand-over", "runRebalanceTick, migrateIfNeeded, queueHint"), ("new replicas", "replicateNewReplicas, sendReplicaDiff"), ("release", "shedRemovedKeys, dropMigrated")],
                     [("originalPrimary, originalOwners, removedAt", "what was handed over", "distShard")],
                     ["copies held by nodes", "DistMemory.Get", "Metrics().RebalancedKeys"]),
        note=NOTE + "removals are not combined with membership changes; release is judged with anti-entropy off, since that also copies keys a node does not own."),
    dict(
        id="C27", title="Failure detection drops the dead and only the dead",
        statement="A node that is up is never suspected or dropped while it answers in time, or while some other node can reach it and indirect probes are on. Once crashes stop and the network is whole, within a bounded number of heartbeat and gossip rounds no node lists a crashed one, every survivor that some survivor listed is listed by all, as alive, and nodes with the same members route every key to the same owners.",
        quantifier=q(["faults", "schedules", "histories", "configurations"], "every pattern of crashes, restarts, cuts and loss, every heartbeat, sampling, indirect-probe and gossip configuration"),
        why_tests_cant="The tests stop one node of three and wait; reviving a dead member takes gossip from a peer a little behind, and a false suspicion takes sampling that leaves a live node unprobed.",
        anchors=anch(["pkg/backend/dist_memory.go", "internal/cluster/membership.go"],
                     [("heartbeats", "runHeartbeatTick, evaluateLiveness, probeIndirect"), ("gossip", "runGossipTick, acceptGossip, refuteIfSuspected"), ("states", "Membership.Mark/Refute/Remove")],
                     [("nodes", "members and their states", "Membership.nodes")],
                     ["Membership().List()", "DebugOwners", "Metrics().Nodes*"]),
        note=NOTE + "nodes restart with a fresh seed list; sides of a partition that outlasted the dead-after time and forgot each other are not expected to find each other."),
    dict(
        id="C28", title="Draining refuses writes and nothing else",
        statement="Once Drain has returned, every Set and Remove made through that node is refused with the draining error and leaves no trace on any node; a write already accepted takes effect as usual. The node goes on serving reads, as fresh as any, and the rest of the cluster accepts and replicates writes, to the draining node too. Drain is one-way and idempotent: however many callers race, one transition is counted.",
        quantifier=q(["schedules", "histories", "configurations"], "every interleaving of writes, reads and drains through any nodes, every replication and consistency setting"),
        why_tests_cant="The tests drain one idle node and try one write; writes under way during the transition, racing drains, and what the other owners hold afterwards take chosen schedules.",
        anchors=anch(["pkg/backend/dist_memory.go"],
                     [("transition", "Drain, IsDraining"), ("refusal", "Set, Remove")],
                     [("draining", "whether the node drains", "DistMemory.draining")],
                     ["errors of Set and Remove", "DistMemory.Get", "Metrics().Drains"]),
        note=NOTE + "no message is lost here."),
    dict(
        id="C29", title="A listing says what it may lack",
        statement="A cluster listing returns keys in order, each once, only keys that match the pattern and were written, no more than the limit. Every matching key some listed-as-member node held throughout is in it, unless the result is marked truncated (and then as many keys as the limit were returned, and more were written) or the node is named as partial; only nodes whose answer was lost are so named. A malformed pattern is refused.",
        quantifier=q(["inputs", "faults", "schedules", "histories"], "every pattern and limit, any keys, crashes, cuts and lost messages at any moment, writes under way"),
        why_tests_cant="The tests list a fixed key set with all nodes up; which answers are lost or late among several concurrent ones, and writes and crashes meanwhile, vary with the schedule.",
        anchors=anch(["pkg/backend/dist_memory.go", "pkg/backend/dist_transport.go"],
                     [("fan-out and merge", "ListKeys"), ("pattern", "buildKeyMatcher")],
                     [("items", "keys per node", "distShard.items")],
                     ["ListKeysResult.Keys/Truncated/PartialNodes"]),
        note=NOTE + "the answer of a key moved between nodes during the listing is not judged."),
    dict(
        id="C30", title="A node can be stopped at any moment",
        statement="Stop returns within a bounded time whenever it is called, by any number of callers, whatever loops are running, messages lost and operations under way; nothing panics or hangs, then or in operations made on the stopped node later. After that the node sends nothing of its own accord and none of its goroutines is left.",
        quantifier=q(["schedules", "faults", "configurations"], "every moment and number of Stop calls, every combination of background loops, every pattern of message loss"),
        why_tests_cant="The tests stop idle nodes once, in order, at their end; a Stop that meets a tick, a flush, an operation or another Stop halfway needs a chosen schedule.",
        anchors=anch(["pkg/backend/dist_memory.go", "pkg/backend/dist_read_repair.go"],
                     [("teardown", "Stop"), ("loops", "startHeartbeatIfEnabled, startGossipIfEnabled, startHintReplayIfEnabled, startAutoSyncIfEnabled, startRebalancerIfEnabled, startTombstoneSweeper"), ("flushes", "repairQueue.stop")],
                     [("stop channels", "running loops", "DistMemory.*StopCh")],
                     ["Stop's return", "messages sent", "goroutines left"]),
        note=NOTE + "nodes here serve no HTTP."),
    dict(
        id="C31", title="Over HTTP a peer answers as it would in the same process",
        statement="Every call of the HTTP transport between nodes - store, read, remove, list keys, Merkle tree, health, indirect probe, gossip - has the outcome of the same call to a node in the same process: the same copy with its value, version, origin, lifetime and key, the same verdict (stored, superseded by that version, not an owner, quorum failed), whatever the key or value holds, compressed or not, on any number of shards. A connection that is refused, reset, stalled or cut off midway makes the call fail; it is never reported as a different outcome. A malformed request is refused and changes nothing; a body over the limit is refused.",
        quantifier=q(["inputs", "schedules", "faults", "configurations"], "every key, value, lifetime and version, every way the byte stream is cut, delayed or broken, every concurrent call"),
        why_tests_cant="The tests send short ASCII keys over a loopback connection that never breaks; what a truncated answer, a pooled request buffer reused by the next request, or a number that does not survive JSON does needs chosen streams and schedules.",
        anchors=anch(["pkg/backend/dist_http_transport.go", "pkg/backend/dist_http_server.go", "pkg/backend/dist_http_types.go"],
                     [("client side", "DistHTTPTransport"), ("server side", "distHTTPServer, handleSet, handleKeys"), ("limits and compression", "DistHTTPLimits, maybeGzip")],
                     [("request and response bodies", "in flight", "httpSetRequest, httpGetResponse")],
                     ["each call's result", "the copies each node holds"]),
        note=NOTE + "values are compared as JSON carries them; C32 covers authentication."),
    dict(
        id="C32", title="Only those with the cluster's credentials reach a node",
        statement="With a shared token, or a verifier and a signer, configured, a request to any endpoint of a node that does not carry the right credentials is refused: it learns no key, value or state, stores, removes or drains nothing and enters no member, whatever the path's spelling and wherever it stands on a connection. Nodes with the cluster's credentials are never refused by one another; a node whose signer fails sends nothing; a node that signs without verifying is only built when that is asked for.",
        quantifier=q(["inputs", "schedules", "faults", "configurations"], "every endpoint, path spelling, credential header, position on a connection, authentication mode, and interleaving with the cluster's own traffic over a faulty network"),
        why_tests_cant="The tests send one bad token to one endpoint of an idle node; credentials remembered from another request, or an endpoint, call or mode that skips the check, take the whole set at once, against a working cluster.",
        anchors=anch(["pkg/backend/dist_http_server.go", "pkg/backend/dist_http_transport.go", "pkg/backend/dist_memory.go"],
                     [("inbound check", "distHTTPServer.wrapAuth, DistHTTPAuth.verify"), ("outbound credentials", "DistHTTPAuth.sign, newNodeRequest"), ("coherence", "DistHTTPAuth.validate, NewDistMemory")],
                     [("policy", "who may call", "DistHTTPAuth")],
                     ["responses to requests", "copies, members and state of each node"]),
        note=NOTE + "strangers do not know the token; TLS is not simulated."),
    dict(
        id="C33", title="The shipped server keeps what its clients store, from any node and by any route",
        statement="What a client stored through any route of any server of a cluster - raw, item or batch, whatever the bytes of the key and the value - is what every route of every server answers from then on, byte for byte, until it is replaced, removed or past its lifetime; they agree on its version, writer, time of writing, lifetime and owners, and an item of a batch that cannot be stored spoils no other; the key listing names exactly the keys stored. A value is there for its whole lifetime and gone, at every server, once that has passed untouched, and looking for expired keys removes no others, not even one written anew at that moment. Stopping and starting the servers one at a time loses nothing, fails no request that can reach another server's copy, and every server told to stop ends cleanly. The event stream of a server stays open, beats, and its last word about the members is how that server sees them.",
        quantifier=q(["inputs", "schedules", "histories", "configurations"], "every key, value and lifetime, sequence and overlap of requests over all routes and servers, cluster size, replication and timing configuration, and moment of a restart"),
        why_tests_cant="The tests call the handlers of one server in one process; the percent-escapes, encodings and lifetimes that a value takes on its way through the client, a server, its peers and back, the background loops of the composed process and restarts are not run together.",
        anchors=anch(["cmd/hypercache-server/main.go", "hypercache_io.go", "hypercache_expiration.go", "hypercache_dist.go", "management_http.go", "pkg/backend/dist_http_server.go", "pkg/backend/dist_http_transport.go", "pkg/client/client.go", "pkg/client/batch.go"],
                     [("routes", "registerClientRoutes, handlePut/handleGet/handleBatch*"), ("value encodings", "writeValue, itemValueAsBytes"), ("lifetimes", "expirationLoop, DistMemory.RemoveExpired, itemAge"), ("listing", "handleListKeys"), ("start and stop", "run, HyperCache.Stop")],
                     [("items", "key to value, lifetime and version on every owner", "DistMemory.shards")],
                     ["HTTP responses of every server", "pkg/client calls", "exit code"]),
        note=NOTE + "reading prolongs a life by design, so the end of a life is judged only when nobody asked."),
    dict(
        id="C34", title="The last topology event describes the topology",
        statement="A subscriber to a node's topology events sees the membership as it was when it subscribed or a later one, then changes in the order they happened; once the membership rests, the last event about it says what the node's membership says - every member, state, address and incarnation - however many changes raced. A subscription stays open until its holder ends it or the node stops, and no counter in the heartbeat events goes back.",
        quantifier=q(["schedules", "faults", "histories"], "every interleaving of membership changes, gossip, probes and subscriptions, message loss, crashes and restarts"),
        why_tests_cant="The tests subscribe, make one change and read one event; two changes whose notifications overtake each other, or one between a snapshot and the subscription, need a chosen schedule.",
        anchors=anch(["pkg/backend/dist_memory.go", "internal/eventbus/bus.go", "internal/cluster/membership.go"],
                     [("observer", "installEventBusObserver"), ("fan-out", "eventbus.Bus.Publish/Subscribe"), ("notification", "Membership.Upsert/Mark/Remove")],
                     [("subscribers", "bounded buffers", "Bus.subscribers")],
                     ["events received", "DistMemory.DistMembershipSnapshot"]),
        note=NOTE + "which intermediate events a slow subscriber loses is not judged: dropping is documented."),
    dict(
        id="C35", title="The shipped server serves each caller what its scopes allow, however it is configured",
        statement="With a file of identities, the single token, an OpenID issuer, or combinations of them configured, every route of the client and management servers except the public ones answers 401 to a caller that is none of the identities, 403 to one whose scopes do not include the route's, and serves the others; whoever is refused learns no value and changes nothing, whatever the path's spelling. A server is open to everyone only when no authentication is configured or the file says so. The peer token opens the client routes only where it is itself the configured credential, and nothing but it opens the routes between nodes. Each caller is told its own identity, scopes and capabilities. A token of the issuer counts while it is valid and signed by a key the issuer publishes, also after the issuer changed its keys, and never when expired, forged, unsigned or meant for others.",
        quantifier=q(["inputs", "configurations", "schedules", "faults", "histories"], "every way of configuring authentication, credential, route and path spelling, interleaving of callers on shared connections, key change and failure of the issuer, and moment of expiry"),
        why_tests_cant="The tests call a policy or a handler built by hand; what main makes of the environment, which guard each route of the running servers has, and identities under concurrent requests or an issuer that changes its keys or fails are not exercised together.",
        anchors=anch(["cmd/hypercache-server/main.go", "cmd/hypercache-server/oidc.go", "pkg/httpauth/policy.go", "pkg/httpauth/loader.go", "management_http.go", "pkg/backend/dist_http_server.go"],
                     [("open or closed", "run, LoadFromEnv, attachOIDCVerifier"), ("guards", "registerClientRoutes, wrapWithGate, WithMgmtAuth/WithMgmtControlAuth"), ("resolution", "Policy.Verify, resolve"), ("issuer", "buildOIDCVerifier, verifyAndExtract")],
                     [("policy", "identities and their scopes", "httpauth.Policy"), ("issuer keys", "cached by go-oidc", "oidc.RemoteKeySet")],
                     ["status and body of every response", "the keys afterwards"]),
        note=NOTE + "TLS is a stand-in: the server is told the state of a finished handshake, certificates are not verified."),
    dict(
        id="C36", title="Middlewares and typed views change nothing, and statistics tell what happened",
        statement="Through any stack of the shipped middlewares each call reaches the cache once, with its arguments and context, takes no longer than the cache does, and its outcome - value, error or panic - comes back to its own caller. What the middlewares record is what happened: as many calls as were made, the time they took, one span each that ends once and carries the call's own attributes and errors. A typed view reads what was stored exactly when it has that type, and tells a wrong type from a missing key. A cache's own statistics account for every item that left it: none leaves uncounted, none is counted twice by one kind of loop, and loop durations are durations.",
        quantifier=q(["inputs", "schedules", "configurations"], "every order and number of middlewares, interleaving of callers and background loops, outcome of each call, and mix of types under one key"),
        why_tests_cant="The tests call one middleware at a time from one goroutine and compare one outcome; state shared between calls, and loops that overlap, need a chosen interleaving.",
        anchors=anch(["service.go", "pkg/middleware/logging.go", "pkg/middleware/stats.go", "pkg/middleware/otel_tracing.go", "pkg/middleware/otel_metrics.go", "hypercache_typed.go", "hypercache_eviction.go", "hypercache_expiration.go"],
                     [("stack", "ApplyMiddleware"), ("recording", "StatsCollectorMiddleware, OTelTracingMiddleware, OTelMetricsMiddleware, LoggingMiddleware"), ("type checks", "Typed.Get/GetTyped/GetOrSet/GetMultiple"), ("loop statistics", "evictionLoop, expirationLoop")],
                     [("statistics", "counts and durations by name", "HistogramStatsCollector")],
                     ["outcomes of calls", "GetStats", "spans and instruments"]),
        note=NOTE + "what is recorded of a call that panics is not judged; an item that the eviction and the expiration loop remove at the same moment may count as both."),
    dict(
        id="C37", title="A cache over Redis or a Redis Cluster keeps what is written",
        statement="Over a Redis server or a Redis Cluster, with the default options or with its own serializer and index name, every key of a cache is one linearizable cell for all processes that share it: a call without an error took effect, a read returns the last value written under that key and no other, a removed key stays removed, and what was acknowledged is there once broken connections, refused commands and outages are over. An entry lives exactly as long as its last write says and no rewrite is lost to the expiry of what it replaced; removing and clearing remove all they name and nothing else; listings and counts name exactly the entries, also when a key has the name of the backend's own index; and a cache at its capacity evicts what is over it and nothing more.",
        quantifier=q(["inputs", "schedules", "faults", "configurations"], "every interleaving of callers in one or two processes, connection cut at any point of any command, transaction or pipeline, split of the hash slots over 1-4 masters, protocol version, pool, lifetime and key"),
        why_tests_cant="There is no Redis in the test run: the only test of these packages checks client options. A cut between the commands of a transaction, a rewrite at the moment of expiry or keys in other hash slots need a server under control.",
        anchors=anch(["pkg/backend/redis.go", "pkg/backend/redis_cluster.go", "pkg/backend/redis_common.go", "pkg/backend/redis/store.go", "pkg/backend/rediscluster/store.go", "hypercache_io.go", "hypercache_expiration.go", "hypercache_eviction.go", "internal/libs/serializer/json.go"],
                     [("writing", "redisSet, redisRemove, Clear"), ("reading", "Get, redisList, redisCount"), ("expiry", "redisRemoveExpired, removeExpired"), ("stores", "redis.New, rediscluster.New")],
                     [("items", "one hash per key", "Redis"), ("index", "set of all keys", "Redis")],
                     ["results of calls", "List and Count", "what every process reads once faults are over"]),
        note=NOTE + "The server is a model that executes one command at a time on the virtual clock. Each key has one writer at a time while connections break, because the client library repeats a command whose answer it lost. A listing may show an entry whose lifetime ends that moment."),
]
