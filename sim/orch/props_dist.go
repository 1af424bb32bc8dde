package main

func init() {
	real := []string{"pkg/backend DistMemory with its own background loops, internal/cluster, pkg/cache/v2; backend.InProcessTransport on the receiving side; in the -http batches DistHTTPTransport, the dist HTTP server (fiber, fasthttp) and net/http over a simulated byte stream", "Go runtime scheduler, channels, locks, timers (simulated picks and clock)"}
	stub := []string{"network between nodes (simulated: delays, loss, duplication, cuts, crashes)", "clock (virtual time)", "clients are generated threads"}
	def(&propDef{
		ID: "C19", Group: "dist",
		Batches: []batch{
			{Scenario: "healthy", Runs: 7200},
			{Scenario: "healthy-http", Runs: 1500},
			{Scenario: "healthy", Runs: 450, Race: true},
		},
		Rule: "each seed draws 1-5 nodes, replication, consistency levels, read repair, anti-entropy and rebalancing settings and 1-4 clients of set/get/remove over 1-3 keys through any node, messages delayed but never lost; each key's history is checked for regularity and the owners' copies for agreement at rest; non-trivial when something was read; distinct by schedule hash and results",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C20", Group: "dist",
		Batches: []batch{
			{Scenario: "quorum", Runs: 9000},
			{Scenario: "quorum-http", Runs: 1500},
		},
		Rule: "each seed draws 2-6 nodes, replication, consistency levels, hints, repair, anti-entropy and 1-4 clients over 1-3 keys while messages are lost, delayed, repeated and cut off; at the moment a write is acknowledged the owners' copies are counted; non-trivial when something was read; distinct by schedule hash and results",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C21", Group: "dist",
		Batches: []batch{
			{Scenario: "quorum", Runs: 9000},
			{Scenario: "quorum-http", Runs: 1500},
			{Scenario: "quorum", Runs: 450, Race: true},
		},
		Rule: "as for C20, with overlapping read and write quorums: no read returns a value older than one acknowledged before the read began, including reads of every key through every node once the network is whole; non-trivial when something was read; distinct by schedule hash and results",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C22", Group: "dist",
		Batches: []batch{
			{Scenario: "removal", Runs: 2600},
			{Scenario: "removal-http", Runs: 500},
		},
		Rule: "each seed draws 2-5 nodes, replication, hints, read repair and anti-entropy settings and 1-4 clients of set/get/remove over 1-4 keys while messages are lost, delayed, repeated and cut off; long after the network is whole the owners' copies are compared; non-trivial when a key ended up removed; distinct by schedule hash and results",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C23", Group: "dist",
		Batches: []batch{
			{Scenario: "hints", Runs: 24000},
			{Scenario: "hints-http", Runs: 4000},
			{Scenario: "hints", Runs: 450, Race: true},
			{Scenario: "hintroom", Runs: 6000},
			{Scenario: "hintroom-http", Runs: 600},
		},
		Rule: "each seed draws 2-5 nodes, replication, hint lifetime, replay interval and caps and 1-4 clients writing 1-8 keys while nodes are cut off, isolated or down; once all are reachable every hinted copy must have arrived, never past its lifetime, never more held than the caps allow; one writer's queue against a model of a bounded queue, outage by outage; non-trivial when a hint was queued; distinct by schedule hash and results",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C24", Group: "dist",
		Batches: []batch{
			{Scenario: "repair", Runs: 18000},
			{Scenario: "repair-http", Runs: 4000},
			{Scenario: "repair", Runs: 450, Race: true},
		},
		Rule: "each seed draws 2-5 nodes, replication, consistency levels and repair batching and 1-4 clients that make owners diverge over a faulty network; once it is whole each key is read through one node, alongside late writes, and the reader may be stopped right after; non-trivial when owners had diverged; distinct by schedule hash and results",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C25", Group: "dist",
		Batches: []batch{
			{Scenario: "converge", Runs: 2600},
			{Scenario: "converge-http", Runs: 500},
		},
		Rule: "each seed draws 2-5 nodes, replication, anti-entropy interval, chunk size, peers per tick, backoff and key-list cap and 1-4 clients writing 1-8 keys while messages are lost, delayed, repeated and cut off and nodes crash and come back empty; after the network is whole and every node up, owners are compared with the newest copy held anywhere; non-trivial when anything was held; distinct by schedule hash and results",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C26", Group: "dist",
		Batches: []batch{
			{Scenario: "rebalance", Runs: 1500},
			{Scenario: "rebalance-http", Runs: 250},
			{Scenario: "scale", Runs: 1200},
			{Scenario: "scale-http", Runs: 200},
		},
		Rule: "each seed draws 1-4 nodes, replication, consistency levels, rebalancing interval, batch, grace period, hints, anti-entropy and 1-4 clients that write while up to 3 nodes join empty, nodes leave, views lag and messages are lost, delayed, repeated and cut off; copies are compared with the newest held once the views agree; scale: one settled change at a time, regular reads; non-trivial when membership changed and something was held or read; distinct by schedule hash and results",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C27", Group: "dist",
		Batches: []batch{
			{Scenario: "members", Runs: 2400},
			{Scenario: "members-http", Runs: 300},
			{Scenario: "members", Runs: 160, Race: true},
		},
		Rule: "each seed draws 2-6 nodes, heartbeat, suspect, dead, sampling, indirect-probe and gossip settings and either a calm network, one broken link or a storm of crashes, restarts, cuts and loss; views are judged throughout (false alarms) or a bounded number of rounds after the last fault; non-trivial when at least two nodes remained; distinct by schedule hash and results",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C28", Group: "dist",
		Batches: []batch{
			{Scenario: "drain", Runs: 7000},
			{Scenario: "drain-http", Runs: 1200},
			{Scenario: "drain", Runs: 400, Race: true},
		},
		Rule: "each seed draws 1-5 nodes, replication, consistency levels, read repair, anti-entropy and rebalancing settings and 2-5 clients of set/get/remove/drain over 1-4 keys through any node, messages delayed but never lost; refusals are matched with the drains, histories checked for regularity, copies for traces of refused writes; non-trivial when a write was refused; distinct by schedule hash and results",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C29", Group: "dist",
		Batches: []batch{
			{Scenario: "listkeys", Runs: 30000},
			{Scenario: "listkeys-http", Runs: 3000},
			{Scenario: "listkeys", Runs: 900, Race: true},
		},
		Rule: "each seed draws 1-5 nodes, replication, shards and 1-4 clients that write, remove and list up to 12 keys by 23 patterns and 7 limits through any node while nodes crash, links are cut and messages lost or delayed; each listing is compared with what every node held before and after it; non-trivial when a node held a matching key throughout; distinct by schedule hash and results",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C30", Group: "dist",
		Batches: []batch{
			{Scenario: "stop", Runs: 9000},
			{Scenario: "stop-http", Runs: 1500},
			{Scenario: "stop", Runs: 400, Race: true},
		},
		Rule: "each seed draws 1-4 nodes with any combination of the background loops on (heartbeat, gossip, hints, repair batching, anti-entropy, rebalancing, tombstone sweep) and 2-5 clients that write, read, list, drain and stop nodes, several at a time, amid message loss and cuts; panics, hangs, messages after the stop and goroutines left are violations; non-trivial when a node was stopped; distinct by schedule hash and results",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C31", Group: "dist",
		Batches: []batch{
			{Scenario: "wire", Runs: 6000},
			{Scenario: "wire", Runs: 300, Race: true},
		},
		Rule: "each seed draws 1-3 nodes behind their HTTP servers, shards, compression, body limits, a node down or draining and 1-4 clients of set/get/remove/health/probe/gossip and malformed requests over connections that are refused, slow, reset, stalled, split or cut off; each outcome and the copies left are compared with a twin cluster in one process; non-trivial when a write was compared; distinct by schedule hash and results",
		Real: []string{"pkg/backend DistHTTPTransport, dist HTTP server (fiber, fasthttp), net/http and DistMemory on both sides; the twin: InProcessTransport", "Go runtime scheduler, channels, locks, timers (simulated picks and clock)"}, Stub: []string{"TCP (simulated byte streams: delay, split, stall, reset, refusal, truncation)", "clock (virtual time)", "clients are generated threads"}, Assume: simAssume,
	})
	def(&propDef{
		ID: "C32", Group: "dist",
		Batches: []batch{
			{Scenario: "peerauth", Runs: 4000},
			{Scenario: "peerauth", Runs: 150, Race: true},
		},
		Rule: "each seed draws 2-4 nodes as shipped, over HTTP, with a token, signatures or both, replication, anti-entropy, gossip, hints and heartbeats, 1-3 clients, and strangers that send every request with wrong credentials, alone or behind a valid request on one connection, through the real transport with other credentials, and as a node with the members as its seeds; connections are delayed, split, refused, reset, stalled or cut; non-trivial when a stranger acted; distinct by schedule hash and results",
		Real: []string{"pkg/backend DistMemory with the HTTP server and transport it starts itself (fiber, fasthttp, net/http), pkg/cache/v2, internal/{cluster,transport,eventbus}", "Go runtime scheduler, channels, locks, timers (simulated picks and clock)"}, Stub: []string{"TCP (simulated byte streams: delay, split, stall, reset, refusal, truncation)", "clock (virtual time)", "clients and strangers are generated threads"}, Assume: simAssume,
	})
	def(&propDef{
		ID: "C34", Group: "dist",
		Batches: []batch{
			{Scenario: "events", Runs: 9000},
			{Scenario: "events-http", Runs: 1200},
			{Scenario: "events", Runs: 450, Race: true},
		},
		Rule: "each seed draws 1-4 nodes with any of heartbeats, indirect probes and gossip, 1-3 subscribers per node and 2-4 threads that add and remove peers, cut links, crash and restart nodes and subscribe again while messages are lost and delayed; after the faults end and the membership rests, the last event of each subscription that lost none is compared with the membership, and the order and counters of all events are checked as they come; non-trivial when a subscription that got events was compared; distinct by schedule hash and results",
		Real: []string{"pkg/backend DistMemory, internal/{eventbus,cluster,transport}; events-http: the HTTP servers and transports between nodes", "Go runtime scheduler, channels, locks, timers (simulated picks and clock)"}, Stub: []string{"network between nodes (lost, delayed and repeated messages; events-http: simulated byte streams)", "clock (virtual time)", "subscribers are generated threads"}, Assume: simAssume,
	})
}
