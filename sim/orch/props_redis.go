package main

func init() {
	def(&propDef{
		ID: "C37", Group: "redis",
		Batches: []batch{
			{Scenario: "keep", Runs: 6000},
			{Scenario: "life", Runs: 2200},
			{Scenario: "keep", Runs: 200, Race: true},
		},
		Rule: "keep: each seed draws a server or a cluster of 1-4 masters, the protocol, client pool and retries, one or two processes and 2-4 callers of which each writes its own keys and reads all, with lifetimes, expiration loops and triggers, delays, and in half the runs connections cut before or after any command, refused commands and outages; histories are checked for linearizability and every key is read through every process once the faults are over; life: one caller against a model with lifetimes from 20 ms to 1 h, removals of several keys, listings, counts, clearing and a capacity; non-trivial when at least two writes were acknowledged or two reads hit; distinct by schedule hash and outcome",
		Real: []string{"pkg/backend (Redis, RedisCluster), pkg/backend/redis, pkg/backend/rediscluster, hypercache (New, calls, eviction and expiration loops), pkg/eviction, pkg/cache/v2", "github.com/redis/go-redis/v9 client, pools, pipelines, retries, cluster routing", "Go runtime scheduler, channels, locks, timers (simulated picks and clock)"},
		Stub: []string{"Redis server (model: hashes, sets, lifetimes, transactions, WATCH, hash slots)", "TCP (simulated byte streams: delay, split, reset, refusal)", "clock (virtual time)"}, Assume: simAssume,
	})
}
