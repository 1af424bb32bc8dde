package main

func init() {
	real := []string{"hypercache (root package), pkg/backend in-memory, pkg/cache/v2, pkg/eviction, pkg/stats", "Go runtime scheduler, channels, locks, timers (simulated picks and clock)"}
	stub := []string{"none inside the cache; clients are generated threads"}
	def(&propDef{
		ID: "C10", Group: "local",
		Batches: []batch{
			{Scenario: "backend", Runs: 30000},
			{Scenario: "backend", Runs: 1800, Race: true},
		},
		Rule: "each seed draws 2-4 threads of set/get/remove/touch/list/count/clear, refused writes and cancelled removals over 1-4 keys; every key's history is checked for linearizability and the count at rest against the contents; non-trivial when at least two mutations ran; distinct by schedule hash and results",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C11", Group: "local",
		Batches: []batch{
			{Scenario: "ops", Runs: 24000},
			{Scenario: "ops", Runs: 1800, Race: true},
		},
		Rule: "each seed draws 2-4 clients over 1-4 keys of an unlimited cache with background eviction and expiration running; every key's history of reads, writes, removals and clears is checked for linearizability; non-trivial when at least two operations touched one key; distinct by schedule hash and results",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C12", Group: "local",
		Batches: []batch{
			{Scenario: "capacity", Runs: 5400},
			{Scenario: "capacity", Runs: 300, Race: true},
		},
		Rule: "each seed draws algorithm, shards, capacity (also changed while in use), allowance per run and 1-4 clients; after the last write a bounded number of eviction runs must leave exactly the capacity, never less; non-trivial always; distinct by schedule hash and final count",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C13", Group: "local",
		Batches: []batch{
			{Scenario: "memory", Runs: 24000},
			{Scenario: "memory", Runs: 1500, Race: true},
		},
		Rule: "each seed draws a size limit, 1-4 clients writing values of several shapes and sizes, overwriting, removing and clearing, with or without eviction and expiration; the account is compared with the contents at rest and the history of accepted and refused writes with the limit; non-trivial when more than one item was held at rest; distinct by schedule hash and final sizes",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C14", Group: "local",
		Batches: []batch{
			{Scenario: "expiry", Runs: 15000},
			{Scenario: "expiry", Runs: 900, Race: true},
		},
		Rule: "each seed draws lifetimes, expiration interval or manual triggers with debounce, and 1-4 clients owning their keys on one cache in virtual time; every read is judged from the key's exact history; non-trivial when a value with a lifetime was read; distinct by schedule hash and final time",
		Real: real, Stub: append([]string{"clock (virtual time)"}, stub...), Assume: simAssume,
	})
	def(&propDef{
		ID: "C15", Group: "local",
		Batches: []batch{
			{Scenario: "algo", Runs: 27000},
			{Scenario: "order", Runs: 15000},
			{Scenario: "algo", Runs: 1500, Race: true},
		},
		Rule: "each seed draws an algorithm (LRU, LFU, Clock, CAWOLFU, ARC; plain or sharded), a capacity and 1-3 threads of set/get/delete/evict, compared step by step with (or linearized against) a reference; 'order' does so for a whole cache; non-trivial when something was evicted or more operations than capacity ran; distinct by schedule hash and results",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C16", Group: "local",
		Batches: []batch{
			{Scenario: "pool", Runs: 48000},
			{Scenario: "pool", Runs: 2400, Race: true},
		},
		Rule: "each seed draws 1-4 threads that enqueue quick, slow and failing jobs, resize and shut down a pool of 1-5 workers whose errors are read or not; non-trivial when more than two jobs were enqueued; distinct by schedule hash and job counts",
		Real: []string{"hypercache.WorkerPool", "Go runtime scheduler, channels, locks, timers (simulated picks and clock)"}, Stub: []string{"jobs"}, Assume: simAssume,
	})
	def(&propDef{
		ID: "C17", Group: "local",
		Batches: []batch{
			{Scenario: "life", Runs: 18000},
			{Scenario: "life", Runs: 1500, Race: true},
		},
		Rule: "each seed draws 2-5 threads that use, reconfigure and stop one cache while its background loops run; goroutines still alive at the end, blocked callers and panics are violations; non-trivial when it was stopped at least twice; distinct by schedule hash and number of stops",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C18", Group: "local",
		Batches: []batch{
			{Scenario: "mixed", Runs: 24000},
			{Scenario: "mixed", Runs: 1800, Race: true},
		},
		Rule: "each seed draws 2-4 clients using every operation of a small cache while it evicts, expires, refuses writes and changes capacity; every value, item and list entry handed out is checked for belonging to its key, and every key's history for linearizability with loss; non-trivial when at least two operations ran; distinct by schedule hash and results",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C36", Group: "local",
		Batches: []batch{
			{Scenario: "middle", Runs: 30000},
			{Scenario: "typed", Runs: 12000},
			{Scenario: "tally", Runs: 9000},
			{Scenario: "middle", Runs: 1500, Race: true},
			{Scenario: "tally", Runs: 600, Race: true},
		},
		Rule: "'middle' draws a stack of 0-5 middlewares in any order over a service that answers, fails, sleeps or panics as told, and 1-4 threads of calls; 'typed' four views of different types over the same keys; 'tally' the configuration of a cache whose loops evict and expire items, each stored once, and compares its statistics with what is left; non-trivial when more than one call went through a middleware, a view read something, or an item left the cache; distinct by schedule hash and results",
		Real: append([]string{"pkg/middleware"}, real...), Stub: []string{"in 'middle' the service below, the tracer, the meter and the logger, which record", "clock (virtual time)"}, Assume: simAssume,
	})
}
