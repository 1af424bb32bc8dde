package main

func init() {
	core := []string{"internal/cluster", "Go runtime scheduler, channels, locks (simulated picks)"}
	def(&propDef{
		ID: "C01", Group: "core",
		Batches: []batch{
			{Scenario: "ring", Runs: 24000},
			{Scenario: "ring-disrupt", Runs: 6000},
			{Scenario: "ring", Runs: 1500, Race: true},
		},
		Rule:   "each seed draws 2-5 threads of upserts/removes/marks/refutes over 2-7 node ids and a ring configuration, or a sequence of joins, leaves, deaths and revivals; non-trivial when at least two mutations ran; distinct by schedule hash and final member set",
		Real:   core,
		Assume: simAssume,
	})
	def(&propDef{
		ID: "C02", Group: "core",
		Batches: []batch{
			{Scenario: "membership", Runs: 40000},
			{Scenario: "membership", Runs: 1500, Race: true},
		},
		Rule:   "each seed draws 2-4 threads of up to 7 membership operations over 2-4 node ids; the recorded history, including every notification and its version, is checked for linearizability against a sequential model; non-trivial when at least two operations changed state; distinct by schedule hash and results",
		Real:   core,
		Assume: simAssume,
	})
	def(&propDef{
		ID: "C03", Group: "core",
		Batches: []batch{
			{Scenario: "bus", Runs: 40000},
			{Scenario: "bus", Runs: 1500, Race: true},
		},
		Rule:   "each seed draws 1-4 publishers and 1-4 subscribers that read at their own pace and leave by unsubscribe, cancel or both; the history of publishes and deliveries is checked; non-trivial when at least two events were published to a subscriber; distinct by schedule hash and delivery counts",
		Real:   []string{"internal/eventbus"},
		Assume: simAssume,
	})
	def(&propDef{
		ID: "C04", Group: "core",
		Batches: []batch{
			{Scenario: "stats", Runs: 40000},
			{Scenario: "stats", Runs: 1500, Race: true},
		},
		Rule:   "each seed draws 2-5 threads recording into 3 statistics with windows from 1 to 4096 samples while others read; aggregates are compared with an exact replay of everything recorded; non-trivial when more than two values were recorded; distinct by schedule hash and final windows",
		Real:   []string{"pkg/stats"},
		Assume: simAssume,
	})
}
