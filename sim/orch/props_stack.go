package main

func init() {
	def(&propDef{
		ID: "C33", Group: "stack",
		Batches: []batch{
			{Scenario: "rest", Runs: 900},
			{Scenario: "rest", Runs: 60, Race: true},
			{Scenario: "streams", Runs: 12000},
			{Scenario: "streams", Runs: 300, Race: true},
		},
		Rule: "each seed draws 1-4 server processes of the shipped command, configured through environment variables with replication, authentication and loop intervals, and 1-3 clients that store, read, list and remove keys through every route of every server, with hostile keys and values, in batches, with lifetimes of 1-8 s around whose end they read, rewrite and trigger expiration; in later rounds servers are stopped and started again meanwhile; after each round every key is read from every server; streams: clients open and end event streams on a management server while the membership of the node behind it changes, and each stream must show the changes it promises; non-trivial when an answer was judged strictly; distinct by schedule hash and results",
		Real: []string{"cmd/hypercache-server (main as shipped), HyperCache over DistMemory, management server, node-to-node HTTP, pkg/httpauth, pkg/client, pkg/cache/v2, internal/*", "fiber, fasthttp, net/http", "Go runtime scheduler, channels, locks, timers (simulated picks and clock)"}, Stub: []string{"TCP (simulated byte streams: delay, split)", "clock (virtual time)", "signals and process exit (delivered to the process that would get them)", "clients are generated threads"}, Assume: simAssume,
	})
	def(&propDef{
		ID: "C35", Group: "stack",
		Batches: []batch{
			{Scenario: "scopes", Runs: 9000},
			{Scenario: "scopes", Runs: 500, Race: true},
		},
		Rule: "each seed draws a way of configuring authentication (a file of 6 tokens, 6 users and 6 certificates with different scopes, the single token, an OpenID issuer, combinations, a file naming nobody or letting anyone in, nothing), 1-2 server processes of the shipped command and 1-4 callers that send 10-60 requests each over every route, method and path spelling with right, wrong, malformed, expired, forged and missing credentials, several at once on kept connections, while the issuer changes its keys or fails; each answer is compared with what the caller's identity allows, and the protected keys are read at the end; non-trivial when an answer was judged; distinct by schedule hash and results",
		Real: []string{"cmd/hypercache-server (main as shipped), pkg/httpauth with its loader, management and node-to-node HTTP servers, go-oidc and go-jose, bcrypt, HyperCache over DistMemory", "fiber, fasthttp, net/http", "Go runtime scheduler, channels, locks, timers (simulated picks and clock)"}, Stub: []string{"TCP (simulated byte streams: delay, split)", "TLS (the state of a finished handshake is handed to the server)", "the issuer (generated keys and tokens, served over the simulated network)", "clock (virtual time)", "process exit", "callers are generated threads"}, Assume: simAssume,
	})
}
