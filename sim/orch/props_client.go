package main

func init() {
	real := []string{"pkg/client", "pkg/httpauth", "net/http client and server", "golang.org/x/oauth2", "Go runtime scheduler, channels, locks, timers (simulated picks and clock)"}
	stub := []string{"cluster nodes (scripted HTTP servers)", "network (in-memory byte streams with faults)"}
	def(&propDef{
		ID: "C05", Group: "client",
		Batches: []batch{
			{Scenario: "failover", Runs: 12000},
			{Scenario: "spread", Runs: 1000},
			{Scenario: "calls-race", Runs: 300, Race: true},
		},
		Rule: "each seed draws 1-5 nodes, their scripted answers and outages, 1-4 callers with deadlines and cancellations, and network faults; every HTTP attempt is recorded and each call judged from its attempts; non-trivial when at least one attempt failed over; distinct by schedule hash and outcomes",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C06", Group: "client",
		Batches: []batch{
			{Scenario: "topology", Runs: 12000},
			{Scenario: "topology-race", Runs: 300, Race: true},
		},
		Rule: "each seed draws a cluster whose membership, draining and reachability change over virtual minutes, refresh settings, callers and overlapping Close calls; the endpoint view is checked against the views served; non-trivial when a refresh changed the view; distinct by schedule hash and views",
		Real: real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C07", Group: "client",
		Batches: []batch{{Scenario: "payload", Runs: 15000}},
		Rule:    "each seed draws keys (slashes, dots, percent signs, unicode, control characters), values (empty, binary, large), TTLs and batches against scripted nodes holding the reference store, under connection faults; non-trivial when at least two operations succeeded; distinct by schedule hash and results",
		Real:    real, Stub: stub, Assume: simAssume,
	})
	def(&propDef{
		ID: "C08", Group: "client",
		Batches: []batch{
			{Scenario: "creds", Runs: 8000},
			{Scenario: "creds-race", Runs: 300, Race: true},
		},
		Rule: "each seed draws an authentication mode, the order and repetition of client options, and (for OIDC) an identity provider that delays, fails and issues short-lived tokens; every request's credentials are checked at the node; non-trivial when at least one authenticated request arrived; distinct by schedule hash and credentials seen",
		Real: real, Stub: append([]string{"OIDC identity provider (scripted HTTP server)", "TLS handshake (fake connection state)"}, stub...), Assume: simAssume,
	})
	def(&propDef{
		ID: "C09", Group: "client",
		Batches: []batch{
			{Scenario: "auth", Runs: 12000},
			{Scenario: "auth-race", Runs: 300, Race: true},
			{Scenario: "authconf", Runs: 2000},
		},
		Rule: "each seed draws an auth policy (bearer tokens, mTLS identities, server verifier, anonymous access, scopes), routes requiring scopes and concurrent requests with valid, invalid, mixed and missing credentials against the real middleware over the simulated network; a reference resolver decides the expected status and identity; authconf additionally tears, truncates and flips the policy file; non-trivial when requests were both admitted and refused; distinct by schedule hash and decisions",
		Real: append([]string{"gofiber/fiber, valyala/fasthttp server"}, real...), Stub: []string{"network (in-memory byte streams with faults)", "TLS handshake (fake connection state)", "external token verifier"}, Assume: simAssume,
	})
}
