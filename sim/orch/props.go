package main

// batch is one search: a scenario, how many seeds, and which build runs it.
type batch struct {
	Scenario string
	Runs     int  // seeds in the quick tier
	Thorough int  // seeds in the thorough tier (0: 40 times quick)
	Race     bool // run under the race detector
	Solo     bool // one run per process
	Chunk    int  // seeds per process (default 200)
	Limit    int  // real seconds one run may take (default 90)
}

type propDef struct {
	ID      string
	Group   string
	Batches []batch
	Rule    string
	Real    []string
	Stub    []string
	Assume  []string
	// QuickSec and ThoroughSec bound the search (not the build).
	QuickSec, ThoroughSec int
}

var props = map[string]*propDef{}

func def(p *propDef) {
	if p.QuickSec == 0 {
		p.QuickSec = 60
	}
	if p.ThoroughSec == 0 {
		p.ThoroughSec = 600
	}
	props[p.ID] = p
}

var simAssume = []string{
	"one simulated processor: goroutines switch only at synchronisation operations, at the yield points inserted between (and inside) statements of the module under test, and where they block",
	"sequentially consistent memory, except in the race-detector batches, which flag any unsynchronised pair of accesses",
	"the standard library and third-party modules run unmodified apart from the documented runtime hooks (scheduler pick, select order, map order, randomness, virtual time, in-memory network)",
}
