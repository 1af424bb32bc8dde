package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"

	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
	"github.com/hyp3rd/hypercache/pkg/eviction"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// Eviction algorithms against small reference implementations: one thread is
// compared step by step, several threads are checked for linearizability.

func init() {
	simkit.Register(&simkit.Scenario{Name: "algo", Gen: genAlgo, Exec: execAlgo, After: afterAlgo})
}

// refAlgo is a reference eviction algorithm with value semantics.
type refAlgo interface {
	set(k string)
	get(k string) bool
	del(k string)
	evict() (string, bool)
	clone() refAlgo
	String() string
}

// refLRU keeps keys from least to most recently used.
type refLRU struct {
	cap  int
	keys []string
}

func (r *refLRU) find(k string) int {
	for i, x := range r.keys {
		if x == k {
			return i
		}
	}

	return -1
}

func (r *refLRU) drop(i int) { r.keys = append(append([]string{}, r.keys[:i]...), r.keys[i+1:]...) }

func (r *refLRU) set(k string) {
	if r.cap == 0 {
		return
	}
	if i := r.find(k); i >= 0 {
		r.drop(i)
	} else if len(r.keys) == r.cap {
		r.drop(0)
	}
	r.keys = append(r.keys, k)
}

func (r *refLRU) get(k string) bool {
	i := r.find(k)
	if i < 0 {
		return false
	}
	r.drop(i)
	r.keys = append(r.keys, k)

	return true
}

func (r *refLRU) del(k string) {
	if i := r.find(k); i >= 0 {
		r.drop(i)
	}
}

func (r *refLRU) evict() (string, bool) {
	if len(r.keys) == 0 {
		return "", false
	}
	k := r.keys[0]
	r.drop(0)

	return k, true
}

func (r *refLRU) clone() refAlgo { return &refLRU{r.cap, append([]string{}, r.keys...)} }
func (r *refLRU) String() string { return "lru" + fmt.Sprint(r.keys) }

// refLFU evicts the least frequently used key, the least recently used of those.
type refLFU struct {
	cap  int
	keys []string // in order of last use
	n    map[string]int
}

func (r *refLFU) touch(k string) {
	for i, x := range r.keys {
		if x == k {
			r.keys = append(append([]string{}, r.keys[:i]...), r.keys[i+1:]...)

			break
		}
	}
	r.keys = append(r.keys, k)
	r.n[k]++
}

func (r *refLFU) set(k string) {
	if r.cap == 0 {
		return
	}
	if r.n[k] == 0 && len(r.keys) == r.cap {
		r.evict()
	}
	r.touch(k)
}

func (r *refLFU) get(k string) bool {
	if r.n[k] == 0 {
		return false
	}
	r.touch(k)

	return true
}

func (r *refLFU) del(k string) {
	if r.n[k] == 0 {
		return
	}
	r.touch(k)
	r.keys = r.keys[:len(r.keys)-1]
	delete(r.n, k)
}

func (r *refLFU) evict() (string, bool) {
	best := ""
	for _, k := range r.keys {
		if best == "" || r.n[k] < r.n[best] {
			best = k
		}
	}
	if best == "" {
		return "", false
	}
	r.del(best)

	return best, true
}

func (r *refLFU) clone() refAlgo {
	c := &refLFU{r.cap, append([]string{}, r.keys...), map[string]int{}}
	for k, v := range r.n {
		c.n[k] = v
	}

	return c
}

func (r *refLFU) String() string {
	var b strings.Builder
	for _, k := range r.keys {
		fmt.Fprintf(&b, "%s:%d ", k, r.n[k])
	}

	return "lfu " + b.String()
}

// refClock gives a page one more round for every access since the hand last
// passed it.
type refClock struct {
	cap   int
	slots []string
	n     []int
	hand  int
}

func newRefClock(capacity int) *refClock {
	return &refClock{capacity, make([]string, min(capacity, 64)), make([]int, min(capacity, 64)), 0}
}

func (r *refClock) find(k string) int {
	for i, x := range r.slots {
		if x == k {
			return i
		}
	}

	return -1
}

func (r *refClock) next() { r.hand = (r.hand + 1) % len(r.slots) }

func (r *refClock) set(k string) {
	if r.cap == 0 {
		return
	}
	if i := r.find(k); i >= 0 {
		r.n[i]++

		return
	}
	if free := r.find(""); free < 0 {
		r.evict()
	}
	for r.slots[r.hand] != "" {
		r.next()
	}
	r.slots[r.hand], r.n[r.hand] = k, 1
	r.next()
}

func (r *refClock) get(k string) bool {
	i := r.find(k)
	if i < 0 {
		return false
	}
	r.n[i]++

	return true
}

func (r *refClock) del(k string) {
	if i := r.find(k); i >= 0 {
		r.slots[i] = ""
	}
}

func (r *refClock) evict() (string, bool) {
	any := false
	for _, k := range r.slots {
		any = any || k != ""
	}
	if !any {
		return "", false
	}
	for {
		if k := r.slots[r.hand]; k != "" {
			if r.n[r.hand] == 0 {
				r.slots[r.hand] = ""

				return k, true
			}
			r.n[r.hand]--
		}
		r.next()
	}
}

func (r *refClock) clone() refAlgo {
	return &refClock{r.cap, append([]string{}, r.slots...), append([]int{}, r.n...), r.hand}
}

func (r *refClock) String() string { return fmt.Sprint("clock", r.slots, r.n, r.hand) }

// refSharded routes keys like the data map does and evicts round-robin.
type refSharded struct {
	shards []refAlgo
	cursor int
}

func (r *refSharded) of(k string) refAlgo {
	return r.shards[int(cache.Hash(k))&(len(r.shards)-1)]
}
func (r *refSharded) set(k string)      { r.of(k).set(k) }
func (r *refSharded) get(k string) bool { return r.of(k).get(k) }
func (r *refSharded) del(k string)      { r.of(k).del(k) }
func (r *refSharded) evict() (string, bool) {
	start := r.cursor
	r.cursor++
	for i := range r.shards {
		if k, ok := r.shards[(start+i)%len(r.shards)].evict(); ok {
			return k, true
		}
	}

	return "", false
}

func (r *refSharded) clone() refAlgo {
	c := &refSharded{cursor: r.cursor}
	for _, s := range r.shards {
		c.shards = append(c.shards, s.clone())
	}

	return c
}

func (r *refSharded) String() string { return fmt.Sprint(r.cursor, r.shards) }

func newRef(name string, capacity int) refAlgo {
	switch name {
	case "lru", "cawolfu":
		return &refLRU{cap: capacity}
	case "lfu":
		return &refLFU{cap: capacity, n: map[string]int{}}
	default:
		return newRefClock(capacity)
	}
}

func newRefSharded(name string, capacity, shards int) refAlgo {
	if shards <= 1 {
		return newRef(name, capacity)
	}
	r := &refSharded{}
	for range shards {
		r.shards = append(r.shards, newRef(name, (capacity+shards-1)/shards))
	}

	return r
}

func genAlgo(r *simkit.Rand, tier string) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{
		"algo": int64(r.N(5)), "cap": int64(r.N(6)), "keys": int64(r.I(1, 7)), "shards": simkit.Pick(r, int64(0), 0, 2, 4),
	}}
	threads, ops := 1, 40
	if r.P(1, 2) {
		threads, ops = r.I(2, 3), 6
	} else if r.P(1, 8) {
		p.P["keys"], p.P["cap"], ops = 90, int64(r.I(65, 80)), 260 // beyond what is allocated up front
	}
	for range threads {
		var l []simkit.Op
		for range r.I(1, ops) {
			l = append(l, simkit.Op{
				K: []string{"set", "get", "delete", "evict"}[r.PickW(6, 4, 2, 3)],
				A: int64(r.N(int(p.P["keys"]))),
			})
		}
		p.Threads = append(p.Threads, l)
	}

	return p
}

type algoIn struct{ op, key string }

type algoOut struct {
	ok  bool
	key string
}

type algoRun struct {
	name      string
	evs       []simkit.Event
	cap       int
	linearise bool
}

func execAlgo(env *simkit.Env) {
	name := append(append([]string{}, algos...), "arc")[env.P("algo")%5]
	capacity, shards := env.PI("cap"), env.PI("shards")
	if name == "arc" {
		shards = 0
	}
	var alg eviction.IAlgorithm
	var err error
	switch {
	case name == "arc":
		alg, err = eviction.NewARCAlgorithm(capacity)
	case shards > 1:
		alg, err = eviction.NewSharded(name, capacity, shards)
	default:
		alg, err = eviction.NewEvictionAlgorithm(name, capacity)
	}
	if err != nil {
		env.Fail("setup", "constructing %s(%d): %v", name, capacity, err)
	}
	single := len(env.Plan.Threads) == 1
	var ref refAlgo
	if single && name != "arc" {
		ref = newRefSharded(name, capacity, shards)
	}
	rec := simkit.NewRec(len(env.Plan.Threads))
	// ARC and the sharded wrapper under concurrency: what may be resident.
	env.Par(func(t int, ops []simkit.Op) {
		for i, op := range ops {
			k := key(op.A)
			in := algoIn{op.K, k}
			out := rec.Do(t, op.K, in, func() any {
				switch op.K {
				case "set":
					alg.Set(k, k)
				case "get":
					v, ok := alg.Get(k)
					if ok && v != any(k) {
						env.Fail("wrong-value", "Get(%s) returned %v", k, v)
					}

					return algoOut{ok: ok}
				case "delete":
					alg.Delete(k)
				case "evict":
					k, ok := alg.Evict()

					return algoOut{ok, k}
				}

				return algoOut{}
			}).(algoOut)
			env.Ops(1)
			if ref != nil {
				want := apply(ref, in)
				if want != out {
					env.Fail("wrong-victim", "%s(%d) step %d %s(%s): got %+v, the reference says %+v; reference now %s", name, capacity, i, op.K, k, out, want, ref)
				}
			}
			if single && name == "arc" {
				// checked after the run
				continue
			}
		}
	})
	evs := rec.All()
	// Drain: everything resident comes out exactly once, and no more than fits.
	resident := residents(env, name, evs)
	drained := map[string]bool{}
	limit := capacity
	if shards > 1 {
		limit = (capacity + shards - 1) / shards * shards
	}
	for {
		if ref != nil {
			want, wok := ref.evict()
			got, ok := alg.Evict()
			if want != got || ok != wok {
				env.Fail("wrong-victim", "%s(%d) draining: evicted %q,%v, the reference says %q,%v", name, capacity, got, ok, want, wok)
			}
			if !ok {
				break
			}

			continue
		}
		k, ok := alg.Evict()
		if !ok {
			break
		}
		if drained[k] {
			env.Fail("evicted-twice", "%s evicted %s twice without it being set again", name, k)
		}
		drained[k] = true
		if !resident[k] {
			env.Fail("evicted-absent", "%s evicted %s, which it cannot hold", name, k)
		}
		if len(drained) > limit {
			env.Fail("over-capacity", "%s with capacity %d held more than %d keys: %v", name, capacity, limit, drained)
		}
	}
	if single && name == "arc" {
		checkARC(env, capacity, evs)
	}
	sets := 0
	for _, e := range evs {
		if e.Op == "set" {
			sets++
		}
		env.Observe(fmt.Sprint(e.Op, e.Out))
	}
	if sets > 1 {
		env.Nontrivial()
	}
	env.Data = &algoRun{name, evs, capacity, !single && name != "arc" && shards <= 1}
}

func apply(r refAlgo, in algoIn) algoOut {
	switch in.op {
	case "set":
		r.set(in.key)
	case "get":
		return algoOut{ok: r.get(in.key)}
	case "delete":
		r.del(in.key)
	case "evict":
		k, ok := r.evict()

		return algoOut{ok, k}
	}

	return algoOut{}
}

// residents returns the keys that may be held after the history: set, and not
// certainly removed afterwards.
func residents(env *simkit.Env, name string, evs []simkit.Event) map[string]bool {
	last := map[string]int64{}
	first, ever := map[string]bool{}, map[string]bool{}
	for _, e := range evs {
		if in := e.In.(algoIn); in.op == "set" {
			first[in.key], ever[in.key] = true, true
			last[in.key] = max(last[in.key], e.Ret)
		}
	}
	for _, e := range evs {
		in, out := e.In.(algoIn), e.Out.(algoOut)
		gone := ""
		if in.op == "delete" {
			gone = in.key
		}
		if in.op == "evict" && out.ok {
			gone = out.key
			if !ever[gone] {
				env.Fail("evicted-absent", "%s evicted %q, which was never set", name, gone)
			}
		}
		if gone != "" && e.Call > last[gone] {
			delete(first, gone)
		}
	}

	return first
}

// checkARC checks the sequential contract of ARC, whose policy leaves the choice
// of victim to its adaptation: at most capacity keys resident, the key just set
// resident, an eviction always possible while something is.
func checkARC(env *simkit.Env, capacity int, evs []simkit.Event) {
	may := map[string]bool{} // possibly resident
	must := ""               // certainly resident: the key used last
	for i, e := range evs {
		in, out := e.In.(algoIn), e.Out.(algoOut)
		switch in.op {
		case "set":
			if capacity > 0 {
				may[in.key], must = true, in.key
			}
		case "get":
			if out.ok && !may[in.key] {
				env.Fail("phantom", "arc: step %d: Get(%s) hit a key that was removed", i, in.key)
			}
			if !out.ok && must == in.key {
				env.Fail("lost-key", "arc: step %d: Get(%s) missed the key set last", i, in.key)
			}
			if !out.ok {
				delete(may, in.key)
			}
		case "delete":
			delete(may, in.key)
			if must == in.key {
				must = ""
			}
		case "evict":
			if !out.ok && must != "" {
				env.Fail("nothing-evicted", "arc: step %d: Evict found nothing while %s is resident", i, must)
			}
			if out.ok {
				if !may[out.key] {
					env.Fail("phantom", "arc: step %d: Evict returned %s, which is not resident", i, out.key)
				}
				delete(may, out.key)
				if must == out.key {
					must = ""
				}
			}
		}
	}
}

func afterAlgo(env *simkit.Env) {
	run, ok := env.Data.(*algoRun)
	if !ok || !run.linearise {
		return
	}
	model := porcupine.Model{
		Init: func() any { return newRef(run.name, run.cap) },
		Step: func(state, in, out any) (bool, any) {
			r := state.(refAlgo).clone()
			want := apply(r, in.(simkit.Event).In.(algoIn))

			return want == out.(algoOut), r
		},
		Equal:             func(a, b any) bool { return a.(refAlgo).String() == b.(refAlgo).String() },
		DescribeOperation: func(in, out any) string { return fmt.Sprint(in, out) },
	}
	evs := run.evs
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].Call < evs[j].Call })
	msg, decided := simkit.Linearizable(model, evs, 5*time.Second)
	if !decided {
		env.Inconclusive()
	} else if msg != "" {
		env.Fail("not-linearizable", "%s(%d): %s", run.name, run.cap, msg)
	}
}
